// Stand-in for aocommon's tensor without initialisation.
#ifndef VP_AOCOMMON_UTENSOR_H
#define VP_AOCOMMON_UTENSOR_H
#include <aocommon/uvector.h>
#include <xtensor/mini.hpp>
namespace aocommon::xt {
template <class T, size_t N, ::xt::layout_type L = ::xt::layout_type::row_major> using UTensor = ::xt::xtensor_container<::xt::uvector<T, aocommon::poison_allocator<T>>, N, L>;
}
#endif
