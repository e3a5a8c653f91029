// Stand-in for aocommon's span: an adaptor that does not own its elements.
#ifndef VP_AOCOMMON_SPAN_H
#define VP_AOCOMMON_SPAN_H
#include <aocommon/xt/utensor.h>
namespace aocommon::xt {
template <class T, size_t N> using Span = ::xt::xadaptor<T, N>;
template <class S, size_t N, ::xt::layout_type L> auto CreateSpan(::xt::xtensor_container<S, N, L>& t) { return Span<typename S::value_type, N>(t.data(), t.size(), t.shape()); }
template <class S, size_t N, ::xt::layout_type L> auto CreateSpan(const ::xt::xtensor_container<S, N, L>& t) { return Span<const typename S::value_type, N>(t.data(), t.size(), t.shape()); }
template <class T, class I, size_t N> Span<T, N> CreateSpan(T* p, const std::array<I, N>& s) { return Span<T, N>(p, ::xt::total(::xt::to_shape<N>(s)), ::xt::to_shape<N>(s)); }
template <class T, size_t N> Span<T, N> CreateSpan(T* p, const size_t (&s)[N]) { return CreateSpan(p, ::xt::shape(s)); }
}  // namespace aocommon::xt
#endif
