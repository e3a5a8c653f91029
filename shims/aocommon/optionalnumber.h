#ifndef VP_AOCOMMON_OPTIONALNUMBER_H
#define VP_AOCOMMON_OPTIONALNUMBER_H
#include <optional>
namespace aocommon {
template <class T> class OptionalNumber : public std::optional<T> { public: using std::optional<T>::optional; bool HasValue() const { return this->has_value(); } T Value() const { return this->value(); } T ValueOr(T d) const { return this->value_or(d); } };
}
#endif
