#ifndef VC_BASE_FLOAT_HPP
#define VC_BASE_FLOAT_HPP
#include <limits>
namespace base {
    template<class T> inline T unset() { return std::numeric_limits<T>::quiet_NaN(); }
    template<class T> inline bool isUnset(T v) { return v != v; }
}
#endif
