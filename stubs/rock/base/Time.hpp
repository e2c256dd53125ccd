// Minimal stand-in for Rock's base/Time.hpp.
#ifndef VC_BASE_TIME_HPP
#define VC_BASE_TIME_HPP
#include <stdint.h>
namespace base {
    struct Time {
        int64_t microseconds;
        Time() : microseconds(0) {}
        static Time now() { return Time(); }
        static Time fromMicroseconds(int64_t v) { Time t; t.microseconds = v; return t; }
        int64_t toMicroseconds() const { return microseconds; }
        bool operator==(Time const& o) const { return microseconds == o.microseconds; }
        bool operator<(Time const& o) const { return microseconds < o.microseconds; }
    };
}
#endif
