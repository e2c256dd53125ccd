#ifndef VC_LS_HPP
#define VC_LS_HPP
#include <base/Eigen.hpp>
#include <base/Time.hpp>
#include <vector>
#include <stdint.h>
namespace base { namespace samples {
    struct LaserScan { Time time; double start_angle, angular_resolution, speed; std::vector<uint32_t> ranges; uint32_t minRange, maxRange; std::vector<float> remission; };
} }
#endif
