#ifndef VC_DI_HPP
#define VC_DI_HPP
#include <base/Eigen.hpp>
#include <base/Time.hpp>
#include <vector>
#include <stdint.h>
namespace base { namespace samples {
    struct DistanceImage { Time time; uint16_t width, height; float scale_x, scale_y, center_x, center_y; std::vector<float> data;
      template<class T> bool getScenePoint(size_t, size_t, Eigen::Matrix<T,3,1>&) const { return false; } };
} }
#endif
