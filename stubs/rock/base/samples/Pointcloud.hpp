#ifndef VC_PC_HPP
#define VC_PC_HPP
#include <base/Eigen.hpp>
#include <base/Time.hpp>
#include <vector>
namespace base { namespace samples {
    struct Pointcloud { Time time; std::vector<Vector3d> points; std::vector<Vector4d> colors; };
} }
#endif
