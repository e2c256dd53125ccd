// Minimal stand-in for Rock's base/Eigen.hpp (the Rock libraries are not installed in this sandbox).
#ifndef VC_BASE_EIGEN_HPP
#define VC_BASE_EIGEN_HPP
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <limits>
namespace base {
    typedef Eigen::Vector2d Vector2d;
    typedef Eigen::Vector3d Vector3d;
    typedef Eigen::Vector4d Vector4d;
    typedef Eigen::Matrix<double,6,1> Vector6d;
    typedef Eigen::Matrix<double,6,6> Matrix6d;
    typedef Eigen::Matrix3d Matrix3d;
    typedef Eigen::Quaterniond Quaterniond;
    typedef Eigen::AngleAxisd AngleAxisd;
    typedef Eigen::Affine3d Affine3d;
    typedef Eigen::Affine3d Transform3d;
    typedef Eigen::Vector3d Position;
    typedef Eigen::Quaterniond Orientation;
}
#endif
