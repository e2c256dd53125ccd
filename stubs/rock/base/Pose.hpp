// Minimal stand-in for Rock's base/Pose.hpp.
#ifndef VC_BASE_POSE_HPP
#define VC_BASE_POSE_HPP
#include <base/Eigen.hpp>
#include <base/Float.hpp>
#include <cmath>
namespace base {
    struct Pose {
        Position position; Orientation orientation;
        Pose() : position(Position::Zero()), orientation(Orientation::Identity()) {}
        Pose(Position const& p, Orientation const& o) : position(p), orientation(o) {}
        explicit Pose(Eigen::Affine3d const& t) { fromTransform(t); }
        explicit Pose(Vector6d const& v) {
            position = v.tail<3>();
            Eigen::Vector3d r = v.head<3>(); double a = r.norm();
            if (a > 1e-12) orientation = Eigen::AngleAxisd(a, r / a); else orientation = Orientation::Identity();
        }
        void fromTransform(Eigen::Affine3d const& t) { position = t.translation(); orientation = Orientation(t.linear()); }
        Eigen::Affine3d toTransform() const { Eigen::Affine3d t; t.setIdentity(); t.linear() = orientation.toRotationMatrix(); t.translation() = position; return t; }
        Vector6d toVector6d() const { Vector6d v; Eigen::AngleAxisd aa(orientation); v.head<3>() = aa.axis() * aa.angle(); v.tail<3>() = position; return v; }
        double getYaw() const { return std::atan2(2.0*(orientation.x()*orientation.y() + orientation.w()*orientation.z()),
            orientation.x()*orientation.x() + orientation.w()*orientation.w() - orientation.z()*orientation.z() - orientation.y()*orientation.y()); }
    };
    struct Pose2D {
        Vector2d position; double orientation;
        Pose2D() : position(Vector2d::Zero()), orientation(0) {}
        Pose2D(Vector2d const& p, double o) : position(p), orientation(o) {}
    };
}
#endif
