#ifndef VC_RBS_HPP
#define VC_RBS_HPP
#include <base/Eigen.hpp>
#include <base/Pose.hpp>
#include <base/Time.hpp>
#include <string>
namespace base { namespace samples {
    struct RigidBodyState {
        Time time; std::string sourceFrame, targetFrame;
        Position position; Matrix3d cov_position; Orientation orientation; Matrix3d cov_orientation;
        RigidBodyState() { position.setZero(); orientation.setIdentity(); cov_position.setZero(); cov_orientation.setZero(); }
        Affine3d getTransform() const { Affine3d r; r.setIdentity(); r.rotate(orientation); r.translation() = position; return r; }
        void setTransform(Affine3d const& t) { position = t.translation(); orientation = Orientation(t.linear()); }
        bool hasValidCovariance(Matrix3d const& c) const { return !(c(0,0) != c(0,0)); }
        bool hasValidPositionCovariance() const { return hasValidCovariance(cov_position); }
        bool hasValidOrientationCovariance() const { return hasValidCovariance(cov_orientation); }
        operator Affine3d() const { return getTransform(); }
    };
} }
#endif
