#ifndef VC_SPLINE_HPP
#define VC_SPLINE_HPP
#include <base/Eigen.hpp>
#include <vector>
namespace base { namespace geometry {
    template<int D> struct Spline { std::vector<Eigen::Matrix<double,D,1> > pts;
      std::vector<Eigen::Matrix<double,D,1> > sample(double) const { return pts; }
      void interpolate(std::vector<Eigen::Matrix<double,D,1> > const& p) { pts = p; } };
    typedef Spline<3> Spline3;
} }
#endif
