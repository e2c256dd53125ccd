// Minimal stand-in for Rock's numeric/PlaneFitting.hpp (weighted least squares plane z = a x + b y + c)
#ifndef VC_PLANEFIT_HPP
#define VC_PLANEFIT_HPP
#include <Eigen/Core>
#include <Eigen/Cholesky>
namespace numeric {
    template<class S> struct PlaneFitting {
        typedef Eigen::Matrix<S,3,3> Matrix3; typedef Eigen::Matrix<S,3,1> Vector3;
        S x, y, z, xx, yy, xy, xz, yz, zz, n;
        struct Result { Matrix3 cov; Vector3 coeffs; S residuals;
            Vector3 getCoeffs() const { return coeffs; } Vector3 getCoefficients() const { return coeffs; } Matrix3 getCovariance() const { return cov; } S getResiduals() const { return residuals; } };
        PlaneFitting() { clear(); }
        explicit PlaneFitting(Vector3 const& p, double w = 1.0) { clear(); update(p, w); }
        void clear() { x=y=z=xx=yy=xy=xz=yz=zz=n=0; }
        void update(Vector3 const& p, S w = 1.0) { x+=p.x()*w; y+=p.y()*w; z+=p.z()*w; xx+=p.x()*p.x()*w; yy+=p.y()*p.y()*w; zz+=p.z()*p.z()*w; xy+=p.x()*p.y()*w; xz+=p.x()*p.z()*w; yz+=p.y()*p.z()*w; n+=w; }
        void update(PlaneFitting const& o) { x+=o.x; y+=o.y; z+=o.z; xx+=o.xx; yy+=o.yy; xy+=o.xy; xz+=o.xz; yz+=o.yz; zz+=o.zz; n+=o.n; }
        void scale(S f) { x*=f; y*=f; z*=f; xx*=f; yy*=f; xy*=f; xz*=f; yz*=f; zz*=f; n*=f; }
        Vector3 getCoeffs() const { return solve().coeffs; }
        Matrix3 getMatrix() const { Matrix3 A; A << xx,xy,x, xy,yy,y, x,y,n; return A; }
        Result solve() const { Result r; Matrix3 A = getMatrix(); Vector3 b(xz, yz, z); Eigen::LDLT<Matrix3> l(A); r.coeffs = l.solve(b); r.cov = A.inverse();
            r.residuals = zz - (r.coeffs.transpose() * b)(0); return r; }
        S getWeight() const { return n; }
    };
}
#endif
