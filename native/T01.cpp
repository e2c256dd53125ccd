#include "envmodel.h"
#include <Eigen/Geometry>
typedef TransformWithUncertainty TU; typedef PointWithUncertainty PU; typedef TU::Covariance C6;
static Eigen::Vector3d rv(double a) { return Eigen::Vector3d(rndd(-a, a), rndd(-a, a), rndd(-a, a)); }
static Transform tf(double ang) { Eigen::Vector3d r = rv(ang); Transform t(Eigen::Affine3d::Identity()); if(r.norm() > 0) t.linear() = Eigen::AngleAxisd(r.norm(), r / r.norm()).toRotationMatrix(); t.translation() = rv(3); return t; }
static C6 cv() { Eigen::Matrix<double, 6, 6> a; for(int i = 0; i < 36; i++) a(i) = rndd(-1, 1); return a * a.transpose() * .01; }
static double dist(Transform const& a, Transform const& b) { return (a.matrix() - b.matrix()).norm(); }
typedef Eigen::Matrix<double, 6, 1> V6;
static V6 par(Transform const& t) { Eigen::AngleAxisd a(t.rotation()); V6 v; v << a.axis() * a.angle(), t.translation(); return v; }
static Transform mk(V6 const& v) { Transform t(Eigen::Affine3d::Identity()); Eigen::Vector3d r = v.head<3>(); if(r.norm() > 1e-12) t.linear() = Eigen::AngleAxisd(r.norm(), r / r.norm()).toRotationMatrix(); t.translation() = v.tail<3>(); return t; }
template<class F> static C6 jac(F f, V6 const& p) { C6 J; const double h = 1e-5; for(int i = 0; i < 6; i++) { V6 a = p, b = p; a(i) += h; b(i) -= h; J.col(i) = (f(a) - f(b)) / (2 * h); } return J; }
static void tree()
{
    CASE(); Environment* env = new Environment; int n = rnd(1, 8), m = rnd(0, 3), nm = rnd(0, 4); std::vector<FrameNode*> F; std::vector<int> par; std::vector<Transform> T; F.push_back(env->getRootNode()); par.push_back(-1); T.push_back(Transform(Eigen::Affine3d::Identity())); std::vector<Transform> G(1, T[0]); bool unc = rnd(0, 1);
    std::ostringstream o; o << "tree"; 
    for(int i = 1; i <= n + m; i++) { Transform t = tf(3); FrameNode* f = rnd(0, 1) ? new FrameNode(t) : new FrameNode(); F.push_back(f); int p = i <= n ? rnd(0, i - 1) : i == n + 1 ? -1 : rnd(n + 1, i - 1); if(p >= 0) F[p]->addChild(f); else env->attachItem(f);
        T.push_back(t); if(unc && rnd(0, 1)) f->setTransform(TU(t, cv())); else f->setTransform(t); par.push_back(p); G.push_back(p >= 0 ? Transform(G[p] * t) : Transform(Eigen::Affine3d::Identity())); o << " " << p; }
    g_ctx = o.str(); std::vector<TMap*> M; std::vector<int> mf; for(int i = 0; i < nm; i++) { TMap* t = new TMap; int f = rnd(0, n + m); env->attachItem(t); t->setFrameNode(F[f]); M.push_back(t); mf.push_back(f); }
    for(int i = 0; i <= n + m; i++) { CHECK(dist(F[i]->getTransform(), T[i]) == 0 || i == 0, "a frame has the transform it was given", i);
      for(int j = 0; j <= n + m; j++) { bool same = (i <= n) == (j <= n); bool t1 = false, t2 = false; Transform r, e; if(same) e = Transform(G[j].inverse() * G[i]); TU u(e);
        try { r = env->relativeTransform(F[i], F[j]); } catch(std::runtime_error const&) { t1 = true; } try { u = env->relativeTransformWithUncertainty(F[i], F[j]); } catch(std::runtime_error const&) { t2 = true; }
        CHECK(t1 == !same && t2 == !same, "frames without a common root have no relative transform", i << " to " << j);
        if(same) { CHECK(dist(r, e) < 1e-9 && dist(u.getTransform(), e) < 1e-9 && dist(F[i]->relativeTransform(F[j]), e) < 1e-9, "the relative transform leads from one frame to the other", i << " to " << j);
            bool un = false; if(i != j) { int a = i, b = j; for(; a >= 0; a = par[a]) un |= par[a] >= 0 && F[a]->getTransformWithUncertainty().hasUncertainty(); for(; b >= 0; b = par[b]) un |= par[b] >= 0 && F[b]->getTransformWithUncertainty().hasUncertainty(); }
            CHECK(u.hasUncertainty() == un, "a relative transform is uncertain if one on the way is", i << " to " << j); } } }
    for(int i = 0; i < nm; i++) for(int j = 0; j < nm; j++) if((mf[i] <= n) == (mf[j] <= n)) { CHECK(dist(env->relativeTransform(M[i], M[j]), G[mf[j]].inverse() * G[mf[i]]) < 1e-9 && dist(env->relativeTransformWithUncertainty(M[i], M[j]).getTransform(), G[mf[j]].inverse() * G[mf[i]]) < 1e-9, "the relative transform of maps is that of their frames", i << " to " << j); }
    // setting a transform
    for(int i = 1; i <= n; i++) { TU a(T[i], cv()); F[i]->setTransform(a); CHECK(F[i]->getTransformWithUncertainty().hasUncertainty() && F[i]->getTransformWithUncertainty().getCovariance() == a.getCovariance(), "a frame keeps the uncertainty it was given", i); F[i]->setTransform(T[i]); CHECK(!F[i]->getTransformWithUncertainty().hasUncertainty() && F[i]->getTransformWithUncertainty().getCovariance().isZero(), "setting a certain transform removes the uncertainty", i); }
    delete env;
}
static void near(C6 const& a, C6 const& b, double tol, const char* what) { double s = std::max(a.norm(), b.norm()); if((a - b).norm() > tol * s) { std::ostringstream o; o << "\n" << a << "\n instead of\n" << b; CHECK(false, what, o.str()); } }
static void uncertain()
{
    CASE(); double ang = rnd(0, 1) ? .02 : rnd(0, 1) ? .15 : 1.2; bool u1 = rnd(0, 2), u2 = rnd(0, 2); Transform a = tf(ang), b = tf(ang); C6 ca = cv(), cb = cv(); if(rnd(0, 3) == 0) { ca.topRows<3>().setZero(); ca.leftCols<3>().setZero(); cb.topRows<3>().setZero(); cb.leftCols<3>().setZero(); if(rnd(0, 1)) { a.translation() *= 100; b.translation() *= 100; } } TU A = u1 ? TU(a, ca) : TU(a), B = u2 ? TU(b, cb) : TU(b); if(!u1) ca.setZero(); if(!u2) cb.setZero();
    std::ostringstream o; o << "rotations up to " << ang << ", uncertain " << u1 << u2 << " translations " << a.translation().transpose() << ", " << b.translation().transpose(); g_ctx = o.str();
    CHECK(A.hasUncertainty() == u1 && A.getCovariance() == ca && dist(A.getTransform(), a) == 0, "a transform keeps the uncertainty it was given", "");
    TU D; CHECK(!D.hasUncertainty(), "a transform is certain unless an uncertainty is given", ""); CHECK(!TU::Identity().hasUncertainty() && dist(TU::Identity().getTransform(), Transform(Eigen::Affine3d::Identity())) == 0, "identity", "");
    TU P = A * B, Q = A.composition(B), I = A.inverse(); CHECK(dist(P.getTransform(), a * b) < 1e-9 && dist(Q.getTransform(), a * b) < 1e-9, "the product of transforms", ""); CHECK(dist(I.getTransform(), a.inverse()) < 1e-9, "the inverse of a transform", "");
    CHECK(P.hasUncertainty() == (u1 || u2) && I.hasUncertainty() == u1, "a result is uncertain exactly if an operand is", ""); if(u1 || u2) near(P.getCovariance(), Q.getCovariance(), 1e-12, "composition is the product");
    double tol = ang < .1 ? 1e-5 : 5e-3;
    if(ang < 1) {
        if(u1 || u2) { C6 J2 = jac([&](V6 const& v) { return par(mk(v) * b); }, par(a)), J1 = jac([&](V6 const& v) { return par(a * mk(v)); }, par(b)); near(P.getCovariance(), J2 * ca * J2.transpose() + J1 * cb * J1.transpose(), tol, "the covariance of a product is that of its operands, to first order"); }
        if(u1) { C6 J = jac([&](V6 const& v) { return par(mk(v).inverse()); }, par(a)); near(I.getCovariance(), J * ca * J.transpose(), tol, "the covariance of an inverse is that of the transform, to first order"); near(I.inverse().getCovariance(), ca, 2 * tol, "the inverse of the inverse has the covariance of the transform"); }
    }
    // inverse compositions undo the composition
    TU X = P.compositionInv(B), Y = P.preCompositionInv(A); CHECK(dist(X.getTransform(), a) < 1e-9 && dist(Y.getTransform(), b) < 1e-9, "an inverse composition undoes the composition", ""); CHECK(X.hasUncertainty() == (u1 || u2) && Y.hasUncertainty() == (u1 || u2), "a result is uncertain exactly if an operand is", "inverse composition");
    if(u1 || u2) { if((X.getCovariance() - ca).norm() > 1e-8 || (Y.getCovariance() - cb).norm() > 1e-8) CHECK(false, "an inverse composition recovers the covariance", (X.getCovariance() - ca).norm() << " " << (Y.getCovariance() - cb).norm()); }
    // points
    Eigen::Vector3d p = rv(3); Eigen::Matrix3d cp = cv().topLeftCorner(3, 3); bool up = rnd(0, 1); PU pt = up ? PU(p, cp) : PU(p); if(!up) cp.setZero(); CHECK(pt.hasUncertainty() == up && pt.getPoint() == p && pt.getCovariance() == cp, "a point keeps the uncertainty it was given", "");
    PU r = A * pt; CHECK((r.getPoint() - a * p).norm() < 1e-9, "the transformed point", ""); CHECK(r.hasUncertainty() == (u1 || up), "a result is uncertain exactly if an operand is", "point");
    if(ang < 1) { Eigen::Matrix<double, 3, 6> J; V6 v = par(a); for(int i = 0; i < 6; i++) { V6 x = v, y = v; x(i) += 1e-5; y(i) -= 1e-5; J.col(i) = (mk(x) * p - mk(y) * p) / 2e-5; } Eigen::Matrix3d e = J * ca * J.transpose() + a.linear() * cp * a.linear().transpose(); CHECK((r.getCovariance() - e).norm() <= tol * (1e-12 + e.norm()), "the covariance of a transformed point is that of its operands, to first order", ""); }
    // rigid body states
    base::samples::RigidBodyState s; s.position = p; s.orientation = Eigen::Quaterniond(a.linear()); s.cov_position = cb.bottomRightCorner(3, 3); s.cov_orientation = cp; TU R(s); CHECK((R.getTransform().translation() - p).norm() < 1e-12 && (R.getTransform().linear() - a.linear()).norm() < 1e-9 && R.hasUncertainty() && R.getCovariance().topLeftCorner(3, 3) == cp && R.getCovariance().bottomRightCorner(3, 3) == s.cov_position && R.getCovariance().topRightCorner(3, 3).isZero() && R.getCovariance().bottomLeftCorner(3, 3).isZero(), "a rigid body state is taken over", "");
    base::samples::RigidBodyState s2; R.copyToRigidBodyState(s2); CHECK((s2.position - p).norm() < 1e-12 && s2.orientation.angularDistance(s.orientation) < 1e-7 && s2.cov_orientation == cp && s2.cov_position == s.cov_position, "a rigid body state is written", "");
}
void run_all() { for(int i = 0; i < 400 * g_scale; i++) { tree(); uncertain(); } }
