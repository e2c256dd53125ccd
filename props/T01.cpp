#include <vc.h>
#include <envire/core/Environment.cpp>
#include <envire/core/FrameNode.cpp>
#include <envire/core/Transform.cpp>
using namespace envire;
typedef TransformWithUncertainty TU;
// A transform is seen as an arrow between two coordinate frames, numbers in its first two entries; the identity is (-1,-1).
// Each frame has a number N and a parent P (ghost state); the transform of a frame leads from it to its parent.
static double N(const FrameNode* f) { return *(const int*)((const char*)f + 1000); }
static FrameNode* P(const FrameNode* f) { return *(FrameNode**)((char*)f + 1008); }
static FrameNode* RT(const FrameNode* f) { return *(FrameNode**)((char*)f + 1016); }   // the root above it
static double& src(Transform const& t) { return ((double*)&t)[0]; }
static double& dst(Transform const& t) { return ((double*)&t)[1]; }
static bool is_id(Transform const& t) { return src(t) == -1 && dst(t) == -1; }
static bool unc(const FrameNode* f) { return f->frame.uncertain; }
static void known(const FrameNode* f)
{
    vc_assume(N(f) >= 0); FrameNode* p = P(f); vc_assume(vc_external(RT(f)) && (!p || vc_external(p))); vc_assume(p ? RT(p) == RT(f) : RT(f) == f);
    if(p) { vc_assume(N(p) >= 0 && src(f->frame.trans) == N(f) && dst(f->frame.trans) == N(p)); }
}
VC_SPEC const FrameNode* c_parent(const FrameNode* f) { known(f); return P(f); }
VC_SPEC FrameNode* c_root(const FrameNode* f) { return RT(f); }
static void mul(Transform* r, Transform const& a, Transform const& b)
{
    vc_assert(is_id(a) || is_id(b) || src(a) == dst(b), "transforms are applied to the frame they belong to");
    double s = is_id(b) ? src(a) : src(b), d = is_id(a) ? dst(b) : dst(a); src(*r) = s; dst(*r) = d;
}
VC_SPEC void c_mul(Transform* r, Transform const* a, Transform const& b) { mul(r, *a, b); }
VC_SPEC void c_inv(Transform* r, Transform const* a, int) { double s = src(*a), d = dst(*a); src(*r) = d; dst(*r) = s; }
VC_SPEC void c_identity(Transform* r) { src(*r) = -1; dst(*r) = -1; }
VC_SPEC void c_umul(TU* r, TU const* a, TU const& b) { mul(&r->trans, a->trans, b.trans); r->uncertain = a->uncertain || b.uncertain; }
VC_SPEC void c_uinv(TU* r, TU const* a) { c_inv(&r->trans, &a->trans, 0); r->uncertain = a->uncertain; }
// the loop: the transform so far leads from the frame asked for to the current one
static const FrameNode *from, *to;
static bool chain(Transform* c, FrameNode const* t, FrameNode const* f) { return is_id(*c) ? t == f : src(*c) == N(f) && dst(*c) == N(t); }
VC_SPEC bool inv_chain(Transform* c, FrameNode const** t) { return chain(c, *t, from); }
VC_SPEC bool inv_root(FrameNode const** t) { return RT(*t) == RT(from); }
VC_SPEC bool inv_n(FrameNode const** t) { return vc_external(*t) && N(*t) >= 0; }
VC_SPEC void c_copy(Transform* r, Transform const& a) { double s = src(a), d = dst(a); src(*r) = s; dst(*r) = d; }
VC_SPEC Transform* c_assign(Transform* r, Transform const& a) { double s = src(a), d = dst(a); src(*r) = s; dst(*r) = d; return r; }
VC_SPEC void c_nop(void*, void*) { }
VC_SPEC void* c_ret(void* p, void*) { return p; }
static Environment* env;
static void mk() { env = (Environment*)vc_fixed_object(1); from = (FrameNode*)vc_fixed_object(2); to = vc_nondet_bool("same frame") ? from : (FrameNode*)vc_fixed_object(3); known(from); known(to); }
static bool leads(Transform const& r, const FrameNode* f, const FrameNode* t) { return is_id(r) ? f == t : src(r) == N(f) && dst(r) == N(t); }
typedef std::pair<Transform, const FrameNode*> TP; typedef std::pair<TU, const FrameNode*> UP;
VC_SPEC void c_toroot(TP* r, const FrameNode* f) { known(f); bool id = RT(f) == f && vc_nondet_bool("identity"); src(r->first) = id ? -1 : N(f); dst(r->first) = id ? -1 : N(RT(f)); r->second = RT(f); }
VC_SPEC void c_toroot_u(UP* r, const FrameNode* f) { known(f); bool id = RT(f) == f && vc_nondet_bool("identity"); src(r->first.trans) = id ? -1 : N(f); dst(r->first.trans) = id ? -1 : N(RT(f)); r->second = RT(f); }
VC_HARNESS h_toroot()
{
    mk(); TP r = relativeFrameNodeRoot<Transform>(from);
    vc_cover("relativeFrameNodeRoot");
    vc_assert(r.second == RT(from), "the root above the frame is found"); vc_assert(leads(r.first, from, RT(from)), "the transform leads from the frame to its root");
}
VC_HARNESS h_toroot_u()
{
    mk(); UP r = relativeFrameNodeRoot<TU>(from);
    vc_cover("relativeFrameNodeRoot with uncertainty");
    vc_assert(r.second == RT(from), "the root above the frame is found"); vc_assert(leads(r.first.trans, from, RT(from)), "the transform leads from the frame to its root");
}
VC_HARNESS h_relative()
{
    mk(); bool thrown = false; Transform r;
    try { r = env->relativeTransform(from, to); } catch(std::runtime_error const&) { thrown = true; }
    vc_cover("relativeTransform");
    vc_assert(thrown == (from != to && RT(from) != RT(to)), "frames without a common root have no relative transform");
    vc_assert(thrown || leads(r, from, to), "the relative transform leads from one frame to the other");
}
VC_HARNESS h_relative_u()
{
    mk(); bool thrown = false; TU r;
    try { r = env->relativeTransformWithUncertainty(from, to); } catch(std::runtime_error const&) { thrown = true; }
    vc_cover("relativeTransformWithUncertainty");
    vc_assert(thrown == (from != to && RT(from) != RT(to)), "frames without a common root have no relative transform");
    vc_assert(thrown || leads(r.trans, from, to), "the relative transform leads from one frame to the other");
}
// the frames of two maps
static CartesianMap *ma, *mb; static FrameNode *fa, *fb;
VC_SPEC FrameNode* c_frame(CartesianMap const* m) { vc_assert(m == ma || m == mb, "the frame of one of the maps"); return m == ma ? fa : fb; }
VC_SPEC void c_rel(Transform* r, Environment* e, const FrameNode* a, const FrameNode* b) { vc_assert(e == env, "the environment asked"); src(*r) = N(a); dst(*r) = N(b); }
VC_SPEC void c_rel_u(TU* r, Environment* e, const FrameNode* a, const FrameNode* b) { vc_assert(e == env, "the environment asked"); src(r->trans) = N(a); dst(r->trans) = N(b); }
VC_HARNESS h_maps()
{
    env = (Environment*)vc_fixed_object(1); fa = (FrameNode*)vc_fixed_object(2); fb = vc_nondet_bool("same frame") ? fa : (FrameNode*)vc_fixed_object(3); ma = (CartesianMap*)vc_fixed_object(4); mb = (CartesianMap*)vc_fixed_object(5);
    Transform r = env->relativeTransform(ma, mb); TU u = env->relativeTransformWithUncertainty(ma, mb);
    vc_cover("relative transforms of maps");
    vc_assert(src(r) == N(fa) && dst(r) == N(fb) && src(u.trans) == N(fa) && dst(u.trans) == N(fb), "the relative transform of maps is that of their frames");
}
VC_HARNESS h_node()
{
    FrameNode* f = (FrameNode*)vc_fixed_object(1); env = f->env; FrameNode* g = (FrameNode*)vc_fixed_object(2);
    Transform r = f->relativeTransform(g);
    vc_cover("FrameNode::relativeTransform");
    vc_assert(src(r) == N(f) && dst(r) == N(g), "the relative transform of a frame leads to the frame given");
}
// --- algebra of transforms: arrows of certain transforms; whether there is an uncertainty
VC_HARNESS h_certain()
{
    Transform a, b; src(a) = 2; dst(a) = 3; src(b) = 1; dst(b) = 2; TU A(a), B(b), D; 
    vc_assert(!A.hasUncertainty() && src(A.getTransform()) == 2 && dst(A.getTransform()) == 3 && !D.hasUncertainty() && !TU::Identity().hasUncertainty() && is_id(TU::Identity().getTransform()), "a transform is certain unless an uncertainty is given");
    TU P = A * B, Q = A.composition(B), I = A.inverse();
    vc_assert(!P.hasUncertainty() && !Q.hasUncertainty() && !I.hasUncertainty(), "a result is certain if the operands are");
    vc_assert(src(P.getTransform()) == 1 && dst(P.getTransform()) == 3 && src(Q.getTransform()) == 1 && dst(Q.getTransform()) == 3, "the product of transforms"); vc_assert(src(I.getTransform()) == 3 && dst(I.getTransform()) == 2, "the inverse of a transform");
    TU X = P.compositionInv(B), Y = P.preCompositionInv(A); vc_cover("certain transforms");
    vc_assert(!X.hasUncertainty() && src(X.getTransform()) == 2 && dst(X.getTransform()) == 3 && !Y.hasUncertainty() && src(Y.getTransform()) == 1 && dst(Y.getTransform()) == 2, "an inverse composition undoes the composition");
    TU::Covariance C; TU U(a, C); vc_assert(U.hasUncertainty() && src(U.getTransform()) == 2 && dst(U.getTransform()) == 3, "a transform keeps the uncertainty it was given"); A.setCovariance(C); vc_assert(A.hasUncertainty(), "a transform keeps the uncertainty it was given"); A.setTransform(b); vc_assert(src(A.getTransform()) == 1 && dst(A.getTransform()) == 2, "the transform given is kept");
}
static long n_mod; static EnvironmentItem* mod; static bool attached;
VC_SPEC void c_modified(Environment* e, EnvironmentItem* i) { vc_assert(e == env, "the environment of the frame is told"); n_mod++; mod = i; }
VC_SPEC bool c_attached(EnvironmentItem const*) { return attached; }
VC_HARNESS h_set()
{
    FrameNode* f = (FrameNode*)vc_fixed_object(1); env = f->env; attached = vc_nondet_bool("attached"); Transform a; src(a) = vc_nondet_int("a"); dst(a) = vc_nondet_int("b"); bool u = vc_nondet_bool("with uncertainty"); TU A(a); A.uncertain = vc_nondet_bool("uncertain"); n_mod = 0;
    if(u) f->setTransform(A); else f->setTransform(a);
    vc_cover("setTransform");
    vc_assert(src(f->getTransform()) == src(a) && dst(f->getTransform()) == dst(a) && src(f->getTransformWithUncertainty().getTransform()) == src(a), "a frame has the transform it was given");
    vc_assert(f->getTransformWithUncertainty().hasUncertainty() == (u && A.uncertain), "a frame has the uncertainty it was given");
    vc_assert(attached ? n_mod == 1 && mod == f : n_mod == 0, "a changed transform is announced once");
}
