#include <envire/Core.hpp>
#include <vc.h>
#include <envire/maps/Pointcloud.cpp>
#include <envire/operators/CutPointcloud.cpp>
using namespace envire;
// --- cutting: a point survives exactly if it is outside of every excluding and inside of every including box
static CutPointcloud* O; static const Eigen::Vector3d* pt; static ExclusionBox* gb; static ExclusionBox* last;
static void* L() { return &O->exclusion_boxes; }
static bool inside(ExclusionBox* b) { return b->box.m_min[0] <= (*pt)[0] && (*pt)[0] <= b->box.m_max[0] && b->box.m_min[1] <= (*pt)[1] && (*pt)[1] <= b->box.m_max[1] && b->box.m_min[2] <= (*pt)[2] && (*pt)[2] <= b->box.m_max[2]; }
static bool okay(ExclusionBox* b) { return inside(b) != b->exclude; }
VC_SPEC bool c_contains(const Eigen::AlignedBox<double, 3>* b, const Eigen::Vector3d& p) { vc_assert(&p == pt, "the boxes are asked about the point"); vc_assume(b != 0 /* no null pointers are added */); last = (ExclusionBox*)b; return inside(last); }
VC_SPEC bool inv_boxes(void* it) { return vc_list_prefix(L(), it, gb) == 0 || okay(gb); }
VC_HARNESS h_included()
{
    O = (CutPointcloud*)vc_fixed_object(1); vc_use_list(L()); pt = (const Eigen::Vector3d*)vc_fixed_object(2); gb = (ExclusionBox*)vc_fixed_object(3); last = 0;
    bool r = O->isIncluded(*pt);
    vc_cover("isIncluded");
    vc_assert(!r || vc_list_count(L(), gb) == 0 || okay(gb), "a point that is kept is outside of every excluding and inside of every including box");
    vc_assert(r || (last && !okay(last)), "a point that is cut is inside of an excluding or outside of an including box");
}
VC_HARNESS h_contains()
{
    gb = (ExclusionBox*)vc_fixed_object(3); pt = (const Eigen::Vector3d*)vc_fixed_object(2);
    vc_cover("contains"); vc_assert(gb->box.contains(*pt) == inside(gb), "a point is in a box if it is between its corners");
}
// --- extents
static Pointcloud* C; static long N, gi; static double LO, HI; static int ax;
static Eigen::Vector3d* P() { return C->vertices._M_impl._M_start; }
static void cloud() { C = (Pointcloud*)vc_fixed_object(1); Eigen::Vector3d* p = (Eigen::Vector3d*)vc_fixed_object(2); N = vc_nondet_long("n"); vc_assume(N >= 0 && N < 100000000); C->vertices._M_impl._M_start = p; C->vertices._M_impl._M_finish = p + N; C->vertices._M_impl._M_end_of_storage = p + N; }
static double mx() { return std::numeric_limits<double>::max(); }
VC_SPEC const Eigen::Vector3d& c_at(const std::vector<Eigen::Vector3d>* v, size_t n) { vc_assert(v == &C->vertices && (long)n < N, "only points of the cloud count"); const Eigen::Vector3d& p = P()[n];
    vc_assume(p[0] >= -mx() && p[0] <= mx() && p[1] >= -mx() && p[1] <= mx() && p[2] >= -mx() && p[2] <= mx());
    vc_assume(p[ax] >= LO && p[ax] <= HI); return p; }
typedef Eigen::AlignedBox<double, 3> B3; static B3* r;
VC_SPEC bool inv_in(size_t i) { return (long)i <= gi || (r->m_min[ax] <= P()[gi][ax] && P()[gi][ax] <= r->m_max[ax]); }
VC_SPEC bool inv_e(size_t i) { return i != 0 || (r->m_min[ax] == mx() && r->m_max[ax] == -mx()); }
VC_SPEC bool inv_l(size_t i) { return r->m_min[ax] == mx() || r->m_min[ax] >= LO; }
VC_SPEC bool inv_h(size_t i) { return r->m_max[ax] == -mx() || r->m_max[ax] <= HI; }
VC_SPEC bool inv_n(size_t i) { return (long)i <= N; }
VC_SPEC bool inv_m(size_t i) { return i == 0 || r->m_min[ax] <= r->m_max[ax]; }
VC_HARNESS h_extents()
{
    cloud(); ax = vc_nondet_int("axis"); vc_assume(ax == 0 || ax == 1 || ax == 2); gi = vc_nondet_long("i"); vc_assume(gi >= 0); LO = vc_nondet_double("lo"); HI = vc_nondet_double("hi"); vc_assume(LO <= mx() && HI >= -mx());
    alignas(B3) char buf[sizeof(B3)]; r = (B3*)buf; new (buf) B3(C->getExtents());
    vc_cover("extents");
    vc_assert(gi >= N || (r->m_min[ax] <= P()[gi][ax] && P()[gi][ax] <= r->m_max[ax]), "the extents contain every point");
    vc_assert(N == 0 || (r->m_min[ax] >= LO && r->m_max[ax] <= HI), "the extents are the smallest box that contains every point");
    vc_assert(N > 0 || r->m_min[ax] > r->m_max[ax], "without points the extents are empty");
}
VC_HARNESS h_origin()
{
    C = (Pointcloud*)vc_fixed_object(1); Transform& t = *(Transform*)vc_fixed_object(2); int i = vc_nondet_int("i"), j = vc_nondet_int("j"); vc_assume(i >= 0 && i < 4 && j >= 0 && j < 4);
    C->setSensorOrigin(t); vc_cover("origin"); vc_assert(C->getSensorOrigin().matrix()(i, j) == t.matrix()(i, j), "a cloud keeps its sensor origin");
}
VC_SPEC bool inv_nf(void* it) { return vc_list_prefix(L(), it, gb) == 0; }
static void boxes() { O = (CutPointcloud*)vc_fixed_object(1); vc_use_list(L()); gb = (ExclusionBox*)vc_nondet_ptr("box"); last = (ExclusionBox*)vc_nondet_ptr("other"); vc_assume(gb != 0 && last != gb); }
VC_HARNESS h_add()
{
    boxes(); long n = vc_list_count(L(), gb), m = vc_list_count(L(), last);
    O->addBox(gb);
    vc_cover("addBox"); vc_assert(vc_list_count(L(), gb) == (n > 0 ? n : 1), "a box is added unless it is there"); vc_assert(vc_list_count(L(), last) == m, "no other box changes");
}
VC_HARNESS h_remove()
{
    boxes(); long n = vc_list_count(L(), gb), m = vc_list_count(L(), last);
    O->removeBox(gb);
    vc_cover("removeBox"); vc_assert(vc_list_count(L(), gb) == (n > 0 ? n - 1 : 0), "a box is removed if it is there"); vc_assert(vc_list_count(L(), last) == m, "no other box changes");
}
