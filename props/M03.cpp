#include <vc.h>
#include <cstring>
#include <envire/Core.hpp>
#include <envire/maps/MLSPatch.hpp>
using namespace envire; typedef SurfacePatch SP;
static SP *p, *o; static float pm, ps, ph, om, os_, oh, pn, on, pmin, pmax, omin, omax, pw, ow, pz, oz, pq, oq; static int pt, ot; static size_t pu, ou; static double thick, gap;
static const int H = SP::HORIZONTAL, V = SP::VERTICAL, NEG = SP::NEGATIVE;
static void pre()
{
    p = (SP*)vc_fixed_object(1); o = (SP*)vc_fixed_object(2); thick = vc_nondet_double("thickness"); gap = vc_nondet_double("gap"); vc_assume(thick >= 0); vc_assume(gap >= 0);
    pt = p->type; ot = o->type; vc_assume((pt >= 0) & (pt <= 2) & (ot >= 0) & (ot <= 2));
    pm = p->mean; ps = p->stdev; ph = p->height; om = o->mean; os_ = o->stdev; oh = o->height; pn = p->n; on = o->n; pmin = p->min; pmax = p->max; omin = o->min; omax = o->max; pw = p->plane.n; ow = o->plane.n; pz = p->plane.z; oz = o->plane.z; pq = p->normsq; oq = o->normsq; pu = p->update_idx; ou = o->update_idx;
    vc_assume((ps > 0) & (os_ > 0) & (ph >= 0) & (oh >= 0)); vc_assume((pt != H) | (ph == 0)); vc_assume((ot != H) | (oh == 0));
    vc_assume((pmin <= pmax) & (omin <= omax) & (pw > 0) & (ow > 0));
}
static bool same_p() { return (p->mean == pm) & (p->stdev == ps) & (p->height == ph) & (p->n == pn) & (p->min == pmin) & (p->max == pmax) & (p->plane.n == pw) & (p->plane.z == pz) & (p->normsq == pq) & (p->update_idx == pu) & (p->type == pt); }
static bool same_o() { return (o->mean == om) & (o->stdev == os_) & (o->height == oh) & (o->n == on) & (o->min == omin) & (o->max == omax) & (o->plane.n == ow) & (o->plane.z == oz) & (o->normsq == oq) & (o->update_idx == ou) & (o->type == ot); }
VC_SPEC void c_nop() {}
static double fabs_(double x) { return x < 0 ? -x : x; }
static double max_(double a, double b) { return a > b ? a : b; }
static double min_(double a, double b) { return a < b ? a : b; }
// gap between the patches (negative when they overlap), squared deviation of their difference
static double sep() { return max_((om - oh) - pm, (pm - ph) - om); }
static double var() { return (double)ps * ps + (double)os_ * os_; }
static bool closer(double d, double m) { return (d < m) | ((d - m) * (d - m) < var()); }   // d < m + deviation
static bool merged;
static void kal() { merged = p->mergeMLS(*o, thick, gap); }
static bool oneneg() { return ((pt == NEG) != (ot == NEG)) && !(pt == H && ot == V); }
VC_HARNESS h_kalman_far()
{
    pre(); vc_assume(!closer(sep(), gap)); kal(); vc_cover("mergeMLS");
    vc_assert(!merged, "patches further apart than the gap and their deviation are not merged"); vc_assert(same_p(), "a patch that is not merged stays as it was"); vc_assert(same_o(), "a patch that is not merged stays as it was");
}
VC_HARNESS h_kalman_fuse()
{
    pre(); vc_assume(pt == H); vc_assume(ot == H); double d = fabs_((double)pm - om); vc_assume(closer(d, gap)); vc_assume(closer(d, thick)); kal(); vc_cover("mergeMLS");
    vc_assert(merged, "patches closer than the gap and their deviation are merged"); vc_assert(p->type == H, "close horizontal patches stay horizontal");
    vc_assert(p->mean * var() == pm * (double)os_ * os_ + om * (double)ps * ps, "the mean of merged patches is weighted by certainty");
    vc_assert(p->stdev * p->stdev * var() == (double)ps * ps * os_ * os_, "merging increases the certainty by that of the measurement"); vc_assert(p->stdev >= 0, "the deviation of a patch is not negative");
    vc_assert(p->height == ph, "a horizontal patch has no height"); vc_assert(p->n == pn + on, "a merged patch counts the measurements of both"); vc_assert(same_o(), "merging leaves the patch merged in alone");
}
VC_HARNESS h_kalman_block()
{
    pre(); vc_assume((pt == H) & (ot == H)); double d = fabs_((double)pm - om); vc_assume(closer(d, gap)); vc_assume(!closer(d, thick)); kal(); vc_cover("mergeMLS");
    vc_assert(merged, "patches closer than the gap and their deviation are merged"); vc_assert(p->type == V, "horizontal patches further apart than the thickness become vertical");
    vc_assert(p->mean == max_(pm, om), "a merged patch covers both patches"); vc_assert((double)p->mean - p->height == min_(pm, om), "a merged patch covers both patches");
    vc_assert(p->n == pn + on, "a merged patch counts the measurements of both"); vc_assert(same_o(), "merging leaves the patch merged in alone");
}
VC_HARNESS h_kalman_cover()
{
    pre(); vc_assume((pt != H) | (ot != H)); vc_assume(!oneneg()); vc_assume(closer(sep(), gap)); kal(); vc_cover("mergeMLS");
    vc_assert(merged, "patches closer than the gap and their deviation are merged"); bool both = (pt == NEG) & (ot == NEG);
    vc_assert((p->type == NEG) == both, "a merged patch is negative exactly if both are"); vc_assert(p->type != H, "a merged patch with height is not horizontal");
    vc_assert(p->mean == max_(pm, om), "a merged patch covers both patches"); vc_assert((double)p->mean - p->height == min_(pm - ph, om - oh), "a merged patch covers both patches");
    vc_assert(p->n == pn + on, "a merged patch counts the measurements of both"); vc_assert(same_o(), "merging leaves the patch merged in alone");
}
VC_HARNESS h_kalman_negative()
{
    pre(); vc_assume(oneneg()); vc_assume(closer(sep(), gap)); kal(); vc_cover("mergeMLS");
    bool newer = pu < ou; double nm = newer ? om : pm, nb = newer ? om - oh : pm - ph, dm = newer ? pm : om, db = newer ? pm - ph : om - oh; SP* od = newer ? p : o;
    if (pu == ou) { vc_assert(!merged, "contradicting patches of the same update are left alone"); vc_assert(same_p() & same_o(), "contradicting patches of the same update are left alone"); return; }
    bool enc = (nm > dm) & (nb < db);
    vc_assert(merged == enc, "a newer patch replaces a contradicting one exactly if it encloses it");
    if (enc) { vc_assert((p->mean == (newer ? om : pm)) & (p->height == (newer ? oh : ph)) & (p->type == (newer ? ot : pt)), "a newer patch that encloses a contradicting one replaces it"); return; }
    vc_assert(newer ? same_o() : same_p(), "the newer of contradicting patches stays as it was");
    vc_assert(od->mean <= dm, "cutting never extends a patch");
    if (nm < dm) { vc_assert(od->mean == dm, "cutting the bottom of a patch keeps its top"); vc_assert((double)od->mean - od->height == nm, "the older patch is cut where the newer one is"); }
    else if (nb < dm) { vc_assert((double)od->mean - od->height == db, "cutting the top of a patch keeps its bottom"); vc_assert(od->mean == nb, "the older patch is cut where the newer one is"); }
    else vc_assert(newer ? same_p() : same_o(), "patches that do not overlap are not cut");
}
static bool sum_close() { return ((double)pmin - gap < omax) & ((double)pmax + gap > omin); }
static void hull() { vc_assert(p->min == min_(pmin, omin), "a merged patch covers both patches"); vc_assert(p->max == max_(pmax, omax), "a merged patch covers both patches"); vc_assert(p->n == pn + on, "a merged patch counts the measurements of both"); vc_assert(p->plane.n == pw + ow, "a merged patch has the weight of both"); vc_assert(p->plane.z == pz + oz, "a merged patch has the weighted sum of both"); vc_assert(p->normsq == pq + oq, "a merged patch has the weights of both"); }
VC_HARNESS h_sum()
{
    pre(); merged = p->mergeSum(*o, gap); vc_cover("mergeSum");
    vc_assert(merged == sum_close(), "patches are merged exactly if they are not further apart than the gap"); vc_assert(same_o(), "merging leaves the patch merged in alone");
    if (!merged) vc_assert(same_p(), "a patch that is not merged stays as it was");
    else { hull(); vc_assert(p->mean * (pw + ow) == pz + oz, "the mean of merged patches is weighted by certainty"); vc_assert(p->stdev >= 0, "the deviation of a patch is not negative"); }
}
VC_HARNESS h_plane()
{
    pre(); float pxz = p->plane.xz, oxz = o->plane.xz, pxx = p->plane.xx, oxx = o->plane.xx, pxy = p->plane.xy, oxy = o->plane.xy; merged = p->mergePlane(*o, gap); vc_cover("mergePlane");
    vc_assert(merged == sum_close(), "patches are merged exactly if they are not further apart than the gap"); vc_assert(same_o(), "merging leaves the patch merged in alone");
    if (!merged) vc_assert(same_p(), "a patch that is not merged stays as it was"); else { hull(); vc_assert((p->plane.xz == pxz + oxz) & (p->plane.xx == pxx + oxx) & (p->plane.xy == pxy + oxy), "the plane is fitted to the points of both"); }
}
static long nmerge; static int which;
VC_SPEC bool c_mls(SP* a, SP* b, double t, double g) { vc_assert(a == p && b == o && t == thick && g == gap, "the patches are merged with the thickness and gap given"); which = 0; nmerge++; return merged; }
VC_SPEC bool c_sum(SP* a, SP* b, float g) { vc_assert(a == p && b == o && g == gap, "the patches are merged with the gap given"); which = 1; nmerge++; return merged; }
VC_SPEC bool c_plane(SP* a, SP* b, float g) { vc_assert(a == p && b == o && g == gap, "the patches are merged with the gap given"); which = 2; nmerge++; return merged; }
static long ncolor;
VC_SPEC void c_color(SP* a, const base::Vector3d*) { vc_assert(a == p, "the merged patch is coloured"); ncolor++; }
VC_HARNESS h_merge()
{
    pre(); merged = vc_nondet_bool("merged"); nmerge = ncolor = 0; int model = vc_nondet_int("model"); bool threw = false, r = false;
    try { r = p->merge(*o, thick, gap, (MLSConfiguration::update_model)model); } catch (std::runtime_error&) { threw = true; }
    vc_cover("merge"); vc_assert(threw == (model < 0 || model > 2), "unknown models are refused");
    if (threw) { vc_assert(same_p() & same_o(), "a refused merge changes nothing"); vc_assert(nmerge == 0, "a refused merge changes nothing"); return; }
    vc_assert(nmerge == 1, "the patches are merged once"); vc_assert(which == model, "the patches are merged as the configuration says"); vc_assert(r == merged, "merging reports whether the patches are merged");
    vc_assert(p->update_idx == (merged && ou > pu ? ou : pu), "a merged patch carries the latest update"); vc_assert(ncolor == (merged ? 1 : 0), "the colour changes exactly if patches are merged"); vc_assert(same_o(), "merging leaves the patch merged in alone");
}
VC_HARNESS h_distance()
{
    pre(); double d = p->distance(*o), e = o->distance(*p); vc_cover("distance");
    double s = sep(); vc_assert(d == ((pt != H) & (ot != H) ? 0 : s > 0 ? s : 0), "the distance of two patches is the gap between them"); vc_assert(d == e, "the distance of two patches is symmetric");
    double k = vc_nondet_double("sigma"); vc_assert(p->getMaxZ(k) == (double)pm + k * ps, "the extent of a patch includes its uncertainty"); vc_assert(p->getMinZ(k) == (double)pm - ph - k * ps, "the extent of a patch includes its uncertainty"); vc_assert((*p < *o) == (pm < om), "patches are ordered by height"); vc_assert(same_p() & same_o(), "asking a patch changes nothing");
}
VC_HARNESS h_overlap()
{
    double a1 = vc_nondet_double("a1"), a2 = vc_nondet_double("a2"), b1 = vc_nondet_double("b1"), b2 = vc_nondet_double("b2"), x = vc_nondet_double("x"); vc_assume(a1 <= a2); vc_assume(b1 <= b2); bool r = overlap(a1, a2, b1, b2); vc_cover("overlap");
    vc_assert(r == overlap(b1, b2, a1, a2), "overlapping is symmetric"); if (a1 < x && x < a2 && b1 < x && x < b2) vc_assert(r, "intervals with a common inner point overlap"); if (a1 < a2 && b1 < b2 && r) { double m = (max_(a1, b1) + min_(a2, b2)) / 2; vc_assert(a1 < m && m < a2 && b1 < m && m < b2, "intervals that overlap have a common inner point"); }
}
VC_HARNESS h_new()
{
    float m = vc_nondet_double("mean"), s = vc_nondet_double("stdev"), h = vc_nondet_double("height"); int t = vc_nondet_int("type"); vc_assume(s > 0); vc_assume((t >= 0) & (t <= 2)); SP q(m, s, h, (SP::TYPE)t); vc_cover("SurfacePatch");
    vc_assert((q.mean == m) & (q.stdev == s) & (q.height == h) & (q.min == m) & (q.max == m) & (q.n == 1) & (q.update_idx == 0), "a new patch has the values it was made from"); vc_assert(q.plane.n * s * s == 1, "the weight of a patch is its inverse variance"); vc_assert(q.plane.z == m * q.plane.n, "a new patch has its weighted mean"); vc_assert(q.isHorizontal() == (t == H) && q.isVertical() == (t == V) && q.isNegative() == (t == NEG), "a new patch has the type it was made with");
    float f = vc_nondet_double("factor"), w = q.plane.n, z = q.plane.z, nq = q.normsq; q.scaleWeight(f); vc_assert((q.plane.n == w * f) & (q.plane.z == z * f), "scaling scales the weight"); vc_assert(q.normsq == nq * f * f, "scaling scales the weight"); vc_assert((q.mean == m) & (q.stdev == s) & (q.height == h) & (q.n == 1), "scaling the weight scales just that");
    q.setVertical(); vc_assert(q.type == V, "a patch can be made vertical"); q.setNegative(); vc_assert(q.type == NEG, "a patch can be made negative"); q.setHorizontal(); vc_assert(q.type == H, "a patch can be made horizontal");
}
