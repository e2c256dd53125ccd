// bounded cross-check of M03: surface patches, their distance and merging
#include "native.h"
#include <cstring>
#include <envire/Core.hpp>
#include <envire/maps/MLSPatch.hpp>
using namespace envire;
typedef SurfacePatch SP;
static bool near(double a, double b, double tol = 1e-4) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
static std::string str(SP const& p) { std::ostringstream o; o.precision(9); o << "{type " << (int)p.isHorizontal() + 2 * p.isNegative() << " mean " << p.mean << " stdev " << p.stdev << " height " << p.height << " [" << p.min << "," << p.max << "] n " << p.n << " idx " << p.update_idx << " w " << p.getWeight() << "}"; return o.str(); }
static bool same(SP const& a, SP const& b) { return a.mean == b.mean && a.stdev == b.stdev && a.height == b.height && a.min == b.min && a.max == b.max && a.n == b.n && a.normsq == b.normsq && a.update_idx == b.update_idx && !memcmp(a.color, b.color, 3) && a.isHorizontal() == b.isHorizontal() && a.isNegative() == b.isNegative() && a.plane.z == b.plane.z && a.plane.zz == b.plane.zz && a.plane.n == b.plane.n && a.plane.x == b.plane.x && a.plane.xz == b.plane.xz && a.plane.xx == b.plane.xx; }
static float grid(double lo, double hi) { return rnd(0, 3) ? rndd(lo, hi) : std::floor(rndd(lo, hi) * 2) / 2; }
static SP make(int kind)
{
    SP::TYPE t = kind == 0 ? SP::HORIZONTAL : kind == 1 ? SP::VERTICAL : SP::NEGATIVE; float mean = grid(-3, 3), sd = rndd(0.02, 0.6), h = kind ? std::fabs(grid(0, 3)) : 0;
    SP p(mean, sd, h, t); p.update_idx = rnd(0, 2); p.setColor(base::Vector3d(rndd(0, 1), rndd(0, 1), rndd(0, 1)));
    CHECK(p.getMean() == mean && p.getStdev() == sd && p.getHeight() == h && p.min == mean && p.max == mean && p.getMeasurementCount() == 1 && near(p.getWeight(), 1.0 / (sd * sd)), "a new patch has the values it was made from", str(p));
    CHECK(p.isHorizontal() == (kind == 0) && p.isVertical() == (kind == 1) && p.isNegative() == (kind == 2), "a new patch has the type it was made with", str(p));
    p.n = rnd(1, 4); return p;
}
static double top(SP const& p) { return p.mean; }
static double bottom(SP const& p) { return (double)p.mean - (p.isHorizontal() ? 0 : p.height); }
static void stats(SP const& p, SP const& r, SP const& o, bool merged, bool cut)
{
    if(!merged) { if(!cut) CHECK(same(p, r), "a patch that is not merged stays as it was", str(r) << " became " << str(p)); return; }
    CHECK(p.update_idx == std::max(r.update_idx, o.update_idx), "a merged patch carries the latest update", p.update_idx);
    for(int i = 0; i < 3; i++) CHECK(std::fabs(p.color[i] - (r.color[i] + o.color[i]) / 2.0) <= 1.01 || cut, "a merged patch has the mean colour", (int)p.color[i]);
}
static void distance()
{
    SP p = make(rnd(0, 2)), o = make(rnd(0, 2)); std::ostringstream c; c << str(p) << " " << str(o); g_ctx = c.str(); CASE();
    double e = 0; if(p.isHorizontal() || o.isHorizontal()) e = std::max(0.0, std::max(bottom(o) - top(p), bottom(p) - top(o)));
    CHECK(near(p.distance(o), e, 1e-5), "the distance of two patches is the gap between them", p.distance(o) << " expected " << e);
    CHECK(near(p.distance(o), o.distance(p), 1e-5), "the distance of two patches is symmetric", p.distance(o) << " " << o.distance(p));
    CHECK((p < o) == (p.mean < o.mean), "patches are ordered by height", "");
    double s = rndd(0, 4); CHECK(near(p.getMaxZ(s), p.mean + s * p.stdev) && near(p.getMinZ(s), bottom(p) - s * p.stdev), "the extent of a patch includes its uncertainty", s);
    CHECK(near(p.getMaxZ(), p.mean + 2 * p.stdev) && near(p.getMinZ(), bottom(p) - 2 * p.stdev), "the extent of a patch includes twice its deviation", "");
    double a1 = grid(-2, 2), a2 = a1 + grid(0, 2), b1 = grid(-2, 2), b2 = b1 + grid(0, 2); bool ov = overlap(a1, a2, b1, b2);
    CHECK(ov == (std::max(a1, b1) < std::min(a2, b2) || (a1 < b1 && b2 < a2) || (b1 < a1 && a2 < b2)), "intervals overlap exactly if they have common inner points", a1 << ".." << a2 << " " << b1 << ".." << b2);
    CHECK(ov == overlap(b1, b2, a1, a2), "overlapping is symmetric", a1 << ".." << a2 << " " << b1 << ".." << b2);
    base::Vector3d col(rndd(0, 1), rndd(0, 1), rndd(0, 1)); p.setColor(col); for(int i = 0; i < 3; i++) CHECK(std::fabs(p.getColor()[i] - col[i]) <= 1.0001 / 255, "a patch keeps its colour", col[i]);
    float f = rndd(0.1, 3), w = p.getWeight(), m = p.mean, sd = p.stdev; p.scaleWeight(f); CHECK(near(p.getWeight(), w * f) && p.mean == m && p.stdev == sd, "scaling the weight scales just that", f);
    SP q = p; q.setVertical(); CHECK(q.isVertical() && !q.isHorizontal() && !q.isNegative(), "a patch can be made vertical", ""); q.setNegative(); CHECK(!q.isVertical() && !q.isHorizontal() && q.isNegative(), "a patch can be made negative", ""); q.setHorizontal(); CHECK(!q.isVertical() && q.isHorizontal() && !q.isNegative(), "a patch can be made horizontal", "");
}
static void kalman()
{
    SP p = make(rnd(0, 3) % 3), o = make(rnd(0, 3) % 3), r = p, oo = o; double thick = rnd(0, 1) ? rndd(0, 1) : 0.05, gap = rnd(0, 2) ? rndd(0, 1) : 0; std::ostringstream c; c << "KALMAN thickness " << thick << " gap " << gap << " " << str(p) << " " << str(o); g_ctx = c.str(); CASE();
    bool m = p.merge(o, thick, gap, MLSConfiguration::KALMAN); double dev = std::sqrt((double)r.stdev * r.stdev + (double)oo.stdev * oo.stdev);
    double sep = std::max(bottom(oo) - top(r), bottom(r) - top(oo)), eps = 1e-5; bool border = std::fabs(sep - gap - dev) < eps; bool neg = r.isNegative() || oo.isNegative(), both = r.isNegative() && oo.isNegative();
    bool oneneg = neg && !both && !(r.isHorizontal() && oo.isVertical());
    if(border) return;
    bool close = sep < gap + dev;
    if(!close) { CHECK(!m, "patches further apart than the gap and their deviation are not merged", ""); stats(p, r, oo, m, false); CHECK(same(o, oo), "a patch that is not merged stays as it was", str(o)); return; }
    if(!oneneg) {
        CHECK(m, "patches closer than the gap and their deviation are merged", ""); CHECK(same(o, oo), "merging leaves the patch merged in alone", str(o)); stats(p, r, oo, m, false);
        CHECK(p.n == r.n + oo.n, "a merged patch counts the measurements of both", p.n);
        if(r.isHorizontal() && oo.isHorizontal()) {
            double d = std::fabs((double)r.mean - oo.mean); if(std::fabs(d - thick - dev) < eps) return;
            if(d < thick + dev) {
                double g = (double)r.stdev * r.stdev / (dev * dev);
                CHECK(p.isHorizontal(), "close horizontal patches stay horizontal", str(p)); CHECK(near(p.mean, r.mean + g * (oo.mean - r.mean)), "the mean of merged patches is weighted by certainty", p.mean);
                CHECK(near(p.stdev, std::sqrt((double)r.stdev * r.stdev * oo.stdev * oo.stdev / (dev * dev))), "merging increases the certainty by that of the measurement", p.stdev);
                return;
            }
            CHECK(p.isVertical(), "horizontal patches further apart than the thickness become vertical", str(p));
        } else { CHECK(p.isNegative() == both, "a merged patch is negative exactly if both are", str(p)); CHECK(!p.isHorizontal(), "a merged patch with height is not horizontal", str(p)); }
        CHECK(near(top(p), std::max(top(r), top(oo))) && near(bottom(p), std::min(bottom(r), bottom(oo))), "a merged patch covers both patches", str(p));
        return;
    }
    // one negative, one not
    if(r.update_idx == oo.update_idx) { CHECK(!m && same(p, r) && same(o, oo), "contradicting patches of the same update are left alone", str(p) << str(o)); return; }
    SP const &nw = r.update_idx < oo.update_idx ? oo : r, &od = r.update_idx < oo.update_idx ? r : oo; SP const &od2 = r.update_idx < oo.update_idx ? p : o, &nw2 = r.update_idx < oo.update_idx ? o : p;
    bool enc = nw.mean > od.mean && nw.mean - nw.height < od.mean - od.height;
    if(enc) { CHECK(m && p.mean == nw.mean && p.height == nw.height && p.isNegative() == nw.isNegative() && p.isHorizontal() == nw.isHorizontal(), "a newer patch that encloses a contradicting one replaces it", str(p)); return; }
    CHECK(!m, "contradicting patches are not merged", str(p)); CHECK(same(nw, nw2), "the newer of contradicting patches stays as it was", str(nw2));
    double t = od2.mean, b = od2.mean - od2.height, nt = nw.mean, nb = nw.mean - nw.height; CHECK(t <= nb + eps || b >= nt - eps || (t <= od.mean + eps && nb >= od.mean), "the older of contradicting patches is cut where the newer one is", str(od2));
    CHECK(t <= od.mean + eps, "cutting never extends a patch", str(od2)); if(nw.mean >= od.mean && nb < od.mean) CHECK(near(b, od.mean - od.height), "cutting the top of a patch keeps its bottom", str(od2)); if(nw.mean < od.mean) CHECK(t == od.mean, "cutting the bottom of a patch keeps its top", str(od2));
}
static void sum()
{
    SP p = make(0), o = make(0); int k = rnd(0, 4); for(int i = 0; i < k; i++) { SP x(p.mean + grid(-1, 1), rndd(0.05, 0.5)); x.setColor(base::Vector3d::Zero()); p.merge(x, 0, 3, MLSConfiguration::SUM); } k = rnd(0, 2); for(int i = 0; i < k; i++) { SP x(o.mean + grid(-1, 1), rndd(0.05, 0.5)); x.setColor(base::Vector3d::Zero()); o.merge(x, 0, 3, MLSConfiguration::SUM); }
    SP r = p, oo = o; float gap = rnd(0, 2) ? rndd(0, 1) : 0; std::ostringstream c; c << "SUM gap " << gap << " " << str(p) << " " << str(o); g_ctx = c.str(); CASE();
    bool m = p.merge(o, 0.05, gap, MLSConfiguration::SUM), e = r.min - gap < oo.max && r.max + gap > oo.min;
    double bd = std::min(std::fabs(r.min - gap - oo.max), std::fabs(r.max + gap - oo.min)); if(bd < 1e-5) return;
    CHECK(m == e, "patches are merged exactly if they are not further apart than the gap", m); CHECK(same(o, oo), "merging leaves the patch merged in alone", str(o)); stats(p, r, oo, m, false); if(!m) return;
    CHECK(p.n == r.n + oo.n && near(p.getWeight(), r.getWeight() + oo.getWeight()) && near(p.normsq, r.normsq + oo.normsq), "a merged patch counts the measurements of both", str(p));
    CHECK(p.min == std::min(r.min, oo.min) && p.max == std::max(r.max, oo.max), "a merged patch covers both patches", str(p));
    CHECK(near(p.mean, ((double)r.mean * r.getWeight() + (double)oo.mean * oo.getWeight()) / (r.getWeight() + oo.getWeight()), 1e-3), "the mean of merged patches is weighted by certainty", p.mean); CHECK(p.stdev >= 0.00099 && p.stdev == p.stdev, "the deviation of a patch is positive", p.stdev);
    SP q = oo, q2 = r; if(r.min - 2 * gap < oo.max && q.merge(q2, 0.05, gap, MLSConfiguration::SUM)) CHECK(near(q.mean, p.mean, 1e-3) && near(q.getWeight(), p.getWeight()) && q.min == p.min && q.max == p.max && q.n == p.n && near(q.stdev, p.stdev, 2e-2), "merging does not depend on the order", str(p) << " " << str(q));
}
static void slope()
{
    double a = rndd(-1, 1), b = rndd(-1, 1), c = rndd(-2, 2); float sd = rndd(0.05, 0.3); int n = rnd(4, 8); std::ostringstream l; l << "SLOPE plane " << a << " " << b << " " << c << " points " << n; g_ctx = l.str(); CASE(); SP p; double lo = 1e9, hi = -1e9;
    for(int i = 0; i < n; i++) { double x = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? 0 : rndd(0, 1), y = i == 0 ? 0 : i == 1 ? 0 : i == 2 ? 1 : rndd(0, 1), z = a * x + b * y + c; lo = std::min(lo, z); hi = std::max(hi, z); SP q(Eigen::Vector3f(x, y, z), sd); q.setColor(base::Vector3d::Zero()); q.update_idx = i;
        CHECK(q.min == (float)z && q.max == (float)z && q.n == 1 && q.isHorizontal(), "a patch made from a point has its height", str(q)); if(i == 0) p = q; else CHECK(p.merge(q, 0.05, 10, MLSConfiguration::SLOPE), "patches are merged exactly if they are not further apart than the gap", i); }
    CHECK(p.n == n && near(p.getWeight(), n / (sd * sd)) && near(p.min, lo) && near(p.max, hi) && p.update_idx == (size_t)n - 1, "a merged patch counts the measurements of both", str(p));
    CHECK(near(p.mean, c, 2e-2), "the mean of a plane patch is its height at the origin", p.mean << " expected " << c); double x = rndd(0, 1), y = rndd(0, 1); CHECK(near(p.getHeight(Eigen::Vector2f(x, y)), a * x + b * y + c, 2e-2), "points of a plane are found again", p.getHeight(Eigen::Vector2f(x, y)));
    Eigen::Vector3f nn = p.getNormal(); CHECK((nn - Eigen::Vector3f(-a, -b, 1).normalized()).norm() < 2e-2 && near(p.getSlope(), acos(1 / std::sqrt(a * a + b * b + 1)), 3e-2), "the normal of a patch is that of its plane", nn.transpose());
    SP q(p), o(10, 0.1f); SP far(100.f + hi, 0.1f); far.setColor(base::Vector3d::Zero()); SP r = p; CHECK(!p.merge(far, 0.05, 1, MLSConfiguration::SLOPE) && same(p, r), "a patch that is not merged stays as it was", str(p));
    bool threw = false; try { p.merge(o, 1, 1, (MLSConfiguration::update_model)7); } catch(std::runtime_error const&) { threw = true; } CHECK(threw && same(p, r), "unknown models are refused", "");
    double mn = rndd(-5, 5), s = rndd(0.01, 2), m2 = rndd(-5, 5), s2 = rndd(0.01, 2), x0 = mn, y0 = s; kalman_update(mn, s, m2, s2); double v = 1 / (1 / (y0 * y0) + 1 / (s2 * s2)); CHECK(near(s, std::sqrt(v), 1e-9) && near(mn, v * (x0 / (y0 * y0) + m2 / (s2 * s2)), 1e-9), "a Kalman update is the product of the distributions", mn << " " << s);
}
void run_all() { for(int i = 0; i < 20000 * g_scale; i++) { distance(); kalman(); sum(); if(i % 20 == 0) slope(); } }
