#include <vc.h>
#include <limits>
#include <envire/maps/GridBase.cpp>
#include <envire/tools/VoxelTraversal.hpp>
using namespace envire;
static const double INF_ = std::numeric_limits<double>::infinity();
// the ray: origin o, direction d, n = |d|; the point at distance t is o + t/n d
struct Ray { double ox, oy, dx, dy, n; };
static GridBase* mkgrid()
{
    GridBase* g = (GridBase*)vc_fixed_object(1); vc_assume(g->scalex > 0 && g->scaley > 0 && g->cellSizeX < 1000000000 && g->cellSizeY < 1000000000); return g;
}
// the distance of the next cell border along one axis, in terms of n: max * d == n * (border - o)
static bool axis(double max, double delta, int step, long c, double o, double d, double n, double sc, double off)
{
    if(d == 0) return max == INF_ && delta == INF_;
    return step == (d > 0 ? 1 : -1) && max < INF_ && delta > 0 && delta < INF_ && delta * (d > 0 ? d : -d) == n * sc && max * d == n * (off + (d > 0 ? c + 1 : c) * sc - o);
}
// the point at distance t lies in the (closed) cell, along one axis
static bool covers(double t, long c, double o, double d, double n, double sc, double off) { double v = n * o + t * d; return v >= n * (off + c * sc) && v <= n * (off + (c + 1) * sc); }
static bool inv(VoxelTraversal& v, GridBase* g, Ray const& r, double t)
{
    return axis(v.maxx, v.deltax, v.stepx, v.cx, r.ox, r.dx, r.n, g->scalex, g->offsetx) && axis(v.maxy, v.deltay, v.stepy, v.cy, r.oy, r.dy, r.n, g->scaley, g->offsety)
        && t <= v.maxx && t <= v.maxy && covers(t, v.cx, r.ox, r.dx, r.n, g->scalex, g->offsetx) && covers(t, v.cy, r.oy, r.dy, r.n, g->scaley, g->offsety);
}
static bool in_grid(GridBase* g, long x, long y) { return x >= 0 && x < (long)g->cellSizeX && y >= 0 && y < (long)g->cellSizeY; }
// delta * |d| == n * sc in terms of the squares (n * n == dx * dx + dy * dy); max in terms of delta
static void init(int sx, int sy)
{
    GridBase* g = mkgrid(); Ray r; r.ox = vc_nondet_double("ox"); r.oy = vc_nondet_double("oy"); r.dx = vc_nondet_double("dx"); r.dy = vc_nondet_double("dy"); vc_assume(r.dx != 0 || r.dy != 0);
    vc_assume(sx > 0 ? r.dx > 0 : sx < 0 ? r.dx < 0 : r.dx == 0); vc_assume(sy > 0 ? r.dy > 0 : sy < 0 ? r.dy < 0 : r.dy == 0);
    VoxelTraversal v(*g); v.init(Eigen::Vector3d(r.ox, r.oy, vc_nondet_double("oz")), Eigen::Vector3d(r.dx, r.dy, vc_nondet_double("dz")));
    vc_cover("init");
    size_t xi, yi; bool in = g->toGrid(r.ox, r.oy, xi, yi);
    vc_assert(v.valid == in, "a traversal is valid exactly if it starts within the grid");
    vc_assert(!in || (v.cx == (long)xi && v.cy == (long)yi), "a traversal starts in the cell of the origin");
    if(sx == 0) vc_assert(v.deltax == INF_ && v.maxx == INF_, "no border in x is ever reached along a ray parallel to it");
    else {
        vc_assert(v.stepx == sx, "cells are visited in the direction of the ray in x");
        vc_assert(v.deltax >= 0 && v.deltax * v.deltax * r.dx * r.dx == g->scalex * g->scalex * (r.dx * r.dx + r.dy * r.dy), "the distance between two borders in x");
        vc_assert(!in || v.maxx * g->scalex == v.deltax * (sx > 0 ? g->offsetx + ((double)v.cx + 1) * g->scalex - r.ox : r.ox - g->offsetx - (double)v.cx * g->scalex), "the distance to the first border in x");
    }
    if(sy == 0) vc_assert(v.deltay == INF_ && v.maxy == INF_, "no border in y is ever reached along a ray parallel to it");
    else {
        vc_assert(v.stepy == sy, "cells are visited in the direction of the ray in y");
        vc_assert(v.deltay >= 0 && v.deltay * v.deltay * r.dy * r.dy == g->scaley * g->scaley * (r.dx * r.dx + r.dy * r.dy), "the distance between two borders in y");
        vc_assert(!in || v.maxy * g->scaley == v.deltay * (sy > 0 ? g->offsety + ((double)v.cy + 1) * g->scaley - r.oy : r.oy - g->offsety - (double)v.cy * g->scaley), "the distance to the first border in y");
    }
}
VC_HARNESS h_init_pp() { init(1, 1); }
VC_HARNESS h_init_pn() { init(1, -1); }
VC_HARNESS h_init_np() { init(-1, 1); }
VC_HARNESS h_init_nn() { init(-1, -1); }
VC_HARNESS h_init_0p() { init(0, 1); }
VC_HARNESS h_init_0n() { init(0, -1); }
VC_HARNESS h_init_p0() { init(1, 0); }
VC_HARNESS h_init_n0() { init(-1, 0); }
// what init establishes is the invariant of step, along each axis
VC_HARNESS h_lemma()
{
    double o = vc_nondet_double("o"), d = vc_nondet_double("d"), n = vc_nondet_double("n"), n2 = vc_nondet_double("n2"), sc = vc_nondet_double("sc"), off = vc_nondet_double("off"), max = vc_nondet_double("max"), delta = vc_nondet_double("delta"); int c = vc_nondet_int("c"), step = d > 0 ? 1 : -1;
    vc_assume(d != 0 && n > 0 && sc > 0 && n * n == n2 && delta >= 0 && delta < INF_ && max < INF_ && o >= off + c * sc && o < off + (c + 1.0) * sc && c > -1000000000 && c < 1000000000);
    vc_assume(delta * delta * d * d == sc * sc * n2 && max * sc == delta * (d > 0 ? off + (c + 1.0) * sc - o : o - off - (double)c * sc));
    vc_cover("lemma");
    double a = delta * (d > 0 ? d : -d), b = n * sc;
    vc_assert(a >= 0 && b > 0 && a * a == b * b, "the distance between two borders squared");
    vc_assume(a >= 0 && b > 0 && a * a == b * b);
    vc_assert(a == b, "the distance between two borders, from its square");
    vc_assume(a == b);
    vc_assert(axis(max, delta, step, c, o, d, n, sc, off), "init establishes the invariant of step");
    vc_assert(max >= 0, "the first border lies ahead");
}
VC_HARNESS h_step()
{
    GridBase* g = mkgrid(); Ray r; r.ox = vc_nondet_double("ox"); r.oy = vc_nondet_double("oy"); r.dx = vc_nondet_double("dx"); r.dy = vc_nondet_double("dy"); vc_assume(r.dx != 0 || r.dy != 0);
    r.n = vc_nondet_double("n"); vc_assume(r.n > 0); double t = vc_nondet_double("t"); vc_assume(t >= 0 && t < INF_);
    VoxelTraversal v(*g); v.cx = vc_nondet_int("cx"); v.cy = vc_nondet_int("cy"); v.stepx = vc_nondet_int("stepx"); v.stepy = vc_nondet_int("stepy"); v.deltax = vc_nondet_double("deltax"); v.deltay = vc_nondet_double("deltay"); v.maxx = vc_nondet_double("maxx"); v.maxy = vc_nondet_double("maxy"); v.valid = vc_nondet_bool("valid");
    vc_assume(v.cx > -1000000 && v.cx < 2000000000 && v.cy > -1000000 && v.cy < 2000000000);
    vc_assume(inv(v, g, r, t));
    vc_assume((r.dx == 0 || v.maxx + v.deltax < INF_) && (r.dy == 0 || v.maxy + v.deltay < INF_));   // distances do not overflow
    int x0 = v.cx, y0 = v.cy; bool was = v.valid; double t2 = v.maxx < v.maxy ? v.maxx : v.maxy; GridBase::Position p;
    bool ok = v.step(p);
    vc_cover("step");
    int mx = v.cx - x0, my = v.cy - y0;
    vc_assert((mx == 0 && my == (r.dy > 0 ? 1 : -1) && r.dy != 0) || (my == 0 && mx == (r.dx > 0 ? 1 : -1) && r.dx != 0), "a step leads to a neighbouring cell in the direction of the ray");
    vc_assert(axis(v.maxx, v.deltax, v.stepx, v.cx, r.ox, r.dx, r.n, g->scalex, g->offsetx), "the distance to the next border in x");
    vc_assert(axis(v.maxy, v.deltay, v.stepy, v.cy, r.oy, r.dy, r.n, g->scaley, g->offsety), "the distance to the next border in y");
    vc_assert(t2 >= t && t2 <= v.maxx && t2 <= v.maxy, "cells are visited in the order in which the ray crosses them");
    vc_assert(mx == 0 || covers(t2, v.cx, r.ox, r.dx, r.n, g->scalex, g->offsetx), "the ray crosses every visited cell (step in x, along x)");
    vc_assert(mx == 0 || covers(t2, v.cy, r.oy, r.dy, r.n, g->scaley, g->offsety), "the ray crosses every visited cell (step in x, along y)");
    vc_assert(my == 0 || covers(t2, v.cx, r.ox, r.dx, r.n, g->scalex, g->offsetx), "the ray crosses every visited cell (step in y, along x)");
    vc_assert(my == 0 || covers(t2, v.cy, r.oy, r.dy, r.n, g->scaley, g->offsety), "the ray crosses every visited cell (step in y, along y)");
    vc_assert(ok == (was && in_grid(g, v.cx, v.cy)) && v.valid == ok, "the traversal ends where the ray leaves the grid");
    vc_assert(!ok || (p.x == (size_t)v.cx && p.y == (size_t)v.cy), "the visited cell is reported");
}
