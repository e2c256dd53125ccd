#define NATIVE_REPLAY
#include "native.h"
#include <limits>
#include <envire/maps/Grids.hpp>
#include <envire/tools/VoxelTraversal.hpp>
using namespace envire;
// interval of parameters in which the ray is within [lo, hi] along one axis
static void clip(double o, double d, double lo, double hi, double& a, double& b)
{
    if(d == 0) { if(o < lo || o > hi) { a = 1; b = 0; } return; }
    double u = (lo - o) / d, v = (hi - o) / d; a = std::max(a, std::min(u, v)); b = std::min(b, std::max(u, v));
}
static void ray(size_t nx, size_t ny, double sx, double sy, double ox, double oy, double fx, double fy, double dx, double dy, double dz)
{
    if(dx == 0 && dy == 0) return;
    CASE();
    std::ostringstream c; c.precision(17); c << "grid " << nx << "x" << ny << " scale " << sx << "," << sy << " offset " << ox << "," << oy << " origin (in cells) " << fx << "," << fy << " direction " << dx << "," << dy << "," << dz; g_ctx = c.str();
    GridBase::Ptr g = new Grid<double>(nx, ny, sx, sy, ox, oy);
    VoxelTraversal v(*g); double x = ox + fx * sx, y = oy + fy * sy, n = sqrt(dx * dx + dy * dy), eps = 1e-9 * (sx + sy) * (nx + ny);
    v.init(Eigen::Vector3d(x, y, 1), Eigen::Vector3d(dx, dy, dz));
    size_t a = 0, b = 0; bool in = g->toGrid(x, y, a, b); if(!in) { GridBase::Position p; CHECK(!v.step(p), "a traversal starting outside the grid visits nothing", ""); return; }
    long cx = a, cy = b; double t = 0; bool ok = true; size_t k = 0; GridBase::Position p;
    while(ok && k < nx + ny + 5) {
        ok = v.step(p); k++;
        long X = (long)p.x, Y = (long)p.y, mx = X - cx, my = Y - cy;
        CHECK((my == 0 && dx != 0 && mx == (dx > 0 ? 1 : -1)) || (mx == 0 && dy != 0 && my == (dy > 0 ? 1 : -1)), "a step leads to a neighbouring cell in the direction of the ray", "step " << k << ": " << cx << "," << cy << " -> " << X << "," << Y);
        double lo = 0, hi = std::numeric_limits<double>::infinity(); clip(x, dx / n, ox + X * sx - eps, ox + (X + 1) * sx + eps, lo, hi); clip(y, dy / n, oy + Y * sy - eps, oy + (Y + 1) * sy + eps, lo, hi);
        CHECK(lo <= hi, "the ray crosses every visited cell", "step " << k << ": " << X << "," << Y);
        bool inside = X >= 0 && X < (long)nx && Y >= 0 && Y < (long)ny;
        CHECK(ok == inside, "the traversal ends where the ray leaves the grid", "step " << k << ": " << X << "," << Y);
        cx = X; cy = Y; if(g_fails) return;
    }
    CHECK(k < nx + ny + 5, "the traversal ends", k);
    CHECK(!v.step(p), "the traversal stays ended", "");
}
void run_all()
{
    for(int i = 0; i < 6000 * g_scale; i++) {
        size_t nx = rnd(1, 12), ny = rnd(1, 12); double D[] = {0, 1, -1, .5, -3, rndd(-1, 1), rndd(-1, 1), rndd(-.001, .001), 1e-12}; double off = i % 3 ? 0 : rndd(-5, 5), scx = i % 2 ? 1 : rndd(.05, 3), scy = i % 5 ? scx : rndd(.05, 3);
        double fx = i % 4 ? rndd(0, nx) : rnd(0, nx * 2) / 2., fy = i % 4 ? rndd(0, ny) : rnd(0, ny * 2) / 2.; if(i % 50 == 0) fx = -1;
        if(i % 4 == 0) { scx = scy = .25; off = 2; }
        ray(nx, ny, scx, scy, off, -off, fx, fy, D[rnd(0, 8)], D[rnd(0, 8)], i % 3 ? 0 : rndd(-2, 2));
    }
}
void replay(Model const&) {}
