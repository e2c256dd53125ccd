#define NATIVE_REPLAY
#include "native.h"
#include <limits>
#include <envire/maps/Grids.hpp>
using namespace envire;
struct G : GridBase { G(size_t a, size_t b, double c, double d, double e, double f) : GridBase(a, b, c, d, e, f) {} virtual const std::string& getClassName() const { static std::string s = "G"; return s; } };
static const size_t U = 12345;
// exact: all quantities are dyadic, so that the expected cell is exact
static void grid(size_t nx, size_t ny, double sx, double sy, double ox, double oy, double fx, double fy)
{
    CASE();
    std::ostringstream c; c.precision(17); c << "grid " << nx << "x" << ny << " scale " << sx << "," << sy << " offset " << ox << "," << oy << " point (in cells) " << fx << "," << fy; g_ctx = c.str();
    G* g = new G(nx, ny, sx, sy, ox, oy); GridBase::Ptr keep = g;
    double x = ox + fx * sx, y = oy + fy * sy; bool in = fx >= 0 && fx < nx && fy >= 0 && fy < ny;
    size_t a = U, b = U, a2 = U, b2 = U, a3 = U, b3 = U; double xm = -1, ym = -1; GridBase::Position p(U, U);
    bool r = g->toGrid(x, y, a, b), r2 = g->toGrid(x, y, a2, b2, xm, ym), r3 = g->toGrid(Eigen::Vector3d(x, y, 3.5), a3, b3), r4 = g->toGrid(GridBase::Point2D(x, y), p);
    CHECK(r == in, "a point has a cell exactly if it lies within the grid", r);
    CHECK(r2 == r && r3 == r && r4 == r, "all variants agree on whether a point is in the grid", r2 << r3 << r4);
    if(in) {
        CHECK(a == (size_t)floor(fx) && b == (size_t)floor(fy), "the cell contains the point", a << "," << b);
        CHECK(a2 == a && b2 == b && a3 == a && b3 == b && p.x == a && p.y == b, "all variants yield the same cell", "");
        CHECK(xm >= 0 && xm < sx && ym >= 0 && ym < sy && fabs(xm - (fx - floor(fx)) * sx) < 1e-9 * sx && fabs(ym - (fy - floor(fy)) * sy) < 1e-9 * sy, "the position within the cell", xm << "," << ym);
        double X, Y; g->fromGrid(a, b, X, Y); Eigen::Vector3d v = g->fromGrid(a, b); GridBase::Point2D q = g->fromGrid(GridBase::Position(a, b)), q2; g->fromGrid(GridBase::Position(a, b), q2);
        CHECK(fabs(X - (ox + (a + .5) * sx)) < 1e-9 * (fabs(X) + sx) && fabs(Y - (oy + (b + .5) * sy)) < 1e-9 * (fabs(Y) + sy), "a cell is represented by its centre", X << "," << Y);
        CHECK(v.x() == X && v.y() == Y && v.z() == 0 && q.x() == X && q.y() == Y && q2 == q, "all variants yield the same point", "");
        CHECK(g->toGrid(X, Y, a3, b3) && a3 == a && b3 == b, "the centre of a cell leads back to the cell", a3 << "," << b3);
        CHECK(g->contains(GridBase::Position(a, b)) && !g->contains(GridBase::Position(nx, b)) && !g->contains(GridBase::Position(a, ny)), "a grid contains the cells below its size", "");
    } else CHECK(a == U && b == U && p.x == U && p.y == U, "outside the grid nothing is returned", a << "," << b);
    int ms[] = {1, 2, 10, 16}, m = ms[g_cases % 4]; a = b = U;
    if(floor(fx * m) == floor(fx) * m + floor((fx - floor(fx)) * m)) {
        CHECK(g->toGridTimesX(x, y, a, b, m) == in, "a point has a sub cell exactly if it lies within the grid", m);
        bool e = m != 10;                     // exact arithmetic only with powers of two
        if(in && e) CHECK(a == (size_t)floor(fx * m) && b == (size_t)floor(fy * m), "the sub cell contains the point", m << ": " << a << "," << b);
        if(in) CHECK(a / m == (size_t)floor(fx) || !e, "the sub cell lies within the cell", m);
    }
    GridBase::Extents ex = g->getExtents(); GridBase::Point2D ce = g->getCenterPoint();
    CHECK(fabs(ex.min().x() - ox) < 1e-9 && fabs(ex.min().y() - oy) < 1e-9 && fabs(ex.max().x() - ox - nx * sx) < 1e-9 * (1 + nx * sx) && fabs(ex.max().y() - oy - ny * sy) < 1e-9 * (1 + ny * sy), "the extents of a grid are exactly the area of its cells", ex.max().transpose());
    CHECK(g->getSizeX() == nx * sx && g->getSizeY() == ny * sy && g->getCellSizeX() == nx && g->getCellSizeY() == ny && g->getScaleX() == sx && g->getScaleY() == sy && g->getOffsetX() == ox && g->getOffsetY() == oy, "the size of a grid is that of its cells", "");
    CHECK((ce - (ex.min() + ex.max()) / 2).norm() < 1e-9 * (1 + nx * sx + ny * sy), "the centre of a grid is in the middle", ce.transpose());
}
static double any_coord(size_t n)
{
    switch(rnd(0, 9)) { case 0: return 0; case 1: return n; case 2: return -1.0 / 1024; case 3: return (double)n - 1.0 / 1024; case 4: return -rnd(1, 50); case 5: return n + rnd(0, 50); case 6: return rnd(0, n); case 7: return ldexp(1, rnd(20, 100)) * (rnd(0, 1) ? 1 : -1); default: return rnd(0, n * 1024) / 1024.0; }
}
// points of another frame: fromGrid with a frame and toGrid with the same frame are inverse to each other
static void frames()
{
    CASE(); g_ctx = "grid in a frame";
    Environment env; Grid<double>* g = new Grid<double>(rnd(1, 30), rnd(1, 30), rndd(.1, 2), rndd(.1, 2), rndd(-9, 9), rndd(-9, 9)); env.attachItem(g);
    FrameNode* f = new FrameNode(), *h = new FrameNode(); Eigen::Affine3d T(Eigen::Translation3d(rndd(-5, 5), rndd(-5, 5), 0) * Eigen::AngleAxisd(rndd(-3, 3), Eigen::Vector3d::UnitZ())), S(Eigen::Translation3d(rndd(-5, 5), rndd(-5, 5), 1) * Eigen::AngleAxisd(rndd(-3, 3), Eigen::Vector3d::UnitZ()));
    f->setTransform(Transform(T)); h->setTransform(Transform(S)); env.addChild(env.getRootNode(), f); env.addChild(rnd(0, 1) ? env.getRootNode() : f, h); bool below = h->getParent() == f; g->setFrameNode(f);
    size_t i = rnd(0, g->getCellSizeX() - 1), j = rnd(0, g->getCellSizeY() - 1), a, b; double x, y; g->fromGrid(i, j, x, y);
    Eigen::Vector3d e = (below ? S.inverse() : S.inverse() * T) * Eigen::Vector3d(x, y, 0), v = g->fromGrid(i, j, h);
    CHECK((e - v).norm() < 1e-9, "the centre of a cell in another frame", v.transpose());
    CHECK((g->fromGrid(i, j, env.getRootNode()) - T * Eigen::Vector3d(x, y, 0)).norm() < 1e-9, "the centre of a cell in the root frame", "");
    CHECK(g->toGrid(v, a, b, h) && a == i && b == j, "the centre of a cell in another frame leads back to the cell", a << "," << b);
}
static void order()
{
    CASE(); GridBase::Position p[3]; for(int i = 0; i < 3; i++) p[i] = GridBase::Position(rnd(0, 2), rnd(0, 2));
    std::ostringstream c; for(int i = 0; i < 3; i++) c << p[i].x << "," << p[i].y << " "; g_ctx = c.str();
    CHECK((p[0] == p[1]) == (p[0].x == p[1].x && p[0].y == p[1].y) && (p[0] != p[1]) == !(p[0] == p[1]), "positions are equal exactly if their coordinates are", "");
    CHECK((p[0] < p[1]) + (p[1] < p[0]) + (p[0] == p[1]) == 1, "positions are totally ordered", "");
    CHECK(!(p[0] < p[1] && p[1] < p[2]) || p[0] < p[2], "the order of positions is transitive", "");
}
void run_all()
{
    for(int i = 0; i < 20000 * g_scale; i++) { size_t nx = rnd(1, i % 5 ? 20 : 3000), ny = rnd(1, i % 7 ? 20 : 3000); grid(nx, ny, ldexp(1, rnd(-6, 4)), ldexp(1, rnd(-6, 4)), rnd(-64, 64) / 4.0, rnd(-64, 64) / 4.0, any_coord(nx), any_coord(ny)); }
    for(int i = 0; i < 500 * g_scale; i++) { frames(); order(); }
}
void replay(Model const&) {}
