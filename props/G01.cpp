#include <vc.h>
#include <envire/maps/GridBase.cpp>
using namespace envire;
static GridBase* mk()
{
    GridBase* g = (GridBase*)vc_fixed_object(1);
    vc_assume(g->scalex > 0 && g->scaley > 0);                       // documented: size of a cell
    vc_assume(g->cellSizeX < 1000000000 && g->cellSizeY < 1000000000);
    return g;
}
static bool inside(GridBase* g, double x, double y) { return x >= g->offsetx && x < g->offsetx + g->cellSizeX * g->scalex && y >= g->offsety && y < g->offsety + g->cellSizeY * g->scaley; }
static bool in_cell(double v, size_t i, double sc, double off) { return v >= off + i * sc && v < off + i * sc + sc; }
static const size_t U = 12345;
VC_HARNESS h_toGrid()
{
    GridBase* g = mk(); double x = vc_nondet_double("x"), y = vc_nondet_double("y"), xm = -1, ym = -1; size_t xi = U, yi = U;
    bool r = g->toGrid(x, y, xi, yi, xm, ym);
    vc_cover("toGrid");
    vc_assert(r == inside(g, x, y), "a point has a cell exactly if it lies within the grid");
    vc_assert(!r || (xi < g->cellSizeX && yi < g->cellSizeY), "the cell is one of the grid");
    vc_assert(!r || in_cell(x, xi, g->scalex, g->offsetx), "the cell contains the point in x");
    vc_assert(!r || in_cell(y, yi, g->scaley, g->offsety), "the cell contains the point in y");
    vc_assert(!r || (xm >= 0 && xm < g->scalex && xm == x - (xi * g->scalex + g->offsetx)), "the position within the cell in x");
    vc_assert(!r || (ym >= 0 && ym < g->scaley && ym == y - (yi * g->scaley + g->offsety)), "the position within the cell in y");
    vc_assert(r || (xi == U && yi == U), "outside the grid nothing is returned");
}
VC_HARNESS h_toGrid_overloads()
{
    GridBase* g = mk(); Eigen::Vector3d p(vc_nondet_double("x"), vc_nondet_double("y"), vc_nondet_double("z")); size_t a = U, b = U, c = U, d = U; GridBase::Position q(U, U); double xm, ym; size_t e = U, f = U;
    bool r = g->toGrid(p.x(), p.y(), a, b, xm, ym), r2 = g->toGrid(p.x(), p.y(), c, d), r3 = g->toGrid(p, e, f), r4 = g->toGrid(GridBase::Point2D(p.x(), p.y()), q);
    vc_cover("toGrid overloads");
    vc_assert(r == r2 && r == r3 && r == r4, "all variants agree on whether a point is in the grid");
    vc_assert(a == c && a == e && a == q.x && b == d && b == f && b == q.y, "all variants yield the same cell");
}
VC_HARNESS h_fromGrid()
{
    GridBase* g = mk(); size_t xi = vc_nondet_size("xi"), yi = vc_nondet_size("yi"); vc_assume(xi < 2000000000 && yi < 2000000000);
    double x = -1, y = -1; g->fromGrid(xi, yi, x, y); Eigen::Vector3d v = g->fromGrid(xi, yi); GridBase::Point2D p = g->fromGrid(GridBase::Position(xi, yi)), p2; g->fromGrid(GridBase::Position(xi, yi), p2);
    vc_cover("fromGrid");
    vc_assert(2 * (x - g->offsetx) == (2 * (double)xi + 1) * g->scalex && 2 * (y - g->offsety) == (2 * (double)yi + 1) * g->scaley, "a cell is represented by its centre");
    vc_assert(v.x() == x && v.y() == y && v.z() == 0 && p.x() == x && p.y() == y && p2.x() == x && p2.y() == y, "all variants yield the same point");
    size_t a = U, b = U; bool r = g->toGrid(x, y, a, b), c = g->contains(GridBase::Position(xi, yi));
    vc_assert(c == (xi < g->cellSizeX && yi < g->cellSizeY), "a grid contains the cells below its size");
    vc_assert(r == c, "the centre of a cell lies within the grid exactly if the cell does");
    vc_assert(!r || (a == xi && b == yi), "the centre of a cell leads back to the cell");
}
VC_HARNESS h_timesX()
{
    GridBase* g = mk(); double x = vc_nondet_double("x"), y = vc_nondet_double("y"); size_t xi = U, yi = U; int m = vc_nondet_int("multiplier"); vc_assume(m >= 1 && m <= 1000);
    bool r = g->toGridTimesX(x, y, xi, yi, m);
    vc_cover("toGridTimesX");
    vc_assert(r == inside(g, x, y), "a point has a sub cell exactly if it lies within the grid");
    vc_assert(!r || (xi < g->cellSizeX * m && yi < g->cellSizeY * m), "the sub cell is one of the grid");
    vc_assert(!r || (m * (x - g->offsetx) >= xi * g->scalex && m * (x - g->offsetx) < (xi + 1) * g->scalex && m * (y - g->offsety) >= yi * g->scaley && m * (y - g->offsety) < (yi + 1) * g->scaley), "the sub cell contains the point");
}
VC_HARNESS h_extents()
{
    GridBase* g = mk(); vc_assume(g->cellSizeX >= 1 && g->cellSizeY >= 1);
    GridBase::Extents e = g->getExtents();
    vc_cover("getExtents");
    vc_assert(e.min().x() == g->offsetx && e.min().y() == g->offsety && e.max().x() == g->offsetx + g->cellSizeX * g->scalex && e.max().y() == g->offsety + g->cellSizeY * g->scaley, "the extents of a grid are exactly the area of its cells");
    vc_assert(g->getSizeX() == g->cellSizeX * g->scalex && g->getSizeY() == g->cellSizeY * g->scaley, "the size of a grid is that of its cells");
    GridBase::Point2D c = g->getCenterPoint();
    vc_assert(2 * (c.x() - g->offsetx) == g->getSizeX() && 2 * (c.y() - g->offsety) == g->getSizeY(), "the centre of a grid is in the middle");
}
VC_HARNESS h_order()
{
    GridBase::Position a(vc_nondet_size("ax"), vc_nondet_size("ay")), b(vc_nondet_size("bx"), vc_nondet_size("by")), c(vc_nondet_size("cx"), vc_nondet_size("cy"));
    vc_cover("Position");
    vc_assert((a == b) == (a.x == b.x && a.y == b.y) && (a != b) == !(a == b), "positions are equal exactly if their coordinates are");
    vc_assert((int)(a < b) + (int)(b < a) + (int)(a == b) == 1, "positions are totally ordered");
    vc_assert(!(a < b) || !(b < c) || a < c, "the order of positions is transitive");
}
