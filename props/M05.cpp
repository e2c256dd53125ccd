#include <vc.h>
#include <envire/maps/GridBase.cpp>
#include <envire/maps/Grid.hpp>
namespace envire { template class Grid<double>; }
#include <envire/maps/ElevationGrid.cpp>
using namespace envire;
typedef Grid<double> G; typedef G::ArrayType A;
static A* ARR;
static double* BASE() { return ((boost::multi_array_ref<double, 2>*)ARR)->base_; } static G* g; static long gi;     // gi: an arbitrary element
static void mk()
{
    g = (G*)vc_fixed_object(1); ARR = (A*)vc_fixed_object(2);
    vc_assume(g->scalex > 0 && g->scaley > 0 && g->cellSizeX < 1000000 && g->cellSizeY < 1000000);
    // a band of the size of the grid, in the documented layout data()[y * cellSizeX + x]
    ARR->extent_list_.elems[0] = g->cellSizeY; ARR->extent_list_.elems[1] = g->cellSizeX; ARR->stride_list_.elems[0] = g->cellSizeX; ARR->stride_list_.elems[1] = 1; ARR->index_base_list_.elems[0] = 0; ARR->index_base_list_.elems[1] = 0; ARR->origin_offset_ = 0; ARR->directional_offset_ = 0;
    ARR->num_elements_ = g->cellSizeX * g->cellSizeY; ((boost::multi_array_ref<double, 2>*)ARR)->base_ = (double*)vc_fixed_object(3);
}
static long n_band; static const void* the_key;
VC_SPEC A* c_band(G*, std::string const& k) { vc_assert(&k == the_key, "the band asked for is used"); n_band++; return ARR; }
VC_HARNESS h_raster()
{
    mk(); std::string* k = (std::string*)vc_fixed_object(4); the_key = k; size_t x = vc_nondet_size("x"), y = vc_nondet_size("y"); vc_assume(x < g->cellSizeX && y < g->cellSizeY);
    double v = vc_nondet_double("v"), old = BASE()[y * g->cellSizeX + x];
    vc_cover("raster");
    vc_assert(((G const*)g)->getFromRaster(*k, x, y) == old, "a cell holds the value stored in its place");
    double& r = g->getFromRaster(*k, x, y);
    vc_assert(&r == BASE() + (y * g->cellSizeX + x), "the value of a cell is stored in its place");
    r = v;
    vc_assert(((G const*)g)->getFromRaster(*k, x, y) == v, "a value written is read back");
    size_t x2 = vc_nondet_size("x2"), y2 = vc_nondet_size("y2"); vc_assume(x2 < g->cellSizeX && y2 < g->cellSizeY && (x2 != x || y2 != y));
    double& r2 = g->getFromRaster(*k, x2, y2); 
    // two different cells are at different places: the offset determines the cell
    vc_assume((y2 <= y || y2 * g->cellSizeX >= y * g->cellSizeX + g->cellSizeX) && (y <= y2 || y * g->cellSizeX >= y2 * g->cellSizeX + g->cellSizeX));   // multiplication is monotone
    vc_assert(&r != &r2, "different cells are stored in different places");
}
VC_HARNESS h_get()
{
    mk(); std::string* k = (std::string*)vc_fixed_object(4); the_key = k; double x = vc_nondet_double("x"), y = vc_nondet_double("y"), v = 0, v2 = 0; size_t xi = 0, yi = 0; bool in = g->toGrid(x, y, xi, yi), thrown = false, thrown2 = false;
    try { v = ((G const*)g)->get(*k, x, y); } catch(std::runtime_error const&) { thrown = true; }
    double* p = 0; try { p = &g->get(*k, x, y); } catch(std::runtime_error const&) { thrown2 = true; }
    vc_cover("get");
    vc_assert(thrown == !in && thrown2 == !in, "reading outside of the grid is refused");
    vc_assert(!in || (v == BASE()[yi * g->cellSizeX + xi] && p == BASE() + (yi * g->cellSizeX + xi)), "the value at a position is that of its cell");
}
static double MN, MX, LO, HI;
static bool between(long e, void*) { return e < 0 || e >= (long)ARR->num_elements_ || (BASE()[e] >= LO && BASE()[e] <= HI); }
static long at(double** i) { return vc_offset(*i) / 8; }
VC_SPEC bool inv_at(double** i) { return vc_same_object(*i, BASE()) && at(i) >= 0 && at(i) <= (long)ARR->num_elements_ && vc_offset(*i) == 8 * at(i); }
VC_SPEC bool inv_min(double** i) { return at(i) <= gi || MN <= BASE()[gi]; }
VC_SPEC bool inv_max(double** i) { return at(i) <= gi || MX >= BASE()[gi]; }
VC_SPEC bool inv_lo(double** i) { return MN >= LO; }
VC_SPEC bool inv_hi(double** i) { return MX <= HI; }
VC_HARNESS h_minmax()
{
    mk(); std::string* k = (std::string*)vc_fixed_object(4); the_key = k; vc_assume(vc_offset(BASE()) == 0); gi = vc_nondet_long("element"); vc_assume(gi >= 0 && gi < (long)ARR->num_elements_);
    const double M = std::numeric_limits<double>::max(); LO = vc_nondet_double("lo"); HI = vc_nondet_double("hi"); vc_assume(LO >= -M && HI <= M); vc_assume(vc_forall_int(between, 0)); vc_assume(between(gi, 0));
    g->getMinMaxValues(*k, MN, MX);
    vc_cover("getMinMaxValues");
    double v = BASE()[gi];
    vc_assert(MN <= v, "no value is below the minimum");
    vc_assert(MX >= v, "no value is above the maximum");
    vc_assert(MN >= LO, "the minimum is within the range of the values");
    vc_assert(MX <= HI, "the maximum is within the range of the values");
}

// --- elevation: the surface is the plane through the centre of the cell with the slopes of its neighbours
static ElevationGrid* eg; static size_t ex, ey; static double nx, ny, nz;
static double el(size_t x, size_t y) { return BASE()[y * g->cellSizeX + x]; }
static size_t lo(size_t i) { return i > 0 ? i - 1 : i; }
static size_t hi(size_t i, size_t n) { return i + 1 < n ? i + 1 : i; }
static void mke() { mk(); eg = (ElevationGrid*)g; the_key = &ElevationGrid::ELEVATION; }
static Eigen::Vector3d raw;
VC_HARNESS h_normal()
{
    mke(); ex = vc_nondet_size("x"); ey = vc_nondet_size("y"); vc_assume(ex < g->cellSizeX && ey < g->cellSizeY);
    Eigen::Vector3d n = eg->getNormal(GridBase::Position(ex, ey));
    vc_cover("getNormal");
    size_t x0 = lo(ex), x1 = hi(ex, g->cellSizeX), y0 = lo(ey), y1 = hi(ey, g->cellSizeY);
    vc_assert(n.z() > 0, "the normal points up");
    vc_assert(x1 == x0 ? n.x() == 0 : n.x() * g->scalex * (x1 - x0) == n.z() * (el(x0, ey) - el(x1, ey)), "the normal is perpendicular to the slope in x");
    vc_assert(y1 == y0 ? n.y() == 0 : n.y() * g->scaley * (y1 - y0) == n.z() * (el(ex, y0) - el(ex, y1)), "the normal is perpendicular to the slope in y");
    vc_assert(n.x() * n.x() + n.y() * n.y() + n.z() * n.z() == 1, "the normal has unit length");
}
static Eigen::Vector3d the_normal; static long n_norm;
VC_SPEC void c_normal(Eigen::Vector3d* r, ElevationGrid const* e, GridBase::Position const& p) { vc_assert(p.x == ex && p.y == ey, "the normal of the cell of the point is used"); n_norm++; *r = the_normal; }
VC_HARNESS h_elevation()
{
    mke(); GridBase::Point2D p(vc_nondet_double("x"), vc_nondet_double("y")); ex = ey = 0; bool in = g->toGrid(p.x(), p.y(), ex, ey), thrown = false; double h = 0, cx, cy; g->fromGrid(ex, ey, cx, cy); n_norm = 0;
    the_normal = Eigen::Vector3d(vc_nondet_double("nx"), vc_nondet_double("ny"), vc_nondet_double("nz")); vc_assume(the_normal.z() > 0);
    try { h = eg->getElevation(p); } catch(std::runtime_error const&) { thrown = true; }
    vc_cover("getElevation");
    vc_assert(thrown == !in, "the elevation outside of the grid is refused");
    vc_assert(!in || n_norm == 1, "the normal is used once");
    vc_assert(!in || the_normal.z() * (h - el(ex, ey)) == (cx - p.x()) * the_normal.x() + (cy - p.y()) * the_normal.y(), "the elevation is that of the plane through the cell");
}
VC_HARNESS h_elev_get()
{
    mke(); size_t x = vc_nondet_size("x"), y = vc_nondet_size("y"); vc_assume(x < g->cellSizeX && y < g->cellSizeY);
    vc_cover("get");
    vc_assert(&eg->get(GridBase::Position(x, y)) == BASE() + (y * g->cellSizeX + x) && ((ElevationGrid const*)eg)->get(GridBase::Position(x, y)) == el(x, y), "the elevation of a cell is the one stored in its place");
}
