#include "native.h"
#include <limits>
#include <envire/maps/Grids.hpp>
#include <envire/maps/ElevationGrid.hpp>
using namespace envire;
template<class T> static T any() { return std::numeric_limits<T>::is_integer ? (T)rnd(-200, 200) : (T)rndd(-100, 100); }
template<class T> static void bands(const char* nm)
{
    CASE(); size_t nx = rnd(1, 9), ny = rnd(1, 9); double s = ldexp(1, rnd(-2, 2));
    std::ostringstream c; c << nm << " " << nx << "x" << ny; g_ctx = c.str();
    typedef Grid<T> G; typename G::Ptr g = new G(nx, ny, s, s, rnd(-5, 5), rnd(-5, 5)); const G& cg = *g;
    CHECK(!g->hasBand("a"), "a grid has no band that was not created", ""); g->createBand("a"); CHECK(g->hasBand("a") && !g->hasBand("b"), "a created band exists", "");
    typename G::ArrayType& a = g->getGridData("a"); CHECK(a.shape()[0] == ny && a.shape()[1] == nx && a.num_elements() == nx * ny, "a band has the size of the grid", a.shape()[0] << "x" << a.shape()[1]);
    std::vector<T> m(nx * ny), m2(nx * ny); int mode = rnd(0, 3); for(size_t i = 0; i < m.size(); i++) { m[i] = any<T>(); if(mode == 1 && m[i] > 0) m[i] = -m[i]; if(mode == 2 && m[i] < 0) m[i] = -m[i]; m2[i] = any<T>(); }
    for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) { g->getFromRaster("a", x, y) = m[y * nx + x]; double px, py; g->fromGrid(x, y, px, py); g->get("b", px + s * .25, py - s * .25) = m2[y * nx + x]; }
    for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) { double px, py; g->fromGrid(x, y, px, py);
        CHECK(cg.getFromRaster("a", x, y) == m[y * nx + x] && cg.get("a", px, py) == m[y * nx + x] && g->getGridData("a").data()[y * nx + x] == m[y * nx + x], "a value written is read back", x << "," << y);
        CHECK(cg.getFromRaster("b", x, y) == m2[y * nx + x], "a value written by position is read back", x << "," << y); }
    T mn, mx; g->getMinMaxValues("a", mn, mx);
    CHECK(mn == *std::min_element(m.begin(), m.end()), "the minimum of a band", (double)mn); CHECK(mx == *std::max_element(m.begin(), m.end()), "the maximum of a band", (double)mx << " instead of " << (double)*std::max_element(m.begin(), m.end()));
    for(int k = 0; k < 4; k++) { double px = g->getOffsetX() + (k == 0 ? -.01 : k == 1 ? nx * s : .5 * s), py = g->getOffsetY() + (k == 2 ? -.01 : k == 3 ? ny * s : .5 * s); int t = 0; try { cg.get("a", px, py); } catch(std::runtime_error const&) { t++; } try { g->get("a", px, py); } catch(std::runtime_error const&) { t++; } CHECK(t == 2, "reading outside of the grid is refused", k); }
    // no-data values
    CHECK(!g->getNoData("a").second, "no no-data value by default", ""); T nd = any<T>(); g->setNoData("a", nd); CHECK(g->getNoData("a").second && g->getNoData("a").first == nd && !g->getNoData("b").second, "the no-data value of a band", ""); T nd2 = any<T>(); 
    // copies are independent
    typename G::Ptr h = new G(nx, ny, s, s); h->copyBandFrom(*g, "a", "c"); h->copyBandFrom(*g, "b"); CHECK(h->hasBand("c") && h->hasBand("b") && !h->hasBand("a"), "a band is copied under the name given", ""); CHECK(h->getNoData("c").second && h->getNoData("c").first == nd && !h->getNoData("b").second, "the no-data value is copied with the band", "");
    CHECK(std::equal(m.begin(), m.end(), h->getGridData("c").data()) && std::equal(m2.begin(), m2.end(), h->getGridData("b").data()), "copying a band copies its values", "");
    typename G::Ptr k = g->clone(); g->getFromRaster("a", 0, 0) = m[0] + 1; CHECK(k->getCellSizeX() == nx && k->getCellSizeY() == ny && k->getScaleX() == s && k->getOffsetX() == g->getOffsetX() && k->getOffsetY() == g->getOffsetY(), "a clone has the same geometry", "");
    CHECK(std::equal(m.begin(), m.end(), k->getGridData("a").data()) && std::equal(m.begin(), m.end(), h->getGridData("c").data()), "copies are independent of the original", ""); CHECK(k->getNoData("a").second && k->getNoData("a").first == nd, "a clone has the same no-data values", "");
    typename G::Ptr e = new G(2, 2, 1, 1); e->createBand("z"); e->set(k.get()); CHECK(e->getCellSizeX() == nx && e->getCellSizeY() == ny && e->hasBand("a") && !e->hasBand("z") && std::equal(m.begin(), m.end(), e->getGridData("a").data()), "assigning a grid takes over its content", "");
    g->setNoData(nd2); CHECK(g->getNoData("a").first == nd2 && g->getNoData("b").second && g->getNoData("b").first == nd2, "a no-data value for all bands", "");
    bool bad = false; try { Grid<bool> o(2, 2, 1, 1); h->copyBandFrom(o, "a"); } catch(std::bad_cast const&) { bad = true; } CHECK(bad, "copying from a grid of another type is refused", "");
    // bands are streamed completely
    std::stringstream ss; k->writeGridData("a", ss); e->readGridData("q", ss); CHECK(std::equal(m.begin(), m.end(), e->getGridData("q").data()), "a band written to a stream is read back", "");
}
static void elevation()
{
    CASE(); size_t nx = rnd(1, 6), ny = rnd(1, 6); double sx = rndd(.1, 2), sy = rndd(.1, 2); std::ostringstream c; c << "elevation " << nx << "x" << ny << " scale " << sx << "," << sy; g_ctx = c.str();
    ElevationGrid* g = new ElevationGrid(nx, ny, sx, sy, rnd(-5, 5), rnd(-5, 5)); GridBase::Ptr keep = g; double ax = rndd(-2, 2), ay = rndd(-2, 2), b = rndd(-5, 5); if(nx == 1) ax = 0; if(ny == 1) ay = 0; bool plane = rnd(0, 1);
    g->getGridData(ElevationGrid::ELEVATION); for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) { double px, py; g->fromGrid(x, y, px, py); g->get(GridBase::Position(x, y)) = plane ? ax * px + ay * py + b : rndd(-3, 3); CHECK(g->get(GridBase::Position(x, y)) == g->getFromRaster(ElevationGrid::ELEVATION, x, y) && g->get(px, py) == g->get(GridBase::Position(x, y)) && ((ElevationGrid const*)g)->get(GridBase::Position(x, y)) == g->get(px, py), "the elevation of a cell is the one stored in its place", x << "," << y); }
    for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) {
        Eigen::Vector3d n = g->getNormal(GridBase::Position(x, y)); size_t x0 = x ? x - 1 : x, x1 = x + 1 < nx ? x + 1 : x, y0 = y ? y - 1 : y, y1 = y + 1 < ny ? y + 1 : y; ElevationGrid::ArrayType& a = g->getGridData(ElevationGrid::ELEVATION);
        double dx = x1 > x0 ? (a[y][x1] - a[y][x0]) / sx / (x1 - x0) : 0, dy = y1 > y0 ? (a[y1][x] - a[y0][x]) / sy / (y1 - y0) : 0; Eigen::Vector3d e = Eigen::Vector3d(-dx, -dy, 1).normalized();
        CHECK((n - e).norm() < 1e-9, "the normal is perpendicular to the slopes", x << "," << y << ": " << n.transpose() << " instead of " << e.transpose());
        double px, py; g->fromGrid(x, y, px, py); double fx = rndd(-.49, .49) * sx, fy = rndd(-.49, .49) * sy, h = g->getElevation(GridBase::Point2D(px + fx, py + fy)), he = a[y][x] + dx * fx + dy * fy;
        CHECK(fabs(h - he) < 1e-9 * (1 + fabs(he)) * 100, "the elevation is that of the plane through the cell", x << "," << y << ": " << h << " instead of " << he); if(plane) CHECK(fabs(h - (ax * (px + fx) + ay * (py + fy) + b)) < 1e-7, "a plane is represented exactly", x << "," << y); }
    bool t = false; try { g->getElevation(GridBase::Point2D(g->getOffsetX() - .1, g->getOffsetY())); } catch(std::runtime_error const&) { t = true; } CHECK(t, "the elevation outside of the grid is refused", "");
}
void run_all()
{
    for(int i = 0; i < 60 * g_scale; i++) { bands<double>("double"); bands<float>("float"); bands<int16_t>("int16"); bands<int32_t>("int32"); bands<uint8_t>("uint8"); bands<uint16_t>("uint16"); bands<uint32_t>("uint32"); }
    for(int i = 0; i < 400 * g_scale; i++) elevation();
}
