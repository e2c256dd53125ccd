#include "native.h"
#include <limits>
#include <set>
#include <map>
#include <envire/maps/TraversabilityGrid.hpp>
using namespace envire;
typedef TraversabilityGrid TG; typedef TraversabilityClass TC; typedef TraversabilityStatistic TS;
static void classes()
{
    CASE(); g_ctx = "classes"; double d = rnd(0, 5) ? rndd(0, 1) : rnd(0, 1); TC c(d), u; CHECK(c.isSet() && c.getDrivability() == d && c.isTraversable() == (d > 0), "a class has the drivability it was given", d);
    CHECK(!u.isSet() && !u.isTraversable() && u.getDrivability() == 0, "a class without drivability is not set and not traversable", "");
    double bad[] = { -.5, -1e-6, 1.5, 2, -1 }; for(double b : bad) { bool t = false; try { TC x(b); } catch(std::runtime_error const&) { t = true; } CHECK(t, "a drivability outside of zero to one is refused", b); }
    TG::Ptr g = new TG(2, 2, 1, 1); std::map<int, double> m; g_ctx = "registered classes";
    for(int i = 0; i < 30; i++) {
        int op = rnd(0, 2), k = rnd(0, 6) ? rnd(0, 20) : rnd(0, 3) ? rnd(250, 255) : rnd(0, 255); double d = rndd(0, 1);
        if(op == 0) { g->setTraversabilityClass(k, TC(d)); m[k] = d; }
        if(op == 1) { uint8_t id = 0; if(g->registerNewTraversabilityClass(id, TC(d))) { CHECK(!m.count(id), "a new class gets a number that was not in use", (int)id); m[id] = d; } else CHECK(m.size() && m.rbegin()->first >= 254, "registering fails only if the grid is full", ""); }
        int top = m.empty() ? -1 : m.rbegin()->first;
        for(int j = 0; j < 256; j++) { bool t = false; double v = -7; bool set = false; try { const TC& c = g->getTraversabilityClass(j); v = c.getDrivability(); set = c.isSet(); } catch(std::runtime_error const&) { t = true; }
            if(m.count(j)) CHECK(!t && set && v == m[j], "a class that was registered is known", j); else if(j > top) CHECK(t, "asking for an unknown class is refused", j); else CHECK(t || (!set && v == 0), "a class that was not registered is not set", j); } }
    if(rnd(0, 9) == 0) { g_ctx = "registering until full"; int n = 0; for(; n < 300; n++) { uint8_t id = 0; double d = rndd(0, 1); if(!g->registerNewTraversabilityClass(id, TC(d))) break; CHECK(!m.count(id), "a new class gets a number that was not in use", (int)id); m[id] = d; } CHECK(n < 300 && m.rbegin()->first >= 254, "registering fails only if the grid is full", n); for(auto& x : m) CHECK(g->getTraversabilityClass(x.first).getDrivability() == x.second, "a class that was registered is known", x.first); }
}
static void fill(TG& g, std::vector<int>& cls, std::vector<double>& pr, int ncl)
{
    cls.resize(g.getCellSizeX() * g.getCellSizeY()); pr.resize(cls.size());
    for(size_t y = 0; y < g.getCellSizeY(); y++) for(size_t x = 0; x < g.getCellSizeX(); x++) { size_t i = y * g.getCellSizeX() + x; cls[i] = ncl > 250 && rnd(0, 3) == 0 ? 255 : rnd(0, ncl - 1); pr[i] = rnd(0, 5) ? rndd(0, 1) : rnd(0, 1); if(rnd(0, 1)) g.setTraversabilityAndProbability(cls[i], pr[i], x, y); else { g.setTraversability(cls[i], x, y); g.setProbability(pr[i], x, y); } }
}
static void same(TG& g, std::vector<int>& cls, std::vector<double>& pr, std::vector<double>& drv, const char* what)
{
    for(size_t y = 0; y < g.getCellSizeY(); y++) for(size_t x = 0; x < g.getCellSizeX(); x++) { size_t i = y * g.getCellSizeX() + x; const TC& c = g.getTraversability(x, y); double p = g.getProbability(x, y);
        CHECK(&c == &g.getTraversabilityClass(cls[i]) && fabs(c.getDrivability() - drv[cls[i]]) < 1e-15, "the class of a cell is the one that was set", what << " " << x << "," << y);
        CHECK(p <= pr[i] + 1e-12 && pr[i] - p < 1. / 255 + 1e-12 && (pr[i] != 1 || p == 1), "a probability is kept up to the resolution of the cell", what << " " << x << "," << y << ": " << p << " instead of " << pr[i]); }
}
static void cells()
{
    CASE(); size_t nx = rnd(1, 30), ny = rnd(1, 30); double s = ldexp(1, rnd(-3, 1)), ox = rnd(-5, 5), oy = rnd(-5, 5); std::ostringstream o; o << "traversability grid " << nx << "x" << ny << " scale " << s << " offset " << ox << "," << oy; g_ctx = o.str();
    TG::Ptr g = new TG(nx, ny, s, s, ox, oy); int ncl = rnd(0, 3) ? rnd(1, 8) : 256; std::vector<double> drv(ncl); double lo = rnd(0, 1) ? 0 : .1; for(int i = 0; i < ncl; i++) { drv[i] = rnd(0, 3) ? rndd(lo, 1) : lo; g->setTraversabilityClass(i, TC(drv[i])); }
    std::vector<int> cls; std::vector<double> pr; fill(*g, cls, pr, ncl); same(*g, cls, pr, drv, "grid");
    // copies
    TG::Ptr h = g->clone(); same(*h, cls, pr, drv, "clone"); TG::Ptr k = new TG(3, 2, 1, 1); if(rnd(0, 1)) { k->setTraversabilityClass(0, TC(.5)); k->setTraversability(0, 1, 1); k->setProbability(.5, 1, 1); } *k = *g; same(*k, cls, pr, drv, "assigned grid");
    { std::vector<int> c2; std::vector<double> p2; fill(*h, c2, p2, ncl); h->setTraversabilityClass(0, TC(drv[0])); same(*h, c2, p2, drv, "changed clone"); same(*g, cls, pr, drv, "grid with a changed clone"); fill(*k, c2, p2, ncl); same(*k, c2, p2, drv, "changed copy"); same(*g, cls, pr, drv, "grid with a changed copy"); }
    // rectangles
    for(int r = 0; r < 12; r++) {
        double W = nx * s, H = ny * s, sx = rndd(.2, 1) * W, sy = rndd(.2, 1) * H, a = r % 3 == 0 ? 0 : r % 3 == 1 ? rndd(-4, 4) : rnd(-4, 4) * M_PI / 4; base::Pose2D p; p.position = Eigen::Vector2d(ox + rndd(0, 1) * W, oy + rndd(0, 1) * H); p.orientation = a; if(r % 4 == 0) p.position = Eigen::Vector2d(ox + W / 2, oy + H / 2);
        double cx = .5 * (fabs(cos(a)) * sx + fabs(sin(a)) * sy), cy = .5 * (fabs(sin(a)) * sx + fabs(cos(a)) * sy); bool inside = p.position.x() - cx > ox + 1e-6 && p.position.x() + cx < ox + W - 1e-6 && p.position.y() - cy > oy + 1e-6 && p.position.y() + cy < oy + H - 1e-6;
        if(!inside) continue;
        std::ostringstream o2; o2.precision(17); o2 << o.str() << ", rectangle " << sx << "x" << sy << " at " << p.position.transpose() << " orientation " << a << ", " << ncl << " classes"; g_ctx = o2.str();
        TS st; g->computeStatistic(p, sx, sy, st); size_t tot = 0, core = 0, hull = 0; std::vector<size_t> mn(256), mx(256); double wp = 1, wph = 1; int hi = 0;
        for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) { double px = ox + (x + .5) * s - p.position.x(), py = oy + (y + .5) * s - p.position.y(), u = cos(a) * px + sin(a) * py, v = -sin(a) * px + cos(a) * py; size_t i = y * nx + x;
            if(fabs(u) < sx / 2 - s && fabs(v) < sy / 2 - s) { mn[cls[i]]++; core++; wp = std::min(wp, pr[i]); } if(fabs(u) < sx / 2 + 1.3 * s && fabs(v) < sy / 2 + 1.3 * s) { mx[cls[i]]++; hull++; wph = std::min(wph, pr[i] - 1. / 255); } }
        double worst = 2; for(int c = 0; c < ncl; c++) { size_t n; double d; st.getStatisticForClass(c, d, n); tot += n; if(n) { worst = std::min(worst, drv[c]); hi = c; CHECK(d >= -1e-9 && d <= sqrt(sx * sx + sy * sy) / 2 + 2 * s, "the smallest distance of a class lies within the rectangle", d); } CHECK(n == st.getClassCount(c) && n >= mn[c] && n <= mx[c], "the statistic counts each cell of the rectangle once", "class " << c << ": " << n << " of " << mn[c] << " to " << mx[c]); }
        CHECK(tot == st.getTotalCount() && (tot == 0 || st.getHighestTraversabilityClass() == hi), "the totals of a statistic fit its classes", tot);
        if(tot) { const TC& c = g->getWorstTraversabilityClassInRectangle(p, sx, sy); CHECK(c.getDrivability() == worst, "the worst class of a rectangle has the least drivability", c.getDrivability() << " instead of " << worst); double w = g->getWorstProbabilityInRectangle(p, sx, sy); CHECK(w <= wp + 1e-12 && w >= wph - 1e-12, "the worst probability of a rectangle is the least one", w); }
    }
    base::Pose2D p; p.position = Eigen::Vector2d(ox - 10 * s, oy); p.orientation = 0; bool t = false; std::cout.setstate(std::ios::failbit); try { g->getWorstTraversabilityClassInRectangle(p, s, s); } catch(std::runtime_error const&) { t = true; } std::cout.clear(); CHECK(t, "there is no worst class where there are no cells", "");
}
static void stat()
{
    CASE(); g_ctx = "statistic"; TS t; std::map<int, std::pair<size_t, double> > m; int n = rnd(0, 40); for(int i = 0; i < n; i++) { int k = rnd(0, 2) ? rnd(0, 9) : rnd(250, 255); double d = rndd(0, 9); t.addMeasurement(k, d); if(!m[k].first++ || d < m[k].second) m[k].second = d; }
    for(int k = 0; k < 256; k++) { double d; size_t c; t.getStatisticForClass(k, d, c); CHECK(c == (m.count(k) ? m[k].first : 0) && (!m.count(k) || d == m[k].second), "a statistic keeps count and smallest distance of each class", k); }
    CHECK(t.getTotalCount() == (size_t)n && t.getHighestTraversabilityClass() == (m.empty() ? 0 : m.rbegin()->first), "the totals of a statistic fit its measurements", "");
}
void run_all() { for(int i = 0; i < 300 * g_scale; i++) { classes(); stat(); cells(); } }
