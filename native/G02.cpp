#define NATIVE_REPLAY
#include "native.h"
#include <envire/tools/BresenhamLine.hpp>
using namespace envire;
static void line(int x0, int y0, int x1, int y1, int mode)
{
    CASE();
    std::ostringstream c; c << "line (" << x0 << "," << y0 << ")->(" << x1 << "," << y1 << ") mode " << mode; g_ctx = c.str();
    std::vector<std::pair<long, long> > p;
    long dx = std::abs((long)x1 - x0), dy = std::abs((long)y1 - y0), n = std::max(dx, dy) + 1;
    if(mode == 0) {
        Bresenham b(Eigen::Vector2i(x0, y0), Eigen::Vector2i(x1, y1)); int x, y;
        while((long)p.size() <= n && b.getNextPoint(x, y)) p.push_back(std::make_pair(x, y));
        if((long)p.size() == n) { CHECK(!b.getNextPoint(x, y), "no point after the end", ""); }
    } else if(mode == 1) {
        Bresenham b(Eigen::Vector2i(7, -3), Eigen::Vector2i(1, 2)); int a_, b_; b.getNextPoint(a_, b_); b.init(x0, y0, x1, y1); Eigen::Vector2i v;
        while((long)p.size() <= n && b.getNextPoint(v)) p.push_back(std::make_pair(v.x(), v.y()));
    } else if(mode == 2) {
        std::vector<GridBase::Position> ps; lineBresenham(GridBase::Position(x0, y0), GridBase::Position(x1, y1), ps);
        for(size_t i = 0; i < ps.size(); i++) p.push_back(std::make_pair(ps[i].x, ps[i].y));
    } else {
        Bresenham b(GridBase::Position(1, 1), GridBase::Position(2, 2)); b.init(GridBase::Position(x0, y0), GridBase::Position(x1, y1)); GridBase::Position v;
        while((long)p.size() <= n && b.getNextPoint(v)) p.push_back(std::make_pair(v.x, v.y));
    }
    CHECK((long)p.size() == n, "number of cells is one more than the larger extent", p.size());
    if(p.empty()) return;
    CHECK(p.front() == std::make_pair((long)x0, (long)y0), "line starts at the start cell", "");
    CHECK(p.back() == std::make_pair((long)x1, (long)y1), "line ends at the end cell", p.back().first << "," << p.back().second);
    long sx = x0 < x1 ? 1 : -1, sy = y0 < y1 ? 1 : -1;
    for(size_t i = 0; i < p.size(); i++) {
        long X = (p[i].first - x0) * sx, Y = (p[i].second - y0) * sy;
        CHECK((dx >= dy ? X : Y) == (long)i, "one cell per step along the major axis", i << ": " << p[i].first << "," << p[i].second);
        long d = Y * dx - X * dy; if(d < 0) d = -d;
        CHECK(2 * d <= std::max(dx, dy), "cell is within half a cell of the ideal line", i << ": " << p[i].first << "," << p[i].second);
    }
}
void run_all()
{
    int R = 7;
    for(int a = -R; a <= R; a++) for(int b = -R; b <= R; b++) { line(0, 0, a, b, 0); line(a, b, 0, 0, 1); line(3, -2, a, b, 1); if(a >= 0 && b >= 0) { line(a, b, 3, 2, 2); line(2, 5, a, b, 3); line(0, 0, a, b, 2); } }
    for(int i = 0; i < 3000 * g_scale; i++) { int M = i % 3 ? 60 : 1500; line(rnd(-M, M), rnd(-M, M), rnd(-M, M), rnd(-M, M), i & 1); line(rnd(0, M), rnd(0, M), rnd(0, M), rnd(0, M), 2 + (i & 1)); }
    for(int i = 0; i < 40; i++) { int L = rnd(20000, 70000); line(0, 0, L, rnd(20000, 70000), 0); line(L, rnd(0, 70000), 0, 0, 1); line(rnd(-60000, 60000), rnd(-20, 20), rnd(-60000, 60000), rnd(-20, 20), i & 1); line(rnd(0, 20), rnd(0, 60000), rnd(0, 20), rnd(0, 60000), 2); }
}
void replay(Model const& m)
{
    if(std::max(std::abs(m("x1") - m("x0")), std::abs(m("y1") - m("y0"))) < 5e6) line(m("x0"), m("y0"), m("x1"), m("y1"), 0);
}
