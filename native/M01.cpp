// bounded cross-check of M01: grid of lists against a grid of std::list
#include "native.h"
#include <cstring>
#include <list>
#include <boost/multi_array.hpp>
#include <envire/tools/ListGrid.hpp>
using namespace envire;
struct P { int a; double b; bool operator==(P const& o) const { return a == o.a && b == o.b; } };
typedef ListGrid<P> Grid; typedef std::list<P> Cell;
struct Mod { size_t w, h; std::vector<Cell> c; Mod(size_t w = 0, size_t h = 0) : w(w), h(h), c(w * h) {} Cell& at(size_t x, size_t y) { return c[x * h + y]; } };
static void check(Grid& g, Mod& m)
{
    const Grid& cg = g;
    for(size_t x = 0; x < m.w; x++) for(size_t y = 0; y < m.h; y++) {
        Cell& l = m.at(x, y); Cell::iterator e = l.begin(); size_t n = 0; Grid::const_iterator ci = cg.beginCell(x, y);
        for(Grid::iterator i = g.beginCell(x, y); i != g.endCell(); i++, n++) {
            if(e == l.end()) { CHECK(false, "a cell holds exactly the elements inserted and not removed", "cell " << x << " " << y << " has more than " << l.size()); break; }
            CHECK(*i == *e && i->a == e->a, "a cell holds its elements in order, with their values", "cell " << x << " " << y << " element " << n << " is " << i->a << " expected " << e->a);
            CHECK(ci != cg.endCell() && &*ci == &*i, "constant iteration visits the same elements", x); ++ci; e++;
        }
        CHECK(e == l.end(), "a cell holds exactly the elements inserted and not removed", "cell " << x << " " << y << " has " << n << " of " << l.size());
    }
}
void run_all()
{
    for(int h = 0; h < 250 * g_scale; h++) {
        const int N = 3; Grid* g[N]; Mod m[N]; std::ostringstream log;
        for(int i = 0; i < N; i++) { size_t w = rnd(1, 4), hh = rnd(1, 4); g[i] = new Grid(w, hh); m[i] = Mod(w, hh); log << " " << w << "x" << hh; }
        for(int s = 0; s < 60; s++) {
            CASE(); int i = rnd(0, N - 1), j = rnd(0, N - 1), o = rnd(0, 19); log << " " << o << "(" << i; size_t x = m[i].w ? rnd(0, m[i].w - 1) : 0, y = m[i].h ? rnd(0, m[i].h - 1) : 0; if(!m[i].w || !m[i].h) o = 15; if(o < 13 && rnd(0, 2)) { x = 0; y = m[i].h - 1; } P p = { (int)rnd(0, 10000), rndd(-1, 1) };
            if(o <= 3) { log << "," << x << "," << y; g[i]->insertHead(x, y, p); m[i].at(x, y).push_front(p); }
            else if(o <= 7) { log << "," << x << "," << y; g[i]->insertTail(x, y, p); m[i].at(x, y).push_back(p); }
            else if(o <= 12) { Cell& l = m[i].at(x, y); if(l.size()) { int k = rnd(0, l.size() - 1); log << "," << x << "," << y << "," << k; Grid::iterator it = g[i]->beginCell(x, y); Cell::iterator e = l.begin(); for(int q = 0; q < k; q++) { ++it; ++e; }
                Grid::iterator r = g[i]->erase(it); e = l.erase(e); g_ctx = log.str(); CHECK((r == g[i]->endCell()) == (e == l.end()) && (e == l.end() || *r == *e), "erasing returns the element after the erased one", ""); } }
            else if(o == 13) { int dx = rnd(-2, 2), dy = rnd(-2, 2); if(rnd(0, 9) == 0) dx = rnd(0, 1) ? 5 : -5; log << "," << dx << "," << dy; g_ctx = log.str(); g[i]->move(dx, dy); Mod n(m[i].w, m[i].h);
                for(long a = 0; a < (long)n.w; a++) for(long b = 0; b < (long)n.h; b++) if(a + dx >= 0 && a + dx < (long)n.w && b + dy >= 0 && b + dy < (long)n.h) n.at(a + dx, b + dy) = m[i].at(a, b); m[i] = n; }
            else if(o == 14 && rnd(0, 3) == 0) { g[i]->clear(); for(Cell& c : m[i].c) c.clear(); }
            else if(o == 15) { size_t w = rnd(1, 4), hh = rnd(1, 4); log << "," << w << "," << hh; g_ctx = log.str(); g[i]->resize(w, hh); m[i] = Mod(w, hh); }
            else if(o <= 17) { log << "," << j; g_ctx = log.str(); *g[i] = *g[j]; Mod t = m[j]; m[i] = t; }
            else if(o == 18 && i != j) { log << "," << j; g_ctx = log.str(); void* junk = malloc(sizeof(Grid)); memset(junk, 0x5a, sizeof(Grid)); Grid* n = new (junk) Grid(*g[j]); delete g[i]; g[i] = new Grid(*n); n->~Grid(); free(junk); m[i] = m[j]; }
            else if(o == 19 && rnd(0, 3) == 0) { Grid* n = new Grid(); *n = *g[i]; delete g[i]; g[i] = n; }
            log << ")"; g_ctx = log.str();
            for(int q = 0; q < N; q++) check(*g[q], m[q]);
        }
        for(int i = 0; i < N; i++) delete g[i];
    }
}
