// bounded cross-check of M02: MLS grids against a grid of lists of patches
#include "envmodel.h"
#include <list>
#include <envire/maps/MLSGrid.hpp>
typedef SurfacePatch SP; typedef std::list<SP> Cell; typedef MLSConfiguration MC;
static bool same(SP const& a, SP const& b) { return a.mean == b.mean && a.stdev == b.stdev && a.height == b.height && a.min == b.min && a.max == b.max && a.n == b.n && a.normsq == b.normsq && a.update_idx == b.update_idx && a.isHorizontal() == b.isHorizontal() && a.isNegative() == b.isNegative() && a.plane.z == b.plane.z && a.plane.n == b.plane.n && a.plane.xz == b.plane.xz && !memcmp(a.color, b.color, 3); }
static std::string str(SP const& p) { std::ostringstream o; o << "{" << p.mean << "," << p.stdev << "," << p.height << " t" << p.isHorizontal() + 2 * p.isNegative() << " n" << p.n << " u" << p.update_idx << "}"; return o.str(); }
struct Mod { long w, h; double sx, sy, ox, oy; MC c; bool index; std::vector<Cell> cells; Cell& at(long x, long y) { return cells[x * h + y]; } };
static SP make() { int k = rnd(0, 5); SP p(std::floor(rndd(-4, 4) * 4) / 4, rndd(0.02, 0.3), k >= 4 ? rndd(0, 1.5) : 0, k < 4 ? SP::HORIZONTAL : k == 4 ? SP::VERTICAL : SP::NEGATIVE); p.update_idx = rnd(0, 3); p.setColor(base::Vector3d(rndd(0, 1), rndd(0, 1), rndd(0, 1))); return p; }
static void check(MLSGrid& g, Mod& m)
{
    size_t n = 0; Eigen::AlignedBox2i box; std::set<std::pair<size_t, size_t> > used; const MLSGrid& cg = g;
    for(long x = 0; x < m.w; x++) for(long y = 0; y < m.h; y++) {
        Cell& l = m.at(x, y); Cell::iterator e = l.begin(); size_t k = 0; MLSGrid::const_iterator ci = cg.beginCell(x, y);
        for(MLSGrid::iterator i = g.beginCell(GridBase::Position(x, y)); i != g.endCell() && e != l.end(); ++i, ++e, ++ci, ++k) { CHECK(same(*i, *e), "a cell holds the patches inserted or updated, in order", "cell " << x << " " << y << " patch " << k << " is " << str(*i) << " expected " << str(*e)); CHECK(&*ci == &*i, "constant iteration visits the same patches", ""); }
        size_t cnt = 0; for(MLSGrid::iterator i = g.beginCell(x, y); i != g.endCell(); ++i) cnt++;
        CHECK(cnt == l.size(), "a cell holds exactly its patches", "cell " << x << " " << y << " has " << cnt << " expected " << l.size());
        n += l.size(); if(l.size()) { box.extend(Eigen::Vector2i(x, y)); used.insert(std::make_pair(x, y)); }
    }
    CHECK(g.getCellCount() == n && g.empty() == (n == 0), "the number of patches is the number of patches in the cells", g.getCellCount() << " expected " << n);
    CHECK((g.getIndex() != NULL) == m.index, "a grid has an index exactly if it was asked for", m.index);
    if(g.getIndex()) for(auto& u : used) CHECK(g.getIndex()->cells.count(GridBase::Position(u.first, u.second)), "the index lists every cell with patches", u.first << " " << u.second);
    if(g.getIndex()) for(auto& u : g.getIndex()->cells) CHECK(u.x < (size_t)m.w && u.y < (size_t)m.h, "the index lists only cells of the grid", u.x << " " << u.y);
    if(n) CHECK(g.getCellExtents().contains(box), "all patches lie within the extents", g.getCellExtents().min().transpose() << " to " << g.getCellExtents().max().transpose()); 
    CHECK(g.getCellExtents().min().x() >= 0 && g.getCellExtents().min().y() >= 0 && g.getCellExtents().max().x() < std::max(1l, m.w) && g.getCellExtents().max().y() < std::max(1l, m.h), "the extents lie within the grid", "");
    CHECK(g.getConfig().updateModel == m.c.updateModel && g.getConfig().gapSize == m.c.gapSize && g.getConfig().thickness == m.c.thickness, "the configuration stays", "");
}
// updating a cell in terms of merging patches (M03)
static void upd(Mod& m, long x, long y, SP o)
{
    Cell& l = m.at(x, y); std::list<Cell::iterator> mg; for(Cell::iterator i = l.begin(); i != l.end(); ++i) if(i->merge(o, m.c.thickness, m.c.gapSize, m.c.updateModel)) mg.push_back(i);
    if(mg.empty()) { l.push_front(o); return; }
    for(; !mg.empty(); mg.pop_front()) for(auto i = ++mg.begin(); i != mg.end(); ) if(mg.front()->merge(**i, m.c.thickness, m.c.gapSize, m.c.updateModel)) { l.erase(*i); i = mg.erase(i); } else ++i;
}
static bool cellof(Mod& m, double px, double py, long& x, long& y) { x = std::floor((px - m.ox) / m.sx); y = std::floor((py - m.oy) / m.sy); return x >= 0 && y >= 0 && x < m.w && y < m.h; }
static double rim(Mod& m, double px, double py) { double fx = (px - m.ox) / m.sx, fy = (py - m.oy) / m.sy; return std::min(std::fabs(fx - std::round(fx)), std::fabs(fy - std::round(fy))); }
static SP upsp(Mod& m, Eigen::Vector2d p, SP o, long x, long y) { if(m.c.updateModel != MC::SLOPE) return o; return SP(Eigen::Vector3f(p.x() - m.ox - x * m.sx, p.y() - m.oy - y * m.sy, o.mean), o.stdev); }
static void mrg(Mod& m, Mod& o, Eigen::Affine3d const& t, SP off)
{
    for(long x = 0; x < o.w; x++) for(long y = 0; y < o.h; y++) for(SP s : o.at(x, y)) { Eigen::Vector3d p = t * Eigen::Vector3d((x + .5) * o.sx + o.ox, (y + .5) * o.sy + o.oy, 0); long a, b; if(!cellof(m, p.x(), p.y(), a, b)) continue;
        s.mean += off.mean + p.z(); s.stdev = std::sqrt(std::pow(s.stdev, 2) + std::pow(off.stdev, 2)); s.update_idx = off.update_idx; upd(m, a, b, s); }
}
static void history()
{
    const int N = 3; MLSGrid* g[N]; Mod m[N]; std::ostringstream log;
    for(int i = 0; i < N; i++) { Mod& q = m[i]; q.w = rnd(1, 5); q.h = rnd(1, 5); q.sx = rnd(1, 4) * .25; q.sy = rnd(1, 4) * .25; q.ox = rnd(-4, 4) * .5; q.oy = rnd(-4, 4) * .5; q.cells.resize(q.w * q.h); q.index = false; g[i] = new MLSGrid(q.w, q.h, q.sx, q.sy, q.ox, q.oy);
        q.c.updateModel = i == 0 ? MC::SUM : rnd(0, 2) ? MC::KALMAN : MC::SUM; q.c.gapSize = rnd(0, 4) * .25; q.c.thickness = rnd(0, 1) ? 0.05 : .5; g[i]->getConfig() = q.c; log << " " << q.w << "x" << q.h << " model " << q.c.updateModel; }
    for(int s = 0; s < 50; s++) {
        CASE(); int i = rnd(0, N - 1), j = rnd(0, N - 1), o = rnd(0, 23); Mod& q = m[i]; long x = rnd(0, q.w - 1), y = rnd(0, q.h - 1); if(rnd(0, 1)) x = q.w - 1, y = 0; SP p = make(); Cell& l = q.at(x, y); log << " " << o << "(" << i << "," << x << "," << y; g_ctx = log.str();
        if(o <= 2) { g[i]->insertHead(x, y, p); l.push_front(p); }
        else if(o <= 5) { g[i]->insertTail(x, y, p); l.push_back(p); }
        else if(o <= 7) { if(l.size()) { int k = rnd(0, l.size() - 1); MLSGrid::iterator a = g[i]->beginCell(x, y); Cell::iterator b = l.begin(); for(int c = 0; c < k; c++) ++a, ++b; MLSGrid::iterator r = g[i]->erase(a); b = l.erase(b); CHECK((r == g[i]->endCell()) == (b == l.end()) && (b == l.end() || same(*r, *b)), "erasing returns the patch after the erased one", k); } }
        else if(o <= 10) { int k = rnd(0, 2); if(k == 0) g[i]->updateCell(x, y, p); else if(k == 1) g[i]->updateCell(GridBase::Position(x, y), p); else { p = SP(p.mean, p.stdev); memset(p.color, 0, 3); memset(g[i], 0, 0); g[i]->updateCell(x, y, p); } upd(q, x, y, p); }
        else if(o <= 14) { Eigen::Vector2d pos(q.ox + rndd(-.2, 1.2) * q.w * q.sx, q.oy + rndd(-.2, 1.2) * q.h * q.sy); if(rim(q, pos.x(), pos.y()) > 1e-6) { long a, b; bool in = cellof(q, pos.x(), pos.y(), a, b), r = g[i]->update(pos, p); log << "," << pos.transpose(); g_ctx = log.str(); CHECK(r == in, "a patch is taken exactly if its position is on the grid", in); if(in) upd(q, a, b, p); } }
        else if(o == 15) { g[i]->initIndex(); q.index = true; }
        else if(o == 16) { long dx = rnd(-2, 2), dy = rnd(-2, 2); log << "," << dx << "," << dy; g_ctx = log.str(); g[i]->move(dx, dy); std::vector<Cell> n(q.w * q.h); for(long a = 0; a < q.w; a++) for(long b = 0; b < q.h; b++) if(a + dx >= 0 && a + dx < q.w && b + dy >= 0 && b + dy < q.h) n[(a + dx) * q.h + b + dy] = q.at(a, b); q.cells = n; }
        else if(o == 17 && i != j) { log << "," << j; g_ctx = log.str(); if(rnd(0, 1)) { bool ix = q.index; *g[i] = *g[j]; m[i] = m[j]; m[i].index = ix; } else { delete g[i]; g[i] = rnd(0, 1) ? g[j]->clone() : new MLSGrid(*g[j]); m[i] = m[j]; m[i].index = g[i]->getIndex() != NULL; } }
        else if(o == 18 && rnd(0, 3) == 0) { g[i]->clear(); for(Cell& c : q.cells) c.clear(); }
        else if(o == 19) { SP off(rnd(-2, 2) * .5, rndd(0, .2)); off.update_idx = rnd(0, 3); Eigen::Affine3d t(Eigen::Translation3d(rndd(-1, 1), rndd(-1, 1), rndd(-1, 1)) * Eigen::AngleAxisd(rnd(0, 1) ? 0 : rndd(-1, 1), Eigen::Vector3d::UnitZ()));
            if(i != j) { log << "," << j; g_ctx = log.str(); g[i]->merge(*g[j], t, off); mrg(q, m[j], t, off); } }
        else if(o == 20) { SP t = make(); double sig = rndd(0.5, 4); bool ig = rnd(0, 1); SP* r = g[i]->get(GridBase::Position(x, y), t, sig, ig); Cell::iterator e = l.begin(); for(; e != l.end(); ++e) if(e->distance(t) < std::sqrt(sq(t.stdev) + sq(e->stdev)) * sig && (!ig || !e->isNegative())) break;
            CHECK((r != NULL) == (e != l.end()) && (!r || same(*r, *e)), "looking up a height yields the first patch within the tolerance", str(t) << " sigma " << sig); if(r) { bool own = false; for(MLSGrid::iterator k = g[i]->beginCell(x, y); k != g[i]->endCell(); ++k) own = own || &*k == r; CHECK(own, "the patch found is one of the cell", ""); } }
        else if(o == 21) { Eigen::Vector2d pos(q.ox + rndd(-.2, 1.2) * q.w * q.sx, q.oy + rndd(-.2, 1.2) * q.h * q.sy); if(rim(q, pos.x(), pos.y()) > 1e-6) { long a, b; bool in = cellof(q, pos.x(), pos.y(), a, b); double z = rndd(-4, 4), sd = rndd(.01, 1), z0 = z, s0 = sd; bool three = rnd(0, 1); SP* r = three ? g[i]->get(Eigen::Vector3d(pos.x(), pos.y(), z0), z, sd) : g[i]->get(pos, z, sd); SP t(z0, s0); Cell::iterator e; bool f = false; if(in) for(e = q.at(a, b).begin(); e != q.at(a, b).end(); ++e) if(e->distance(t) < std::sqrt(sq(t.stdev) + sq(e->stdev)) * 3.0 && !e->isNegative()) { f = true; break; }
            log << "," << pos.transpose() << "," << z0; g_ctx = log.str(); CHECK((r != NULL) == f, "a height is found exactly if a patch of the cell at the position matches it", f); if(f && r) CHECK(same(*r, *e) && z == r->mean && sd == r->stdev, "the height found is that of the patch", z); else CHECK(z == z0 && sd == s0, "a height that is not found stays as it was", z); } }
        else if(o == 22) { std::ostringstream os; g[i]->writeMap(os); std::istringstream is(os.str()); MLSGrid* n = new MLSGrid(q.w, q.h, q.sx, q.sy, q.ox, q.oy); n->getConfig() = q.c; n->readMap(is); Mod t = q; t.index = false; check(*n, t); delete n; }
        else if(o == 23) { MLSGrid* n = g[i]->cloneShallow(); Mod t = q; t.index = false; for(Cell& c : t.cells) c.clear(); check(*n, t); CHECK(n->getCellSizeX() == q.w && n->getCellSizeY() == q.h && n->getScaleX() == q.sx && n->getScaleY() == q.sy && n->getOffsetX() == q.ox && n->getOffsetY() == q.oy, "a shallow clone has the geometry", ""); delete n;
            if(g[i]->getIndex() && !g[i]->empty()) CHECK(g[i]->match(*g[i], Eigen::Affine3d::Identity(), [] { SP z(0, .01); z.update_idx = 0; return z; }(), 1, 3) >= 0, "matching yields a ratio", ""); if(!g[i]->getIndex()) { bool th = false; try { g[i]->match(*g[i], Eigen::Affine3d::Identity(), p, 1, 3); } catch(std::runtime_error const&) { th = true; } CHECK(th, "matching without an index is refused", ""); }
            if(rnd(0, 1)) { float f = rndd(.5, 2); g[i]->scalePatchWeights(f); for(Cell& c : q.cells) for(SP& a : c) a.scaleWeight(f); } }
        log << ")"; g_ctx = log.str(); for(int k = 0; k < N; k++) check(*g[k], m[k]);
    }
    for(int i = 0; i < N; i++) delete g[i];
}
static void matching()
{
    CASE(); long w = rnd(2, 6), h = rnd(2, 6); MLSGrid a(w, h, .5, .5), b(w, h, .5, .5); a.initIndex(); b.initIndex(); int n = 0, k = 0; std::ostringstream l; l << "match " << w << "x" << h; g_ctx = l.str();
    for(long x = 0; x < w; x++) for(long y = 0; y < h; y++) { if(rnd(0, 2) == 0) continue; n++; b.insertHead(x, y, SP(x, .1)); if(rnd(0, 1)) { k++; a.insertHead(x, y, SP(x + 1, .1)); } else if(rnd(0, 1)) a.insertHead(x, y, SP(x + 5, .1)); }
    SP off(1, .1); float r = a.match(b, Eigen::Affine3d::Identity(), off, 1, 3); CHECK(std::fabs(r - (n ? (double)k / n : 1)) < 1e-5, "matching yields the share of cells with a matching patch", r << " expected " << k << "/" << n);
}
static void slope()
{
    CASE(); MLSGrid g(3, 3, .5, .5, -1, 2); g.getConfig().updateModel = MC::SLOPE; g.getConfig().gapSize = 5; double a = rndd(-1, 1), b = rndd(-1, 1), c = rndd(-1, 1); g_ctx = "slope";
    long X = rnd(0, 2), Y = rnd(0, 2); double bx = -1 + X * .5, by = 2 + Y * .5; double pts[6][2] = { { .05, .05 }, { .45, .05 }, { .05, .45 }, { .45, .45 }, { .2, .3 }, { .3, .1 } };
    for(auto& p : pts) { SP s(a * p[0] + b * p[1] + c, .05f); s.setColor(base::Vector3d::Zero()); CHECK(g.update(Eigen::Vector2d(bx + p[0], by + p[1]), s), "a patch is taken exactly if its position is on the grid", ""); }
    CHECK(g.getCellCount() == 1, "measurements of one surface make one patch", g.getCellCount()); double x = rndd(.01, .49), y = rndd(.01, .49), z = a * x + b * y + c, sd = .5, z0 = z; SP* r = g.get(Eigen::Vector2d(bx + x, by + y), z, sd); CHECK(r && std::fabs(z - z0) < 3e-2, "the height of a sloped patch depends on the position", z << " expected " << z0);
}
void run_all() { for(int i = 0; i < 400 * g_scale; i++) { history(); matching(); slope(); } }
