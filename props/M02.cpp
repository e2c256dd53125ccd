#include "env.h"
#include <envire/maps/GridBase.cpp>
#include <envire/maps/MLSGrid.cpp>
typedef SurfacePatch SP; typedef ListGrid<SP>::Item Item; typedef MLSGrid::Index Index;
static MLSGrid* g; static Index* ix; static size_t X, Y, N0; static Item *head, *gi, *gone; static SP* val; static long nins, nhead, ntail, nerase, nindex, nreset, ncell; static int gx, gy; static Eigen::Vector2i lo0, hi0;
static void* B(const char* n) { return obj(n); }
static void pre()
{
    g = (MLSGrid*)vc_fixed_object(1); ix = vc_nondet_bool("indexed") ? (Index*)vc_fixed_object(2) : NULL; g->index.px = ix; X = vc_nondet_size("x"); Y = vc_nondet_size("y");
    vc_assume((g->cellSizeX >= 1) & (g->cellSizeX <= 1000000000) & (g->cellSizeY >= 1) & (g->cellSizeY <= 1000000000)); vc_assume((X < g->cellSizeX) & (Y < g->cellSizeY));
    N0 = g->cellcount; vc_assume(N0 < 1000000000000); nins = nhead = ntail = nerase = nindex = nreset = ncell = 0; val = (SP*)vc_fixed_object(4);
    gx = vc_nondet_int("any x"); gy = vc_nondet_int("any y"); lo0 = g->extents.min(); hi0 = g->extents.max();
}
static bool in_ext() { return (g->extents.min().x() <= gx) & (gx <= g->extents.max().x()) & (g->extents.min().y() <= gy) & (gy <= g->extents.max().y()); }
static bool was_in() { return (lo0.x() <= gx) & (gx <= hi0.x()) & (lo0.y() <= gy) & (gy <= hi0.y()); }
// --- contracts of the list grid (M01) and the index
VC_SPEC void c_head(void*, size_t x, size_t y, SP* v) { vc_assert(x == X && y == Y && v == val, "the patch given is inserted into the cell given"); nhead++; nins++; }
VC_SPEC void c_tail(void*, size_t x, size_t y, SP* v) { vc_assert(x == X && y == Y && v == val, "the patch given is inserted into the cell given"); ntail++; nins++; }
VC_SPEC void c_erase(Item** r, void*, Item** pos) { vc_assert(*pos == gone, "the patch given is erased"); nerase++; *r = gi; }
VC_SPEC void c_index(Index* i, GridBase::Position* p) { vc_assert(i == ix && p->x == X && p->y == Y, "the cell of the patch enters the index"); nindex++; }
static void inserted()
{
    vc_assert(nins == 1, "inserting adds one patch"); vc_assert(g->cellcount == N0 + 1, "inserting a patch counts it"); vc_assert(nindex == (ix ? 1 : 0), "the index lists the cell of the patch"); vc_assert(nerase == 0, "inserting removes no patch");
    vc_assert(!was_in() || in_ext(), "the extents never lose a cell"); if (gx == (int)X && gy == (int)Y) vc_assert(in_ext(), "the cell of a new patch lies within the extents");
}
VC_HARNESS h_insertHead() { pre(); g->insertHead(X, Y, *val); vc_cover("insertHead"); inserted(); vc_assert(nhead == 1, "the patch becomes the first of its cell"); }
VC_HARNESS h_insertTail() { pre(); g->insertTail(X, Y, *val); vc_cover("insertTail"); inserted(); vc_assert(ntail == 1, "the patch becomes the last of its cell"); }
VC_HARNESS h_erase()
{
    pre(); vc_assume(N0 >= 1); gone = (Item*)B("patch to erase"); gi = (Item*)vc_nondet_ptr("its successor"); MLSGrid::iterator r = g->erase(MLSGrid::iterator(gone)); vc_cover("erase");
    vc_assert(nerase == 1 && nins == 0, "erasing removes one patch"); vc_assert(g->cellcount == N0 - 1, "erasing a patch uncounts it"); vc_assert(r.m_item == gi, "erasing returns the patch after the erased one"); vc_assert(was_in() == in_ext(), "erasing keeps the extents");
}
VC_HARNESS h_count() { pre(); vc_cover("getCellCount"); vc_assert(g->getCellCount() == N0, "the number of patches is reported"); vc_assert(g->empty() == (N0 == 0), "a grid is empty exactly if it has no patch"); vc_assert(g->getIndex() == ix, "the index is reported"); }
// --- clearing
VC_SPEC void c_clear(void*) { ncell++; }
VC_SPEC void c_reset(Index* i) { vc_assert(i == ix, "the index is emptied"); nreset++; }
VC_HARNESS h_clear() { pre(); g->clear(); vc_cover("clear"); vc_assert(ncell == 1, "clearing removes all patches"); vc_assert(g->cellcount == 0, "a cleared grid has no patch"); vc_assert(nreset == (ix ? 1 : 0), "clearing empties the index"); vc_assert(!in_ext(), "a cleared grid has empty extents"); }
// --- lookup in a cell: the list of the cell, by rank
static bool in(Item* i) { return *(long*)((char*)i + 1008) != 0; }
static long rk(Item* i) { return *(long*)((char*)i + 1016); }
static long len; static bool mg;
VC_SPEC void c_begin(Item** r, MLSGrid* m, size_t x, size_t y) { vc_assert(m == g && x == X && y == Y, "the cell at the position is looked at"); *r = head; }
// stepping to the next patch of the cell (the list of a cell is one of its ranks)
VC_SPEC void c_inc(Item** it)
{
    Item* i = *it; vc_assert(i != NULL && in(i), "iteration stays within the cell"); Item* n = i->next;
    vc_assume(rk(i) != rk(gi) || i == gi);
    if (n == NULL) vc_assume(rk(i) == len - 1); else vc_assume(vc_external(n) & in(n) & (rk(n) == rk(i) + 1) & (rk(n) < len));
    *it = n;
}
static void cell()
{
    len = vc_nondet_long("patches"); vc_assume(len >= 0 && len < 1000000000); head = (Item*)vc_nondet_ptr("first patch"); gi = (Item*)B("any patch of the cell"); vc_assume(vc_external(gi) && in(gi)); vc_assume((rk(gi) >= 0) & (rk(gi) < len));
    if (head == NULL) vc_assume(len == 0); else vc_assume(vc_external(head) && in(head) && rk(head) == 0);
}
VC_SPEC bool inv_it(Item** it) { return *it == NULL || (in(*it) && vc_external(*it) && rk(*it) >= 0 && rk(*it) < len); }
VC_SPEC bool inv_seen(Item** it) { return !mg || (*it != NULL && rk(*it) <= rk(gi)); }
static double sigma; static bool ign;
VC_SPEC float c_distance(SP* a, SP* b) { vc_assert(b == val, "the distance to the height given is judged"); return *(float*)((char*)a + 1024); }   // (proved as M03)
static bool match(Item* i) { return (*(float*)((char*)i + 1024) < sqrt(sq(val->stdev) + sq(i->stdev)) * sigma) & (!ign | !i->isNegative()); }
VC_HARNESS h_get()
{
    pre(); cell(); sigma = vc_nondet_double("sigma"); ign = vc_nondet_bool("ignore negative"); mg = match(gi);
    SP* r = g->get(GridBase::Position(X, Y), *val, sigma, ign); vc_cover("get");
    vc_assert(!mg || r != NULL, "a patch within the tolerance is found if there is one");
    if (r != NULL) { vc_assert(in((Item*)r), "the patch found is one of the cell"); vc_assert(match((Item*)r), "the patch found is within the tolerance"); vc_assert(!mg || rk((Item*)r) <= rk(gi), "the patch found is the first within the tolerance"); }
    vc_assert(g->cellcount == N0 && nins == 0 && nerase == 0, "looking up a height changes nothing");
}
// --- taking and looking up heights by position
static bool on; static double mx, my, zf; static long nupd; static SP* found;
VC_SPEC bool c_togrid(GridBase*, double, double, size_t* x, size_t* y, double* a, double* b) { *x = X; *y = Y; *a = mx; *b = my; return on; }
static bool slope; static double sd, mean;
VC_SPEC void c_update(MLSGrid* m, size_t x, size_t y, SP* q)
{
    vc_assert(m == g && x == X && y == Y, "the cell at the position is updated"); nupd++;
    if (!slope) vc_assert(q == val, "the cell is updated with the patch given"); else vc_assert((q->plane.x * sd * sd == mx) & (q->plane.y * sd * sd == my) & (q->mean == mean) & (q->stdev == sd) & q->isHorizontal(), "the cell is updated with the point within the cell");
}
VC_SPEC void c_point(SP* q, Eigen::Vector3f* p, float s) { q->plane.x = p->x() / (s * s); q->plane.y = p->y() / (s * s); q->mean = p->z(); q->stdev = s; q->type = SP::HORIZONTAL; }
VC_HARNESS h_update()
{
    pre(); on = vc_nondet_bool("on the grid"); mx = vc_nondet_double("mx"); my = vc_nondet_double("my"); nupd = 0; slope = g->config.updateModel == MLSConfiguration::SLOPE; mean = val->mean; sd = val->stdev; vc_assume(sd > 0);
    Eigen::Vector2d p; p.x() = vc_nondet_double("px"); p.y() = vc_nondet_double("py"); bool r = g->update(p, *val); vc_cover("update");
    vc_assert(r == on, "a patch is taken exactly if its position is on the grid"); vc_assert(nupd == (on ? 1 : 0), "a patch taken updates its cell, once");
}
VC_SPEC SP* c_get(MLSGrid* m, GridBase::Position* p, SP* q, double s, bool i) { vc_assert(m == g && p->x == X && p->y == Y, "the cell at the position is looked at"); vc_assert((q->mean == mean) & (q->stdev == sd), "the height given is looked up"); vc_assert(s == 3.0 && i, "negative patches are ignored"); return found; }
VC_SPEC float c_height(SP* p, Eigen::Vector2f* q) { vc_assert(p == found && q->x() == mx && q->y() == my, "the height is that at the position within the cell"); return zf; }
VC_HARNESS h_getPos()
{
    pre(); on = vc_nondet_bool("on the grid"); mx = vc_nondet_double("mx"); my = vc_nondet_double("my"); found = vc_nondet_bool("found") ? val : NULL; zf = vc_nondet_double("height there"); slope = g->config.updateModel == MLSConfiguration::SLOPE;
    double z = vc_nondet_double("z"), s = vc_nondet_double("s"), z0 = z, s0 = s; vc_assume(s > 0); mean = z; sd = s; Eigen::Vector2d p; p.x() = vc_nondet_double("px"); p.y() = vc_nondet_double("py"); SP* r = g->get(p, z, s); vc_cover("get at a position");
    vc_assert(r == (on ? found : NULL), "a height is found exactly if a patch of the cell at the position matches it");
    if (r) { vc_assert(z == (slope ? zf : (double)val->mean), "the height found is that of the patch"); vc_assert(s == val->stdev, "the deviation found is that of the patch"); } else { vc_assert(z == z0 && s == s0, "a height that is not found stays as it was"); }
}
