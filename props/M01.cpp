// C09-like contracts of the cells of a list grid
#include <vc.h>
#include <cstring>
#include <envire/tools/ListGrid.hpp>
using namespace envire;
struct P { long a; double b; P() {} P& operator=(const P& o) { a = o.a; b = o.b; return *this; } };
typedef ListGrid<P> Grid; typedef Grid::Item Item;
static Grid* g; static Item** A; static long W, H; static Item *gi, *fresh; static Item** gs; static long nfree, nalloc; static Item* freed;
// ghost: the cell an item is listed in (index of its head), and its position from the end
static long& cell_of(Item* i) { return *(long*)((char*)i + 1008); }
static long& rank_of(Item* i) { return *(long*)((char*)i + 1016); }
static bool obj_ok(Item*);
static Item* obj(const char* n) { Item* p = (Item*)vc_nondet_ptr(n); vc_assume(obj_ok(p)); return p; }
// an item is linked: the slot its back link points to refers to it, and the back link of its successor refers to its next field
static bool slot_ok_(Item** s) { return (vc_same_object(s, A) && vc_offset(s) >= 0 && vc_offset(s) < 8 * W * H && vc_offset(s) % 8 == 0) || (vc_external(s) && !vc_same_object(s, A) && !vc_same_object(s, g) && vc_offset(s) == offsetof(Item, next)); }
static bool linked_(Item* i) { return *i->pthis == i && (i->next == NULL || (i->next->pthis == &i->next && i->next != i && vc_external(i->next) && vc_offset(i->next) == 0 && !vc_same_object(i->next, A) && !vc_same_object(i->next, g))); }
// (evaluated as one formula)
static bool linked(Item* i) { return vc_forall_int([](long, void* i) { return linked_((Item*)i); }, i); }
static bool slot_ok(Item** s) { return vc_forall_int([](long, void* s) { return slot_ok_((Item**)s); }, s); }
static bool obj_ok(Item* p) { return vc_forall_int([](long, void* p) { return p != NULL && vc_external(p) && !vc_same_object(p, g) && !vc_same_object(p, A) && vc_offset(p) == 0; }, p); }
static void pre()
{
    g = (Grid*)vc_fixed_object(1); A = (Item**)vc_fixed_object(2); W = vc_nondet_long("width"); H = vc_nondet_long("height"); vc_assume(W >= 1 && W <= 1000000 && H >= 1 && H <= 1000000);
    auto* a = &g->cells; ((boost::multi_array_ref<Item*, 2>*)a)->base_ = A;
    a->extent_list_.elems[0] = W; a->extent_list_.elems[1] = H; a->stride_list_.elems[0] = H; a->stride_list_.elems[1] = 1; a->index_base_list_.elems[0] = 0; a->index_base_list_.elems[1] = 0; a->origin_offset_ = 0; a->directional_offset_ = 0; a->num_elements_ = W * H;
    nfree = nalloc = 0; freed = NULL;
    gi = obj("any item"); vc_assume(linked(gi) && slot_ok(gi->pthis));
    gs = (Item**)vc_nondet_ptr("any slot"); vc_assume(slot_ok(gs));
}
static size_t X, Y; static Item** S;   // the cell operated on
static void cell() { X = vc_nondet_size("x"); Y = vc_nondet_size("y"); vc_assume(X < (size_t)W && Y < (size_t)H); S = &A[X * H + Y]; }
// --- contracts of the pool: items are fresh memory, freed items are not used any more
VC_SPEC Item* c_malloc(void*)
{
    fresh = obj("fresh item"); Item* h = *S; if (h) vc_assume(!vc_same_object(fresh, h) & !vc_same_object(fresh, h->pthis));
    vc_assume((fresh != gi) & !vc_same_object(fresh, gs) & !vc_same_object(fresh, gi->next) & !vc_same_object(fresh, gi->pthis) & (cell_of(fresh) == -1)); nalloc++; return fresh;
}
VC_SPEC void c_free(void*, Item* i) { nfree++; freed = i; }
VC_HARNESS h_insertHead()
{
    pre(); cell(); P v; v.a = vc_nondet_long("a"); v.b = vc_nondet_double("b"); Item *h = *S, *old = *gs; long ga = gi->a; double gb = gi->b;
    if (h) { h = obj("head"); vc_assume(h == *S && linked(h) && h->pthis == S); }
    g->insertHead(X, Y, v);
    vc_cover("insertHead");
    Item* n = *S;
    vc_assert(n == fresh && nalloc == 1 && nfree == 0, "inserting adds one element to the cell, at its head");
    vc_assert(n->a == v.a && n->b == v.b, "the element has the value inserted");
    vc_assert(n->next == h, "the former elements of the cell follow the new one"); vc_assert(linked(n), "the new element is linked");
    vc_assert(linked(gi), "all other elements stay linked"); vc_assert(gs == S || *gs == old, "all other links are kept"); vc_assert(gi->a == ga && gi->b == gb, "all other elements keep their value");
}
VC_HARNESS h_erase()
{
    pre(); Item* p = obj("item to erase"); vc_assume(linked(p) && slot_ok(p->pthis)); S = p->pthis; Item *q = p->next, *old = *gs; long ga = gi->a; double gb = gi->b; vc_assume(q == NULL || linked(q));
    Grid::iterator r = g->erase(Grid::iterator(p));
    vc_cover("erase");
    vc_assert(r.m_item == q, "erasing returns the element after the erased one");
    vc_assert(*S == q, "the link to the erased element leads to its successor"); vc_assert(q == NULL || q->pthis == S, "the successor of the erased element is linked in its place");
    vc_assert(nfree == 1 && freed == p, "exactly the erased element is released"); vc_assert(gs == S || *gs == old, "all other links are kept");
    vc_assert(gi == p || linked(gi), "all other elements stay linked"); vc_assert(gi->a == ga && gi->b == gb, "all other elements keep their value");
}
static long c0() { return (long)(X * H + Y); }
static bool in(Item* i) { return cell_of(i) == c0(); }
VC_SPEC bool inv_it(Item** it) { return *it == NULL || (in(*it) && vc_external(*it)); }
VC_SPEC bool inv_last(Item** last, Item** it) { return (*last == *it && *it == *S) || (*S != NULL && *last != NULL && in(*last) && (*last)->next == *it); }
static P v; static Item *h0, *old0; static long ga0; static double gb0;
#define TRUE_(e) vc_forall_int([](long, void*) { return e; }, NULL)
static void tail()
{
    pre(); cell(); v.a = vc_nondet_long("a"); v.b = vc_nondet_double("b"); h0 = *S; old0 = *gs; ga0 = gi->a; gb0 = gi->b;
    vc_assume(vc_forall_ptr([](void* x, void*) { Item* i = (Item*)x; return !in(i) || (i != NULL && vc_external(i) && vc_offset(i) == 0 && !vc_same_object(i, A) && !vc_same_object(i, g) && (i->next == NULL || (in(i->next) && vc_external(i->next) && i->next->pthis == &i->next))); }, NULL));
    vc_assume(TRUE_(h0 == NULL || (in(h0) && vc_external(h0) && h0->pthis == S)));
    g->insertTail(X, Y, v);
}
VC_HARNESS h_insertTail()
{
    tail(); vc_cover("insertTail"); Item* n = fresh;
    vc_assert(nalloc == 1 && nfree == 0, "inserting adds one element"); vc_assert(n->a == v.a, "the element has the value inserted"); vc_assert(n->b == v.b, "the element has the value inserted");
    vc_assert(n->next == NULL, "the new element is the last one"); vc_assert(linked(n), "the new element is linked");
    vc_assert(TRUE_(h0 != NULL || fresh->pthis == S), "the first element of a cell is its head");
    vc_assert(TRUE_(h0 == NULL || (*S == h0 && vc_offset(fresh->pthis) == (long)offsetof(Item, next) && in((Item*)((char*)fresh->pthis - offsetof(Item, next))))), "the new element follows an element of the same cell");
}
VC_HARNESS h_insertTail_frame()
{
    tail(); vc_cover("insertTail");
    vc_assert(TRUE_(old0 == NULL || *gs == old0), "only the link at the end of the cell changes"); vc_assert(TRUE_(*gs == old0 || gs == fresh->pthis), "only the link to the new element changes");
    vc_assert(gi->a == ga0, "all other elements keep their value"); vc_assert(gi->b == gb0, "all other elements keep their value"); vc_assert(TRUE_(in(gi) || linked_(gi)), "all other elements stay linked");
}
VC_HARNESS h_begin()
{
    pre(); cell(); Item* h = *S; vc_assert(g->beginCell(X, Y).m_item == h && ((const Grid*)g)->beginCell(X, Y).m_item == h, "iteration starts with the head of the cell"); vc_cover("beginCell");
    vc_assert(g->endCell().m_item == NULL && ((const Grid*)g)->endCell().m_item == NULL, "iteration ends behind the last element");
    Grid::iterator i(gi); ++i; vc_assert(i.m_item == gi->next, "iteration follows the links");
}
