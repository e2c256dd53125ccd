#include "env.h"
#define TREE (&G.env->layerTree)
#define CNT(c, p) vc_mm_count(TREE, c, p)
#define OLD(c, p) vc_mm_count(G.s_layers, c, p)
// representation invariant: every relation is stored once, nobody is its own parent, related layers exist and belong to this environment
static bool wf()
{
    return vc_forall_ptr2([](void* c, void* p, void*) { return CNT(c, p) <= 1 && (CNT(c, p) == 0 || (c != p && c != NULL && p != NULL && ((Layer*)c)->env == G.env)); }, NULL);
}
static bool frame() { return vc_forall_ptr2([](void* c, void* p, void*) { return (c == G.lc && p == G.lp) || CNT(c, p) == OLD(c, p); }, NULL); }
static void pre()
{
    mkenv(); G.lp = item<Layer>("parent"); G.lc = item<Layer>("child");
    vc_assume(wf()); snap_all();
}
VC_SPEC bool inv_notseen(void* it) { return vc_mm_prefix(TREE, it, G.lc, G.lp) == 0; }
VC_SPEC bool inv_same() { return same_layers() && same_tree() && same_maps() && same_in() && same_out() && G.nev == 0 && G.nattach == 0; }
VC_HARNESS h_addChild()
{
    pre(); Layer *p = G.lp, *c = G.lc; vc_assume(p != c); vc_assume(c->env == NULL || c->env == G.env);
    bool att = c->env != NULL, had = OLD(c, p) > 0;
    G.env->addChild(p, c);
    vc_cover("addChild");
    vc_assert(CNT(c, p) == 1, "after adding, the relation exists exactly once");
    vc_assert(frame(), "adding a layer child leaves every other relation alone");
    vc_assert(c->env == G.env, "a linked child is attached to the environment");
    vc_assert(wf(), "adding a layer child preserves the hierarchy invariant");
    vc_assert(G.nattach == (att ? 0 : 1), "the child is attached exactly if it was not");
    vc_assert(same_tree() && same_in() && same_out() && same_maps(), "adding a layer child leaves the other structures alone");
}
VC_HARNESS h_removeChild()
{
    pre(); Layer *p = G.lp, *c = G.lc;
    G.env->removeChild(p, c);
    vc_cover("removeChild");
    vc_assert(CNT(c, p) == 0, "after removing, the relation is gone");
    vc_assert(frame(), "removing a layer child leaves every other relation alone");
    vc_assert(wf(), "removing a layer child preserves the hierarchy invariant");
    vc_assert(same_tree() && same_in() && same_out() && same_maps(), "removing a layer child leaves the other structures alone");
}
VC_SPEC bool inv_parents(void* it, void* l)
{
    struct X { void* it; void* l; } c = { it, l };
    return vc_forall_ptr([](void* v, void* c) { X* x = (X*)c; return vc_list_count(x->l, v) == vc_mm_prefix(TREE, x->it, G.lc, v); }, &c);
}
VC_SPEC bool inv_children(void* it, void* l)
{
    struct X { void* it; void* l; } c = { it, l };
    return vc_forall_ptr([](void* v, void* c) { X* x = (X*)c; return vc_list_count(x->l, v) == vc_mm_prefix(TREE, x->it, v, G.lp); }, &c);
}
VC_HARNESS h_getParents()
{
    pre(); std::list<Layer*> r = G.env->getParents(G.lc);
    vc_cover("getParents");
    vc_assert(vc_forall_ptr([](void* v, void* l) { return vc_list_count(l, v) == OLD(G.lc, v); }, &r), "the parents of a layer are exactly those added, each once");
    vc_assert(inv_same(), "getParents changes nothing");
}
VC_HARNESS h_layer_getParents()
{
    pre(); G.lc->env = G.env; std::list<Layer*> r = G.lc->getParents();
    vc_cover("Layer::getParents");
    vc_assert(vc_forall_ptr([](void* v, void* l) { return vc_list_count(l, v) == OLD(G.lc, v); }, &r), "a layer reports exactly its parents");
}
VC_HARNESS h_getChildren()
{
    pre(); std::list<Layer*> r = G.env->getChildren(G.lp);
    vc_cover("getChildren");
    vc_assert(vc_forall_ptr([](void* v, void* l) { return vc_list_count(l, v) == OLD(v, G.lp); }, &r), "the children of a layer are exactly the layers whose parent it is, each once");
    vc_assert(inv_same(), "getChildren changes nothing");
}
VC_HARNESS h_getChildrenConst()
{
    pre(); std::list<const Layer*> r = static_cast<const Environment*>(G.env)->getChildren(static_cast<const Layer*>(G.lp));
    vc_cover("getChildren const");
    vc_assert(vc_forall_ptr([](void* v, void* l) { return vc_list_count(l, v) == OLD(v, G.lp); }, &r), "the const children of a layer are exactly the layers whose parent it is, each once");
}
VC_HARNESS h_layer_add()
{
    pre(); Layer *p = G.lp, *c = G.lc; p->env = G.env; vc_assume(p != c); vc_assume(c->env == NULL || c->env == G.env);
    p->addChild(c);
    vc_cover("Layer::addChild");
    vc_assert(CNT(c, p) == 1, "adding through the layer creates the relation"); vc_assert(frame(), "adding through the layer leaves every other relation alone");
}
