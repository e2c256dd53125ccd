#include "env.h"
#define TREE (&G.env->frameNodeTree)
#define MG (&G.env->cartesianMapGraph)
#define LT (&G.env->layerTree)
#define ITEMS (&G.env->items)
static FrameNode* parent_of(void* c) { return vc_map_has(TREE, c) ? (FrameNode*)vc_map_get(TREE, c) : NULL; }
static bool wf_tree() { return vc_forall_ptr([](void* x, void*) { return !vc_map_has(TREE, x) || (vc_external(vc_map_get(TREE, x)) && vc_map_get(TREE, x) != x && x != NULL && ((FrameNode*)x)->env == G.env); }, NULL); }
static bool wf_maps() { return vc_forall_ptr([](void* m, void*) { return !vc_map_has(MG, m) || (m != NULL && vc_external(vc_map_get(MG, m)) && ((EnvironmentItem*)m)->env == G.env); }, NULL); }
static bool wf_layers() { return vc_forall_ptr2([](void* k, void* v, void*) { return vc_mm_count(LT, k, v) <= 1 && (vc_mm_count(LT, k, v) == 0 || (k != NULL && v != NULL)); }, NULL); }
VC_HARNESS h_tree_add()
{
    mkenv(); FrameNode *p = G.fp = item<FrameNode>("parent"), *c = G.fc = item<FrameNode>("child"); vc_assume(wf_tree()); vc_assume(p != c && (c->env == NULL || c->env == G.env)); snap_all();
    FrameNode* old = parent_of(c); vc_assume(old == NULL || item_ok(old)); bool att = c->env != NULL, noop = old == p;
    G.env->addChild(p, c);
    vc_cover("addChild");
    vc_assert(G.nev == (noop ? 0 : 1 + (att ? 0 : 1) + (old ? 1 : 0)), "linking a frame announces exactly what changes");
    vc_assert(noop || evc(event::FRAMENODE_TREE, event::ADD, p, c) == 1, "the new parent is announced once");
    vc_assert(noop || old == NULL || evc(event::FRAMENODE_TREE, event::REMOVE, old, c) == 1, "leaving the previous parent is announced once");
    vc_assert(att || evc(event::ITEM, event::ADD, c, NULL) == 1, "an implicitly attached frame is announced once");
}
VC_HARNESS h_tree_remove()
{
    mkenv(); FrameNode *p = G.fp = item<FrameNode>("parent"), *c = G.fc = item<FrameNode>("child"); vc_assume(wf_tree()); snap_all(); bool was = parent_of(c) == p;
    G.env->removeChild(p, c);
    vc_cover("removeChild");
    vc_assert(G.nev == (was ? 1 : 0) && evc(event::FRAMENODE_TREE, event::REMOVE, p, c) == (was ? 1 : 0), "unlinking a frame is announced exactly if it was linked");
}
VC_HARNESS h_layer_add()
{
    mkenv(); Layer *p = G.lp = item<Layer>("parent"), *c = G.lc = item<Layer>("child"); vc_assume(wf_layers()); vc_assume(p != c && (c->env == NULL || c->env == G.env)); snap_all();
    bool att = c->env != NULL, noop = vc_mm_count(LT, c, p) > 0;
    G.env->addChild(p, c);
    vc_cover("addChild");
    vc_assert(G.nev == (noop ? 0 : 1 + (att ? 0 : 1)), "linking a layer announces exactly what changes");
    vc_assert(evc(event::LAYER_TREE, event::ADD, p, c) == (noop ? 0 : 1), "a new layer relation is announced once");
    vc_assert(noop || att || evc(event::ITEM, event::ADD, c, NULL) == 1, "an implicitly attached layer is announced once");
}
VC_HARNESS h_layer_remove()
{
    mkenv(); Layer *p = G.lp = item<Layer>("parent"), *c = G.lc = item<Layer>("child"); vc_assume(wf_layers()); snap_all(); bool was = vc_mm_count(LT, c, p) > 0;
    G.env->removeChild(p, c);
    vc_cover("removeChild");
    vc_assert(G.nev == (was ? 1 : 0) && evc(event::LAYER_TREE, event::REMOVE, p, c) == (was ? 1 : 0), "unlinking a layer is announced exactly if it was linked");
}
VC_SPEC bool inv_notseen(void* it) { return vc_mm_prefix(LT, it, G.lc, G.lp) == 0; }
VC_SPEC bool inv_same() { return same_layers() && same_tree() && same_maps() && same_in() && same_out() && G.nev == 0 && G.nattach == 0; }
static void pre_map()
{
    mkenv(); G.map = item<CartesianMap>("map"); G.fp = item<FrameNode>("frame"); vc_assume((void*)G.map != (void*)G.fp);
    FrameNode* rt = item<FrameNode>("root"); vc_assume((void*)rt != (void*)G.map); rt->env = G.env; vc_assume(G.env->getRootNode() == rt);
    vc_assume(wf_maps()); snap_all(); FrameNode* o = vc_map_has(MG, G.map) ? (FrameNode*)vc_map_get(MG, G.map) : NULL; vc_assume(o == NULL || (item_ok(o) && (void*)o != (void*)G.map && (void*)o != (void*)G.env));
}
VC_HARNESS h_map_set()
{
    pre_map(); CartesianMap* m = G.map; FrameNode* f = G.fp; vc_assume(m->env == NULL || m->env == G.env); vc_assume(f->env == NULL || f->env == G.env);
    FrameNode* old = vc_map_has(MG, m) ? (FrameNode*)vc_map_get(MG, m) : NULL; long ma = m->env == NULL, fa = f->env == NULL; bool noop = old == f;
    G.env->setFrameNode(m, f);
    vc_cover("setFrameNode");
    vc_assert(evc(event::FRAMENODE, event::ADD, m, f) == (noop ? 0 : 1), "the new frame of a map is announced once");
    vc_assert(old == NULL || evc(event::FRAMENODE, event::REMOVE, m, old) == (noop ? 0 : 1), "leaving the previous frame is announced once");
    vc_assert(evc(event::ITEM, event::ADD, m, NULL) == ma && evc(event::ITEM, event::ADD, f, NULL) == fa, "implicitly attached items are announced once");
        // an unattached map is first put on the root frame when it is attached, and moved from there
    FrameNode* rt = G.env->getRootNode(); bool via = ma && f != rt;
    vc_assert(!via || (evc(event::FRAMENODE, event::ADD, m, rt) == 1 && evc(event::FRAMENODE, event::REMOVE, m, rt) == 1), "a map attached implicitly enters and leaves the root frame");
    vc_assert(G.nev == ma + fa + (via ? 2 : 0) + (noop ? 0 : 1 + (old ? 1 : 0)), "placing a map announces exactly what changes");
}
VC_HARNESS h_map_detach()
{
    pre_map(); FrameNode* old = vc_map_has(MG, G.map) ? (FrameNode*)vc_map_get(MG, G.map) : NULL; bool was = old == G.fp;
    G.env->detachFrameNode(G.map, G.fp);
    vc_cover("detachFrameNode");
    vc_assert(G.nev == (was ? 1 : 0) && evc(event::FRAMENODE, event::REMOVE, G.map, G.fp) == (was ? 1 : 0), "taking a map off a frame is announced exactly if it was there");
}
VC_HARNESS h_modified()
{
    mkenv(); G.item = item<EnvironmentItem>("item"); snap_all(); bool att = G.item->env != NULL; vc_assume(!att || G.item->env == G.env);
    G.item->itemModified();
    vc_cover("itemModified");
    vc_assert(G.nev == (att ? 1 : 0) && evc(event::ITEM, event::UPDATE, G.item, NULL) == (att ? 1 : 0), "a modification of an attached item is announced once");
}
// ---- what a newly registered handler is told
static bool has(long id) { return vc_strmap_has(ITEMS, id); }
static EnvironmentItem* get(long id) { return (EnvironmentItem*)vc_strmap_get(ITEMS, id); }
static bool wf_items() { return vc_forall_int([](long id, void*) { return !has(id) || (vc_external(get(id)) && (void*)get(id) != (void*)G.env && get(id)->env == G.env && vc_str(&get(id)->unique_id) == id); }, NULL); }
VC_SPEC void c_ref(EnvironmentItem*) {}     // reference counts are balanced around an Event (property E05)
static char pubs[64];
VC_SPEC void c_publish(Environment* env, EventHandler* h, FrameNode* p) { vc_assert(h == G.handler && env == G.env, "the tree is published to the handler"); vc_bag_add(pubs, 0, 0, p, NULL); }
static long pub(void* p) { return vc_bag_count(pubs, 0, 0, p, NULL); }
VC_SPEC void c_rcv_tree(EventHandler* h, const Event& e) { vc_assert(h == G.handler, "events go to the given handler"); vc_assert(e.type == event::FRAMENODE_TREE && e.operation == event::ADD && e.a.get() == G.fp, "publishing a frame announces its children"); vc_bag_add(G.ev, e.type, e.operation, e.a.get(), e.b.get()); }
VC_SPEC bool inv_pub(void* it, void* l)
{
    struct X { void* it; void* l; } c = { it, l };
    return vc_forall_ptr([](void* v, void* c) { X* x = (X*)c; return evc(event::FRAMENODE_TREE, event::ADD, G.fp, v) == vc_list_prefix(x->l, x->it, v) && pub(v) == vc_list_prefix(x->l, x->it, v); }, &c);
}
VC_SPEC bool inv_children(void* it, void* l)
{
    struct X { void* it; void* l; } c = { it, l };
    return vc_forall_ptr([](void* v, void* c) { X* x = (X*)c; return vc_list_count(x->l, v) == (vc_map_has(TREE, v) && vc_visited(x->it, v) && vc_map_get(TREE, v) == G.fp ? 1 : 0); }, &c);
}
VC_SPEC bool inv_rel() { return same_tree() && same_maps() && same_layers(); }
VC_HARNESS h_publish()
{   // one level of publishChilds: every child announced once and its own children published once; nothing else
    mkenv(); vc_assume(wf_tree()); G.handler = (EventHandler*)obj("handler"); G.fp = item<FrameNode>("parent"); snap_all(); vc_bag_clear(pubs);
    G.env->publishChilds(G.handler, G.fp);
    vc_cover("publishChilds");
    vc_assert(vc_forall_ptr([](void* v, void*) { return evc(event::FRAMENODE_TREE, event::ADD, G.fp, v) == (vc_map_has(TREE, v) && vc_map_get(TREE, v) == G.fp ? 1 : 0); }, NULL), "every child of a published frame is announced once");
    vc_assert(vc_forall_ptr([](void* v, void*) { return pub(v) == (vc_map_has(TREE, v) && vc_map_get(TREE, v) == G.fp ? 1 : 0); }, NULL), "exactly the children of a published frame are published in turn");
    vc_assert(inv_rel(), "publishing changes nothing");
}
static bool listed(void* x) { long u = vc_str(&((EnvironmentItem*)x)->unique_id); return has(u) && get(u) == x; }
static long uid(void* x) { return vc_str(&((EnvironmentItem*)x)->unique_id); }
static bool is_frame(void* x) { return dynamic_cast<FrameNode*>((EnvironmentItem*)x) != NULL; }
static bool is_top(void* x) { return is_frame(x) && !vc_map_has(TREE, x); }
static long want, track; static long at_reg; static long nreg;
VC_SPEC void c_rcv(EventHandler* h, const Event& e)
{
    vc_assert(h == G.handler, "events go to the given handler"); vc_assert(e.operation == want, "only additions are reported on registration, only removals on deregistration");
    vc_assert(e.type != event::FRAMENODE_TREE, "frame relations are reported through the tree traversal"); vc_assert((e.b.get() == NULL) == (e.type == event::ITEM || e.type == event::ROOT), "relation events carry both items");
    if (e.type == track) vc_bag_add(G.ev, e.type, e.operation, e.a.get(), e.b.get());
}
VC_SPEC void c_register(EventSource* s, EventHandler* h) { vc_assert(s == &G.env->eventHandlers && h == G.handler, "the handler is registered"); nreg++; }
VC_SPEC bool i_items(void* it) { return vc_forall_ptr([](void* x, void* it) { return evc(event::ITEM, want, x, NULL) == (listed(x) && vc_visited_rank(it, uid(x)) ? 1 : 0); }, it); }
VC_SPEC bool i_items0() { return vc_forall_ptr([](void* x, void*) { return evc(event::ITEM, want, x, NULL) == 0; }, NULL); }
VC_SPEC bool i_items1() { return vc_forall_ptr([](void* x, void*) { return evc(event::ITEM, want, x, NULL) == (listed(x) ? 1 : 0); }, NULL); }
VC_SPEC bool i_top(void* it) { return vc_forall_ptr([](void* x, void* it) { return pub(x) == (listed(x) && is_top(x) && vc_visited_rank(it, uid(x)) ? 1 : 0); }, it); }
VC_SPEC bool i_top0() { return vc_forall_ptr([](void* x, void*) { return pub(x) == 0; }, NULL); }
VC_SPEC bool i_top1() { return vc_forall_ptr([](void* x, void*) { return pub(x) == (listed(x) && is_top(x) ? 1 : 0); }, NULL); }
VC_SPEC bool i_maps(void* it) { return vc_forall_ptr2([](void* m, void* f, void* it) { return evc(event::FRAMENODE, want, m, f) == (vc_map_has(MG, m) && vc_map_get(MG, m) == f && vc_visited(it, m) ? 1 : 0); }, it); }
VC_SPEC bool i_maps0() { return vc_forall_ptr2([](void* m, void* f, void*) { return evc(event::FRAMENODE, want, m, f) == 0; }, NULL); }
VC_SPEC bool i_maps1() { return vc_forall_ptr2([](void* m, void* f, void*) { return evc(event::FRAMENODE, want, m, f) == (vc_map_has(MG, m) && vc_map_get(MG, m) == f ? 1 : 0); }, NULL); }
VC_SPEC bool i_lay(void* it) { return vc_forall_ptr2([](void* p, void* c, void* it) { return evc(event::LAYER_TREE, want, p, c) == vc_mm_prefix(LT, it, c, p); }, it); }
VC_SPEC bool i_lay0() { return vc_forall_ptr2([](void* p, void* c, void*) { return evc(event::LAYER_TREE, want, p, c) == 0; }, NULL); }
VC_SPEC bool i_lay1() { return vc_forall_ptr2([](void* p, void* c, void*) { return evc(event::LAYER_TREE, want, p, c) == vc_mm_count(LT, c, p); }, NULL); }
VC_SPEC bool i_root(long) { return vc_forall_ptr([](void* x, void*) { return evc(event::ROOT, want, x, NULL) == 0; }, NULL); }
VC_SPEC bool i_root0() { return vc_forall_ptr([](void* x, void*) { return evc(event::ROOT, want, x, NULL) == 0; }, NULL); }
VC_SPEC bool i_root1() { return vc_forall_ptr([](void* x, void*) { return evc(event::ROOT, want, x, NULL) == (x == G.env->getRootNode() ? 1 : 0); }, NULL); }
// track: event type followed by this harness (the others are covered by their own)
VC_SPEC void c_publish_r(Environment* env, EventHandler* h, FrameNode* p) { vc_assert(h == G.handler && env == G.env, "the tree is published to the handler"); if (track == event::FRAMENODE_TREE) vc_bag_add(pubs, 0, 0, p, NULL); }
static void reg(long what)
{
    mkenv(); G.handler = (EventHandler*)obj("handler"); FrameNode* rt = (FrameNode*)obj("root"); vc_assume(G.env->getRootNode() == rt);
    vc_assume(wf_tree() && wf_maps() && wf_layers() && wf_items());
    snap_all(); vc_bag_clear(pubs); want = event::ADD; nreg = 0; track = what;
    G.env->addEventHandler(G.handler);
    vc_cover("addEventHandler");
}
VC_HARNESS h_reg_items() { reg(event::ITEM); vc_assert(i_items1(), "a new handler is told about every item, once"); vc_assert(nreg == 1, "a new handler is registered for further events"); }
VC_HARNESS h_reg_root() { reg(event::ROOT); vc_assert(i_root1(), "a new handler is told about the root"); }
VC_HARNESS h_reg_top() { reg(event::FRAMENODE_TREE); vc_assert(i_top1(), "a new handler is told about the tree below every top frame, once"); }
VC_HARNESS h_reg_maps() { reg(event::FRAMENODE); vc_assert(i_maps1(), "a new handler is told about the frame of every map, once"); }
VC_HARNESS h_reg_layers() { reg(event::LAYER_TREE); vc_assert(i_lay1(), "a new handler is told about every layer relation, once"); }
// ---- what a handler is told when it is removed
VC_SPEC void c_unpub(Environment* env, FrameNode* p, EventHandler* h) { vc_assert(h == G.handler && env == G.env, "the removal of the tree is published to the handler"); if (track == event::FRAMENODE_TREE) vc_bag_add(pubs, 0, 0, p, NULL); }
VC_SPEC void c_rcv_un(EventHandler* h, const Event& e)
{
    vc_assert(h == G.handler, "events go to the given handler"); vc_assert(e.operation == event::REMOVE && (e.type == event::FRAMENODE || (e.type == event::FRAMENODE_TREE && e.a.get() == G.fp)) && e.b.get() != NULL, "only the links below the frame are reported as removed");
    if (e.type == track) vc_bag_add(G.ev, e.type, e.operation, e.a.get(), e.b.get());
}
struct IL { void *it, *l, *it2, *l2; };
static bool child_of(void* v, void* p) { return vc_map_has(TREE, v) && vc_map_get(TREE, v) == p; }
static bool map_on(void* m, void* f) { return vc_map_has(MG, m) && vc_map_get(MG, m) == f; }
struct LF { void *l, *f; };
// contracts of getChildren and getMaps (properties E01, E03)
VC_SPEC void c_getChildren(std::list<FrameNode*>* r, Environment*, FrameNode* p) { vc_list_any(r); LF c = { r, p }; vc_assume(vc_forall_ptr([](void* v, void* c) { LF* x = (LF*)c; return vc_list_count(x->l, v) == (child_of(v, x->f) ? 1 : 0); }, &c)); }
VC_SPEC void c_getMaps(std::list<CartesianMap*>* r, Environment*, FrameNode* f) { vc_list_any(r); LF c = { r, f }; vc_assume(vc_forall_ptr([](void* v, void* c) { LF* x = (LF*)c; return vc_list_count(x->l, v) == (map_on(v, x->f) ? 1 : 0); }, &c)); }
static long ev_tree(void* v) { return evc(event::FRAMENODE_TREE, event::REMOVE, G.fp, v); }
VC_SPEC bool u_tree(void* it, void* l) { IL c = { it, l }; return vc_forall_ptr([](void* v, void* c) { IL* x = (IL*)c; return ev_tree(v) == vc_list_prefix(x->l, x->it, v); }, &c); }
VC_SPEC bool u_pub1(void* it, void* l) { IL c = { it, l }; return vc_forall_ptr([](void* v, void* c) { IL* x = (IL*)c; return pub(v) <= vc_list_prefix(x->l, x->it, v); }, &c); }
static void unpub(long what)
{
    mkenv(); vc_assume(wf_tree() && wf_maps()); G.handler = (EventHandler*)obj("handler"); G.fp = item<FrameNode>("parent"); snap_all(); vc_bag_clear(pubs); track = what;
    G.env->detachChilds(G.fp, G.handler);
    vc_cover("detachChilds");
}
VC_HARNESS h_unpub_tree()
{
    unpub(event::FRAMENODE_TREE);
    vc_assert(vc_forall_ptr([](void* v, void*) { return ev_tree(v) == (child_of(v, G.fp) ? 1 : 0); }, NULL), "the removal of every child is announced once");
    vc_assert(vc_forall_ptr([](void* v, void*) { return pub(v) <= (child_of(v, G.fp) ? 1 : 0); }, NULL), "only children of a frame are taken down in turn");
}
// deregistration
static bool topf(void* f) { return listed(f) && is_top(f); }
VC_SPEC void c_unregister(EventSource* s, EventHandler* h) { vc_assert(s == &G.env->eventHandlers && h == G.handler, "the handler is deregistered"); nreg++; }
static void dereg(long what)
{
    mkenv(); G.handler = (EventHandler*)obj("handler"); FrameNode* rt = (FrameNode*)obj("root"); vc_assume(G.env->getRootNode() == rt);
    vc_assume(wf_tree() && wf_maps() && wf_layers() && wf_items());
    snap_all(); vc_bag_clear(pubs); want = event::REMOVE; nreg = 0; track = what;
    G.env->removeEventHandler(G.handler);
    vc_cover("removeEventHandler");
}
VC_HARNESS h_dereg_items() { dereg(event::ITEM); vc_assert(i_items1(), "a removed handler is told about the removal of every item, once"); vc_assert(nreg == 1, "a removed handler is deregistered"); }
VC_HARNESS h_dereg_root() { dereg(event::ROOT); vc_assert(i_root1(), "a removed handler is told about the removal of the root"); }
VC_HARNESS h_dereg_top() { dereg(event::FRAMENODE_TREE); vc_assert(i_top1(), "a removed handler is told about the removal of the tree below every top frame, once"); }
VC_HARNESS h_dereg_layers() { dereg(event::LAYER_TREE); vc_assert(i_lay1(), "a removed handler is told about the removal of every layer relation, once"); }
