#include "env.h"
#define MG (&G.env->cartesianMapGraph)
static FrameNode* old_frame(void* m) { return vc_map_has(G.s_maps, m) ? (FrameNode*)vc_old_map_get(G.s_maps, m) : NULL; }
static FrameNode* cur_frame(void* m) { return vc_map_has(MG, m) ? (FrameNode*)vc_map_get(MG, m) : NULL; }
// representation invariant: an entry relates an existing map of this environment to an existing frame
static bool wf() { return vc_forall_ptr([](void* m, void*) { return !vc_map_has(MG, m) || (m != NULL && vc_map_get(MG, m) != NULL && ((EnvironmentItem*)m)->env == G.env); }, NULL); }
static bool frame() { return vc_forall_ptr([](void* x, void*) { return x == G.map || (vc_map_has(MG, x) == vc_map_has(G.s_maps, x) && (!vc_map_has(G.s_maps, x) || vc_map_get(MG, x) == vc_old_map_get(G.s_maps, x))); }, NULL); }
static void pre()
{
    mkenv(); G.map = item<CartesianMap>("map"); G.fp = item<FrameNode>("frame"); vc_assume((void*)G.map != (void*)G.fp);
    FrameNode* rt = item<FrameNode>("root"); vc_assume((void*)rt != (void*)G.map); rt->env = G.env; vc_assume(G.env->getRootNode() == rt);   // the environment always has its root frame
    vc_assume(wf()); snap_all(); FrameNode* o = old_frame(G.map); vc_assume(o == NULL || (item_ok(o) && (void*)o != (void*)G.map && (void*)o != (void*)G.env));
}
static bool others() { return same_tree() && same_layers() && same_in() && same_out(); }
VC_HARNESS h_setFrameNode()
{
    pre(); vc_assume(G.map->env == NULL || G.map->env == G.env); vc_assume(G.fp->env == NULL || G.fp->env == G.env);
    long att = (G.map->env == NULL) + (G.fp->env == NULL);
    G.env->setFrameNode(G.map, G.fp);
    vc_cover("setFrameNode");
    vc_assert(vc_map_has(MG, G.map) && vc_map_get(MG, G.map) == G.fp, "the map is on the frame it was put on");
    vc_assert(frame(), "putting a map on a frame moves no other map");
    vc_assert(G.map->env == G.env && G.fp->env == G.env, "map and frame are attached");
    vc_assert(G.nattach == att, "exactly the unattached ones are attached");
    vc_assert(wf(), "putting a map on a frame preserves the invariant");
    vc_assert(others(), "putting a map on a frame leaves the other structures alone");
}
VC_HARNESS h_detachFrameNode()
{
    pre(); FrameNode* old = old_frame(G.map);
    G.env->detachFrameNode(G.map, G.fp);
    vc_cover("detachFrameNode");
    vc_assert(old == G.fp ? !vc_map_has(MG, G.map) : cur_frame(G.map) == old, "the map leaves exactly the frame it is detached from");
    vc_assert(frame(), "detaching a map moves no other map");
    vc_assert(wf(), "detaching a map preserves the invariant");
    vc_assert(others(), "detaching a map leaves the other structures alone");
}
VC_HARNESS h_getFrameNode()
{
    pre(); FrameNode* r = G.env->getFrameNode(G.map);
    vc_cover("getFrameNode");
    vc_assert(r == old_frame(G.map), "the frame of a map is the one it was put on");
    vc_assert(same_maps() && others(), "getFrameNode changes nothing");
}
VC_SPEC bool inv_maps(void* it, void* l)
{
    struct X { void* it; void* l; } c = { it, l };
    return vc_forall_ptr([](void* v, void* c) { X* x = (X*)c; return vc_list_count(x->l, v) == (vc_map_has(MG, v) && vc_visited(x->it, v) && vc_map_get(MG, v) == G.fp ? 1 : 0); }, &c);
}
VC_SPEC bool inv_same() { return same_maps() && others(); }
VC_HARNESS h_getMaps()
{
    pre(); std::list<CartesianMap*> r = G.env->getMaps(G.fp);
    vc_cover("getMaps");
    vc_assert(vc_forall_ptr([](void* v, void* l) { return vc_list_count(l, v) == (vc_map_has(MG, v) && vc_map_get(MG, v) == G.fp ? 1 : 0); }, &r), "the maps of a frame are exactly those put on it, each once");
    vc_assert(inv_same(), "getMaps changes nothing");
}
VC_HARNESS h_map_api()
{
    pre(); G.map->env = G.env; const CartesianMap* c = G.map; FrameNode* old = old_frame(G.map);
    vc_cover("CartesianMap");
    vc_assert(G.map->getFrameNode() == old && c->getFrameNode() == old, "a map reports the frame it was put on");
}
VC_HARNESS h_map_set()
{
    pre(); vc_assume(G.map->env == NULL || G.map->env == G.env); vc_assume(G.fp->env == NULL || G.fp->env == G.env);
    bool att = G.map->env != NULL, threw = false;
    try { G.map->setFrameNode(G.fp); } catch (...) { threw = true; }
    vc_cover("CartesianMap::setFrameNode");
    vc_assert(threw == !att, "an unattached map cannot be put on a frame");
    vc_assert(att ? cur_frame(G.map) == G.fp : same_maps(), "an attached map is put on the frame, otherwise nothing changes");
    vc_assert(frame(), "no other map is moved");
}
VC_HARNESS h_frame_maps()
{
    pre(); G.fp->env = G.env; std::list<CartesianMap*> r = G.fp->getMaps();
    vc_cover("FrameNode::getMaps");
    vc_assert(vc_forall_ptr([](void* v, void* l) { return vc_list_count(l, v) == (vc_map_has(MG, v) && vc_map_get(MG, v) == G.fp ? 1 : 0); }, &r), "a frame lists exactly its maps");
}
