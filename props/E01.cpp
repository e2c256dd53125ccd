#include "env.h"
#define TREE (&G.env->frameNodeTree)
// representation invariant: linked frames are attached to this environment, nobody is its own parent, parents exist
static bool wf()
{
    return vc_forall_ptr([](void* x, void*) { return !vc_map_has(TREE, x) || (vc_map_get(TREE, x) != NULL && vc_map_get(TREE, x) != x && x != NULL && ((FrameNode*)x)->env == G.env); }, NULL);
}
static void pre()
{
    mkenv(); G.fp = item<FrameNode>("parent"); G.fc = item<FrameNode>("child");
    vc_assume(wf()); snap_all();
}
VC_HARNESS h_addChild()
{
    pre(); FrameNode *p = G.fp, *c = G.fc; vc_assume(p != c); vc_assume(c->env == NULL || c->env == G.env);
    FrameNode* old = vc_map_has(TREE, c) ? (FrameNode*)vc_map_get(TREE, c) : NULL;
    vc_assume(old == NULL || item_ok(old));
    bool att = c->env != NULL;
    G.env->addChild(p, c);
    vc_cover("addChild");
    vc_assert(vc_map_has(TREE, c) && vc_map_get(TREE, c) == p, "after adding, the parent of the child is the given node");
    vc_assert(vc_forall_ptr([](void* x, void*) { return x == G.fc || (vc_map_has(TREE, x) == vc_map_has(G.s_tree, x) && (!vc_map_has(G.s_tree, x) || vc_map_get(TREE, x) == vc_old_map_get(G.s_tree, x))); }, NULL), "adding a child leaves every other frame's parent alone");
    vc_assert(c->env == G.env, "a linked child is attached to the environment");
    vc_assert(wf(), "adding a child preserves the tree invariant");
    vc_assert(G.nattach == (att ? 0 : 1), "the child is attached exactly if it was not");
    vc_assert(same_layers() && same_in() && same_out() && same_maps(), "adding a frame child leaves the other relations alone");
}
VC_HARNESS h_removeChild()
{
    pre(); FrameNode *p = G.fp, *c = G.fc;
    bool was = vc_map_has(TREE, c) && vc_map_get(TREE, c) == p;
    G.env->removeChild(p, c);
    vc_cover("removeChild");
    vc_assert(was ? !vc_map_has(TREE, c) : same_tree(), "removing unlinks the child from its parent and ignores a node that is not the parent");
    vc_assert(vc_forall_ptr([](void* x, void*) { return x == G.fc || (vc_map_has(TREE, x) == vc_map_has(G.s_tree, x) && (!vc_map_has(G.s_tree, x) || vc_map_get(TREE, x) == vc_old_map_get(G.s_tree, x))); }, NULL), "removing a child leaves every other frame's parent alone");
    vc_assert(wf(), "removing a child preserves the tree invariant");
}
VC_HARNESS h_getParent()
{
    pre(); FrameNode* r = G.env->getParent(G.fc);
    vc_cover("getParent");
    vc_assert(r == (vc_map_has(TREE, G.fc) ? vc_map_get(TREE, G.fc) : NULL), "getParent returns the parent, or nothing for a root");
    vc_assert(same_tree(), "getParent changes nothing");
}
VC_SPEC bool inv_children(void* it, void* l)
{
    struct L { void* it; void* l; } c = { it, l };
    return vc_forall_ptr([](void* v, void* c) { L* x = (L*)c; return vc_list_count(x->l, v) == (vc_map_has(TREE, v) && vc_visited(x->it, v) && vc_map_get(TREE, v) == G.fp ? 1 : 0); }, &c);
}
VC_SPEC bool inv_tree() { return same_tree(); }
VC_HARNESS h_getChildren()
{
    pre();
    std::list<FrameNode*> r = G.env->getChildren(G.fp);
    vc_cover("getChildren");
    vc_assert(vc_forall_ptr([](void* v, void* l) { return vc_list_count(l, v) == (vc_map_has(TREE, v) && vc_map_get(TREE, v) == G.fp ? 1 : 0); }, &r), "the children of a node are exactly the frames whose parent it is, each once");
    vc_assert(same_tree(), "getChildren changes nothing");
}
VC_HARNESS h_node()
{
    pre(); FrameNode *p = G.fp, *c = G.fc; vc_assume(c->env == G.env && p->env == G.env); const FrameNode* cc = c;
    vc_cover("FrameNode");
    vc_assert(c->getParent() == (vc_map_has(TREE, c) ? vc_map_get(TREE, c) : NULL), "a frame reports its parent");
    vc_assert(cc->getParent() == (vc_map_has(TREE, c) ? vc_map_get(TREE, c) : NULL), "a const frame reports its parent");
    vc_assert(c->isRoot() == !vc_map_has(TREE, c), "a frame is a root exactly if it has no parent");
}
VC_HARNESS h_node_children()
{
    pre(); vc_assume(G.fp->env == G.env);
    std::list<FrameNode*> r = G.fp->getChildren();
    vc_assert(vc_forall_ptr([](void* v, void* l) { return vc_list_count(l, v) == (vc_map_has(TREE, v) && vc_map_get(TREE, v) == G.fp ? 1 : 0); }, &r), "a frame lists exactly its children");
}
VC_HARNESS h_node_add()
{
    pre(); FrameNode *p = G.fp, *c = G.fc; vc_assume(p != c); vc_assume(p->env == G.env); vc_assume(c->env == NULL || c->env == G.env);
    FrameNode* old = vc_map_has(TREE, c) ? (FrameNode*)vc_map_get(TREE, c) : NULL; vc_assume(old == NULL || item_ok(old));
    p->addChild(c);
    vc_assert(vc_map_has(TREE, c) && vc_map_get(TREE, c) == p, "adding through the frame makes it the parent");
}
