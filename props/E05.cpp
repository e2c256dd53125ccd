#include "env.h"
#define ITEMS (&G.env->items)
static bool has(long id) { return vc_strmap_has(ITEMS, id); }
static EnvironmentItem* get(long id) { return (EnvironmentItem*)vc_strmap_get(ITEMS, id); }
static bool had(long id) { return vc_strmap_has(G.s_items, id); }
static EnvironmentItem* got(long id) { return (EnvironmentItem*)vc_old_strmap_get(G.s_items, id); }
// representation invariant: the item stored under an id is alive, belongs to this environment and carries that id
static bool wf() { return vc_forall_int([](long id, void*) { return !has(id) || (vc_external(get(id)) && (void*)get(id) != (void*)G.env && get(id)->env == G.env && get(id)->ref_count >= 1 && vc_str(&get(id)->unique_id) == id); }, NULL); }
static long exc;   // an id that may be changed by the operation
static bool frame() { return vc_forall_int([](long id, void*) { return id == exc || (has(id) == had(id) && (!had(id) || get(id) == got(id))); }, NULL); }
static bool others() { return same_tree() && same_layers() && same_maps() && same_in() && same_out(); }
static void pre()
{
    mkenv(); vc_assume(vc_str_first(vc_str(&G.env->envPrefix)) == '/');   // documented: prefixes are absolute
    G.item = (EnvironmentItem*)obj("item"); vc_assume((void*)G.item != (void*)G.env && G.item->ref_count >= 0);
    vc_assume(wf()); snap_all();
}
VC_SPEC bool inv_cand(void* s) { long c = vc_str(s); return vc_str_first(c) == '/' && vc_str_last(c) >= '0' && vc_str_last(c) <= '9'; }   // the candidate id is absolute and ends in a digit
VC_SPEC bool inv_same() { return vc_forall_int([](long id, void*) { return has(id) == had(id) && (!had(id) || get(id) == got(id)); }, NULL); }
VC_HARNESS h_attach()
{
    pre(); EnvironmentItem* i = G.item; i->env = NULL; long rc = i->ref_count; long id0 = vc_str(&i->unique_id); bool threw = false; vc_assume(G.env->last_id >= 0 && G.env->last_id < 1000000000);
    // an unattached item is not in the table
    vc_assume(vc_forall_int([](long id, void*) { return !has(id) || get(id) != G.item; }, NULL));
    try { G.env->attachItem(i); } catch (...) { threw = true; }
    vc_cover("attachItem");
    long id = vc_str(&i->unique_id); exc = id;
    vc_assert(vc_str_first(id) == '/', "the id of an attached item is absolute");
    vc_assert(vc_str_last(id) != '/', "the id of an attached item is complete");
    bool full = vc_str_first(id0) == '/' && vc_str_last(id0) != '/';
    vc_assert(!full || id == id0, "a complete absolute id is kept");
    vc_assert(!threw | (vc_str_last(id0) != '/'), "completing an id never fails");
    vc_assert(threw == had(id), "attaching fails exactly if the id is already used");
    if (threw) {
        vc_assert(inv_same(), "a refused item changes no entry");
        vc_assert(i->env == NULL, "a refused item stays unattached");
        vc_assert(G.nev == 0, "a refused item is not announced");
    } else {
        vc_assert(has(id) && get(id) == i, "the item is found under its id");
        vc_assert(frame(), "attaching an item leaves all other items alone");
        vc_assert(i->env == G.env, "the item belongs to the environment");
        vc_assert(i->ref_count == rc + 1, "the environment holds the item");
        vc_assert(wf(), "attaching an item preserves the invariant");
        vc_assert(G.nev == 1 && evc(event::ITEM, event::ADD, i, NULL) == 1, "attaching is announced once");
    }
    vc_assert(others(), "attaching an item changes no relation");
}
static Environment* other_env; static long n_detach;
VC_SPEC void c_item_detach(boost::intrusive_ptr<EnvironmentItem>* ret, EnvironmentItem* i)
{   // contract of EnvironmentItem::detach: the other environment gives the item up and hands it to the caller
    vc_assert(i == G.item && i->env == other_env, "the item is detached from the environment it belongs to"); i->env = NULL; n_detach++;
    *(EnvironmentItem**)ret = i;
}
VC_HARNESS h_attach_foreign()
{
    pre(); EnvironmentItem* i = G.item; Environment* o = (Environment*)obj("other environment"); vc_assume(o != G.env && (void*)o != (void*)i); other_env = o; i->env = o; n_detach = 0;
    vc_assume(i->ref_count >= 1); long rc = i->ref_count; long id = vc_str(&i->unique_id); exc = id;
    vc_assume(vc_forall_int([](long id, void*) { return !has(id) || get(id) != G.item; }, NULL)); vc_assume(!had(id));
    G.env->attachItem(i);
    vc_cover("attachItem foreign");
    vc_assert(n_detach == 1, "an item of another environment is detached there first");
    vc_assert(has(id) && get(id) == i && i->env == G.env, "the item changes to this environment");
    vc_assert(i->ref_count == rc, "the item is held by exactly one environment");
    vc_assert(frame() && others(), "nothing else changes");
}
VC_HARNESS h_getItem()
{
    pre(); std::string s; long id = vc_nondet_long("id"); vc_str_assign(&s, id); long rc = has(id) ? get(id)->ref_count : 0;
    EnvironmentItem::Ptr r = G.env->getItem(s);
    vc_cover("getItem");
    vc_assert(r.get() == (has(id) ? get(id) : NULL), "looking up an id yields exactly the item attached under it, or nothing");
    vc_assert(inv_same() && others(), "looking up an item changes nothing");
    vc_assert(!has(id) || get(id)->ref_count == rc + 1, "the caller shares ownership of the item found");
}
VC_HARNESS h_getItemT()
{
    pre(); std::string s; long id = vc_nondet_long("id"); vc_str_assign(&s, id);
    FrameNode::Ptr r = G.env->getItem<FrameNode>(s);
    vc_cover("getItem<T>");
    bool isf = has(id) && dynamic_cast<FrameNode*>(get(id)) != NULL;
    vc_assert(r.get() == (isf ? get(id) : NULL), "a typed lookup yields the item if it has that type");
}
VC_HARNESS h_setUniqueId()
{
    pre(); std::string s; long id = vc_nondet_long("id"); vc_str_assign(&s, id); EnvironmentItem* i = G.item; long id0 = vc_str(&i->unique_id); bool threw = false, att = i->env != NULL;
    try { i->setUniqueId(s); } catch (...) { threw = true; }
    vc_cover("setUniqueId");
    vc_assert(threw == att, "the id of an attached item cannot be changed");
    vc_assert(vc_str(&i->unique_id) == (att ? id0 : id), "the id of an unattached item is the one set");
}
VC_HARNESS h_isAttached()
{
    pre(); vc_cover("isAttached");
    vc_assert(G.item->isAttached() == (G.item->env != NULL) && G.item->getEnvironment() == G.item->env, "an item reports the environment it belongs to");
}
VC_HARNESS h_detach()
{
    pre(); EnvironmentItem* i = G.item; long id = vc_str(&i->unique_id); i->env = G.env; exc = id; vc_assume(has(id) && get(id) == i); long rc = i->ref_count;
    EnvironmentItem::Ptr r = G.env->detachItem(i, false);
    vc_cover("detachItem");
    vc_assert(i->env == NULL, "a detached item belongs to no environment");
}
