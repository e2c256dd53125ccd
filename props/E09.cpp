#include "env.h"
struct VA { int x; }; struct VB { int x; };
typedef Holder<VA> HA; typedef Holder<VB> HB;
static Layer *L, *O; static char s_l[64], s_o[64], DEL[16]; static long key, gk; static long ncreate, nclone;
static bool has(Layer* l, long k) { return vc_strmap_has(&l->data_map, k); }
static HolderBase* get(Layer* l, long k) { return (HolderBase*)vc_strmap_get(&l->data_map, k); }
static bool had(void* s, long k) { return vc_strmap_has(s, k); }
static HolderBase* got(void* s, long k) { return (HolderBase*)vc_old_strmap_get(s, k); }
static HolderBase*& origin(HolderBase* h) { return *(HolderBase**)((char*)h + 1008); }   // ghost: the holder a holder was cloned from
static bool keep_l() { return has(L, gk) == had(s_l, gk) && (!had(s_l, gk) || get(L, gk) == got(s_l, gk)); }
static bool keep_o() { return has(O, gk) == had(s_o, gk) && (!had(s_o, gk) || get(O, gk) == got(s_o, gk)); }
static long del(HolderBase* h) { return vc_bag_count(DEL, 0, 0, h, NULL); }
// --- contracts of the holders
VC_SPEC HolderBase* c_clone(HolderBase* h) { HolderBase* c = (HolderBase*)obj("clone"); vc_assume(vc_external(c) && origin(c) == h); nclone++; return c; }
VC_SPEC void c_delete(HolderBase* h) { vc_bag_add(DEL, 0, 0, h, NULL); }
VC_SPEC void c_newholder(HA* h) { h->ptr = (VA*)obj("data"); vc_assume(dynamic_cast<HA*>((HolderBase*)h) != NULL); }
VC_SPEC void c_pure() { vc_assume(false); }   // objects of the initial heap are completely constructed
// holders are owned by one entry of one layer
static bool wf() { return vc_forall_int([](long a, void*) { return (!has(L, a) || (vc_external(get(L, a)) && get(L, a) != NULL)) && (!has(O, a) || (vc_external(get(O, a)) && get(O, a) != NULL))
    && (a == gk || !has(L, a) || !has(L, gk) || get(L, a) != get(L, gk)) && (!has(L, a) || !has(O, gk) || get(L, a) != get(O, gk)); }, NULL); }
static void pre()
{
    L = (Layer*)vc_fixed_object(2); O = (Layer*)vc_fixed_object(3); vc_use_map(&L->data_map); vc_use_map(&O->data_map);
    gk = vc_nondet_long("any key"); key = vc_nondet_long("key"); ncreate = nclone = 0; vc_bag_clear(DEL);
    vc_assume(wf()); vc_snapshot(s_l, &L->data_map); vc_snapshot(s_o, &O->data_map);
}
VC_HARNESS h_hasData()
{
    pre(); std::string s; vc_str_assign(&s, key); bool r = L->hasData(s);
    vc_cover("hasData");
    vc_assert(r == had(s_l, key), "metadata exists exactly for the keys it was created for"); vc_assert(keep_l(), "asking for metadata changes nothing");
}
VC_HARNESS h_removeKey()
{
    pre(); std::string s; vc_str_assign(&s, key); L->removeData(s);
    vc_cover("removeData(key)");
    vc_assert(!has(L, key), "removed metadata is gone"); vc_assert(gk == key || keep_l(), "removing metadata keeps all other metadata of the layer"); vc_assert(keep_o(), "removing metadata leaves other layers alone");
    if (had(s_l, gk)) vc_assert(del(got(s_l, gk)) == (gk == key ? 1 : 0), "exactly the removed metadata is deleted, once");
    if (had(s_o, gk)) vc_assert(del(got(s_o, gk)) == 0, "metadata of other layers is not deleted");
}
VC_SPEC bool inv_del(void* it)
{   // exactly the metadata of the visited prefix has been deleted
    return vc_forall_int([](long k, void* i) { return !had(s_l, k) || del(got(s_l, k)) == (vc_visited_rank(i, k) ? 1 : 0); }, it);
}
VC_SPEC bool inv_delg(void* it) { return !had(s_l, gk) || del(got(s_l, gk)) == (vc_visited_rank(it, gk) ? 1 : 0); }
VC_SPEC bool inv_delo() { return !had(s_o, gk) || del(got(s_o, gk)) == 0; }
VC_SPEC bool inv_keep() { return keep_l(); }
VC_SPEC bool inv_keepo() { return keep_o(); }
VC_HARNESS h_removeAll()
{
    pre(); L->removeData();
    vc_cover("removeData()");
    vc_assert(!has(L, gk), "no metadata is left"); vc_assert(keep_o(), "removing metadata leaves other layers alone");
    if (had(s_l, gk)) vc_assert(del(got(s_l, gk)) == 1, "all metadata is deleted, once");
    if (had(s_o, gk)) vc_assert(del(got(s_o, gk)) == 0, "metadata of other layers is not deleted");
}
VC_SPEC bool inv_copied(void* it) { return vc_visited_rank(it, gk) ? (has(L, gk) && origin(get(L, gk)) == got(s_o, gk)) : !has(L, gk); }
static void copied()
{
    vc_assert(has(L, gk) == had(s_o, gk), "a copy has metadata for the same keys"); vc_assert(keep_o(), "copying keeps the original");
    if (had(s_o, gk)) vc_assert(origin(get(L, gk)) == got(s_o, gk), "the metadata of a copy is a clone of that of the original");
    if (had(s_o, gk)) vc_assert(del(got(s_o, gk)) == 0, "copying does not delete metadata of the original");
    vc_assert(L->immutable == O->immutable && L->dirty == O->dirty, "a copy has the flags of the original");
}
VC_HARNESS h_copy()
{
    pre(); new (L) Layer(*O);
    vc_cover("copy constructor");
    copied();
    vc_assert(L->env == NULL && L->ref_count == 0, "a copy belongs to no environment and nobody holds it");
}
VC_HARNESS h_assign()
{
    pre(); long rc = L->ref_count; Environment* e = L->env; *L = *O;
    vc_cover("assignment");
    copied();
    if (had(s_l, gk)) vc_assert(del(got(s_l, gk)) == 1, "assigning deletes the former metadata");
    vc_assert(L->env == e && L->ref_count == rc, "assigning changes no membership");
}
VC_HARNESS h_self()
{
    pre(); *L = *L;
    vc_cover("self assignment");
    vc_assert(keep_l(), "assigning a layer to itself keeps its metadata"); if (had(s_l, gk)) vc_assert(del(got(s_l, gk)) == 0, "assigning a layer to itself deletes no metadata");
}
static bool isA(HolderBase* h) { return dynamic_cast<HA*>(h) != NULL; }
VC_HARNESS h_getData()
{
    pre(); std::string s; vc_str_assign(&s, key); bool threw = false; VA* r = NULL;
    try { r = &L->getData<VA>(s); } catch (std::runtime_error&) { threw = true; }
    vc_cover("getData<T>");
    vc_assert(threw == (had(s_l, key) && !isA(got(s_l, key))), "metadata of another type is refused, all other is found or made");
    vc_assert(has(L, key), "metadata asked for exists afterwards");
    if (had(s_l, key)) vc_assert(get(L, key) == got(s_l, key), "existing metadata is kept");
    else vc_assert(isA(get(L, key)), "new metadata has the type asked for");
    if (!threw) vc_assert(r == ((HA*)get(L, key))->ptr, "the data held under the key is returned");
    vc_assert(gk == key || keep_l(), "all other metadata of the layer is kept"); vc_assert(keep_o(), "metadata of other layers is left alone");
}
VC_HARNESS h_getDataConst()
{
    pre(); std::string s; vc_str_assign(&s, key); bool threw = false; const VA* r = NULL;
    try { r = &((const Layer*)L)->getData<VA>(s); } catch (std::runtime_error&) { threw = true; }
    vc_cover("getData<T> const");
    vc_assert(threw == !(had(s_l, key) && isA(got(s_l, key))), "reading is refused exactly if there is no metadata of that key and type");
    if (!threw) vc_assert(r == ((HA*)got(s_l, key))->ptr, "the data held under the key is returned");
    vc_assert(keep_l() && keep_o(), "reading metadata changes nothing");
}
VC_HARNESS h_hasDataT()
{
    pre(); std::string s; vc_str_assign(&s, key); bool r = L->hasData<VA>(s);
    vc_cover("hasData<T>");
    vc_assert(r == (had(s_l, key) && isA(got(s_l, key))), "metadata is reported to have exactly the type it was created with"); vc_assert(keep_l() && keep_o(), "asking for metadata changes nothing");
}
VC_HARNESS h_flags()
{
    pre(); bool d = L->dirty; int op = vc_nondet_int("op");
    if (op == 0) { L->setImmutable(); vc_assert(L->isImmutable() && L->isDirty() == d, "setting a layer immutable sets just that"); }
    else if (op == 1) { bool m = L->isImmutable(); L->setDirty(); vc_assert(L->isDirty() && L->isImmutable() == m, "marking a layer as dirty sets just that"); }
    else { bool m = L->isImmutable(); L->resetDirty(); vc_assert(!L->isDirty() && L->isImmutable() == m, "unmarking a layer resets just that"); }
    vc_cover("flags"); vc_assert(keep_l(), "flags do not touch the metadata");
}
VC_SPEC Holder<VB>* use_hb() { return new Holder<VB>(); }
