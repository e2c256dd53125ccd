// common part of the Environment proof units: the real sources plus the contracts used at call sites
#include <vc.h>
#include <envire/core/Environment.cpp>
#include <envire/core/FrameNode.cpp>
#include <envire/core/Layer.cpp>
#include <envire/core/Operator.cpp>
#include <envire/core/Event.cpp>
#include <envire/core/EventHandler.cpp>
#include <envire/core/EventSource.cpp>
using namespace envire;
struct Ctx {
    Environment* env; FrameNode *fp, *fc, *fx; Layer *lp, *lc; CartesianMap* map; Operator* op; EnvironmentItem* item; EventHandler* handler;
    char ev[16], s_tree[64], s_layers[64], s_maps[64], s_in[64], s_out[64], s_items[64];
    long nev, nattach;
};
extern "C" { Ctx G; }
// --- contract of Environment::handle / EventHandler::receive: the event is recorded (delivery itself: property E08)
VC_SPEC void c_handle(Environment*, const Event& e) { vc_bag_add(G.ev, e.type, e.operation, e.a.get(), e.b.get()); G.nev++; }
VC_SPEC void c_receive(EventHandler* h, const Event& e) { vc_assert(h == G.handler, "events go to the given handler"); vc_bag_add(G.ev, e.type, e.operation, e.a.get(), e.b.get()); G.nev++; }
// --- contract of Environment::attachItem(EnvironmentItem*) (proved as property E05)
VC_SPEC void c_attach(Environment* env, EnvironmentItem* item)
{
    vc_assert(item != NULL, "an existing item is attached");
    vc_assert(item->env == NULL, "only unattached items are attached implicitly");
    item->env = env; item->ref_count++; G.nattach++;
    vc_bag_add(G.ev, event::ITEM, event::ADD, item, NULL); G.nev++;
}
// --- reference counting: an item handed to an operation is held by somebody, so no operation deletes it
VC_SPEC void c_release(EnvironmentItem* i) { i->ref_count--; vc_assert(i->ref_count > 0, "no item is deleted while it is still held"); }
static long evc(long t, long o, const void* a, const void* b) { return vc_bag_count(G.ev, t, o, a, b); }
static bool item_ok(EnvironmentItem* i) { return i != NULL && i->ref_count >= 1; }
static void* obj(const char* n) { void* p = vc_nondet_ptr(n); vc_assume(p != NULL); return p; }
template <class T> static T* item(const char* n) { T* p = (T*)obj(n); vc_assume((void*)p != (void*)G.env && item_ok(p)); return p; }
static void snap_all()
{
    Environment* e = G.env;
    vc_snapshot(G.s_tree, &e->frameNodeTree); vc_snapshot(G.s_layers, &e->layerTree); vc_snapshot(G.s_maps, &e->cartesianMapGraph);
    vc_snapshot(G.s_in, &e->operatorGraphInput); vc_snapshot(G.s_out, &e->operatorGraphOutput); vc_snapshot(G.s_items, &e->items);
    vc_bag_clear(G.ev); G.nev = 0; G.nattach = 0;
}
static void mkenv()
{
    Environment* e = (Environment*)vc_fixed_object(1); G.env = e;
    vc_use_map(&e->frameNodeTree); vc_use_map(&e->cartesianMapGraph); vc_use_mmap(&e->layerTree); vc_use_mmap(&e->operatorGraphInput); vc_use_mmap(&e->operatorGraphOutput); vc_use_map(&e->items);
}
// unchanged relations
static bool same_tree() { return vc_forall_ptr([](void* x, void*) { return vc_map_has(&G.env->frameNodeTree, x) == vc_map_has(G.s_tree, x) && (!vc_map_has(G.s_tree, x) || vc_map_get(&G.env->frameNodeTree, x) == vc_old_map_get(G.s_tree, x)); }, NULL); }
static bool same_maps() { return vc_forall_ptr([](void* x, void*) { return vc_map_has(&G.env->cartesianMapGraph, x) == vc_map_has(G.s_maps, x) && (!vc_map_has(G.s_maps, x) || vc_map_get(&G.env->cartesianMapGraph, x) == vc_old_map_get(G.s_maps, x)); }, NULL); }
static bool same_layers() { return vc_forall_ptr2([](void* k, void* v, void*) { return vc_mm_count(&G.env->layerTree, k, v) == vc_mm_count(G.s_layers, k, v); }, NULL); }
static bool same_in() { return vc_forall_ptr2([](void* k, void* v, void*) { return vc_mm_count(&G.env->operatorGraphInput, k, v) == vc_mm_count(G.s_in, k, v); }, NULL); }
static bool same_out() { return vc_forall_ptr2([](void* k, void* v, void*) { return vc_mm_count(&G.env->operatorGraphOutput, k, v) == vc_mm_count(G.s_out, k, v); }, NULL); }
