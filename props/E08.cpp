#include "env.h"
// --- delivery
static Event* EV; static long n_handle, n_filter; static bool verdict; static void* flt; static void* hnd;
VC_SPEC bool c_filter(EventFilter* f, const Event& e) { vc_assert((void*)f == flt && &e == EV, "the filter in effect decides about the event"); n_filter++; return verdict; }
VC_SPEC void c_hhandle(EventHandler* h, const Event& e) { vc_assert((void*)h == hnd && &e == EV, "the handler gets the event"); n_handle++; }
static void mkev() { EV = (Event*)obj("event"); n_handle = n_filter = 0; verdict = vc_nondet_bool("verdict"); }
VC_HARNESS h_receive()
{
    mkev(); EventHandler* h = (EventHandler*)obj("handler"); hnd = h; flt = h->filter;
    h->receive(*EV);
    vc_cover("receive");
    vc_assert(n_handle == (flt == NULL || verdict ? 1 : 0), "an event is handled once, unless the filter rejects it");
    vc_assert(n_filter == (flt == NULL ? 0 : 1), "the filter is asked once");
}
VC_HARNESS h_setFilter()
{
    EventHandler* h = (EventHandler*)obj("handler"); EventFilter* f = (EventFilter*)vc_nondet_ptr("filter"); vc_assume((void*)f != (void*)h);
    h->setFilter(f);
    vc_cover("setFilter");
    vc_assert(h->filter == f, "the filter set last is in effect");
    vc_assert(f == NULL || f->handler == h, "a filter knows its handler");
}
VC_HARNESS h_filter_handle()
{
    mkev(); EventFilter* f = (EventFilter*)obj("filter"); vc_assume(f->handler != NULL); hnd = f->handler; flt = NULL;
    f->handle(*EV);
    vc_cover("EventFilter::handle");
    vc_assert(n_handle == 1, "a filter can pass an event on, directly");
}
// EventSource: handlers are an arbitrary array, delivery is in order
static long n_rcv; static EventHandler** HV;
VC_SPEC void c_rcv_nth(EventHandler* h, const Event& e) { vc_assert(&e == EV && h == HV[n_rcv], "each registered handler gets the event, in order"); n_rcv++; }
VC_SPEC bool inv_rcv(void* it) { EventHandler** p = *(EventHandler***)it; return n_rcv >= 0 && p == HV + n_rcv; }
VC_HARNESS h_source()
{
    mkev(); EventSource* s = (EventSource*)vc_fixed_object(1); HV = (EventHandler**)vc_fixed_object(2); long n = vc_nondet_long("n"); vc_assume(n >= 0 && n < 1000000); n_rcv = 0;
    *(EventHandler***)&s->eventHandlers = HV; ((EventHandler***)&s->eventHandlers)[1] = HV + n;
    s->handle(*EV);
    vc_cover("EventSource::handle");
    vc_assert(n_rcv == n, "every registered handler gets the event once");
}
// --- dispatching
static long what; static const void *xa, *xb, *gd; static long ncall;
static void call(long w, const void* d, const void* a, const void* b) { vc_assert(d == gd, "the given dispatcher is called"); what = w; xa = a; xb = b; ncall++; }
#define D1(n, w, T) VC_SPEC void n(EventDispatcher* d, T* a) { call(w, d, a, NULL); }
#define D2(n, w, T, U) VC_SPEC void n(EventDispatcher* d, T* a, U* b) { call(w, d, a, b); }
D1(d_attached, 1, EnvironmentItem) D1(d_detached, 2, EnvironmentItem) D1(d_modified, 3, EnvironmentItem) D1(d_setroot, 4, FrameNode) D1(d_rmroot, 5, FrameNode)
D2(d_add_f, 6, FrameNode, FrameNode) D2(d_rm_f, 7, FrameNode, FrameNode) D2(d_add_l, 8, Layer, Layer) D2(d_rm_l, 9, Layer, Layer) D2(d_set, 10, CartesianMap, FrameNode) D2(d_unset, 11, CartesianMap, FrameNode)
static long expected(long t, long o)
{
    if(t == event::ITEM) return o == event::ADD ? 1 : o == event::REMOVE ? 2 : 3;
    if(o == event::UPDATE) return 0;
    bool add = o == event::ADD;
    return t == event::ROOT ? (add ? 4 : 5) : t == event::FRAMENODE_TREE ? (add ? 6 : 7) : t == event::LAYER_TREE ? (add ? 8 : 9) : (add ? 10 : 11);
}
static bool ok_types(long t, long o) { return (t == event::ITEM || t == event::FRAMENODE_TREE || t == event::FRAMENODE || t == event::LAYER_TREE || t == event::ROOT) && (o == event::ADD || o == event::REMOVE || o == event::UPDATE); }
VC_HARNESS h_dispatch()
{
    long t = vc_nondet_int("type"), o = vc_nondet_int("operation"); vc_assume(ok_types(t, o));
    EnvironmentItem* a = (EnvironmentItem*)vc_nondet_ptr("a"); EnvironmentItem* b = (EnvironmentItem*)vc_nondet_ptr("b"); EventDispatcher* d = (EventDispatcher*)obj("dispatcher"); gd = d; ncall = 0; what = 0; bool threw = false;
    try { EventDispatcher::dispatch((event::Type)t, (event::Operation)o, a, b, d); } catch (...) { threw = true; }
    vc_cover("dispatch");
    vc_assert(threw == (expected(t, o) == 0), "exactly the events without a meaning are refused");
    vc_assert(ncall == (threw ? 0 : 1), "one callback per event");
    vc_assert(what == expected(t, o), "the callback of the kind of event is called");
    vc_assert(threw || xa == a, "the callback gets the first item");
    vc_assert(threw || what <= 5 || xb == b, "the callback gets the second item");
}
// --- queueing: merging
static bool same_key(Event* x, Event* y) { return x->type == y->type && vc_str(&x->id_a) == vc_str(&y->id_a) && vc_str(&x->id_b) == vc_str(&y->id_b); }
static long verdict_of(Event* x, Event* y, long xop)
{   // 0 keep, 1 the new event replaces the old one, 2 they cancel out
    if(!same_key(x, y)) return 0;
    if(xop == y->operation) return 1;
    if(xop == event::ADD && y->operation == event::REMOVE) return x->type == event::ITEM ? 1 : 2;
    if(xop == event::REMOVE && y->operation == event::ADD) return 2;
    if(xop == event::REMOVE && y->operation == event::UPDATE) return 1;
    return 0;
}
VC_HARNESS h_merge()
{
    Event *x = (Event*)vc_fixed_object(1), *y = (Event*)vc_fixed_object(2); vc_assume(ok_types(x->type, x->operation) && ok_types(y->type, y->operation));
    long op = x->operation, v = verdict_of(x, y, op), yo = y->operation, yt = y->type, xt = x->type, ia = vc_str(&x->id_a), ib = vc_str(&x->id_b), ja = vc_str(&y->id_a), jb = vc_str(&y->id_b);
    event::Result r = x->merge(*y);
    vc_cover("merge");
    vc_assert(r == (v == 0 ? event::IGNORE : v == 1 ? event::INVALIDATE : event::CANCEL), "only events about the same items and of the same kind affect each other");
    bool again = v == 1 && op == event::ADD && yo == event::REMOVE;
    vc_assert(x->operation == (again ? event::UPDATE : op), "an item removed and added again amounts to an update, everything else stays what it is");
    vc_assert(x->type == xt && vc_str(&x->id_a) == ia && vc_str(&x->id_b) == ib, "the event stays about the same items");
    vc_assert(y->operation == yo && y->type == yt && vc_str(&y->id_a) == ja && vc_str(&y->id_b) == jb, "the queued event is not changed by merging");
}
// --- references held by queued events
static long n_clone; static EnvironmentItem *orig, *twin;
VC_SPEC EnvironmentItem* c_clone(const EnvironmentItem* i) { vc_assert(i == orig, "the item of the event is copied"); n_clone++; return twin; }
VC_SPEC void c_cnt_add(EnvironmentItem* i) { i->ref_count++; }
VC_SPEC void c_cnt_rel(EnvironmentItem* i) { i->ref_count--; }
VC_HARNESS h_ref()
{
    Event* e = (Event*)vc_fixed_object(1); EnvironmentItem* a = (EnvironmentItem*)vc_fixed_object(2); EnvironmentItem* b = (EnvironmentItem*)vc_fixed_object(3); twin = (EnvironmentItem*)vc_fixed_object(4); orig = a;
    vc_assume(ok_types(e->type, e->operation)); bool hasb = vc_nondet_bool("has b"); bool clone = vc_nondet_bool("clone"); n_clone = 0;
    bool item = e->type == event::ITEM; vc_assume(!item || !hasb);
    *(void**)&e->a = a; *(void**)&e->b = hasb ? b : NULL;
    vc_assume(a->ref_count >= 2 && b->ref_count >= 2 && twin->ref_count == 0 && a->ref_count < 1000000 && b->ref_count < 1000000);
    long ida = vc_str(&a->unique_id), idb = vc_str(&b->unique_id), oldb = vc_str(&e->id_b), ra = a->ref_count, rb = b->ref_count;
    e->ref(clone);
    vc_cover("ref");
    bool keep = item && e->operation != event::REMOVE;
    vc_assert(vc_str(&e->id_a) == ida, "a queued event carries the id of the first item");
    vc_assert(vc_str(&e->id_b) == (hasb ? idb : oldb), "a queued event carries the id of the second item");
    vc_assert(e->a.get() == (!keep ? NULL : clone ? twin : a), "events with content keep the item or a copy of it, all others hold on to nothing");
    vc_assert(e->b.get() == NULL, "no queued event holds on to a second item");
    vc_assert(n_clone == (keep && clone ? 1 : 0), "copies are made exactly if asked for");
    vc_assert(!keep || vc_str(&e->a.get()->unique_id) == ida, "the content carries the id of its source");
    vc_assert(a->ref_count == ra - (keep && !clone ? 0 : 1) && b->ref_count == rb - (hasb ? 1 : 0), "references that are dropped are released");
}
// --- the queue: std::list<Event> enters as an array of events with a removed flag each (assumed contract of the list)
struct Q { bool async; Event* b; long n, pushed, lastk, lastc; long op0, t, ia, ib; Event* last; long l_op, l_type, l_a, l_b; void* l_item; };
extern "C" { Q q; bool* removed; }
static long q_verdict(long j);
VC_SPEC void* q_begin(void*) { return q.b; }
VC_SPEC void* q_end(void*) { return q.b + q.n; }
VC_SPEC void* q_deref(void** it) { return *it; }
VC_SPEC void* q_inc(Event** it) { (*it)++; return it; }
VC_SPEC void* q_inc2(Event** it, int) { Event* o = *it; (*it)++; return o; }
VC_SPEC void* q_erase(void*, Event* it) { long i = vc_offset(it) / (long)sizeof(Event); vc_assert(vc_same_object(it, q.b) && i >= 0 && i < q.n && !removed[i], "an event in the queue is removed"); removed[i] = true; if(q_verdict(i) == 2) q.lastc = i; else q.lastk = i; return it + 1; }
VC_SPEC void q_push(void*, const Event& e) { q.pushed++; q.l_op = e.operation; q.l_type = e.type; q.l_a = vc_str(&e.id_a); q.l_b = vc_str(&e.id_b); q.l_item = e.a.get(); }
VC_SPEC void q_lock(void*) {}
// contract of Event::ref (harness h_ref)
VC_SPEC void c_ref_ev(Event* e, bool clone)
{
    EnvironmentItem *a = e->a.get(), *b = e->b.get(); vc_str_assign(&e->id_a, q.ia); vc_str_assign(&e->id_b, q.ib); vc_assert(a == orig && clone == q.async, "the event is prepared for the queue as asked for");
    *(void**)&e->a = q.l_item; *(void**)&e->b = NULL;
}
static bool q_same(long j) { return q.b[j].type == q.t && vc_str(&q.b[j].id_a) == q.ia && vc_str(&q.b[j].id_b) == q.ib; }
static long q_verdict(long j)
{
    if(!q_same(j)) return 0;
    long o = q.b[j].operation;
    if(q.op0 == o) return 1;
    if(q.op0 == event::ADD && o == event::REMOVE) return q.t == event::ITEM ? 1 : 2;
    if(q.op0 == event::REMOVE) return o == event::ADD ? 2 : 1;
    return 0;
}
// queue invariant: about the same items there is at most one event that adds or removes, and nothing besides a removal
static bool q_key(long i, long j) { return q.b[i].type == q.b[j].type && vc_str(&q.b[i].id_a) == vc_str(&q.b[j].id_a) && vc_str(&q.b[i].id_b) == vc_str(&q.b[j].id_b); }
static bool q_in(long j) { return j >= 0 && j < q.n; }
static bool q_wf() { return vc_forall_int2([](long i, long j, void*) { return !q_in(i) || !q_in(j) || i == j || !q_key(i, j) || (q.b[i].operation != event::REMOVE && q.b[j].operation != event::REMOVE && q.b[i].operation != q.b[j].operation); }, NULL); }
static bool q_types() { return vc_forall_int([](long j, void*) { return !q_in(j) || ((int)q.b[j].type >= 0 && (int)q.b[j].type <= event::ROOT && (int)q.b[j].operation >= 0 && (int)q.b[j].operation <= event::UPDATE); }, NULL); }
static long at(void* it) { return vc_offset(*(Event**)it) / (long)sizeof(Event); }
VC_SPEC bool inv_q_at(void* it) { Event* p = *(Event**)it; long i = at(it); return vc_same_object(p, q.b) && i >= 0 && i <= q.n && vc_offset(p) == i * (long)sizeof(Event); }
VC_SPEC bool inv_q_rest(void* it) { long i = at(it); return vc_forall_int([](long j, void* c) { return j < *(long*)c || !removed[j]; }, &i); }
VC_SPEC bool inv_q_done(void* it) { long i = at(it); return vc_forall_int([](long j, void* c) { return j < 0 || j >= *(long*)c || removed[j] == (q_verdict(j) != 0); }, &i); }
VC_SPEC bool inv_q_key(Event* e) { return e->type == q.t && vc_str(&e->id_a) == q.ia && vc_str(&e->id_b) == q.ib; }
VC_SPEC bool inv_q_op(void* it, Event* e) { long i = at(it), k = q.lastk; return e->operation == q.op0 || (q.op0 == event::ADD && q.t == event::ITEM && e->operation == event::UPDATE && k >= 0 && k < i && q_same(k) && q.b[k].operation == event::REMOVE); }
VC_SPEC bool inv_q_op2(void* it, Event* e) { long i = at(it); if(q.op0 != event::ADD || q.t != event::ITEM || e->operation == event::UPDATE) return true; return vc_forall_int([](long j, void* c) { return j < 0 || j >= *(long*)c || !q_same(j) || q.b[j].operation != event::REMOVE; }, &i); }
VC_SPEC bool inv_q_valid(void* it, unsigned char valid) { long i = at(it); if(!valid) return true; return vc_forall_int([](long j, void* c) { return j < 0 || j >= *(long*)c || q_verdict(j) != 2; }, &i); }
VC_SPEC bool inv_q_cancel(void* it, unsigned char valid) { long i = at(it), k = q.lastc; return valid || (k >= 0 && k < i && q_verdict(k) == 2); }
VC_SPEC bool inv_q_item(Event* e) { return e->a.get() == q.l_item; }
VC_HARNESS h_queue()
{
    EventQueue* x = (EventQueue*)vc_fixed_object(1); q.b = (Event*)vc_fixed_object(2); removed = (bool*)vc_fixed_object(3); Event* e = (Event*)vc_fixed_object(4); EnvironmentItem* a = (EnvironmentItem*)vc_fixed_object(5); EnvironmentItem* b = (EnvironmentItem*)vc_fixed_object(6); twin = (EnvironmentItem*)vc_fixed_object(7); orig = a; n_clone = 0;
    q.n = vc_nondet_long("queued"); vc_assume(q.n >= 0 && q.n < 1000000000); q.pushed = 0; q.lastk = q.lastc = -1;
    vc_assume(vc_forall_int([](long i, void*) { return !removed[i]; }, NULL) && q_types() && q_wf());
    vc_assume(ok_types(e->type, e->operation)); bool hasb = e->type != event::ITEM;
    *(void**)&e->a = a; *(void**)&e->b = hasb ? b : NULL;
    vc_assume(a->ref_count >= 2 && b->ref_count >= 2 && twin->ref_count == 0 && a->ref_count < 1000000 && b->ref_count < 1000000);
    q.op0 = e->operation; q.t = e->type; q.ia = vc_str(&a->unique_id); q.ib = hasb ? vc_str(&b->unique_id) : vc_str(&e->id_b); q.l_item = q.t == event::ITEM && q.op0 != event::REMOVE ? (x->m_async ? twin : a) : NULL;
    void* want = q.l_item;
    q.async = x->m_async;
    x->handle(*e);
    vc_cover("EventQueue::handle");
    vc_assert(vc_forall_int([](long j, void*) { return !q_in(j) || removed[j] == (q_verdict(j) != 0); }, NULL), "exactly the queued events the new one replaces or cancels are removed");
    vc_assert(q.pushed <= 1, "an event is queued at most once");
    vc_assert(q.pushed == 1 || vc_exists_int([](long j, void*) { return q_in(j) && q_verdict(j) == 2; }, NULL), "an event is dropped only if it cancels out with a queued one");
    vc_assert(q.pushed == 0 || vc_forall_int([](long j, void*) { return !q_in(j) || q_verdict(j) != 2; }, NULL), "an event that cancels out with a queued one is not queued");
    vc_assert(q.pushed == 0 || (q.l_type == q.t && q.l_a == q.ia && q.l_b == q.ib && q.l_item == want), "the queued event is about the same items and holds their content");
    vc_assert(q.pushed == 0 || q.l_op == q.op0 || (q.op0 == event::ADD && q.t == event::ITEM && q.l_op == event::UPDATE && vc_exists_int([](long j, void*) { return q_in(j) && q_same(j) && q.b[j].operation == event::REMOVE; }, NULL)), "the queued event does what the new event does");
    vc_assert(q.pushed == 0 || q.op0 != event::ADD || q.t != event::ITEM || q.l_op == event::UPDATE || vc_forall_int([](long j, void*) { return !q_in(j) || !q_same(j) || q.b[j].operation != event::REMOVE; }, NULL), "a queued removal followed by a new addition becomes an update");
    vc_assert(!q_in(q.lastk) || vc_forall_int([](long j, void*) { return !q_in(j) || j == q.lastk || !q_key(q.lastk, j) || (q.b[q.lastk].operation != event::REMOVE && q.b[j].operation != event::REMOVE && q.b[q.lastk].operation != q.b[j].operation); }, NULL), "lemma: the queue invariant for the event removed last");
    // the queue invariant is preserved (an update is never announced for an item whose removal is queued)
    vc_assert(q.pushed == 0 || vc_forall_int([](long j, void*) { return !q_in(j) || removed[j] || !q_same(j) || (q.b[j].operation != q.l_op && q.l_op != event::REMOVE && (q.b[j].operation != event::REMOVE || q.op0 == event::UPDATE)); }, NULL), "about the same items the queue never holds two additions or removals");
}
static long n_proc; 
VC_SPEC void c_process(EventQueue* x, const Event& e) { vc_assert(&e == q.b + n_proc, "queued events are processed in the order they came"); vc_assert(q.pushed == 0, "the queue is emptied last"); n_proc++; }
VC_SPEC void q_clear(void*) { q.pushed++; }
VC_SPEC bool inv_flush(void* it) { return n_proc >= 0 && n_proc <= q.n && *(Event**)it == q.b + n_proc; }
VC_HARNESS h_flush()
{
    EventQueue* x = (EventQueue*)vc_fixed_object(1); q.b = (Event*)vc_fixed_object(2); q.n = vc_nondet_long("queued"); vc_assume(q.n >= 0 && q.n < 1000000000); q.pushed = 0; n_proc = 0;
    x->flush();
    vc_cover("flush");
    vc_assert(n_proc == q.n, "every queued event is processed once");
    vc_assert(q.pushed == 1, "flushing leaves the queue empty");
}
// --- applying an event to an environment: exactly the operation the event describes is carried out, on the items of this environment with the ids of the event
static Event* AE; static EnvironmentItem *ia_, *ib_; static FrameNode* root_; static long a_what, a_n, a_upd, a_set; static const void *a_x, *a_y;
static void did(long w, const void* x, const void* y) { a_what = w; a_x = x; a_y = y; a_n++; }
VC_SPEC void a_getItem(boost::intrusive_ptr<EnvironmentItem>* r, Environment* e, const std::string& id)
{
    vc_assert(e == G.env, "items are looked up in the environment"); bool first = &id == &AE->id_a, second = &id == &AE->id_b; vc_assert(first || second, "items are looked up by the ids of the event");
    *(void**)r = first ? ia_ : ib_;
}
VC_SPEC void a_ref(EnvironmentItem*) {}
VC_SPEC FrameNode* a_root(Environment*) { return root_; }
VC_SPEC void a_attach(Environment*, EnvironmentItem* i) { did(1, i, NULL); }
VC_SPEC void a_detach(boost::intrusive_ptr<EnvironmentItem>* r, Environment*, EnvironmentItem* i, bool deep) { did(2, i, NULL); *(void**)r = NULL; }
VC_SPEC void a_addF(Environment*, FrameNode* p, FrameNode* c) { did(6, p, c); }
VC_SPEC void a_rmF(Environment*, FrameNode* p, FrameNode* c) { did(7, p, c); }
VC_SPEC void a_addL(Environment*, Layer* p, Layer* c) { did(8, p, c); }
VC_SPEC void a_rmL(Environment*, Layer* p, Layer* c) { did(9, p, c); }
VC_SPEC void a_setM(Environment*, CartesianMap* p, FrameNode* c) { did(10, p, c); }
VC_SPEC void a_rmM(Environment*, CartesianMap* p, FrameNode* c) { did(11, p, c); }
VC_SPEC void a_modified(Environment*, EnvironmentItem* i) { vc_assert(i == ia_ && i != NULL && a_set == 1, "an item is reported as modified after its content has been taken over"); a_upd++; }
VC_SPEC void a_setitem(EnvironmentItem* i, EnvironmentItem* from) { vc_assert(i == ia_ && i != NULL && from == AE->a.get(), "the content of the event is taken over"); a_set++; }
VC_HARNESS h_apply()
{
    G.env = (Environment*)vc_fixed_object(1); AE = (Event*)vc_fixed_object(2); vc_assume(ok_types(AE->type, AE->operation) && expected(AE->type, AE->operation) != 0);
    ia_ = (EnvironmentItem*)vc_nondet_ptr("a"); ib_ = (EnvironmentItem*)vc_nondet_ptr("b"); root_ = (FrameNode*)obj("root"); a_what = a_n = a_upd = a_set = 0;
    AE->apply(G.env);
    vc_cover("apply");
    long w = expected(AE->type, AE->operation); bool isroot = (void*)ia_ == (void*)root_;
    bool take = (w == 1 || w == 3) && ia_ != NULL;                     // the item exists: its content is replaced
    bool act = w == 1 || w == 3 ? ia_ == NULL : w == 2 ? ia_ != NULL && !isroot : w >= 6 ? ia_ != NULL && ib_ != NULL : false;
    vc_assert(a_set == (take ? 1 : 0) && a_upd == (take ? 1 : 0), "an existing item takes over the content, once, and is reported as modified");
    vc_assert(a_n == (act ? 1 : 0), "an event changes the structure once, if the items it is about exist");
    vc_assert(!act || a_what == (w == 3 ? 1 : w), "the change is the one the event describes");
    vc_assert(!act || a_x == (w == 1 || w == 3 ? AE->a.get() : ia_), "the change is about the first item of the event");
    vc_assert(!act || w < 6 || a_y == ib_, "the change is about the second item of the event");
}
