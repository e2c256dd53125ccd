#include "envmodel.h"
// queue under test: remembers what is processed
struct TQ : public EventQueue { std::vector<Event> out; void process(const Event& e) { out.push_back(e); } };
struct Rec : public EventHandler { std::vector<const Event*> got; void handle(const Event& e) { got.push_back(&e); } };
struct Flt : public EventFilter { bool pass; long asked; Flt() : pass(true), asked(0) {} bool filter(const Event&) { asked++; return pass; } void direct(const Event& e) { handle(e); } };
struct Disp : public EventListener { std::vector<std::string> log; void L(const char* n, const void* a, const void* b = 0) { std::ostringstream o; o << n << " " << a << " " << b; log.push_back(o.str()); }
    void itemAttached(EnvironmentItem* i) { L("attached", i); } void itemDetached(EnvironmentItem* i) { L("detached", i); } void itemModified(EnvironmentItem* i) { L("modified", i); }
    void childAdded(FrameNode* a, FrameNode* b) { L("addF", a, b); } void childRemoved(FrameNode* a, FrameNode* b) { L("rmF", a, b); } void childAdded(Layer* a, Layer* b) { L("addL", a, b); } void childRemoved(Layer* a, Layer* b) { L("rmL", a, b); }
    void frameNodeSet(CartesianMap* a, FrameNode* b) { L("setM", a, b); } void frameNodeDetached(CartesianMap* a, FrameNode* b) { L("unsetM", a, b); } void setRootNode(FrameNode* a) { L("root", a); } void removeRootNode(FrameNode* a) { L("noroot", a); } };
static void delivery()
{
    Environment env; TMap* m = new TMap; FrameNode *f = new FrameNode, *g = new FrameNode; TLayer *l = new TLayer, *l2 = new TLayer; EnvironmentItem::Ptr k[] = { m, f, g, l, l2 };
    struct { event::Type t; event::Operation o; EnvironmentItem *a, *b; const char* n; const void *x, *y; } T[] = {
        { event::ITEM, event::ADD, m, 0, "attached", (EnvironmentItem*)m, 0 }, { event::ITEM, event::REMOVE, m, 0, "detached", (EnvironmentItem*)m, 0 }, { event::ITEM, event::UPDATE, l, 0, "modified", (EnvironmentItem*)l, 0 },
        { event::FRAMENODE_TREE, event::ADD, f, g, "addF", f, g }, { event::FRAMENODE_TREE, event::REMOVE, f, g, "rmF", f, g }, { event::LAYER_TREE, event::ADD, l, l2, "addL", (Layer*)l, (Layer*)l2 }, { event::LAYER_TREE, event::REMOVE, l, l2, "rmL", (Layer*)l, (Layer*)l2 },
        { event::FRAMENODE, event::ADD, m, g, "setM", (CartesianMap*)m, g }, { event::FRAMENODE, event::REMOVE, m, g, "unsetM", (CartesianMap*)m, g }, { event::ROOT, event::ADD, f, 0, "root", f, 0 }, { event::ROOT, event::REMOVE, f, 0, "noroot", f, 0 } };
    for(auto& t : T) { CASE(); Disp d; std::ostringstream o; o << t.n << " " << t.x << " " << t.y; d.receive(Event(t.t, t.o, t.a, t.b)); CHECK(d.log.size() == 1 && d.log[0] == o.str(), "the callback of the kind of event is called", o.str()); }
    for(int t = event::FRAMENODE_TREE; t <= event::ROOT; t++) { CASE(); Disp d; bool thrown = false; try { d.receive(Event((event::Type)t, event::UPDATE, f, g)); } catch(std::runtime_error const&) { thrown = true; } CHECK(thrown && d.log.empty(), "exactly the events without a meaning are refused", t); }
    for(int i = 0; i < 40; i++) { CASE(); EventSource s; std::vector<Rec*> r; std::vector<Flt*> fl; std::vector<int> reg; int n = rnd(0, 6);
        for(int j = 0; j < n; j++) { r.push_back(new Rec); s.addEventHandler(r[j]); reg.push_back(1); fl.push_back(0); if(rnd(0, 2) == 0) { fl[j] = new Flt; fl[j]->pass = rnd(0, 1); r[j]->setFilter(fl[j]); if(rnd(0, 3) == 0) { r[j]->setFilter(NULL); fl[j] = 0; } } }
        for(int j = 0; j < n; j++) if(rnd(0, 3) == 0) { s.removeEventHandler(r[j]); reg[j] = 0; }
        Event e((event::Type)rnd(event::ITEM, event::ROOT), (event::Operation)rnd(event::ADD, event::UPDATE), m, f); s.handle(e);
        for(int j = 0; j < n; j++) { bool want = reg[j] && (!fl[j] || fl[j]->pass); CHECK(r[j]->got.size() == (want ? 1u : 0u) && (!want || r[j]->got[0] == &e), "an event is handled once by every registered handler whose filter accepts it", j << " of " << n);
            if(fl[j]) { CHECK(fl[j]->asked == reg[j], "the filter is asked once", j); size_t b = r[j]->got.size(); fl[j]->direct(e); CHECK(r[j]->got.size() == b + 1 && fl[j]->asked == reg[j], "a filter can pass an event on, directly", j); } } }
}
// the net effect of the queued events equals the net effect of all events
struct State { std::map<std::string, int> items; std::set<std::string> rel; bool operator==(State const& o) const { return items == o.items && rel == o.rel; } };
static std::string key(int t, std::string const& a, std::string const& b) { std::ostringstream o; o << t << ":" << a << ":" << b; return o.str(); }
static void fold(State& s, Event const& e) {
    int v = 0; if(e.a) { v = static_cast<TLayer*>(e.a.get())->val; }
    if(e.type == event::ITEM) { if(e.operation == event::REMOVE) s.items.erase(e.id_a); else s.items[e.id_a] = v; }
    else { std::string k = key(e.type, e.id_a, e.id_b); if(e.operation == event::ADD) s.rel.insert(k); else s.rel.erase(k); } }
static void queue()
{
    for(int h = 0; h < 120 * g_scale; h++) {
        TQ q; bool async = rnd(0, 1); q.allowMultithreading(async); EventHandler& hq = q; const int N = 4; std::vector<TLayer::Ptr> it; for(int i = 0; i < N; i++) { it.push_back(new TLayer); std::ostringstream o; o << "/i" << i; it[i]->setUniqueId(o.str()); }
        State cur, mir; std::string log; std::set<std::string> all; int steps = rnd(1, 40); if(!rnd(0, 2)) for(int i = 0; i < N; i++) { cur.items[it[i]->getUniqueId()] = 0; mir.items[it[i]->getUniqueId()] = 0; }
        for(int s = 0; s < steps; s++) { CASE(); int i = rnd(0, N - 1), j = rnd(0, N - 1), t = rnd(0, 4); if(rnd(0, 1)) t = 0; std::string a = it[i]->getUniqueId(), b = it[j]->getUniqueId(); bool have; Event e(event::ITEM, event::ADD, it[i]);
            if(t == 0) { have = cur.items.count(a); e.operation = !have ? event::ADD : rnd(0, 1) ? event::UPDATE : event::REMOVE; if(e.operation != event::REMOVE) { it[i]->val = rnd(1, 1000); cur.items[a] = it[i]->val; } else cur.items.erase(a); }
            else { e.type = (event::Type)t; e.b = it[j]; std::string k = key(t, a, b); have = cur.rel.count(k); e.operation = have ? event::REMOVE : event::ADD; if(have) cur.rel.erase(k); else cur.rel.insert(k); }
            { std::ostringstream o; o << e.operation << " " << e.type << " " << a << (t ? b : "") << "; "; log += o.str(); g_ctx = log; }
            hq.receive(e);
            if(rnd(0, 5) == 0 || s + 1 == steps) { log += "flush; "; g_ctx = log; q.out.clear(); q.flush(); std::map<std::string, int> cnt;
                for(auto& e2 : q.out) { fold(mir, e2); if(e2.operation != event::UPDATE) cnt[key(e2.type, e2.id_a, e2.id_b)]++; CHECK(!e2.b, "no queued event holds on to a second item", log); CHECK((e2.type == event::ITEM && e2.operation != event::REMOVE) == bool(e2.a), "events with content keep the item or a copy of it", log);
                    if(e2.a) { CHECK(e2.a->getUniqueId() == e2.id_a, "the content carries the id of its source", log); bool same = false; for(auto& x : it) same |= x.get() == e2.a.get(); CHECK(same == !async, "copies are made exactly if asked for", log); } }
                for(auto& c : cnt) CHECK(c.second == 1, "about the same items the queue never holds two additions or removals", c.first);
                CHECK(mir == cur, "the queued events have the net effect of all events", log); q.out.clear(); q.flush(); CHECK(q.out.empty(), "flushing leaves the queue empty", log); } } }
}
// an environment fed by an event processor mirrors the original after every flush
struct Sync { Sim s; Environment dst; EventProcessor proc; Sync() : s(0, 4, 3, 3, 0), proc(&dst) { proc.allowMultithreading(true); s.env->addEventHandler(&proc); } ~Sync() { s.env->removeEventHandler(&proc); } };
static std::string idof(void* p) { return p ? static_cast<EnvironmentItem*>(p)->getUniqueId() : std::string("-"); }
static void mirror()
{
    for(int h = 0; h < 40 * g_scale; h++) { g_ctx = ""; Sync y; Sim& s = y.s;
        for(int k = 0; k < 120; k++) { long c = rnd(0, 9);
            if(c == 0) s.op_detach(); else if(c < 3) s.op_frame(); else if(c < 5) s.op_layer(); else if(c < 7) s.op_map(); else if(c < 9) { EnvironmentItem* i = s.pick(s.all); int v = rnd(1, 999); if(TLayer* l = dynamic_cast<TLayer*>(i)) l->val = v; if(TMap* m = dynamic_cast<TMap*>(i)) m->val = v; i->itemModified(); }
            if(rnd(0, 4)) continue;
            CASE(); s.L_("flush"); y.proc.flush();
            std::vector<EnvironmentItem*> v = y.dst.getItems<EnvironmentItem>(); CHECK(v.size() == s.items.size(), "the mirror has the items of the original", v.size() << " vs " << s.items.size());
            for(auto& x : s.items) { EnvironmentItem* d = y.dst.getItem(x.first).get(); CHECK(d && d->getClassName() == x.second->getClassName(), "the mirror has every item under its id", x.first); if(!d) continue; CHECK(d != x.second, "the mirror holds copies", x.first);
                if(TLayer* l = dynamic_cast<TLayer*>(x.second)) CHECK(static_cast<TLayer*>(d)->val == l->val, "the content of an item reaches the mirror", x.first); if(TMap* m = dynamic_cast<TMap*>(x.second)) CHECK(static_cast<TMap*>(d)->val == m->val, "the content of a map reaches the mirror", x.first);
                if(FrameNode* f = dynamic_cast<FrameNode*>(d)) { void* p = s.tree.count(U(x.second)) ? s.tree[U(x.second)] : 0; CHECK(idof(U(y.dst.getParent(f))) == idof(p), "the frame tree reaches the mirror", x.first); }
                if(CartesianMap* m = dynamic_cast<CartesianMap*>(d)) { void* p = s.maps.count(U(x.second)) ? s.maps[U(x.second)] : 0; CHECK(idof(U(y.dst.getFrameNode(m))) == idof(p), "the map placements reach the mirror", x.first); }
                if(Layer* l = dynamic_cast<Layer*>(d)) { std::multiset<std::string> want, got; for(auto& r : s.layers) if(r.first == U(x.second)) want.insert(idof(r.second)); for(auto r : y.dst.getParents(l)) got.insert(r->getUniqueId()); CHECK(want == got, "the layer hierarchy reaches the mirror", x.first); } } } }
}
void run_all() { delivery(); queue(); mirror(); }
