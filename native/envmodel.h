// reference model of the environment + random histories over the public interface
#ifndef ENVMODEL_H
#define ENVMODEL_H
#include "native.h"
#include <set>
#include <algorithm>
#include <envire/Core.hpp>
#include <envire/core/Event.hpp>
#include <envire/core/EventHandler.hpp>
#include <envire/core/Operator.hpp>
using namespace envire;
#define CK(bit, c, w, i) do { if(mask & (bit)) CHECK(c, w, i); } while(0)
enum { CK_TREE = 1, CK_LAYER = 2, CK_MAPS = 4, CK_OPS = 8, CK_ITEMS = 16, CK_EVENTS = 32 };
struct TLayer : public Layer { ENVIRONMENT_ITEM(TLayer) public: int val; explicit TLayer(std::string const& id = "") : Layer(id), val(0) {} };
struct TMap : public CartesianMap { ENVIRONMENT_ITEM(TMap) public: int val; explicit TMap(std::string const& id = "") : CartesianMap(id), val(0) {} int getDimension() const { return 2; } };
struct TOp : public Operator { static const std::string className; int runs; TOp(int i, int o) : Operator(i, o), runs(0) {} const std::string& getClassName() const { return className; } bool updateAll() { runs++; return true; } };
const std::string TLayer::className = "test::TLayer"; const std::string TMap::className = "test::TMap"; const std::string TOp::className = "test::TOp";
typedef std::pair<void*, void*> PP;
// the structure a listener reconstructs from notifications alone
struct Mirror : public EventHandler {
    std::set<void*> items; std::map<void*, void*> tree; std::multiset<PP> layers; std::map<void*, void*> maps; void* root; std::vector<std::string> bad; std::multiset<void*> updates; long n;
    Mirror() : root(0), n(0) {}
    void err(std::string const& s) { bad.push_back(s); }
    static void* P(EnvironmentItem* i) { return i; }
    void handle(const Event& e)
    {
        n++; void *a = P(e.a.get()), *b = P(e.b.get()); std::ostringstream o; o << e.operation << " " << e.type; std::string t = o.str();
        bool add = e.operation == event::ADD;
        if(e.operation == event::UPDATE) { if(e.type != event::ITEM || !items.count(a)) err(t + " of an item that is not announced"); updates.insert(a); return; }
        if(e.type == event::ITEM) { if(add ? !items.insert(a).second : !items.erase(a)) err(t + " without effect");
            if(!add) { if(tree.count(a) || maps.count(a)) err("item removed while still linked"); for(auto& x : tree) if(x.second == a) err("item removed while it still has children"); for(auto& x : maps) if(x.second == a) err("frame removed while it still has maps"); for(auto& x : layers) if(x.first == a || x.second == a) err("layer removed while still linked"); } }
        else if(e.type == event::ROOT) { if(add ? root != 0 : root != a) err(t + " without effect"); root = add ? a : 0; }
        else {
            if(!items.count(a) || !items.count(b)) err(t + " of a relation of unannounced items");
            if(e.type == event::FRAMENODE_TREE) { if(add ? tree.count(b) : !(tree.count(b) && tree[b] == a)) err(t + " without effect"); if(add) tree[b] = a; else tree.erase(b); }
            else if(e.type == event::FRAMENODE) { if(add ? maps.count(a) : !(maps.count(a) && maps[a] == b)) err(t + " without effect"); if(add) maps[a] = b; else maps.erase(a); }
            else if(e.type == event::LAYER_TREE) { PP p(b, a); if(add ? layers.count(p) : !layers.count(p)) err(t + " without effect"); if(add) layers.insert(p); else if(layers.count(p)) layers.erase(layers.find(p)); }
        }
    }
};
static void* U(EnvironmentItem* i) { return i; }
struct Sim {
    Environment* env; int mask; std::vector<std::string> log;
    std::vector<FrameNode*> F; std::vector<Layer*> L; std::vector<CartesianMap*> M; std::vector<Operator*> O; std::vector<EnvironmentItem::Ptr> hold; std::vector<EnvironmentItem*> all;
    std::map<Operator*, std::pair<int, int> > ar;
    // model
    std::map<std::string, EnvironmentItem*> items; std::map<void*, void*> tree, maps; std::set<PP> layers, in, out; std::multiset<void*> updates;
    std::vector<Mirror*> mir;
    Sim(int mask, int nf, int nl, int nm, int no) : mask(mask)
    {
        env = new Environment; F.push_back(env->getRootNode());
        for(int i = 0; i < nf; i++) F.push_back(new FrameNode());
        for(int i = 0; i < nm; i++) M.push_back(new TMap());
        for(int i = 0; i < nl; i++) L.push_back(new TLayer()); L.insert(L.end(), M.begin(), M.end());
        for(int i = 0; i < no; i++) { int a = i % 3, b = i % 2; Operator* o = new TOp(a, b); ar[o] = std::make_pair(a, b); O.push_back(o); }
        for(auto f : F) all.push_back(f); for(auto l : L) all.push_back(l); for(auto o : O) all.push_back(o);
        for(auto a : all) hold.push_back(a);
        items["/0"] = F[0];
    }
    ~Sim() { for(auto m : mir) if(!done.count(m)) env->removeEventHandler(m); for(auto m : mir) delete m; delete env; }
    std::set<Mirror*> done;
    std::string nm(EnvironmentItem* i) { for(size_t k = 0; k < all.size(); k++) if(all[k] == i) { std::ostringstream o; o << (k < F.size() ? "frame" : k < F.size() + L.size() ? (k < F.size() + L.size() - M.size() ? "layer" : "map") : "op") << k; return o.str(); } return "?"; }
    void L_(std::string const& s) { log.push_back(s); std::string c = ""; for(size_t i = log.size() > 24 ? log.size() - 24 : 0; i < log.size(); i++) c += log[i] + "; "; g_ctx = c; }
    bool att(EnvironmentItem* i) { for(auto& x : items) if(x.second == i) return true; return false; }
    void m_attach(EnvironmentItem* i) { if(!att(i)) { CK(CK_ITEMS, i->isAttached() && i->getEnvironment() == env, "an item used in a relation becomes part of the environment", nm(i)); CK(CK_ITEMS, !items.count(i->getUniqueId()), "a newly attached item gets an id of its own", i->getUniqueId()); items[i->getUniqueId()] = i; } }
    bool anc(void* a, void* x) { int n = 0; for(void* t = x; t && n < 100; n++) { if(t == a) return true; t = tree.count(t) ? tree[t] : 0; } return false; }
    template <class T> T* pick(std::vector<T*> const& v) { return v[rnd(0, v.size() - 1)]; }
    void m_unlink(EnvironmentItem* i)
    {
        void* p = i; tree.erase(p); for(auto it = tree.begin(); it != tree.end();) if(it->second == p) tree.erase(it++); else ++it;
        maps.erase(p); for(auto it = maps.begin(); it != maps.end();) if(it->second == p) maps.erase(it++); else ++it;
        for(auto s : { &layers, &in, &out }) for(auto it = s->begin(); it != s->end();) if(it->first == p || it->second == p) s->erase(it++); else ++it;
        for(auto it = items.begin(); it != items.end();) if(it->second == i) items.erase(it++); else ++it;
    }
    void m_deep(EnvironmentItem* i)
    {
        void* p = i; std::vector<void*> c; for(auto& x : tree) if(x.second == p) c.push_back(x.first); for(auto& x : maps) if(x.second == p) c.push_back(x.first);
        for(auto x : c) m_deep((EnvironmentItem*)x); m_unlink(i);
    }
    std::string pname(EnvironmentItem* a, EnvironmentItem* b) { return "(" + nm(a) + "," + nm(b) + ")"; }
    void op_attach() { EnvironmentItem* i = pick(all); if(att(i)) return; long k = rnd(0, 3);
        if(k == 1) { std::ostringstream o; o << "/fix/" << rnd(0, 5); i->setUniqueId(o.str()); } else if(k == 2) i->setUniqueId("grp/"); else if(k == 3) { std::ostringstream o; o << "/" << rnd(1, 12); i->setUniqueId(o.str()); } else i->setUniqueId("");
        std::string id = i->getUniqueId(); L_("attachItem(" + nm(i) + " id '" + id + "')");
        bool dup = k != 2 && id != "" && items.count(id), thrown = false;
        try { env->attachItem(i); } catch(std::runtime_error const&) { thrown = true; }
        CK(CK_ITEMS, thrown == dup, "attaching is refused exactly for an id that is in use", id);
        if(!thrown) { if(id != "" && k != 2) CK(CK_ITEMS, i->getUniqueId() == id, "a complete id is kept", id << " -> " << i->getUniqueId()); m_attach(i); } else { CK(CK_ITEMS, !i->isAttached(), "a refused item stays unattached", id); i->setUniqueId(""); } }
    void op_detach() { EnvironmentItem* i = pick(all); if(!att(i) || i == F[0]) return; bool deep = rnd(0, 2) == 0; L_("detachItem(" + nm(i) + (deep ? ",deep)" : ")"));
        EnvironmentItem::Ptr r = rnd(0, 1) && !deep ? i->detach() : env->detachItem(i, deep); CK(CK_ITEMS, r.get() == i, "detaching returns the item", nm(i)); if(deep) m_deep(i); else m_unlink(i); CK(CK_ITEMS, !i->isAttached() && !i->getEnvironment(), "a detached item is unattached", nm(i)); CK(CK_ITEMS, deep || i->getUniqueId() != "", "a detached item keeps its id", nm(i)); for(auto x : all) if(!x->isAttached()) x->setUniqueId(""); }
    void op_frame() { FrameNode *p = pick(F), *c = pick(F); if(p == c || c == F[0] || !att(p)) return; if(rnd(0, 3)) { if(anc(c, p)) return; L_("addChild" + pname(p, c)); if(rnd(0, 1)) env->addChild(p, c); else p->addChild(c); m_attach(c); tree[U(c)] = U(p); }
        else { L_("removeChild" + pname(p, c)); env->removeChild(p, c); if(tree.count(U(c)) && tree[U(c)] == U(p)) tree.erase(U(c)); } }
    void op_layer() { Layer *p = pick(L), *c = pick(L); if(p == c || !att(p)) return; PP r(U(c), U(p)); if(rnd(0, 2)) { L_("addChild" + pname(p, c)); if(rnd(0, 1)) env->addChild(p, c); else p->addChild(c); m_attach(c); layers.insert(r); }
        else { L_("removeChild" + pname(p, c)); env->removeChild(p, c); layers.erase(r); } }
    void op_map() { CartesianMap* m = pick(M); FrameNode* f = pick(F); if(rnd(0, 3)) { L_("setFrameNode" + pname(m, f)); if(rnd(0, 1) && att(m)) m->setFrameNode(f); else env->setFrameNode(m, f); m_attach(f); m_attach(m); maps[U(m)] = U(f); }
        else if(rnd(0, 2)) { L_("detachFrameNode" + pname(m, f)); env->detachFrameNode(m, f); if(maps.count(U(m)) && maps[U(m)] == U(f)) maps.erase(U(m)); }
        else if(!att(m)) { bool none = rnd(0, 1); L_("attachItem" + pname(m, f)); m->setUniqueId(""); if(!none && !att(f)) return; env->attachItem(m, none ? 0 : f); m_attach(m); maps[U(m)] = U(none ? F[0] : f); } }
    void op_op() {
        Operator* o = pick(O); Layer* l = pick(L); bool I_ = rnd(0, 1); std::set<PP>& s = I_ ? in : out; PP r(U(o), U(l)); std::string d = I_ ? "Input" : "Output"; int k = rnd(0, 9);
        size_t cnt = 0; for(auto& x : s) if(x.first == U(o)) cnt++;
        int a = I_ ? ar[o].first : ar[o].second;
        if(k < 4) { L_("add" + d + pname(o, l)); bool had = s.count(r), res = I_ ? env->addInput(o, l) : env->addOutput(o, l); CK(CK_OPS, res == !had, "connecting reports whether the connection is new", nm(o)); m_attach(o); m_attach(l); s.insert(r); }
        else if(k < 6) { L_("remove" + d + pname(o, l)); if(I_) env->removeInput(o, l); else env->removeOutput(o, l); s.erase(r); }
        else if(k == 6) { L_("remove" + d + "s(" + nm(o) + ")"); bool res = I_ ? env->removeInputs(o) : env->removeOutputs(o); (void)res; for(auto it = s.begin(); it != s.end();) if(it->first == U(o)) s.erase(it++); else ++it; }
        else if(att(o)) { bool set = k == 9; L_("op->" + std::string(set ? "set" : "add") + d + pname(o, l)); if(set) { for(auto it = s.begin(); it != s.end();) if(it->first == U(o)) s.erase(it++); else ++it; cnt = 0; }
            bool full = a && cnt >= (size_t)a, thrown = false;
            try { if(I_) set ? o->setInput(l) : o->addInput(l); else set ? o->setOutput(l) : o->addOutput(l); } catch(std::runtime_error const&) { thrown = true; }
            CK(CK_OPS, thrown == full, "an operator refuses exactly the connections beyond its arity", nm(o)); if(!thrown) { m_attach(l); s.insert(r); } } }
    void op_modified() { EnvironmentItem* i = pick(all); L_("itemModified(" + nm(i) + ")"); i->itemModified(); if(att(i)) for(auto m : mir) if(!done.count(m)) { CK(CK_EVENTS, m->updates.count(i) == 1, "a modification is reported to every handler exactly once", nm(i)); } for(auto m : mir) m->updates.clear(); }
    // every operator of the environment runs once, and its outputs are announced as modified
    void op_update() { L_("updateOperators"); std::map<Operator*, int> was; for(auto o : O) was[o] = static_cast<TOp*>(o)->runs; env->updateOperators();
        std::multiset<void*> want; for(auto o : O) { int d = static_cast<TOp*>(o)->runs - was[o]; CK(CK_OPS, d == (att(o) ? 1 : 0), "updating runs every operator of the environment once", nm(o) << " ran " << d); if(att(o)) { auto y = sel(out, U(o), true); want.insert(y.begin(), y.end()); } }
        for(auto m : mir) { if(!done.count(m)) CK(CK_OPS, m->updates == want, "updating announces every output of every operator as modified", m->updates.size() << " of " << want.size()); m->updates.clear(); } }
    void op_handler() { long live = 0; for(auto m : mir) if(!done.count(m)) live++;
        if(live < 3 && rnd(0, 1)) { L_("addEventHandler"); Mirror* m = new Mirror; mir.push_back(m); env->addEventHandler(m); }
        else for(auto m : mir) if(!done.count(m)) { L_("removeEventHandler"); env->removeEventHandler(m); done.insert(m);
            CK(CK_EVENTS, m->bad.empty(), "notifications on deregistration are consistent", (m->bad.empty() ? "" : m->bad[0])); CK(CK_EVENTS, m->items.empty() && m->tree.empty() && m->layers.empty() && m->maps.empty() && !m->root, "a deregistered handler is told about the removal of everything", m->items.size() << " " << m->tree.size() << " " << m->layers.size() << " " << m->maps.size()); m->n = 0; break; } }
    template <class T> std::multiset<void*> bag(std::list<T*> const& l) { std::multiset<void*> r; for(auto x : l) r.insert((void*)(EnvironmentItem*)const_cast<typename std::remove_const<T>::type*>(x)); return r; }
    std::multiset<void*> firsts(std::map<void*, void*> const& m, void* v) { std::multiset<void*> r; for(auto& x : m) if(x.second == v) r.insert(x.first); return r; }
    std::multiset<void*> sel(std::set<PP> const& s, void* k, bool byfirst) { std::multiset<void*> r; for(auto& x : s) if((byfirst ? x.first : x.second) == k) r.insert(byfirst ? x.second : x.first); return r; }
    void check()
    {
        CASE();
        if(mask & CK_TREE) for(auto f : F) {
            void* p = tree.count(U(f)) ? tree[U(f)] : 0;
            CHECK(U(env->getParent(f)) == p, "the parent of a frame is the last one set", nm(f)); CHECK(bag(env->getChildren(f)) == firsts(tree, U(f)), "children are exactly the frames whose parent this is", nm(f));
            if(att(f)) { const FrameNode* cf = f; CHECK(U(f->getParent()) == p && (void*)cf->getParent() == p, "a frame reports its parent", nm(f)); CHECK(f->isRoot() == !p, "a frame without parent is a root", nm(f)); CHECK(bag(f->getChildren()) == firsts(tree, U(f)), "a frame lists its children", nm(f));
                void* r = U(f); while(tree.count(r)) r = tree[r]; CHECK((void*)cf->getRoot() == r && U(f->getRoot()) == r, "getRoot follows the parents to the top", nm(f)); }
            CHECK(env->getRootNode() == F[0], "the root node stays the same", ""); }
        if(mask & CK_LAYER) for(auto l : L) {
            CHECK(bag(env->getParents(l)) == sel(layers, U(l), true), "the parents of a layer are exactly those added, once each", nm(l));
            CHECK(bag(env->getChildren(l)) == sel(layers, U(l), false), "the children of a layer are exactly those added, once each", nm(l));
            CHECK(bag(static_cast<const Environment*>(env)->getChildren(static_cast<const Layer*>(l))) == sel(layers, U(l), false), "the const children of a layer are exactly those added, once each", nm(l));
            if(att(l)) CHECK(bag(l->getParents()) == sel(layers, U(l), true), "a layer reports its parents", nm(l)); }
        if(mask & CK_MAPS) {
            for(auto m : M) { void* f = maps.count(U(m)) ? maps[U(m)] : 0; CHECK(U(env->getFrameNode(m)) == f, "a map is attached to the frame set last", nm(m)); if(att(m)) { const CartesianMap* cm = m; CHECK(U(m->getFrameNode()) == f && (void*)cm->getFrameNode() == f, "a map reports its frame", nm(m)); } }
            for(auto f : F) { CHECK(bag(env->getMaps(f)) == firsts(maps, U(f)), "the maps of a frame are exactly those attached to it", nm(f)); if(att(f)) CHECK(bag(f->getMaps()) == firsts(maps, U(f)), "a frame lists its maps", nm(f)); } }
        if(mask & CK_OPS) {
            for(auto o : O) { CHECK(bag(env->getInputs(o)) == sel(in, U(o), true), "inputs are exactly the connected layers, once each", nm(o)); CHECK(bag(env->getOutputs(o)) == sel(out, U(o), true), "outputs are exactly the connected layers, once each", nm(o)); }
            for(auto l : L) { std::multiset<void*> g = sel(out, U(l), false); Operator* r = env->getGenerator(l); CHECK(g.empty() ? r == 0 : g.count(U(r)), "the generator of a layer is an operator it is an output of", nm(l));
                if(att(l)) CHECK(l->isGenerated() == !g.empty() && l->getGenerator() == r, "a layer knows whether it is generated", nm(l));
                std::multiset<void*> want; for(auto& x : in) if(x.second == U(l)) { auto y = sel(out, x.first, true); want.insert(y.begin(), y.end()); }
                CHECK(bag(env->getLayersGeneratedFrom(l)) == want, "the layers generated from an input are the outputs of the operators it feeds", nm(l)); } }
        if(mask & CK_ITEMS) {
            std::vector<EnvironmentItem*> v = env->getItems<EnvironmentItem>(); CHECK(v.size() == items.size(), "the environment holds exactly the attached items", v.size() << " vs " << items.size());
            for(auto& x : items) { CHECK(env->getItem(x.first).get() == x.second, "an item is found under its id", x.first); CHECK(x.second->getUniqueId() == x.first, "the id of an attached item does not change", x.first << " -> " << x.second->getUniqueId()); CHECK(x.second->isAttached() && x.second->getEnvironment() == env, "attached items know their environment", x.first);
                CHECK(x.first.size() > 1 && x.first[0] == '/' && x.first[x.first.size() - 1] != '/', "ids are absolute and complete", x.first); CHECK(std::count(v.begin(), v.end(), x.second) == 1, "every attached item is listed once", x.first); }
            for(auto i : all) { if(!att(i)) CHECK(!i->isAttached() && i->getRefCount() >= 1, "detached items stay alive while referenced", nm(i)); else CHECK(i->getRefCount() == 2, "the environment holds one reference to each attached item", nm(i) << " refs " << i->getRefCount()); }
            CHECK(!env->getItem("/no/such"), "unknown ids find nothing", ""); size_t nf = 0; for(auto f : F) nf += att(f); CHECK(env->getItems<FrameNode>().size() == nf, "items are selected by type", ""); }
        if(mask & CK_EVENTS) for(auto m : mir) {
            if(done.count(m)) { CHECK(m->n == 0, "a removed handler gets no notifications", ""); continue; }
            CHECK(m->bad.empty(), "every notification describes an effective change", (m->bad.empty() ? "" : m->bad[0])); m->bad.clear();
            std::set<void*> is; for(auto& x : items) is.insert(U(x.second)); CHECK(m->items == is, "notified items mirror the environment", ""); CHECK(m->tree == tree, "notified frame tree mirrors the environment", ""); CHECK(m->maps == maps, "notified map attachments mirror the environment", "");
            std::multiset<PP> ls(layers.begin(), layers.end()); CHECK(m->layers == ls, "notified layer hierarchy mirrors the environment", ""); CHECK(m->root == U(F[0]), "the root is announced", "");
            CHECK(m->updates.empty(), "no modification is reported without one", ""); m->updates.clear(); }
    }
    // w: weights of attach, detach, frame, layer, map, op, modified, handler
    void run(int steps, std::vector<int> w)
    {
        int tot = 0; for(int x : w) tot += x;
        check();
        for(int s = 0; s < steps; s++) { int r = rnd(0, tot - 1), k = 0; while(r >= w[k]) r -= w[k++];
            switch(k) { case 0: op_attach(); break; case 1: op_detach(); break; case 2: op_frame(); break; case 3: op_layer(); break; case 4: op_map(); break; case 5: op_op(); break; case 6: if(mask & CK_OPS && rnd(0, 1)) op_update(); else op_modified(); break; case 7: op_handler(); break; }
            check(); }
    }
};
#endif
