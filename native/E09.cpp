// bounded cross-check of E09: metadata of layers, copies, flags, ids, cloning to another environment
#include "envmodel.h"
static long live = 0; static std::set<const void*> alive;
template <int N> struct V { int x; V() : x(0) { live++; alive.insert(this); } V(V const& o) : x(o.x) { live++; alive.insert(this); } ~V() { live--; alive.erase(this); } };
struct MD { int t, x; };
typedef std::map<std::string, MD> Mod;
static const char* KEYS[] = { "", "a", "b", "elevation_max", "elevation_min", "/x y", "ab" };
template <int N> static void has(Layer& l, Mod& m, std::string const& k) { CHECK(l.hasData<V<N> >(k) == (m.count(k) && m[k].t == N), "metadata is reported to have exactly the type it was created with", "key '" << k << "'"); }
template <int N> static V<N>* get(Layer& l, std::string const& k, bool& threw) { threw = false; try { return &l.getData<V<N> >(k); } catch(std::runtime_error const&) { threw = true; return NULL; } }
template <int N> static const V<N>* cget(Layer const& l, std::string const& k, bool& threw) { threw = false; try { return &l.getData<V<N> >(k); } catch(std::runtime_error const&) { threw = true; return NULL; } }
template <int N> static void val(Layer& l, Mod& m, std::string const& k)
{
    bool t; const V<N>* p = cget<N>(l, k, t); bool ex = m.count(k) && m[k].t == N;
    CHECK(t == !ex, "reading metadata of a const layer is refused exactly if there is none of that key and type", "key '" << k << "' type " << N);
    if(!t && ex) { CHECK(alive.count(p), "metadata is alive", k); CHECK(p->x == m[k].x, "metadata keeps its value", "key '" << k << "' value " << p->x << " expected " << m[k].x); }
}
static long total = 0;
static void check(Layer& l, Mod& m)
{
    for(const char* kc : KEYS) { std::string k = kc; CHECK(l.hasData(k) == (m.count(k) > 0), "metadata exists exactly for the keys it was created for", "key '" << k << "'"); has<0>(l, m, k); has<1>(l, m, k); val<0>(l, m, k); val<1>(l, m, k); }
}
static void history()
{
    const int NL = 3; TLayer* l[NL]; Mod m[NL]; bool imm[NL], dirty[NL]; long base = live; std::ostringstream log;
    for(int i = 0; i < NL; i++) { l[i] = new TLayer("l"); imm[i] = dirty[i] = false; }
    for(int s = 0; s < 60; s++) {
        int i = rnd(0, NL - 1), j = rnd(0, NL - 1), o = rnd(0, 11); std::string k = KEYS[rnd(0, 6)]; int x = rnd(1, 1000); bool t;
        CASE(); log << " " << o << "(" << i << "," << j << ",'" << k << "')"; g_ctx = log.str();
        if(o <= 4) {
            int n = rnd(0, 1); V<0>* a = 0; V<1>* b = 0; if(n) b = get<1>(*l[i], k, t); else a = get<0>(*l[i], k, t);
            bool ex = m[i].count(k), same = ex && m[i][k].t == n;
            CHECK(t == (ex && !same), "metadata of another type is refused", "key '" << k << "'");
            if(!t) { if(!ex) m[i][k] = MD{n, 0}; int& r = n ? b->x : a->x; CHECK(r == m[i][k].x, "metadata keeps its value", k); r = x; m[i][k].x = x; }
        }
        else if(o == 5) { l[i]->removeData(k); m[i].erase(k); }
        else if(o == 6 && rnd(0, 2) == 0) { l[i]->removeData(); m[i].clear(); }
        else if(o == 7) { delete l[j]; l[j] = new TLayer("l"); m[j].clear(); imm[j] = dirty[j] = false; }
        else if(o == 8 && i != j) { TLayer* c = rnd(0, 1) ? new TLayer(*l[i]) : l[i]->clone(); delete l[j]; l[j] = c; m[j] = m[i]; imm[j] = imm[i]; dirty[j] = dirty[i];
            CHECK(!c->isAttached() && c->getUniqueId() == Environment::ITEM_NOT_ATTACHED, "a copy belongs to no environment and has no id", c->getUniqueId()); }
        else if(o == 9) { if(rnd(0, 1)) *l[j] = *l[i]; else l[j]->set(l[i]); m[j] = Mod(m[i]); imm[j] = imm[i]; dirty[j] = dirty[i]; }
        else if(o == 10) { l[i]->setImmutable(); imm[i] = true; }
        else if(o == 11) { if(rnd(0, 1)) l[i]->setDirty(), dirty[i] = true; else l[i]->resetDirty(), dirty[i] = false; }
        long n = 0; for(int q = 0; q < NL; q++) { check(*l[q], m[q]); n += m[q].size(); CHECK(l[q]->isImmutable() == imm[q], "a layer is immutable exactly if it or its origin was made so", ""); CHECK(l[q]->isDirty() == dirty[q], "a layer is dirty exactly if it was made so", ""); }
        CHECK(live - base == n, "exactly the metadata held by layers is alive", live - base << " objects, " << n << " expected");
    }
    for(int i = 0; i < NL; i++) delete l[i];
    CHECK(live == base, "deleting a layer deletes its metadata", live - base);
}
static void ids()
{
    const char* al[] = { "/", "a", "b", "7", "12", "/x", "_" };
    for(int c = 0; c < 400 * g_scale; c++) {
        CASE(); std::string id; int n = rnd(0, 6); for(int i = 0; i < n; i++) id += al[rnd(0, 6)];
        g_ctx = "id '" + id + "'"; TLayer l(id);
        CHECK(l.getUniqueId() == id, "an item keeps its id", l.getUniqueId());
        std::string p = l.getUniqueIdPrefix(), s = l.getUniqueIdSuffix(); size_t q = id.rfind('/');
        CHECK(s == (q == std::string::npos ? id : id.substr(q + 1)), "the suffix of an id is what follows the last slash", s);
        CHECK(p == (q == std::string::npos ? "" : id.substr(0, q)), "the prefix of an id is what precedes the last slash", p);
        bool num = !s.empty() && s.find_first_not_of("0123456789") == std::string::npos; bool threw = false; long v = 0; try { v = l.getUniqueIdNumericalSuffix(); } catch(std::exception const&) { threw = true; }
        if(num) CHECK(!threw && v == atol(s.c_str()), "the numerical suffix is the suffix as a number", v); else CHECK(threw, "a suffix that is no number has no numerical value", s);
        std::string f = l.getMapFileName(), e = id; for(char& ch : e) if(ch == '/') ch = '_';
        CHECK(f == "test::TLayer" + e, "the file name of a layer is its class and id without slashes", f);
        CHECK(l.getMapFileName("other") == "other" + e, "the file name of a layer can be made for another class", l.getMapFileName("other"));
        CHECK(l.getMapFileName("/tmp/scene", "other") == "/tmp/scene/other" + e, "the file name of a layer lies in the path", l.getMapFileName("/tmp/scene", "other"));
    }
}
static void cloneto()
{
    for(int c = 0; c < 60 * g_scale; c++) {
        CASE(); Environment a, b; int d = rnd(0, 4); std::vector<FrameNode*> st; FrameNode* f = a.getRootNode(); std::ostringstream o; o << "cloneTo from depth " << d; g_ctx = o.str();
        for(int i = 0; i < d; i++) { Transform t; t = Eigen::Translation3d(rndd(-3, 3), rndd(-3, 3), rndd(-3, 3)) * Eigen::AngleAxisd(rndd(-2, 2), Eigen::Vector3d::UnitZ()); FrameNode* n = new FrameNode(t); f->addChild(n); if(rnd(0, 1)) { FrameNode* x = new FrameNode(); f->addChild(x); } st.push_back(n); f = n; }
        TMap* m = new TMap(); a.attachItem(m); m->setFrameNode(f); m->val = 5; m->getData<V<0> >("k").x = 9;
        size_t an = a.items.size(), bn = b.items.size();
        m->cloneTo(b);
        CHECK(a.items.size() == an, "cloning a map to another environment leaves the original", "");
        CHECK(b.items.size() == bn + d + 1, "a cloned map brings its frames", b.items.size() << " items");
        std::vector<TMap*> ms = b.getItems<TMap>(); CHECK(ms.size() == 1, "a cloned map is in the other environment once", ms.size()); if(ms.size() != 1) continue;
        TMap* k = ms[0]; CHECK(k != m && m->getEnvironment() == &a && k->getEnvironment() == &b && m->getFrameNode() == f, "the original stays where it was", "");
        CHECK(k->val == 5 && k->hasData("k") && k->getData<V<0> >("k").x == 9, "a cloned map has the content of the original", "");
        if(k->hasData("k")) { k->getData<V<0> >("k").x = 1; CHECK(m->getData<V<0> >("k").x == 9, "metadata of a clone is independent", ""); }
        FrameNode* g = k->getFrameNode(); int i = d; for(; g && i > 0 && g != b.getRootNode(); i--) { CHECK(g != st[i - 1] && (g->getTransform().matrix() - st[i - 1]->getTransform().matrix()).norm() < 1e-12, "a cloned map sits below frames with the transforms of the original", "level " << i); g = g->getParent(); }
        CHECK(i == 0 && g == b.getRootNode(), "a cloned map sits as deep as the original", i);
    }
}
void run_all() { for(int i = 0; i < 150 * g_scale; i++) history(); g_ctx = ""; ids(); cloneto(); }
