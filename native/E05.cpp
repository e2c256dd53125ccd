#include "envmodel.h"
static void ids()
{
    CASE(); Environment& env = *new Environment(); std::set<std::string> ids; g_ctx = "generated ids"; std::string pre = rnd(0, 1) ? "/" : "/x/"; if(pre != "/") env.setEnvironmentPrefix("x"); ids.insert(env.getRootNode()->getUniqueId());
    for(int i = rnd(1, 12); i > 0; i--) { std::ostringstream s; s << pre << rnd(1, 12); if(ids.insert(s.str()).second) env.attachItem(new TLayer(s.str())); }
    for(int i = 0; i < 10; i++) { TLayer* l = new TLayer(rnd(0, 2) ? "" : pre); bool threw = false; try { env.attachItem(l); } catch(std::exception const&) { threw = true; }
        CHECK(!threw, "an item without a complete id is always accepted", i); if(threw) break;
        CHECK(ids.insert(l->getUniqueId()).second && env.getItem(l->getUniqueId()).get() == l, "a generated id was not in use", l->getUniqueId()); }
    delete &env;
}
static void given()
{
    CASE(); g_ctx = "given ids"; Environment& env = *new Environment(); std::string pre = "/"; std::map<std::string, EnvironmentItem*> at; at[env.getRootNode()->getUniqueId()] = env.getRootNode();
    static const char* P[] = { "", "x", "/x", "x/y/", "/abc/", "/" };
    for(int i = 0; i < 12; i++) {
        if(!rnd(0, 3)) { std::string p = P[rnd(1, 5)]; env.setEnvironmentPrefix(p); pre = p[0] == '/' ? p : "/" + p; if(pre[pre.size() - 1] != '/') pre += "/"; CHECK(env.getEnvironmentPrefix() == pre, "the prefix of the environment is absolute and ends in a slash", p << " -> " << env.getEnvironmentPrefix()); }
        std::ostringstream n; n << rnd(1, 30); std::string dir = rnd(0, 1) ? "" : rnd(0, 1) ? "d/" : "/q/r/", last = rnd(0, 3) ? n.str() : rnd(0, 1) ? "name" : "", id = dir + last, full = (id.empty() || id[0] != '/') ? pre + id : id;
        TLayer* l = new TLayer(id); EnvironmentItem::Ptr hold = l; bool threw = false; try { env.attachItem(l); } catch(std::exception const&) { threw = true; }
        if(!last.empty()) CHECK(threw == (at.count(full) > 0), "an id in use is refused, any other is accepted", id);
        else CHECK(!threw, "an incomplete id is always accepted", id);
        if(threw) { CHECK(env.getItem(full).get() == at[full], "the item that has the id keeps it", id); continue; }
        std::string u = l->getUniqueId(); at[u] = l;
        if(!last.empty()) CHECK(u == full, "a relative id is completed with the prefix of the environment, an absolute one is kept", id << " -> " << u);
        else CHECK(u.size() > full.size() && u.substr(0, full.size()) == full && u.find_first_not_of("0123456789", full.size()) == std::string::npos, "an incomplete id is completed with a number", id << " -> " << u);
        size_t k = u.rfind('/'); CHECK(l->getUniqueIdPrefix() == u.substr(0, k) && l->getUniqueIdSuffix() == u.substr(k + 1), "prefix and suffix split the id at its last slash", u << " -> " << l->getUniqueIdPrefix() << " " << l->getUniqueIdSuffix());
        if(last != "name") CHECK(l->getUniqueIdNumericalSuffix() == std::atol(u.substr(k + 1).c_str()), "the number of an id", u);
        for(auto& x : at) CHECK(env.getItem(x.first).get() == x.second, "an item is found under its id", x.first);
    }
    delete &env;
}
void run_all() { for(int i = 0; i < 300 * g_scale; i++) given(); for(int i = 0; i < 300 * g_scale; i++) ids(); for(int h = 0; h < 60 * g_scale; h++) { g_ctx = ""; Sim s(CK_ITEMS, 4, 3, 3, 3); s.run(120, { 6, 6, 4, 4, 4, 4, 1, 1 }); } }
