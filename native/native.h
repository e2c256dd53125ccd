// support of the native replay / bounded cross-check drivers (real code, concrete inputs)
#ifndef NATIVE_H
#define NATIVE_H
#include <cstdio>
#include <cstdlib>
#include <string>
#include <sstream>
#include <iostream>
#include <random>
#include <csignal>
#include <unistd.h>
#include <cmath>
static long g_cases = 0, g_fails = 0;
static std::mt19937_64 g_rng;
static int g_scale = 1;
static std::string g_ctx;
static inline long rnd(long lo, long hi) { return std::uniform_int_distribution<long>(lo, hi)(g_rng); }
static inline double rndd(double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(g_rng); }
static inline double rndn() { return std::normal_distribution<double>()(g_rng); }
#define CASE() (++g_cases)
// what: the obligation violated; expr: streamed failing input
#define CHECK(cond, what, input) do { if(!(cond)) { std::ostringstream o_; o_ << input; printf("FAIL %s | input: %s %s | at %s:%d\n", what, g_ctx.c_str(), o_.str().c_str(), __FILE__, __LINE__); fflush(stdout); if(++g_fails >= 5) { printf("CASES %ld\n", g_cases); fflush(stdout); _exit(1); } } } while(0)
static void native_sig(int s) { printf("FAIL crash: signal %d | input: %s\nCASES %ld\n", s, g_ctx.c_str(), g_cases); fflush(stdout); _exit(1); }
#include <fstream>
#include <vector>
#include <map>
// counterexample of the verifier: harness, obligation, label -> values
struct Model { std::string fn, obl; std::map<std::string, std::vector<double> > v;
    bool has(const char* k) const { return v.count(k); }
    double operator()(const char* k, size_t i = 0) const { std::map<std::string, std::vector<double> >::const_iterator it = v.find(k); return it == v.end() || i >= it->second.size() ? 0 : it->second[i]; } };
static double parse_num(std::string s) {
    if(s == "True") return 1; if(s == "False") return 0;
    size_t p = s.find('/'); if(p != std::string::npos) return atof(s.substr(0, p).c_str()) / atof(s.substr(p + 1).c_str());
    if(!s.empty() && s[s.size() - 1] == '?') s.erase(s.size() - 1);
    return atof(s.c_str()); }
#ifdef NATIVE_REPLAY
void replay(Model const& m);
#else
static void replay(Model const&) {}
#endif
void run_all();
int main(int argc, char** argv)
{
    g_rng.seed(argc > 1 ? atol(argv[1]) : 1); g_scale = argc > 2 ? atoi(argv[2]) : 1;
    signal(SIGSEGV, native_sig); signal(SIGABRT, native_sig); signal(SIGFPE, native_sig); signal(SIGBUS, native_sig); signal(SIGILL, native_sig);
    if(getenv("VC_MODEL")) {
        std::ifstream f(getenv("VC_MODEL")); std::string a, b; std::vector<Model> ms;
        while(f >> a >> b) { if(a == "MODEL") { Model m; m.fn = b; f >> m.obl; ms.push_back(m); } else if(!ms.empty()) ms.back().v[a].push_back(parse_num(b)); }
        for(size_t i = 0; i < ms.size(); i++) { try { replay(ms[i]); } catch(std::exception const& e) { printf("FAIL unexpected exception %s | input: %s\n", e.what(), g_ctx.c_str()); ++g_fails; } }
        printf("REPLAYED %zu\n", ms.size()); fflush(stdout); _exit(g_fails ? 1 : 0);
    }
    try { run_all(); }
    catch(std::exception const& e) { printf("FAIL unexpected exception %s | input: %s\n", e.what(), g_ctx.c_str()); ++g_fails; }
    printf("CASES %ld\n", g_cases); fflush(stdout);
    _exit(g_fails ? 1 : 0);
}
#endif
