#include "native.h"
#include <Eigen/Core>
#include <Eigen/LU>
#include <Eigen/StdVector>
#include <envire/tools/ExpectationMaximization.hpp>
using namespace envire;
static bool near(double a, double b, double s = 1) { return std::fabs(a - b) <= 1e-7 * (s + std::fabs(a) + std::fabs(b)); }
template <int D> struct T {
    typedef Gaussian<double, D> G; typedef GaussianMixture<double, D> GM; typedef typename G::Vector V; typedef typename G::Matrix M;
    static V point(double r) { V v; for(int i = 0; i < D; i++) v[i] = rndd(-r, r); return v; }
    static M spd() { M a; for(int i = 0; i < D; i++) for(int j = 0; j < D; j++) a(i, j) = rndd(-1, 1); M c = a * a.transpose(); for(int i = 0; i < D; i++) c(i, i) += rndd(0.1, 2); return c; }
    static double density(V const& m, M const& c, V const& x) { // by elimination, independently of Eigen's inverse
        double a[D][D + 1], det = 1; for(int i = 0; i < D; i++) { for(int j = 0; j < D; j++) a[i][j] = c(i, j); a[i][D] = x[i] - m[i]; }
        double q = 0; for(int k = 0; k < D; k++) { det *= a[k][k]; q += a[k][D] * a[k][D] / a[k][k]; for(int i = k + 1; i < D; i++) { double f = a[i][k] / a[k][k]; for(int j = k; j <= D; j++) a[i][j] -= f * a[k][j]; } }
        return std::exp(-0.5 * q) / std::sqrt(std::pow(2 * M_PI, D) * det); }
    static GM mixture(int k) { GM g; for(int j = 0; j < k; j++) g.params.push_back(typename GM::Parameter(rndd(0, 3), point(4), spd())); return g; }
    static void stats()
    {
        CASE(); typename G::Stats s; int n = rnd(1, 12); std::vector<V> x; std::vector<double> w; bool unit = rnd(0, 1); V mean = V::Zero(); double sw = 0;
        for(int i = 0; i < n; i++) { x.push_back(point(5)); w.push_back(unit ? 1 : rndd(0.1, 3)); if(unit) s.insert(x[i]); else s.insert(x[i], w[i]); sw += w[i]; for(int d = 0; d < D; d++) mean[d] += w[i] * x[i][d]; }
        G g = s.update(); for(int d = 0; d < D; d++) mean[d] /= sw;
        for(int d = 0; d < D; d++) { CHECK(near(g.mean[d], mean[d]), "the mean is the weighted mean of the samples", D << "d " << n); for(int e = 0; e < D; e++) { double c = 0; for(int i = 0; i < n; i++) c += w[i] * (x[i][d] - mean[d]) * (x[i][e] - mean[e]); CHECK(near(g.cov(d, e), c / sw, 20), "the covariance is the weighted covariance of the samples", D << "d " << n << " samples: " << g.cov(d, e) << " instead of " << c / sw); } }
        G h(mean, spd()); V y = point(5); double want = density(h.mean, h.cov, y); CHECK(std::fabs(h.eval(y) - want) <= 1e-7 * want + 1e-300, "the density is that of the normal distribution", D << "d: " << h.eval(y) << " instead of " << want);
    }
    static void mix()
    {
        CASE(); GM g = mixture(rnd(0, 5)); V y = point(5); double want = 0, sum = 0; for(auto& p : g.params) { want += p.weight * density(p.dist.mean, p.dist.cov, y); sum += p.weight; }
        CHECK(near(g.eval(y), want, 1e-12), "the density of a mixture is the weighted sum of the densities of its components", D << "d: " << g.eval(y) << " instead of " << want);
        if(rnd(0, 4) == 0) { for(auto& p : g.params) p.weight = rnd(0, 1) * 1e-7; sum = 0; for(auto& p : g.params) sum += p.weight; }
        if(rnd(0, 2) == 0) { double f = std::pow(10., rnd(-6, 3)); sum = 0; for(auto& p : g.params) { p.weight *= f; sum += p.weight; } if(std::fabs(sum - 1e-5) < 1e-8) return; } GM o = g; g.normalize(); double t = 0; CHECK(g.params.size() == o.params.size(), "normalising keeps the components", "");
        for(size_t i = 0; i < g.params.size(); i++) { t += g.params[i].weight; CHECK(near(g.params[i].weight, sum > 1e-5 ? o.params[i].weight / sum : 1. / o.params.size()), "normalising divides every weight by their sum", i); CHECK(g.params[i].dist.mean == o.params[i].dist.mean && g.params[i].dist.cov == o.params[i].dist.cov, "normalising keeps the distributions", i); }
        CHECK(g.params.empty() || near(t, 1), "normalised weights sum to one", t);
    }
    static void em()
    {
        CASE(); ExpectationMaximization<GM> e; int n = rnd(20, 60), k = rnd(1, 3); std::vector<V> x; std::vector<double> w; bool wt = rnd(0, 1); GM src = mixture(k);
        for(int i = 0; i < n; i++) { V c = src.params[rnd(0, k - 1)].dist.mean; for(int d = 0; d < D; d++) c[d] += rndn(); x.push_back(c); if(wt) w.push_back(rndd(0.2, 2)); }
        std::ostringstream ctx; ctx << D << "d, " << n << " samples, " << k << " classes" << (wt ? ", weighted" : ""); g_ctx = ctx.str();
        KMeans<GM> km; km.initialize(k, x, w); km.run(); std::vector<G> cl = km.getClusters(); CHECK((int)cl.size() == k, "one cluster per class", cl.size());
        std::vector<typename G::Stats> st(k); bool full = true;
        std::vector<double> cnt(k, 0);
        for(int i = 0; i < n; i++) cnt[km.index[i]]++;
        for(int j = 0; j < k; j++) full = full && cnt[j] > 0;
        if(full) for(int i = 0; i < n; i++) { double own = 0, best = 1e300; for(int j = 0; j < k; j++) { double q = 0; for(int d = 0; d < D; d++) q += (x[i][d] - cl[j].mean[d]) * (x[i][d] - cl[j].mean[d]); if(j == km.index[i]) own = q; if(q < best) best = q; } if(cnt[km.index[i]] > 1 || k == 1) CHECK(own <= best + 1e-6 * (1 + best), "a sample belongs to the class with the closest mean", i << ": " << own << " " << best); }
        e.initialize(k, x, w); CHECK((int)e.gmm.params.size() == k, "one component per class", ""); double tw = 0; for(auto& p : e.gmm.params) { tw += p.weight; CHECK(near(p.weight, 1. / k), "all classes weigh the same at first", p.weight); }
        CHECK(near(tw, 1), "the weights sum to one", tw);
        double last = 0; bool have = false;
        for(int s = 0; s < 6; s++) {
            GM o = e.gmm; bool sane = true; for(auto& p : o.params) { double det = Eigen::Matrix<double, D, D>(p.dist.cov).determinant(); sane = sane && det > 1e-6 && det < 1e12; } if(!sane || (int)o.params.size() != k) return;
            double ll = e.step(), want = 0; if((int)e.gmm.params.size() != k) return;
            std::vector<std::vector<double> > r(n, std::vector<double>(k)); double sw = 0;
            for(int i = 0; i < n; i++) { double sum = 0; for(int j = 0; j < k; j++) sum += r[i][j] = o.params[j].weight * density(o.params[j].dist.mean, o.params[j].dist.cov, x[i]); want += std::log(sum); for(int j = 0; j < k; j++) r[i][j] *= (wt ? w[i] : 1) / sum; sw += wt ? w[i] : 1; }
            CHECK(near(ll, want / n), "a step returns the mean log likelihood of the samples", ll << " instead of " << want / n);
            if(have && !wt) CHECK(ll >= last - 1e-7 * (1 + std::fabs(last)), "a step never makes the samples less likely", last << " -> " << ll); last = ll; have = true;
            double t = 0; for(int j = 0; j < k; j++) { double nj = 0; V m = V::Zero(); for(int i = 0; i < n; i++) { nj += r[i][j]; m += r[i][j] * x[i]; } m /= nj; typename GM::Parameter& p = e.gmm.params[j]; t += p.weight; CHECK(near(p.weight, nj / sw), "the weight of a component is its share of the samples", j << ": " << p.weight << " instead of " << nj / sw);
                for(int d = 0; d < D; d++) { CHECK(near(p.dist.mean[d], m[d]), "the mean of a component is that of its share", j); for(int f = 0; f < D; f++) { double c = 0; for(int i = 0; i < n; i++) c += r[i][j] * (x[i][d] - m[d]) * (x[i][f] - m[f]); CHECK(near(p.dist.cov(d, f), c / nj, 10), "the covariance of a component is that of its share", j); } } }
            CHECK(near(t, 1), "the weights sum to one", t); }
        e.initialize(k, x, w); CHECK((int)e.gmm.params.size() == k, "one component per class", "initialised again"); size_t it = rnd(1, 5); ExpectationMaximization<GM> b(e); e.run(-1, it); for(size_t i = 0; i < it; i++) b.step(); CHECK(e.gmm.params.size() == b.gmm.params.size(), "a run takes as many steps as allowed", it); for(size_t j = 0; j < b.gmm.params.size(); j++) CHECK(!(b.gmm.params[j].weight == b.gmm.params[j].weight) || near(e.gmm.params[j].weight, b.gmm.params[j].weight), "a run takes as many steps as allowed", it);
    }
    static void sampling()
    {
        CASE(); GM g = mixture(rnd(1, 3)); g.normalize(); GaussianMixtureSampling<GM> s(g, 1 + rnd(0, 1000)); V m = V::Zero(), want = V::Zero(); M c = M::Zero(), wc = M::Zero(); const int n = 4000;
        for(auto& p : g.params) { want += p.weight * p.dist.mean; wc += p.weight * (p.dist.cov + p.dist.mean * p.dist.mean.transpose()); }
        for(int i = 0; i < n; i++) { V x = s.sample(); m += x / n; c += x * x.transpose() / n; }
        for(int d = 0; d < D; d++) { double sd = std::sqrt(wc(d, d) / n); CHECK(std::fabs(m[d] - want[d]) < 7 * sd, "samples follow the mixture (mean)", D << "d " << m[d] << " instead of " << want[d]); CHECK(std::fabs(c(d, d) - wc(d, d)) < 0.25 * wc(d, d), "samples follow the mixture (variance)", D << "d " << c(d, d) << " instead of " << wc(d, d)); }
    }
    static void all() { for(int i = 0; i < 1000 * g_scale; i++) { g_ctx = ""; stats(); mix(); } for(int i = 0; i < 200 * g_scale; i++) em(); g_ctx = ""; for(int i = 0; i < 10; i++) sampling(); }
};
void run_all() { T<1>::all(); T<2>::all(); T<3>::all(); T<4>::all(); }
