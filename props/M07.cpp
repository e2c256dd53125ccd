#include <vc.h>
#include <cmath>
#include <vector>
#include <Eigen/Core>
#include <Eigen/LU>
#include <envire/tools/GaussianMixture.hpp>
using namespace envire;
typedef Gaussian<double, 2> G2; typedef Gaussian<double, 1> G1; typedef GaussianMixture<double, 2> GMM;
static bool close(double a, double b) { return a == b; }
VC_HARNESS h_stats_new() { G2::Stats s; vc_cover("new"); vc_assert(s.sum == 0 && s.Sx[0] == 0 && s.Sx[1] == 0 && s.Sxx(0, 0) == 0 && s.Sxx(0, 1) == 0 && s.Sxx(1, 0) == 0 && s.Sxx(1, 1) == 0, "no samples, no weight"); }
VC_HARNESS h_insert()
{
    G2::Stats& s = *(G2::Stats*)vc_fixed_object(1); G2::Vector v(vc_nondet_double("v0"), vc_nondet_double("v1")); double w = vc_nondet_double("w");
    double n = s.sum, a = s.Sx[0], b = s.Sx[1], aa = s.Sxx(0, 0), ab = s.Sxx(0, 1), ba = s.Sxx(1, 0), bb = s.Sxx(1, 1);
    s.insert(v, w);
    vc_cover("insert");
    vc_assert(s.sum == n + w, "the weight of a sample is counted");
    vc_assert(s.Sx[0] == a + v[0] * w && s.Sx[1] == b + v[1] * w, "a sample adds to the weighted sum");
    vc_assert(s.Sxx(0, 0) == aa + v[0] * v[0] * w && s.Sxx(1, 1) == bb + v[1] * v[1] * w, "a sample adds to the weighted squares");
    vc_assert(s.Sxx(0, 1) == ab + v[0] * v[1] * w && s.Sxx(1, 0) == ba + v[0] * v[1] * w, "a sample adds to the weighted products");
}
VC_HARNESS h_insert_one()
{
    G2::Stats& s = *(G2::Stats*)vc_fixed_object(1); G2::Vector v(vc_nondet_double("v0"), vc_nondet_double("v1")); double n = s.sum, a = s.Sx[0];
    s.insert(v);
    vc_cover("insert"); vc_assert(s.sum == n + 1 && s.Sx[0] == a + v[0], "a sample without weight counts once");
}
VC_HARNESS h_update()
{
    G2::Stats& s = *(G2::Stats*)vc_fixed_object(1); double n = s.sum; vc_assume(n > 0);
    G2 g = s.update();
    vc_cover("update");
    vc_assert(g.mean[0] * n == s.Sx[0] && g.mean[1] * n == s.Sx[1], "the mean is the weighted mean of the samples");
    vc_assert(g.cov(0, 0) == s.Sxx(0, 0) / n - g.mean[0] * g.mean[0] && g.cov(1, 1) == s.Sxx(1, 1) / n - g.mean[1] * g.mean[1], "the variances are the weighted variances of the samples");
    vc_assert(g.cov(0, 1) == s.Sxx(0, 1) / n - g.mean[0] * g.mean[1] && g.cov(1, 0) == s.Sxx(1, 0) / n - g.mean[1] * g.mean[0], "the covariances are the weighted covariances of the samples");
    vc_assert(s.sum == n, "the statistics are kept");
}
VC_HARNESS h_eval1()
{
    G1& g = *(G1*)vc_fixed_object(1); double c = g.cov(0, 0); vc_assume(c > 0); G1::Vector x; x[0] = vc_nondet_double("x"); double d = x[0] - g.mean[0];
    double r = g.eval(x);
    vc_cover("eval");
    vc_assert(r == pow(2.0 * M_PI, -0.5) / sqrt(c) * exp(-0.5 * (d * (1 / c) * d)), "the density is that of the normal distribution (1d)");
}
VC_HARNESS h_eval2()
{
    G2& g = *(G2*)vc_fixed_object(1); double a = g.cov(0, 0), b = g.cov(0, 1), c = g.cov(1, 0), e = g.cov(1, 1), det = a * e - b * c; vc_assume(a > 0 && e > 0 && b == c && det > 0);
    G2::Vector x(vc_nondet_double("x0"), vc_nondet_double("x1")); double d0 = x[0] - g.mean[0], d1 = x[1] - g.mean[1], i = 1 / det;
    double r = g.eval(x);
    vc_cover("eval");
    vc_assert(r == pow(2.0 * M_PI, -1.0) / sqrt(det) * exp(-0.5 * ((d0 * (e * i) + d1 * (-c * i)) * d0 + (d0 * (-b * i) + d1 * (a * i)) * d1)), "the density is that of the normal distribution (2d)");
}
// --- mixtures: PS is the running sum of the components in order
static GMM* M; static long N, nx; static double* PS; static double* EV; static G2::Vector* X; static double gw; static long gi;
static GMM::Parameter* P() { return M->params._M_impl._M_start; }
static void mixture()
{
    M = (GMM*)vc_fixed_object(1); GMM::Parameter* p = (GMM::Parameter*)vc_fixed_object(2); PS = (double*)vc_fixed_object(3); EV = (double*)vc_fixed_object(4);
    N = vc_nondet_long("n"); vc_assume(N >= 0 && N < 1000000); M->params._M_impl._M_start = p; M->params._M_impl._M_finish = p + N; M->params._M_impl._M_end_of_storage = p + N; nx = 0; PS[0] = 0;
}
VC_SPEC double c_eval(const G2* g, G2::Vector const& x)
{
    vc_assert(&x == X, "every component is evaluated at the point asked for"); long o = vc_offset(g); vc_assert(vc_same_object(g, P()) && o == nx * (long)sizeof(GMM::Parameter) && nx < N, "every component is evaluated once");
    double e = EV[nx]; vc_assume(PS[nx + 1] == PS[nx] + P()[nx].weight * e); nx++; return e;
}
VC_SPEC bool inv_e(double v, size_t j) { return (long)j == nx && nx <= N && v == PS[nx]; }
VC_HARNESS h_mix()
{
    mixture(); X = (G2::Vector*)vc_fixed_object(5);
    double r = M->eval(*X);
    vc_cover("mixture");
    vc_assert(nx == N, "every component counts");
    vc_assert(r == PS[N], "the density of a mixture is the weighted sum of the densities of its components");
}
VC_SPEC GMM::Parameter& c_at(std::vector<GMM::Parameter>* v, size_t n)
{
    vc_assert(v == &M->params && (long)n < N, "components are accessed within the mixture"); GMM::Parameter& p = P()[n];
    if((long)n == nx) { vc_assume(PS[nx + 1] == PS[nx] + p.weight); nx++; }
    return p;
}
static double gm, gc;
VC_SPEC bool inv_d() { return gi >= N || (P()[gi].dist.mean[0] == gm && P()[gi].dist.cov(0, 1) == gc); }
VC_SPEC bool inv_s(double sum, size_t n) { return (long)n == nx && nx <= N && sum == PS[nx] && (gi >= N || P()[gi].weight == gw); }
VC_SPEC bool inv_n(size_t n) { const double sum = PS[N]; return nx == N && (long)n >= 0 && (gi >= N || P()[gi].weight == ((long)n <= gi ? gw : sum > 1e-5 ? gw / sum : 1.0 / N)); }
VC_HARNESS h_normalize()
{
    mixture(); gi = vc_nondet_long("i"); vc_assume(gi >= 0 && gi < N); gw = P()[gi].weight; gm = P()[gi].dist.mean[0]; gc = P()[gi].dist.cov(0, 1);
    M->normalize();
    vc_cover("normalize");
    vc_assert(PS[N] <= 1e-5 || P()[gi].weight * PS[N] == gw, "normalising divides every weight by their sum");
    vc_assert(PS[N] > 1e-5 || P()[gi].weight * N == 1, "without weight all components weigh the same");
    vc_assert(P()[gi].dist.mean[0] == gm && P()[gi].dist.cov(0, 1) == gc, "normalising keeps the distributions");
    vc_assert((long)M->params.size() == N, "normalising keeps the number of components");
}
