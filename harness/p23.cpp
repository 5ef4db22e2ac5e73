#include "util.h"
#include <map>
#include <cmath>
#include "Optimize/Filter/DensityFilter.h"
#include "Optimize/Filter/HeavisideFilter.h"
#include "Optimize/Filter/SensitivityFilter.h"
using namespace PANSFEM2;
struct Graph { int n; std::vector<std::vector<int> > nb; std::vector<dvec> w; dmat A; std::string kind; };
static void finish(pbt::Src& s, pbt::Ctx& c, Graph& g) { g.A = dmat(g.n, g.n); for (int i = 0; i < g.n; i++) { if (s.coin()) { std::vector<int> p = s.permutation((int)g.nb[i].size()), b = g.nb[i]; dvec w = g.w[i]; for (size_t k = 0; k < p.size(); k++) { g.nb[i][p[k]] = b[k]; g.w[i][p[k]] = w[k]; } } double t = 0; for (double v : g.w[i]) t += v; for (size_t k = 0; k < g.nb[i].size(); k++) g.A(i, g.nb[i][k]) += g.w[i][k]/t; } c.desc << g.kind << " n=" << g.n << " neighbours"; for (int i = 0; i < g.n; i++) c.desc << " " << pbt::show(g.nb[i]) << show(g.w[i]); c.label(g.kind); }
// any: arbitrary directed neighbourhoods, cone weights on a grid as in the samples, or a symmetric matrix with equal row sums; balanced: only the last
static Graph graph(pbt::Src& s, pbt::Ctx& c, bool balanced) {
    Graph g; int k = balanced ? 3 : s.range(0, 3); if (k == 0) { g.kind = "self only"; g.n = s.range(1, 6); g.nb.resize(g.n); g.w.resize(g.n); for (int i = 0; i < g.n; i++) { g.nb[i] = {i}; g.w[i] = {s.logreal(0.1, 10)}; } }
    else if (k == 1) { g.kind = "directed"; g.n = few(s, 1, 8, 40, 20); g.nb.resize(g.n); g.w.resize(g.n); for (int i = 0; i < g.n; i++) { g.nb[i] = s.permutation(g.n); g.nb[i].resize(s.range(1, g.n)); for (size_t j = 0; j < g.nb[i].size(); j++) g.w[i].push_back(s.logreal(0.05, 20)); } }
    else if (k == 2) { g.kind = "cone"; int nx = few(s, 1, 5, 14, 20), ny = few(s, 1, 4, 14, 20); double R = s.real(0.6, 2.6); g.n = nx*ny; g.nb.resize(g.n); g.w.resize(g.n); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) { double d = std::hypot(i/ny - j/ny, i%ny - j%ny); if (d <= R) { g.nb[i].push_back(j); g.w[i].push_back((R - d)/R + (d == R ? 0.0 : 0.0)); } } }
    else { g.kind = "balanced"; g.n = few(s, 1, 8, 60, 20); std::vector<std::map<int, double> > m(g.n); int q = s.chance(1, 10) ? s.range(4, 30) : s.range(1, 3); for (int t = 0; t < q; t++) { std::vector<int> p = s.permutation(g.n); double v = s.logreal(0.1, 5); for (int i = 0; i < g.n; i++) { m[i][p[i]] += v; m[p[i]][i] += v; } } g.nb.resize(g.n); g.w.resize(g.n); for (int i = 0; i < g.n; i++) for (auto& e : m[i]) { g.nb[i].push_back(e.first); g.w[i].push_back(e.second); } }
    finish(s, c, g); return g;
}
static dvec field(pbt::Src& s, int n, double lo, double hi) { dvec v(n); bool uniform = s.chance(1, 6); for (auto& x : v) x = s.chance(1, 6) ? (s.coin() ? lo : hi) : s.real(lo, hi); if (uniform) for (auto& x : v) x = v[0]; return v; }
// sensitivities in the unit of the objective, weights in the unit of the radius
static double unit(pbt::Src& s) { return s.chance(1, 4) ? s.logreal(1e-20, 1e20) : 1.0; }
static double minof(const dvec& v) { return *std::min_element(v.begin(), v.end()); }
static double maxof(const dvec& v) { return *std::max_element(v.begin(), v.end()); }
static bool trivial(const Graph& g) { for (auto& v : g.nb) if (v.size() > 1) return false; return true; }
LAW(density, 60000, 900000, "density filter on 1..20 (at times 200) elements with arbitrary directed, cone, self-only and symmetric weights: the weighted mean of the neighbours; uniform fields kept, range kept, monotone, scaling the weights changes nothing, self-only is the identity; the filtered sensitivity is exactly the derivative of <f', filtered s>; the object is not changed by use; non-trivial when some element has a neighbour besides itself") {
    Graph g = graph(s, c, false); DensityFilter<double> f(g.n, g.nb, g.w); int before = s.range(0, 2); for (int t = 0; t < before; t++) { dvec o = field(s, g.n, -1, 2); if (s.coin()) f.GetFilteredVariables(o); else f.GetFilteredSensitivitis(o, field(s, g.n, -3, 3)); } dvec x = field(s, g.n, -1, 2), r = f.GetFilteredVariables(x); c.desc << " s=" << show(x); same(c, r, mul(g.A, x), 4, 1e-13, "filtered field"); for (double v : r) { c.atmost(minof(x) - 1e-13, v, "below the range"); c.atmost(v, maxof(x) + 1e-13, "above the range"); } if (g.kind == "self only") same(c, r, x, 1, 1e-14, "identity");
    dvec d(g.n); double U = unit(s); for (auto& v : d) v = U*s.sreal(5.0); dvec ds = f.GetFilteredSensitivitis(x, d); same(c, scale(ds, 1/U), scale(mul(tr(g.A), d), 1/U), 10, 1e-13*g.n, "filtered sensitivity"); int k = s.range(0, g.n - 1); dvec y = x; y[k] += 1; dvec r2 = f.GetFilteredVariables(y); c.near((dot(d, r2) - dot(d, r))/U, ds[k]/U, 20, 1e-12*g.n, "change of the functional"); for (int i = 0; i < g.n; i++) c.atmost(r[i] - 1e-13, r2[i], "raising a variable lowers a filtered one");
    std::vector<dvec> w2 = g.w; double q = s.coin() ? s.logreal(1e-3, 1e3) : s.logreal(1e-20, 1e20); for (auto& v : w2) v = scale(v, q); DensityFilter<double> f2(g.n, g.nb, w2); same(c, f2.GetFilteredVariables(x), r, 4, 1e-13, "scaled weights"); same(c, f.GetFilteredVariables(x), r, 1, 0, "second use"); { dvec z = x; double V = unit(s); for (auto& v : z) v *= V; same(c, scale(f.GetFilteredVariables(z), 1/V), r, 4, 1e-13, "a field in another unit"); } same(c, f.GetFilteredSensitivitis(y, d), ds, 1, 0, "sensitivity of a linear filter at another field"); c.nontrivial(!trivial(g));
}
static double proj(double b, double t) { return 0.5*(std::tanh(0.5*b) + std::tanh(b*(t - 0.5)))/std::tanh(0.5*b); }
static double dproj(double b, double t) { double h = std::tanh(b*(t - 0.5)); return 0.5*b*(1 - h*h)/std::tanh(0.5*b); }
LAW(heaviside, 60000, 900000, "Heaviside filter with steepness 0.05..300 set, changed and set back between calls (default 1): the projection of the weighted mean; keeps 0, 1/2 and 1, stays in [0,1], monotone, steeper means closer to 0 or 1; scaling the weights changes nothing; copies agree; non-trivial when some element has a neighbour besides itself") {
    Graph g = graph(s, c, false); HeavisideFilter<double> f(g.n, g.nb, g.w); double b = 1; int steps = s.range(1, 3); for (int t = 0; t < steps; t++) { if (t || s.coin()) { b = s.logreal(0.05, 300); f.UpdateBeta(b); } dvec x = field(s, g.n, 0, 1); c.desc << " beta=" << b << " s=" << show(x); if (s.chance(1, 4)) f.GetFilteredSensitivitis(field(s, g.n, 0, 1), field(s, g.n, -3, 3)); dvec m = mul(g.A, x), r = f.GetFilteredVariables(x), e(g.n); for (int i = 0; i < g.n; i++) e[i] = proj(b, m[i]); double tol = 1e-13*(1 + b); same(c, r, e, 1, tol, "filtered field"); for (double v : r) c.check(v >= -1e-13 && v <= 1 + 1e-13, "left [0,1]");
        double lo = minof(x), hi = maxof(x); for (double v : r) { c.atmost(proj(b, lo) - tol, v, "below the projected range"); c.atmost(v, proj(b, hi) + tol, "above the projected range"); } int k = s.range(0, g.n - 1); dvec y = x; y[k] = 1; dvec r2 = f.GetFilteredVariables(y); for (int i = 0; i < g.n; i++) c.atmost(r[i] - tol, r2[i], "raising a variable lowers a filtered one"); for (double u : {0.0, 0.5, 1.0}) same(c, f.GetFilteredVariables(dvec(g.n, u)), dvec(g.n, u), 1, tol, "fixed points of the projection");
        HeavisideFilter<double> h(g.n, g.nb, g.w); h.UpdateBeta(b); same(c, h.GetFilteredVariables(x), r, 1, 0, "a fresh filter with the same steepness"); std::vector<dvec> w2 = g.w; double q = s.coin() ? s.logreal(1e-3, 1e3) : s.logreal(1e-20, 1e20); for (auto& v : w2) v = scale(v, q); HeavisideFilter<double> h2(g.n, g.nb, w2); h2.UpdateBeta(b); same(c, h2.GetFilteredVariables(x), r, 1, tol, "scaled weights"); }
    c.nontrivial(!trivial(g));
}
LAW(heaviside_derivative, 60000, 900000, "Heaviside filter on symmetric weights with equal sums (1..8, at times 60 elements) and on self-only weights, any steepness 0.05..100, after 0..2 uses of the same object on other fields and steepnesses: the filtered sensitivity is the derivative of the functional of the projected field (closed form, and difference quotient); non-trivial when some element has a neighbour besides itself") {
    Graph g; if (s.chance(1, 6)) { g.kind = "self only"; g.n = s.range(1, 5); g.nb.resize(g.n); g.w.resize(g.n); for (int i = 0; i < g.n; i++) { g.nb[i] = {i}; g.w[i] = {s.logreal(0.1, 10)}; } finish(s, c, g); } else g = graph(s, c, true);
    HeavisideFilter<double> f(g.n, g.nb, g.w); double b = 1; int before = s.range(0, 2); for (int t = 0; t < before; t++) { if (s.coin()) { b = s.logreal(0.05, 100); f.UpdateBeta(b); } dvec o = field(s, g.n, 0, 1); if (s.coin()) f.GetFilteredVariables(o); if (s.coin()) f.GetFilteredSensitivitis(o, field(s, g.n, -3, 3)); } if (s.chance(3, 4)) { b = s.logreal(0.05, 100); f.UpdateBeta(b); } dvec x = field(s, g.n, 0, 1), d(g.n); c.desc << " uses before: " << before; if (s.coin()) f.GetFilteredVariables(x); double U = unit(s); for (auto& v : d) v = s.sreal(5.0); c.desc << " beta=" << b << " s=" << show(x) << " df=" << show(d); dvec m = mul(g.A, x), e(g.n); for (int i = 0; i < g.n; i++) e[i] = d[i]*dproj(b, m[i]); e = mul(tr(g.A), e); c.desc << " in units of " << U; dvec ds = scale(f.GetFilteredSensitivitis(x, scale(d, U)), 1/U); same(c, ds, e, 5*(1 + b), 1e-12*g.n, "filtered sensitivity");
    int k = s.range(0, g.n - 1); double h = 1e-4/(1 + b); dvec u = x, v = x; u[k] += h; v[k] -= h; c.near((dot(d, f.GetFilteredVariables(u)) - dot(d, f.GetFilteredVariables(v)))/(2*h), ds[k], 5*(1 + b)*g.n, 1e-6, "difference quotient"); c.nontrivial(!trivial(g));
}
LAW(sensitivity, 60000, 900000, "the two sensitivity filters on arbitrary weights and positive densities: the density-weighted means of their schemes; uniform fields kept, second scheme stays in the range of the sensitivities, scaling weights changes nothing and scaling sensitivities scales, self-only is the identity; non-trivial when some element has a neighbour besides itself") {
    Graph g = graph(s, c, false); dvec x = field(s, g.n, 0.01, 1), d(g.n); if (s.chance(1, 4)) for (auto& v : x) v = s.logreal(1e-6, 1); for (auto& v : d) v = s.sreal(5.0); if (s.chance(1, 8)) for (auto& v : d) v = d[0]; c.desc << " s=" << show(x) << " df=" << show(d); SensitivityFilter<double> f(g.n, g.nb, g.w); SensitivityFilter2<double> f2(g.n, g.nb, g.w); int before = s.range(0, 2); for (int t = 0; t < before; t++) { dvec o = field(s, g.n, 0.01, 1), e = field(s, g.n, -3, 3); f.GetFilteredSensitivitis(o, e); f2.GetFilteredSensitivitis(o, e); } dvec a(g.n, 0.0), b(g.n, 0.0), xd(g.n); for (int i = 0; i < g.n; i++) xd[i] = x[i]*d[i]; dvec m = mul(g.A, xd), w = mul(g.A, x); for (int i = 0; i < g.n; i++) { a[i] = m[i]/x[i]; b[i] = m[i]/w[i]; }
    dvec ra = f.GetFilteredSensitivitis(x, d), rb = f2.GetFilteredSensitivitis(x, d); for (int i = 0; i < g.n; i++) c.near(ra[i], a[i], 5 + 5/x[i], 1e-12, "first scheme"); same(c, rb, b, 5, 1e-11, "second scheme"); for (double v : rb) { c.atmost(minof(d) - 1e-11, v, "below the range"); c.atmost(v, maxof(d) + 1e-11, "above the range"); } if (g.kind == "self only") { same(c, ra, d, 5, 1e-12, "identity"); same(c, rb, d, 5, 1e-12, "identity"); }
    double q = s.coin() ? s.logreal(1e-3, 1e3) : s.logreal(1e-20, 1e20); std::vector<dvec> w2 = g.w; for (auto& v : w2) v = scale(v, q); SensitivityFilter<double> h(g.n, g.nb, w2); SensitivityFilter2<double> h2(g.n, g.nb, w2); for (int i = 0; i < g.n; i++) c.near(h.GetFilteredSensitivitis(x, scale(d, 2))[i], 2*ra[i], 5 + 5/x[i], 1e-11, "scaled weights, first scheme"); same(c, h2.GetFilteredSensitivitis(x, scale(d, 2)), scale(rb, 2), 10, 1e-11, "scaled weights, second scheme"); double U = unit(s), X = s.chance(1, 3) ? s.logreal(1e-8, 1e8) : 1.0; dvec ua = f.GetFilteredSensitivitis(scale(x, X), scale(d, U)); for (int i = 0; i < g.n; i++) c.near(ua[i]/U, ra[i], 5 + 5/x[i], 1e-11, "other units, first scheme"); same(c, scale(f2.GetFilteredSensitivitis(scale(x, X), scale(d, U)), 1/U), rb, 5, 1e-11, "other units, second scheme"); c.nontrivial(!trivial(g));
}
FINDING(adjoint, "HeavisideFilter::GetFilteredSensitivitis divides by the element's own weight sum instead of its neighbours': three elements in a row with cone weights, the sensitivity of the middle element is 3/4 of the derivative") {
    std::vector<std::vector<int> > nb = {{0, 1}, {0, 1, 2}, {1, 2}}; std::vector<dvec> w = {{1, 0.5}, {0.5, 1, 0.5}, {0.5, 1}}; HeavisideFilter<double> f(3, nb, w); dvec x = {0.5, 0.5, 0.5}, d = {1, 0, 1}, ds = f.GetFilteredSensitivitis(x, d), u = x, v = x; u[1] += 1e-4; v[1] -= 1e-4; c.near(ds[1], (dot(d, f.GetFilteredVariables(u)) - dot(d, f.GetFilteredVariables(v)))/2e-4, 1, 1e-6, "sensitivity of the middle element"); c.nontrivial();
}
