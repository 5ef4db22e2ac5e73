#include "util.h"
#include <cmath>
#include <iostream>
#include <algorithm>
#include "Optimize/Solver/OC.h"
using namespace PANSFEM2;
struct Problem { int n; dvec x, df, w, q; double limit, f, iota, move, lmin, lmax, leps; double g(const dvec& v) const { double r = -limit; for (int i = 0; i < n; i++) r += w[i]*v[i] + q[i]*v[i]*v[i]; return r; } dvec dg() const { dvec r(n); for (int i = 0; i < n; i++) r[i] = w[i] + 2*q[i]*x[i]; return r; } };
// the update as a function of the multiplier
static dvec model(const Problem& p, double l) { dvec y(p.n), dg = p.dg(); for (int i = 0; i < p.n; i++) { double lo = std::max(0.0, (1 - p.move)*p.x[i]), hi = std::min(1.0, (1 + p.move)*p.x[i]), v = p.df[i] == 0 || p.x[i] == 0 ? 0.0 : std::pow(-p.df[i]/(dg[i]*l), p.iota)*p.x[i]; y[i] = std::min(hi, std::max(lo, v)); } return y; }
static Problem gen(pbt::Src& s, pbt::Ctx& c) {
    Problem p; p.n = few(s, 1, 8, 80, 20); bool same = s.chance(1, 4); for (int i = 0; i < p.n; i++) { p.x.push_back(s.chance(1, 6) ? 1.0 : s.chance(1, 12) ? 0.0 : s.chance(1, 8) ? s.logreal(1e-8, 2e-2) : s.real(0.02, 1.0)); p.df.push_back(s.chance(1, 12) ? 0.0 : same ? -2.0 : -s.logreal(1e-3, 1e3)); p.w.push_back(s.chance(1, 2) ? 1.0 : s.logreal(0.05, 20)); p.q.push_back(0.0); } if (s.chance(1, 3)) for (auto& v : p.q) v = s.real(0.0, 2.0);
    p.iota = s.pick(std::vector<double>{0.5, 0.5, 0.3, 0.75, 1.0}); p.move = s.pick(std::vector<double>{0.15, 0.5, 0.05, 0.2, 0.9}); bool zero = false; for (int i = 0; i < p.n; i++) zero = zero || p.df[i] == 0 || p.x[i] == 0; p.lmin = !zero && s.coin() ? 0.0 : 1e-7; p.lmax = s.pick(std::vector<double>{1e4, 1e6, 1e9}); p.leps = s.pick(std::vector<double>{1e-3, 1e-6, 1e-9}); p.f = s.sreal(5.0);
    double u = s.chance(1, 4) ? s.logreal(1e-15, 1e15) : 1.0, v = s.chance(1, 4) ? s.logreal(1e-15, 1e15) : 1.0; p.f *= u; for (int i = 0; i < p.n; i++) { p.df[i] *= u; p.w[i] *= v; p.q[i] *= v; } p.lmin *= u/v; p.lmax *= u/v;   // the objective and the resource in other units
    p.limit = 0; dvec lo = model(p, 1e300), hi = model(p, 1e-300); double a = p.g(lo), b = p.g(hi); p.limit = a + (b - a)*s.real(0.0, 1.0); int k = s.range(0, 9); if (k == 8) p.limit = a - 0.3*(std::fabs(a) + 0.1*v); if (k == 9) p.limit = b + 0.3*(std::fabs(b) + 0.1*v); if (k < 3) { p.limit = p.g(p.x) + p.limit*0; double v = 0; for (int i = 0; i < p.n; i++) v += p.w[i]*p.x[i] + p.q[i]*p.x[i]*p.x[i]; p.limit = v; }
    c.desc << "x=" << show(p.x) << " df=" << show(p.df) << " w=" << show(p.w) << " q=" << show(p.q) << " limit=" << p.limit << " iota=" << p.iota << " move=" << p.move << " lambda " << p.lmin << ".." << p.lmax << " eps=" << p.leps; return p;
}
static double multiplier(const Problem& p) { double a = std::max(p.lmin, 1e-280), b = p.lmax; if (p.g(model(p, a)) <= 0) return a; if (p.g(model(p, b)) > 0) return b; for (int t = 0; t < 400; t++) { double m = std::sqrt(a)*std::sqrt(b); (p.g(model(p, m)) > 0 ? a : b) = m; } return b; }
static OC<double> make(const Problem& p) { return OC<double>(p.n, p.iota, p.lmin, p.lmax, p.leps, p.move, dvec(p.n, 0.0), dvec(p.n, 1.0)); }
static dvec step(OC<double>& o, const Problem& p) { dvec y = p.x; o.UpdateVariables(y, p.f, p.df, p.g(p.x), p.dg(), [&](dvec v) { return p.g(v); }); return y; }
static void judge(pbt::Ctx& c, const Problem& p, const dvec& y) {
    c.check((int)y.size() == p.n, "number of variables"); double l = multiplier(p), e = 3*p.leps; dvec up = model(p, l*(1 - e)), dn = model(p, l*(1 + e));
    for (int i = 0; i < p.n; i++) { std::string w = "variable " + std::to_string(i); c.check(std::isfinite(y[i]), w + " is not a number"); c.check(y[i] >= 0 && y[i] <= 1, w + " left the unit interval"); c.atmost((1 - p.move)*p.x[i] - 1e-15, y[i], w + " below its move limit"); c.atmost(y[i], (1 + p.move)*p.x[i] + 1e-15, w + " above its move limit"); c.atmost(y[i], up[i] + 1e-12, w + " larger than at any multiplier within the bisection accuracy"); c.atmost(dn[i] - 1e-12, y[i], w + " smaller than at any multiplier within the bisection accuracy"); }
    double gs = std::fabs(p.limit); for (int i = 0; i < p.n; i++) gs += p.w[i] + p.q[i]; if (p.g(model(p, 1e300)) <= 0 && l < p.lmax && l > std::max(p.lmin, 1e-280)*1.0001) { c.atmost(p.g(y), p.g(up) + 1e-12*gs, "resource constraint violated beyond the bisection accuracy"); c.atmost(p.g(dn) - 1e-12*gs, p.g(y), "resource not used up"); }
    dvec dg = p.dg(); for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) if (i != j && p.x[i] > 0 && p.x[j] > 0 && -p.df[i]/dg[i] >= -p.df[j]/dg[j] && y[i] < 1) c.atmost(y[j]/p.x[j], y[i]/p.x[i] + 1e-12, "a less efficient variable grows more");
}
LAW(update, 60000, 900000, "one update of 1..8 (at times 80) variables in [0,1] (at bounds, zero, tiny, equal), sensitivities over six decades (also zero and equal), objective and resource in units from 1e-15 to 1e15, linear or convex quadratic resource, exponent, move limit, multiplier range and accuracy varied; resource attainable, slack or out of reach: the result is the clamped optimality-criteria formula at the multiplier that meets the resource, to the bisection accuracy; stays in [0,1] and in the move limits; more efficient variables grow at least as much; non-trivial for two variables or more") {
    Problem p = gen(s, c); OC<double> o = make(p); dvec y = step(o, p); judge(c, p, y); c.nontrivial(p.n >= 2); bool moved = false; for (int i = 0; i < p.n; i++) moved = moved || std::fabs(y[i] - p.x[i]) > 1e-9; c.label(moved ? "moves" : "stays");
    if (s.chance(1, 3)) { std::vector<int> q = s.permutation(p.n); Problem r = p; for (int i = 0; i < p.n; i++) { r.x[q[i]] = p.x[i]; r.df[q[i]] = p.df[i]; r.w[q[i]] = p.w[i]; r.q[q[i]] = p.q[i]; } OC<double> o2 = make(r); judge(c, r, step(o2, r)); }
}
LAW(history, 15000, 200000, "one optimiser object used for 2..8 updates of unrelated problems (objective values of any sign and magnitude): every update is what a fresh object gives, and convergence is reported exactly when the objective differs from the one of the previous update by less than the relative tolerance; always non-trivial") {
    Problem p = gen(s, c); OC<double> o = make(p); double prev = 0, older = 0, U = 0; for (double d : p.df) U = std::max(U, std::fabs(d)); int steps = s.range(2, 8); for (int k = 0; k < steps; k++) {
        int trials = s.range(0, 3); for (int t = 0; t < trials; t++) { double f = s.chance(1, 5) && older != 0 ? older : s.chance(1, 3) ? s.sreal(1e3)*(prev == 0 ? 1.0 : std::fabs(prev)) : prev*(1 + s.pick(std::vector<double>{0, 1e-6, -1e-6, 1.5e-5, -1.5e-5, 1.9e-5, -1.9e-5, 2.1e-5, -2.1e-5, 2.5e-5, -2.5e-5, 1e-4, -1e-4, 0.1})); double sum = std::fabs(f + prev), r = std::fabs(f - prev)/sum; if (!(sum > 1e-12*std::fabs(prev)) || std::fabs(r - 1e-5) < 1e-9) continue; c.desc << "; converged " << prev << " -> " << f; c.check(o.IsConvergence(f) == (r < 1e-5), r < 1e-5 ? "convergence not reported" : "convergence reported although the objective still changes"); }
        older = prev; Problem q = p; q.f = prev = s.chance(1, 8) ? p.f : s.chance(1, 10) ? 0.0 : s.nonzero(s.pick(std::vector<double>{1, 100, 1e5, 1e-3, 1e-15, 1e15})); for (auto& v : q.df) if (v != 0) v = -U*s.logreal(1e-3, 1e3); if (k) for (auto& v : q.x) if (v != 0) v = s.real(0.05, 1.0); dvec y = step(o, q); judge(c, q, y); OC<double> fresh = make(q); same(c, y, step(fresh, q), 1, 1e-14, "update by a used object"); if (q.f == 0) prev = 0; }
    c.nontrivial();
}
LAW(optimum, 1500, 25000, "minimise sum c_i/x_i under sum w_i x_i <= V on [0,1] from a random start by 300 updates: reaches the exact optimum (closed form), never leaves the bounds, satisfies the resource; non-trivial with two variables or more") {
    int n = s.range(1, 6); Problem p; p.n = n; dvec cc(n); for (int i = 0; i < n; i++) { cc[i] = s.logreal(0.05, 20); p.w.push_back(s.logreal(0.2, 5)); p.q.push_back(0); p.x.push_back(s.real(0.1, 1.0)); } double W = 0; for (double v : p.w) W += v; p.limit = W*s.real(0.1, 0.9); p.iota = 0.5; p.move = s.pick(std::vector<double>{0.15, 0.2, 0.5}); p.lmin = s.coin() ? 0.0 : 1e-9; p.lmax = 1e9; p.leps = 1e-10; p.f = 1; c.desc << "c=" << show(cc) << " w=" << show(p.w) << " V=" << p.limit << " x0=" << show(p.x) << " move=" << p.move; p.df.resize(n);
    OC<double> o = make(p); for (int k = 0; k < 300; k++) { p.f = 0; for (int i = 0; i < n; i++) { p.f += cc[i]/p.x[i]; p.df[i] = -cc[i]/(p.x[i]*p.x[i]); } p.x = step(o, p); for (double v : p.x) c.check(v > 0 && v <= 1, "outside the bounds"); }
    double a = 1e-12, b = 1e12; auto sol = [&](double l) { dvec y(n); for (int i = 0; i < n; i++) y[i] = std::min(1.0, std::sqrt(cc[i]/(p.w[i]*l))); return y; }; for (int t = 0; t < 300; t++) { double m = std::sqrt(a*b); double v = dot(sol(m), p.w); (v > p.limit ? a : b) = m; } dvec e = sol(b); same(c, p.x, e, 1, 1e-5, "optimum"); c.atmost(dot(p.x, p.w), p.limit*(1 + 1e-8), "resource"); c.nontrivial(n >= 2);
}
FINDING(bounds, "OC takes xmin and xmax but clamps to [0,1] instead: with xmin = 0.4 a variable is moved to 0.25") {
    Problem p; p.n = 2; p.x = {0.5, 0.5}; p.df = {-1e-6, -1.0}; p.w = {1, 1}; p.q = {0, 0}; p.limit = 1.0; p.iota = 0.5; p.move = 0.5; p.lmin = 0; p.lmax = 1e4; p.leps = 1e-6; p.f = 1; OC<double> o(2, p.iota, p.lmin, p.lmax, p.leps, p.move, dvec(2, 0.4), dvec(2, 1.0)); dvec y = step(o, p); c.desc << "x=" << show(y); for (double v : y) c.check(v >= 0.4 - 1e-12, "below xmin"); c.nontrivial();
}
