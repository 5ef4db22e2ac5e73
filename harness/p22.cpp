#include "util.h"
#include <cmath>
#include <iostream>
#include <algorithm>
#include <functional>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "Optimize/Solver/MMA.h"
#include "Optimize/Solver/CONLIN.h"
using namespace PANSFEM2;
// A separable convex subproblem  min f0(x) + a0 z + sum(c y + d y^2/2)  s.t.  g_i(x) - a_i z - y_i <= 0,  alpha <= x <= beta,  y, z >= 0
// with f0 = sum p0/(U-x) + q0/(x-L) (moving asymptotes) or sum p0 x + q0/x (convex linearisation), both shifted so that g_i(x) carries its constant.
struct Sub {
    bool mma; int n, m; dvec L, U, al, be, a, c, d; double a0; std::vector<dvec> p, q; dvec r;   // index 0: objective, i + 1: constraint i; r: constants of the constraints
    double P(int j, double x) const { return mma ? 1/(U[j] - x) : x; }
    double Q(int j, double x) const { return mma ? 1/(x - L[j]) : 1/x; }
    double value(int i, const dvec& x) const { double s = i ? r[i - 1] : 0; for (int j = 0; j < n; j++) s += p[i][j]*P(j, x[j]) + q[i][j]*Q(j, x[j]); return s; }
    double best(int j, double pp, double qq) const {                                             // argmin of pp P + qq Q on [alpha, beta]
        double lo = al[j], hi = be[j], x; if (pp <= 0 && qq <= 0) return lo; if (mma) { double sp = std::sqrt(pp), sq = std::sqrt(qq); x = (sp*L[j] + sq*U[j])/(sp + sq); } else x = pp > 0 ? std::sqrt(qq/pp) : hi; return std::min(hi, std::max(lo, x)); }
    double dual(const dvec& l) const { double s = 0; for (int j = 0; j < n; j++) { double pp = p[0][j], qq = q[0][j]; for (int i = 0; i < m; i++) { pp += l[i]*p[i + 1][j]; qq += l[i]*q[i + 1][j]; } double x = best(j, pp, qq); s += pp*P(j, x) + qq*Q(j, x); } for (int i = 0; i < m; i++) { s += l[i]*r[i]; double e = l[i] - c[i]; if (e > 0) s -= d[i] > 0 ? e*e/(2*d[i]) : 1e300; } return s; }
    double penalty(const dvec& g, double z) const { double s = a0*z; for (int i = 0; i < m; i++) { double y = std::max(0.0, g[i] - a[i]*z); s += c[i]*y + 0.5*d[i]*y*y; } return s; }
    double primal(const dvec& x) const { dvec g(m); double zm = 0; for (int i = 0; i < m; i++) { g[i] = value(i + 1, x); if (a[i] > 0) zm = std::max(zm, g[i]/a[i]); } double lo = 0, hi = zm; if (zm > 0) for (int t = 0; t < 200; t++) { double u = lo + (hi - lo)/3, v = hi - (hi - lo)/3; (penalty(g, u) < penalty(g, v) ? hi : lo) = penalty(g, u) < penalty(g, v) ? v : u; } return value(0, x) + std::min(penalty(g, 0), penalty(g, 0.5*(lo + hi))); }
    double ymax(int i) const { double s = r[i]; for (int j = 0; j < n; j++) s += std::max(p[i + 1][j]*P(j, al[j]) + q[i + 1][j]*Q(j, al[j]), p[i + 1][j]*P(j, be[j]) + q[i + 1][j]*Q(j, be[j])); return std::max(0.0, s); }
    double maximise(dvec& l, int i, double budget, double enough) const {                       // nested golden section on the concave dual; stops at a certificate
        if (i == m) return dual(l); double lo = 0, hi = d[i] > 0 ? c[i] + d[i]*ymax(i) : c[i]; if (a[i] > 0) hi = std::min(hi, budget/a[i]); const double G = 0.6180339887498949; double u = hi - G*(hi - lo), v = lo + G*(hi - lo);
        auto f = [&](double t) { l[i] = t; return maximise(l, i + 1, budget - a[i]*t, enough); }; double e = f(0), best = e; if (best >= enough) return best; e = f(hi); best = std::max(best, e); double fu = f(u), fv = f(v); best = std::max(best, std::max(fu, fv)); int N = m == 1 ? 90 : m == 2 ? 60 : 36;
        for (int t = 0; t < N && best < enough && hi - lo > 1e-16*hi; t++) { if (fu < fv) { lo = u; u = v; fu = fv; v = lo + G*(hi - lo); fv = f(v); best = std::max(best, fv); } else { hi = v; v = u; fv = fu; u = hi - G*(hi - lo); fu = f(u); best = std::max(best, fu); } } return best; }
    // many constraints on variables of their own, without min-max variable: the concave dual (almost) separates, cyclic coordinate ascent reaches its maximum
    double ascend(dvec& l, double enough) const {
        double best = dual(l); const double G = 0.6180339887498949;
        for (int cycle = 0; cycle < 40 && best < enough; cycle++) for (int i = 0; i < m && best < enough; i++) {
            double lo = 0, hi = d[i] > 0 ? c[i] + d[i]*ymax(i) : c[i], keep = l[i]; auto f = [&](double t) { l[i] = t; return dual(l); };
            double b0 = lo, f0 = f(lo), fh = f(hi); if (fh > f0) { f0 = fh; b0 = hi; } double u = hi - G*(hi - lo), v = lo + G*(hi - lo), fu = f(u), fv = f(v);
            for (int t = 0; t < 100 && hi - lo > 1e-14*(1 + hi); t++) { if (fu < fv) { lo = u; u = v; fu = fv; v = lo + G*(hi - lo); fv = f(v); } else { hi = v; v = u; fv = fu; u = hi - G*(hi - lo); fu = f(u); } }
            if (fu > f0) { f0 = fu; b0 = u; } if (fv > f0) { f0 = fv; b0 = v; } if (f0 > best) { best = f0; l[i] = b0; } else l[i] = keep; } return best; }
    void judge(pbt::Ctx& ctx, const dvec& x) const {
        ctx.check((int)x.size() == n, "number of variables"); for (int j = 0; j < n; j++) { ctx.check(std::isfinite(x[j]), "not a number"); ctx.atmost(al[j], x[j], "variable " + std::to_string(j) + " below its bound or move limit"); ctx.atmost(x[j], be[j], "variable " + std::to_string(j) + " above its bound or move limit"); }
        double F = primal(x), sc = 1 + std::fabs(F), gs = 0; for (int i = 0; i <= m; i++) for (int j = 0; j < n; j++) gs = std::max(gs, std::fabs(p[i][j]*P(j, x[j])) + std::fabs(q[i][j]*Q(j, x[j]))); sc += gs; double cm = 1; for (double v : c) cm = std::max(cm, v);
        double tol = (2e-5 + 2e-7*cm)*(2*n + 3*m + 1)*std::max(1.0, 0.1*sc) + (m >= 3 ? 1e-5*sc : 0); dvec l(m); double D = m > 3 ? ascend(l, F - tol) : maximise(l, 0, a0, F - tol);
        ctx.atmost(F - D, tol, "the step is not optimal for the convex approximation: duality gap");
    }
};
static double mag(pbt::Src& s) { return s.nonzero(s.pick(std::vector<double>{1, 0.1, 10})); }
struct Setup { int n, m; double a0, move; dvec a, c, d, lo, hi, X; };
static Setup setup(pbt::Src& s, pbt::Ctx& ctx, bool positive) {
    Setup t; int k = s.range(0, 3); bool many = s.chance(1, 12), units = s.chance(1, 4); if (many) { t.m = s.range(4, 9); t.n = s.range(t.m, 40); } else if (k < 3) { t.n = few(s, 1, 6, 40); t.m = s.range(1, 2); } else { t.n = s.range(1, 4); t.m = 3; } t.a0 = 1; t.move = s.pick(std::vector<double>{0.5, 0.1, 0.25, 1.0}); int form = s.range(0, 2); if (many && form == 1) form = 0;
    for (int i = 0; i < t.m; i++) { t.a.push_back(form == 1 ? s.real(0.2, 2.0) : 0.0); t.c.push_back(form == 1 ? 0.0 : s.pick(std::vector<double>{1000, 100, 10, 10000})); t.d.push_back(form == 0 ? 0.0 : s.real(0.1, 2.0)); if (form == 1) t.c.back() = s.pick(std::vector<double>{0, 1, 50}); }
    for (int j = 0; j < t.n; j++) { double l = positive ? s.pick(std::vector<double>{0.01, 0.1, 1}) : s.sreal(2.0), w = s.pick(std::vector<double>{1, 0.99, 4}); double X = units ? s.logreal(3e-2, 3e1) : 1; t.lo.push_back(l*X); t.hi.push_back((l + w)*X); t.X.push_back(X); }
    ctx.desc << "n=" << t.n << " m=" << t.m << " a=" << show(t.a) << " c=" << show(t.c) << " d=" << show(t.d) << " move=" << t.move << " bounds " << show(t.lo) << show(t.hi); return t;
}
static void data(pbt::Src& s, const Setup& t, dvec& df, dvec& g, std::vector<dvec>& dg, bool plain = false) { df.assign(t.n, 0); g.assign(t.m, 0); dg.assign(t.m, dvec(t.n)); double O = s.chance(1, 4) && !plain ? s.logreal(1e-2, 1e4) : 1; for (int j = 0; j < t.n; j++) df[j] = s.chance(1, 10) ? 0.0 : O*mag(s)/t.X[j]; for (int i = 0; i < t.m; i++) { double reach = 0; for (int j = 0; j < t.n; j++) { dg[i][j] = s.chance(1, 10) || (t.m > 3 && j%t.m != i) ? 0.0 : mag(s)/t.X[j]; reach += std::fabs(dg[i][j])*(t.hi[j] - t.lo[j])*t.move; } g[i] = s.sreal(1.0)*(reach*0.4 + 0.01); if (s.chance(1, 10)) g[i] = 3*reach + 0.1; } }
static dvec start(pbt::Src& s, const Setup& t) { dvec x(t.n); for (int j = 0; j < t.n; j++) x[j] = s.chance(1, 5) ? (s.coin() ? t.lo[j] : t.hi[j]) : s.real(t.lo[j], t.hi[j]); return x; }
LAW(moving_asymptotes, 6000, 90000, "1..5 successive steps of one MMA object from any point of the box (also its corners) with arbitrary objective and constraint values and gradients, 1..6 (at times 40) variables in units from 0.03 to 30, objective in units from 0.01 to 1e4, 1..3 constraints (also more constraints than variables; at times 4..9 of them, each on variables of its own), all four forms of the extended problem (penalties, min-max), default and own parameters: each step stays in bounds and move limits and is optimal for Svanberg's approximation with the specified asymptotes, certified by the dual; non-trivial with two variables or two constraints") {
    Setup t = setup(s, c, false); MMA<double> o(t.n, t.m, t.a0, t.a, t.c, t.d, t.lo, t.hi); double raa0 = 1e-5, albefa = 0.1, init = 0.5, decr = 0.7, incr = 1.2; bool own = t.move != 0.5 || s.chance(1, 3); if (own) { albefa = s.pick(std::vector<double>{0.1, 0.3}); init = s.pick(std::vector<double>{0.5, 0.2, 0.8, 0.015, 8.0}); if (init < 0.1 && t.X[0] != 1) init = 0.5; decr = s.pick(std::vector<double>{0.7, 0.5}); incr = s.pick(std::vector<double>{1.2, 1.5}); raa0 = s.pick(std::vector<double>{1e-5, 1e-3}); o.SetParameters(raa0, albefa, t.move, init, decr, incr, 1e-4); c.desc << " parameters " << raa0 << " " << albefa << " " << init << " " << decr << " " << incr; }
    dvec x = start(s, t), x1, x2, L(t.n), U(t.n); int steps = s.range(1, 5); for (int k = 0; k < steps; k++) {
        dvec df, g; std::vector<dvec> dg; data(s, t, df, g, dg, init < 0.1); c.desc << "; x=" << show(x) << " df=" << show(df) << " g=" << show(g); for (auto& v : dg) c.desc << " dg=" << show(v); Sub b; b.mma = true; b.n = t.n; b.m = t.m; b.a = t.a; b.c = t.c; b.d = t.d; b.a0 = t.a0; b.al.resize(t.n); b.be.resize(t.n);
        for (int j = 0; j < t.n; j++) { double w = t.hi[j] - t.lo[j], l, u; if (k < 2) { l = init*w; u = init*w; } else { double sg = (x[j] - x1[j])*(x1[j] - x2[j]), f = sg < 0 ? decr : sg > 0 ? incr : 1; l = f*(x1[j] - L[j]); u = f*(U[j] - x1[j]); } l = std::min(10*w, std::max(0.01*w, l)); u = std::min(10*w, std::max(0.01*w, u)); L[j] = x[j] - l; U[j] = x[j] + u; b.al[j] = std::max({t.lo[j], L[j] + albefa*l, x[j] - t.move*w}); b.be[j] = std::min({t.hi[j], U[j] - albefa*u, x[j] + t.move*w}); }
        b.L = L; b.U = U; b.r.assign(t.m, 0); for (int i = 0; i <= t.m; i++) { dvec p(t.n), q(t.n); for (int j = 0; j < t.n; j++) { double e = i ? dg[i - 1][j] : df[j], w = t.hi[j] - t.lo[j], ep = std::max(e, 0.0), em = std::max(-e, 0.0); p[j] = (U[j] - x[j])*(U[j] - x[j])*(1.001*ep + 0.001*em + raa0/w); q[j] = (x[j] - L[j])*(x[j] - L[j])*(0.001*ep + 1.001*em + raa0/w); } b.p.push_back(p); b.q.push_back(q); if (i) b.r[i - 1] = g[i - 1] - b.value(i, x); }
        dvec y = x; o.UpdateVariables(y, s.sreal(3.0), df, g, dg); b.judge(c, y); x2 = x1; x1 = x; x = y; for (int j = 0; j < t.n; j++) x[j] = std::min(t.hi[j], std::max(t.lo[j], x[j])); if (s.chance(1, 6)) x = start(s, t); }
    c.label(t.n <= t.m ? "n<=m" : "n>m"); c.nontrivial(t.n >= 2 || t.m >= 2);
}
LAW(convex_linearisation, 6000, 90000, "1..4 successive steps of one CONLIN object on positive boxes with arbitrary values and gradients, 1..6 (at times 40) variables in units from 0.03 to 30, objective in units from 0.01 to 1e4, 1..3 constraints (also more constraints than variables; at times 4..9 of them, each on variables of its own), penalty and min-max forms: each step stays in bounds and move limits and is optimal for the convex linearisation (direct or reciprocal by the sign of the derivative), certified by the dual; non-trivial with two variables or two constraints") {
    Setup t = setup(s, c, true); CONLIN<double> o(t.n, t.m, t.a0, t.a, t.c, t.d, t.lo, t.hi); if (t.move != 0.5) o.SetParameters(t.move, 1e-4); dvec x = start(s, t); int steps = s.range(1, 4); for (int k = 0; k < steps; k++) {
        dvec df, g; std::vector<dvec> dg; data(s, t, df, g, dg); c.desc << "; x=" << show(x) << " df=" << show(df) << " g=" << show(g); for (auto& v : dg) c.desc << " dg=" << show(v); Sub b; b.mma = false; b.n = t.n; b.m = t.m; b.a = t.a; b.c = t.c; b.d = t.d; b.a0 = t.a0; b.al.resize(t.n); b.be.resize(t.n); for (int j = 0; j < t.n; j++) { double w = t.hi[j] - t.lo[j]; b.al[j] = std::max(t.lo[j], x[j] - t.move*w); b.be[j] = std::min(t.hi[j], x[j] + t.move*w); }
        b.r.assign(t.m, 0); for (int i = 0; i <= t.m; i++) { dvec p(t.n), q(t.n); for (int j = 0; j < t.n; j++) { double e = i ? dg[i - 1][j] : df[j]; p[j] = std::max(e, 0.0); q[j] = std::max(-e, 0.0)*x[j]*x[j]; } b.p.push_back(p); b.q.push_back(q); if (i) b.r[i - 1] = g[i - 1] - b.value(i, x); }
        dvec y = x; o.UpdateVariables(y, s.sreal(3.0), df, g, dg); b.judge(c, y); x = y; if (s.chance(1, 6)) x = start(s, t); }
    c.label(t.n <= t.m ? "n<=m" : "n>m"); c.nontrivial(t.n >= 2 || t.m >= 2);
}
template<class O> static void histories(pbt::Src& s, pbt::Ctx& c, O& o, int n, double eps) {
    double prev = 0; int steps = s.range(1, 5); for (int k = 0; k <= steps; k++) { int trials = s.range(1, 3); for (int t = 0; t < trials; t++) { double f = s.chance(1, 3) ? s.sreal(1e3) : prev*(1 + eps*s.pick(std::vector<double>{0, 0.1, -0.1, 1.5, -1.5, 2.5, -2.5, 10, -10, 1000})); double sum = std::fabs(f + prev), r = std::fabs(f - prev)/sum; if (!(sum > 1e-12) || std::fabs(r - eps) < 1e-3*eps) continue; c.desc << " " << prev << "->" << f; c.check(o.IsConvergence(f) == (r < eps), r < eps ? "convergence not reported" : "convergence reported although the objective still changes"); }
        prev = s.nonzero(s.pick(std::vector<double>{1, 100, 1e5, 1e-3})); dvec x(n, 0.5), df(n, s.nonzero(1.0)); o.UpdateVariables(x, prev, df, dvec(1, -0.1), std::vector<dvec>(1, dvec(n, 1.0))); }
}
LAW(convergence, 6000, 90000, "histories of steps with objectives of any sign and size, default and own tolerances: convergence is reported exactly when the objective differs from that of the last step by less than the relative tolerance; always non-trivial") {
    int n = s.range(1, 3); bool own = s.coin(); double eps = own ? s.logreal(1e-6, 1e-1) : 1e-5; bool mma = s.coin(); c.desc << (mma ? "MMA" : "CONLIN") << " tolerance " << eps; dvec a(1, 0.0), cc(1, 100.0), d(1, 0.0), lo(n, 0.1), hi(n, 1.0);
    if (mma) { MMA<double> o(n, 1, 1.0, a, cc, d, lo, hi); if (own) o.SetParameters(1e-5, 0.1, 0.5, 0.5, 0.7, 1.2, eps); histories(s, c, o, n, eps); } else { CONLIN<double> o(n, 1, 1.0, a, cc, d, lo, hi); if (own) o.SetParameters(0.5, eps); histories(s, c, o, n, eps); } c.nontrivial();
}
LAW(optimum, 600, 9000, "separable convex problems with decreasing objectives (sum c/x, weighted squares of the distance to a point beyond the bounds) under a linear constraint from a random start: 80 steps of MMA, or of CONLIN for sum c/x, reach the exact optimum (closed form by bisection) and satisfy the constraint; non-trivial with two variables or more") {
    int n = s.range(1, 5); bool recip = s.coin(), conlin = recip && s.coin(); dvec w(n), cc(n), t(n), x(n), lo(n, 0.05), hi(n, 1.0); for (int j = 0; j < n; j++) { w[j] = s.logreal(0.3, 3); cc[j] = s.logreal(0.1, 5); t[j] = s.real(1.02, 2.5);   // beyond the upper bounds: MMA may cycle about an unconstrained minimum inside the box
        x[j] = s.real(0.1, 1.0); } double W = 0; for (double v : w) W += v; double V = W*s.real(0.2, 0.9); c.desc << (conlin ? "CONLIN" : "MMA") << (recip ? " c/x" : " squares") << " c=" << show(cc) << " t=" << show(t) << " w=" << show(w) << " V=" << V << " x0=" << show(x);
    auto sol = [&](double l) { dvec y(n); for (int j = 0; j < n; j++) { double v = recip ? std::sqrt(cc[j]/std::max(w[j]*l, 1e-300)) : t[j] - l*w[j]/(2*cc[j]); y[j] = std::min(hi[j], std::max(lo[j], v)); } return y; }; double A = 0, B = 1e9; if (dot(sol(0), w) <= V) B = 0; for (int k = 0; k < 300 && B > 0; k++) { double m = A > 0 ? std::sqrt(A*B) : 0.5*(A + B); if (k > 200) m = 0.5*(A + B); (dot(sol(m), w) > V ? A : B) = m; if (A == 0 && B < 1e-12) break; } dvec e = sol(B);
    auto F = [&](const dvec& y) { double r = 0; for (int j = 0; j < n; j++) r += recip ? cc[j]/y[j] : cc[j]*(y[j] - t[j])*(y[j] - t[j]); return r; }; MMA<double> o(n, 1, 1.0, {0.0}, {1000.0}, {0.0}, lo, hi); CONLIN<double> q(n, 1, 1.0, {0.0}, {1000.0}, {0.0}, lo, hi);
    for (int k = 0; k < 80; k++) { dvec df(n); for (int j = 0; j < n; j++) df[j] = recip ? -cc[j]/(x[j]*x[j]) : 2*cc[j]*(x[j] - t[j]); dvec g = {dot(w, x)/V - 1}; std::vector<dvec> dg = {scale(w, 1/V)}; double f = F(x); if (conlin) q.UpdateVariables(x, f, df, g, dg); else o.UpdateVariables(x, f, df, g, dg); }
    c.near(F(x), F(e), 1 + std::fabs(F(e)), recip ? 1e-4 : 1e-4, "objective at the end"); c.atmost(dot(w, x)/V - 1, 1e-4, "constraint"); c.nontrivial(n >= 2);
}
FINDING(endless, "MMA and CONLIN never return from a step whose objective is very large in its unit: ten variables in [0.01,1] with objective gradients -1e9 to -1e10 under one linear constraint; the residual of the optimality conditions is held against an absolute 1e-7, below its rounding error") {
    for (int conlin = 0; conlin < 2; conlin++) { pid_t p = fork(); if (p == 0) { signal(SIGXCPU, SIG_DFL); signal(SIGPROF, SIG_IGN); rlimit r = {3, 4}; setrlimit(RLIMIT_CPU, &r); int n = 10; dvec x(n, 0.5), df(n), dg(n, 0.1), lo(n, 0.01), hi(n, 1.0); for (int j = 0; j < n; j++) df[j] = -1e9*(1 + j); if (conlin) { CONLIN<double> o(n, 1, 1.0, {0.0}, {1000.0}, {0.0}, lo, hi); o.UpdateVariables(x, 1e9, df, {0.0}, {dg}); } else { MMA<double> o(n, 1, 1.0, {0.0}, {1000.0}, {0.0}, lo, hi); o.UpdateVariables(x, 1e9, df, {0.0}, {dg}); } _exit(0); }
        int st = 0; waitpid(p, &st, 0); c.check(WIFEXITED(st), std::string(conlin ? "CONLIN" : "MMA") + ": no result within three seconds of computing"); } c.nontrivial();
}
