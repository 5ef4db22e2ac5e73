#include "krylov.h"
#include "LinearAlgebra/Solvers/CG.h"
typedef CSR<double> C;
static bool failed(pbt::Ctx& c) { std::string t = c.printed(); c.clear_printed(); return t.find("faild") != std::string::npos || t.find("fail") != std::string::npos; }
static double resid(const dmat& a, const dvec& x, const dvec& b) { return nrm(add(b, mul(a, x), -1)); }
static double an(const dmat& a) { double m = 0; for (int i = 0; i < a.r; i++) { double q = 0; for (int j = 0; j < a.c; j++) q += std::fabs(a(i, j)); m = std::max(m, q); } return m; }
static int size_(pbt::Src& s, pbt::Ctx& c) { return s.chance(1, 6) ? s.range(1, 60) : s.range(1, 14); }
static double tolerance(pbt::Src& s) { return std::pow(10.0, -(double)s.range(2, 10)); }
// what the solver may be off by because of rounding in the recurrences
static double slack(const dmat& a, const dvec& x, const dvec& b) { return 1e-9*(an(a)*nrm(x) + nrm(b)); }
struct Solver { const char* name; int kind; };
static const std::vector<Solver> SPD = {{"CG", 0}, {"ScalingCG", 1}, {"BiCGSTAB", 2}, {"BiCGSTAB2", 3}, {"ScalingBiCGSTAB", 4}};
static const std::vector<Solver> GEN = {{"BiCGSTAB", 2}, {"BiCGSTAB2", 3}, {"ScalingBiCGSTAB", 4}};
static dvec run(int k, C& A, dvec& b, int it, double eps) {
    switch (k) { case 0: return CG(A, b, it, eps); case 1: return ScalingCG(A, b, it, eps); case 2: return BiCGSTAB(A, b, it, eps); case 3: return BiCGSTAB2(A, b, it, eps); default: return ScalingBiCGSTAB(A, b, it, eps); }
}
static void unchanged(pbt::Ctx& c, C& A, const dmat& a, const dvec& b, const dvec& b0) { same(c, ref(A), a, 1, 0, "the matrix passed in"); same(c, b, b0, 1, 0, "the right-hand side passed in"); }

static bool wrong(const dmat& a, const dvec& x, const dvec& b, double eps) { return !(resid(a, x, b) <= eps*nrm(b)*1.01 + slack(a, x, b)); }
// The bi-conjugate recurrences can break down, and the denominators of BiCGSTAB2's second step can all but vanish, by an accidental
// cancellation in the data; such an accident does not survive a change of the right-hand side, a defect does.  True when most
// neighbouring right-hand sides show it as well.
static bool mostly(pbt::Ctx& c, const Solver& sv, C& A, const dmat& a, const dvec& b0, int it, double eps, bool claim) {
    int seen = 0, bad = 0, n = (int)b0.size();
    for (int t = 0; t < 12; t++) {
        dvec bb = b0; for (int i = 0; i < n; i++) bb[i] += 0.37*nrm(b0)*std::sin(1.0 + 3.7*i + 1.9*t);
        dvec y = run(sv.kind, A, bb, it, eps); bool f = failed(c);
        if (claim) { if (!f) { seen++; if (wrong(a, y, bb, eps)) bad++; } } else { seen++; if (f) bad++; }
    }
    return 2*bad > seen;
}
static void converge(pbt::Src& s, pbt::Ctx& c, bool sym) {
    int n = size_(s, c); const Solver& sv = s.pick(sym ? SPD : GEN); dmat a = sym ? spd(s, n, s.real(sv.kind == 3 ? 0.2 : 0.02, 1.0), sv.kind != 3 && s.chance(1, 3) ? 100.0 : 1.0) : dominant(s, n, s.real(0.3, 1.5));
    if (!sym) { // dominant by columns too, so that the symmetric part is positive definite
        for (int j = 0; j < n; j++) { double q = 0; for (int i = 0; i < n; i++) if (i != j) q += std::fabs(a(i, j)); a(j, j) = std::max(a(j, j), 1.3*q + 0.2); } }
    magnify(s, a); dvec b = rhs(s, n), b0 = b; double eps = tolerance(s); C A = sparse(&s, a, true);
    int it = 40*n + 200;
    c.desc << sv.name << " n=" << n << " eps=" << eps << " A=" << (n <= 12 ? show(a) : "...") << " b=" << (n <= 12 ? show(b) : "..."); c.label(sv.name);
    dvec x = run(sv.kind, A, b, it, eps); bool f = failed(c); unchanged(c, A, a, b, b0);
    c.check((int)x.size() == n, "length of the solution");
    double r = resid(a, x, b);
    if (!f) {
        if (wrong(a, x, b, eps)) {
            if (sv.kind < 2 || mostly(c, sv, A, a, b0, it, eps, true)) c.near(r, 0, eps*nrm(b) + slack(a, x, b), 1.0, std::string(sv.name) + " claims convergence, residual");
            c.label("drift"); return;
        }
    }
    else {
        std::ostringstream o; o << sv.name << " fails on a well conditioned system (residual " << r << ", |b| " << nrm(b) << ")";
        c.check(sv.kind >= 2 && n >= 2 && !mostly(c, sv, A, a, b0, it, eps, false), o.str());
        c.label(std::string("breakdown_") + sv.name);
    }
    c.nontrivial(n >= 2);
}
LAW(spd_converges, 60000, 900000, "a sparse symmetric positive definite matrix (order 1..60, condition below about 1e4), any right-hand side and tolerance 1e-2..1e-10, solved by CG, scaled CG and the bi-conjugate solvers; residual of the claimed solution; non-trivial for order >= 2") { converge(s, c, true); }
LAW(general_converges, 60000, 900000, "an unsymmetric row- and column-dominant sparse matrix solved by BiCGSTAB, BiCGSTAB2 and scaled BiCGSTAB; non-trivial for order >= 2") { converge(s, c, false); }
LAW(honest, 60000, 900000, "a symmetric (often indefinite) or a weakly dominant unsymmetric matrix and an iteration limit that may be too small: a solver that does not report failure has a small residual; non-trivial when the solver claims success for order >= 2") {
    int n = s.range(1, 10); dmat a(n, n); int kind = s.range(1, 2);
    if (kind == 1) { a = spd(s, n, 0.0); for (int i = 0; i < n; i++) if (s.coin()) a(i, i) = -a(i, i); }
    else a = dominant(s, n, 0.1);
    dvec b = rhs(s, n), b0 = b; double eps = tolerance(s); int it = s.chance(1, 2) ? s.range(1, 12) : 300; const Solver& sv = s.pick(kind == 1 ? SPD : GEN);
    if ((sv.kind == 1 || sv.kind == 4)) for (int i = 0; i < n; i++) if (std::fabs(a(i, i)) < 0.05) a(i, i) = 0.05;
    C A = sparse(&s, a); c.desc << sv.name << " n=" << n << " eps=" << eps << " itrmax=" << it << " A=" << show(a) << " b=" << show(b);
    dvec x = run(sv.kind, A, b, it, eps); bool f = failed(c); unchanged(c, A, a, b, b0);
    if (f) { c.label("reported_failure"); return; }
    // Growth of the iterates on an indefinite matrix can spoil the recursively updated residual by rounding alone
    if (wrong(a, x, b, eps) && !(kind == 1 && resid(a, x, b) < 0.5*nrm(b))) {
        if (sv.kind < 2 || mostly(c, sv, A, a, b0, it, eps, true)) c.near(resid(a, x, b), 0, eps*nrm(b)*1.01 + slack(a, x, b), 1.0, std::string(sv.name) + " claims convergence, residual");
        c.label("drift"); return;
    }
    c.nontrivial(n >= 2);
}
LAW(zero_rhs, 400, 4000, "a zero right-hand side on a regular matrix: the solution is zero; non-trivial for order >= 2") {
    int n = s.range(1, 10); bool sym = s.coin(); dmat a = sym ? spd(s, n, 0.3) : dominant(s, n, 0.5); dvec b(n, 0.0); const Solver& sv = s.pick(sym ? SPD : GEN); C A = sparse(&s, a);
    c.desc << sv.name << " n=" << n << " b=0"; dvec x = run(sv.kind, A, b, 50, 1e-8); c.check(!failed(c), std::string(sv.name) + " reports failure for a zero right-hand side"); same(c, x, b, 1, 0, std::string(sv.name) + ": solution for a zero right-hand side");
    c.nontrivial(n >= 2);
}
LAW(relaxation, 6000, 90000, "successive over-relaxation with omega in [0.6, 1.25] on a dominant SPD matrix: residual after convergence; non-trivial for order >= 2") {
    int n = s.range(1, 12); dmat a = spd(s, n, s.real(0.3, 1.5)); magnify(s, a); dvec b = rhs(s, n), b0 = b; double w = s.real(0.6, 1.25), eps = std::pow(10.0, -(double)s.range(3, 11)); C A = sparse(&s, a);
    c.desc << "SOR n=" << n << " omega=" << w << " eps=" << eps; dvec x = SOR(A, b, w, 600, eps); failed(c); unchanged(c, A, a, b, b0);
    double r = resid(a, x, b); c.atmost(r, (eps*10*n + 1e-9)*(an(a)*nrm(x) + nrm(b)), "residual of relaxation"); c.nontrivial(n >= 2);
}
// Large and slow systems: convection-diffusion on grids, so that the solvers need many iterations
static dmat grid(Bulk& b, int n, int w, double conv, double shift) { dmat a(n, n); for (int i = 0; i < n; i++) for (int j : {i + 1, i + w}) { if (j >= n || (j == i + 1 && w > 1 && j%w == 0)) continue; double k = 0.5 + b.unit(), v = conv*b.sreal(1)*k; a(i, j) = -k + v; a(j, i) = -k - v; if (w == 1) break; } for (int i = 0; i < n; i++) { double q = 0; for (int j = 0; j < n; j++) if (j != i) q += 0.5*(std::fabs(a(i, j)) + std::fabs(a(j, i))); a(i, i) = q + shift; } return a; }
LAW(large, 3000, 40000, "conduction or convection-diffusion matrices of 60..300 unknowns on lines and grids (condition up to about 1e3), every solver, tolerance 1e-3..1e-9, also a second solve with the same objects: success, and the residual of the claimed solution; always non-trivial") {
    bool sym = s.coin(); const Solver& sv = s.pick(sym ? SPD : GEN); int n = s.range(60, s.chance(1, 4) ? 300 : 120), w = s.coin() ? 1 : s.range(3, 20); Bulk bk(s); dmat a = grid(bk, n, w, sym ? 0.0 : 0.3, s.logreal(sv.kind == 3 ? 0.3 : 0.03, 1.0)); dvec b(n); int kind = s.range(0, 2); for (int i = 0; i < n; i++) b[i] = kind == 0 ? 1.0 : kind == 1 ? bk.sreal(2) : (i == n/2 ? 1.0 : 0.0); b = scale(b, s.logreal(1e-4, 1e4));
    double eps = std::pow(10.0, -(double)s.range(3, 9)); dvec b0 = b; C A = sparse(nullptr, a); int it = 40*n + 200; c.desc << sv.name << " n=" << n << " width=" << w << " eps=" << eps << (sym ? " symmetric" : " unsymmetric"); c.label(sv.name);
    for (int t = 0; t < 2; t++) { dvec x = run(sv.kind, A, b, it, eps); bool f = failed(c); if (t == 1) unchanged(c, A, a, b, b0);
        if (!f) { if (wrong(a, x, b, eps)) { if (sv.kind < 2 || mostly(c, sv, A, a, b0, it, eps, true)) c.near(resid(a, x, b), 0, eps*nrm(b) + slack(a, x, b), 1.0, std::string(sv.name) + " claims convergence, residual"); c.label("drift"); } }
        else { c.check(sv.kind >= 2 && !mostly(c, sv, A, a, b0, it, eps, false), std::string(sv.name) + " fails on a well conditioned system"); c.label("breakdown"); } }
    c.nontrivial(true);
}
LAW(few_values, 20000, 250000, "SPD matrices (order 2..14) with 1..4 different eigenvalues a factor 1.5..2.5 apart, for the scaled solvers up to a diagonal scaling: every Krylov solver meets a tolerance of 1e-7 within one iteration more than there are different values (finite termination); non-trivial with two different values or more") {
    const Solver& sv = s.pick(SPD); int d = s.range(1, 4), n = s.range(std::max(2, d), 14); bool scaled = sv.kind == 1 || sv.kind == 4; if (scaled) n = std::max(n, 2*d); dvec v = values(s, d); dmat a = scaled ? circulant(s, n, v) : withvalues(s, n, v);
    if (scaled) { dvec w(n); for (auto& x : w) x = s.logreal(0.5, 2.0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) *= w[i]*w[j]; } magnify(s, a);
    dvec b(n); for (auto& x : b) x = s.nonzero(2.0); double U = s.chance(1, 3) ? s.logreal(1e-12, 1e12) : 1.0; b = scale(b, U); dvec b0 = b; C A = sparse(&s, a); c.desc << sv.name << " n=" << n << " values " << show(v) << " A=" << show(a) << " b=" << show(b); c.label(sv.name);
    dvec x = run(sv.kind, A, b, d + 1, 1e-7); bool f = failed(c); unchanged(c, A, a, b, b0);
    if (f) c.check(sv.kind >= 2 && !mostly(c, sv, A, a, b0, d + 1, 1e-7, false), std::string(sv.name) + " does not finish within one iteration more than different eigenvalues"); else if (wrong(a, x, b, 1e-7)) { if (sv.kind < 2 || mostly(c, sv, A, a, b0, d + 1, 1e-7, true)) c.near(resid(a, x, b), 0, 1e-7*nrm(b) + slack(a, x, b), 1.0, "residual"); }
    c.nontrivial(d >= 2);
}
LAW(best_iterate, 20000, 250000, "conjugate gradients and their diagonally scaled form stopped after 1..6 iterations on SPD matrices (order 2..16): the vector returned is the best approximation in the energy norm over that many Krylov vectors of the (scaled) system, from a zero start; non-trivial when stopped before the end") {
    bool scaled = s.coin(); int n = s.range(2, 16), k = s.range(1, 6); dmat a = spd(s, n, s.real(0.1, 1.0), s.chance(1, 3) ? 50.0 : 1.0); magnify(s, a); dvec b = rhs(s, n), b0 = b; C A = sparse(&s, a, true); c.desc << (scaled ? "scaled " : "") << "CG n=" << n << " iterations " << k << " A=" << show(a) << " b=" << show(b);
    dvec x = run(scaled ? 1 : 0, A, b, k, 1e-11); bool f = failed(c); unchanged(c, A, a, b, b0); dvec e = best(a, b, k, [&](const dvec& r) { dvec q = r; if (scaled) for (int i = 0; i < n; i++) q[i] /= a(i, i); return q; }); c.near(energy(a, add(x, e, -1))/energy(a, e), 0, 1, 1e-6, "distance to the best approximation"); c.nontrivial(f);
}
LAW(sweeps, 20000, 250000, "relaxation stopped after 1..8 sweeps on SPD and dominant unsymmetric matrices, factor 0.3..1.9: the vector returned is the iterate of that many successive over-relaxation sweeps in the order of the unknowns from a zero start; and 12..60 unknowns on a line are solved with the optimal factor at its textbook rate; non-trivial for order >= 2") {
    if (s.chance(1, 8)) { int n = s.range(12, 60); dmat a(n, n); for (int i = 0; i < n; i++) { a(i, i) = 2; if (i) a(i, i - 1) = a(i - 1, i) = -1; } double w = 2/(1 + std::sin(M_PI/(n + 1))); dvec b(n); for (auto& x : b) x = s.real(0.5, 1.5); C A = sparse(nullptr, a); int it = 1; while (it*std::pow(w - 1, it - 1) > 1e-9) it++; c.desc << "SOR on a line of " << n << " with the optimal factor " << w << ", " << it << " sweeps"; dvec b0 = b, x = SOR(A, b, w, it, 1e-14); dvec e = solve(a, b0); c.near(nrm(add(x, e, -1))/nrm(e), 0, 1, 1e-6, "relative error"); c.nontrivial(); return; }
    int n = s.range(1, 12), k = s.range(1, 8); dmat a = s.coin() ? spd(s, n, s.real(0.2, 1.5)) : dominant(s, n, s.real(0.2, 1.0)); magnify(s, a); dvec b = rhs(s, n), b0 = b; double w = s.real(0.3, 1.9); C A = sparse(&s, a, true); c.desc << "SOR n=" << n << " omega=" << w << " sweeps " << k << " A=" << show(a) << " b=" << show(b);
    dvec x = SOR(A, b, w, k, 1e-15); failed(c); unchanged(c, A, a, b, b0); dvec e(n, 0.0); double m = 0; for (int t = 0; t < k; t++) for (int i = 0; i < n; i++) { double r = b0[i]; for (int j = 0; j < n; j++) if (j != i) r -= a(i, j)*e[j]; e[i] += w*(r/a(i, i) - e[i]); m = std::max(m, std::fabs(e[i])); }
    c.check(x.size() == e.size(), "length of the solution"); for (int i = 0; i < n; i++) c.near(x[i]/m, e[i]/m, 1, 1e-10, "unknown " + std::to_string(i)); c.nontrivial(n >= 2);
}
LAW(stabilised, 20000, 250000, "the bi-conjugate solvers stopped after 1..4 iterations on SPD and dominant unsymmetric matrices (order 3..14): the residual of the vector returned is the one that defines the method (orthogonal polynomial of the moments times least-residual factors, linear for BiCGSTAB, quadratic every second iteration for BiCGSTAB2); non-trivial when stopped before the end after two iterations or more") {
    const Solver& sv = s.pick(GEN); int n = s.range(3, 14), k = s.range(1, 4); dmat a = s.coin() ? spd(s, n, s.real(0.1, 1.0), s.chance(1, 3) ? 20.0 : 1.0) : dominant(s, n, s.real(0.1, 1.0)); magnify(s, a); dvec b(n); for (auto& x : b) x = s.nonzero(2.0); double U = s.chance(1, 3) ? s.logreal(1e-12, 1e12) : 1.0; b = scale(b, U); dvec b0 = b; dmat B = a; if (sv.kind == 4) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B(i, j) /= a(j, j);
    dvec e = stabilised(B, scale(b, 1/U), k, sv.kind == 3); if (!(nrm(e) > 1e-5*nrm(b)/U)) throw pbt::Reject(); C A = sparse(&s, a, true); c.desc << sv.name << " n=" << n << " iterations " << k << " A=" << show(a) << " b=" << show(b); c.label(sv.name); dvec x = run(sv.kind, A, b, k, 1e-12); bool f = failed(c); unchanged(c, A, a, b, b0);
    dvec r = scale(add(b, mul(a, x), -1), 1/U); dmat a2 = disturbed(a); C A2 = sparse(nullptr, a2); dvec x2 = run(sv.kind, A2, b, k, 1e-12), r2 = scale(add(b, mul(a2, x2), -1), 1/U); failed(c); if (nrm(add(r, r2, -1)) > 1e-5*(nrm(e) + 1e-3*nrm(b)/U)) throw pbt::Reject(); c.near(nrm(add(r, e, -1)), 0, nrm(e) + 1e-3*nrm(b)/U, 1e-3, "distance to the defining residual"); c.nontrivial(f && k >= 2);
}
