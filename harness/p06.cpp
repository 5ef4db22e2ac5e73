#include "krylov.h"
#include "LinearAlgebra/Solvers/CG.h"
typedef CSR<double> C;
static bool failed(pbt::Ctx& c) { std::string t = c.printed(); c.clear_printed(); return t.find("fail") != std::string::npos; }
static double an(const dmat& a) { double m = 0; for (int i = 0; i < a.r; i++) { double q = 0; for (int j = 0; j < a.c; j++) q += std::fabs(a(i, j)); m = std::max(m, q); } return m; }
static void split(const dmat& m, dmat& L, dmat& U) { L = eye(m.r); U = dmat(m.r, m.c); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) if (j < i) L(i, j) = m(i, j); else U(i, j) = m(i, j); }
static dmat matrix(pbt::Src& s, int n) { return s.coin() ? spd(s, n, s.real(0.05, 1.0), s.chance(1, 4) ? 100.0 : 1.0) : dominant(s, n, s.real(0.2, 1.0)); }

LAW(factorisation, 60000, 900000, "ILU(0) of a dominant or SPD sparse matrix (order 1..20, symmetric or unsymmetric pattern, explicit zeros): L*U equals A on the pattern of A and has no entry outside it; exact when elimination creates no fill; non-trivial for order >= 3 with an off-diagonal entry") {
    int n = s.range(1, s.chance(1, 8) ? 20 : 9); dmat a = matrix(s, n); magnify(s, a); dmat a0 = a; C A = sparse(&s, a); C M = ILU0(A);
    c.desc << "ILU0 n=" << n << " A=" << (n <= 6 ? show(a) : "..."); dmat m = ref(M), L, U; split(m, L, U); dmat P = mul(L, U); double sc = an(a); int off = 0; bool fill = false;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        if (a(i, j) != 0) { c.near(P(i, j), a(i, j), sc, 1e-10, "(L*U) on the pattern, entry " + std::to_string(i) + "," + std::to_string(j)); if (i != j) off++; }
        else { c.check(m(i, j) == 0.0, "entry outside the pattern"); for (int k = 0; k < std::min(i, j); k++) if (a(i, k) != 0 && a(k, j) != 0) fill = true; }
    }
    if (!fill) same(c, P, a, sc, 1e-10, "exact factorisation without fill");
    same(c, ref(A), a0, 1, 0, "the matrix itself"); c.label(fill ? "fill_dropped" : "no_fill"); c.nontrivial(n >= 3 && off > 0);
}
LAW(apply, 40000, 600000, "forward and backward substitution with ILU(0) factors of a random matrix and with arbitrary triangular factors: L*(U*v) = b; non-trivial for order >= 3") {
    int n = s.range(1, 12); dmat a = matrix(s, n); dmat m;
    if (s.coin()) { C A = sparse(&s, a); C M = ILU0(A); m = ref(M); } else m = a;   // any matrix holds a pair of triangular factors
    C M = sparse(&s, m, true); dvec b = rhs(s, n), b0 = b; dvec v = PreILU0(M, b); same(c, b, b0, 1, 0, "right-hand side"); same(c, ref(M), m, 1, 0, "factors");
    c.desc << "n=" << n << " LU=" << (n <= 6 ? show(m) : "...") << " b=" << (n <= 6 ? show(b) : "...");
    dmat L, U; split(m, L, U); dvec y = mul(L, mul(U, v)); dvec w = solve(U, solve(L, b)); double g = nrm(w)*an(U)*an(L) + nrm(b);
    same(c, y, b, g, 1e-10, "L*U*v"); c.nontrivial(n >= 3);
}
static const char* NAMES[] = {"ILU0CG", "ILU0BiCGSTAB", "ScalingCG", "ScalingBiCGSTAB", "SORCG"};
LAW(solution, 60000, 900000, "a preconditioned solve (ILU(0)-CG/BiCGSTAB, diagonal scaling, relaxation) of a well conditioned system (order 1..40): same solution as a direct solve; non-trivial for order >= 2") {
    int k = s.range(0, 4); int n = s.chance(1, 8) ? s.range(1, 40) : s.range(1, 12); bool sym = k == 0 || k == 2 || k == 4;
    dmat a = sym ? spd(s, n, k == 4 ? s.real(0.5, 1.5) : s.real(0.02, 1.0), k != 4 && s.chance(1, 3) ? 100.0 : 1.0) : dominant(s, n, s.real(0.3, 1.5));
    if (!sym) for (int j = 0; j < n; j++) { double q = 0; for (int i = 0; i < n; i++) if (i != j) q += std::fabs(a(i, j)); a(j, j) = std::max(a(j, j), 1.3*q + 0.2); }
    magnify(s, a);
    // an incomplete factorisation of a symmetric matrix is only a symmetric preconditioner for a symmetric pattern: it is one here
    dvec b = rhs(s, n), b0 = b; double eps = std::pow(10.0, -(double)s.range(6, 10)); C A = sparse(&s, a); C M = ILU0(A); int it = 40*n + 200;
    auto go = [&](dvec& bb) { switch (k) { case 0: return ILU0CG(A, M, bb, it, eps); case 1: return ILU0BiCGSTAB(A, M, bb, it, eps); case 2: return ScalingCG(A, bb, it, eps); case 3: return ScalingBiCGSTAB(A, bb, it, eps); default: return SORCG(A, bb, it, eps, 1.0, 120, 1e-13); } };
    c.desc << NAMES[k] << " n=" << n << " eps=" << eps << " A=" << (n <= 6 ? show(a) : "...") << " b=" << (n <= 6 ? show(b) : "..."); c.label(NAMES[k]);
    dvec x = go(b); bool f = failed(c); same(c, b, b0, 1, 0, "right-hand side"); same(c, ref(A), a, 1, 0, "matrix");
    if (f) {
        int bad = 0; if (k == 1 || k == 3) for (int t = 0; t < 4; t++) { dvec bb = b0; for (int i = 0; i < n; i++) bb[i] += 0.37*nrm(b0)*std::sin(1.0 + 3.7*i + 1.9*t); go(bb); if (failed(c)) bad++; }
        c.check((k == 1 || k == 3) && bad == 0 && n >= 2, std::string(NAMES[k]) + " fails on a well conditioned system"); c.label("breakdown"); return;
    }
    dvec e = solve(a, b); dmat inv = inverse(a); double lim = an(inv)*(eps*nrm(b)*1.01 + 1e-9*(an(a)*nrm(e) + nrm(b)))*std::sqrt((double)n);
    same(c, x, e, lim, 1.0, std::string(NAMES[k]) + ": solution"); c.nontrivial(n >= 2);
}
LAW(zero_rhs, 400, 4000, "a zero right-hand side through every preconditioned solver; non-trivial for order >= 2") {
    int k = s.range(0, 4); int n = s.range(1, 8); dmat a = spd(s, n, 0.5); dvec b(n, 0.0); C A = sparse(&s, a); C M = ILU0(A); c.desc << NAMES[k] << " n=" << n;
    dvec x = k == 0 ? ILU0CG(A, M, b, 50, 1e-8) : k == 1 ? ILU0BiCGSTAB(A, M, b, 50, 1e-8) : k == 2 ? ScalingCG(A, b, 50, 1e-8) : k == 3 ? ScalingBiCGSTAB(A, b, 50, 1e-8) : SORCG(A, b, 50, 1e-8, 1.0, 20, 1e-13);
    c.check(!failed(c), std::string(NAMES[k]) + " reports failure for a zero right-hand side"); same(c, x, b, 1, 0, "solution"); c.nontrivial(n >= 2);
}
LAW(scaling, 5000, 50000, "extraction of the diagonal and division by it; non-trivial for order >= 2") {
    int n = s.range(1, 20); dmat a = matrix(s, n); C A = sparse(&s, a, true); dvec b = rhs(s, n); dvec d = GetDiagonal(A); c.desc << "n=" << n;
    dvec e(n), q(n); for (int i = 0; i < n; i++) { e[i] = a(i, i); q[i] = b[i]/a(i, i); }
    same(c, d, e, 1, 0, "diagonal"); same(c, Scaling(d, b), q, 1 + amax(q), 1e-13, "scaled vector"); c.nontrivial(n >= 2);
}
LAW(large, 3000, 30000, "conduction and convection-diffusion matrices of 40..250 unknowns on lines and grids: the incomplete factorisation keeps the pattern and reproduces the matrix on it, and every preconditioned solver reaches the residual asked for; always non-trivial") {
    int k = s.range(0, 4), n = s.range(40, s.chance(1, 4) ? 250 : 110), w = s.coin() ? 1 : s.range(3, 16); Bulk b(s); bool sym = k == 0 || k == 2 || k == 4; double shift = s.logreal(k == 4 ? 0.5 : 0.03, 1.0), conv = sym ? 0.0 : 0.3; dmat a(n, n);
    for (int i = 0; i < n; i++) for (int j : {i + 1, i + w}) { if (j >= n || (j == i + 1 && w > 1 && j%w == 0)) continue; double q = 0.5 + b.unit(), v = conv*b.sreal(1)*q; a(i, j) = -q + v; a(j, i) = -q - v; if (w == 1) break; }
    for (int i = 0; i < n; i++) { double q = 0; for (int j = 0; j < n; j++) if (j != i) q += 0.5*(std::fabs(a(i, j)) + std::fabs(a(j, i))); a(i, i) = q + shift; }
    c.desc << NAMES[k] << " n=" << n << " width=" << w; c.label(NAMES[k]); C A = sparse(nullptr, a), M = ILU0(A); double sc = an(a); std::vector<std::vector<int> > nz(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (a(i, j) != 0) nz[i].push_back(j);
    std::vector<std::map<int, double> > f(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double v = M.get(i, j); if (a(i, j) == 0) c.check(v == 0.0, "entry outside the pattern"); else f[i][j] = v; }
    for (int i = 0; i < n; i++) for (int j : nz[i]) { double v = 0; for (auto& p : f[i]) { int t = p.first; if (t > i || t > j) continue; double l = t == i ? 1.0 : p.second; auto u = f[t].find(j); if (u != f[t].end()) v += l*u->second; } if (!(std::fabs(v - a(i, j)) <= 1e-10*sc)) c.near(v, a(i, j), sc, 1e-10, "(L*U) on the pattern, entry " + std::to_string(i) + "," + std::to_string(j)); }
    dvec x(n); for (auto& v : x) v = b.sreal(2); double eps = std::pow(10.0, -(double)s.range(4, 9)); int it = 40*n + 200; dvec r0 = x;
    auto go = [&](dvec& bb) { switch (k) { case 0: return ILU0CG(A, M, bb, it, eps); case 1: return ILU0BiCGSTAB(A, M, bb, it, eps); case 2: return ScalingCG(A, bb, it, eps); case 3: return ScalingBiCGSTAB(A, bb, it, eps); default: return SORCG(A, bb, it, eps, 1.0, 120, 1e-13); } };
    dvec y = go(x); bool bad = failed(c); same(c, x, r0, 1, 0, "right-hand side");
    if (bad) { int again = 0; if (!sym) for (int t = 0; t < 4; t++) { dvec bb = r0; for (int i = 0; i < n; i++) bb[i] += 0.5*std::sin(1.0 + 3.7*i + 1.9*t); go(bb); if (failed(c)) again++; } c.check(!sym && again < 2, std::string(NAMES[k]) + " fails on a well conditioned system"); c.label("breakdown"); return; }
    c.atmost(nrm(add(r0, mul(a, y), -1)), eps*nrm(r0)*1.01 + 1e-9*(sc*nrm(y) + nrm(r0)), std::string(NAMES[k]) + ": residual"); c.nontrivial(true);
}
// A = L D^(1/2) B D^(1/2) L^T (symmetric) or L B U with B of few different eigenvalues: preconditioned by the factors it keeps those eigenvalues
static dmat preconditioned(pbt::Src& s, int n, const dmat& B, bool sym, dmat& m) {
    dmat L = eye(n), U(n, n); dvec d(n); for (auto& x : d) x = s.logreal(0.5, 2.0); bool sparsely = s.coin(); for (int i = 0; i < n; i++) { U(i, i) = d[i]; for (int j = 0; j < i; j++) if (!sparsely || s.coin()) { L(i, j) = 0.7*s.sreal(1.0)/n; if (!sym) U(j, i) = 0.7*s.sreal(1.0)/n; else U(j, i) = d[j]*L(i, j); } }
    m = U; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) m(i, j) = L(i, j);
    if (!sym) return mul(L, mul(B, U)); dmat S(n, n); for (int i = 0; i < n; i++) S(i, i) = std::sqrt(d[i]); dmat a = mul(L, mul(S, mul(B, mul(S, tr(L))))); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a(i, j) = a(j, i); return a;
}
LAW(few_values, 20000, 250000, "systems (order 2..14) that given triangular factors reduce to 1..4 different eigenvalues, symmetric for ILU(0)-CG and unsymmetric for ILU(0)-BiCGSTAB: solved to 1e-7 within one iteration more than there are different values (finite termination); relaxation-CG with converged relaxation: within two iterations; non-trivial with two different values or more") {
    int k = s.range(0, 2), d = s.range(1, 4), n = s.range(std::max(2, d), 14); dmat a, m; dvec v = values(s, d); if (k == 2) { a = spd(s, n, s.real(0.5, 1.5)); m = eye(n); } else a = preconditioned(s, n, withvalues(s, n, v), k == 0, m); double f = s.chance(1, 4) ? s.logreal(1e-12, 1e12) : 1.0; a = scale(a, f); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) m(i, j) *= f;
    dvec b(n); for (auto& x : b) x = s.nonzero(2.0); double U = s.chance(1, 3) ? s.logreal(1e-12, 1e12) : 1.0; b = scale(b, U); dvec b0 = b; C A = sparse(&s, a), M = sparse(&s, m); int it = k == 2 ? 2 : d + 1; const char* name = k == 0 ? "ILU0CG" : k == 1 ? "ILU0BiCGSTAB" : "SORCG"; c.desc << name << " n=" << n << " values " << show(v) << " A=" << show(a) << " factors " << show(m) << " b=" << show(b); c.label(name);
    auto go = [&](dvec& bb) { return k == 0 ? ILU0CG(A, M, bb, it, 1e-7) : k == 1 ? ILU0BiCGSTAB(A, M, bb, it, 1e-7) : SORCG(A, bb, it, 1e-7, 1.0, 150, 1e-14); };
    auto off = [&](const dvec& x, const dvec& bb) { return nrm(add(bb, mul(a, x), -1))/(1e-7*nrm(bb)*1.01 + 1e-9*(an(a)*nrm(x) + nrm(bb))); };
    dvec x = go(b); bool g = failed(c); same(c, b, b0, 1, 0, "right-hand side"); same(c, ref(A), a, 1, 0, "matrix"); same(c, ref(M), m, 1, 0, "factors"); bool bad = g || !(off(x, b) <= 1);
    if (bad && k == 1) { int t = 0, seen = 0; for (; seen < 12; seen++) { dvec bb = b0; for (int i = 0; i < n; i++) bb[i] += 0.37*nrm(b0)*std::sin(1.0 + 3.7*i + 1.9*seen); dvec y = go(bb); bool q = failed(c); if (q || !(off(y, bb) <= 1)) t++; } bad = 2*t > seen; c.label("breakdown"); }
    c.check(!bad, std::string(name) + (g ? " reports failure although it must be finished" : ": residual after the last iteration")); c.nontrivial(k == 2 || d >= 2);
}
LAW(best_iterate, 20000, 250000, "ILU(0)-CG stopped after 1..6 iterations, with the library's factors of an SPD matrix or with given factors (order 2..16): the best approximation in the energy norm over that many preconditioned Krylov vectors; non-trivial when stopped before the end") {
    int n = s.range(2, 16), k = s.range(1, 6); dmat a, m; if (s.coin()) { int d = s.range(2, std::min(n, 8)); a = preconditioned(s, n, withvalues(s, n, values(s, d)), true, m); } else { a = spd(s, n, s.real(0.1, 1.0), s.chance(1, 3) ? 50.0 : 1.0); C A = sparse(&s, a), M = ILU0(A); m = ref(M); }
    dmat L, U; split(m, L, U); dvec b = rhs(s, n), b0 = b; C A = sparse(&s, a), M = sparse(&s, m); c.desc << "ILU0CG n=" << n << " iterations " << k << " A=" << show(a) << " factors " << show(m) << " b=" << show(b); dmat P = mul(L, U); dvec e = best(a, b, k, [&](const dvec& r) { return solve(P, r); });
    dvec x = ILU0CG(A, M, b, k, 1e-11); bool f = failed(c); same(c, b, b0, 1, 0, "right-hand side"); c.near(energy(a, add(x, e, -1))/energy(a, e), 0, 1, 1e-6, "distance to the best approximation"); c.nontrivial(f);
}
LAW(stabilised, 20000, 250000, "ILU(0)-BiCGSTAB stopped after 1..4 iterations on SPD and dominant unsymmetric matrices (order 3..14) with the library's or with given factors: the residual of the vector returned is the one that defines the method for the preconditioned operator; non-trivial when stopped before the end after two iterations or more") {
    int n = s.range(3, 14), k = s.range(1, 4); dmat a = s.coin() ? spd(s, n, s.real(0.1, 1.0), s.chance(1, 3) ? 20.0 : 1.0) : dominant(s, n, s.real(0.1, 1.0)), m; magnify(s, a); C A = sparse(&s, a, true); if (s.coin()) { m = dmat(n, n); double w = an(a); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = i == j ? w*s.real(0.5, 2.0) : s.chance(1, 2) ? 0.0 : (j > i ? w : 1.0)*0.7*s.sreal(1.0)/n; } else { C F = ILU0(A); m = ref(F); } C M = sparse(&s, m);
    dvec b(n); for (auto& x : b) x = s.nonzero(2.0); double U = s.chance(1, 3) ? s.logreal(1e-12, 1e12) : 1.0; b = scale(b, U); dvec b0 = b; dmat L, V; split(m, L, V); dmat B = mul(a, inverse(mul(L, V))); dvec e = stabilised(B, scale(b, 1/U), k, false); if (!(nrm(e) > 1e-5*nrm(b)/U)) throw pbt::Reject(); c.desc << "ILU0BiCGSTAB n=" << n << " iterations " << k << " A=" << show(a) << " factors " << show(m) << " b=" << show(b);
    dvec x = ILU0BiCGSTAB(A, M, b, k, 1e-12); bool f = failed(c); same(c, b, b0, 1, 0, "right-hand side"); dvec r = scale(add(b, mul(a, x), -1), 1/U); dmat a2 = disturbed(a); C A2 = sparse(nullptr, a2); dvec x2 = ILU0BiCGSTAB(A2, M, b, k, 1e-12), r2 = scale(add(b, mul(a2, x2), -1), 1/U); failed(c); if (nrm(add(r, r2, -1)) > 1e-5*(nrm(e) + 1e-3*nrm(b)/U)) throw pbt::Reject(); c.near(nrm(add(r, e, -1)), 0, nrm(e) + 1e-3*nrm(b)/U, 1e-3, "distance to the defining residual"); c.nontrivial(f && k >= 2);
}
