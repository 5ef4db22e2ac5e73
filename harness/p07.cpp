#include "util.h"
#include <cassert>
#include "LinearAlgebra/Solvers/LU.h"
using namespace PANSFEM2;
static double rown(const dmat& a) { double m = 0; for (int i = 0; i < a.r; i++) { double q = 0; for (int j = 0; j < a.c; j++) q += std::fabs(a(i, j)); m = std::max(m, q); } return m; }
// Regular matrices of many kinds, most of which cannot be eliminated without exchanging rows
static dmat regular(pbt::Src& s, pbt::Ctx& c) {
    int n = s.chance(1, 10) ? s.range(1, 24) : s.range(1, 8); dmat a(n, n); int kind = s.range(0, 6);
    static const char* K[] = {"random", "permutation", "zero_diagonal", "tiny_diagonal", "triangular_permuted", "spd", "integer"}; c.label(K[kind]);
    if (kind == 1) { auto p = s.permutation(n); for (int i = 0; i < n; i++) a(i, p[i]) = s.nonzero(3.0); }
    else if (kind == 4) { auto p = s.permutation(n), q = s.permutation(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) a(p[i], q[j]) = i == j ? s.nonzero(2.0) : s.sreal(1.0); }
    else if (kind == 5) { dmat b(n, n); for (auto& x : b.v) x = s.sreal(1.0); a = mul(b, tr(b)); for (int i = 0; i < n; i++) a(i, i) += 0.2; }
    else if (kind == 6) { for (auto& x : a.v) x = s.srange(3); }
    else { for (auto& x : a.v) x = s.sreal(2.0); if (kind >= 2) for (int i = 0; i < n; i++) a(i, i) = kind == 2 ? 0.0 : s.sreal(1.0)*std::pow(10.0, -s.range(6, 18)); }
    if (s.chance(1, 3)) for (int i = 0; i < n; i++) { double f = s.logreal(1e-4, 1e4); for (int j = 0; j < n; j++) a(i, j) *= f; }   // badly scaled rows
    if (s.chance(1, 4)) a = scale(a, s.logreal(1e-12, 1e12));
    dmat b = eye(n); if (gauss(a, b) == 0.0) throw pbt::Reject();
    if (rown(a)*rown(b) > 1e10) throw pbt::Reject();
    return a;
}
LAW(solve, 120000, 2000000, "a regular matrix of order 1..24 (random, permuted triangular, zero or tiny diagonal, integer, badly scaled rows), factorised once and solved for 1..3 right-hand sides in turn: residual small against |A||x|; factors and pivots unchanged by solving; non-trivial when at least one row exchange was made") {
    dmat a = regular(s, c); int n = a.r; LMat A = lib(a); std::vector<int> piv(n, s.range(-5, 5)); LU(A, piv); dmat f = ref(A); std::vector<int> p0 = piv;
    c.desc << "n=" << n << " A=" << (n <= 5 ? show(a) : "..."); bool ex = false; for (int i = 0; i < n; i++) if (piv[i] != i) ex = true; int k = s.range(1, 3);
    for (int t = 0; t < k; t++) {
        dvec b(n); for (auto& x : b) x = s.sreal(3.0); LVec B = lib(b); SolveLU(A, B, piv); dvec x = ref(B); c.check((int)x.size() == n, "length of the solution");
        dvec r = add(b, mul(a, x), -1); for (int i = 0; i < n; i++) { double g = std::fabs(b[i]); for (int j = 0; j < n; j++) g += std::fabs(a(i, j)*x[j]); for (int q = 0; q < n; q++) g = std::max(g, 0.0);
            double G = rown(a)*amax(x) + amax(b); c.atmost(std::fabs(r[i]), 1e-10*G, "residual in row " + std::to_string(i)); }
        dvec e = ::solve(a, b); dmat inv = inverse(a); same(c, x, e, rown(inv)*(rown(a)*amax(e) + amax(b)) + 1e-300, 1e-10, "solution");
        same(c, ref(A), f, 1, 0, "factors after solving"); c.check(piv == p0, "pivots after solving");
    }
    c.nontrivial(ex);
}
LAW(factors, 80000, 1200000, "the same matrices: the pivot list is a permutation of the rows and (unit lower)*(upper) reproduces the permuted matrix; non-trivial when at least one row exchange was made") {
    dmat a = regular(s, c); int n = a.r; LMat A = lib(a); std::vector<int> piv(n); LU(A, piv); dmat f = ref(A), L = eye(n), U(n, n); std::set<int> seen(piv.begin(), piv.end());
    c.desc << "n=" << n << " A=" << (n <= 5 ? show(a) : "..."); c.check((int)piv.size() == n && (int)seen.size() == n && *seen.begin() == 0 && *seen.rbegin() == n - 1, "the pivots are a permutation");
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (j < i ? L : U)(i, j) = f(i, j);
    dmat P = mul(L, U); double g = rown(a); bool ex = false;
    for (int i = 0; i < n; i++) { if (piv[i] != i) ex = true; for (int j = 0; j < n; j++) c.near(P(i, j), a(piv[i], j), g, 1e-11, "row " + std::to_string(i) + " of the product of the factors"); }
    c.nontrivial(ex);
}
LAW(superposition, 30000, 400000, "one factorisation, solutions for b1, b2 and p*b1+q*b2: linear in the right-hand side, and a column of the matrix gives a unit vector; non-trivial for order >= 2") {
    dmat a = regular(s, c); int n = a.r; LMat A = lib(a); std::vector<int> piv(n); LU(A, piv); double p = s.sreal(2.0), q = s.sreal(2.0); dvec b1(n), b2(n); for (auto& x : b1) x = s.sreal(2.0); for (auto& x : b2) x = s.sreal(2.0);
    auto go = [&](const dvec& b) { LVec B = lib(b); SolveLU(A, B, piv); return ref(B); };
    dvec x = go(b1), y = go(b2), z = go(add(scale(b1, p), b2, q)); dmat inv = inverse(a); double g = 1e-9*(rown(inv)*rown(a))*(1 + std::fabs(p) + std::fabs(q))*(amax(x) + amax(y) + 1e-12) + 1e-11*rown(inv)*8;
    same(c, z, add(scale(x, p), y, q), g, 1, "superposition"); int j = s.range(0, n - 1); dvec col(n), e(n, 0.0); e[j] = 1; for (int i = 0; i < n; i++) col[i] = a(i, j);
    same(c, go(col), e, rown(inv)*rown(a), 1e-10, "unit vector from a column"); c.desc << "n=" << n << " column " << j; c.nontrivial(n >= 2);
}
LAW(large, 2000, 30000, "matrices of order 25..120 (random, zero diagonal, permuted triangular, permuted diagonal, cyclic): residual, pivots a permutation, factors reproduce the permuted matrix; non-trivial when at least one row exchange was made") {
    int n = s.range(25, s.chance(1, 4) ? 120 : 60), kind = s.range(0, 4); Bulk b(s); dmat a(n, n); std::vector<int> p(n), q(n); for (int i = 0; i < n; i++) p[i] = q[i] = i; for (int i = n - 1; i > 0; i--) { std::swap(p[i], p[b.range(0, i)]); std::swap(q[i], q[b.range(0, i)]); }
    if (kind == 0) for (auto& t : a.v) t = b.sreal(2); else if (kind == 1) { for (auto& t : a.v) t = b.sreal(2); for (int i = 0; i < n; i++) a(i, i) = 0; } else if (kind == 2) for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) a(p[i], q[j]) = i == j ? 1 + b.unit() : b.sreal(0.3);
    else if (kind == 3) for (int i = 0; i < n; i++) a(i, p[i]) = (b.range(0, 1) ? 1 : -1)*(0.5 + b.unit()); else for (int i = 0; i < n; i++) { a(i, (i + 1)%n) = 2 + b.unit(); a(i, i) = b.sreal(0.5); }
    c.desc << "n=" << n << " kind " << kind; LMat A = lib(a); std::vector<int> piv(n); LU(A, piv); dmat f = ref(A), L = eye(n), U(n, n); std::set<int> seen(piv.begin(), piv.end()); c.check((int)piv.size() == n && (int)seen.size() == n && *seen.begin() == 0 && *seen.rbegin() == n - 1, "the pivots are a permutation");
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (j < i ? L : U)(i, j) = f(i, j); dmat P = mul(L, U); double g = rown(a); bool ex = false; for (int i = 0; i < n; i++) { if (piv[i] != i) ex = true; for (int j = 0; j < n; j++) if (!(std::fabs(P(i, j) - a(piv[i], j)) <= 1e-10*g)) c.near(P(i, j), a(piv[i], j), g, 1e-10, "row " + std::to_string(i) + " of the product of the factors"); }
    for (int t = 0; t < 2; t++) { dvec y(n); for (auto& v : y) v = b.sreal(3); LVec B = lib(y); SolveLU(A, B, piv); dvec x = ref(B), r = add(y, mul(a, x), -1); c.atmost(amax(r), 1e-10*(g*amax(x) + amax(y)), "residual"); } same(c, ref(A), f, 1, 0, "factors after solving"); c.nontrivial(ex);
}
