// What Krylov methods promise about the path, shared by the solver harnesses.
#pragma once
#include "sparse.h"
#include <functional>
inline dmat orthogonal(pbt::Src& s, int n) {
    dmat q = eye(n); int k = s.range(1, 3);
    for (int t = 0; t < k; t++) { dvec v(n); for (auto& x : v) x = s.sreal(1.0); if (nrm(v) < 0.1) v[t%n] = 1; double d = dot(v, v); dmat h = eye(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) h(i, j) -= 2*v[i]*v[j]/d; q = mul(h, q); }
    return q;
}
// d well separated positive values
inline dvec values(pbt::Src& s, int d) { dvec v; double x = s.real(0.5, 2.0); for (int i = 0; i < d; i++) { v.push_back(x); x *= s.real(1.5, 2.5); } return v; }
// symmetric positive definite with the given different eigenvalues
inline dmat withvalues(pbt::Src& s, int n, const dvec& v) { dmat q = orthogonal(s, n), a(n, n); dvec l(n); for (int i = 0; i < n; i++) l[i] = v[i < (int)v.size() ? i : s.range(0, (int)v.size() - 1)]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) a(i, j) += q(i, k)*l[k]*q(j, k); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a(i, j) = a(j, i); return a; }
// the same with a constant diagonal: a symmetric circulant with its rows renumbered and signs changed
inline dmat circulant(pbt::Src& s, int n, const dvec& v) {
    dvec l(n); for (int k = 0; k <= n/2; k++) { double x = v[k < (int)v.size() ? k : s.range(0, (int)v.size() - 1)]; l[k] = x; if (k) l[n - k] = x; } dmat a(n, n), b(n, n); std::vector<int> p = s.permutation(n); dvec g(n); for (auto& x : g) x = s.coin() ? 1.0 : -1.0;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) a(i, j) += l[k]*std::cos(2*M_PI*k*(i - j)/n)/n;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b(p[i], p[j]) = a(i, j)*g[i]*g[j]; for (int i = 0; i < n; i++) { for (int j = 0; j < i; j++) b(i, j) = b(j, i); b(i, i) = a(0, 0); } return b;
}
// the best approximation of the solution in the energy norm over the first k Krylov vectors of the preconditioned system
inline dvec best(const dmat& a, const dvec& b, int k, const std::function<dvec(const dvec&)>& precondition) {
    int n = a.r; dvec x(n, 0.0), v = precondition(b); std::vector<dvec> V;
    for (int t = 0; t < k; t++) {
        double e0 = std::sqrt(dot(v, mul(a, v))); for (int pass = 0; pass < 2; pass++) for (auto& w : V) { double h = dot(w, mul(a, v)); v = add(v, w, -h); }
        double e = std::sqrt(std::max(0.0, dot(v, mul(a, v)))); if (!(e > 1e-9*e0)) break; v = scale(v, 1/e); V.push_back(v); x = add(x, v, dot(v, b)); v = precondition(mul(a, v));
    }
    return x;
}
inline double energy(const dmat& a, const dvec& x) { return std::sqrt(std::max(0.0, dot(x, mul(a, x)))); }
// the residual of BiCGSTAB (pairs == false) or BiCGSTAB2 (pairs == true) after k iterations from a zero start, for the operator B (A times
// the inverse of the preconditioner), by its definition: the formal orthogonal polynomial P_k with respect to the moments (b, B^i b), times
// stabilising factors each of which makes the residual least: a linear one per iteration, or (every second one) a quadratic in place of the last
inline dvec stabilised1(const dmat& B0, const dvec& b, int k, bool pairs) {
    int n = B0.r; double sc = 0; for (int i = 0; i < n; i++) { double q = 0; for (int j = 0; j < n; j++) q += std::fabs(B0(i, j)); sc = std::max(sc, q); } dmat B = scale(B0, 1/sc);
    std::vector<dvec> pw = {b}; for (int i = 0; i < 2*k; i++) pw.push_back(mul(B, pw.back())); dvec mu; for (auto& v : pw) mu.push_back(dot(b, v)/dot(b, b));
    auto residual = [&](int m) { dvec r = b; if (m == 0) return r; dmat H(m, m); dvec h(m); for (int i = 0; i < m; i++) { h[i] = -mu[i]; for (int j = 0; j < m; j++) H(i, j) = mu[i + j + 1]; } dvec c = solve(H, h); for (double x : c) if (!(std::fabs(x) < 1e5)) throw pbt::Reject(); for (int j = 0; j < m; j++) r = add(r, pw[j + 1], c[j]); return r; };
    std::vector<dvec> Q; auto apply = [&](const dvec& q, const dvec& v) { dvec r = v, w = v; for (double x : q) { w = mul(B, w); r = add(r, w, x); } return r; }; dvec r;
    for (int m = 1; m <= k; m++) {
        r = residual(m); bool quad = pairs && m%2 == 0; if (quad) Q.pop_back(); for (auto& q : Q) r = apply(q, r); dvec u = mul(B, r), q;
        if (!quad) q = {-dot(u, r)/dot(u, u)}; else { dvec w = mul(B, u); double a = dot(u, u), h = dot(u, w), d = dot(w, w), e = dot(u, r), f = dot(w, r), det = a*d - h*h; if (!(det > 1e-7*a*d)) throw pbt::Reject(); q = {-(e*d - f*h)/det, -(a*f - h*e)/det}; }
        if (!(nrm(r) > 1e-6*nrm(b))) throw pbt::Reject(); r = apply(q, r); Q.push_back(q); if (m < k && !(std::fabs(dot(b, r)) > 1e-3*nrm(b)*nrm(r))) throw pbt::Reject(); if (std::fabs(q.back()) < 1e-3) throw pbt::Reject();
    }
    return r;
}
// the same, rejecting data in whose path a disturbance far above rounding would show
inline dvec stabilised(const dmat& B, const dvec& b, int k, bool pairs) {
    dvec e = stabilised1(B, b, k, pairs); dmat D = B; dvec d = b; for (int i = 0; i < B.r; i++) { d[i] *= 1 + 1e-11*std::cos(1.0 + 2.3*i); for (int j = 0; j < B.c; j++) D(i, j) *= 1 + 1e-11*std::sin(1.0 + 1.7*i + 0.9*j); }
    dvec f = stabilised1(D, d, k, pairs); if (!(nrm(add(f, e, -1)) < 1e-6*(nrm(e) + 1e-3*nrm(b)))) throw pbt::Reject(); return e;
}
// the data disturbed by 1e-10, to see whether a path is well conditioned
inline dmat disturbed(const dmat& a) { dmat b = a; for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) b(i, j) *= 1 + 1e-10*std::sin(2.0 + 1.3*i + 2.1*j); return b; }
