// Reference elasticity, written from the textbook formulas
#pragma once
#include "geom.h"
inline dmat bmat(const Pt& p, int d) { int n = (int)p.N.size(); dmat B(d == 2 ? 3 : 6, d*n); for (int i = 0; i < n; i++) { auto g = [&](int k) { return p.dNdX(k, i); }; if (d == 2) { B(0, 2*i) = g(0); B(1, 2*i + 1) = g(1); B(2, 2*i) = g(1); B(2, 2*i + 1) = g(0); } else { for (int k = 0; k < 3; k++) B(k, 3*i + k) = g(k); B(3, 3*i) = g(1); B(3, 3*i + 1) = g(0); B(4, 3*i + 1) = g(2); B(4, 3*i + 2) = g(1); B(5, 3*i) = g(2); B(5, 3*i + 2) = g(0); } } return B; }
inline double lame1(double E, double v) { return E*v/((1 + v)*(1 - 2*v)); }
inline double lame2(double E, double v) { return E/(2*(1 + v)); }
inline dmat law_D(int d, double lambda, double mu) { int m = d == 2 ? 3 : 6; dmat D(m, m); for (int i = 0; i < d; i++) { for (int j = 0; j < d; j++) D(i, j) = lambda; D(i, i) += 2*mu; } for (int i = d; i < m; i++) D(i, i) = mu; return D; }
inline dmat strain_D(double E, double v) { return law_D(2, lame1(E, v), lame2(E, v)); }
inline dmat stress_D(double E, double v) { double m = lame2(E, v), l = lame1(E, v); return law_D(2, 2*l*m/(l + 2*m), m); }
inline dmat solid_D(double E, double v) { return law_D(3, lame1(E, v), lame2(E, v)); }
inline dmat sandwich(const dmat& B, const dmat& D, double f) { return scale(mul(tr(B), mul(D, B)), f); }
inline dmat stiffness(const std::vector<Pt>& P, int d, const dmat& D, double t) { dmat K((int)P[0].N.size()*d, (int)P[0].N.size()*d); for (auto& p : P) K = add(K, sandwich(bmat(p, d), D, p.dV*t)); return K; }
inline double poisson(pbt::Src& s) { return s.chance(1, 6) ? s.pick(std::vector<double>{0.0, 0.25, 0.45, 0.49}) : s.real(-0.3, 0.47); }
inline double modulus(pbt::Src& s) { return s.coin() ? 1.0 : s.logreal(1e-6, 1e12); }
inline double thick(pbt::Src& s) { return s.chance(1, 4) ? 1.0 : s.logreal(1e-4, 1e4); }
inline dmat spd3(pbt::Src& s) { dmat L(3, 3); for (int i = 0; i < 3; i++) { for (int j = 0; j < i; j++) L(i, j) = s.sreal(0.6); L(i, i) = s.real(0.5, 1.5); } return scale(mul(L, tr(L)), s.logreal(1e-6, 1e10)); }
// nodal values of u = a + G x
inline dvec affine(const Geo& g, const dmat& G, const dvec& a) { dvec u; for (auto& p : g.p) { dvec v = add(mul(G, p), a); u.insert(u.end(), v.begin(), v.end()); } return u; }
inline dvec voigt(const dmat& G) { if (G.r == 2) return {G(0, 0), G(1, 1), G(0, 1) + G(1, 0)}; return {G(0, 0), G(1, 1), G(2, 2), G(0, 1) + G(1, 0), G(1, 2) + G(2, 1), G(2, 0) + G(0, 2)}; }
// what a linear stiffness has to do: symmetric, semidefinite, free of rigid motion, exact for homogeneous strain
inline void elastic(pbt::Src& s, pbt::Ctx& c, const Geo& g, const dmat& K, const dmat& D, double t, bool patch, bool full, double tol, bool energy = true) {
    int d = g.d, N = d*g.n; double sc = amax(K); c.check(sc > 0 && std::isfinite(sc), "the stiffness is finite and not zero"); same(c, K, tr(K), sc, 1e-12, "symmetry of the stiffness");
    dvec a(d); for (auto& v : a) v = s.sreal(1.0); dmat W(d, d); for (int i = 0; i < d; i++) for (int j = 0; j < i; j++) { W(i, j) = s.nonzero(1.0); W(j, i) = -W(i, j); }
    double h = size_of(g), far = 0; for (auto& p : g.p) far = std::max(far, amax(p)); dvec u = affine(g, W, a); same(c, mul(K, u), dvec(N, 0.0), sc*(far + 1), tol, "force under a rigid motion");
    if (patch) { dmat G(d, d); for (auto& v : G.v) v = s.sreal(1.0); dvec f = mul(K, affine(g, G, a)), e(N, 0.0), sg = mul(D, voigt(G)); for (auto& p : points(g)) e = add(e, mul(tr(bmat(p, d)), sg), p.dV*t); same(c, f, e, sc*(far + 1), tol, "force under a homogeneous strain"); }
    if (full && (N <= 24 ? s.chance(1, 4) : s.chance(1, 20))) { dvec w = eigenvalues(K); int z = d == 2 ? 3 : 6; double top = w.back(); c.check(w[0] >= -1e-9*top, "the stiffness is semidefinite"); c.check(w[z - 1] <= 1e-9*top, "rigid motions have no energy"); c.check(w[z] > 1e-8*top, "every other motion has energy"); c.label("spectrum"); }
    else if (energy) { dvec v(N); for (auto& x : v) x = s.sreal(1.0); c.check(dot(v, mul(K, v)) >= -1e-10*sc*N*std::max(1.0, dot(v, v)), "energy is not negative"); }
    (void)h;
}
