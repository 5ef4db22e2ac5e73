#include "sparse.h"
#include "LinearAlgebra/Solvers/Lanczos.h"
typedef CSR<double> C;
static dmat tridiag(const dvec& al, const dvec& be) { int m = (int)al.size(); dmat t(m, m); for (int i = 0; i < m; i++) { t(i, i) = al[i]; if (i + 1 < m) t(i, i + 1) = t(i + 1, i) = be[i]; } return t; }
static dmat orthogonal(pbt::Src& s, int n) { dmat q = eye(n); for (int k = 0; k < n + 2; k++) { dvec v(n); for (auto& x : v) x = s.sreal(1.0); double g = dot(v, v); if (g < 1e-3) { v[k%n] = 1; g = dot(v, v); } dmat h = eye(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) h(i, j) -= 2*v[i]*v[j]/g; q = mul(q, h); } return q; }
static dmat cholesky(const dmat& a) { int n = a.r; dmat l(n, n); for (int j = 0; j < n; j++) { double d = a(j, j); for (int k = 0; k < j; k++) d -= l(j, k)*l(j, k); if (!(d > 0)) throw pbt::Reject(); l(j, j) = std::sqrt(d); for (int i = j + 1; i < n; i++) { double q = a(i, j); for (int k = 0; k < j; k++) q -= l(i, k)*l(j, k); l(i, j) = q/l(j, j); } } return l; }
static dvec separated(pbt::Src& s, int n) { dvec w(n); double x = s.real(0.5, 2.0); for (int i = 0; i < n; i++) { w[i] = x; x *= s.real(1.4, 2.2); } return w; }
static void symm(dmat& a) { for (int i = 0; i < a.r; i++) for (int j = 0; j < i; j++) a(i, j) = a(j, i) = 0.5*(a(i, j) + a(j, i)); }

LAW(bisection, 40000, 600000, "a random symmetric tridiagonal matrix (order 1..12, at times 150, of any magnitude, with couplings of either sign, also decoupled and with whole numbers): the k-th value found by bisection is the k-th smallest eigenvalue; non-trivial for order >= 3") {
    int m = few(s, 1, 12, 150, 40); dvec al(m), be(m); double f = s.logreal(1e-12, 1e12); for (auto& x : al) x = f*s.sreal(2.0); for (auto& x : be) x = f*s.real(0.05, 1.0); if (s.chance(1, 5)) for (auto& x : al) x = f*s.range(-2, 2); if (s.chance(1, 5)) for (auto& x : be) if (s.coin()) x = 0; if (s.chance(1, 40)) { for (auto& x : al) x = 0; for (auto& x : be) x = 0; }
    if (s.coin()) be[m - 1] = s.coin() ? 0.0 : f*1e-9;
    if (s.coin()) for (auto& x : be) if (s.coin()) x = -x;
    dvec w = eigenvalues(tridiag(al, be)); double g = 3*f; c.desc << "m=" << m << " alpha=" << show(al) << " beta=" << show(be);
    for (int k = 0; k < m; k++) c.near(BisectionMethod(al, be, k), w[k], g, 1e-12, "eigenvalue " + std::to_string(k)); c.nontrivial(m >= 3);
}
LAW(inverse_iteration, 6000, 100000, "a random coupled tridiagonal matrix (order 1..8) with separated eigenvalues: the vector returned for an eigenvalue is its normalised eigenvector; non-trivial for order >= 3") {
    int m = s.range(1, 8); dvec al(m), be(m); for (auto& x : al) x = s.sreal(2.0); for (auto& x : be) x = s.real(0.2, 1.0); double f = s.chance(1, 3) ? s.logreal(1e-12, 1e12) : 1; for (auto& x : al) x *= f; for (auto& x : be) x *= s.chance(1, 4) ? -f : f; dmat T = tridiag(al, be); dvec w = eigenvalues(T); int k = s.range(0, m - 1); c.desc << "m=" << m << " alpha=" << show(al) << " beta=" << show(be) << " k=" << k;
    for (int i = 0; i + 1 < m; i++) if (w[i + 1] - w[i] < 0.05*f) throw pbt::Reject();
    double lam = w[k] + 1e-12*f*s.nonzero(1.0); dvec y = InversePowerMethod(al, be, lam); c.near(nrm(y), 1, 1, 1e-9, "norm"); same(c, mul(T, y), scale(y, w[k]), 4*f, 1e-6, "T*y = lambda*y"); c.nontrivial(m >= 3);
}
static const char* NAMES[] = {"Lanczos", "RestartLanczos", "ShiftedInvertLanczos", "GeneralShiftedInvertLanczos", "GeneralRestartShiftedInvertLanczos"};
struct Problem { dmat a, b; dvec w; dmat V; };   // a V = b V diag(w), V' b V = 1
static Problem problem(pbt::Src& s, int n, bool general) {
    Problem p; p.w = separated(s, n); if (s.chance(1, 3)) { double f = s.logreal(1e-10, 1e10); for (auto& x : p.w) x *= f; } dmat Q = orthogonal(s, n), D(n, n); for (int i = 0; i < n; i++) D(i, i) = p.w[i];
    if (!general) { p.a = mul(Q, mul(D, tr(Q))); symm(p.a); p.b = eye(n); p.V = Q; return p; }
    dmat E(n, n); for (int i = 0; i < n; i++) E(i, i) = s.logreal(0.3, 3.0); dmat R = orthogonal(s, n); p.b = mul(R, mul(E, tr(R))); symm(p.b); double f = s.logreal(1e-8, 1e8); if (s.coin()) p.b = scale(p.b, f);
    dmat L = cholesky(p.b); p.V = mul(inverse(tr(L)), Q); p.a = mul(L, mul(Q, mul(D, mul(tr(Q), tr(L))))); symm(p.a); return p;
}
static void go(int k, C& A, C& B, dvec& w, std::vector<dvec>& v, int m, double sigma) {
    switch (k) { case 0: Lanczos(A, w, v, m); break; case 1: RestartLanczos(A, w, v, m); break; case 2: ShiftedInvertLanczos(A, w, v, m, sigma); break; case 3: GeneralShiftedInvertLanczos(A, B, w, v, m, sigma); break; default: GeneralRestartShiftedInvertLanczos(A, B, w, v, m, sigma); }
}
// the start vector must not be deficient in a wanted eigenvector: it is the diagonal of the (shifted) matrix
static void excite(const Problem& p, double sigma) {
    int n = p.a.r; dvec d(n); for (int i = 0; i < n; i++) d[i] = p.a(i, i) - sigma*p.b(i, i); dvec bd = mul(p.b, d); double g = std::sqrt(dot(d, bd));
    for (int i = 0; i < n; i++) { double q = 0; for (int k = 0; k < n; k++) q += p.V(k, i)*bd[k]; if (std::fabs(q) < 0.03*g) throw pbt::Reject(); }
}
LAW(full, 12000, 200000, "every routine run to the full dimension (order 2..6, separated eigenvalues, shift below the spectrum, mass matrices of any scale): all eigenpairs, ascending, satisfy A v = lambda B v, and the vectors are orthonormal in the B inner product; non-trivial for order >= 3") {
    int k = s.range(0, 4), n = s.range(2, k < 1 ? 5 : 6); Problem p = problem(s, n, k >= 3); double sigma = k < 2 ? 0 : s.coin() ? 0.0 : s.coin() ? -s.real(0.1, 5.0)*p.w[0] : p.w[0] - s.real(0.2, 0.4)*p.w[0];
    excite(p, sigma); C A = sparse(&s, p.a), B = sparse(&s, p.b); dvec w; std::vector<dvec> v; go(k, A, B, w, v, n, sigma);
    c.desc << NAMES[k] << " n=" << n << " sigma=" << sigma << " eigenvalues " << show(p.w); c.label(NAMES[k]);
    c.check((int)w.size() == n && (int)v.size() == n, "number of pairs"); double an = amax(p.a)*n, bn = amax(p.b)*n;
    for (int i = 0; i < n; i++) {
        c.near(w[i], p.w[i], k < 2 ? p.w[n - 1] : (p.w[i] - sigma)*(p.w[i] - sigma)/(p.w[0] - sigma), k < 2 ? 1e-8 : 1e-7, "eigenvalue " + std::to_string(i));
        dvec bv = mul(p.b, v[i]); c.near(dot(v[i], bv), 1, 1, 1e-5, "B-norm of eigenvector " + std::to_string(i));
        same(c, mul(p.a, v[i]), scale(bv, w[i]), (an + bn*p.w[n - 1])*nrm(v[i]), 1e-5, "A v - lambda B v, pair " + std::to_string(i));
        for (int j = 0; j < i; j++) c.near(dot(v[j], bv), 0, 1, 1e-5, "B-orthogonality of " + std::to_string(i) + "," + std::to_string(j));
    }
    c.nontrivial(n >= 3);
}
LAW(partial, 10000, 150000, "fewer steps than the order (order 3..14): the values are ascending Rayleigh quotients (of the operator or of its shifted inverse) of B-orthonormal vectors, inside the spectrum, and the wanted end improves monotonically with the number of steps; non-trivial for 2 or more steps") {
    int k = s.range(0, 4), n = s.range(3, 14); Problem p; bool narrow = n > 6;
    if (narrow) { p.w = dvec(n); p.w[0] = 1; for (int i = 1; i < n; i++) p.w[i] = p.w[i - 1]*s.real(1.15, 1.35); dmat Q = orthogonal(s, n), D(n, n); for (int i = 0; i < n; i++) D(i, i) = p.w[i]; dmat F = eye(n); if (k >= 3) for (int i = 0; i < n; i++) F(i, i) = std::sqrt(s.logreal(0.3, 3.0)); p.b = mul(F, F); p.V = mul(inverse(F), Q); p.a = mul(F, mul(Q, mul(D, mul(tr(Q), F)))); symm(p.a); }
    else p = problem(s, n, k >= 3);
    double sigma = k < 2 ? 0 : s.coin() ? 0.0 : s.real(-3.0, 0.5)*p.w[0]; excite(p, sigma); int m = s.range(1, std::min(6, n - 1)); C A = sparse(&s, p.a), B = sparse(&s, p.b); dvec w, w2; std::vector<dvec> v, v2; go(k, A, B, w, v, m, sigma);
    c.desc << NAMES[k] << " n=" << n << " m=" << m << " sigma=" << sigma; c.label(NAMES[k]); double sc = p.w[n - 1] + std::fabs(sigma);
    c.check((int)w.size() == m && (int)v.size() == m, "number of pairs"); dmat S = add(p.a, p.b, -sigma);
    for (int i = 0; i < m; i++) {
        c.check(w[i] >= p.w[0] - 1e-6*sc && w[i] <= p.w[n - 1] + 1e-6*sc, "value " + std::to_string(w[i]) + " inside the spectrum"); if (i) c.check(w[i] > w[i - 1], "ascending values");
        dvec bv = mul(p.b, v[i]); c.near(dot(v[i], bv), 1, 1, 1e-5, "B-norm of vector " + std::to_string(i)); for (int j = 0; j < i; j++) c.near(dot(v[j], bv), 0, 1, 1e-5, "B-orthogonality of " + std::to_string(i) + "," + std::to_string(j));
        if (k < 2) c.near(dot(v[i], mul(p.a, v[i])), w[i], sc, 1e-6, "Rayleigh quotient");
        else { dvec y = solve(S, bv); c.near(dot(bv, y), 1/(w[i] - sigma), 1/(p.w[0] - sigma), 1e-5, "Rayleigh quotient of the shifted inverse"); }
    }
    go(k, A, B, w2, v2, m + 1, sigma); c.check(w2[0] <= w[0] + 1e-6*sc, "the lowest value does not rise with another step"); if (k < 2) c.check(w2[m] >= w[m - 1] - 1e-6*sc, "the highest value does not fall with another step"); c.nontrivial(m >= 2);
}
LAW(larger, 250, 6000, "tridiagonal matrices of order 13..60 (bisection) and symmetric banded and diagonal problems of order 20..120 with up to 10 Lanczos steps: eigenvalues, ascending Rayleigh quotients of orthonormal vectors inside the spectrum; always non-trivial") {
    Bulk b(s);
    if (s.coin()) { int m = s.range(13, 60); dvec al(m), be(m); for (auto& x : al) x = b.sreal(2); for (auto& x : be) x = 0.05 + b.unit(); if (std::fabs(al[0]) < 0.1) al[0] = 1; dvec w = eigenvalues(tridiag(al, be)); c.desc << "bisection m=" << m; for (int t = 0; t < 6; t++) { int k = t == 0 ? 0 : t == 1 ? m - 1 : b.range(0, m - 1); c.near(BisectionMethod(al, be, k), w[k], 3, 1e-12, "eigenvalue " + std::to_string(k)); } c.nontrivial(true); return; }
    int k = s.range(0, 4), n = s.range(20, 120), m = s.range(1, k < 2 ? 10 : 7); dmat a(n, n), B = eye(n); for (int i = 0; i < n; i++) { a(i, i) = 3 + 2*b.unit() + 4.0*i/n; for (int j : {i + 1, i + 4}) if (j < n) a(i, j) = a(j, i) = 0.3*b.sreal(1); } if (k >= 3) for (int i = 0; i < n; i++) B(i, i) = 0.3 + b.unit();
    dmat S = a; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) S(i, j) /= std::sqrt(B(i, i)*B(j, j)); dvec ew = eigenvalues(S); double lo = ew[0], hi = ew[n - 1], sigma = k < 2 ? 0 : s.coin() ? 0.0 : s.real(-2.0, 0.5)*lo; C A = sparse(nullptr, a), Bs = sparse(nullptr, B); dvec w; std::vector<dvec> v; go(k, A, Bs, w, v, m, sigma); c.desc << NAMES[k] << " n=" << n << " m=" << m << " sigma=" << sigma; c.label(NAMES[k]); c.check((int)w.size() == m && (int)v.size() == m, "number of pairs");
    for (int i = 0; i < m; i++) { c.check(w[i] >= lo - 1e-6*hi && w[i] <= hi + 1e-6*hi, "value " + std::to_string(w[i]) + " inside the spectrum"); if (i) c.check(w[i] > w[i - 1], "ascending values"); dvec bv(n); for (int j = 0; j < n; j++) bv[j] = B(j, j)*v[i][j]; c.near(dot(v[i], bv), 1, 1, 1e-4, "B-norm of vector " + std::to_string(i)); for (int j = 0; j < i; j++) c.near(dot(v[j], bv), 0, 1, 1e-4, "B-orthogonality of " + std::to_string(i) + "," + std::to_string(j)); if (k < 2) c.near(dot(v[i], mul(a, v[i])), w[i], hi, 1e-6, "Rayleigh quotient"); else { dvec y = solve(add(a, B, -sigma), bv); c.near(dot(bv, y), 1/(w[i] - sigma), 1/(lo - sigma), 1e-4, "Rayleigh quotient of the shifted inverse"); } }
    c.nontrivial(true);
}
LAW(reorthogonalised, 3000, 40000, "the two routines that reorthogonalise, over a long run (8..45 steps, order up to 45, spectrum of clear gaps): the vectors stay orthonormal in the B inner product and satisfy the Rayleigh quotients, run to the full order they find every pair; always non-trivial") {
    int k = s.coin() ? 1 : 4, n = s.range(10, 45), m = s.coin() ? n : s.range(8, n); Bulk b(s); Problem p; p.w = dvec(n); double x = 1; for (int i = 0; i < n; i++) { p.w[i] = x; x += 0.5 + b.unit(); if (k == 4 && i == 0) x += s.range(0, 3); } if (k == 1 && s.coin()) p.w[n - 1] *= 1.5; dmat Q = orthogonal(s, n), D(n, n), F = eye(n); for (int i = 0; i < n; i++) D(i, i) = p.w[i]; if (k == 4) for (int i = 0; i < n; i++) F(i, i) = 0.5 + b.unit();
    p.b = mul(F, F); p.V = mul(inverse(F), Q); p.a = mul(F, mul(Q, mul(D, mul(tr(Q), F)))); symm(p.a); double sigma = k == 1 ? 0 : s.coin() ? 0.0 : s.real(-1.0, 0.5); C A = sparse(nullptr, p.a), B = sparse(nullptr, p.b); dvec w; std::vector<dvec> v; go(k, A, B, w, v, m, sigma);
    c.desc << NAMES[k] << " n=" << n << " m=" << m << " sigma=" << sigma; c.label(NAMES[k]); double hi = p.w[n - 1];
    for (int i = 0; i < m; i++) {
        c.check(w[i] >= p.w[0] - 1e-6*hi && w[i] <= hi + 1e-6*hi, "value " + std::to_string(w[i]) + " inside the spectrum"); if (i) c.check(w[i] > w[i - 1], "ascending values");
        dvec bv = mul(p.b, v[i]); c.near(dot(v[i], bv), 1, 1, 1e-9, "B-norm of vector " + std::to_string(i)); for (int j = 0; j < i; j++) c.near(dot(v[j], bv), 0, 1, 1e-9, "B-orthogonality of " + std::to_string(i) + "," + std::to_string(j));
        if (k == 1) c.near(dot(v[i], mul(p.a, v[i])), w[i], hi, 1e-9, "Rayleigh quotient"); else { dvec y = solve(add(p.a, p.b, -sigma), bv); c.near(dot(bv, y), 1/(w[i] - sigma), 1/(p.w[0] - sigma), 1e-7, "Rayleigh quotient of the shifted inverse"); }
        if (m == n) { c.near(w[i], p.w[i], k == 1 ? hi : (p.w[i] - sigma)*(p.w[i] - sigma)/(p.w[0] - sigma), 1e-7, "eigenvalue " + std::to_string(i)); if (k == 1 || i < n/4) same(c, mul(p.a, v[i]), scale(bv, w[i]), hi*amax(p.b), k == 1 ? 1e-6 : 1e-5, "A v - lambda B v, pair " + std::to_string(i)); }
    }
    c.nontrivial(true);
}
