// Reference dense linear algebra and conversions shared by the harnesses (independent of the library's own code).
#pragma once
#include "pbt.h"
#include <omp.h>
#include "LinearAlgebra/Models/Vector.h"
#include "LinearAlgebra/Models/Matrix.h"

typedef std::vector<double> dvec;
struct dmat {
    int r = 0, c = 0; dvec v;
    dmat() {}
    dmat(int r_, int c_) : r(r_), c(c_), v((size_t)r_*c_, 0.0) {}
    double& operator()(int i, int j) { return v[(size_t)i*c + j]; }
    double operator()(int i, int j) const { return v[(size_t)i*c + j]; }
};
typedef PANSFEM2::Vector<double> LVec;
typedef PANSFEM2::Matrix<double> LMat;

inline dmat ref(LMat m) { dmat d(m.ROW(), m.COL()); for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) d(i, j) = m(i, j); return d; }
inline dvec ref(LVec m) { dvec d(m.SIZE()); for (int i = 0; i < (int)d.size(); i++) d[i] = m(i); return d; }
inline LMat lib(const dmat& d) { LMat m(d.r, d.c); for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) m(i, j) = d(i, j); return m; }
inline LVec lib(const dvec& d) { LVec m((int)d.size()); for (int i = 0; i < (int)d.size(); i++) m(i) = d[i]; return m; }

inline dmat mul(const dmat& a, const dmat& b) { dmat m(a.r, b.c); for (int i = 0; i < a.r; i++) for (int k = 0; k < a.c; k++) for (int j = 0; j < b.c; j++) m(i, j) += a(i, k)*b(k, j); return m; }
inline dvec mul(const dmat& a, const dvec& b) { dvec m(a.r, 0.0); for (int i = 0; i < a.r; i++) for (int k = 0; k < a.c; k++) m[i] += a(i, k)*b[k]; return m; }
inline dmat tr(const dmat& a) { dmat m(a.c, a.r); for (int i = 0; i < a.r; i++) for (int k = 0; k < a.c; k++) m(k, i) = a(i, k); return m; }
inline double dot(const dvec& a, const dvec& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i]*b[i]; return s; }
inline double nrm(const dvec& a) { return std::sqrt(dot(a, a)); }
inline double amax(const dvec& a) { double s = 0; for (double x : a) { if (std::isnan(x)) return x; s = std::max(s, std::fabs(x)); } return s; }
inline double amax(const dmat& a) { return amax(a.v); }
inline dmat eye(int n) { dmat m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
inline dmat add(dmat a, const dmat& b, double f = 1.0) { for (size_t i = 0; i < a.v.size(); i++) a.v[i] += f*b.v[i]; return a; }
inline dvec add(dvec a, const dvec& b, double f = 1.0) { for (size_t i = 0; i < a.size(); i++) a[i] += f*b[i]; return a; }
inline dmat scale(dmat a, double f) { for (auto& x : a.v) x *= f; return a; }
inline dvec scale(dvec a, double f) { for (auto& x : a) x *= f; return a; }

// Gaussian elimination with full pivoting; returns the determinant, solves in place. Singular -> 0
inline double gauss(dmat a, dmat& b) {
    int n = a.r; double det = 1; std::vector<int> cp(n); for (int i = 0; i < n; i++) cp[i] = i;
    for (int k = 0; k < n; k++) {
        int pi = k, pj = k;
        for (int i = k; i < n; i++) for (int j = k; j < n; j++) if (std::fabs(a(i, j)) > std::fabs(a(pi, pj))) { pi = i; pj = j; }
        if (a(pi, pj) == 0.0) return 0.0;
        if (pi != k) { det = -det; for (int j = 0; j < n; j++) std::swap(a(pi, j), a(k, j)); for (int j = 0; j < b.c; j++) std::swap(b(pi, j), b(k, j)); }
        if (pj != k) { det = -det; for (int i = 0; i < n; i++) std::swap(a(i, pj), a(i, k)); std::swap(cp[pj], cp[k]); }
        det *= a(k, k);
        for (int i = k + 1; i < n; i++) {
            double f = a(i, k)/a(k, k); if (f == 0) continue;
            for (int j = k; j < n; j++) a(i, j) -= f*a(k, j);
            for (int j = 0; j < b.c; j++) b(i, j) -= f*b(k, j);
        }
    }
    dmat x(n, b.c);
    for (int k = n - 1; k >= 0; k--) for (int j = 0; j < b.c; j++) {
        double s = b(k, j); for (int l = k + 1; l < n; l++) s -= a(k, l)*x(l, j); x(k, j) = s/a(k, k);
    }
    for (int k = 0; k < n; k++) for (int j = 0; j < b.c; j++) b(cp[k], j) = x(k, j);
    return det;
}
inline double determinant(const dmat& a) { dmat b(a.r, 0); return gauss(a, b); }
inline dvec solve(const dmat& a, const dvec& b) { dmat m((int)b.size(), 1); m.v = b; if (gauss(a, m) == 0.0) throw pbt::Reject(); return m.v; }
inline dmat inverse(const dmat& a) { dmat m = eye(a.r); if (gauss(a, m) == 0.0) throw pbt::Reject(); return m; }
// Eigen-decomposition of a symmetric matrix (cyclic Jacobi): ascending eigenvalues, columns of V
inline void jacobi(dmat a, dvec& w, dmat& V) {
    int n = a.r; V = eye(n);
    for (int sweep = 0; sweep < 100; sweep++) {
        double off = 0, dia = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (i == j ? dia : off) += a(i, j)*a(i, j);
        if (off <= 1e-30*dia || off == 0) break;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            if (a(p, q) == 0.0) continue;
            double th = (a(q, q) - a(p, p))/(2*a(p, q)), t = (th >= 0 ? 1 : -1)/(std::fabs(th) + std::sqrt(th*th + 1)), cs = 1/std::sqrt(t*t + 1), sn = t*cs;
            for (int k = 0; k < n; k++) { double x = a(k, p), y = a(k, q); a(k, p) = cs*x - sn*y; a(k, q) = sn*x + cs*y; }
            for (int k = 0; k < n; k++) { double x = a(p, k), y = a(q, k); a(p, k) = cs*x - sn*y; a(q, k) = sn*x + cs*y; }
            for (int k = 0; k < n; k++) { double x = V(k, p), y = V(k, q); V(k, p) = cs*x - sn*y; V(k, q) = sn*x + cs*y; }
        }
    }
    std::vector<int> o(n); for (int i = 0; i < n; i++) o[i] = i;
    std::sort(o.begin(), o.end(), [&](int i, int j) { return a(i, i) < a(j, j); });
    dmat U(n, n); w.resize(n);
    for (int i = 0; i < n; i++) { w[i] = a(o[i], o[i]); for (int k = 0; k < n; k++) U(k, i) = V(k, o[i]); }
    V = U;
}
inline dvec eigenvalues(const dmat& a) { dvec w; dmat V; jacobi(a, w, V); return w; }

inline void same(pbt::Ctx& c, const dvec& a, const dvec& b, double sc, double tol, const std::string& what) {
    if (a.size() != b.size()) { std::ostringstream o; o << what << ": length " << a.size() << " instead of " << b.size(); c.fail(o.str()); }
    for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= tol*sc)) c.near(a[i], b[i], sc, tol, what + " [" + std::to_string(i) + "]");
}
inline void same(pbt::Ctx& c, const dmat& a, const dmat& b, double sc, double tol, const std::string& what) {
    if (a.r != b.r || a.c != b.c) { std::ostringstream o; o << what << ": shape " << a.r << "x" << a.c << " instead of " << b.r << "x" << b.c; c.fail(o.str()); }
    for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) if (!(std::fabs(a(i, j) - b(i, j)) <= tol*sc)) c.near(a(i, j), b(i, j), sc, tol, what + " (" + std::to_string(i) + "," + std::to_string(j) + ")");
}
inline std::string show(const dmat& a) { std::ostringstream o; o << "["; for (int i = 0; i < a.r; i++) { o << (i ? ";" : ""); for (int j = 0; j < a.c; j++) o << (j ? " " : "") << a(i, j); } o << "]"; return o.str(); }
inline std::string show(const dvec& a) { return pbt::show(a); }
inline dmat rot2(double t) { dmat m(2, 2); m(0, 0) = m(1, 1) = std::cos(t); m(0, 1) = -std::sin(t); m(1, 0) = std::sin(t); return m; }
inline dmat rot3(pbt::Src& s) {   // product of three axis rotations
    dmat R = eye(3);
    for (int ax = 0; ax < 3; ax++) { double t = s.sreal(3.14159265358979); dmat Q = eye(3); int i = (ax + 1)%3, j = (ax + 2)%3; Q(i, i) = Q(j, j) = std::cos(t); Q(i, j) = -std::sin(t); Q(j, i) = std::sin(t); R = mul(Q, R); }
    return R;
}
// Mostly small sizes, now and then a large one
inline int few(pbt::Src& s, int lo, int hi, int big, int den = 12) { return s.chance(1, den) ? s.range(lo, big) : s.range(lo, hi); }
// Cheap numbers for large objects: a stream that depends on one draw only
struct Bulk {
    uint64_t h; explicit Bulk(pbt::Src& s) : h(s.draw((1ull << 40) - 1)) {}
    uint64_t next() { return h = pbt::mix(h + 0x9e3779b97f4a7c15ull); }
    double unit() { return (double)(next() >> 11)/9007199254740992.0; }
    double sreal(double m) { return m*(2*unit() - 1); }
    int range(int lo, int hi) { return lo + (int)(next()%(uint64_t)(hi - lo + 1)); }
};
