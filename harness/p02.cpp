#include "util.h"
using namespace PANSFEM2;
// A matrix with controlled conditioning: product of row operations, scalings and permutations of a diagonal matrix.
static dmat gen(pbt::Src& s, int n, bool& perm) {
    dmat a(n, n); perm = false;
    int kind = s.range(0, 3);
    if (kind == 0) { for (auto& x : a.v) x = s.srange(5); }
    else if (kind == 1) { for (auto& x : a.v) x = s.sreal(3.0); }
    else { std::vector<int> p = s.permutation(n); perm = true; for (int i = 0; i < n; i++) a(i, p[i]) = s.nonzero(2.0);
        if (kind == 3) for (int k = 0; k < n; k++) { int i = s.range(0, n - 1), j = s.range(0, n - 1); if (i != j) { double f = s.sreal(1.5); for (int l = 0; l < n; l++) a(i, l) += f*a(j, l); } } }
    double f = s.logreal(1e-12, 1e12); if (s.coin()) a = scale(a, f);
    return a;
}
static double bound(const dmat& a) { double b = 1; for (int i = 0; i < a.r; i++) { double q = 0; for (int j = 0; j < a.c; j++) q += std::fabs(a(i, j)); b *= q; } return b; }
LAW(determinant, 200000, 3000000, "a square matrix of order 1..6 (integers, reals, permuted diagonal, products of elementary operations): determinant against elimination with full pivoting, transposition, row swap, multiplicativity; non-trivial for order >= 2") {
    int n = s.range(1, 6); bool p; dmat a = gen(s, n, p), b = gen(s, n, p);
    c.desc << "det " << show(a); c.label("order" + std::to_string(n));
    double sc = bound(a) + 1e-300, tol = 1e-11;
    double d = lib(a).Determinant();
    c.near(d, determinant(a), sc, tol, "determinant");
    c.near(lib(a).Transpose().Determinant(), d, std::max(sc, bound(tr(a))), tol, "determinant of the transpose");
    if (n > 1) { int i = s.range(0, n - 1), j = (i + 1 + s.range(0, n - 2))%n; dmat w = a; for (int k = 0; k < n; k++) std::swap(w(i, k), w(j, k)); c.near(lib(w).Determinant(), -d, sc, tol, "determinant after a row swap"); }
    LMat A = lib(a), B = lib(b); double e = B.Determinant();
    c.near((A*B).Determinant(), d*e, bound(mul(a, b)) + sc*bound(b), 1e-10, "determinant of a product");
    same(c, ref(A), a, 1, 0, "the matrix itself must not change");
    c.nontrivial(n >= 2);
}
LAW(inverse, 200000, 3000000, "a square matrix of order 1..6 with condition number below 1e6: A*inv(A) = inv(A)*A = I and inv against elimination; non-trivial for order >= 2") {
    int n = s.range(1, 6); bool p; dmat a = gen(s, n, p); c.desc << "inv " << show(a);
    dmat r = eye(n); if (gauss(a, r) == 0.0) throw pbt::Reject();
    double cond = amax(a)*amax(r)*n*n; if (!(cond < 1e6)) throw pbt::Reject();
    c.label("order" + std::to_string(n));
    LMat A = lib(a); LMat I = A.Inverse(); double tol = 1e-13*cond*n*n*n + 1e-12;
    // cofactor expansion: the error is governed by products of row norms against the determinant
    double grow = bound(a)/std::max(std::fabs(determinant(a)), 1e-300); if (!(grow < 1e7)) throw pbt::Reject();
    tol += 1e-13*grow*n;
    same(c, ref(A*I), eye(n), 1, tol, "A*inverse(A)"); same(c, ref(I*A), eye(n), 1, tol, "inverse(A)*A");
    same(c, ref(I), r, amax(r), tol, "inverse"); same(c, ref(A), a, 1, 0, "the matrix itself must not change");
    c.nontrivial(n >= 2);
}
LAW(cofactor, 40000, 400000, "deleting a row and a column of a random r x c matrix (r, c in 1..6); non-trivial when both exceed 2") {
    int r = s.range(1, 6), q = s.range(1, 6); dmat a(r, q); for (int i = 0; i < r*q; i++) a.v[i] = i + 1 + s.range(0, 3)*100;
    int i = s.range(0, r - 1), j = s.range(0, q - 1); c.desc << r << "x" << q << " without row " << i << " column " << j;
    dmat e(r - 1, q - 1); for (int k = 0, kk = 0; k < r; k++) { if (k == i) continue; for (int l = 0, ll = 0; l < q; l++) { if (l == j) continue; e(kk, ll) = a(k, l); ll++; } kk++; }
    same(c, ref(lib(a).Cofactor(i, j)), e, 1, 0, "remaining entries");
    c.nontrivial(r > 2 && q > 2);
}
LAW(larger, 2000, 30000, "matrices of order 7 and 8 (the determinant) and 7 (the inverse): against elimination; always non-trivial") {
    int n = s.range(7, 8); bool p; dmat a = gen(s, n, p); c.desc << "order " << n << " " << show(a); double d = lib(a).Determinant(), sc = bound(a) + 1e-300; c.near(d, determinant(a), sc, 1e-11, "determinant");
    if (n == 7) { dmat r = eye(n); if (gauss(a, r) != 0.0 && amax(a)*amax(r)*n*n < 1e5 && sc/std::fabs(d) < 1e7) same(c, ref(lib(a).Inverse()), r, amax(r), 1e-9, "inverse"); }
    c.nontrivial(true);
}
