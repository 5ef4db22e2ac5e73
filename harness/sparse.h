// Generators for sparse matrices, shared by the solver harnesses.
#pragma once
#include "util.h"
#include <cassert>
#include "LinearAlgebra/Models/CSR.h"
#include "LinearAlgebra/Models/LILCSR.h"
inline dmat ref(const CSR<double>& m) { dmat d(m.ROWS, m.COLS); for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) d(i, j) = m.get(i, j); return d; }
inline dmat ref(const LILCSR<double>& m) { dmat d(m.ROWS, m.COLS); for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) d(i, j) = m.get(i, j); return d; }
// The sparse matrix with the non-zero entries of d (and, when zeros is set, some explicit zeros), inserted in a random order
inline CSR<double> sparse(pbt::Src* s, const dmat& d, bool explicitzeros = false) {
    std::vector<std::pair<int, int> > e;
    for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) if (d(i, j) != 0.0 || (explicitzeros && s && s->chance(1, 4))) e.push_back({i, j});
    std::vector<int> p((int)e.size()); for (size_t i = 0; i < p.size(); i++) p[i] = (int)i;
    if (s && e.size() < 200 && s->coin()) p = s->permutation((int)e.size());
    CSR<double> m(d.r, d.c);
    for (int k : p) m.set(e[k].first, e[k].second, d(e[k].first, e[k].second));
    return m;
}
// Symmetric pattern with graph structure, values
inline dmat pattern(pbt::Src& s, int n) {
    dmat m(n, n); int kind = s.range(0, 4);
    if (kind == 0) for (int i = 0; i + 1 < n; i++) m(i, i + 1) = m(i + 1, i) = 1;
    else if (kind == 1) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) m(i, j) = m(j, i) = 1;
    else if (kind == 2) { int w = s.range(1, std::max(1, n/2)); for (int i = 0; i < n; i++) for (int j : {i + 1, i + w}) if (j < n) m(i, j) = m(j, i) = 1; }
    else if (kind == 3) for (int i = 1; i < n; i++) m(0, i) = m(i, 0) = 1;
    else { int k = s.range(0, 2*n); for (int l = 0; l < k; l++) { int i = s.range(0, n - 1), j = s.range(0, n - 1); if (i != j) m(i, j) = m(j, i) = 1; } }
    for (int i = 0; i < n; i++) m(i, i) = 1;
    if (s.coin()) { std::vector<int> p = s.permutation(n); dmat q(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q(p[i], p[j]) = m(i, j); m = q; }
    return m;
}
// SPD with a condition number of at most about (2 + margin)/margin times the spread of the scaling
inline dmat spd(pbt::Src& s, int n, double margin, double spread = 1.0) {
    dmat p = pattern(s, n), a(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (p(i, j) != 0) a(i, j) = a(j, i) = s.coin() ? -s.real(0.1, 1.0) : s.real(0.1, 1.0);
    for (int i = 0; i < n; i++) { double q = 0; for (int j = 0; j < n; j++) if (j != i) q += std::fabs(a(i, j)); a(i, i) = q*(1 + margin) + 0.2; }
    if (spread > 1) { dvec d(n); for (auto& x : d) x = std::sqrt(s.logreal(1.0, spread)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) *= d[i]*d[j]; }
    return a;
}
// Row diagonally dominant, unsymmetric in values and (sometimes) in pattern
inline dmat dominant(pbt::Src& s, int n, double margin) {
    dmat p = pattern(s, n), a(n, n); bool drop = s.coin();
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && p(i, j) != 0 && !(drop && s.chance(1, 4))) a(i, j) = s.nonzero(1.0);
    for (int i = 0; i < n; i++) { double q = 0; for (int j = 0; j < n; j++) if (j != i) q += std::fabs(a(i, j)); a(i, i) = (q*(1 + margin) + 0.2); }
    return a;
}
// at times the same matrix in other units
inline void magnify(pbt::Src& s, dmat& a) { if (s.chance(1, 4)) a = scale(a, s.logreal(1e-12, 1e12)); }
inline dvec rhs(pbt::Src& s, int n) {
    dvec b(n); int k = s.range(0, 3);
    if (k == 0) { b[s.range(0, n - 1)] = s.nonzero(4.0); }
    else if (k == 1) for (auto& x : b) x = 1.0;
    else for (auto& x : b) x = s.sreal(3.0);
    if (nrm(b) < 1e-6) b[0] = 1.0;
    double f = s.logreal(1e-14, 1e14); if (s.chance(1, 3)) b = scale(b, f);
    return b;
}
