// Random element geometries, embedded in a larger node list under arbitrary node numbers, shared by the element harnesses.
#pragma once
#include "util.h"
#include "FEM/Controller/ShapeFunction.h"
#include "FEM/Controller/GaussIntegration.h"
enum Kind { TRI3, TRI6, QUAD4, QUAD8, TET4, HEX8, HEX20 };
static const char* KIND[] = {"Triangle3", "Triangle6", "Square4", "Square8", "Tetrahedron4", "Cubic8", "Cubic20"};
inline int dim(Kind k) { return k >= TET4 ? 3 : 2; }
// reference node positions, in the library's documented order (written down independently)
inline const std::vector<dvec>& refnodes(Kind k) {
    static const std::vector<dvec> P[] = {
        {{1, 0}, {0, 1}, {0, 0}}, {{1, 0}, {0, 1}, {0, 0}, {.5, .5}, {0, .5}, {.5, 0}},
        {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}, {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}, {0, -1}, {1, 0}, {0, 1}, {-1, 0}},
        {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 0, 0}},
        {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}},
        {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}, {0, -1, -1}, {1, 0, -1}, {0, 1, -1}, {-1, 0, -1}, {0, -1, 1}, {1, 0, 1}, {0, 1, 1}, {-1, 0, 1}, {-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}}};
    return P[k];
}
struct Geo {
    Kind kind; int d, n; std::vector<dvec> p;   // node positions in element order
    std::vector<LVec> x; std::vector<int> el;   // global node list, element
    bool affine; dmat A; dvec t;                // x = A r + t when affine (straight and parallel)
    dmat M() const { dmat m(n, d); for (int i = 0; i < n; i++) for (int k = 0; k < d; k++) m(i, k) = p[i][k]; return m; }
};
inline void place(pbt::Src& s, Geo& g) {   // scatter the nodes over a longer list
    int extra = s.range(0, 3), total = g.n + extra; std::vector<int> q = s.chance(1, 3) ? std::vector<int>() : s.permutation(total); if (q.empty()) for (int i = 0; i < total; i++) q.push_back(i);
    g.x.clear(); g.el.assign(g.n, 0); std::vector<dvec> all(total, dvec(g.d)); for (int i = 0; i < total; i++) { if (i < g.n) { all[q[i]] = g.p[i]; g.el[i] = q[i]; } else for (auto& v : all[q[i]]) v = s.sreal(9.0); }
    for (auto& v : all) g.x.push_back(lib(v));
}
inline dmat wellshaped(pbt::Src& s, int d) {   // determinant positive, condition at most about 10
    dmat R, Q, S(d, d); if (d == 2) { R = rot2(s.sreal(3.14159265)); Q = rot2(s.sreal(3.14159265)); } else { R = rot3(s); Q = rot3(s); }
    double h = s.chance(1, 3) ? s.logreal(1e-6, 1e6) : 1.0; for (int i = 0; i < d; i++) S(i, i) = h*s.real(0.5, 2.0);
    return mul(R, mul(S, Q));
}
// distortion: 0 affine, otherwise corner nodes are moved by up to that fraction of the element; curved moves mid-side nodes too
inline Geo geometry(pbt::Src& s, pbt::Ctx& c, Kind k, double distort, double curved) {
    Geo g; g.kind = k; g.d = dim(k); const auto& P = refnodes(k); g.n = (int)P.size(); g.A = wellshaped(s, g.d); g.t = dvec(g.d); double far = std::min(5.0, 300*std::pow(std::fabs(determinant(g.A)), 1.0/g.d)); for (auto& v : g.t) v = s.sreal(far);
    int corners = k == TRI3 || k == TRI6 ? 3 : k == QUAD4 || k == QUAD8 ? 4 : k == TET4 ? 4 : 8; std::vector<dvec> r(P); g.affine = true;
    bool simplex = k == TRI3 || k == TRI6 || k == TET4; double unit = simplex ? 0.5 : 1.0;
    if (distort > 0 && !simplex && s.chance(3, 4)) { g.affine = false; for (int i = 0; i < corners; i++) for (auto& v : r[i]) v += distort*unit*s.sreal(1.0); }
    if (g.n > corners) {
        for (int i = corners; i < g.n; i++) { int cnt = 0; dvec m(g.d, 0.0); for (int j = 0; j < corners; j++) { double dd = 0; for (int q = 0; q < g.d; q++) dd = std::max(dd, std::fabs(P[i][q] - P[j][q])); bool adj = true; for (int q = 0; q < g.d && !simplex; q++) if (P[i][q] != 0 && P[j][q] != P[i][q]) adj = false; if (simplex) { adj = (i == 3 && j != 2) || (i == 4 && j != 0) || (i == 5 && j != 1); } if (adj) { cnt++; m = add(m, r[j]); } } r[i] = scale(m, 1.0/cnt); }
        if (curved > 0 && s.chance(1, 2)) { g.affine = false; for (int i = corners; i < g.n; i++) for (auto& v : r[i]) v += curved*unit*s.sreal(1.0); }
    }
    for (auto& v : r) g.p.push_back(add(mul(g.A, v), g.t));
    place(s, g);
    c.desc << KIND[k] << " nodes"; for (auto& v : g.p) c.desc << " " << pbt::show(v); c.desc << " as " << pbt::show(g.el) << "; "; c.label(KIND[k]); return g;
}
inline dvec nodal(const Geo& g, const std::function<double(const dvec&)>& f) { dvec u(g.n); for (int i = 0; i < g.n; i++) u[i] = f(g.p[i]); return u; }
inline double size_of(const Geo& g) { double h = 0; for (auto& v : g.p) h = std::max(h, nrm(add(v, g.p[0], -1))); return h; }
// CALL_2D(k, FUNC, args): FUNC<double, SF, IC>(args) with a quadrature that is sufficient for the element
#define WITH_ELEMENT(k, M) switch (k) { \
    case TRI3: M(ShapeFunction3Triangle, Gauss1Triangle); break; case TRI6: M(ShapeFunction6Triangle, Gauss3Triangle); break; \
    case QUAD4: M(ShapeFunction4Square, Gauss4Square); break; case QUAD8: M(ShapeFunction8Square, Gauss9Square); break; \
    case TET4: M(ShapeFunction4Tetrahedron, Gauss1Tetrahedron); break; case HEX8: M(ShapeFunction8Cubic, Gauss8Cubic); break; default: M(ShapeFunction20Cubic, Gauss27Cubic); }
#define WITH_PLANE(k, M) switch (k) { \
    case TRI3: M(ShapeFunction3Triangle, Gauss1Triangle); break; case TRI6: M(ShapeFunction6Triangle, Gauss3Triangle); break; \
    case QUAD4: M(ShapeFunction4Square, Gauss4Square); break; default: M(ShapeFunction8Square, Gauss9Square); }
#define WITH_SOLID(k, M) switch (k) { case TET4: M(ShapeFunction4Tetrahedron, Gauss1Tetrahedron); break; case HEX8: M(ShapeFunction8Cubic, Gauss8Cubic); break; default: M(ShapeFunction20Cubic, Gauss27Cubic); }
static const std::vector<Kind> PLANE = {TRI3, TRI6, QUAD4, QUAD8}, SOLID = {TET4, HEX8, HEX20};
// Independent shape functions (Lagrange / serendipity by interpolation conditions): values and derivatives at r
struct Basis { std::vector<std::vector<int> > mono; dmat C; };   // N_i = sum_k C(k,i) mono_k
inline const Basis& basis(Kind k) {
    static Basis B[7]; static bool done[7] = {}; Basis& b = B[k]; if (done[k]) return b; int d = dim(k); const auto& P = refnodes(k); int n = (int)P.size(); bool simplex = k == TRI3 || k == TRI6 || k == TET4; int deg = (k == TRI3 || k == TET4 || k == QUAD4 || k == HEX8) ? 1 : 2;
    int m = 1; for (int i = 0; i < d; i++) m *= 3; for (int q = 0; q < m; q++) { std::vector<int> e(d); int t = q, sl = 0, tot = 0; for (auto& x : e) { x = t%3; t /= 3; tot += x; if (x > 1) sl += x; } if (simplex ? tot <= deg : (deg == 1 ? sl == 0 : sl <= 2)) b.mono.push_back(e); }
    if ((int)b.mono.size() != n) abort(); dmat V(n, n); for (int i = 0; i < n; i++) for (int q = 0; q < n; q++) { double v = 1; for (int j = 0; j < d; j++) for (int l = 0; l < b.mono[q][j]; l++) v *= P[i][j]; V(i, q) = v; } b.C = inverse(V); done[k] = true; return b;
}
inline void shape(Kind k, const dvec& r, dvec& N, dmat& dN) {
    const Basis& b = basis(k); int n = (int)b.mono.size(), d = dim(k); N.assign(n, 0); dN = dmat(d, n);
    for (int q = 0; q < n; q++) { double v = 1; for (int j = 0; j < d; j++) v *= std::pow(r[j], b.mono[q][j]); for (int i = 0; i < n; i++) N[i] += b.C(q, i)*v; for (int l = 0; l < d; l++) { if (!b.mono[q][l]) continue; double w = b.mono[q][l]; for (int j = 0; j < d; j++) w *= std::pow(r[j], b.mono[q][j] - (j == l)); for (int i = 0; i < n; i++) dN(l, i) += b.C(q, i)*w; } }
}
// Independent quadrature: 5-point Gauss products (collapsed on simplices)
struct QP { dvec r; double w; };
inline const std::vector<QP>& quad(Kind k) {
    static std::vector<QP> S[2][4]; int d = dim(k); bool simplex = k == TRI3 || k == TRI6 || k == TET4; auto& q = S[simplex][d]; if (!q.empty()) return q;
    double a = std::sqrt(5 - 2*std::sqrt(10.0/7))/3, b = std::sqrt(5 + 2*std::sqrt(10.0/7))/3, wa = (322 + 13*std::sqrt(70.0))/900, wb = (322 - 13*std::sqrt(70.0))/900; double X[] = {-b, -a, 0, a, b}, W[] = {wb, wa, 128.0/225, wa, wb};
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) for (int l = 0; l < (d == 3 ? 5 : 1); l++) {
        dvec r; double w = W[i]*W[j]*(d == 3 ? W[l] : 1); if (!simplex) { r = {X[i], X[j]}; if (d == 3) r.push_back(X[l]); }
        else { double u = (1 + X[i])/2, v = (1 + X[j])/2, t = (1 + X[l])/2; if (d == 2) { r = {u, (1 - u)*v}; w *= (1 - u)/4; } else { r = {u, (1 - u)*v, (1 - u)*(1 - v)*t}; w *= (1 - u)*(1 - u)*(1 - v)/8; } }
        q.push_back({r, w}); }
    return q;
}
struct Pt { dvec N, x; dmat dNdX; double dV; };   // physical quadrature point
inline std::vector<Pt> points(const Geo& g) {
    std::vector<Pt> o; for (auto& q : quad(g.kind)) { Pt p; dmat dN; shape(g.kind, q.r, p.N, dN); dmat J = mul(dN, g.M()); double det = determinant(J); p.dNdX = mul(inverse(J), dN); p.dV = det*q.w; p.x = mul(tr(g.M()), p.N); o.push_back(p); } return o;
}
inline double measure(const Geo& g) { double v = 0; for (auto& p : points(g)) v += p.dV; return v; }
inline double mindet(const Geo& g) { double m = 1e300, a = 0; for (auto& q : quad(g.kind)) { dvec N; dmat dN; shape(g.kind, q.r, N, dN); double det = determinant(mul(dN, g.M())); m = std::min(m, det); a = std::max(a, std::fabs(det)); } for (auto& r : refnodes(g.kind)) { dvec N; dmat dN; shape(g.kind, r, N, dN); double det = determinant(mul(dN, g.M())); m = std::min(m, det); a = std::max(a, std::fabs(det)); } return m/a; }
// (the geometry must not be folded)
inline Geo valid(pbt::Src& s, pbt::Ctx& c, Kind k, double distort, double curved) { Geo g = geometry(s, c, k, distort, curved); if (!(mindet(g) > 0.1)) throw pbt::Reject(); return g; }
typedef std::vector<std::vector<std::pair<int, int> > > N2E;
// the map of an element routine must send (node i, listed dof j) to distinct places of the element vector; returns place[i][j]
inline std::vector<std::vector<int> > places(pbt::Ctx& c, const N2E& m, int nodes, const std::vector<int>& dofs, int size) {
    c.check((int)m.size() == nodes, "map: one entry per node"); std::vector<std::vector<int> > o(nodes, std::vector<int>(dofs.size(), -1)); std::set<int> used;
    for (int i = 0; i < nodes; i++) { c.check(m[i].size() == dofs.size(), "map: one entry per degree of freedom"); for (auto& p : m[i]) { bool hit = false; for (size_t j = 0; j < dofs.size(); j++) if (dofs[j] == p.first) { o[i][j] = p.second; hit = true; } c.check(hit, "map: only the listed degrees of freedom"); c.check(p.second >= 0 && p.second < size && used.insert(p.second).second, "map: distinct places inside the element vector"); } }
    for (auto& v : o) for (int x : v) c.check(x >= 0, "map: every degree of freedom has a place"); return o;
}
// reorder an element matrix to node-major order
inline dmat order(const dmat& K, const std::vector<std::vector<int> >& p) { int n = (int)p.size(), d = (int)p[0].size(); dmat o(n*d, n*d); for (int i = 0; i < n; i++) for (int a = 0; a < d; a++) for (int j = 0; j < n; j++) for (int b = 0; b < d; b++) o(i*d + a, j*d + b) = K(p[i][a], p[j][b]); return o; }
inline dvec order(const dvec& F, const std::vector<std::vector<int> >& p) { int n = (int)p.size(), d = (int)p[0].size(); dvec o(n*d); for (int i = 0; i < n; i++) for (int a = 0; a < d; a++) o[i*d + a] = F[p[i][a]]; return o; }
inline std::vector<int> doulist(pbt::Src& s, int k) { std::vector<int> p = s.permutation(k + 2); p.resize(k); if (s.coin()) for (int i = 0; i < k; i++) p[i] = i; return p; }
// The same physical points for one of the library's own rules (whose points and weights P10 decides)
template<template<class> class IC> inline std::vector<Pt> rule(const Geo& g) {
    std::vector<Pt> o; for (int q = 0; q < IC<double>::N; q++) { Pt p; dmat dN; shape(g.kind, ref(IC<double>::Points[q]), p.N, dN); double w = 1; for (int k = 0; k < g.d; k++) w *= IC<double>::Weights[q][k]; dmat J = mul(dN, g.M()); p.dNdX = mul(inverse(J), dN); p.dV = determinant(J)*w; p.x = mul(tr(g.M()), p.N); o.push_back(p); } return o;
}
// Line elements of 2 or 3 nodes (ends first, then the middle) in d dimensions
inline void shape_line(int n, double r, dvec& N, dvec& dN) { if (n == 2) { N = {0.5*(1 - r), 0.5*(1 + r)}; dN = {-0.5, 0.5}; } else { N = {0.5*r*(r - 1), 0.5*r*(r + 1), 1 - r*r}; dN = {r - 0.5, r + 0.5, -2*r}; } }
