#include "elastic.h"
#include <cassert>
#include "FEM/Controller/NewtonCotesIntegration.h"
#include "FEM/Equation/Truss.h"
#include "FEM/Equation/Beam.h"
#include "FEM/Equation/Shell.h"
using namespace PANSFEM2;
static dvec cross3(const dvec& a, const dvec& b) { return {a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}; }
static dvec unit(const dvec& a) { return scale(a, 1/nrm(a)); }
// A body whose points are x = sum N_i (X_i + sum_k z_k/2 h_k d_ki) and move by sum N_i (u_i + theta_i x (...)): director
// beams (one curve, two directors) and shells (one surface, one director).
struct Body { int n, md; std::vector<dvec> X; std::vector<std::vector<dvec> > d; dvec h; std::vector<dmat> T; /* theta_i = T_i * rotational dofs */ };
struct DP { dvec N; dmat dN; dvec z; double w; };
struct DState { dmat x; /* rows: dx/dxi_k */ std::vector<dmat> H; /* per dof: du/dx */ double det; };
static DState state(const Body& b, const DP& p) {
    int q = p.dN.r, m = (int)b.h.size(), nr = b.T[0].c, nd = 3 + nr; DState o; o.x = dmat(3, 3); auto off = [&](int i) { dvec v(3, 0.0); for (int k = 0; k < m; k++) v = add(v, b.d[k][i], 0.5*b.h[k]*p.z[k]); return v; };
    for (int i = 0; i < b.n; i++) { dvec v = add(b.X[i], off(i)); for (int j = 0; j < 3; j++) { for (int k = 0; k < q; k++) o.x(k, j) += p.dN(k, i)*v[j]; for (int k = 0; k < m; k++) o.x(q + k, j) += p.N[i]*0.5*b.h[k]*b.d[k][i][j]; } }
    o.det = determinant(o.x); dmat inv = inverse(o.x);
    for (int i = 0; i < b.n; i++) for (int a = 0; a < nd; a++) { dmat g(3, 3); dvec u(3, 0.0), th(3, 0.0); if (a < 3) u[a] = 1; else for (int j = 0; j < 3; j++) th[j] = b.T[i](j, a - 3);
        dvec v = add(u, cross3(th, off(i))); for (int j = 0; j < 3; j++) { for (int k = 0; k < q; k++) g(k, j) = p.dN(k, i)*v[j]; for (int k = 0; k < m; k++) g(q + k, j) = p.N[i]*0.5*b.h[k]*cross3(th, b.d[k][i])[j]; } o.H.push_back(mul(inv, g)); /* H(j,i) = d u_i / d x_j */ }
    return o;
}
static double strain(const dmat& H, const dvec& a, const dvec& b) { return dot(a, mul(H, b)) + dot(b, mul(H, a)); }   // twice the tensor component
static dmat refK(const Body& b, const std::vector<DP>& P, bool shell, double E, double v) {
    int N = b.n*(3 + b.T[0].c); dmat K(N, N); double G = E/(2*(1 + v)), k = 1.2;
    for (auto& p : P) { DState st = state(b, p); dvec e0, e1, e2; dmat D, R;
        if (shell) { dvec a = {st.x(0, 0), st.x(0, 1), st.x(0, 2)}, c = {st.x(1, 0), st.x(1, 1), st.x(1, 2)}; e2 = unit(cross3(a, c)); e0 = unit(a); e1 = cross3(e2, e0); D = dmat(5, 5); D(0, 0) = D(1, 1) = E/(1 - v*v); D(0, 1) = D(1, 0) = E*v/(1 - v*v); D(2, 2) = G; D(3, 3) = D(4, 4) = G/k; R = dmat(5, N); }
        else { e1 = e2 = dvec(3, 0.0); for (int i = 0; i < b.n; i++) { e1 = add(e1, b.d[0][i], p.N[i]); e2 = add(e2, b.d[1][i], p.N[i]); } e1 = unit(e1); e2 = unit(e2); e0 = unit(cross3(e1, e2)); D = dmat(3, 3); D(0, 0) = E; D(1, 1) = D(2, 2) = G/k; R = dmat(3, N); }
        for (int q = 0; q < N; q++) { const dmat& H = st.H[q]; if (shell) { R(0, q) = strain(H, e0, e0)/2; R(1, q) = strain(H, e1, e1)/2; R(2, q) = strain(H, e0, e1); R(3, q) = strain(H, e0, e2); R(4, q) = strain(H, e1, e2); } else { R(0, q) = strain(H, e0, e0)/2; R(1, q) = strain(H, e0, e1); R(2, q) = strain(H, e0, e2); } }
        K = add(K, sandwich(R, D, st.det*p.w)); }
    return K;
}
// place nodes in 3-D under arbitrary numbers
struct Placed { std::vector<LVec> x; std::vector<int> el; };
static Placed place3(pbt::Src& s, const std::vector<dvec>& X) { int n = (int)X.size(), ex = s.range(0, 2); Placed p; std::vector<int> q = s.permutation(n + ex); p.x.assign(n + ex, LVec(3)); p.el.resize(n); for (int i = 0; i < n + ex; i++) { if (i < n) { p.el[i] = q[i]; p.x[q[i]] = lib(X[i]); } else p.x[q[i]](1) = 7; } return p; }
static std::vector<LVec> scatter(const Placed& p, const std::vector<dvec>& v) { std::vector<LVec> o(p.x.size(), LVec(3)); for (auto& w : o) w(0) = 1; for (size_t i = 0; i < v.size(); i++) o[p.el[i]] = lib(v[i]); return o; }
static void rigid(pbt::Src& s, pbt::Ctx& c, const dmat& K, const Body& b, double tol) {
    int nd = 3 + b.T[0].c; dvec a = {s.sreal(1), s.sreal(1), s.sreal(1)}, w = {s.sreal(1), s.sreal(1), s.sreal(1)}, u; double far = 1; for (int i = 0; i < b.n; i++) { dvec v = add(a, cross3(w, b.X[i])), r = mul(tr(b.T[i]), w); u.insert(u.end(), v.begin(), v.end()); u.insert(u.end(), r.begin(), r.end()); far = std::max(far, amax(v)); } (void)nd;
    same(c, mul(K, u), dvec(u.size(), 0.0), amax(K)*far, tol, "force under a rigid motion");
}
static void psd(pbt::Src& s, pbt::Ctx& c, const dmat& K) { double sc = amax(K); same(c, K, tr(K), sc, 1e-11, "symmetry"); if (K.r <= 24 && s.chance(1, 4)) { dvec w = eigenvalues(K); c.check(w[0] >= -1e-9*w.back(), "semidefinite"); c.check(w[5] <= 1e-8*w.back(), "six motions without energy"); c.label("spectrum"); } else { dvec v(K.r); for (auto& x : v) x = s.sreal(1.0); c.check(dot(v, mul(K, v)) >= -1e-9*sc*K.r, "energy is not negative"); } }
LAW(truss, 20000, 400000, "bars of any length, direction, modulus and area under arbitrary node numbers and degrees of freedom: the stiffness is EA/l n n^T, so symmetric, without force under rigid motion, axial force EA/l times the elongation along the bar, scales with E and A; non-trivial when oblique") {
    dvec a = {s.sreal(5.0), s.sreal(5.0)}, d = mul(rot2(s.sreal(3.14159265)), dvec{s.logreal(1e-5, 1e5), 0.0}), b = add(a, d); double E = modulus(s), A = s.logreal(1e-3, 1e2); int ex = s.range(0, 2); std::vector<int> q = s.permutation(2 + ex), el = {q[0], q[1]}, dl = doulist(s, 2); std::vector<LVec> x(2 + ex, LVec(2)); x[q[0]] = lib(a); x[q[1]] = lib(b); LMat K; N2E m; Truss2D<double>(K, m, el, dl, x, E, A);
    c.desc << "bar " << show(a) << show(b) << " E=" << E << " A=" << A; c.check(K.ROW() == 4 && K.COL() == 4, "shape"); dmat k = order(ref(K), places(c, m, 2, dl, 4)), e(4, 4); double l = nrm(add(b, a, -1)); d = add(b, a, -1); dvec n = scale(d, 1/l), g = {-n[0], -n[1], n[0], n[1]}; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) e(i, j) = E*A/l*g[i]*g[j]; same(c, k, e, E*A/l, 1e-9, "stiffness"); same(c, k, tr(k), E*A/l, 1e-13, "symmetry"); c.nontrivial(std::fabs(n[0]*n[1]) > 1e-3);
}
static Body beam_body(pbt::Src& s, pbt::Ctx& c, bool straight, double& a, double& b) {
    Body B; B.n = s.range(2, 3); double L = s.chance(1, 3) ? s.logreal(1e-5, 1e5) : s.real(0.5, 3.0); dmat R = rot3(s); dvec o = {s.sreal(3), s.sreal(3), s.sreal(3)}; a = L*s.logreal(0.05, 1); b = s.chance(1, 4) ? a : L*s.logreal(0.05, 1); dvec e1 = {0, 1, 0}, e2 = {0, 0, 1};
    std::vector<dvec> X = {{0, 0, 0}, {L, 0, 0}}; if (B.n == 3) X.push_back({L/2, 0, 0}); std::vector<dvec> v1(B.n, e1), v2(B.n, e2);
    if (!straight) { for (int i = 0; i < B.n; i++) { if (B.n == 3 && i == 2) X[i] = add(X[i], dvec{0.05*L*s.sreal(1), 0.1*L*s.sreal(1), 0.1*L*s.sreal(1)}); double tw = 0.3*s.sreal(1); dvec p = {0.2*s.sreal(1), std::cos(tw), std::sin(tw)}, r = {0.2*s.sreal(1), -std::sin(tw), std::cos(tw)}; v1[i] = unit(p); v2[i] = unit(r); } }
    for (int i = 0; i < B.n; i++) { B.X.push_back(add(o, mul(R, X[i]))); v1[i] = mul(R, v1[i]); v2[i] = mul(R, v2[i]); } B.d = {v1, v2}; B.h = {a, b}; B.T.assign(B.n, eye(3)); c.desc << B.n << "-node beam a=" << a << " b=" << b << " at"; for (auto& p : B.X) c.desc << " " << show(p); c.desc << " directors"; for (int i = 0; i < B.n; i++) c.desc << " " << show(v1[i]) << show(v2[i]); return B;
}
#define WITH_BEAM(n, r, q, M) if (n == 2) { if (r == 0) { if (q) M(ShapeFunction2Line, Gauss1Line, Gauss9Square) else M(ShapeFunction2Line, Gauss1Line, Gauss4Square) } else M(ShapeFunction2Line, Gauss2Line, Gauss4Square) } else { if (r == 0) M(ShapeFunction3Line, Gauss2Line, Gauss4Square) else { if (q) M(ShapeFunction3Line, NewtonCotes5Line, Gauss9Square) else M(ShapeFunction3Line, NewtonCotes5Line, Gauss4Square) } }
template<template<class> class I0, template<class> class I12> static std::vector<DP> beamrule(int n) { std::vector<DP> o; for (int g = 0; g < I0<double>::N; g++) for (int h = 0; h < I12<double>::N; h++) { DP p; dvec dN; shape_line(n, ref(I0<double>::Points[g])[0], p.N, dN); p.dN = dmat(1, n); p.dN.v = dN; p.z = ref(I12<double>::Points[h]); p.w = I0<double>::Weights[g][0]*I12<double>::Weights[h][0]*I12<double>::Weights[h][1]; o.push_back(p); } return o; }
static dmat run_beam(pbt::Src& s, pbt::Ctx& c, const Body& B, int r, int q, double E, double v, double a, double b, std::vector<DP>& P, double sc1, double sc2) {
    Placed pl = place3(s, B.X); std::vector<LVec> v1 = scatter(pl, B.d[0]), v2 = scatter(pl, B.d[1]); for (auto& w : v1) w = w*sc1; for (auto& w : v2) w = w*sc2; std::vector<int> dl = doulist(s, 6); LMat K; N2E m;
#define M(SF, I0, I12) { P = beamrule<I0, I12>(B.n); BeamLinearIsotropicElastic<double, SF, I0, I12>(K, m, pl.el, dl, pl.x, v1, v2, E, v, a, b); }
    WITH_BEAM(B.n, r, q, M)
#undef M
    c.check(K.ROW() == 6*B.n && K.COL() == 6*B.n, "shape"); return order(ref(K), places(c, m, B.n, dl, 6*B.n));
}
LAW(beam, 5000, 100000, "2- and 3-node beams, straight, curved, twisted and tapering, directors not normalised, any orientation, section and rule: symmetric, semidefinite, no force under rigid motion, equal to the director-beam stiffness computed from the displacement field, proportional to E; non-trivial when curved or twisted") {
    bool st = s.chance(1, 4); double a, b; Body B = beam_body(s, c, st, a, b); double E = modulus(s), v = poisson(s); int r = s.range(0, 1), q = s.range(0, 1); std::vector<DP> P; dmat K = run_beam(s, c, B, r, q, E, v, a, b, P, s.logreal(0.1, 10), s.logreal(0.1, 10)); c.desc << " E=" << E << " v=" << v << " rule " << r << q;
    for (auto& p : P) if (!(state(B, p).det > 0)) throw pbt::Reject();
    dmat e = refK(B, P, false, E, v); same(c, K, e, amax(e), 1e-8, "stiffness"); rigid(s, c, K, B, 1e-8); psd(s, c, K); c.nontrivial(!st);
}
LAW(beam_textbook, 5000, 100000, "straight beams of any orientation and rectangular section: a uniform axial strain gives the axial force E a b, a uniform twist the torque G (I1 + I2)/1.2, a uniform curvature of a 3-node beam the moment E I about either axis and no shear, a uniform shear the shear force G a b/1.2, only at the ends; always non-trivial") {
    double a, b; Body B = beam_body(s, c, true, a, b); double E = modulus(s), v = poisson(s); int r = s.range(0, 1), q = s.range(0, 1); std::vector<DP> P; dmat K = run_beam(s, c, B, r, q, E, v, a, b, P, 1, 1); dvec t = unit(add(B.X[1], B.X[0], -1)), e1 = B.d[0][0], e2 = B.d[1][0]; double L = nrm(add(B.X[1], B.X[0], -1)), G = E/(2*(1 + v)), A = a*b, I1 = a*a*a*b/12, I2 = a*b*b*b/12; int k = s.range(0, B.n == 3 ? 4 : 2);
    dvec u(6*B.n, 0.0), f(6*B.n, 0.0); auto put = [&](dvec& y, int i, int o, const dvec& d, double w) { for (int j = 0; j < 3; j++) y[6*i + o + j] += w*d[j]; }; static const char* name[] = {"axial", "twist", "shear", "bending 1", "bending 2"}; double S = 0;
    for (int i = 0; i < B.n; i++) { double z = i == 0 ? 0 : i == 1 ? L : L/2; if (k == 0) put(u, i, 0, t, z); else if (k == 1) put(u, i, 3, t, z/L); else if (k == 2) put(u, i, 0, e1, z); else if (k == 3) { put(u, i, 0, e1, z*z/2/L); put(u, i, 3, e2, z/L); } else { put(u, i, 0, e2, z*z/2/L); put(u, i, 3, e1, -z/L); } }
    if (k == 0) { S = E*A; put(f, 0, 0, t, -S); put(f, 1, 0, t, S); } else if (k == 1) { S = G/1.2*(I1 + I2)/L; put(f, 0, 3, t, -S); put(f, 1, 3, t, S); } else if (k == 2) { S = G/1.2*A; put(f, 0, 0, e1, -S); put(f, 1, 0, e1, S); } else if (k == 3) { S = E*I1/L; put(f, 0, 3, e2, -S); put(f, 1, 3, e2, S); } else { S = E*I2/L; put(f, 0, 3, e1, S); put(f, 1, 3, e1, -S); }
    dvec g = mul(K, u); if (k == 2) { for (int i = 0; i < B.n; i++) for (int j = 3; j < 6; j++) g[6*i + j] = 0; }  // (the end moments balance the shear couple and depend on the rule)
    c.desc << " " << name[k]; c.label(name[k]); double sc = std::max(amax(K)*amax(u)*1e-3, S); same(c, g, f, sc, 1e-8, name[k]); c.nontrivial();
}
static Body shell_body(pbt::Src& s, pbt::Ctx& c, Kind k, bool flat, bool six, double& t, dmat* Rout = nullptr) {
    Geo g = valid(s, c, k, 0.25, flat ? 0.0 : 0.1); double h = size_of(g); t = h*s.logreal(0.01, 0.3); dmat R = rot3(s); Body B; B.n = g.n; std::vector<dvec> Y; for (auto& p : g.p) Y.push_back({p[0], p[1], 0.0}); if (!flat) { double c1 = s.sreal(0.15)/h, c2 = s.sreal(0.15)/h, c3 = s.sreal(0.1)/h; for (auto& p : Y) { double x = p[0] - g.p[0][0], y = p[1] - g.p[0][1]; p[2] = c1*x*x + c2*y*y + c3*x*y + 0.1*x; } }
    for (auto& p : Y) B.X.push_back(mul(R, p)); const auto& r = refnodes(k); dvec l = add(B.X[1], B.X[0], -1); std::vector<dvec> d3; for (int i = 0; i < B.n; i++) { dvec N; dmat dN; shape(k, r[i], N, dN); dvec a(3, 0.0), b(3, 0.0); for (int j = 0; j < B.n; j++) { a = add(a, B.X[j], dN(0, j)); b = add(b, B.X[j], dN(1, j)); } dvec v3 = unit(cross3(a, b)), v1 = unit(cross3(l, v3)), v2 = cross3(v3, v1); d3.push_back(v3); dmat T(3, six ? 3 : 2); for (int j = 0; j < 3; j++) { if (six) for (int q = 0; q < 3; q++) T(j, q) = v1[j]*v1[q] + v2[j]*v2[q]; else { T(j, 0) = v1[j]; T(j, 1) = v2[j]; } } B.T.push_back(T); }
    B.d = {d3}; B.h = {t}; if (Rout) *Rout = R; return B;
}
#define WITH_SHELL(k, r, M) switch (k) { case TRI3: M(ShapeFunction3Triangle, Gauss1Triangle, Gauss2Line) break; case TRI6: M(ShapeFunction6Triangle, Gauss3Triangle, Gauss2Line) break; \
    case QUAD4: if (r == 0) M(ShapeFunction4Square, Gauss1Square, Gauss2Line) else if (r == 1) M(ShapeFunction4Square, Gauss4Square, Gauss2Line) else M(ShapeFunction4Square, Gauss4Square, NewtonCotes5Line) break; \
    default: if (r == 0) M(ShapeFunction8Square, Gauss4Square, Gauss2Line) else M(ShapeFunction8Square, Gauss9Square, Gauss2Line) }
template<template<class> class I, template<class> class I2> static std::vector<DP> shellrule(Kind k) { std::vector<DP> o; for (int g = 0; g < I<double>::N; g++) for (int h = 0; h < I2<double>::N; h++) { DP p; shape(k, ref(I<double>::Points[g]), p.N, p.dN); p.z = ref(I2<double>::Points[h]); p.w = I<double>::Weights[g][0]*I<double>::Weights[g][1]*I2<double>::Weights[h][0]; o.push_back(p); } return o; }
static dmat run_shell(pbt::Src& s, pbt::Ctx& c, const Body& B, Kind k, bool six, int r, double E, double v, double t, std::vector<DP>& P) {
    Placed pl = place3(s, B.X); int nd = six ? 6 : 5; std::vector<int> dl = doulist(s, nd); LMat K; N2E m;
#define M(SF, I, I2) { P = shellrule<I, I2>(k); if (six) ShellLinearIsotropicElastic2<double, SF, I, I2>(K, m, pl.el, dl, pl.x, E, v, t); else ShellLinearIsotropicElastic<double, SF, I, I2>(K, m, pl.el, dl, pl.x, E, v, t); }
    WITH_SHELL(k, r, M)
#undef M
    c.check(K.ROW() == nd*B.n && K.COL() == nd*B.n, "shape"); return order(ref(K), places(c, m, B.n, dl, nd*B.n));
}
LAW(shell, 3000, 60000, "flat, warped and curved 3-, 4-, 6- and 8-node shells of any orientation and thickness, with five and six degrees of freedom per node: symmetric, semidefinite, no force under rigid motion, equal to the director-shell stiffness computed from the displacement field; non-trivial when curved") {
    Kind k = s.pick(PLANE); bool six = s.coin(), flat = s.chance(1, 4); double t; Body B = shell_body(s, c, k, flat, six, t); double E = modulus(s), v = poisson(s); int r = s.range(0, 2); std::vector<DP> P; dmat K = run_shell(s, c, B, k, six, r, E, v, t, P); c.desc << (flat ? " flat" : " curved") << " dofs " << (six ? 6 : 5) << " t=" << t << " E=" << E << " v=" << v << " rule " << r;
    for (auto& p : P) if (!(state(B, p).det > 0)) throw pbt::Reject();
    dmat e = refK(B, P, true, E, v); same(c, K, e, amax(e), 1e-7, "stiffness"); rigid(s, c, K, B, 1e-7); psd(s, c, K); c.nontrivial(!flat);
}
LAW(shell_textbook, 4000, 80000, "flat shells of any orientation: a homogeneous in-plane strain gives the plane-stress energy and node forces of the same membrane and no moments, a uniform curvature of quadratic elements the plate bending energy E t^3/12(1-v^2), and membrane and bending do not couple; always non-trivial") {
    Kind k = s.pick(PLANE); bool six = s.coin(), bend = (k == TRI6 || k == QUAD8) && s.coin(); double t; dmat R; Geo g = valid(s, c, k, bend ? 0.0 : 0.25, 0.0); double h = size_of(g); t = h*s.logreal(0.01, 0.3); R = rot3(s); Body B; B.n = g.n; B.h = {t}; for (auto& p : g.p) B.X.push_back(mul(R, dvec{p[0], p[1], 0.0})); dvec n = mul(R, dvec{0, 0, 1}), l = add(B.X[1], B.X[0], -1), v1 = unit(cross3(l, n)), v2 = cross3(n, v1);
    B.d = {std::vector<dvec>(B.n, n)}; dmat T(3, six ? 3 : 2); for (int j = 0; j < 3; j++) { if (six) for (int q = 0; q < 3; q++) T(j, q) = v1[j]*v1[q] + v2[j]*v2[q]; else { T(j, 0) = v1[j]; T(j, 1) = v2[j]; } } B.T.assign(B.n, T); double E = modulus(s), v = poisson(s); int nd = six ? 6 : 5; std::vector<DP> P; dmat K = run_shell(s, c, B, k, six, 1, E, v, t, P); dmat D = stress_D(E, v); c.desc << (bend ? " bending" : " membrane") << " dofs " << nd << " t=" << t << " E=" << E << " v=" << v; dvec u(nd*B.n, 0.0);
    if (!bend) { dmat G(2, 2); for (auto& x : G.v) x = s.sreal(1.0); for (int i = 0; i < B.n; i++) { dvec w = mul(G, g.p[i]), z = mul(R, dvec{w[0], w[1], 0}); for (int j = 0; j < 3; j++) u[nd*i + j] = z[j]; } dvec f = mul(K, u), sg = mul(D, voigt(G)), e(2*B.n, 0.0); for (auto& p : points(g)) e = add(e, mul(tr(bmat(p, 2)), sg), p.dV*t); dvec ex(nd*B.n, 0.0); for (int i = 0; i < B.n; i++) { dvec z = mul(R, dvec{e[2*i], e[2*i + 1], 0}); for (int j = 0; j < 3; j++) ex[nd*i + j] = z[j]; } double sc = amax(K)*(amax(u) + 1e-300); same(c, f, ex, sc, 1e-9, "membrane forces"); c.label("membrane"); }
    else { double k1 = s.sreal(1.0), k2 = s.sreal(1.0), k3 = s.sreal(1.0); for (int i = 0; i < B.n; i++) { double x = g.p[i][0], y = g.p[i][1], w = (k1*x*x + k2*y*y)/2 + k3*x*y, wx = k1*x + k3*y, wy = k2*y + k3*x; dvec th = mul(R, dvec{wy, -wx, 0}), z = scale(n, w); dvec q = six ? th : dvec{dot(th, v1), dot(th, v2)}; for (int j = 0; j < 3; j++) u[nd*i + j] = z[j]; for (int j = 0; j < nd - 3; j++) u[nd*i + 3 + j] = q[j]; } dvec kap = {k1, k2, 2*k3}; double W = dot(kap, mul(D, kap))*t*t*t/12*measure(g); double sc = amax(K)*std::pow(amax(u), 2); c.near(dot(u, mul(K, u)), W, W + 1e-5*sc + 1e-300, 1e-8, "bending energy"); c.label("bending"); }
    c.nontrivial();
}
