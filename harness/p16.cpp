#include "elastic.h"
#include "edge.h"
#include "FEM/Equation/Stokes.h"
#include "FEM/Equation/NavierStokes.h"
using namespace PANSFEM2;
// A mixed element: velocity nodes of kind ku, pressure nodes (and geometry) the corners, of kind kp
struct Mix { Geo g; Kind kp; int m, n, rule; std::vector<int> eu, ep; std::vector<Pt> P; std::vector<Pt> Q; };   // P: velocity basis, Q: pressure basis at the same points
template<template<class> class IC> static void fill(Mix& x) { x.P = rule<IC>(x.g); Geo h = x.g; h.kind = x.kp; h.n = x.n; h.p.resize(x.n); x.Q = rule<IC>(h); }
static Mix mixed(pbt::Src& s, pbt::Ctx& c) {
    Mix x; static const Kind U[] = {TRI6, QUAD8, TRI3, QUAD4}, PK[] = {TRI3, QUAD4, TRI3, QUAD4}; int k = s.range(0, 3); x.g = valid(s, c, U[k], 0.3, 0.0); x.kp = PK[k]; x.m = x.g.n; x.n = x.kp == TRI3 ? 3 : 4; x.eu = x.g.el; x.ep = std::vector<int>(x.eu.begin(), x.eu.begin() + x.n); x.rule = k; if (k == 2 && s.coin()) x.rule = 4; if (k == 1 && s.chance(1, 3)) x.rule = 5;
    switch (x.rule) { case 0: case 4: fill<Gauss3Triangle>(x); break; case 1: fill<Gauss9Square>(x); break; case 2: fill<Gauss1Triangle>(x); break; default: fill<Gauss4Square>(x); } return x;
}
#define WITH_MIX(x, M) switch (x.rule) { case 0: M(ShapeFunction6Triangle, ShapeFunction3Triangle, Gauss3Triangle); break; case 1: M(ShapeFunction8Square, ShapeFunction4Square, Gauss9Square); break; case 2: M(ShapeFunction3Triangle, ShapeFunction3Triangle, Gauss1Triangle); break; \
    case 3: M(ShapeFunction4Square, ShapeFunction4Square, Gauss4Square); break; case 4: M(ShapeFunction3Triangle, ShapeFunction3Triangle, Gauss3Triangle); break; default: M(ShapeFunction8Square, ShapeFunction4Square, Gauss4Square); }
// canonical order: velocity node by node, then pressure
static std::vector<int> perm(pbt::Ctx& c, int m, int n, const N2E& mu, const N2E& mp, const std::vector<int>& dl) { int N = 2*m + n; auto a = places(c, mu, m, {dl[0], dl[1]}, N); auto b = places(c, mp, n, {dl[2]}, N); std::vector<int> o; for (auto& v : a) for (int q : v) o.push_back(q); for (auto& v : b) o.push_back(v[0]); std::set<int> u(o.begin(), o.end()); c.check((int)u.size() == N, "map: velocity and pressure have places of their own"); return o; }
static dmat canon(pbt::Ctx& c, LMat& K, const std::vector<int>& o) { int N = (int)o.size(); c.check(K.ROW() == N && K.COL() == N, "size of the element matrix"); dmat r(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r(i, j) = K(o[i], o[j]); return r; }
static dvec canon(pbt::Ctx& c, LVec& F, const std::vector<int>& o) { int N = (int)o.size(); c.check(F.SIZE() == N, "length of the element vector"); dvec r(N); for (int i = 0; i < N; i++) r[i] = F(o[i]); return r; }
static dmat visc(const Mix& x, double mu) { int N = 2*x.m + x.n; dmat D(3, 3), K(N, N), V; D(0, 0) = D(1, 1) = 2*mu; D(2, 2) = mu; V = stiffness(x.P, 2, D, 1.0); for (int i = 0; i < 2*x.m; i++) for (int j = 0; j < 2*x.m; j++) K(i, j) = V(i, j); return K; }
static void pressure(const Mix& x, dmat& K, double up, double down) { for (size_t q = 0; q < x.P.size(); q++) for (int i = 0; i < x.m; i++) for (int a = 0; a < 2; a++) for (int j = 0; j < x.n; j++) { double v = x.Q[q].N[j]*x.P[q].dNdX(a, i)*x.P[q].dV; K(2*i + a, 2*x.m + j) += up*v; K(2*x.m + j, 2*i + a) += down*v; } }
static dvec at(const Pt& p, const dvec& u) { dvec v(2, 0.0); for (size_t i = 0; i < p.N.size(); i++) for (int a = 0; a < 2; a++) v[a] += p.N[i]*u[2*i + a]; return v; }
static dmat grad(const Pt& p, const dvec& u) { dmat G(2, 2); for (size_t i = 0; i < p.N.size(); i++) for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) G(a, b) += p.dNdX(b, (int)i)*u[2*i + a]; return G; }   // G(a,b) = d u_a / d x_b
static dmat convect(const Mix& x, const dvec& u, double rho) { int N = 2*x.m + x.n; dmat K(N, N); for (auto& p : x.P) { dvec U = at(p, u), q = mul(tr(p.dNdX), U); for (int i = 0; i < x.m; i++) for (int j = 0; j < x.m; j++) for (int a = 0; a < 2; a++) K(2*i + a, 2*j + a) += rho*p.N[i]*q[j]*p.dV; } return K; }
static dmat newton(const Mix& x, const dvec& u, double rho) { int N = 2*x.m + x.n; dmat K(N, N); for (auto& p : x.P) { dmat G = grad(p, u); for (int i = 0; i < x.m; i++) for (int j = 0; j < x.m; j++) for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) K(2*i + a, 2*j + b) += rho*p.N[i]*p.N[j]*G(a, b)*p.dV; } return K; }
static dmat coupled(const Mix& x, const dmat& k) { int N = 2*x.m + x.n; dmat K(N, N); for (auto& p : x.P) for (int i = 0; i < x.m; i++) for (int j = 0; j < x.m; j++) for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) K(2*i + a, 2*j + b) += p.N[i]*k(a, b)*p.N[j]*p.dV; return K; }
static double coef(pbt::Src& s) { return s.chance(1, 5) ? 1.0 : s.logreal(1e-3, 1e3); }
static dvec flow(pbt::Src& s, const Mix& x) { dvec u(2*x.m); int k = s.range(0, 3); if (k == 0) { dvec a = {s.sreal(1.0), s.sreal(1.0)}; for (int i = 0; i < 2*x.m; i++) u[i] = a[i%2]; } else if (k == 1) { dmat G(2, 2); for (auto& v : G.v) v = s.sreal(1.0); u = affine(x.g, G, {s.sreal(1.0), s.sreal(1.0)}); } else for (auto& v : u) v = s.sreal(1.0); return u; }
static std::vector<LVec> nodal(const Mix& x, const dvec& u, const dvec& p) { std::vector<LVec> o(x.g.x.size(), LVec(3)); for (auto& v : o) for (int k = 0; k < 3; k++) v(k) = 77.0; for (int i = 0; i < x.m; i++) for (int a = 0; a < 2; a++) o[x.eu[i]](a) = u[2*i + a]; for (int i = 0; i < x.n; i++) o[x.ep[i]](2) = p[i]; return o; }
LAW(stokes, 10000, 150000, "Stokes matrices of Taylor-Hood and equal-order triangles and quadrilaterals, distorted, any viscosity: symmetric, no force under rigid motion, viscous part semidefinite, exact tractions for linear flow with constant pressure, divergence the transpose of the gradient, equal to the quadrature of the weak form; always non-trivial") {
    Mix x = mixed(s, c); double mu = coef(s); std::vector<int> dl = doulist(s, 3); LMat K; N2E a, b;
#define M(SU, SP, IC) StokesStiffness<double, SU, SP, IC>(K, a, x.eu, b, x.ep, dl, x.g.x, mu)
    WITH_MIX(x, M)
#undef M
    c.desc << "rule " << x.rule << " mu=" << mu; auto o = perm(c, x.m, x.n, a, b, dl); dmat Ke = canon(c, K, o), E = visc(x, mu); pressure(x, E, -1, -1); double sv = amax(visc(x, mu)), sc = amax(E), far = 1; for (auto& p : x.g.p) far = std::max(far, amax(p)); for (int i = 0; i < Ke.r; i++) for (int j = 0; j < Ke.c; j++) { bool vv = i < 2*x.m && j < 2*x.m; c.near(Ke(i, j), E(i, j), vv ? sv : sc, 1e-9, vv ? "viscous block" : "pressure block"); } same(c, Ke, tr(Ke), sc, 1e-9, "symmetry");
    dmat W(2, 2); W(0, 1) = s.nonzero(1.0); W(1, 0) = -W(0, 1); dvec u = affine(x.g, W, {s.sreal(1.0), s.sreal(1.0)}); u.resize(2*x.m + x.n); dvec f = mul(Ke, u); same(c, f, dvec(f.size(), 0.0), sc*far, 1e-8, "rigid motion"); dvec w(2*x.m + x.n, 0.0); for (int i = 0; i < 2*x.m; i++) w[i] = s.sreal(1.0); c.check(dot(w, mul(Ke, w)) >= -1e-10*sv*x.m, "dissipation is not negative");
    dmat G(2, 2); for (auto& v : G.v) v = s.sreal(1.0); G(1, 1) = -G(0, 0); double p0 = s.sreal(1.0); dvec v = affine(x.g, G, {0, 0}), e(2*x.m + x.n, 0.0); v.resize(2*x.m + x.n, p0); f = mul(Ke, v); for (auto& p : points(x.g)) for (int i = 0; i < x.m; i++) for (int q = 0; q < 2; q++) for (int l = 0; l < 2; l++) e[2*i + q] += (mu*(G(q, l) + G(l, q)) - (q == l)*p0)*p.dNdX(l, i)*p.dV; if (x.rule != 5) same(c, f, e, sc*far*10, 1e-9, "linear divergence-free flow"); c.nontrivial();
}
LAW(matrices, 12000, 180000, "flow mass matrices, Brinkman friction with any tensor, convection-diffusion stiffness with any advecting field and the continuity operator: equal to the quadrature of the weak form, totals of mass exact, gradient minus the transpose of divergence, pressure rows where they belong; non-trivial for a non-zero matrix with a coefficient other than one") {
    Mix x = mixed(s, c); int v = s.range(0, 5); double rho = coef(s), mu = coef(s); dmat k(2, 2); for (auto& q : k.v) q = s.sreal(3.0); LMat lk = lib(k); dvec u = flow(s, x); std::vector<LVec> up = nodal(x, u, dvec(x.n, 5.0)); std::vector<int> dl = doulist(s, 3); LMat K; N2E a, b;
#define M(SU, SP, IC) if (v == 0) StokesMass<double, SU, SP, IC>(K, a, x.eu, b, x.ep, dl, x.g.x, rho); else if (v == 1) NavierStokesConsistentMass<double, SU, SP, IC>(K, a, x.eu, b, x.ep, dl, x.g.x, rho); else if (v == 2) BrinkmanBodyForce<double, SU, SP, IC>(K, a, x.eu, b, x.ep, dl, x.g.x, lk); else if (v == 3) NavierStokesBrinkmanBodyForce<double, SU, SP, IC>(K, a, x.eu, b, x.ep, dl, x.g.x, lk); else if (v == 4) NavierStokesStiffness<double, SU, SP, IC>(K, a, x.eu, b, x.ep, dl, x.g.x, up, rho, mu); else ContinuityStiffness<double, SU, SP, IC>(K, a, x.eu, b, x.ep, dl, x.g.x)
    WITH_MIX(x, M)
#undef M
    static const char* W[] = {"Stokes mass", "Navier-Stokes mass", "Brinkman", "Navier-Stokes Brinkman", "Navier-Stokes stiffness", "continuity"}; c.desc << W[v] << " rule " << x.rule << " rho=" << rho << " mu=" << mu << " k=" << show(k) << " u=" << show(u); c.label(W[v]); auto o = perm(c, x.m, x.n, a, b, dl); dmat Ke = canon(c, K, o), E(2*x.m + x.n, 2*x.m + x.n);
    if (v <= 1) E = coupled(x, scale(eye(2), rho)); else if (v <= 3) E = coupled(x, k); else if (v == 4) E = add(visc(x, mu), convect(x, u, rho)); else pressure(x, E, -1, 1); double sc = v == 4 ? amax(visc(x, mu)) + rho*amax(u)*size_of(x.g) : amax(E) + 1e-300; same(c, Ke, E, sc, 1e-9, W[v]); if (v <= 1) { double t = 0; for (int i = 0; i < 2*x.m; i++) for (int j = 0; j < 2*x.m; j++) t += Ke(i, j); c.near(t, 2*rho*measure(x.g), rho*measure(x.g), 1e-9, "total mass"); } c.nontrivial(amax(E) > 0);
}
LAW(tangent, 6000, 90000, "Navier-Stokes Newton systems at any velocity and pressure: the right-hand side is minus the quadrature of the weak form, the matrix minus its exact derivative, the adjoint velocity block the transpose of the tangent's and its pressure blocks those of the tangent; non-trivial for a non-uniform velocity") {
    Mix x = mixed(s, c); double rho = coef(s), mu = coef(s); dvec u = flow(s, x), p(x.n); for (auto& q : p) q = s.sreal(2.0); std::vector<int> dl = doulist(s, 3); N2E a, b; std::vector<int> o; LMat K, A; LVec F; int N = 2*x.m + x.n;
    auto call = [&](const dvec& uu, const dvec& pp) { std::vector<LVec> up = nodal(x, uu, pp);
#define M(SU, SP, IC) NavierStokesTangent<double, SU, SP, IC>(K, F, a, x.eu, b, x.ep, dl, x.g.x, up, rho, mu)
    WITH_MIX(x, M)
#undef M
        o = perm(c, x.m, x.n, a, b, dl); return canon(c, F, o); };
    dvec f = call(u, p); c.desc << "rule " << x.rule << " rho=" << rho << " mu=" << mu << " u=" << show(u) << " p=" << show(p); dmat Ke = canon(c, K, o), E = add(add(visc(x, mu), convect(x, u, rho)), newton(x, u, rho)); double sv = amax(visc(x, mu)) + rho*(amax(u) + 0.1)*size_of(x.g); dmat R = add(visc(x, mu), convect(x, u, rho)); pressure(x, R, -1, 1); dvec up = u; up.insert(up.end(), p.begin(), p.end()); dvec e = scale(mul(R, up), -1); double sf = (sv + amax(R))*(1 + amax(up)); same(c, f, e, sf, 1e-9, "right-hand side");
    dvec d(N); for (auto& q : d) q = s.sreal(1.0); auto part = [&](double t) { dvec uu(u), pp(p); for (int i = 0; i < 2*x.m; i++) uu[i] += t*d[i]; for (int i = 0; i < x.n; i++) pp[i] += t*d[2*x.m + i]; return call(uu, pp); }; dvec fd = scale(add(part(1.0), part(-1.0), -1), -0.5); same(c, mul(Ke, d), fd, sf*3, 1e-8, "matrix against the derivative of the right-hand side"); pressure(x, E, -1, 1); same(c, Ke, E, sv + amax(R), 1e-9, "tangent");
    std::vector<LVec> un = nodal(x, u, p);
#define M(SU, SP, IC) NavierStokesAdjoint<double, SU, SP, IC>(A, a, x.eu, b, x.ep, dl, x.g.x, un, rho, mu)
    WITH_MIX(x, M)
#undef M
    o = perm(c, x.m, x.n, a, b, dl); dmat Ae = canon(c, A, o); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { bool vv = i < 2*x.m && j < 2*x.m; c.near(Ae(i, j), vv ? E(j, i) : E(i, j), sv + amax(R), 1e-9, vv ? "adjoint velocity block" : "adjoint pressure blocks"); } bool uni = true; for (int i = 2; i < 2*x.m; i++) if (u[i] != u[i%2]) uni = false; c.nontrivial(!uni);
}
LAW(stabilised, 8000, 120000, "streamline and pressure stabilisation matrices (stiffness, mass, continuity) for any advecting field, also at rest, time step and viscosity: equal to the quadrature of the documented stabilisation, constants are not stabilised, the pressure block is a semidefinite Laplacian; non-trivial when the fluid moves") {
    Mix x = mixed(s, c); int v = s.range(0, 2), m = x.m, n = x.n, N = 2*m + n; double rho = coef(s), mu = coef(s), dt = s.logreal(1e-3, 1e2); dvec u = flow(s, x); if (s.chance(1, 6)) u.assign(2*m, 0.0); std::vector<LVec> up = nodal(x, u, dvec(n, 5.0)); std::vector<int> dl = doulist(s, 3); LMat K; N2E a, b;
#define M(SU, SP, IC) if (v == 0) NavierStokesSUPGPSPGStiffness<double, SU, SP, IC>(K, a, x.eu, b, x.ep, dl, x.g.x, up, rho, mu, dt); else if (v == 1) NavierStokesSUPGPSPGConsistentMass<double, SU, SP, IC>(K, a, x.eu, b, x.ep, dl, x.g.x, up, rho, mu, dt); else ContinuitySUPGPSPGStiffness<double, SU, SP, IC>(K, a, x.eu, b, x.ep, dl, x.g.x, up, rho, mu, dt)
    WITH_MIX(x, M)
#undef M
    c.desc << "matrix " << v << " rule " << x.rule << " rho=" << rho << " mu=" << mu << " dt=" << dt << " u=" << show(u); auto o = perm(c, m, n, a, b, dl); dmat Ke = canon(c, K, o), E(N, N); double area = 0, sc = 1e-300; for (auto& p : x.P) area += p.dV;
    for (size_t q = 0; q < x.P.size(); q++) { auto &p = x.P[q], &r = x.Q[q]; dvec U = at(p, u), g = mul(tr(p.dNdX), U); double un = nrm(U), h = std::sqrt(area); if (un > 0 && un <= 1e-7) throw pbt::Reject(); if (un > 1e-10) { double t = 0; for (double z : g) t += std::fabs(z); h = 2*un/t; } double tau = p.dV/std::sqrt(std::pow(2/dt, 2) + std::pow(2*un/h, 2) + std::pow(4*mu/(rho*h*h), 2));
        auto put = [&](int i, int j, double z) { E(i, j) += tau*z; sc = std::max(sc, std::fabs(tau*z)); };
        for (int i = 0; i < m; i++) for (int k = 0; k < 2; k++) { if (v < 2) for (int j = 0; j < m; j++) put(2*i + k, 2*j + k, v == 0 ? rho*g[i]*g[j] : rho*g[i]*p.N[j]); for (int j = 0; j < n; j++) { if (v == 0) put(2*m + j, 2*i + k, rho*r.dNdX(k, j)*g[i]); if (v == 1) put(2*m + j, 2*i + k, rho*r.dNdX(k, j)*p.N[i]); if (v == 2) put(2*i + k, 2*m + j, g[i]*r.dNdX(k, j)); } }
        if (v == 2) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) put(2*m + i, 2*m + j, r.dNdX(0, i)*r.dNdX(0, j) + r.dNdX(1, i)*r.dNdX(1, j)); }
    same(c, Ke, E, sc, 1e-8, "stabilisation matrix"); if (v != 1) { dvec w(N, 0.0); if (v == 0) for (int i = 0; i < 2*m; i++) w[i] = 1; else for (int i = 0; i < n; i++) w[2*m + i] = 1; same(c, mul(Ke, w), dvec(N, 0.0), sc, 1e-8, "constants"); } c.nontrivial(amax(u) > 0);
}
LAW(forces, 12000, 180000, "body forces of both flow families and tractions on straight edges of mixed order: velocity places carry the quadrature of the load, pressure places nothing, totals exact for constant loads; non-trivial for a varying load") {
    int v = s.range(0, 2); Field f = field(s); auto lf = [&](LVec x) { return lib(f(ref(x))); }; std::vector<int> dl = doulist(s, 3); LVec F; N2E a, b; c.desc << "load " << show(f.a) << show(f.G) << show(f.q) << " "; dvec e; double sc = 1e-300, len = 0; int m, n;
    if (v < 2) { Mix x = mixed(s, c); m = x.m; n = x.n; e.assign(2*m + n, 0.0);
#define M(SU, SP, IC) if (v == 0) StokesBodyForce<double, SU, SP, IC>(F, a, x.eu, b, x.ep, dl, x.g.x, lf); else NavierStokesBodyForce<double, SU, SP, IC>(F, a, x.eu, b, x.ep, dl, x.g.x, lf)
        WITH_MIX(x, M)
#undef M
        for (auto& p : x.P) { dvec q = f(p.x); for (int i = 0; i < m; i++) for (int k = 0; k < 2; k++) e[2*i + k] += p.N[i]*q[k]*p.dV; sc += (amax(q) + 0.01)*p.dV; } len = measure(x.g);
    } else { Edge d = edge(s, c); if (!d.straight) { d.p[2] = scale(add(d.p[0], d.p[1]), 0.5); d.x[d.el[2]] = lib(d.p[2]); } m = d.n; n = 2; std::vector<int> ep = {d.el[0], d.el[1]}; e.assign(2*m + n, 0.0); std::vector<LPt> P; if (m == 3) { StokesSurfaceForce<double, ShapeFunction3Line, ShapeFunction2Line, Gauss2Line>(F, a, d.el, b, ep, dl, d.x, lf); } else { StokesSurfaceForce<double, ShapeFunction2Line, ShapeFunction2Line, Gauss2Line>(F, a, d.el, b, ep, dl, d.x, lf); } P = lrule<Gauss2Line>(d, d.p); for (auto& p : P) { dvec q = f(p.x); double l = nrm(p.tan)*p.w; for (int i = 0; i < m; i++) for (int k = 0; k < 2; k++) e[2*i + k] += p.N[i]*q[k]*l; sc += (amax(q) + 0.01)*l; len += l; } }
    auto o = perm(c, m, n, a, b, dl); dvec g = canon(c, F, o); same(c, g, e, sc, 1e-9, "node forces"); if (f.linear() && amax(f.G) == 0) for (int k = 0; k < 2; k++) { double t = 0; for (int i = 0; i < m; i++) t += g[2*i + k]; c.near(t, f.a[k]*len, sc, 1e-9, "total force"); } c.nontrivial(!f.linear() || amax(f.G) > 0);
}
LAW(split, 12000, 180000, "the operators of the split method on plane elements: consistent and lumped mass with the exact total, predictor force the quadrature of convection and diffusion (zero net force for a uniform stream, diffusion conserves momentum), pressure matrix a Laplacian with the divergence of the predicted velocity on the right, corrector the exact gradient of linear pressures; non-trivial for a non-uniform field") {
    Kind k = s.pick(PLANE); Mix x; x.g = valid(s, c, k, 0.3, 0.1); x.m = x.g.n; x.n = 0; Geo& g = x.g; int v = s.range(0, 4), m = g.n; double rho = coef(s), mu = coef(s), dt = s.logreal(1e-3, 1e1); dvec u = flow(s, x), pr(m); bool lin = s.coin(); dvec gr = {s.sreal(1.0), s.sreal(1.0)}; for (int i = 0; i < m; i++) pr[i] = lin ? dot(gr, g.p[i]) : s.sreal(2.0); std::vector<LVec> lu(g.x.size(), LVec(2)), lp(g.x.size(), LVec(1)); for (int i = 0; i < m; i++) { lp[g.el[i]](0) = pr[i]; for (int q = 0; q < 2; q++) lu[g.el[i]](q) = u[2*i + q]; } std::vector<int> dl = doulist(s, v == 3 ? 1 : 2); LMat K; LVec F; N2E a;
#define M(SF, IC) x.P = rule<IC>(g); if (v == 0) NavierStokesDecoupledConsistentMass<double, SF, IC>(K, a, g.el, dl, g.x, rho); else if (v == 1) NavierStokesDecoupledLumpedMass<double, SF, IC>(K, a, g.el, dl, g.x, rho); else if (v == 2) NavierStokesAuxiliaryVelocity<double, SF, IC>(F, a, g.el, dl, g.x, lu, rho, mu); else if (v == 3) NavierStokesPressurePoisson<double, SF, IC>(K, F, a, g.el, dl, g.x, lu, rho, dt); else NavierStokesNextstepVelocity<double, SF, IC>(F, a, g.el, dl, g.x, lu, lp, rho)
    WITH_PLANE(k, M);
#undef M
    c.desc << "operator " << v << " rho=" << rho << " mu=" << mu << " dt=" << dt << " u=" << show(u) << " p=" << show(pr); int d = v == 3 ? 1 : 2, N = d*m; auto pl = places(c, a, m, dl, N); double A = measure(g), h = size_of(g);
    if (v <= 1) { dmat Ke = order(ref(K), pl), E = v == 0 ? coupled(x, scale(eye(2), rho)) : scale(eye(N), rho*A/m); same(c, Ke, E, amax(E), 1e-9, v ? "lumped mass" : "consistent mass"); double t = 0; for (double z : Ke.v) t += z; c.near(t, 2*rho*A, rho*A, 1e-9, "total mass"); }
    else if (v == 2) { c.check(F.SIZE() == N, "length"); dvec f = order(ref(F), pl), e(N, 0.0); dmat C = convect(x, u, rho), L(N, N); for (auto& p : x.P) for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) for (int q = 0; q < 2; q++) L(2*i + q, 2*j + q) += mu*(p.dNdX(0, i)*p.dNdX(0, j) + p.dNdX(1, i)*p.dNdX(1, j))*p.dV; e = scale(mul(add(C, L), u), -1); double sf = (amax(L) + rho*(amax(u) + 0.1)*h)*(1 + amax(u)); same(c, f, e, sf, 1e-9, "predictor"); }
    else if (v == 3) { c.check(F.SIZE() == N, "length"); dmat Ke = order(ref(K), pl), E(m, m); dvec f = order(ref(F), pl), e(m, 0.0); double dv = 0; for (auto& p : x.P) { E = add(E, scale(mul(tr(p.dNdX), p.dNdX), p.dV)); dmat G = grad(p, u); e = add(e, p.N, -rho/dt*(G(0, 0) + G(1, 1))*p.dV); dv += rho/dt*(std::fabs(G(0, 0)) + std::fabs(G(1, 1)) + 1e-3)*p.dV; } same(c, Ke, E, amax(E), 1e-9, "pressure matrix"); same(c, f, e, dv + rho/dt*(1 + amax(u))*h, 1e-9, "divergence"); }
    else { c.check(F.SIZE() == N, "length"); dvec f = order(ref(F), pl), e(N, 0.0); for (auto& p : x.P) { dvec q = mul(p.dNdX, pr); for (int i = 0; i < m; i++) for (int z = 0; z < 2; z++) e[2*i + z] -= p.N[i]*q[z]*p.dV; } double far = 1; for (auto& p : g.p) far = std::max(far, amax(p)); same(c, f, e, (1 + amax(pr))*h, 1e-9*far, "corrector"); if (lin) for (int z = 0; z < 2; z++) { double t = 0; for (int i = 0; i < m; i++) t += f[2*i + z]; c.near(t, -gr[z]*A, (1 + amax(pr))*h, 1e-8*far, "gradient of a linear pressure"); } }
    bool uni = true; for (int i = 2; i < 2*m; i++) if (u[i] != u[i%2]) uni = false; c.nontrivial(v <= 1 || !uni || v == 4);
}
