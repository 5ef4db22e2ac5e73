#include "elastic.h"
#include "edge.h"
#include <cassert>
#include "FEM/Equation/HeatTransfer.h"
#include "FEM/Equation/Advection.h"
#include "FEM/Equation/ReactionDiffusion.h"
using namespace PANSFEM2;
static double coef(pbt::Src& s) { return s.chance(1, 5) ? 1.0 : s.logreal(1e-3, 1e3); }
static dmat placed(pbt::Ctx& c, const Geo& g, LMat& K, const N2E& m, const std::vector<int>& dl) { c.check(K.ROW() == g.n && K.COL() == g.n, "size of the element matrix"); return order(ref(K), places(c, m, g.n, dl, g.n)); }
LAW(conduction, 15000, 250000, "heat conduction, diffusion and reaction-diffusion stiffness on affine, distorted and curved elements, random conductivities and thicknesses: symmetric, semidefinite, no flux for a constant, exact fluxes for linear temperature fields, equal to the quadrature with independent shape functions; non-trivial when the coefficient differs from one") {
    Kind k = s.pick(PLANE); Geo g = valid(s, c, k, 0.3, 0.1); int v = s.range(0, 2); double a = coef(s), t = v == 0 ? thick(s) : 1.0; std::vector<int> dl = doulist(s, 1); LMat K; N2E m; std::vector<Pt> P;
#define M(SF, IC) P = rule<IC>(g); if (v == 0) HeatTransfer<double, SF, IC>(K, m, g.el, dl, g.x, a, t); else if (v == 1) Diffusion<double, SF, IC>(K, m, g.el, dl, g.x, a); else ReactionDiffusionStiffness<double, SF, IC>(K, m, g.el, dl, g.x, a);
    WITH_PLANE(k, M)
#undef M
    c.desc << (v == 0 ? "heat" : v == 1 ? "diffusion" : "reaction-diffusion") << " coefficient " << a << " t=" << t; dmat Ke = placed(c, g, K, m, dl), E(g.n, g.n); for (auto& p : P) E = add(E, scale(mul(tr(p.dNdX), p.dNdX), a*t*p.dV)); double sc = amax(E), far = 1; for (auto& p : g.p) far = std::max(far, amax(p)); same(c, Ke, E, sc, 1e-9, "matrix"); same(c, Ke, tr(Ke), sc, 1e-12, "symmetry"); same(c, mul(Ke, dvec(g.n, 1.0)), dvec(g.n, 0.0), sc, 1e-9, "constant temperature");
    dvec gr = {s.sreal(1.0), s.sreal(1.0)}, T, f(g.n, 0.0), w(g.n); for (auto& p : g.p) T.push_back(dot(gr, p) + 3); for (auto& p : points(g)) f = add(f, mul(tr(p.dNdX), gr), a*t*p.dV); same(c, mul(Ke, T), f, sc*far*4, 1e-9, "linear temperature"); for (auto& x : w) x = s.sreal(1.0); c.check(dot(w, mul(Ke, w)) >= -1e-11*sc*g.n, "dissipation is not negative"); c.nontrivial(a*t != 1.0);
}
LAW(capacity, 15000, 250000, "heat capacity, transport mass, consistent and lumped reaction-diffusion mass with several rules: symmetric, non-negative, total rho*c*t*area, lumped ones diagonal with equal shares, consistent ones equal to the quadrature; non-trivial for coefficients other than one or a lumped matrix") {
    Kind k = s.pick(PLANE); Geo g = valid(s, c, k, 0.3, 0.1); int v = s.range(0, 3); double rho = v ? 1.0 : coef(s), cp = v ? 1.0 : coef(s), t = v ? 1.0 : thick(s); std::vector<int> dl = doulist(s, 1); LMat K; N2E m; std::vector<Pt> P; bool alt = s.coin() && (k == QUAD4 || k == TRI3);
#define M(SF, IC) { P = rule<IC>(g); if (v == 0) HeatCapacity<double, SF, IC>(K, m, g.el, dl, g.x, rho, cp, t); else if (v == 1) Mass<double, SF, IC>(K, m, g.el, dl, g.x); else if (v == 2) ReactionDiffusionConsistentMass<double, SF, IC>(K, m, g.el, dl, g.x); else ReactionDiffusionLumpedMass<double, SF, IC>(K, m, g.el, dl, g.x); }
    if (alt && k == QUAD4) M(ShapeFunction4Square, Gauss9Square) else if (alt) M(ShapeFunction3Triangle, Gauss3Triangle) else { WITH_PLANE(k, M) }
#undef M
    c.desc << "kind " << v << " rho=" << rho << " c=" << cp << " t=" << t; dmat Ke = placed(c, g, K, m, dl), E(g.n, g.n); double A = measure(g), f = rho*cp*t; for (auto& p : P) for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) E(i, j) += p.N[i]*p.N[j]*p.dV*f; if (v == 3) E = scale(eye(g.n), A/g.n); double sc = amax(E); same(c, Ke, E, sc, 1e-9, v == 3 ? "lumped mass" : "mass"); same(c, Ke, tr(Ke), sc, 1e-12, "symmetry"); double tot = 0; for (double x : Ke.v) tot += x; c.near(tot, f*A, f*A, 1e-9, "total capacity"); c.nontrivial(v == 3 || f != 1.0);
}
static dvec velocity(pbt::Src& s) { double q = s.chance(1, 3) ? 1.0 : s.logreal(1e-6, 1e6), a = s.sreal(3.14159265); if (s.chance(1, 4)) a = 1.5707963267948966*s.range(0, 3); return {q*std::cos(a), q*std::sin(a)}; }
LAW(transport, 15000, 250000, "advection matrices for any velocity (also zero): no production for constants, linear fields advected exactly, total equals velocity times gradient times area, linear in the velocity, equal to the quadrature; non-trivial for a velocity with two components") {
    Kind k = s.pick(PLANE); Geo g = valid(s, c, k, 0.3, 0.1); dvec a = velocity(s); if (s.chance(1, 12)) a = {0, 0}; std::vector<int> dl = doulist(s, 1); LMat K; N2E m; std::vector<Pt> P;
#define M(SF, IC) P = rule<IC>(g); Advection<double, SF, IC>(K, m, g.el, dl, g.x, a[0], a[1]);
    WITH_PLANE(k, M)
#undef M
    c.desc << " velocity " << show(a); dmat Ke = placed(c, g, K, m, dl), E(g.n, g.n); double sc = 1e-300; for (auto& p : P) { dvec q = mul(tr(p.dNdX), a); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) { E(i, j) += p.N[i]*q[j]*p.dV; sc = std::max(sc, std::fabs(p.N[i]*q[j]*p.dV)); } } double far = 1; for (auto& p : g.p) far = std::max(far, amax(p)); same(c, Ke, E, sc, 1e-9, "matrix"); same(c, mul(Ke, dvec(g.n, 1.0)), dvec(g.n, 0.0), sc, 1e-9, "constant field");
    dvec gr = {s.sreal(1.0), s.sreal(1.0)}, T, f(g.n, 0.0); for (auto& p : g.p) T.push_back(dot(gr, p)); for (auto& p : P) f = add(f, p.N, dot(a, gr)*p.dV); dvec r = mul(Ke, T); same(c, r, f, sc*far*10, 1e-9, "linear field"); double tot = 0; for (double x : r) tot += x; c.near(tot, dot(a, gr)*measure(g), sc*far*30, 1e-9, "total transport"); c.nontrivial(std::fabs(a[0]) > 1e-6 && std::fabs(a[1]) > 1e-6);
}
// streamline length, Peclet number and the stabilisation time of the doubly asymptotic rule
static double tau_of(const Pt& p, const dvec& a, double k) { double sum = 0, na = nrm(a); dvec q = mul(tr(p.dNdX), a); for (double x : q) sum += std::fabs(x)/na; double he = 2/sum, pe = na*he/(2*k); return he/(2*na)*(pe <= 3 ? pe/3 : 1.0); }
LAW(stabilised, 15000, 250000, "streamline-upwind, shock-capturing and upwinded mass matrices for non-zero velocities and diffusivities on both sides of the Peclet switch: symmetric and dissipative (where they must be), vanish on constants and on fields that do not vary along the stream, conserve the total, equal to the documented stabilisation by the quadrature; always non-trivial") {
    Kind k = s.pick(PLANE); Geo g = valid(s, c, k, 0.3, 0.1); dvec a = velocity(s); double h = size_of(g), kap = nrm(a)*h*s.logreal(1e-3, 1e2); std::vector<int> dl = doulist(s, 1); LMat K; N2E m; std::vector<Pt> P; int v = s.range(0, 2);
#define M(SF, IC) P = rule<IC>(g); if (v == 0) AdvectionSUPG<double, SF, IC>(K, m, g.el, dl, g.x, a[0], a[1], kap); else if (v == 1) AdvectionShockCapturing<double, SF, IC>(K, m, g.el, dl, g.x, a[0], a[1], kap); else MassSUPG<double, SF, IC>(K, m, g.el, dl, g.x, a[0], a[1], kap);
    WITH_PLANE(k, M)
#undef M
    c.desc << (v == 0 ? "SUPG" : v == 1 ? "shock capturing" : "SUPG mass") << " velocity " << show(a) << " k=" << kap; dmat Ke = placed(c, g, K, m, dl), E(g.n, g.n); double sc = 1e-300; for (auto& p : P) { double t = tau_of(p, a, kap); dvec q = mul(tr(p.dNdX), a); dmat B = mul(tr(p.dNdX), p.dNdX); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) { double x = v == 0 ? t*q[i]*q[j] : v == 1 ? t*dot(a, a)*B(i, j) : t*q[i]*p.N[j]; E(i, j) += x*p.dV; sc = std::max(sc, std::fabs(x*p.dV)); } } same(c, Ke, E, sc, 1e-8, "stabilisation matrix");
    dvec col(g.n, 0.0); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) col[j] += Ke(i, j); same(c, col, dvec(g.n, 0.0), sc, 1e-8, "the total is conserved"); if (v < 2) { same(c, Ke, tr(Ke), sc, 1e-10, "symmetry"); dvec w(g.n); for (auto& x : w) x = s.sreal(1.0); c.check(dot(w, mul(Ke, w)) >= -1e-10*sc*g.n, "not anti-dissipative"); same(c, mul(Ke, dvec(g.n, 1.0)), dvec(g.n, 0.0), sc, 1e-8, "constant field"); }
    if (v == 0) { dvec T; double far = 1; for (auto& p : g.p) { T.push_back(-a[1]/nrm(a)*p[0] + a[0]/nrm(a)*p[1]); far = std::max(far, amax(p)); } same(c, mul(Ke, T), dvec(g.n, 0.0), sc*far*10, 1e-8, "field constant along the stream"); } c.nontrivial();
}
LAW(reaction, 15000, 250000, "reaction vectors for random functions of the value and its gradient: equal to the quadrature of f(u, grad u) with the shape functions, constant rates give rate times area, linear fields are seen with their exact gradient; non-trivial for a function of the gradient") {
    Kind k = s.pick(PLANE); Geo g = valid(s, c, k, 0.3, 0.1); std::vector<int> dl = doulist(s, 1); LVec F; N2E m; std::vector<Pt> P; int v = s.range(0, 3); double q = s.sreal(2.0), r = s.sreal(2.0); dvec gr = {s.sreal(1.0), s.sreal(1.0)}; bool lin = s.coin(); dvec U(g.n); std::vector<LVec> u(g.x.size(), LVec(1)); for (auto& x : u) x(0) = 50.0; for (int i = 0; i < g.n; i++) { U[i] = lin ? dot(gr, g.p[i]) + q : s.sreal(2.0); u[g.el[i]](0) = U[i]; }
    auto fun = [&](double x, const dvec& d) { return v == 0 ? q : v == 1 ? q*x*(1 - x) : v == 2 ? q*d[0] - r*d[1] : x*d[0] + r*x*x - d[0]*d[1]; }; auto lf = [&](double x, LVec d) { return fun(x, ref(d)); };
#define M(SF, IC) P = rule<IC>(g); ReactionDiffusionReaction<double, SF, IC>(F, m, g.el, dl, g.x, u, lf);
    WITH_PLANE(k, M)
#undef M
    c.desc << "rate " << v << " q=" << q << " r=" << r << " u=" << show(U); c.check(F.SIZE() == g.n, "length"); dvec f = order(ref(F), places(c, m, g.n, dl, g.n)), e(g.n, 0.0); double sc = 1e-300, tot = 0; for (auto& p : P) { double x = fun(dot(p.N, U), mul(p.dNdX, U)); e = add(e, p.N, x*p.dV); sc += (std::fabs(x) + 1 + std::pow(amax(mul(p.dNdX, U)), 2))*std::fabs(p.dV); } same(c, f, e, sc, 1e-8, "reaction"); for (double x : f) tot += x; if (v == 0) c.near(tot, q*measure(g), sc, 1e-9, "total of a constant rate"); if (v == 2 && lin) c.near(tot, (q*gr[0] - r*gr[1])*measure(g), sc, 1e-8, "total of a gradient rate"); c.nontrivial(v >= 2);
}
LAW(flux, 15000, 250000, "boundary fluxes (constant, linear, quadratic) on straight and curved 2- and 3-node edges: node values are the quadrature of the flux along the edge, straight edges carry exactly the total of constant and linear fluxes, linear in flux and thickness; non-trivial for a varying flux") {
    Edge e = edge(s, c); double t = thick(s); Field f = field(s); std::vector<int> dl = doulist(s, 1); LVec F; N2E m; std::vector<LPt> P; auto lf = [&](LVec x) { return f(ref(x))[0]; }; int r = s.range(0, 2);
#define M(SF, IC) { P = lrule<IC>(e, e.p); HeatTransferSurfaceFlux<double, SF, IC>(F, m, e.el, dl, e.x, lf, t); }
    WITH_EDGE(e.n, r, M)
#undef M
    c.desc << "rule " << r << " t=" << t << " flux " << show(f.a) << show(f.G) << show(f.q); c.check(F.SIZE() == e.n, "length"); dvec v = order(ref(F), places(c, m, e.n, dl, e.n)), ex(e.n, 0.0); double sc = 1e-300, tot = 0; for (auto& p : P) { double q = f(p.x)[0], l = nrm(p.tan)*p.w*t; for (int i = 0; i < e.n; i++) ex[i] += p.N[i]*q*l; sc += (std::fabs(q) + 0.1)*l; } same(c, v, ex, sc, 1e-10, "node fluxes"); for (double x : v) tot += x;
    if (e.straight && f.linear()) { double L = nrm(add(e.p[1], e.p[0], -1)); c.near(tot, f(scale(add(e.p[0], e.p[1]), 0.5))[0]*L*t, sc, 1e-10, "total flux"); } c.nontrivial(!f.linear() || amax(f.G) > 0);
}
