#include "elastic.h"
#include <cassert>
#include "FEM/Equation/PlaneStrain.h"
#include "FEM/Equation/Solid.h"
using namespace PANSFEM2;
#define TR tr
static dmat nodal_matrix(const Geo& g, const dvec& u) { dmat U(g.n, g.d); U.v = u; return U; }
static dmat defgrad(const Geo& g, const Pt& p, const dvec& u) { return add(eye(g.d), tr(mul(p.dNdX, nodal_matrix(g, u)))); }
// first Piola-Kirchhoff stress of the two materials (plane strain when d = 2)
static dmat piola(bool total, const dmat& F, double E, double nu) {
    double l = lame1(E, nu), m = lame2(E, nu); int d = F.r;
    if (total) { dmat e = scale(add(mul(tr(F), F), eye(d), -1), 0.5); double t = 0; for (int i = 0; i < d; i++) t += e(i, i); return mul(F, add(scale(eye(d), l*t), e, 2*m)); }
    double J = determinant(F); return mul(add(scale(add(mul(F, tr(F)), eye(d), -1), m), scale(eye(d), l*std::log(J))), tr(inverse(F)));
}
static double energy(bool total, const dmat& F, double E, double nu) {
    double l = lame1(E, nu), m = lame2(E, nu); int d = F.r; dmat C = mul(tr(F), F);
    if (total) { dmat e = scale(add(C, eye(d), -1), 0.5); double t = 0, q = 0; for (int i = 0; i < d; i++) t += e(i, i); for (double x : e.v) q += x*x; return 0.5*l*t*t + m*q; }
    double J = std::log(determinant(F)), t = 0; for (int i = 0; i < d; i++) t += C(i, i) - 1; return 0.5*m*t - m*J + 0.5*l*J*J;
}
struct Res { dmat K; dvec F; };
static Res call(pbt::Ctx& c, Geo& g, bool total, const dvec& u, const std::vector<int>& dl, double E, double nu, double t, const std::vector<LVec>& junk) {
    LMat K; LVec F; N2E m; std::vector<LVec> U(junk); for (int i = 0; i < g.n; i++) for (int k = 0; k < g.d; k++) U[g.el[i]](k) = u[i*g.d + k];
#define M(SF, IC) if (total) PlaneStrainStiffnessTotalLagrange<double, SF, IC>(K, F, m, g.el, dl, g.x, U, E, nu, t); else PlaneStrainStiffnessUpdatedLagrange<double, SF, IC>(K, F, m, g.el, dl, g.x, U, E, nu, t);
    if (g.d == 2) { WITH_PLANE(g.kind, M) }
#undef M
#define M(SF, IC) if (total) SolidTotalLagrange<double, SF, IC>(K, F, m, g.el, dl, g.x, U, E, nu); else SolidUpdatedLagrange<double, SF, IC>(K, F, m, g.el, dl, g.x, U, E, nu);
    if (g.d == 3) { WITH_SOLID(g.kind, M) }
#undef M
    auto p = places(c, m, g.n, dl, g.n*g.d); Res r; r.K = order(ref(K), p); dvec f = ref(F); c.check((int)f.size() == g.n*g.d, "length of the force vector"); r.F = order(f, p); return r;
}
static std::vector<Pt> own(Geo& g) { std::vector<Pt> P;
#define M(SF, IC) P = rule<IC>(g);
    WITH_ELEMENT(g.kind, M)
#undef M
    return P; }
static void finite(pbt::Src& s, pbt::Ctx& c, int d) {
    Kind k = d == 2 ? s.pick(PLANE) : s.pick(SOLID); Geo g = valid(s, c, k, 0.25, 0.08); bool total = s.coin(); double E = modulus(s), nu = poisson(s), t = d == 2 ? thick(s) : 1.0; std::vector<int> dl = doulist(s, d); int N = g.n*d; double h = size_of(g);
    dmat R = d == 2 ? rot2(s.sreal(3.1)) : rot3(s); bool small = s.chance(1, 5); if (small) R = eye(d); dmat G(d, d); for (auto& x : G.v) x = s.sreal(0.25); dmat H = add(mul(R, add(eye(d), G)), eye(d), -1); dvec a(d); for (auto& x : a) x = s.sreal(1.0); dvec u(N); int mode = s.range(0, 5);
    if (mode == 0) { u.assign(N, 0.0); c.label("undeformed"); } else { if (mode == 1) { H = add(R, eye(d), -1); c.label("rigid"); } u = affine(g, H, a); if (mode >= 3) { for (auto& x : u) x += (k == HEX20 ? 0.03 : 0.06)*h*s.sreal(1.0); c.label("inhomogeneous"); } }
    c.desc << (total ? "total" : "updated") << " E=" << E << " nu=" << nu << " t=" << t << " mode " << mode << " u=" << show(u); std::vector<Pt> P = own(g); for (auto& p : P) { dmat F = defgrad(g, p, u); if (determinant(F) < 0.25) throw pbt::Reject(); }
    std::vector<LVec> junk(g.x.size(), LVec(d)); for (auto& v : junk) for (int q = 0; q < d; q++) v(q) = 7.5; Res r = call(c, g, total, u, dl, E, nu, t, junk);
    double sc = amax(r.K), far = 1; for (auto& p : g.p) far = std::max(far, amax(p)); c.check(sc > 0 && std::isfinite(sc), "the tangent is finite"); same(c, r.K, tr(r.K), sc, 1e-11, "symmetry of the tangent"); double fs = sc*h, num = 1e-13*far/h;
    // the force is minus the integral of P grad N
    dvec f(N, 0.0); for (auto& p : P) { dmat S = mul(piola(total, defgrad(g, p, u), E, nu), p.dNdX); for (int i = 0; i < g.n; i++) for (int q = 0; q < d; q++) f[i*d + q] -= S(q, i)*p.dV*t; } same(c, r.F, f, fs, 1e-9 + 100*num, "internal force");
    if (mode <= 1) same(c, r.F, dvec(N, 0.0), fs, 1e-10 + 100*num, "force of a rigid motion");
    if (mode == 0) { dmat L = stiffness(P, d, d == 2 ? strain_D(E, nu) : solid_D(E, nu), t); same(c, r.K, L, amax(L), 1e-9, "tangent at rest"); }
    // tangent against the derivative of the force, force against the derivative of the energy
    dvec v(N), df, kv; for (auto& x : v) x = s.sreal(1.0); double e = 2e-5*h, fd = 1e-6 + 2e-9*far/h, W = 0; kv = mul(r.K, v);
    auto slope = [&](double q, dvec& f, double& w) { dvec up = add(u, v, q), um = add(u, v, -q); Res a1 = call(c, g, total, up, dl, E, nu, t, junk), b1 = call(c, g, total, um, dl, E, nu, t, junk); f = scale(add(a1.F, b1.F, -1), -1/(2*q)); w = 0; for (auto& p : P) w += (energy(total, defgrad(g, p, up), E, nu) - energy(total, defgrad(g, p, um), E, nu))*p.dV*t/(2*q); };
    dvec f1, f2; double w1, w2; slope(e, f1, w1); slope(2*e, f2, w2); df = scale(add(scale(f1, 4), f2, -1), 1.0/3); W = (4*w1 - w2)/3;   // extrapolated central differences
    same(c, kv, df, sc, fd, "tangent against the derivative of the force"); c.near(-dot(r.F, v), W, fs, fd*N, "force against the derivative of the stored energy");
    // a superposed rotation turns the force
    dmat Q = d == 2 ? rot2(s.sreal(3.1)) : rot3(s); dvec w(N), qf(N); for (int i = 0; i < g.n; i++) { dvec x = g.p[i], y(d), ff(d); for (int q = 0; q < d; q++) { y[q] = x[q] + u[i*d + q]; ff[q] = r.F[i*d + q]; } y = mul(Q, y); ff = mul(Q, ff); for (int q = 0; q < d; q++) { w[i*d + q] = y[q] - x[q]; qf[i*d + q] = ff[q]; } } Res rq = call(c, g, total, w, dl, E, nu, t, junk); same(c, rq.F, qf, fs, 1e-9 + 300*num, "superposed rotation"); c.nontrivial(mode >= 2);
}
LAW(plane, 5000, 100000, "plane strain total and updated Lagrange elements of 3, 4, 6 and 8 nodes, random materials, thicknesses and displacements (none, rigid, homogeneous, inhomogeneous; moderate strains, any rotation): tangent is the derivative of the force, force the derivative of the stored energy, both scale with the thickness, rigid motions are free of force, superposed rotations turn the force, at rest the tangent is the linear stiffness; non-trivial for a strained state") { finite(s, c, 2); }
LAW(solid, 800, 15000, "the same for solid elements of 4, 8 and 20 nodes; non-trivial for a strained state") { finite(s, c, 3); }
