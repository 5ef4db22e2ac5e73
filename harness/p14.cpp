#include "elastic.h"
#include "edge.h"
#include <cassert>
#include "FEM/Equation/PlaneStress.h"
#include "FEM/Equation/PlaneStrain.h"
using namespace PANSFEM2;
LAW(mass, 15000, 250000, "plane stress and plane strain mass matrices on affine, distorted and curved elements with several rules: symmetric, the two directions do not couple, total mass rho*t*area, centre of mass and translational momentum exact, the kinetic energy of rigid rotation exact where the rule suffices, equal to the quadrature with independent shape functions; non-trivial when the thickness or density differs from one") {
    Kind k = s.pick(PLANE); Geo g = valid(s, c, k, 0.3, 0.1); bool st = s.coin(); double rho = s.chance(1, 4) ? 1.0 : s.logreal(1e-6, 1e6), t = thick(s); std::vector<int> dl = doulist(s, 2); LMat K; N2E m; std::vector<Pt> P; bool alt = s.coin(), exact = false;
#define R(SF, IC) { P = rule<IC>(g); if (st) PlaneStressMass<double, SF, IC>(K, m, g.el, dl, g.x, rho, t); else PlaneStrainMass<double, SF, IC>(K, m, g.el, dl, g.x, rho, t); }
    switch (k) { case TRI3: if (alt) { R(ShapeFunction3Triangle, Gauss3Triangle) exact = true; } else R(ShapeFunction3Triangle, Gauss1Triangle) break; case TRI6: R(ShapeFunction6Triangle, Gauss3Triangle) break;
        case QUAD4: if (alt) R(ShapeFunction4Square, Gauss9Square) else R(ShapeFunction4Square, Gauss4Square) exact = true; break; default: if (alt && g.affine) R(ShapeFunction8Square, Gauss4Square) else { R(ShapeFunction8Square, Gauss9Square) exact = g.affine; } }
#undef R
    c.desc << (st ? "stress" : "strain") << " rho=" << rho << " t=" << t << " rule " << alt; auto pl = places(c, m, g.n, dl, 2*g.n); dmat M = order(ref(K), pl), E(2*g.n, 2*g.n); for (auto& p : P) for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) for (int a = 0; a < 2; a++) E(2*i + a, 2*j + a) += p.N[i]*p.N[j]*p.dV*rho*t;
    double sc = amax(E), A = measure(g); same(c, M, E, sc, 1e-9, "mass matrix"); same(c, M, tr(M), sc, 1e-12, "symmetry"); dvec one(2*g.n, 0.0); for (int i = 0; i < g.n; i++) one[2*i] = 1; c.near(dot(one, mul(M, one)), rho*t*A, rho*t*A, 1e-9, "total mass"); dvec two(2*g.n, 0.0); for (int i = 0; i < g.n; i++) two[2*i + 1] = 1; c.near(dot(two, mul(M, two)), rho*t*A, rho*t*A, 1e-9, "total mass (second direction)"); c.near(dot(one, mul(M, two)), 0, rho*t*A, 1e-9, "the directions do not couple");
    if (exact) { dvec w; for (auto& p : g.p) { w.push_back(-p[1]); w.push_back(p[0]); } double I = 0; for (auto& p : points(g)) I += dot(p.x, p.x)*p.dV*rho*t; c.near(dot(w, mul(M, w)), I, I + rho*t*A, 1e-9, "kinetic energy of a rotation"); c.label("rotation"); } c.nontrivial(rho != 1 || t != 1);
}
LAW(body, 15000, 250000, "body forces (constant, linear, quadratic fields) on plane stress and plane strain elements: node forces are the quadrature of the load with the shape functions, totals and moments of constant loads are those of the load over the element, linear in load and thickness; non-trivial for a varying load") {
    Kind k = s.pick(PLANE); Geo g = valid(s, c, k, 0.3, 0.1); bool st = s.coin(); double t = thick(s); Field f = field(s); std::vector<int> dl = doulist(s, 2); LVec F; N2E m; std::vector<Pt> P; auto lf = [&](LVec x) { return lib(f(ref(x))); };
#define M(SF, IC) P = rule<IC>(g); if (st) PlaneStressBodyForce<double, SF, IC>(F, m, g.el, dl, g.x, lf, t); else PlaneStrainBodyForce<double, SF, IC>(F, m, g.el, dl, g.x, lf, t);
    WITH_PLANE(k, M)
#undef M
    c.desc << (st ? "stress" : "strain") << " t=" << t << " load " << show(f.a) << show(f.G) << show(f.q); c.check(F.SIZE() == 2*g.n, "length"); dvec v = order(ref(F), places(c, m, g.n, dl, 2*g.n)), e(2*g.n, 0.0); double sc = 1e-300; for (auto& p : P) { dvec q = f(p.x); for (int i = 0; i < g.n; i++) for (int a = 0; a < 2; a++) e[2*i + a] += p.N[i]*q[a]*p.dV*t; for (int a = 0; a < 2; a++) sc += std::fabs(q[a])*std::fabs(p.dV)*t; } double A = measure(g); same(c, v, e, sc, 1e-9, "node forces");
    if (amax(f.G) == 0 && f.linear()) { dvec tot(2, 0.0), ce(2, 0.0), ee = scale(f.a, A*t); double mo = 0; for (int i = 0; i < g.n; i++) { dvec q = {v[2*i], v[2*i + 1]}; tot = add(tot, q); mo += cross(g.p[i], q); } for (auto& p : P) ce = add(ce, p.x, p.dV); same(c, tot, ee, sc, 1e-9, "total force"); c.near(mo, cross(ce, f.a)*t, sc*10, 1e-9, "moment"); } c.nontrivial(!f.linear() || amax(f.G) > 0);
}
LAW(traction, 15000, 250000, "edge tractions (constant, linear, quadratic) on straight and curved 2- and 3-node edges: node forces are the quadrature of the traction along the edge, straight edges carry exactly the total and the moment of constant and linear tractions, linear in load and thickness; non-trivial for a varying traction") {
    Edge e = edge(s, c); bool st = s.coin(); double t = thick(s); Field f = field(s); std::vector<int> dl = doulist(s, 2); LVec F; N2E m; std::vector<LPt> P; auto lf = [&](LVec x) { return lib(f(ref(x))); }; int r = s.range(0, 2);
#define M(SF, IC) { P = lrule<IC>(e, e.p); if (st) PlaneStressSurfaceForce<double, SF, IC>(F, m, e.el, dl, e.x, lf, t); else PlaneStrainSurfaceForce<double, SF, IC>(F, m, e.el, dl, e.x, lf, t); }
    WITH_EDGE(e.n, r, M)
#undef M
    c.desc << (st ? "stress" : "strain") << " rule " << r << " t=" << t << " load " << show(f.a) << show(f.G) << show(f.q); c.check(F.SIZE() == 2*e.n, "length"); dvec v = order(ref(F), places(c, m, e.n, dl, 2*e.n)), ex(2*e.n, 0.0); double sc = 1e-300; for (auto& p : P) { dvec q = f(p.x); double l = nrm(p.tan); for (int i = 0; i < e.n; i++) for (int a = 0; a < 2; a++) ex[2*i + a] += p.N[i]*q[a]*l*p.w*t; sc += (std::fabs(q[0]) + std::fabs(q[1]))*l*t*p.w; } same(c, v, ex, sc, 1e-10, "node forces");
    if (e.straight && f.linear() && (r >= 1 || e.n == 3)) { double L = nrm(add(e.p[1], e.p[0], -1)); dvec mid = scale(add(e.p[0], e.p[1]), 0.5), d = add(e.p[1], e.p[0], -1), fm = f(mid), fd = mul(f.G, d), tot(2, 0.0); double mo = 0; for (int i = 0; i < e.n; i++) { dvec q = {v[2*i], v[2*i + 1]}; tot = add(tot, q); mo += cross(e.p[i], q); } same(c, tot, scale(fm, L*t), sc + L*t, 1e-10, "total force"); c.near(mo, L*t*(cross(mid, fm) + cross(d, fd)/12), (sc + L*t)*10, 1e-10, "moment"); c.label("totals"); } c.nontrivial(!f.linear() || amax(f.G) > 0);
}
LAW(pressure, 15000, 250000, "follower pressure on a displaced straight or curved edge: force is pressure times thickness times the normal of the displaced edge by the quadrature, its total depends on the displaced end points only, the tangent is symmetric; non-trivial when displaced") {
    Edge e = edge(s, c); double t = thick(s), p = s.sreal(4.0); std::vector<int> dl = doulist(s, 2); LMat K; LVec F; N2E m; std::vector<LPt> P; int r = s.range(0, 2); std::vector<LVec> U(e.x.size(), LVec(2)); std::vector<dvec> pos; bool mv = s.chance(4, 5); double h = nrm(add(e.p[1], e.p[0], -1)); for (int i = 0; i < e.n; i++) { dvec u = {0, 0}; if (mv) u = {h*s.sreal(0.3), h*s.sreal(0.3)}; U[e.el[i]] = lib(u); pos.push_back(add(e.p[i], u)); }
#define M(SF, IC) { P = lrule<IC>(e, pos); PlaneStrainSurfacePressureUpdatedLagrange<double, SF, IC>(K, F, m, e.el, dl, e.x, U, p, t); }
    WITH_EDGE(e.n, r, M)
#undef M
    c.desc << " rule " << r << " p=" << p << " t=" << t; auto pl = places(c, m, e.n, dl, 2*e.n); dvec v = order(ref(F), pl), ex(2*e.n, 0.0); dmat k = order(ref(K), pl); for (auto& q : P) for (int i = 0; i < e.n; i++) { ex[2*i] -= p*t*q.N[i]*q.tan[1]*q.w; ex[2*i + 1] += p*t*q.N[i]*q.tan[0]*q.w; } double sc = std::fabs(p)*t*h + 1e-300, num = 1e-10*(1 + 5/h); same(c, v, ex, sc, num, "node forces"); same(c, k, tr(k), amax(k) + 1e-300, 1e-12, "symmetry");
    dvec tot(2, 0.0); for (int i = 0; i < e.n; i++) tot = add(tot, dvec{v[2*i], v[2*i + 1]}); dvec d = add(pos[1], pos[0], -1); same(c, tot, dvec{-p*t*d[1], p*t*d[0]}, sc, num, "total force"); c.nontrivial(mv && p != 0);
}
LAW(closed, 8000, 120000, "follower pressure on closed outlines of 3..7 straight or curved edges: no net force or moment, work equals pressure times change of area, and the assembled tangent is minus the derivative of the force; always non-trivial") {
    int ne = s.range(3, 7), n = s.range(2, 3), N = ne*(n - 1); std::vector<dvec> X(N), u(N); std::vector<LVec> x(N, LVec(2)); double a0 = s.sreal(3.14); dvec ce = {s.sreal(2.0), s.sreal(2.0)}; for (int i = 0; i < ne; i++) { double a = a0 + 2*3.14159265358979*i/ne, r = s.real(0.7, 1.3); X[i] = add(ce, dvec{r*std::cos(a), r*std::sin(a)}); } for (int i = 0; i < ne && n == 3; i++) X[ne + i] = add(scale(add(X[i], X[(i + 1)%ne]), 0.5), dvec{s.sreal(0.05), s.sreal(0.05)});
    for (int i = 0; i < N; i++) { u[i] = {s.sreal(0.1), s.sreal(0.1)}; x[i] = lib(X[i]); } double p = s.nonzero(3.0), t = thick(s); int r = s.range(0, 2); c.desc << ne << " edges of " << n << " nodes, p=" << p << " t=" << t << " rule " << r;
    auto run = [&](const std::vector<dvec>& w, dmat* KK) { dvec f(2*N, 0.0); std::vector<LVec> U; for (auto& v : w) U.push_back(lib(v)); for (int i = 0; i < ne; i++) { std::vector<int> el = {i, (i + 1)%ne}; if (n == 3) el.push_back(ne + i); LMat K; LVec F; N2E m;
#define M(SF, IC) { PlaneStrainSurfacePressureUpdatedLagrange<double, SF, IC>(K, F, m, el, {0, 1}, x, U, p, t); }
        WITH_EDGE(n, r, M)
#undef M
        auto pl = places(c, m, n, {0, 1}, 2*n); for (int a = 0; a < n; a++) for (int q = 0; q < 2; q++) { f[2*el[a] + q] += F(pl[a][q]); if (KK) for (int b = 0; b < n; b++) for (int z = 0; z < 2; z++) (*KK)(2*el[a] + q, 2*el[b] + z) += K(pl[a][q], pl[b][z]); } } return f; };
    auto area = [&](const std::vector<dvec>& w) { double A = 0; for (int i = 0; i < ne; i++) { dvec a = add(X[i], w[i]), b = add(X[(i + 1)%ne], w[(i + 1)%ne]); A += 0.5*cross(a, b); if (n == 3) A += (2.0/3)*cross(add(add(X[ne + i], w[ne + i]), scale(add(a, b), 0.5), -1), add(b, a, -1)); } return A; };
    dmat K(2*N, 2*N); dvec F = run(u, &K); dvec tot(2, 0.0); double mo = 0, sc = std::fabs(p)*t*10; for (int i = 0; i < N; i++) { dvec q = {F[2*i], F[2*i + 1]}; tot = add(tot, q); mo += cross(add(X[i], u[i]), q); } same(c, tot, dvec(2, 0.0), sc, 1e-10, "net force"); c.near(mo, 0, sc, 1e-10, "net moment");
    std::vector<dvec> w(N), up(N), um(N); dvec v(2*N); for (int i = 0; i < N; i++) { w[i] = {s.sreal(1.0), s.sreal(1.0)}; up[i] = add(u[i], w[i], 0.01); um[i] = add(u[i], w[i], -0.01); v[2*i] = w[i][0]; v[2*i + 1] = w[i][1]; } dvec d = scale(add(run(up, 0), run(um, 0), -1), -50.0); same(c, mul(K, v), d, sc, 1e-9, "tangent"); same(c, K, tr(K), sc, 1e-11, "symmetry"); c.near(dot(F, v), -p*t*(area(up) - area(um))*50.0, sc*10, 1e-9, "work of the pressure is minus pressure times the change of area"); c.nontrivial();
}
