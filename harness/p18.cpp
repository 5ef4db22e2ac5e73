#include "elastic.h"
#include "mesh.h"
#include "sparse.h"
#include "FEM/Controller/Assembling.h"
#include "FEM/Controller/BoundaryCondition.h"
#include "LinearAlgebra/Solvers/CG.h"
#include "FEM/Equation/PlaneStrain.h"
#include "FEM/Equation/Homogenization.h"
#include "FEM/Equation/General.h"
using namespace PANSFEM2;
#define WITH_CELL(k, M) switch (k) { case TRI3: M(ShapeFunction3Triangle, Gauss1Triangle) break; case TRI6: M(ShapeFunction6Triangle, Gauss3Triangle) break; case QUAD4: M(ShapeFunction4Square, Gauss4Square) break; default: M(ShapeFunction8Square, Gauss9Square) }
static dmat columns(const std::vector<dvec>& c) { dmat m((int)c[0].size(), (int)c.size()); for (int j = 0; j < m.c; j++) for (int i = 0; i < m.r; i++) m(i, j) = c[j][i]; return m; }
LAW(element, 12000, 250000, "single affine, distorted and curved elements with random corrector fields: the loads of the three unit strains are the integral of B^T D, equal to what the element stiffness gives for the displacement of that strain, the element's homogenised contribution is the integral of D (I - B chi) and the check matrix minus the integral of B chi, all with the thickness; non-trivial when a corrector is not zero") {
    Kind k = s.pick(PLANE); Geo g = valid(s, c, k, 0.3, 0.1); double E = modulus(s), v = poisson(s), t = thick(s); std::vector<int> dl = doulist(s, 2); std::vector<std::vector<LVec> > chi(3, std::vector<LVec>(g.x.size(), LVec(2))); bool zero = s.chance(1, 8); if (!zero) for (auto& f : chi) for (auto& w : f) for (int j = 0; j < 2; j++) w(j) = s.sreal(1.0); LMat F, K, CH, CK; N2E m, mk; std::vector<Pt> P;
#define M(SF, IC) P = rule<IC>(g); HomogenizePlaneStrainBodyForce<double, SF, IC>(F, m, g.el, dl, g.x, E, v, t); PlaneStrainStiffness<double, SF, IC>(K, mk, g.el, dl, g.x, E, v, t); CH = HomogenizePlaneStrainConstitutive<double, SF, IC>(g.x, g.el, chi[0], chi[1], chi[2], E, v, t); CK = HomogenizePlaneStrainCheck<double, SF, IC>(g.x, g.el, chi[0], chi[1], chi[2], t);
    WITH_CELL(k, M)
#undef M
    c.desc << "E=" << E << " v=" << v << " t=" << t; dmat D = strain_D(E, v), f(2*g.n, 3), X(2*g.n, 3), ch(3, 3), ck(3, 3); for (int i = 0; i < g.n; i++) for (int q = 0; q < 3; q++) for (int j = 0; j < 2; j++) X(2*i + j, q) = chi[q][g.el[i]](j); double A = 0, bm = 0; for (auto& p : P) { dmat B = bmat(p, 2); f = add(f, mul(tr(B), D), p.dV*t); ch = add(ch, mul(D, add(eye(3), mul(B, X), -1)), p.dV*t); ck = add(ck, mul(B, X), -p.dV*t); A += p.dV; bm = std::max(bm, amax(B)); }
    c.check(F.ROW() == 2*g.n && F.COL() == 3 && CH.ROW() == 3 && CH.COL() == 3 && CK.ROW() == 3 && CK.COL() == 3, "shapes"); auto pl = places(c, m, g.n, dl, 2*g.n); dmat ff(2*g.n, 3), lf = ref(F); for (int i = 0; i < g.n; i++) for (int j = 0; j < 2; j++) for (int q = 0; q < 3; q++) ff(2*i + j, q) = lf(pl[i][j], q); double sc = amax(D)*A*t; same(c, ff, f, sc*bm, 1e-9, "loads of unit strains"); same(c, ref(CH), ch, sc*(1 + bm), 1e-9, "homogenised contribution"); same(c, ref(CK), ck, A*t*(1 + bm), 1e-9, "check matrix");
    dmat kk = order(ref(K), places(c, mk, g.n, dl, 2*g.n)); std::vector<dvec> us; for (int q = 0; q < 3; q++) { dmat G(2, 2); if (q < 2) G(q, q) = 1; else G(0, 1) = G(1, 0) = 0.5; us.push_back(affine(g, G, {0, 0})); } dmat U = columns(us); same(c, mul(kk, U), ff, amax(kk)*(amax(U) + 1), 1e-8, "the load of a unit strain is what the stiffness gives for its displacement"); c.nontrivial(!zero);
}
struct Cell { Mesh m; dvec E, v; double t; std::vector<std::pair<int, int> > ties; std::vector<std::vector<int> > g; };
// nodes on the right and top outlines are tied to their counterparts on the left and bottom ones
static std::vector<std::pair<int, int> > ties(pbt::Src& s, pbt::Ctx& c, const Mesh& m) {
    double tol = 1e-7*(m.X + m.Y); std::vector<std::pair<int, int> > o; for (size_t i = 0; i < m.x.size(); i++) { dvec p = at(m, (int)i), q = p; if (std::fabs(p[0] - m.hi[0]) < tol) q[0] = m.lo[0]; if (std::fabs(p[1] - m.hi[1]) < tol) q[1] = m.lo[1]; if (q == p) continue; int hit = -1; for (size_t j = 0; j < m.x.size(); j++) if (nrm(add(at(m, (int)j), q, -1)) < tol) hit = (int)j; if (hit < 0) throw pbt::Reject(); o.push_back({hit, (int)i}); }
    if (s.coin() && o.size() > 1) { std::vector<int> p = s.permutation((int)o.size()); auto z = o; for (size_t i = 0; i < p.size(); i++) o[i] = z[p[i]]; } return o;
}
// the library's chain: stiffness, loads, ties, solver, correctors, homogenised matrix
static dmat chain(pbt::Src& s, pbt::Ctx& c, const Mesh& m0, const dvec& E, const dvec& v, double t, dmat* check) {
    Mesh m = m0; int n = (int)m.x.size(); std::vector<std::vector<LVec> > chi(3, std::vector<LVec>(n, LVec(2))); std::vector<std::vector<int> > g(n, std::vector<int>(2, 0)); bool pin = s.coin(); auto ti = ties(s, c, m); if (pin) { std::set<int> slave; for (auto& p : ti) slave.insert(p.second); int a = s.range(0, n - 1); while (slave.count(a)) a = (a + 1)%n; std::vector<std::pair<std::pair<int, int>, double> > fx = {{{a, 0}, 0.0}, {{a, 1}, 0.0}}; SetDirichlet(g, fx); } int N = SetPeriodic(g, ti);
    LILCSR<double> K(N, N); std::vector<dvec> F(3, dvec(N, 0.0)); double kmax = 0; dvec volume;
    for (size_t e = 0; e < m.el.size(); e++) { LMat Ke, Fe; N2E mp;
#define M(SF, IC) PlaneStrainStiffness<double, SF, IC>(Ke, mp, m.el[e], {0, 1}, m.x, E[e], v[e], t);
        WITH_CELL(m.kind, M)
#undef M
        kmax = std::max(kmax, amax(ref(Ke))); Assembling(K, Ke, g, mp, m.el[e]); for (int q = 0; q < 3; q++) Assembling(F[q], chi[q], Ke, g, mp, m.el[e]);
#define M(SF, IC) HomogenizePlaneStrainBodyForce<double, SF, IC>(Fe, mp, m.el[e], {0, 1}, m.x, E[e], v[e], t);
        WITH_CELL(m.kind, M)
#undef M
        for (int q = 0; q < 3; q++) { LVec f = Fe.Block(0, q, Ke.ROW(), 1); Assembling(F[q], f, g, mp, m.el[e]); } }
    if (!pin) for (auto& e : m.el) { LMat Ke; N2E mp; WeakSpring<double>(Ke, mp, e, {0, 1}, m.x, 1e-12*kmax); Assembling(K, Ke, g, mp, e); }
    CSR<double> Km(K); for (int q = 0; q < 3; q++) { if (N > 0) { dvec r = ScalingCG(Km, F[q], 100000, 1e-12); Disassembling(chi[q], r, g); } }
    dmat CH(3, 3), CK(3, 3); for (size_t e = 0; e < m.el.size(); e++) { LMat a, b;
#define M(SF, IC) a = HomogenizePlaneStrainConstitutive<double, SF, IC>(m.x, m.el[e], chi[0], chi[1], chi[2], E[e], v[e], t); b = HomogenizePlaneStrainCheck<double, SF, IC>(m.x, m.el[e], chi[0], chi[1], chi[2], t);
        WITH_CELL(m.kind, M)
#undef M
        CH = add(CH, ref(a)); CK = add(CK, ref(b)); }
    if (check) *check = CK; return scale(CH, 1/(m.X*m.Y*t));
}
// the same, by dense linear algebra and independent shape functions
static dmat reference(pbt::Src& s, pbt::Ctx& c, const Mesh& m, const dvec& E, const dvec& v, const std::vector<std::pair<int, int> >& ti) {
    int n = (int)m.x.size(); std::vector<int> id(n, -1), mas(n, -1); for (auto& p : ti) mas[p.second] = p.first; int N = 0; for (int i = 0; i < n; i++) if (mas[i] < 0) id[i] = N++; for (int i = 0; i < n; i++) if (mas[i] >= 0) id[i] = id[mas[i]]; dmat K(2*N, 2*N), F(2*N, 3), CH(3, 3);
    auto pts = [&](const std::vector<int>& e) { Geo g = element_geo(m, e); std::vector<Pt> P;
#define M(SF, IC) P = rule<IC>(g);
        WITH_CELL(m.kind, M)
#undef M
        return P; };
    for (size_t e = 0; e < m.el.size(); e++) { dmat D = strain_D(E[e], v[e]); for (auto& p : pts(m.el[e])) { dmat B = bmat(p, 2), k = sandwich(B, D, p.dV), f = scale(mul(tr(B), D), p.dV); CH = add(CH, D, p.dV); int z = (int)m.el[e].size(); for (int i = 0; i < 2*z; i++) { int gi = 2*id[m.el[e][i/2]] + i%2; for (int q = 0; q < 3; q++) F(gi, q) += f(i, q); for (int j = 0; j < 2*z; j++) K(gi, 2*id[m.el[e][j/2]] + j%2) += k(i, j); } } }
    dmat Kr(2*N - 2, 2*N - 2), Fr(2*N - 2, 3); for (int i = 2; i < 2*N; i++) { for (int j = 2; j < 2*N; j++) Kr(i - 2, j - 2) = K(i, j); for (int q = 0; q < 3; q++) Fr(i - 2, q) = F(i, q); } dmat X = Fr; if (N > 1) { if (gauss(Kr, X) == 0) throw pbt::Reject(); CH = add(CH, mul(tr(Fr), X), -1); } return scale(CH, 1/(m.X*m.Y));
}
static void sound(pbt::Ctx& c, const Mesh& m, const dmat& CH, const dvec& E, const dvec& v) {
    double sc = amax(CH); same(c, CH, tr(CH), sc, 1e-6, "symmetry of the homogenised matrix"); dmat V(3, 3); for (size_t e = 0; e < m.el.size(); e++) V = add(V, strain_D(E[e], v[e]), measure(element_geo(m, m.el[e]))/(m.X*m.Y)); dmat S = scale(add(CH, tr(CH)), 0.5); dvec w = eigenvalues(S); if (!m.hole) c.check(w[0] > 0, "the homogenised matrix is positive definite"); c.check(w[0] >= -1e-6*sc, "the homogenised matrix is semidefinite"); dvec d = eigenvalues(add(V, S, -1)); c.check(d[0] >= -1e-6*amax(V), "not above the average of the constituents (Voigt)");
    if (!m.hole) { dmat R(3, 3); for (size_t e = 0; e < m.el.size(); e++) R = add(R, inverse(strain_D(E[e], v[e])), measure(element_geo(m, m.el[e]))/(m.X*m.Y)); dvec z = eigenvalues(add(S, inverse(R), -1)); c.check(z[0] >= -1e-6*amax(V), "not below the harmonic average of the constituents (Reuss)"); }
}
LAW(uniform, 800, 20000, "cells of one material on regular, graded, distorted and triangulated meshes of 1..4 by 1..4, tied periodically in any order, pinned or held by weak springs: the homogenised matrix is the material's own and the correctors vanish; non-trivial with a free interior node") {
    Kind k = s.pick(PLANE); Mesh m = mesh(s, c, k, 4, false, true, true); double E = modulus(s), v = poisson(s), t = thick(s); int n = (int)m.el.size(); c.desc << "E=" << E << " v=" << v << " t=" << t; dmat CK, CH = chain(s, c, m, dvec(n, E), dvec(n, v), t, &CK), D = strain_D(E, v); same(c, CH, D, amax(D), 1e-7, "homogenised matrix"); same(c, CK, dmat(3, 3), m.X*m.Y*t, 1e-7, "average strain of the correctors"); c.nontrivial(m.x.size() > 9);
}
LAW(layers, 800, 20000, "laminates: regular cells whose rows (or columns) have their own materials give the exact laminate formulas, whatever the number of elements along the layers; non-trivial with two materials") {
    bool rows = s.coin(); int a = s.range(1, 4), b = s.range(1, 3); Kind k = s.pick(std::vector<Kind>{QUAD4, QUAD8, TRI3}); Mesh m = mesh(s, c, k, 4, false, false, false, rows ? b : a, rows ? a : b); dvec Es, vs; double unit = s.coin() ? 1.0 : s.logreal(1e-6, 1e10); for (int i = 0; i < a; i++) { Es.push_back(unit*s.logreal(1, 100)); vs.push_back(poisson(s)); } double t = thick(s); dvec E, v; for (auto& e : m.el) { dvec q(2, 0.0); for (int i : e) q = add(q, at(m, i), 1.0/e.size()); int l = rows ? (int)(q[1]/m.Y*a) : (int)(q[0]/m.X*a); E.push_back(Es[l]); v.push_back(vs[l]); } c.desc << (rows ? "rows" : "columns") << " E " << show(Es) << " v " << show(vs);
    double i22 = 0, i66 = 0, r12 = 0, q11 = 0; for (int i = 0; i < a; i++) { dmat D = strain_D(Es[i], vs[i]); i22 += 1/D(1, 1)/a; i66 += 1/D(2, 2)/a; r12 += D(0, 1)/D(1, 1)/a; q11 += (D(0, 0) - D(0, 1)*D(0, 1)/D(1, 1))/a; } dmat X(3, 3); double c22 = 1/i22, c12 = r12*c22, c11 = q11 + r12*r12*c22; X(0, 0) = rows ? c11 : c22; X(1, 1) = rows ? c22 : c11; X(0, 1) = X(1, 0) = c12; X(2, 2) = 1/i66;
    dmat CK, CH = chain(s, c, m, E, v, t, &CK); same(c, CH, X, amax(X), 1e-6, "laminate"); same(c, CK, dmat(3, 3), m.X*m.Y*t*10, 1e-6, "average strain of the correctors"); sound(c, m, CH, E, v); c.nontrivial(a > 1);
}
LAW(cell, 700, 20000, "cells with random materials per element, distorted meshes and holes: the homogenised matrix equals the one from an independent dense computation, is symmetric, positive, between the harmonic and the arithmetic average, the correctors' strain averages to nothing on cells without a hole; non-trivial with several elements") {
    Kind k = s.pick(PLANE); Mesh m = mesh(s, c, k, 3, true, true, true); int n = (int)m.el.size(); dvec E(n), v(n); for (int i = 0; i < n; i++) { E[i] = s.logreal(1, 100); v[i] = poisson(s); } double t = thick(s); c.desc << "E " << show(E) << " v " << show(v) << " t=" << t; dmat CK, CH = chain(s, c, m, E, v, t, &CK); auto ti = ties(s, c, m); dmat X = reference(s, c, m, E, v, ti); same(c, CH, X, amax(X), 2e-6, "homogenised matrix"); sound(c, m, CH, E, v); if (!m.hole) same(c, CK, dmat(3, 3), m.X*m.Y*t*10, 1e-6, "average strain of the correctors"); c.nontrivial(n > 1);
}
LAW(shift, 400, 10000, "a regular cell of random materials and the same material cut elsewhere (materials moved cyclically along both axes) have the same homogenised matrix; non-trivial when moved") {
    int a = s.range(1, 4), b = s.range(1, 4); Mesh m = mesh(s, c, s.coin() ? QUAD4 : QUAD8, 4, false, false, false, a, b); dvec E(a*b), v(a*b), E2(a*b), v2(a*b); for (auto& x : E) x = s.logreal(1, 50); for (auto& x : v) x = poisson(s); int p = s.range(0, a - 1), q = s.range(0, b - 1); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { E2[b*((i + p)%a) + (j + q)%b] = E[b*i + j]; v2[b*((i + p)%a) + (j + q)%b] = v[b*i + j]; } c.desc << " moved by " << p << "," << q << " E " << show(E); dmat x = chain(s, c, m, E, v, 1.0, nullptr), y = chain(s, c, m, E2, v2, 1.0, nullptr); same(c, x, y, amax(x), 1e-6, "shifted cell"); c.nontrivial(p || q);
}
