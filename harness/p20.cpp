#include "elastic.h"
#include "mesh.h"
#include "sparse.h"
#include "FEM/Controller/NewtonCotesIntegration.h"
#include "FEM/Controller/Assembling.h"
#include "FEM/Controller/BoundaryCondition.h"
#include "LinearAlgebra/Solvers/CG.h"
#include "LinearAlgebra/Solvers/LU.h"
#include "FEM/Equation/HeatTransfer.h"
#include "FEM/Equation/PlaneStrain.h"
#include "FEM/Equation/PlaneStress.h"
#include "FEM/Equation/Solid.h"
#include "FEM/Equation/Stokes.h"
using namespace PANSFEM2;
typedef std::vector<std::pair<std::pair<int, int>, double> > Fixed; typedef std::vector<std::vector<int> > N2G;
#define WITH_CELL(k, M) switch (k) { case TRI3: M(ShapeFunction3Triangle, Gauss1Triangle) break; case TRI6: M(ShapeFunction6Triangle, Gauss3Triangle) break; case QUAD4: M(ShapeFunction4Square, Gauss4Square) break; default: M(ShapeFunction8Square, Gauss9Square) }
#define WITH_SIDE(n, M) if (n == 2) M(ShapeFunction2Line, Gauss2Line) else M(ShapeFunction3Line, Gauss2Line)
// the sides of elements that belong to one element only, directed with the material on the left
static std::vector<std::vector<int> > outline(const Mesh& m) {
    std::map<std::pair<int, int>, std::vector<std::vector<int> > > f; int v = m.kind == TRI3 || m.kind == TRI6 ? 3 : 4; for (auto& e : m.el) for (int i = 0; i < v; i++) { int a = e[i], b = e[(i + 1)%v]; std::vector<int> sd = {a, b}; if ((int)e.size() > v) sd.push_back(e[v + i]); f[{std::min(a, b), std::max(a, b)}].push_back(sd); }
    std::vector<std::vector<int> > o; for (auto& p : f) if (p.second.size() == 1) o.push_back(p.second[0]); return o;
}
static dvec solver(pbt::Src& s, pbt::Ctx& c, LILCSR<double>& K, dvec& F, bool spd) {
    int n = (int)F.size(); if (n == 0) return {}; int k = spd ? s.range(0, 3) : 3; static const char* name[] = {"CG", "ScalingCG", "BiCGSTAB", "LU"}; c.label(name[k]); c.desc << " " << name[k]; CSR<double> A(K); if (k == 0) return CG(A, F, 100000, 1e-13); if (k == 1) return ScalingCG(A, F, 100000, 1e-13); if (k == 2) { dvec x = BiCGSTAB(A, F, 100000, 1e-13); for (double v : x) if (!std::isfinite(v)) return ScalingCG(A, F, 100000, 1e-13); return x; }
    LMat D = lib(ref(A)); LVec b = lib(F); std::vector<int> p(n); LU(D, p); SolveLU(D, b, p); return ref(b);
}
static void order_(pbt::Src& s, Fixed& f) { if (f.size() < 2 || !s.coin()) return; std::vector<int> p = s.permutation((int)f.size()); Fixed z = f; for (size_t i = 0; i < p.size(); i++) f[i] = z[p[i]]; if (s.chance(1, 4)) f.push_back(f[0]); }
static double spread(const Mesh& m) { double h = 0; for (auto& p : m.x) h = std::max(h, amax(ref(p))); return h; }
LAW(heat, 2500, 50000, "steady heat conduction on regular, graded, distorted, perforated, triangulated and renumbered meshes with linear and quadratic elements, affine temperature, temperatures prescribed on a random set of nodes and the exact flux applied on the whole outline, any solver: every node gets the exact temperature and the reactions balance the fluxes; non-trivial with a free node and a non-constant field") {
    Kind k = s.pick(PLANE); Mesh m = mesh(s, c, k, s.chance(1, 40) ? 9 : 4, true, true, true); int n = (int)m.x.size(); double al = modulus(s), t = thick(s), a = s.sreal(2.0); dvec g = {s.sreal(2.0), s.sreal(2.0)}; std::vector<LVec> T(n, LVec(1)); N2G gl(n, std::vector<int>(1, 0)); Fixed fx; int nf = s.range(1, std::min(n, 6)); for (int i = 0; i < nf; i++) { int q = s.range(0, n - 1); fx.push_back({{q, 0}, a + dot(g, at(m, q))}); } order_(s, fx); SetDirichlet(T, gl, fx); int N = Renumbering(gl); c.desc << "T=" << a << show(g) << " conductivity " << al << " t=" << t << " fixed " << fx.size();
    LILCSR<double> K(N, N); dvec F(N, 0.0), R(n, 0.0), L(n, 0.0); std::vector<LMat> Ks; for (auto& e : m.el) { LMat Ke; N2E mp;
#define M(SF, IC) HeatTransfer<double, SF, IC>(Ke, mp, e, {0}, m.x, al, t);
        WITH_CELL(k, M)
#undef M
        Assembling(K, F, T, Ke, gl, mp, e); Ks.push_back(Ke); }
    for (auto& e : outline(m)) { dvec d = add(at(m, e[1]), at(m, e[0]), -1); double q = al*(g[0]*d[1] - g[1]*d[0])/nrm(d); LVec Fe; N2E mp; auto f = [&](LVec) { return q; };
#define M(SF, IC) HeatTransferSurfaceFlux<double, SF, IC>(Fe, mp, e, {0}, m.x, f, t);
        WITH_SIDE(e.size(), M)
#undef M
        Assembling(F, Fe, gl, mp, e); for (size_t i = 0; i < e.size(); i++) L[e[i]] += Fe(mp[i][0].second); }
    dvec r = solver(s, c, K, F, true); Disassembling(T, r, gl); double sc = std::fabs(a) + nrm(g)*spread(m) + 1e-300; for (int i = 0; i < n; i++) c.near(T[i](0), a + dot(g, at(m, i)), sc, 1e-7, "temperature of node " + std::to_string(i));
    double tot = 0, mag = 0; for (size_t e = 0; e < m.el.size(); e++) { LMat Ke = Ks[e]; for (int i = 0; i < Ke.ROW(); i++) for (int j = 0; j < Ke.COL(); j++) { double v = Ke(i, j)*T[m.el[e][j]](0); R[m.el[e][i]] += v; mag = std::max(mag, std::fabs(v)); } } for (int i = 0; i < n; i++) { tot += R[i]; if (gl[i][0] >= 0) c.near(R[i], L[i], mag + 1e-300, 1e-6, "balance at a free node"); } double lt = 0; for (double v : L) lt += v; c.near(lt, 0, mag + 1e-300, 1e-7, "the applied fluxes balance"); c.near(tot, 0, mag + 1e-300, 1e-7, "reactions balance"); c.nontrivial(N > 0 && nrm(g) > 0);
}
LAW(elasticity, 2500, 50000, "plane stress and plane strain on the same meshes, affine displacement, displacements (single components or nodes) prescribed at random nodes such that the body is held, exact tractions applied on the whole outline as edge loads or as point loads, any solver and several plane strain formulations: every node gets the exact displacement and forces balance; non-trivial with a free node and strain") {
    Kind k = s.pick(PLANE); Mesh m = mesh(s, c, k, s.chance(1, 40) ? 9 : 4, true, true, true); int n = (int)m.x.size(); double E = modulus(s), v = poisson(s), t = thick(s); int form = s.range(0, k == QUAD4 ? 3 : 1); bool st = form == 0; dmat D = st ? stress_D(E, v) : strain_D(E, v), G(2, 2); for (auto& q : G.v) q = s.sreal(1.0); dvec a = {s.sreal(1.0), s.sreal(1.0)}, sg = mul(D, voigt(G)); auto exact = [&](int i) { return add(mul(G, at(m, i)), a); };
    std::vector<LVec> u(n, LVec(2)); N2G gl(n, std::vector<int>(2, 0)); Fixed fx; int p = s.range(0, n - 1), q = s.range(0, n - 2); if (q >= p) q++; for (int i : {p, q}) for (int j = 0; j < 2; j++) fx.push_back({{i, j}, exact(i)[j]}); int ex = s.range(0, std::min(n, 5)); for (int i = 0; i < ex; i++) { int z = s.range(0, n - 1), j = s.range(0, 1); fx.push_back({{z, j}, exact(z)[j]}); } if (nrm(add(at(m, p), at(m, q), -1)) < 0.1*m.X) throw pbt::Reject();
    order_(s, fx); SetDirichlet(u, gl, fx); int N = Renumbering(gl); c.desc << "form " << form << " u=" << show(a) << show(G) << " E=" << E << " v=" << v << " t=" << t << " conditions " << fx.size(); c.label("form" + std::to_string(form)); LILCSR<double> K(N, N); dvec F(N, 0.0); std::vector<LMat> Ks; dvec L(2*n, 0.0);
    for (auto& e : m.el) { LMat Ke; N2E mp;
#define M(SF, IC) { if (st) PlaneStressStiffness<double, SF, IC>(Ke, mp, e, {0, 1}, m.x, E, v, t); else PlaneStrainStiffness<double, SF, IC>(Ke, mp, e, {0, 1}, m.x, E, v, t); }
        if (form == 2) PlaneStrainStiffnessSRI<double, ShapeFunction4Square, Gauss1Square, Gauss4Square>(Ke, mp, e, {0, 1}, m.x, E, v, t); else if (form == 3) PlaneStrainStiffnessBbar<double, ShapeFunction4Square, Gauss4Square, Gauss4Square>(Ke, mp, e, {0, 1}, m.x, E, v, t); else WITH_CELL(k, M)
#undef M
        Assembling(K, F, u, Ke, gl, mp, e); Ks.push_back(Ke); }
    bool points_ = s.chance(1, 3); for (auto& e : outline(m)) { dvec d = add(at(m, e[1]), at(m, e[0]), -1), nn = {d[1]/nrm(d), -d[0]/nrm(d)}, tr_ = {sg[0]*nn[0] + sg[2]*nn[1], sg[2]*nn[0] + sg[1]*nn[1]}; LVec Fe; N2E mp; auto f = [&](LVec) { return lib(tr_); };
#define M(SF, IC) { if (st) PlaneStressSurfaceForce<double, SF, IC>(Fe, mp, e, {0, 1}, m.x, f, t); else PlaneStrainSurfaceForce<double, SF, IC>(Fe, mp, e, {0, 1}, m.x, f, t); }
        if (!points_) { WITH_SIDE(e.size(), M) Assembling(F, Fe, gl, mp, e); }
#undef M
        double l = nrm(d)*t; for (size_t i = 0; i < e.size(); i++) for (int j = 0; j < 2; j++) { double w = (e.size() == 2 ? 0.5 : i == 2 ? 2.0/3 : 1.0/6)*l*tr_[j]; L[2*e[i] + j] += w; } }
    if (points_) { Fixed un; for (int i = 0; i < 2*n; i++) L[i] = 0; for (auto& e : outline(m)) { dvec d = add(at(m, e[1]), at(m, e[0]), -1), tr_ = {(sg[0]*d[1] - sg[2]*d[0])*t, (sg[2]*d[1] - sg[1]*d[0])*t}; for (size_t i = 0; i < e.size(); i++) for (int j = 0; j < 2; j++) { double w = (e.size() == 2 ? 0.5 : i == 2 ? 2.0/3 : 1.0/6)*tr_[j]; L[2*e[i] + j] += w; un.push_back({{e[i], j}, w}); } } if (s.coin()) std::reverse(un.begin(), un.end()); Assembling(F, un, gl); c.label("point loads"); }
    dvec r = solver(s, c, K, F, true); Disassembling(u, r, gl); double sc = amax(a) + amax(G)*2*spread(m) + 1e-300; for (int i = 0; i < n; i++) same(c, ref(u[i]), exact(i), sc, 1e-6, "displacement of node " + std::to_string(i));
    dvec R(2*n, 0.0); double mag = 1e-300; for (size_t e = 0; e < m.el.size(); e++) { LMat Ke = Ks[e]; for (int i = 0; i < Ke.ROW(); i++) for (int j = 0; j < Ke.COL(); j++) { double w = Ke(i, j)*u[m.el[e][j/2]](j%2); R[2*m.el[e][i/2] + i%2] += w; mag = std::max(mag, std::fabs(w)); } } dvec T(2, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) { T[j] += R[2*i + j]; if (gl[i][j] >= 0) c.near(R[2*i + j], L[2*i + j], mag, 1e-6, "balance at a free node"); } same(c, T, dvec(2, 0.0), mag, 1e-6, "reactions balance"); c.nontrivial(N > 0 && amax(sg) > 0);
}
// own three-dimensional bricks
struct Box { Kind kind; std::vector<LVec> x; std::vector<std::vector<int> > el; std::vector<char> out; };
static Box box(pbt::Src& s, pbt::Ctx& c) {
    Box b; b.kind = s.pick(SOLID); int nx = s.range(1, 2), ny = s.range(1, 2), nz = s.range(1, 2); dmat R = s.coin() ? eye(3) : rot3(s); auto id = [&](int i, int j, int k) { return (i*(ny + 1) + j)*(nz + 1) + k; }; std::vector<dvec> p; for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) for (int k = 0; k <= nz; k++) { bool o = i == 0 || i == nx || j == 0 || j == ny || k == 0 || k == nz; dvec q = {(double)i, (double)j, (double)k}; if (!o || s.coin()) for (auto& v : q) v += 0.15*s.sreal(1.0); p.push_back(mul(R, q)); b.out.push_back(o); }
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) for (int k = 0; k < nz; k++) { std::vector<int> e = {id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)}; if (b.kind != TET4) b.el.push_back(e); else { static const int T[6][4] = {{0, 1, 2, 6}, {0, 2, 3, 6}, {0, 3, 7, 6}, {0, 7, 4, 6}, {0, 4, 5, 6}, {0, 5, 1, 6}}; for (auto& t : T) b.el.push_back({e[t[1]], e[t[2]], e[t[3]], e[t[0]]}); } }
    if (b.kind == HEX20) { static const int S[12][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}}; std::map<std::pair<int, int>, int> mid; for (auto& e : b.el) { std::vector<int> f = e; for (auto& sd : S) { int q = e[sd[0]], w = e[sd[1]]; auto key = std::make_pair(std::min(q, w), std::max(q, w)); auto it = mid.find(key); if (it == mid.end()) { it = mid.insert({key, (int)p.size()}).first; p.push_back(scale(add(p[q], p[w]), 0.5)); b.out.push_back(1); } f.push_back(it->second); } e = f; } }
    if (b.kind == HEX20) { std::map<int, int> cnt; for (auto& e : b.el) for (size_t i = 8; i < 20; i++) cnt[e[i]]++; for (auto& w : cnt) if (w.second == 4) b.out[w.first] = 0; }   // an edge inside the box is shared by four elements
    std::vector<int> q = s.permutation((int)p.size()); b.x.resize(p.size()); std::vector<char> o(p.size()); for (size_t i = 0; i < p.size(); i++) { b.x[q[i]] = lib(p[i]); o[q[i]] = b.out[i]; } b.out = o; for (auto& e : b.el) for (auto& i : e) i = q[i]; c.desc << nx << "x" << ny << "x" << nz << " " << KIND[b.kind] << "; "; c.label(KIND[b.kind]); return b;
}
static Geo geo3(const Box& b, const std::vector<int>& e) { Geo g; g.kind = b.kind; g.d = 3; g.n = (int)e.size(); for (int i : e) g.p.push_back(ref(b.x[i])); return g; }
LAW(solid, 600, 12000, "bricks of distorted tetrahedra and 8- and 20-node hexahedra in any orientation, affine displacement, random prescribed components that hold the body, the rest loaded by the exact consistent nodal forces: exact at every node; non-trivial with a free node") {
    Box b = box(s, c); int n = (int)b.x.size(); for (auto& e : b.el) if (!(mindet(geo3(b, e)) > 0.1)) throw pbt::Reject(); double E = modulus(s), v = poisson(s); dmat G(3, 3); for (auto& q : G.v) q = s.sreal(1.0); dvec a = {s.sreal(1.0), s.sreal(1.0), s.sreal(1.0)}, sg = mul(solid_D(E, v), voigt(G)); auto exact = [&](int i) { return add(mul(G, ref(b.x[i])), a); };
    std::vector<LVec> u(n, LVec(3)); N2G gl(n, std::vector<int>(3, 0)); Fixed fx; int z = s.range(0, (int)b.el.size() - 1); for (int i = 0; i < 4; i++) { int q = b.el[z][i]; for (int j = 0; j < 3; j++) fx.push_back({{q, j}, exact(q)[j]}); } int ex = s.range(0, 6); for (int i = 0; i < ex; i++) { int q = s.range(0, n - 1), j = s.range(0, 2); fx.push_back({{q, j}, exact(q)[j]}); } order_(s, fx); SetDirichlet(u, gl, fx); int N = Renumbering(gl);
    LILCSR<double> K(N, N); dvec F(N, 0.0); Fixed ld; for (auto& e : b.el) { LMat Ke; N2E mp;
#define M(SF, IC) SolidLinearIsotropicElastic<double, SF, IC>(Ke, mp, e, {0, 1, 2}, b.x, E, v)
        WITH_SOLID(b.kind, M)
#undef M
        Assembling(K, F, u, Ke, gl, mp, e); for (auto& p : points(geo3(b, e))) { dvec f = mul(tr(bmat(p, 3)), sg); for (size_t i = 0; i < e.size(); i++) for (int j = 0; j < 3; j++) ld.push_back({{e[i], j}, f[3*i + j]*p.dV}); } }
    Assembling(F, ld, gl); dvec r = solver(s, c, K, F, true); Disassembling(u, r, gl); double sc = 1e-300; for (int i = 0; i < n; i++) sc = std::max(sc, amax(exact(i))); for (int i = 0; i < n; i++) same(c, ref(u[i]), exact(i), sc, 1e-6, "displacement of node " + std::to_string(i)); c.nontrivial(N > 0);
}
LAW(stokes, 800, 15000, "Stokes flow with Taylor-Hood quadrilaterals and triangles on distorted meshes: linear divergence-free velocity and constant pressure, velocity prescribed on the outline and at random inner nodes, pressure at one node: exact at every node; non-trivial with a free velocity node") {
    Kind k = s.coin() ? QUAD8 : TRI6; Mesh m = mesh(s, c, k, 3, false, true, true); int n = (int)m.x.size(), nc = k == QUAD8 ? 4 : 3; double mu = s.logreal(1e-1, 10), p0 = s.sreal(2.0)*mu/m.X; dmat G(2, 2); for (auto& q : G.v) q = s.sreal(1.0)/m.X; G(1, 1) = -G(0, 0); dvec a = {s.sreal(1.0), s.sreal(1.0)}; auto exact = [&](int i) { return add(mul(G, at(m, i)), a); }; std::vector<LVec> u(n, LVec(3)); N2G gl(n, std::vector<int>(3, 0)); std::set<int> corner; for (auto& e : m.el) for (int i = 0; i < nc; i++) corner.insert(e[i]);
    Fixed fx; for (int i = 0; i < n; i++) { if (on_outline(m, at(m, i))) for (int j = 0; j < 2; j++) fx.push_back({{i, j}, exact(i)[j]}); if (!corner.count(i)) fx.push_back({{i, 2}, 0.0}); } fx.push_back({{m.el[s.range(0, (int)m.el.size() - 1)][s.range(0, nc - 1)], 2}, p0}); order_(s, fx); SetDirichlet(u, gl, fx); int N = Renumbering(gl); LILCSR<double> K(N, N); dvec F(N, 0.0); bool freev = false; for (auto& q : gl) if (q[0] >= 0) freev = true; c.desc << "mu=" << mu << " p=" << p0 << " G=" << show(G) << show(a);
    for (auto& e : m.el) { LMat Ke; N2E mu_, mp; std::vector<int> ep(e.begin(), e.begin() + nc); if (k == QUAD8) StokesStiffness<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(Ke, mu_, e, mp, ep, {0, 1, 2}, m.x, mu); else StokesStiffness<double, ShapeFunction6Triangle, ShapeFunction3Triangle, Gauss3Triangle>(Ke, mu_, e, mp, ep, {0, 1, 2}, m.x, mu); std::vector<N2E> maps = {mu_, mp}; std::vector<std::vector<int> > els = {e, ep}; Assembling(K, F, u, Ke, gl, maps, els); }
    // (in units in which both kinds of unknown count alike) a patch with fewer free velocities than pressures (or a locked corner element) does not determine its pressure
    if (N > 0) { dmat A = ref(K); dvec unit(N, 1.0); for (auto& q : gl) if (q[2] >= 0) unit[q[2]] = mu/m.X; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) A(i, j) *= unit[i]*unit[j]; dvec w = eigenvalues(mul(tr(A), A)); if (!(w[0] > 1e-14*w.back())) throw pbt::Reject(); }
    dvec r = solver(s, c, K, F, false); Disassembling(u, r, gl); double sc = amax(a) + amax(G)*spread(m) + 1e-300, sp = std::fabs(p0) + mu*(sc/m.X); for (int i = 0; i < n; i++) { dvec e = exact(i); for (int j = 0; j < 2; j++) c.near(u[i](j), e[j], sc, 1e-6, "velocity of node " + std::to_string(i)); if (corner.count(i)) c.near(u[i](2), p0, sp, 1e-5, "pressure of node " + std::to_string(i)); } c.nontrivial(freev);
}
LAW(finite, 500, 10000, "finite deformation: plane strain and solid total and updated Lagrange elements on distorted meshes, the outline moved by an affine deformation of up to 10 per cent, Newton's method from a disturbed interior: converges to the affine deformation; non-trivial with a free node") {
    bool three = s.chance(1, 3), tl = s.coin(); Box b; Mesh m; std::vector<LVec> x; std::vector<std::vector<int> > el; Kind k; std::vector<char> out; int d = three ? 3 : 2; if (three) { b = box(s, c); x = b.x; el = b.el; k = b.kind; out.assign(x.size(), 0); std::vector<int> cnt(x.size(), 0); for (auto& e : el) for (int i : e) cnt[i]++; for (auto& e : el) if (!(mindet(geo3(b, e)) > 0.15)) throw pbt::Reject(); for (size_t i = 0; i < x.size(); i++) out[i] = b.out[i]; } else { k = s.pick(PLANE); m = mesh(s, c, k, 3, false, true, true); x = m.x; el = m.el; for (auto& p : x) out.push_back(on_outline(m, ref(p))); }
    int n = (int)x.size(); double E = modulus(s), v = s.real(0.0, 0.4), t = three ? 1.0 : thick(s); dmat G(d, d); for (auto& q : G.v) q = s.sreal(0.1); dvec a(d); for (auto& q : a) q = s.sreal(1.0); auto exact = [&](int i) { return add(mul(G, ref(x[i])), a); }; double h = 1e300, far = 1; for (auto& e : el) for (size_t i = 1; i < e.size(); i++) h = std::min(h, nrm(add(ref(x[e[i]]), ref(x[e[0]]), -1))); for (auto& p : x) far = std::max(far, amax(ref(p)));
    std::vector<LVec> u(n, LVec(d)); N2G gl(n, std::vector<int>(d, 0)); Fixed fx; for (int i = 0; i < n; i++) { dvec e = exact(i); for (int j = 0; j < d; j++) { if (out[i]) fx.push_back({{i, j}, e[j]}); else u[i](j) = e[j] + 0.02*h*s.sreal(1.0); } } order_(s, fx); SetDirichlet(u, gl, fx); int N = Renumbering(gl); c.desc << (three ? "solid" : "plane strain") << (tl ? " total" : " updated") << " G=" << show(G) << " E=" << E << " v=" << v; if (N == 0) throw pbt::Reject();
    for (int it = 0; it < 8; it++) { std::vector<LVec> du(n, LVec(d)); LILCSR<double> K(N, N); dvec R(N, 0.0); for (auto& e : el) { LMat Ke; LVec Fe; N2E mp;
#define S(SF, IC) { if (tl) SolidTotalLagrange<double, SF, IC>(Ke, Fe, mp, e, {0, 1, 2}, x, u, E, v); else SolidUpdatedLagrange<double, SF, IC>(Ke, Fe, mp, e, {0, 1, 2}, x, u, E, v); }
#define P(SF, IC) { if (tl) PlaneStrainStiffnessTotalLagrange<double, SF, IC>(Ke, Fe, mp, e, {0, 1}, x, u, E, v, t); else PlaneStrainStiffnessUpdatedLagrange<double, SF, IC>(Ke, Fe, mp, e, {0, 1}, x, u, E, v, t); }
            if (three) { WITH_SOLID(k, S) } else WITH_CELL(k, P)
#undef S
#undef P
            Assembling(K, R, du, Ke, Fe, gl, mp, e); }
        CSR<double> A(K); dvec r = ScalingCG(A, R, 100000, 1e-10); Disassembling(du, r, gl); double step = 0; for (int i = 0; i < n; i++) { u[i] += du[i]; step = std::max(step, amax(ref(du[i]))); } if (step < 1e-10*far) break; }
    for (int i = 0; i < n; i++) same(c, ref(u[i]), exact(i), far, 1e-7, "displacement of node " + std::to_string(i)); c.nontrivial();
}
