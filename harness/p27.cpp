#include <memory>
#include "elastic.h"
#include "mesh.h"
#include "sparse.h"
#include "FEM/Controller/NewtonCotesIntegration.h"
#include "FEM/Controller/Assembling.h"
#include "FEM/Controller/BoundaryCondition.h"
#include "LinearAlgebra/Solvers/CG.h"
#include "LinearAlgebra/Solvers/LU.h"
#include "LinearAlgebra/Solvers/Lanczos.h"
#include "FEM/Equation/HeatTransfer.h"
#include "FEM/Equation/Advection.h"
#include "FEM/Equation/ReactionDiffusion.h"
#include "FEM/Equation/PlaneStrain.h"
#include "FEM/Equation/PlaneStress.h"
#include "FEM/Equation/Stokes.h"
#include "FEM/Equation/NavierStokes.h"
#include "FEM/Equation/General.h"
using namespace PANSFEM2;
typedef std::vector<std::pair<std::pair<int, int>, double> > Fixed; typedef std::vector<std::vector<int> > N2G;
#define WITH_CELL(k, M) switch (k) { case TRI3: M(ShapeFunction3Triangle, Gauss3Triangle) break; case TRI6: M(ShapeFunction6Triangle, Gauss3Triangle) break; case QUAD4: M(ShapeFunction4Square, Gauss4Square) break; default: M(ShapeFunction8Square, Gauss9Square) }
#define WITH_FLOW(k, M) switch (k) { case TRI3: M(ShapeFunction3Triangle, ShapeFunction3Triangle, Gauss3Triangle) break; case TRI6: M(ShapeFunction6Triangle, ShapeFunction3Triangle, Gauss3Triangle) break; case QUAD4: M(ShapeFunction4Square, ShapeFunction4Square, Gauss4Square) break; default: M(ShapeFunction8Square, ShapeFunction4Square, Gauss9Square) }
#define WITH_SIDE(n, M) if (n == 2) M(ShapeFunction2Line, Gauss2Line) else M(ShapeFunction3Line, Gauss2Line)
static std::vector<std::vector<int> > outline(const Mesh& m) {
    std::map<std::pair<int, int>, std::vector<std::vector<int> > > f; int v = m.kind == TRI3 || m.kind == TRI6 ? 3 : 4; for (auto& e : m.el) for (int i = 0; i < v; i++) { int a = e[i], b = e[(i + 1)%v]; std::vector<int> sd = {a, b}; if ((int)e.size() > v) sd.push_back(e[v + i]); f[{std::min(a, b), std::max(a, b)}].push_back(sd); }
    std::vector<std::vector<int> > o; for (auto& p : f) if (p.second.size() == 1) o.push_back(p.second[0]); return o;
}
static void order_(pbt::Src& s, Fixed& f) { if (f.size() < 2 || !s.coin()) return; std::vector<int> p = s.permutation((int)f.size()); Fixed z = f; for (size_t i = 0; i < p.size(); i++) f[i] = z[p[i]]; if (s.chance(1, 4)) f.push_back(f[0]); }
static double spread(const Mesh& m) { double h = 0; for (auto& p : m.x) h = std::max(h, amax(ref(p))); return h; }
static dvec lu(LILCSR<double>& K, const dvec& F) { int n = (int)F.size(); if (n == 0) return {}; CSR<double> A(K); LMat D = lib(ref(A)); LVec b = lib(F); std::vector<int> p(n); LU(D, p); SolveLU(D, b, p); return ref(b); }
// a flow patch with too few free velocities does not determine its pressure
static void determined(const dmat& A, double eps) { if (A.r == 0) throw pbt::Reject(); dmat B = A; for (int i = 0; i < B.r; i++) { double q = 0; for (int j = 0; j < B.c; j++) q = std::max(q, std::fabs(B(i, j))); if (!(q > 0)) throw pbt::Reject(); for (int j = 0; j < B.c; j++) B(i, j) /= q; } dvec w = eigenvalues(mul(tr(B), B)); if (!(w[0] > eps*w.back())) throw pbt::Reject(); }
static double least(const Mesh& m) { double h = 1e300; for (auto& e : m.el) for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < i; j++) h = std::min(h, nrm(add(at(m, e[i]), at(m, e[j]), -1))); return h; }
static dvec normal(const Mesh& m, const std::vector<int>& e) { dvec d = add(at(m, e[1]), at(m, e[0]), -1); return {d[1]/nrm(d), -d[0]/nrm(d)}; }

LAW(flow, 1200, 20000, "viscous flow with Taylor-Hood (Newton's method, Oseen step, unsteady Stokes) and equal-order stabilised elements on distorted meshes: linear or parabolic velocity, linear pressure, body force that balances them, velocities prescribed on the outline or tractions on part of it, pressure at one node: exact at every node, after every step; non-trivial with a free velocity node and a pressure gradient") {
    int v = s.range(0, 3); static const char* NAME[] = {"Newton", "Oseen", "unsteady Stokes", "stabilised"}; Kind k = v == 3 ? (s.coin() ? QUAD4 : TRI3) : (s.coin() ? QUAD8 : TRI6); Mesh m = mesh(s, c, k, 3, v == 3, true, true); int n = (int)m.x.size(), nc = k == QUAD8 || k == QUAD4 ? 4 : 3; double rho = s.logreal(1e-1, 10), U = 1, mu = rho*U*m.X/s.logreal(0.1, 10), far = spread(m), dt = s.logreal(0.05, 5.0)*m.X; c.label(NAME[v]);
    bool para = v < 3 && (k == TRI6 || m.regular) && s.chance(1, 3); double th = s.real(0, 6.28), Q = 0; dvec d = {std::cos(th), std::sin(th)}, nn = {-d[1], d[0]}, a = {s.sreal(1.0), s.sreal(1.0)}, acc(2, 0.0), q(2), f0(2, 0.0); dmat G(2, 2), fG(2, 2); double P = rho*U*U/m.X + mu*U/m.X/m.X, p0 = s.sreal(1.0)*P*m.X; for (auto& z : q) z = s.sreal(1.0)*P;
    bool free_ = s.coin();   // no body force
    if (para) { Q = s.sreal(1.0)/(m.X*m.X); double g = s.sreal(1.0)/m.X, a0 = s.sreal(1.0); for (int i = 0; i < 2; i++) { a[i] = a0*d[i]; for (int j = 0; j < 2; j++) G(i, j) = g*d[i]*nn[j]; } if (free_) q = scale(d, 2*mu*Q); f0 = add(q, d, -2*mu*Q); }
    else { if (v == 3 || free_) { double g = s.sreal(1.0)/m.X; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) G(i, j) = g*d[i]*nn[j]; } else { for (auto& z : G.v) z = s.sreal(1.0)/m.X; G(1, 1) = -G(0, 0); }
        if (v == 2) { if (s.coin()) acc = {s.sreal(1.0)/m.X, s.sreal(1.0)/m.X}; if (free_) q = scale(acc, -rho); f0 = add(q, acc, rho); } else { if (v == 3 || free_) q = scale(mul(G, a), -rho); f0 = add(q, mul(G, a), rho); fG = scale(mul(G, G), rho); } }
    bool body = amax(f0) + amax(fG)*far > 1e-9*P; double time = 0; auto vel = [&](const dvec& x) { double y = dot(nn, x); return add(add(add(mul(G, x), a), acc, time), d, Q*y*y); }; auto prs = [&](const dvec& x) { return p0 + dot(q, x); };
    std::set<int> corner; for (auto& e : m.el) for (int i = 0; i < nc; i++) corner.insert(e[i]); auto sides = outline(m); std::vector<char> held(n, 0), tract(sides.size(), 0); bool open = s.chance(1, 3); for (size_t i = 0; i < sides.size(); i++) { tract[i] = open && s.chance(1, 3); if (!tract[i]) for (int j : sides[i]) held[j] = 1; } int extra = s.range(0, 2); for (int i = 0; i < extra; i++) held[s.range(0, n - 1)] = 1; int pn = m.el[s.range(0, (int)m.el.size() - 1)][s.range(0, nc - 1)];
    auto conditions = [&] { Fixed fx; for (int i = 0; i < n; i++) { dvec e = vel(at(m, i)); if (held[i]) for (int j = 0; j < 2; j++) fx.push_back({{i, j}, e[j]}); if (!corner.count(i)) fx.push_back({{i, 2}, 0.0}); } fx.push_back({{pn, 2}, prs(at(m, pn))}); return fx; };
    std::vector<LVec> u(n, LVec(3)); N2G gl(n, std::vector<int>(3, 0)); Fixed fx = conditions(); order_(s, fx); SetDirichlet(u, gl, fx); int N = Renumbering(gl); bool freev = false; for (auto& z : gl) if (z[0] >= 0) freev = true; c.desc << NAME[v] << (para ? " parabolic" : "") << " rho=" << rho << " mu=" << mu << " dt=" << dt << " u=" << show(a) << show(G) << " p=" << p0 << show(q) << " acceleration " << show(acc) << (open ? " with tractions" : ""); if (N == 0) throw pbt::Reject();
    auto lf = [&](LVec x) { return lib(add(f0, mul(fG, ref(x)))); };
    for (int i = 0; i < n; i++) { dvec e = vel(at(m, i)); for (int j = 0; j < 2; j++) if (gl[i][j] >= 0) u[i](j) = v == 1 ? 0.0 : e[j]; if (gl[i][2] >= 0) u[i](2) = v == 2 || v == 3 ? prs(at(m, i)) + P*m.X*s.sreal(1.0) : 0.0; }
    std::vector<LVec> bar(n, LVec(2)); for (int i = 0; i < n; i++) bar[i] = lib(vel(at(m, i)));
    double vs = U + amax(a) + amax(G)*2*far + std::fabs(Q)*2*far*far + amax(acc)*4*dt, ps = std::fabs(p0) + amax(q)*2*far + mu*vs/m.X + rho*vs*vs + 1e-300; double theta = s.chance(1, 3) ? 1.0 : s.real(0.5, 1.0); int steps = v == 0 ? 15 : v == 1 ? 1 : s.range(1, 3); bool done = false; if (v == 3) ps += rho*vs*m.X/dt; if (v == 2) ps += rho*vs*m.X/dt;
    for (int it = 0; it < steps && !done; it++) {
        std::vector<LVec> old = u; if (v >= 2) { time += dt; Fixed z = conditions(); order_(s, z); SetDirichlet(u, gl, z); } std::vector<LVec> du(n, LVec(3)); LILCSR<double> K(N, N); dvec F(N, 0.0);
        for (auto& e : m.el) { std::vector<int> ep(e.begin(), e.begin() + nc); LMat Ke, Ce, Me, Ks, Cs, Ms; LVec Fe(0), b; N2E mu_, mp; std::vector<std::vector<int> > els = {e, ep};
#define M(SU, SP, IC) { \
            if (v == 0) { NavierStokesTangent<double, SU, SP, IC>(Ke, Fe, mu_, e, mp, ep, {0, 1, 2}, m.x, u, rho, mu); Assembling(K, F, du, Ke, gl, {mu_, mp}, els); Assembling(F, Fe, gl, mu_, e); Assembling(F, Fe, gl, mp, ep); } \
            else if (v == 1) { NavierStokesStiffness<double, SU, SP, IC>(Ke, mu_, e, mp, ep, {0, 1, 2}, m.x, bar, rho, mu); ContinuityStiffness<double, SU, SP, IC>(Ce, mu_, e, mp, ep, {0, 1, 2}, m.x); LMat A = Ke + Ce; Assembling(K, F, u, A, gl, {mu_, mp}, els); } \
            else if (v == 2) { StokesMass<double, SU, SP, IC>(Me, mu_, e, mp, ep, {0, 1, 2}, m.x, rho); StokesStiffness<double, SU, SP, IC>(Ke, mu_, e, mp, ep, {0, 1, 2}, m.x, mu); LMat A = Me/dt + Ke; b = (Me/dt)*ElementVector(old, {mu_, mp}, els); Assembling(K, F, u, A, gl, {mu_, mp}, els); Assembling(F, b, gl, mu_, e); Assembling(F, b, gl, mp, ep); } \
            else { NavierStokesStiffness<double, SU, SP, IC>(Ke, mu_, e, mp, ep, {0, 1, 2}, m.x, bar, rho, mu); NavierStokesConsistentMass<double, SU, SP, IC>(Me, mu_, e, mp, ep, {0, 1, 2}, m.x, rho); ContinuityStiffness<double, SU, SP, IC>(Ce, mu_, e, mp, ep, {0, 1, 2}, m.x); NavierStokesSUPGPSPGStiffness<double, SU, SP, IC>(Ks, mu_, e, mp, ep, {0, 1, 2}, m.x, bar, rho, mu, dt); NavierStokesSUPGPSPGConsistentMass<double, SU, SP, IC>(Ms, mu_, e, mp, ep, {0, 1, 2}, m.x, bar, rho, mu, dt); ContinuitySUPGPSPGStiffness<double, SU, SP, IC>(Cs, mu_, e, mp, ep, {0, 1, 2}, m.x, bar, rho, mu, dt); \
                LMat A = (Me + Ms)/dt + theta*(Ke + Ks) + (Ce + Cs); b = ((Me + Ms)/dt - (1 - theta)*(Ke + Ks))*ElementVector(old, {mu_, mp}, els); Assembling(K, F, u, A, gl, {mu_, mp}, els); Assembling(F, b, gl, mu_, e); Assembling(F, b, gl, mp, ep); } \
            if (body) { LVec fe; if (v == 2) StokesBodyForce<double, SU, SP, IC>(fe, mu_, e, mp, ep, {0, 1, 2}, m.x, lf); else NavierStokesBodyForce<double, SU, SP, IC>(fe, mu_, e, mp, ep, {0, 1, 2}, m.x, lf); Assembling(F, fe, gl, mu_, e); } }
            WITH_FLOW(k, M)
#undef M
        }
        for (size_t i = 0; i < sides.size(); i++) if (tract[i]) { auto& e = sides[i]; std::vector<int> ep = {e[0], e[1]}; dvec no = normal(m, e); LVec Fe; N2E a_, b_; auto t = [&](LVec X) { dvec x = ref(X); dmat g = G; double y = dot(nn, x); for (int r = 0; r < 2; r++) for (int w = 0; w < 2; w++) g(r, w) += 2*Q*y*d[r]*nn[w]; return lib(add(scale(mul(add(g, tr(g)), no), mu), no, -prs(x))); };
            if (e.size() == 3) StokesSurfaceForce<double, ShapeFunction3Line, ShapeFunction2Line, Gauss2Line>(Fe, a_, e, b_, ep, {0, 1, 2}, m.x, t); else StokesSurfaceForce<double, ShapeFunction2Line, ShapeFunction2Line, Gauss2Line>(Fe, a_, e, b_, ep, {0, 1, 2}, m.x, t); Assembling(F, Fe, gl, a_, e); }
        if (it == 0) { CSR<double> A(K); determined(ref(A), v == 0 ? 1e-8 : 1e-12); if (v == 0) { for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) if (gl[i][j] >= 0) u[i](j) += 0.05*U*s.sreal(1.0); continue; } } dvec r = lu(K, F); if (v == 0) { Disassembling(du, r, gl); double st = 0; for (int i = 0; i < n; i++) { u[i] += du[i]; st = std::max({st, std::fabs(du[i](0))/vs, std::fabs(du[i](1))/vs, std::fabs(du[i](2))/ps}); } done = st < 1e-10; if (!done && it + 1 < steps) continue; } else Disassembling(u, r, gl);
        for (int i = 0; i < n; i++) { dvec e = vel(at(m, i)); for (int j = 0; j < 2; j++) c.near(u[i](j), e[j], vs, 1e-6, "velocity of node " + std::to_string(i) + " in step " + std::to_string(it)); if (corner.count(i)) c.near(u[i](2), prs(at(m, i)), ps, 1e-5, "pressure of node " + std::to_string(i) + " in step " + std::to_string(it)); }
    }
    c.nontrivial(freev && amax(q) > 0);
}
LAW(split, 1500, 25000, "the three steps of the split method on distorted meshes of linear and quadratic elements started from a shear flow or uniform stream of any direction: predicted and corrected velocity stay exactly as they are and the pressure is uniform, step after step; non-trivial with a free node and a moving fluid") {
    Kind k = s.pick(PLANE); Mesh m = mesh(s, c, k, 4, true, true, true); int n = (int)m.x.size(); double rho = s.logreal(1e-1, 10), mu = rho*s.logreal(0.01, 1.0)*m.X, h = least(m), dt = s.logreal(1e-2, 1.0)*std::min(h, 0.1*rho*h*h/mu), th = s.real(0, 6.28), g = s.sreal(1.0)/m.X, a0 = s.sreal(1.0), p0 = s.sreal(1.0)*rho, far = spread(m); dvec d = {std::cos(th), std::sin(th)}, nn = {-d[1], d[0]}; auto vel = [&](int i) { return scale(d, a0 + g*dot(nn, at(m, i))); };
    std::vector<LVec> u(n, LVec(2)), w(n, LVec(2)), p(n, LVec(1)); N2G gu(n, std::vector<int>(2, 0)), gp(n, std::vector<int>(1, 0)); Fixed fx; for (int i = 0; i < n; i++) u[i] = lib(vel(i)); std::set<int> wall; for (auto& e : outline(m)) wall.insert(e.begin(), e.end()); for (int i : wall) for (int j = 0; j < 2; j++) fx.push_back({{i, j}, vel(i)[j]}); order_(s, fx); SetDirichlet(u, gu, fx); SetDirichlet(w, gu, fx); Fixed pf = {{{s.range(0, n - 1), 0}, p0}}; SetDirichlet(p, gp, pf); int NU = Renumbering(gu), NP = Renumbering(gp); int steps = s.range(1, 3); c.desc << "u=(" << a0 << "+" << g << "y) towards " << show(d) << " rho=" << rho << " mu=" << mu << " dt=" << dt; double vs = std::fabs(a0) + std::fabs(g)*2*far + dt*std::fabs(p0)/(rho*h) + 1e-6, ps = std::fabs(p0) + rho*vs*m.X/dt + rho*vs*vs; if (NU == 0) throw pbt::Reject();
    for (int it = 0; it < steps; it++) { auto update = [&](std::vector<LVec>& to, const std::vector<LVec>& from, bool corr) { LILCSR<double> K(NU, NU); dvec F(NU, 0.0); std::vector<LVec> fr = from; for (auto& e : m.el) { LMat Me; LVec Fe; N2E mp;
#define M(SF, IC) { if (k == QUAD4 || k == TRI3) NavierStokesDecoupledLumpedMass<double, SF, IC>(Me, mp, e, {0, 1}, m.x, rho); else NavierStokesDecoupledConsistentMass<double, SF, IC>(Me, mp, e, {0, 1}, m.x, rho); if (corr) NavierStokesNextstepVelocity<double, SF, IC>(Fe, mp, e, {0, 1}, m.x, fr, p, rho); else NavierStokesAuxiliaryVelocity<double, SF, IC>(Fe, mp, e, {0, 1}, m.x, fr, rho, mu); }
            WITH_CELL(k, M)
#undef M
            Assembling(K, F, to, Me, gu, mp, e); Fe = Me*ElementVector(fr, mp, e) + dt*Fe; Assembling(F, Fe, gu, mp, e); }
            CSR<double> A(K); dvec r; if (k == QUAD4 || k == TRI3) { dvec D = GetDiagonal(A); r = Scaling(D, F); } else r = ScalingCG(A, F, 100000, 1e-13); Disassembling(to, r, gu); };
        update(w, u, false); for (int i = 0; i < n; i++) same(c, ref(w[i]), vel(i), vs, 1e-7, "predicted velocity of node " + std::to_string(i));
        LILCSR<double> K(NP, NP); dvec F(NP, 0.0); for (auto& e : m.el) { LMat Ke; LVec Fe; N2E mp;
#define M(SF, IC) NavierStokesPressurePoisson<double, SF, IC>(Ke, Fe, mp, e, {0}, m.x, w, rho, dt);
            WITH_CELL(k, M)
#undef M
            Assembling(K, F, p, Ke, gp, mp, e); Assembling(F, Fe, gp, mp, e); }
        CSR<double> A(K); dvec r = NP ? s.coin() ? ScalingCG(A, F, 100000, 1e-13) : lu(K, F) : dvec(); Disassembling(p, r, gp); for (int i = 0; i < n; i++) c.near(p[i](0), p0, ps, 1e-6, "pressure of node " + std::to_string(i));
        update(u, w, true); for (int i = 0; i < n; i++) same(c, ref(u[i]), vel(i), vs, 1e-6, "velocity of node " + std::to_string(i)); }
    c.nontrivial(vs > 1e-3);
}
LAW(transient, 1500, 25000, "heat, advection-diffusion (with and without streamline upwinding) and reaction-diffusion over several time steps of any implicitness on distorted meshes: a field linear in space and time with the source and outline fluxes that belong to it is exact at every node after every step; non-trivial with a free node and a changing field") {
    Kind k = s.pick(PLANE); Mesh m = mesh(s, c, k, 3, true, true, true); int n = (int)m.x.size(), v = s.range(0, 3); static const char* NAME[] = {"heat", "advection", "upwinded advection", "reaction"}; c.label(NAME[v]); double al = s.logreal(1e-1, 10)*m.X, rho = s.logreal(0.1, 10), cp = s.logreal(0.1, 10), t = v ? 1.0 : thick(s), a0 = s.sreal(1.0), b = s.sreal(1.0)/m.X, dt = s.logreal(1e-2, 1e1)*m.X, far = spread(m), theta = s.chance(1, 3) ? 1.0 : s.real(0.4, 1.0); dvec g = {s.sreal(1.0)/m.X, s.sreal(1.0)/m.X}, w = {s.nonzero(1.0), s.nonzero(1.0)}; bool lump = v == 3 && (k == TRI3 || (k == QUAD4 && m.regular)) && s.coin(); if (v == 2) b = -dot(w, g); double cap = v ? 1.0 : rho*cp, time = 0; double src = cap*b + (v == 1 ? dot(w, g) : 0); auto ex = [&](int i) { return a0 + dot(g, at(m, i)) + b*time; };
    auto sides = outline(m); std::set<int> fix; int nf = s.range(1, std::min(n, 6)); for (int i = 0; i < nf; i++) fix.insert(s.range(0, n - 1)); if (v == 1 || v == 2) for (auto& e : sides) if (dot(w, normal(m, e)) < 0) fix.insert(e.begin(), e.end()); auto cond = [&] { Fixed f; for (int i : fix) f.push_back({{i, 0}, ex(i)}); order_(s, f); return f; }; std::vector<LVec> T(n, LVec(1)); N2G gl(n, std::vector<int>(1, 0)); for (int i = 0; i < n; i++) T[i](0) = ex(i); SetDirichlet(T, gl, cond()); int N = Renumbering(gl), steps = s.range(1, 4); c.desc << NAME[v] << (lump ? " lumped" : "") << " T=" << a0 << show(g) << "+" << b << "t diffusivity " << al << " capacity " << cap << " stream " << show(w) << " dt=" << dt << " theta=" << theta; if (N == 0) throw pbt::Reject();
    double sc = std::fabs(a0) + nrm(g)*2*far + std::fabs(b)*dt*steps + 1e-300;
    for (int it = 0; it < steps; it++) { std::vector<LVec> old = T; time += dt; SetDirichlet(T, gl, cond()); LILCSR<double> K(N, N); dvec F(N, 0.0); Fixed ld;
        for (auto& e : m.el) { LMat Ke, Ce, X; LVec Re; N2E mp;
#define M(SF, IC) { if (v == 0) { HeatTransfer<double, SF, IC>(Ke, mp, e, {0}, m.x, al, t); HeatCapacity<double, SF, IC>(Ce, mp, e, {0}, m.x, rho, cp, t); } else if (v < 3) { Diffusion<double, SF, IC>(Ke, mp, e, {0}, m.x, al); Advection<double, SF, IC>(X, mp, e, {0}, m.x, w[0], w[1]); Ke += X; Mass<double, SF, IC>(Ce, mp, e, {0}, m.x); if (v == 2) { AdvectionSUPG<double, SF, IC>(X, mp, e, {0}, m.x, w[0], w[1], al); Ke += X; MassSUPG<double, SF, IC>(X, mp, e, {0}, m.x, w[0], w[1], al); Ce += X; } } \
            else { ReactionDiffusionStiffness<double, SF, IC>(Ke, mp, e, {0}, m.x, al); if (lump) ReactionDiffusionLumpedMass<double, SF, IC>(Ce, mp, e, {0}, m.x); else ReactionDiffusionConsistentMass<double, SF, IC>(Ce, mp, e, {0}, m.x); double r0 = b - dot(w, g); ReactionDiffusionReaction<double, SF, IC>(Re, mp, e, {0}, m.x, old, [&](double, LVec q) { return r0 + w[0]*q(0) + w[1]*q(1); }); Assembling(F, Re, gl, mp, e); } }
            WITH_CELL(k, M)
#undef M
            LMat A = Ce/dt + theta*Ke; LVec r = (Ce/dt - (1 - theta)*Ke)*ElementVector(old, mp, e); Assembling(K, F, T, A, gl, mp, e); Assembling(F, r, gl, mp, e); if (v < 2) for (auto& p : points(element_geo(m, e))) for (size_t i = 0; i < e.size(); i++) ld.push_back({{e[i], 0}, src*p.N[i]*p.dV*t}); }
        Assembling(F, ld, gl);
        for (auto& e : sides) { double q = al*dot(g, normal(m, e)); LVec Fe; N2E mp; auto f = [&](LVec) { return q; };
#define M(SF, IC) HeatTransferSurfaceFlux<double, SF, IC>(Fe, mp, e, {0}, m.x, f, t);
            WITH_SIDE(e.size(), M)
#undef M
            Assembling(F, Fe, gl, mp, e); }
        CSR<double> A(K); dvec x = lu(K, F); Disassembling(T, x, gl); for (int i = 0; i < n; i++) c.near(T[i](0), ex(i), sc, 1e-7, "node " + std::to_string(i) + " after step " + std::to_string(it + 1)); }
    c.nontrivial(std::fabs(b) > 0);
}
static dmat cholesky(const dmat& a) { int n = a.r; dmat l(n, n); for (int j = 0; j < n; j++) { double d = a(j, j); for (int k = 0; k < j; k++) d -= l(j, k)*l(j, k); if (!(d > 0)) throw pbt::Reject(); l(j, j) = std::sqrt(d); for (int i = j + 1; i < n; i++) { double q = a(i, j); for (int k = 0; k < j; k++) q -= l(i, k)*l(j, k); l(i, j) = q/l(j, j); } } return l; }
static void symm(dmat& a) { for (int i = 0; i < a.r; i++) for (int j = 0; j < i; j++) a(i, j) = a(j, i) = 0.5*(a(i, j) + a(j, i)); }
static Mesh small(pbt::Src& s, pbt::Ctx& c) { Kind k = s.pick(PLANE); bool one = k == TRI6 || k == QUAD8; return mesh(s, c, k, 2, false, true, true, one ? 1 : s.range(1, 3), one ? s.range(1, 2) : s.range(1, 2)); }
struct Modal { int form, N; double E, v, rho, t; dmat K, M; std::shared_ptr<LILCSR<double> > k, m; N2G gl; int d; };
static Modal modal(pbt::Src& s, pbt::Ctx& c, const Mesh& m, const std::set<std::pair<int, int> >& fix, int form) {
    Modal z; z.form = form; z.d = form == 2 ? 1 : 2; int n = (int)m.x.size(), d = z.d; z.E = modulus(s); z.v = poisson(s); z.rho = s.logreal(1e-3, 1e3); z.t = thick(s); z.gl = N2G(n, std::vector<int>(d, 0)); Fixed fx; for (auto& p : fix) if (p.second < d) fx.push_back({p, 0.0}); order_(s, fx); SetDirichlet(z.gl, fx); z.N = Renumbering(z.gl); if (z.N < 2 || z.N > 16) throw pbt::Reject(); z.k = std::make_shared<LILCSR<double> >(z.N, z.N); z.m = std::make_shared<LILCSR<double> >(z.N, z.N); z.K = dmat(z.N, z.N); z.M = z.K; std::vector<LVec> x = m.x; double cp = form == 2 ? s.logreal(0.1, 10) : 1; static const char* NAME[] = {"plane stress vibration", "plane strain vibration", "heat decay"}; c.label(NAME[form]); c.desc << NAME[form] << " E=" << z.E << " v=" << z.v << " rho=" << z.rho << " t=" << z.t << " N=" << z.N << " ";
    for (auto& e : m.el) { LMat Ke, Me; N2E mp; std::vector<int> dl = d == 1 ? std::vector<int>{0} : std::vector<int>{0, 1};
#define M(SF, IC) { if (form == 0) { PlaneStressStiffness<double, SF, IC>(Ke, mp, e, dl, x, z.E, z.v, z.t); PlaneStressMass<double, SF, IC>(Me, mp, e, dl, x, z.rho, z.t); } else if (form == 1) { PlaneStrainStiffness<double, SF, IC>(Ke, mp, e, dl, x, z.E, z.v, z.t); PlaneStrainMass<double, SF, IC>(Me, mp, e, dl, x, z.rho, z.t); } else { HeatTransfer<double, SF, IC>(Ke, mp, e, dl, x, z.E, z.t); HeatCapacity<double, SF, IC>(Me, mp, e, dl, x, z.rho, cp, z.t); } }
        switch (m.kind) { case TRI3: M(ShapeFunction3Triangle, Gauss3Triangle) break; case TRI6: M(ShapeFunction6Triangle, Gauss3Triangle) break; case QUAD4: M(ShapeFunction4Square, Gauss9Square) break; default: M(ShapeFunction8Square, Gauss9Square) }
#undef M
        Assembling(*z.k, Ke, z.gl, mp, e); Assembling(*z.m, Me, z.gl, mp, e); dmat D = form == 0 ? stress_D(z.E, z.v) : strain_D(z.E, z.v);
        Geo g = element_geo(m, e); std::vector<Pt> P = points(g); if (m.kind == TRI6) P = rule<Gauss3Triangle>(g); if (m.kind == QUAD4 || m.kind == QUAD8) P = rule<Gauss9Square>(g);
        dmat k, q(d*(int)e.size(), d*(int)e.size()); if (d == 2) k = stiffness(P, 2, D, z.t); else { k = q; for (auto& p : P) k = add(k, scale(mul(tr(p.dNdX), p.dNdX), p.dV*z.E*z.t)); } for (auto& p : P) for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < e.size(); j++) for (int a = 0; a < d; a++) q(d*i + a, d*j + a) += p.N[i]*p.N[j]*p.dV*z.rho*cp*z.t;
        for (size_t i = 0; i < e.size(); i++) for (int a = 0; a < d; a++) for (size_t j = 0; j < e.size(); j++) for (int b = 0; b < d; b++) { int I = z.gl[e[i]][a], J = z.gl[e[j]][b]; if (I >= 0 && J >= 0) { z.K(I, J) += k(d*i + a, d*j + b); z.M(I, J) += q(d*i + a, d*j + b); } } }
    symm(z.K); symm(z.M); return z;
}
LAW(modes, 12000, 200000, "free vibration (plane stress and strain) and heat decay of small distorted bodies held at random places: the general shifted and inverted Lanczos methods on the assembled matrices give the modes of independently assembled ones (all of them for a full run; ascending upper bounds with orthonormal vectors for fewer steps), and the mode shapes are zero at the held places; non-trivial with three or more degrees of freedom") {
    Mesh m = small(s, c); int n = (int)m.x.size(), form = s.range(0, 2); std::set<std::pair<int, int> > fix; int nf = s.range(1, n); for (int i = 0; i < nf; i++) { int q = s.range(0, n - 1); if (s.chance(3, 4)) { fix.insert({q, 0}); fix.insert({q, 1}); } else fix.insert({q, s.range(0, 1)}); } Modal z = modal(s, c, m, fix, form); int N = z.N;
    dmat L = cholesky(z.M), Li = inverse(L), A = mul(Li, mul(z.K, tr(Li))); symm(A); dvec w = eigenvalues(A); if (!(w[0] > 1e-4*w[N - 1])) throw pbt::Reject(); for (int i = 1; i < N; i++) if (w[i] < 1.1*w[i - 1]) throw pbt::Reject(); double sigma = s.coin() ? 0.0 : -s.real(0.1, 3.0)*w[0]; bool restart = s.coin(), full = N <= 6 && s.chance(2, 3); int k = full ? N : s.range(1, std::min(4, N - 1));
    // the start vector (the diagonal) must contain every mode
    { dmat S = add(z.K, z.M, -sigma); dvec d(N); for (int i = 0; i < N; i++) d[i] = S(i, i); dvec b = mul(z.M, d); double g = std::sqrt(dot(d, b)); for (int i = 0; i < N; i++) { dmat B = A; for (int j = 0; j < N; j++) B(j, j) -= w[i] + 1e-9*w[N - 1]; dvec y(N, 1.0); for (int j = 0; j < N; j++) y[j] = 1.0/(j + 1.3); for (int it = 0; it < 4; it++) { y = solve(B, y); double q = nrm(y); for (auto& e : y) e /= q; } dvec V = mul(tr(Li), y); if (std::fabs(dot(V, b)) < 0.03*g) throw pbt::Reject(); } }
    CSR<double> K(*z.k), M(*z.m); dvec e; std::vector<dvec> v; if (restart) GeneralRestartShiftedInvertLanczos(K, M, e, v, k, sigma); else GeneralShiftedInvertLanczos(K, M, e, v, k, sigma); c.label(restart ? "restart" : "plain"); c.desc << "steps " << k << " sigma=" << sigma << " eigenvalues " << show(w); c.check((int)e.size() == k && (int)v.size() == k, "number of modes");
    dmat S = add(z.K, z.M, -sigma); for (int i = 0; i < k; i++) { double sc = w[N - 1] + std::fabs(sigma); if (full) c.near(e[i], w[i], sc, 1e-5, "eigenvalue " + std::to_string(i)); else c.check(e[i] >= w[i] - 1e-5*sc && e[i] <= w[N - 1]*(1 + 1e-5), "upper bound " + std::to_string(i)); dvec b = mul(z.M, v[i]); c.near(dot(v[i], b), 1, 1, 1e-5, "norm of mode " + std::to_string(i)); for (int j = 0; j < i; j++) c.near(dot(v[j], b), 0, 1, 1e-5, "orthogonality of modes " + std::to_string(i) + "," + std::to_string(j)); c.near(dot(b, solve(S, b)), 1/(e[i] - sigma), 1/(w[0] - sigma), 1e-5, "Rayleigh quotient");
        if (full) same(c, mul(z.K, v[i]), scale(b, e[i]), (amax(z.K) + amax(z.M)*w[N - 1])*N*nrm(v[i]), 1e-5, "K v = lambda M v");
        std::vector<LVec> u(n, LVec(z.d)); Disassembling(u, v[i], z.gl); for (int a = 0; a < n; a++) for (int b_ = 0; b_ < z.d; b_++) c.check(z.gl[a][b_] < 0 ? u[a](b_) == 0 : u[a](b_) == v[i][z.gl[a][b_]], "mode shape at node " + std::to_string(a)); }
    c.nontrivial(N >= 3);
}
LAW(bar, 2000, 30000, "a bar of 1 to 4 bilinear elements without lateral contraction (or a wall losing heat), one end held and the other free, or both held: the longitudinal frequencies (decay rates) found from the assembled matrices are those of the textbook formula for linear elements with consistent mass, with the sinusoidal mode shapes; non-trivial with two or more elements") {
    int ne = s.range(1, 4), form = s.range(0, 2); bool both = ne > 2 && s.chance(1, 3), along = s.coin(); Mesh m = mesh(s, c, QUAD4, 4, false, false, true, along ? ne : 1, along ? 1 : ne); int ax = along ? 0 : 1, n = (int)m.x.size(); double len = along ? m.X : m.Y, h = len/ne; std::set<std::pair<int, int> > fix; for (int i = 0; i < n; i++) { if (form < 2) fix.insert({i, 1 - ax}); if (at(m, i)[ax] < 1e-9*len || (both && at(m, i)[ax] > len*(1 - 1e-9))) fix.insert({i, form < 2 ? ax : 0}); } int nm = both ? ne - 1 : ne;
    std::vector<LVec> x = m.x; double E = modulus(s), rho = s.logreal(1e-3, 1e3), t = thick(s), cp = s.logreal(0.1, 10); N2G gl(n, std::vector<int>(form < 2 ? 2 : 1, 0)); Fixed fx; for (auto& p : fix) fx.push_back({p, 0.0}); order_(s, fx); SetDirichlet(gl, fx); int N = Renumbering(gl); LILCSR<double> k(N, N), mm(N, N);
    for (auto& e : m.el) { LMat Ke, Me; N2E mp; if (form == 0) { PlaneStressStiffness<double, ShapeFunction4Square, Gauss4Square>(Ke, mp, e, {0, 1}, x, E, 0.0, t); PlaneStressMass<double, ShapeFunction4Square, Gauss4Square>(Me, mp, e, {0, 1}, x, rho, t); } else if (form == 1) { PlaneStrainStiffness<double, ShapeFunction4Square, Gauss4Square>(Ke, mp, e, {0, 1}, x, E, 0.0, t); PlaneStrainMass<double, ShapeFunction4Square, Gauss4Square>(Me, mp, e, {0, 1}, x, rho, t); } else { HeatTransfer<double, ShapeFunction4Square, Gauss4Square>(Ke, mp, e, {0}, x, E, t); HeatCapacity<double, ShapeFunction4Square, Gauss4Square>(Me, mp, e, {0}, x, rho, cp, t); } Assembling(k, Ke, gl, mp, e); Assembling(mm, Me, gl, mp, e); }
    double r = form == 2 ? rho*cp : rho, pi = 3.14159265358979323846; dvec w, th; for (int i = 0; i < nm; i++) { double q = both ? (i + 1)*pi/ne : (2*i + 1)*pi/(2*ne); th.push_back(q); w.push_back(6*E/(r*h*h)*(1 - std::cos(q))/(2 + std::cos(q))); }
    // the start vector is uniform across the bar; with both ends held it is symmetric and holds every other mode only
    std::vector<int> want; for (int i = 0; i < nm; i++) if (!both || i%2 == 0) want.push_back(i); int K = (int)want.size(); double sigma = s.coin() ? 0.0 : -s.real(0.1, 3.0)*w[0]; bool restart = s.coin(); CSR<double> A(k), M(mm); dvec e; std::vector<dvec> v; if (restart) GeneralRestartShiftedInvertLanczos(A, M, e, v, K, sigma); else GeneralShiftedInvertLanczos(A, M, e, v, K, sigma); c.desc << "form " << form << (both ? " both ends held" : "") << " E=" << E << " rho=" << r << " t=" << t << " sigma=" << sigma << " formula " << show(w); c.check((int)e.size() == K, "number of modes");
    for (int i = 0; i < K; i++) { c.near(e[i], w[want[i]], w[nm - 1] + std::fabs(sigma), 1e-6, "eigenvalue " + std::to_string(i)); std::vector<LVec> u(n, LVec(form < 2 ? 2 : 1)); Disassembling(u, v[i], gl); double a = 0, b = 0; dvec sh(n); for (int j = 0; j < n; j++) { sh[j] = std::sin(th[want[i]]*at(m, j)[ax]/h); a += sh[j]*sh[j]; b += sh[j]*u[j](form < 2 ? ax : 0); } double q = b/a; c.check(std::fabs(q) > 0, "mode shape"); for (int j = 0; j < n; j++) c.near(u[j](form < 2 ? ax : 0), q*sh[j], std::fabs(q), 1e-4, "mode " + std::to_string(i) + " at node " + std::to_string(j)); }
    c.nontrivial(ne >= 2);
}
