#include "elastic.h"
#include <cassert>
#include "FEM/Equation/PlaneStress.h"
#include "FEM/Equation/PlaneStrain.h"
#include "FEM/Equation/Homogenization.h"
#include "FEM/Equation/Solid.h"
using namespace PANSFEM2;
#define PLACED(K, m, dl) order(ref(K), places(c, m, g.n, dl, g.n*g.d))
static const double TOL = 1e-9;
LAW(plane, 15000, 200000, "plane stress, plane strain and general plane stiffness on affine, distorted and curved 3-, 4-, 6- and 8-node elements under random numbering and degree-of-freedom lists: symmetric, semidefinite with exactly three zero-energy motions, exact forces under homogeneous strain, and equal to the quadrature of the energy with independently derived shape functions; non-trivial when distorted, anisotropic, or of thickness other than one") {
    Kind k = s.pick(PLANE); Geo g = valid(s, c, k, 0.3, 0.1); int v = s.range(0, 2); double E = modulus(s), nu = poisson(s), t = thick(s); std::vector<int> dl = doulist(s, 2); LMat K; N2E m; dmat D = v == 0 ? stress_D(E, nu) : v == 1 ? strain_D(E, nu) : spd3(s); LMat LD = lib(D); std::vector<Pt> P;
    c.desc << (v == 0 ? "stress" : v == 1 ? "strain" : "general") << " E=" << E << " nu=" << nu << " t=" << t << " dofs " << pbt::show(dl);
#define M(SF, IC) P = rule<IC>(g); if (v == 0) PlaneStressStiffness<double, SF, IC>(K, m, g.el, dl, g.x, E, nu, t); else if (v == 1) PlaneStrainStiffness<double, SF, IC>(K, m, g.el, dl, g.x, E, nu, t); else PlaneStiffness<double, SF, IC>(K, m, g.el, dl, g.x, LD, t);
    WITH_PLANE(k, M)
#undef M
    dmat Ke = PLACED(K, m, dl), R = stiffness(P, 2, D, t); same(c, Ke, R, amax(R), TOL, "stiffness"); elastic(s, c, g, Ke, D, t, true, true, TOL); c.nontrivial(!g.affine || v == 2 || t != 1.0);
}
LAW(reduced, 15000, 200000, "selective reduced integration and B-bar (isotropic and general law) on 4- and 8-node elements with reduced volumetric rules: volumetric energy by the one rule plus deviatoric energy by the other, exact forces under homogeneous strain, equal to the full stiffness when both rules agree; non-trivial when the rules differ") {
    Kind k = s.pick(std::vector<Kind>{QUAD4, QUAD8}); Geo g = valid(s, c, k, 0.3, 0.1); int v = s.range(0, 2); double E = modulus(s), nu = poisson(s), t = thick(s); std::vector<int> dl = doulist(s, 2); LMat K; N2E m; bool iso = v < 2 || s.coin(), eq = s.chance(1, 4); dmat D = iso ? strain_D(E, nu) : spd3(s); LMat LD = lib(D); std::vector<Pt> PV, PD;
    c.desc << (v == 0 ? "SRI" : v == 1 ? "Bbar" : iso ? "general Bbar, isotropic" : "general Bbar") << (eq ? " same rules" : " reduced") << " E=" << E << " nu=" << nu << " t=" << t;
#define R(SF, V, I) { PV = rule<V>(g); PD = rule<I>(g); if (v == 0) PlaneStrainStiffnessSRI<double, SF, V, I>(K, m, g.el, dl, g.x, E, nu, t); else if (v == 1) PlaneStrainStiffnessBbar<double, SF, V, I>(K, m, g.el, dl, g.x, E, nu, t); else PlaneStiffnessBbar<double, SF, V, I>(K, m, g.el, dl, g.x, LD, t); }
    if (k == QUAD4) { if (eq) R(ShapeFunction4Square, Gauss4Square, Gauss4Square) else R(ShapeFunction4Square, Gauss1Square, Gauss4Square) } else { if (eq) R(ShapeFunction8Square, Gauss9Square, Gauss9Square) else R(ShapeFunction8Square, Gauss4Square, Gauss9Square) }
#undef R
    dmat Ke = PLACED(K, m, dl); if (eq) { dmat F = stiffness(PD, 2, D, t); same(c, Ke, F, amax(F), TOL, "full integration"); }
    if (iso) { double mu = lame2(E, nu), kap = v == 0 ? lame1(E, nu) + 2*mu/3 : lame1(E, nu) + mu; dmat Dv(3, 3); Dv(0, 0) = Dv(0, 1) = Dv(1, 0) = Dv(1, 1) = kap; dmat F = add(stiffness(PV, 2, Dv, t), stiffness(PD, 2, add(strain_D(E, nu), Dv, -1), t)); same(c, Ke, F, amax(F), TOL, "split integration"); }
    elastic(s, c, g, Ke, D, t, true, false, TOL, iso || eq); c.nontrivial(!eq);
}
LAW(incompatible, 10000, 150000, "Wilson-Taylor stiffness (isotropic and general law) on 4-node elements with 2x2 and 3x3 rules: symmetric, semidefinite, rigid-motion free, never stiffer than the compatible element, equal to the condensation of the bubble modes, exact under homogeneous strain for parallelograms and exact in pure bending of rectangles; always non-trivial") {
    Kind k = QUAD4; bool rect = s.chance(1, 3); Geo g = valid(s, c, k, rect ? 0.0 : 0.3, 0.0); int v = s.range(0, 1); double E = modulus(s), nu = poisson(s), t = thick(s); bool iso = v == 0 || s.coin(); std::vector<int> dl = doulist(s, 2); LMat K; N2E m; dmat D = iso ? strain_D(E, nu) : spd3(s); LMat LD = lib(D); bool nine = s.coin();
    double a = s.real(0.3, 3.0), b = s.real(0.3, 3.0); if (rect) { g.A = dmat(2, 2); g.A(0, 0) = a; g.A(1, 1) = b; for (int i = 0; i < 4; i++) { g.p[i] = add(mul(g.A, refnodes(k)[i]), g.t); g.x[g.el[i]] = lib(g.p[i]); } c.desc << "made a rectangle " << 2*a << "x" << 2*b << "; "; }
    std::vector<Pt> P; dmat Kaa(4, 4), Kad(4, 8);
#define W(IC) { P = rule<IC>(g); if (v == 0) PlaneStrainStiffnessWilsonTaylor<double, ShapeFunction4Square, IC>(K, m, g.el, dl, g.x, E, nu, t); else PlaneStiffnessWilsonTaylor<double, ShapeFunction4Square, IC>(K, m, g.el, dl, g.x, LD, t); \
    for (int q = 0; q < IC<double>::N; q++) { dvec r = ref(IC<double>::Points[q]), N; dmat dN; shape(k, r, N, dN); dmat J = inverse(mul(dN, g.M())); dmat B(3, 4); for (int l = 0; l < 2; l++) { double gx = J(0, l)*-2*r[l], gy = J(1, l)*-2*r[l]; B(0, 2*l) = gx; B(1, 2*l + 1) = gy; B(2, 2*l) = gy; B(2, 2*l + 1) = gx; } Kaa = add(Kaa, sandwich(B, D, P[q].dV*t)); Kad = add(Kad, scale(mul(tr(B), mul(D, bmat(P[q], 2))), P[q].dV*t)); } }
    if (nine) W(Gauss9Square) else W(Gauss4Square)
#undef W
    c.desc << (v ? "general" : "strain") << " E=" << E << " nu=" << nu << " t=" << t << (nine ? " 3x3" : " 2x2"); dmat Ke = PLACED(K, m, dl), F = stiffness(P, 2, D, t), R = add(F, mul(tr(Kad), mul(inverse(Kaa), Kad)), -1); same(c, Ke, R, amax(F), 1e-8, "condensed stiffness"); elastic(s, c, g, Ke, D, t, g.affine, true, 1e-8);
    dvec u(8); for (auto& x : u) x = s.sreal(1.0); c.check(dot(u, mul(Ke, u)) <= dot(u, mul(F, u)) + 1e-9*amax(F), "not stiffer than the compatible element");
    if (rect && iso) { dvec w(8); for (int i = 0; i < 4; i++) { double x = g.p[i][0] - g.t[0], y = g.p[i][1] - g.t[1]; w[2*i] = x*y; w[2*i + 1] = -x*x/2 - nu/(1 - nu)*y*y/2; } double I = t*2*b*b*b/3, e = E/(1 - nu*nu)*I*2*a; c.near(dot(w, mul(Ke, w)), e, amax(F)*a*b*a*b + e, 1e-8, "bending energy"); } c.nontrivial();
}
LAW(solid, 2500, 40000, "linear elastic solid stiffness on affine, distorted and curved tetrahedra, 8- and 20-node hexahedra: symmetric, semidefinite with exactly six zero-energy motions, exact forces under homogeneous strain, equal to the quadrature of the energy with independent shape functions; always non-trivial") {
    Kind k = s.pick(SOLID); Geo g = valid(s, c, k, 0.25, 0.08); double E = modulus(s), nu = poisson(s); std::vector<int> dl = doulist(s, 3); LMat K; N2E m; std::vector<Pt> P; c.desc << " E=" << E << " nu=" << nu;
#define M(SF, IC) P = rule<IC>(g); SolidLinearIsotropicElastic<double, SF, IC>(K, m, g.el, dl, g.x, E, nu);
    WITH_SOLID(k, M)
#undef M
    dmat Ke = PLACED(K, m, dl), R = stiffness(P, 3, solid_D(E, nu), 1.0); same(c, Ke, R, amax(R), TOL, "stiffness"); elastic(s, c, g, Ke, solid_D(E, nu), 1.0, true, true, TOL); c.nontrivial();
}
