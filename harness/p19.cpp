#include "geom.h"
#include <cassert>
#include "FEM/Controller/NewtonCotesIntegration.h"
#include "FEM/Equation/General.h"
#include "FEM/Equation/Numeric.h"
using namespace PANSFEM2;
static double cross(const dvec& a, const dvec& b) { return a[0]*b[1] - a[1]*b[0]; }
LAW(area, 20000, 300000, "plane elements (affine, distorted, curved) through Area with sufficient quadrature rules: equals the area enclosed by the (straight or parabolic) edges by Green's theorem; reversing the numbering changes the sign; always non-trivial") {
    Kind k = s.pick(PLANE); Geo g = valid(s, c, k, 0.35, 0.15); double e = 0; int m = k == TRI3 || k == TRI6 ? 3 : 4; static const int midt[] = {3, 4, 5}, midq[] = {4, 5, 6, 7};
    for (int i = 0; i < m; i++) { const dvec &a = g.p[i], &b = g.p[(i + 1)%m]; dvec q = scale(add(a, b), 0.5); if (k == TRI6) q = g.p[midt[i]]; if (k == QUAD8) q = g.p[midq[i]]; e += 0.5*cross(a, b) + (2.0/3)*cross(add(q, scale(add(a, b), 0.5), -1), add(b, a, -1)); }
    // the parabola through a, q, b adds two thirds of the triangle spanned by chord and midpoint offset
    double v; auto run = [&](std::vector<LVec>& x, std::vector<int>& el) { int ic = k == TRI3 ? s.range(0, 1) : k == QUAD4 ? s.range(0, 2) : k == QUAD8 ? s.range(1, 2) : 1;
        switch (k) { case TRI3: return ic ? Area<double, ShapeFunction3Triangle, Gauss3Triangle>(x, el) : Area<double, ShapeFunction3Triangle, Gauss1Triangle>(x, el); case TRI6: return Area<double, ShapeFunction6Triangle, Gauss3Triangle>(x, el);
            case QUAD4: return ic == 0 ? Area<double, ShapeFunction4Square, Gauss1Square>(x, el) : ic == 1 ? Area<double, ShapeFunction4Square, Gauss4Square>(x, el) : Area<double, ShapeFunction4Square, Gauss9Square>(x, el);
            default: return ic == 1 ? Area<double, ShapeFunction8Square, Gauss4Square>(x, el) : Area<double, ShapeFunction8Square, Gauss9Square>(x, el); } };
    v = run(g.x, g.el); c.near(v, e, std::fabs(e), 1e-10*(1 + 100/ size_of(g)), "area"); c.check(v > 0, "a positively numbered element has a positive area");
    if (k == TRI3 || k == QUAD4) { std::vector<int> r(g.el.rbegin(), g.el.rend()); c.near(run(g.x, r), -e, std::fabs(e), 1e-10*(1 + 100/size_of(g)), "area with reversed numbering"); } c.nontrivial();
}
LAW(volume, 8000, 120000, "solid elements (affine, distorted, curved) through Volume: equals an independent five-point integration, the triple product for parallelepipeds and tetrahedra; always non-trivial") {
    Kind k = s.pick(SOLID); Geo g = valid(s, c, k, 0.3, 0.1); double v = k == TET4 ? Volume<double, ShapeFunction4Tetrahedron, Gauss1Tetrahedron>(g.x, g.el) : k == HEX8 ? Volume<double, ShapeFunction8Cubic, Gauss8Cubic>(g.x, g.el) : Volume<double, ShapeFunction20Cubic, Gauss27Cubic>(g.x, g.el);
    double e = measure(g), tol = 1e-10*(1 + 100/size_of(g)); c.near(v, e, e, tol, "volume"); if (g.affine) c.near(v, determinant(g.A)*(k == TET4 ? 1.0/6 : 8.0), e, tol, "volume of an affine element"); c.nontrivial();
}
static double unit(pbt::Src& s) { return s.chance(1, 4) ? s.logreal(1e-25, 1e25) : 1.0; }
LAW(centroid, 20000, 300000, "centre of a random selection of up to 8 (at times 40) nodes in 1 to 3 dimensions, in any unit: the mean of their positions, moved with the nodes, whatever the order; non-trivial for two nodes or more") {
    int d = s.range(1, 3), n = few(s, 1, 8, 40, 10), k = s.range(1, n); double U = unit(s); std::vector<LVec> x; std::vector<dvec> p; for (int i = 0; i < n; i++) { dvec v(d); for (auto& q : v) q = U*s.sreal(4.0); p.push_back(v); x.push_back(lib(v)); } std::vector<int> el = s.permutation(n); el.resize(k);
    dvec e(d, 0.0); for (int i : el) e = add(e, p[i], 1.0/k); c.desc << "d=" << d << " element " << pbt::show(el); same(c, scale(ref(CenterOfGravity(x, el)), 1/U), scale(e, 1/U), 5, 1e-13, "centre"); c.nontrivial(k >= 2);
}
LAW(element_vector, 20000, 300000, "element vectors gathered from nodal fields (1..8 components, any unit) of up to 40 nodes through random maps, one or several at a time: place k holds the component the map sends there; non-trivial with three entries or more") {
    int n = few(s, 1, 8, 40, 10), most = s.chance(1, 6) ? 8 : 4; double U = unit(s); std::vector<LVec> u; std::vector<dvec> p; for (int i = 0; i < n; i++) { dvec v(s.range(1, most)); for (auto& q : v) q = U*s.sreal(4.0); p.push_back(v); u.push_back(lib(v)); } int parts = s.range(1, 3); std::vector<N2E> maps(parts); std::vector<std::vector<int> > els(parts); int total = 0;
    for (int t = 0; t < parts; t++) { std::vector<int> q = s.permutation(n); q.resize(s.range(1, n)); els[t] = q; for (int i : q) { std::vector<std::pair<int, int> > e; std::vector<int> o = s.permutation((int)p[i].size()); o.resize(s.range(0, (int)o.size())); for (int j : o) { e.push_back({j, 0}); total++; } maps[t].push_back(e); } }
    std::vector<int> perm = s.permutation(total); int k = 0; dvec e(total); for (int t = 0; t < parts; t++) for (size_t i = 0; i < maps[t].size(); i++) for (auto& q : maps[t][i]) { q.second = perm[k++]; e[q.second] = p[els[t][i]][q.first]; }
    if (total == 0) throw pbt::Reject(); c.desc << parts << " part(s), " << total << " entries"; if (parts == 1) same(c, scale(ref(ElementVector(u, maps[0], els[0])), 1/U), scale(e, 1/U), 1, 0, "element vector"); same(c, scale(ref(ElementVector(u, maps, els)), 1/U), scale(e, 1/U), 1, 0, "combined element vector"); c.nontrivial(total >= 3);
}
LAW(spring, 10000, 150000, "weak springs on 1..6 (at times 24) nodes and 1..6 listed degrees of freedom: each listed degree of freedom gets a place of its own and exactly the stiffness alpha on it, nothing couples; non-trivial with two degrees of freedom per node") {
    int n = few(s, 1, 6, 24, 10), d = s.range(1, s.chance(1, 5) ? 6 : 4); std::vector<int> dl = doulist(s, d), el = s.permutation(n + 2); el.resize(n); std::vector<LVec> x(n + 2, LVec(2)); double a = s.logreal(1e-12, 1e6); LMat K; N2E m; WeakSpring<double>(K, m, el, dl, x, a);
    c.desc << n << " nodes, dofs " << pbt::show(dl); dmat k = ref(K); c.check(k.r == n*d && k.c == n*d, "size"); auto p = places(c, m, n, dl, n*d); dmat e = scale(eye(n*d), a); same(c, order(k, p), e, a, 1e-14, "spring matrix"); c.nontrivial(d >= 2);
}
LAW(lagrange, 30000, 400000, "Lagrange interpolation on 1..9 distinct abscissae: sums to one, reproduces polynomials of degree n-1 and their derivatives anywhere; non-trivial for three abscissae or more") {
    int n = s.range(1, s.chance(1, 5) ? 9 : 6); std::vector<int> q = s.permutation(9); dvec xs; for (int i = 0; i < n; i++) xs.push_back((q[i] - 4)*0.5 + s.sreal(0.15)); double x = s.chance(1, 4) ? s.pick(xs) : s.sreal(2.5); dvec N = LagrangeInterpolation(xs, x), D = LagrangeInterpolationDerivative(xs, x), co(n); for (auto& v : co) v = s.sreal(2.0);
    c.desc << "abscissae " << show(xs) << " x=" << x; c.check((int)N.size() == n && (int)D.size() == n, "length"); double v = 0, dv = 0, e = 0, de = 0, g = 1, h = 1, t = 0, td = 0; auto pol = [&](double y) { double r = 0; for (int k = n - 1; k >= 0; k--) r = r*y + co[k]; return r; };
    for (int i = 0; i < n; i++) { v += N[i]*pol(xs[i]); dv += D[i]*pol(xs[i]); g += std::fabs(N[i]*pol(xs[i])); h += std::fabs(D[i]*pol(xs[i])); t += N[i]; td += D[i]; } e = pol(x); for (int k = 1; k < n; k++) de += k*co[k]*std::pow(x, k - 1);
    c.near(v, e, g, 1e-11, "interpolated value"); c.near(dv, de, h, 1e-10, "interpolated derivative"); c.near(t, 1, g, 1e-11, "sum of the weights"); c.near(td, 0, h, 1e-10, "sum of the derivative weights"); c.nontrivial(n >= 3);
}
static std::vector<std::vector<int> > mesh(pbt::Src& s, int& n) { n = few(s, 1, 10, 80, 20); int m = few(s, 1, 8, 60, 20); std::vector<std::vector<int> > e(m); std::vector<char> used(n, 0); for (auto& v : e) { v = s.permutation(n); v.resize(s.range(1, std::min(n, s.chance(1, 6) ? 24 : 5))); for (int i : v) used[i] = 1; } for (int i = 0; i < n; i++) if (!used[i]) e.push_back({i}); return e; }
LAW(averages, 20000, 300000, "random meshes: a node gets the mean of the elements it belongs to and an element the mean of its nodes, for scalars and vectors, whatever the element order; constants are kept, values stay in range; non-trivial with two elements") {
    int n; auto el = mesh(s, n); int m = (int)el.size(); int d = s.range(1, 3); double U = unit(s); dvec ue(m), un(n); std::vector<LVec> ve, vn; std::vector<dvec> re, rn; for (auto& x : ue) x = U*s.sreal(3.0); for (auto& x : un) x = U*s.sreal(3.0);
    for (int i = 0; i < m; i++) { dvec v(d); for (auto& x : v) x = U*s.sreal(3.0); re.push_back(v); ve.push_back(lib(v)); } for (int i = 0; i < n; i++) { dvec v(d); for (auto& x : v) x = U*s.sreal(3.0); rn.push_back(v); vn.push_back(lib(v)); }
    dvec en(n, 0.0), ee(m, 0.0), cnt(n, 0.0); std::vector<dvec> fn(n, dvec(d, 0.0)), fe(m, dvec(d, 0.0)); for (int i = 0; i < m; i++) for (int j : el[i]) { en[j] += ue[i]; cnt[j]++; fn[j] = add(fn[j], re[i]); ee[i] += un[j]/el[i].size(); fe[i] = add(fe[i], rn[j], 1.0/el[i].size()); } for (int i = 0; i < n; i++) { en[i] /= cnt[i]; fn[i] = scale(fn[i], 1/cnt[i]); }
    c.desc << n << " nodes, " << m << " elements"; same(c, scale(InterpolateNodalFromElemental(n, 0.0, ue, el), 1/U), scale(en, 1/U), 3, 1e-13, "nodal from elemental"); same(c, scale(InterpolateElementalFromNodal(0.0, un, el), 1/U), scale(ee, 1/U), 3, 1e-13, "elemental from nodal");
    auto a = InterpolateNodalFromElemental<double, Vector>(n, LVec(d), ve, el); auto b = InterpolateElementalFromNodal<double, Vector>(LVec(d), vn, el); c.check((int)a.size() == n && (int)b.size() == m, "number of values"); for (int i = 0; i < n; i++) same(c, scale(ref(a[i]), 1/U), scale(fn[i], 1/U), 3, 1e-13, "nodal vectors"); for (int i = 0; i < m; i++) same(c, scale(ref(b[i]), 1/U), scale(fe[i], 1/U), 3, 1e-13, "elemental vectors"); c.nontrivial(m >= 2);
}
LAW(line_integral, 20000, 300000, "integrals of random polynomials over 2- and 3-node lines with Gauss and Newton-Cotes rules of sufficient degree: exact; non-trivial for a polynomial of positive degree") {
    bool quad = s.coin(); double a = s.sreal(3.0), b = a + s.real(0.2, 3.0); bool flip = s.coin(); if (flip) std::swap(a, b); std::vector<double> p = quad ? std::vector<double>{a, b, 0.5*(a + b)} : std::vector<double>{a, b}; int n = (int)p.size(), extra = s.range(0, 2); std::vector<int> q = s.permutation(n + extra), el(n); std::vector<LVec> x(n + extra, LVec(1)); for (int i = 0; i < n; i++) { el[i] = q[i]; x[q[i]](0) = p[i]; } for (int i = n; i < n + extra; i++) x[q[i]](0) = s.sreal(9.0);
    int ic = s.range(0, 5); static const int DEG[] = {1, 3, 1, 3, 5, 7}; int deg = s.range(0, DEG[ic]); dvec co(deg + 1); for (auto& v : co) v = s.sreal(2.0); auto f = [&](LVec v) { double r = 0; for (int k = deg; k >= 0; k--) r = r*v(0) + co[k]; return r; }; c.desc << "line " << a << ".." << b << " rule " << ic << " coefficients " << show(co);
#define L(IC) (quad ? NumericIntegrationOnLine<double, ShapeFunction3Line, IC>(x, el, f) : NumericIntegrationOnLine<double, ShapeFunction2Line, IC>(x, el, f))
    double v = ic == 0 ? L(Gauss1Line) : ic == 1 ? L(Gauss2Line) : ic == 2 ? L(NewtonCotes1Line) : ic == 3 ? L(NewtonCotes3Line) : ic == 4 ? L(NewtonCotes5Line) : L(NewtonCotes7Line);
    double lo = std::min(a, b), hi = std::max(a, b), e = 0, g = 0; for (int k = 0; k <= deg; k++) { e += co[k]*(std::pow(hi, k + 1) - std::pow(lo, k + 1))/(k + 1); g += std::fabs(co[k])*std::pow(6.0, k + 1); } c.near(v, e, g + 1, 1e-12, "integral"); c.nontrivial(deg >= 1);
}
