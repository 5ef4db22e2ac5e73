#include "util.h"
#include "FEM/Controller/ShapeFunction.h"
using namespace PANSFEM2;
typedef std::vector<int> Exp;   // exponents of a monomial
struct Fam {
    const char* name; int d, n, dom; // dom 0: [-1,1]^d, 1: simplex
    std::function<dvec(const dvec&)> N; std::function<dmat(const dvec&)> dN; std::function<std::vector<dvec>()> P; std::vector<Exp> space;
};
template<template<class> class SF> static Fam fam(const char* name, int dom, std::vector<Exp> space) {
    Fam f; f.name = name; f.d = SF<double>::d; f.n = SF<double>::n; f.dom = dom; f.space = space;
    f.N = [](const dvec& r) { return ref(SF<double>::N(lib(r))); }; f.dN = [](const dvec& r) { return ref(SF<double>::dNdr(lib(r))); };
    f.P = []() { std::vector<dvec> p; for (auto& v : SF<double>::Points) p.push_back(ref(v)); return p; };
    return f;
}
// monomials whose degree, counting only the variables that occur beyond the first power, is at most k ("superlinear degree")
static std::vector<Exp> serendipity(int d, int k) { std::vector<Exp> o; int m = 1; for (int i = 0; i < d; i++) m *= 4; for (int q = 0; q < m; q++) { Exp e(d); int t = q, sl = 0; for (int i = 0; i < d; i++) { e[i] = t%4; t /= 4; if (e[i] > 1) sl += e[i]; } if (sl <= k) o.push_back(e); } return o; }
static std::vector<Exp> total(int d, int k) { std::vector<Exp> o; int m = 1; for (int i = 0; i < d; i++) m *= 4; for (int q = 0; q < m; q++) { Exp e(d); int t = q, s = 0; for (int i = 0; i < d; i++) { e[i] = t%4; t /= 4; s += e[i]; } if (s <= k) o.push_back(e); } return o; }
static const std::vector<Fam>& fams() {
    static std::vector<Fam> f = { fam<ShapeFunction2Line>("2Line", 0, total(1, 1)), fam<ShapeFunction3Line>("3Line", 0, total(1, 2)), fam<ShapeFunction3Triangle>("3Triangle", 1, total(2, 1)), fam<ShapeFunction6Triangle>("6Triangle", 1, total(2, 2)),
        fam<ShapeFunction4Square>("4Square", 0, serendipity(2, 1)), fam<ShapeFunction8Square>("8Square", 0, serendipity(2, 2)), fam<ShapeFunction4Tetrahedron>("4Tetrahedron", 1, total(3, 1)), fam<ShapeFunction8Cubic>("8Cubic", 0, serendipity(3, 1)), fam<ShapeFunction20Cubic>("20Cubic", 0, serendipity(3, 2)) };
    return f;
}
static dvec point(pbt::Src& s, const Fam& f) {
    dvec r(f.d); bool out = s.chance(1, 6);   // polynomials: the identities hold outside the element, too
    if (out) { for (auto& x : r) x = s.sreal(2.0); return r; }
    if (f.dom == 0) { for (auto& x : r) x = s.real(-1.0, 1.0); return r; }
    double left = 1; for (auto& x : r) { x = left*s.real(0.0, 1.0); left -= x; } return r;
}
static double mono(const Exp& e, const dvec& r) { double v = 1; for (size_t i = 0; i < e.size(); i++) for (int k = 0; k < e[i]; k++) v *= r[i]; return v; }
static double dmono(const Exp& e, const dvec& r, int k) { if (e[k] == 0) return 0; Exp q = e; q[k]--; return e[k]*mono(q, r); }

LAW(unity, 60000, 600000, "any point of any of the nine families: the functions sum to one, their derivatives to zero, shapes of the results; non-trivial unless the point is the origin") {
    const Fam& f = s.pick(fams()); dvec r = point(s, f); c.label(f.name); c.desc << f.name << " r=" << show(r); dvec N = f.N(r); dmat D = f.dN(r);
    c.check((int)N.size() == f.n && D.r == f.d && D.c == f.n, "shape of the result"); double t = 0, g = 1; for (double x : N) { t += x; g += std::fabs(x); } c.near(t, 1, g, 1e-13, "sum of the functions");
    for (int k = 0; k < f.d; k++) { double q = 0, h = 1; for (int i = 0; i < f.n; i++) { q += D(k, i); h += std::fabs(D(k, i)); } c.near(q, 0, h, 1e-13, "sum of the derivatives"); } c.nontrivial(nrm(r) > 0);
}
LAW(nodes, 3000, 20000, "every node of every family: one entry of the node list per function, inside the reference domain, distinct; function i is one at node i and zero at the others; always non-trivial") {
    const Fam& f = s.pick(fams()); auto P = f.P(); c.desc << f.name; c.label(f.name); c.check((int)P.size() == f.n, "the node list has " + std::to_string(P.size()) + " entries for " + std::to_string(f.n) + " functions");
    int i = s.range(0, f.n - 1); c.desc << " node " << i; c.check((int)P[i].size() == f.d, "dimension of a node"); dvec N = f.N(P[i]); for (int j = 0; j < f.n; j++) c.near(N[j], i == j ? 1 : 0, 1, 1e-13, "function " + std::to_string(j) + " at node " + std::to_string(i));
    double sum = 0; for (double x : P[i]) { sum += x; c.check(x <= 1 + 1e-15 && x >= (f.dom ? 0 : -1) - 1e-15, "node inside the domain"); } if (f.dom) c.check(sum <= 1 + 1e-15, "node inside the simplex"); c.nontrivial();
}
LAW(derivatives, 60000, 600000, "any point: the reported derivatives equal a fourth-order difference quotient of the functions, which is exact for these polynomials; non-trivial unless the point is the origin") {
    const Fam& f = s.pick(fams()); dvec r = point(s, f); c.label(f.name); c.desc << f.name << " r=" << show(r); dmat D = f.dN(r); double h = 0.25;
    for (int k = 0; k < f.d; k++) { auto at = [&](double t) { dvec q = r; q[k] += t; return f.N(q); }; dvec a = at(h), b = at(-h), a2 = at(2*h), b2 = at(-2*h); for (int i = 0; i < f.n; i++) { double q = (8*(a[i] - b[i]) - (a2[i] - b2[i]))/(12*h); c.near(D(k, i), q, 10 + std::fabs(q), 1e-12, "derivative of function " + std::to_string(i) + " in direction " + std::to_string(k)); } } c.nontrivial(nrm(r) > 0);
}
LAW(reproduction, 60000, 600000, "a random polynomial of the family's space (complete for triangles and tetrahedra, multilinear or serendipity for squares and cubes) through its nodal values: interpolated value and gradient are the polynomial's; non-trivial when a coefficient beyond the constant is non-zero") {
    const Fam& f = s.pick(fams()); dvec r = point(s, f); auto P = f.P(); c.label(f.name); if ((int)P.size() != f.n) P.resize(f.n); dvec co; for (size_t i = 0; i < f.space.size(); i++) co.push_back(s.sreal(2.0)); c.desc << f.name << " r=" << show(r) << " coefficients " << show(co);
    auto val = [&](const dvec& x) { double v = 0; for (size_t i = 0; i < co.size(); i++) v += co[i]*mono(f.space[i], x); return v; };
    dvec N = f.N(r); dmat D = f.dN(r); double v = 0, g = 1; dvec u(f.n); for (int i = 0; i < f.n; i++) { u[i] = val(P[i]); v += N[i]*u[i]; g += std::fabs(N[i]*u[i]); } c.near(v, val(r), g, 1e-12, "interpolated value");
    for (int k = 0; k < f.d; k++) { double q = 0, e = 0, h = 1; for (int i = 0; i < f.n; i++) { q += D(k, i)*u[i]; h += std::fabs(D(k, i)*u[i]); } for (size_t i = 0; i < co.size(); i++) e += co[i]*dmono(f.space[i], r, k); c.near(q, e, h, 1e-12, "interpolated gradient"); }
    double q = 0; for (size_t i = 1; i < co.size(); i++) q += std::fabs(co[i]); c.nontrivial(q > 0);
}
