#include "util.h"
#include "FEM/Controller/GaussIntegration.h"
#include "FEM/Controller/NewtonCotesIntegration.h"
using namespace PANSFEM2;
struct Rule { const char* name; int d, dom, deg; bool each; int N; std::vector<dvec> P, W; };   // exact for total degree deg, or (each) for degree deg in every variable
template<template<class> class Q> static Rule rule(const char* name, int d, int dom, int deg, bool each) {
    Rule r{name, d, dom, deg, each, Q<double>::N, {}, {}}; for (auto& v : Q<double>::Points) r.P.push_back(ref(v)); for (auto& v : Q<double>::Weights) r.W.push_back(v); return r;
}
static const std::vector<Rule>& rules() {
    static std::vector<Rule> r = { rule<Gauss1Line>("Gauss1Line", 1, 0, 1, true), rule<Gauss2Line>("Gauss2Line", 1, 0, 3, true), rule<Gauss1Triangle>("Gauss1Triangle", 2, 1, 1, false), rule<Gauss3Triangle>("Gauss3Triangle", 2, 1, 2, false),
        rule<Gauss1Square>("Gauss1Square", 2, 0, 1, true), rule<Gauss4Square>("Gauss4Square", 2, 0, 3, true), rule<Gauss9Square>("Gauss9Square", 2, 0, 5, true), rule<Gauss1Tetrahedron>("Gauss1Tetrahedron", 3, 1, 1, false),
        rule<Gauss8Cubic>("Gauss8Cubic", 3, 0, 3, true), rule<Gauss27Cubic>("Gauss27Cubic", 3, 0, 5, true),
        rule<NewtonCotes1Line>("NewtonCotes1Line", 1, 0, 1, true), rule<NewtonCotes3Line>("NewtonCotes3Line", 1, 0, 3, true), rule<NewtonCotes5Line>("NewtonCotes5Line", 1, 0, 5, true), rule<NewtonCotes7Line>("NewtonCotes7Line", 1, 0, 7, true) };
    return r;
}
static double fact(int n) { double f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }
static double exact(const Rule& r, const std::vector<int>& e) {
    if (r.dom == 0) { double v = 1; for (int k : e) v *= k%2 ? 0.0 : 2.0/(k + 1); return v; }
    double v = 1; int t = 0; for (int k : e) { v *= fact(k); t += k; } return v/fact(t + r.d);
}
static double weight(const Rule& r, int g) { double w = 1; for (double x : r.W[g]) w *= x; return w; }
static double mono(const std::vector<int>& e, const dvec& x) { double v = 1; for (size_t i = 0; i < e.size(); i++) for (int k = 0; k < e[i]; k++) v *= x[i]; return v; }
static std::vector<std::vector<int> > monomials(const Rule& r) { std::vector<std::vector<int> > o; int m = 1, b = r.deg + 1; for (int i = 0; i < r.d; i++) m *= b; for (int q = 0; q < m; q++) { std::vector<int> e(r.d); int t = q, sum = 0; for (auto& k : e) { k = t%b; t /= b; sum += k; } if (r.each || sum <= r.deg) o.push_back(e); } return o; }

LAW(structure, 2000, 10000, "each of the fourteen rules: as many points and weights as announced, points inside the closed domain, positive weights that sum to its measure; always non-trivial") {
    const Rule& r = s.pick(rules()); c.desc << r.name; c.label(r.name); c.check((int)r.P.size() == r.N && (int)r.W.size() == r.N, "number of points and weights"); double t = 0;
    for (int g = 0; g < r.N; g++) { c.check((int)r.P[g].size() == r.d && (int)r.W[g].size() == r.d, "dimension of a point or weight"); double sum = 0; for (double x : r.P[g]) { sum += x; c.check(x <= 1 && x >= (r.dom ? 0 : -1), "point inside the domain"); } if (r.dom) c.check(sum <= 1, "point inside the simplex"); c.check(weight(r, g) > 0, "positive weight"); t += weight(r, g); }
    c.near(t, exact(r, std::vector<int>(r.d, 0)), 1, 1e-13, "sum of the weights"); c.nontrivial();
}
LAW(polynomials, 60000, 600000, "a random polynomial up to the degree of the rule (per variable for the product rules, total for triangles and tetrahedra): exact integral; non-trivial when it has a term beyond the constant") {
    const Rule& r = s.pick(rules()); auto M = monomials(r); dvec co; c.label(r.name); bool single = s.chance(1, 3); int only = single ? s.range(0, (int)M.size() - 1) : -1; bool nt = false; for (size_t i = 0; i < M.size(); i++) { co.push_back(single ? (only == (int)i ? 1.0 : 0.0) : s.sreal(2.0)); if (i && co[i] != 0) nt = true; }
    c.desc << r.name << " coefficients " << show(co).substr(0, 200); double e = 0, q = 0, g = 1; for (size_t i = 0; i < M.size(); i++) { e += co[i]*exact(r, M[i]); for (size_t k = 0; k < r.P.size(); k++) { double v = co[i]*mono(M[i], r.P[k])*weight(r, (int)k); q += v; g += std::fabs(v); } }
    c.near(q, e, g, 1e-13, "integral"); c.nontrivial(nt);
}
