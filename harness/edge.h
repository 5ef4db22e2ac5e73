// Random straight or curved edges of 2 or 3 nodes, and vector loads
#pragma once
#include <cassert>
#include "geom.h"
#include "FEM/Controller/NewtonCotesIntegration.h"
using namespace PANSFEM2;
static double cross(const dvec& a, const dvec& b) { return a[0]*b[1] - a[1]*b[0]; }
struct Field { dvec a; dmat G; dvec q; dvec operator()(const dvec& x) const { dvec v = add(mul(G, x), a); for (int i = 0; i < 2; i++) v[i] += q[i]*x[0]*x[1]; return v; } bool linear() const { return q[0] == 0 && q[1] == 0; } };
static Field field(pbt::Src& s) { Field f; f.a = {s.sreal(2.0), s.sreal(2.0)}; f.G = dmat(2, 2); f.q = {0, 0}; int k = s.range(0, 2); if (k) for (auto& v : f.G.v) v = s.sreal(1.0); if (k == 2) f.q = {s.sreal(1.0), s.sreal(1.0)}; return f; }
struct Edge { int n; std::vector<dvec> p; std::vector<LVec> x; std::vector<int> el; bool straight; };
static Edge edge(pbt::Src& s, pbt::Ctx& c) { Edge e; e.n = s.range(2, 3); double h = s.chance(1, 4) ? s.logreal(1e-6, 1e6) : 1.0; double far = std::min(3.0, 300*h); dvec a = {s.sreal(far), s.sreal(far)}; dmat R = rot2(s.sreal(3.14159)); dvec d = mul(R, dvec{h*s.real(0.5, 2.0), 0.0}); e.p = {a, add(a, d)}; e.straight = true; if (e.n == 3) { dvec mid = add(a, d, 0.5); if (s.coin()) { e.straight = false; mid = add(mid, dvec{h*s.sreal(0.1), h*s.sreal(0.1)}); } e.p.push_back(mid); }
    int ex = s.range(0, 2); std::vector<int> q = s.permutation(e.n + ex); e.x.assign(e.n + ex, LVec(2)); e.el.resize(e.n); for (int i = 0; i < e.n + ex; i++) { if (i < e.n) { e.el[i] = q[i]; e.x[q[i]] = lib(e.p[i]); } else { e.x[q[i]](0) = 9; e.x[q[i]](1) = -9; } } c.desc << "edge"; for (auto& v : e.p) c.desc << " " << show(v); c.desc << " as " << pbt::show(e.el) << " "; return e; }
#define WITH_EDGE(n, r, M) if (n == 2) { if (r == 0) M(ShapeFunction2Line, Gauss1Line) else if (r == 1) M(ShapeFunction2Line, Gauss2Line) else M(ShapeFunction2Line, NewtonCotes5Line) } else { if (r <= 1) M(ShapeFunction3Line, Gauss2Line) else M(ShapeFunction3Line, NewtonCotes5Line) }
struct LPt { dvec N, x, tan; double w; };
template<template<class> class IC> static std::vector<LPt> lrule(const Edge& e, const std::vector<dvec>& pos) { std::vector<LPt> o; for (int q = 0; q < IC<double>::N; q++) { LPt p; dvec dN; shape_line(e.n, ref(IC<double>::Points[q])[0], p.N, dN); p.x = {0, 0}; p.tan = {0, 0}; for (int i = 0; i < e.n; i++) { p.x = add(p.x, pos[i], p.N[i]); p.tan = add(p.tan, pos[i], dN[i]); } p.w = IC<double>::Weights[q][0]; o.push_back(p); } return o; }
