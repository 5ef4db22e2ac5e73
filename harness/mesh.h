// Random two-dimensional meshes out of the library's meshers, distorted, split into triangles and renumbered.
#pragma once
#include <cmath>
#include "geom.h"
#include "PrePost/Mesher/SquareMesh.h"
#include "PrePost/Mesher/SquareAnnulusMesh.h"
struct Mesh { Kind kind; std::vector<LVec> x; std::vector<std::vector<int> > el; double X, Y; bool hole = false, regular = true; int nx, ny; dvec lo, hi; };
inline dvec at(const Mesh& m, int i) { return ref(m.x[i]); }
inline bool on_outline(const Mesh& m, const dvec& p) { double t = 1e-9*(m.X + m.Y); return std::fabs(p[0] - m.lo[0]) < t || std::fabs(p[0] - m.hi[0]) < t || std::fabs(p[1] - m.lo[1]) < t || std::fabs(p[1] - m.hi[1]) < t; }
inline Geo element_geo(const Mesh& m, const std::vector<int>& e) { Geo g; g.kind = m.kind; g.d = 2; g.n = (int)e.size(); for (int i : e) g.p.push_back(at(m, i)); return g; }
// source: 0 regular, 1 graded, 2 with a hole; distorted: interior nodes move; kind: QUAD4, QUAD8, TRI3, TRI6
inline Mesh mesh(pbt::Src& s, pbt::Ctx& c, Kind kind, int maxn, bool holes, bool distorted, bool renumber, int fixnx = 0, int fixny = 0) {
    Mesh m; m.kind = kind; m.X = s.coin() ? 1.0 : s.logreal(1e-5, 1e5); m.Y = m.X*(s.coin() ? 1.0 : s.real(0.5, 2.0)); m.nx = fixnx ? fixnx : s.range(1, maxn); m.ny = fixny ? fixny : s.range(1, maxn); bool quad8 = kind == QUAD8; int src = fixnx ? 0 : s.range(0, 2); if (src == 2 && (!holes || quad8)) src = 0; if (src == 1 && quad8) src = 0;
    double rx = 1, ry = 1; m.lo = {0, 0}; m.hi = {m.X, m.Y};
    if (quad8) { PANSFEM2::SquareMesh<double> q(m.X, m.Y, m.nx, m.ny); m.x = q.GenerateNodes2(); m.el = q.GenerateElements2(); }
    else if (src == 0) { PANSFEM2::SquareMesh<double> q(m.X, m.Y, m.nx, m.ny); m.x = q.GenerateNodes(); m.el = q.GenerateElements(); }
    else if (src == 1) { rx = s.real(1.05, 1.4); ry = s.real(1.05, 1.4); PANSFEM2::SquareMesh2<double> q(m.X, m.Y, m.nx, m.ny, rx, ry); m.x = q.GenerateNodes(); m.el = q.GenerateElements(); m.regular = false; }
    else { int nx = s.range(1, maxn), ny = s.range(1, maxn), nt = s.range(1, 2); m.nx = nx; m.ny = ny; PANSFEM2::SquareAnnulusMesh<double> q(m.X, m.Y, m.X*s.real(0.3, 0.6), m.Y*s.real(0.3, 0.6), nx, ny, nt); m.x = q.GenerateNodes(); m.el = q.GenerateElements(); m.hole = true; m.regular = false; m.lo = {-m.X/2, -m.Y/2}; m.hi = {m.X/2, m.Y/2}; }
    c.desc << (m.hole ? "frame " : src == 1 ? "graded " : "grid ") << m.X << "x" << m.Y << " " << m.nx << "x" << m.ny;
    int corners = (int)m.x.size(); if (quad8) corners = (m.nx + 1)*(m.ny + 1);
    if (distorted && s.chance(3, 4)) { m.regular = false; c.desc << " distorted"; double h = 1e300; for (auto& e : m.el) for (int i = 0; i < 4; i++) h = std::min(h, nrm(add(at(m, e[i]), at(m, e[(i + 1)%4]), -1))); for (int i = 0; i < corners; i++) { dvec p = at(m, i); if (on_outline(m, p)) continue; p[0] += 0.2*h*s.sreal(1.0); p[1] += 0.2*h*s.sreal(1.0); m.x[i] = lib(p); } }
    if (quad8) for (auto& e : m.el) for (int i = 0; i < 4; i++) m.x[e[4 + i]] = lib(scale(add(at(m, e[i]), at(m, e[(i + 1)%4])), 0.5));
    if (kind == TRI3 || kind == TRI6) { std::vector<std::vector<int> > t; for (auto& e : m.el) { if (s.coin()) { t.push_back({e[0], e[1], e[2]}); t.push_back({e[2], e[3], e[0]}); } else { t.push_back({e[1], e[2], e[3]}); t.push_back({e[3], e[0], e[1]}); } } m.el = t; }
    if (kind == TRI6) { std::map<std::pair<int, int>, int> mid; for (auto& e : m.el) { std::vector<int> f = e; for (int i = 0; i < 3; i++) { int a = e[i], b = e[(i + 1)%3]; auto key = std::make_pair(std::min(a, b), std::max(a, b)); auto it = mid.find(key); if (it == mid.end()) { it = mid.insert({key, (int)m.x.size()}).first; m.x.push_back(lib(scale(add(at(m, a), at(m, b)), 0.5))); } f.push_back(it->second); } e = f; } }
    if (renumber && s.coin()) { std::vector<int> p = s.permutation((int)m.x.size()); std::vector<LVec> y(m.x.size()); for (size_t i = 0; i < p.size(); i++) y[p[i]] = m.x[i]; m.x = y; for (auto& e : m.el) for (auto& i : e) i = p[i]; std::vector<int> q = s.permutation((int)m.el.size()); auto z = m.el; for (size_t i = 0; i < q.size(); i++) z[q[i]] = m.el[i]; m.el = z; m.nx = m.ny = 0; c.desc << " renumbered"; }
    for (auto& e : m.el) if (!(mindet(element_geo(m, e)) > 0.05)) throw pbt::Reject();
    c.desc << " of " << m.el.size() << " " << KIND[kind] << " on " << m.x.size() << " nodes; "; c.label(std::string(KIND[kind]) + (m.hole ? " hole" : "")); return m;
}
