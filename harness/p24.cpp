#include "util.h"
#include <cmath>
#include <set>
#include <map>
#include "PrePost/Mesher/SquareMesh.h"
#include "PrePost/Mesher/SquareAnnulusMesh.h"
#include "PrePost/Mesher/AnnulusMesh.h"
#include "PrePost/Mesher/SquareCircleAnnulusMesh.h"
#include "PrePost/Mesher/GrandStructure.h"
using namespace PANSFEM2;
typedef std::vector<std::vector<int> > Cells; typedef std::vector<std::pair<std::pair<int, int>, double> > Fixed; typedef std::pair<int, int> Side;
static double cross(const dvec& a, const dvec& b, const dvec& p) { return (b[0] - a[0])*(p[1] - a[1]) - (b[1] - a[1])*(p[0] - a[0]); }
static std::vector<dvec> points(pbt::Ctx& c, std::vector<LVec> x) { std::vector<dvec> p; for (auto& v : x) { c.check(v.SIZE() == 2, "a node has two coordinates"); p.push_back(ref(v)); for (double t : p.back()) c.check(std::isfinite(t), "coordinate is not a number"); } return p; }
// Everything a conforming quadrilateral mesh of a domain of the given area must satisfy; returns the boundary sides, material on the left
static std::set<Side> conforming(pbt::Ctx& c, const std::vector<dvec>& p, const Cells& el, double area, double size) {
    int n = (int)p.size(); std::vector<char> used(n, 0); std::set<Side> sides; double total = 0; std::set<std::pair<long, long> > seen; for (auto& v : p) c.check(seen.insert({std::lround(v[0]/size*1e9), std::lround(v[1]/size*1e9)}).second, "two nodes at one place");
    for (auto& e : el) { c.check(e.size() >= 4, "an element has four corners"); double A = 0; for (int i = 0; i < 4; i++) { int a = e[i], b = e[(i + 1)%4], d = e[(i + 2)%4]; c.check(a >= 0 && a < n && b >= 0 && b < n && d >= 0 && d < n, "element names a node that does not exist"); used[a] = 1; c.check(cross(p[a], p[b], p[d]) > 1e-13*size*size, "element is not convex and positively oriented"); A += 0.5*(p[a][0]*p[b][1] - p[b][0]*p[a][1]); c.check(sides.insert({a, b}).second, "two elements on the same side of an edge"); } total += A; for (size_t i = 4; i < e.size(); i++) { c.check(e[i] >= 0 && e[i] < n, "element names a node that does not exist"); used[e[i]] = 1; } }
    c.near(total, area, area, 1e-10, "area of the elements"); for (char u : used) c.check(u, "a node belongs to no element"); std::set<Side> out; for (auto& q : sides) if (!sides.count({q.second, q.first})) out.insert(q); return out;
}
static void outline(pbt::Ctx& c, const Cells& edges, const std::set<Side>& want) { std::set<Side> got; for (auto& e : edges) { c.check(e.size() >= 2, "an edge has two ends"); c.check(got.insert({e[0], e[1]}).second, "an edge is listed twice"); c.check(want.count({e[0], e[1]}), "an edge that is not on the outline, or runs the wrong way round"); } c.check(got.size() == want.size(), "an edge of the outline is missing"); }
// predicates on coordinates with a margin: a case is rejected when a node lies on the border of the selection
struct Select { int kind; double u, v, w, t, X, Y; dvec o; bool margin = true; double f(const dvec& p) const { switch (kind) { case 0: return u*(p[0] - o[0]) + v*(p[1] - o[1]) - t; case 1: return std::fabs(p[0] - o[0]) - t; case 2: return std::fabs(p[1] - o[1]) - t; case 3: return std::max(std::fabs(p[0] - o[0]) - t, std::fabs(p[1] - o[1]) - w); case 4: return std::hypot(p[0] - o[0], p[1] - o[1]) - t; default: return kind == 5 ? 1.0 : -1.0; } } bool operator()(const dvec& p) const { return f(p) < 0; } };
static Select select(pbt::Src& s, pbt::Ctx& c, const std::vector<dvec>& p, double size) { Select q; q.kind = s.range(0, 6); const dvec& at = p[s.range(0, (int)p.size() - 1)]; q.o = at; double a = s.sreal(3.14159); q.u = std::cos(a); q.v = std::sin(a); bool thin = s.coin(); q.t = thin ? 1e-6*size : s.real(0.05, 0.9)*size; q.w = thin ? 1e-6*size : s.real(0.05, 0.9)*size; c.desc << " select " << q.kind << "@" << show(q.o) << " " << q.t << " " << q.w; for (auto& v : p) if (std::fabs(q.f(v)) < 1e-8*size) throw pbt::Reject(); return q; }
static std::vector<int> dofs(pbt::Src& s) { std::vector<int> p = s.permutation(4); p.resize(s.range(1, 4)); return p; }
static void fixedlist(pbt::Ctx& c, const Fixed& f, const std::vector<dvec>& p, const Select& q, const std::vector<int>& d) { std::set<Side> got; for (auto& e : f) { c.check(got.insert(e.first).second, "a condition is listed twice"); c.check(e.second == 0, "prescribed value is not zero"); c.check(e.first.first >= 0 && e.first.first < (int)p.size() && q(p[e.first.first]), "a condition on a node that was not selected"); c.check(std::find(d.begin(), d.end(), e.first.second) != d.end(), "a condition on another degree of freedom"); } size_t n = 0; for (auto& v : p) n += q(v) ? d.size() : 0; c.check(got.size() == n, "a selected node has no condition"); }
static void ids(pbt::Ctx& c, std::vector<int> got, const Cells& all, int corners, const std::vector<dvec>& p, const Select& q, const std::string& what) { std::set<int> want; for (size_t i = 0; i < all.size(); i++) { bool in = true; for (int k = 0; k < corners; k++) in = in && q(p[all[i][k]]); if (in) want.insert((int)i); } std::set<int> have(got.begin(), got.end()); c.check(have.size() == got.size(), what + " selected twice"); c.check(have == want, what + " selection is not exactly the ones inside"); }
#define PRED [&](LVec v) { return q(ref(v)); }
static void size_gen(pbt::Src& s, pbt::Ctx& c, double& X, double& Y) { X = s.coin() ? 1.0 : s.logreal(1e-6, 1e6); Y = s.chance(1, 3) ? X : X*s.real(0.3, 3); c.desc << X << "x" << Y; }
static std::set<double> values(const std::vector<dvec>& p, int k, double tol) { std::set<double> v; for (auto& q : p) { auto it = v.lower_bound(q[k] - tol); if (it == v.end() || *it > q[k] + tol) v.insert(q[k]); } return v; }
static void inside(pbt::Ctx& c, const std::vector<dvec>& p, double x0, double x1, double y0, double y1) { double t = 1e-12*(x1 - x0 + y1 - y0); for (auto& v : p) c.check(v[0] >= x0 - t && v[0] <= x1 + t && v[1] >= y0 - t && v[1] <= y1 + t, "node outside the domain"); }
static void on_box(pbt::Ctx& c, const std::set<Side>& b, const std::vector<dvec>& p, double x0, double x1, double y0, double y1) { double t = 1e-9*(x1 - x0 + y1 - y0); for (auto& e : b) { const dvec &u = p[e.first], &v = p[e.second]; bool ok = (std::fabs(u[0] - x0) < t && std::fabs(v[0] - x0) < t) || (std::fabs(u[0] - x1) < t && std::fabs(v[0] - x1) < t) || (std::fabs(u[1] - y0) < t && std::fabs(v[1] - y0) < t) || (std::fabs(u[1] - y1) < t && std::fabs(v[1] - y1) < t); c.check(ok, "a side without neighbour inside the domain"); } }
LAW(rectangle, 15000, 250000, "rectangles of any size with 1..7 x 1..7 (at times 40) cells: uniform grid, conforming, exact cover, outline edges, element, edge and node selections by half-planes, strips, boxes, discs, everything and nothing; non-trivial with two cells or more") {
    double X, Y; size_gen(s, c, X, Y); int nx = few(s, 1, 7, 40), ny = few(s, 1, 7, 40); c.desc << " " << nx << "x" << ny; SquareMesh<double> m(X, Y, nx, ny); auto p = points(c, m.GenerateNodes()); auto el = m.GenerateElements(); double h = X + Y; c.check((int)el.size() == nx*ny, "number of elements"); auto b = conforming(c, p, el, X*Y, h); inside(c, p, 0, X, 0, Y); on_box(c, b, p, 0, X, 0, Y); outline(c, m.GenerateEdges(), b);
    for (auto& e : el) { c.check(e.size() == 4, "four nodes"); for (int i = 0; i < 4; i++) { double dx = p[e[(i + 1)%4]][0] - p[e[i]][0], dy = p[e[(i + 1)%4]][1] - p[e[i]][1]; c.near(std::fabs(dx) + std::fabs(dy), i%2 ? Y/ny : X/nx, h, 1e-12, "cell size"); } }
    Select q = select(s, c, p, h); auto d = dofs(s); fixedlist(c, m.GenerateFixedlist(d, PRED), p, q, d); ids(c, m.GenerateElementIdsSelected(PRED), el, 4, p, q, "element"); ids(c, m.GenerateEdgeIdsSelected(PRED), m.GenerateEdges(), 2, p, q, "edge"); c.nontrivial(nx*ny >= 2);
}
LAW(quadratic, 15000, 250000, "rectangles of 8-node elements, 1..6 x 1..6 (at times 30) cells: corners conforming, side nodes at the middle of sides and shared by neighbours, no node left over, three-node outline edges, node selections; non-trivial with two cells or more") {
    double X, Y; size_gen(s, c, X, Y); int nx = few(s, 1, 6, 30), ny = few(s, 1, 6, 30); c.desc << " " << nx << "x" << ny; SquareMesh<double> m(X, Y, nx, ny); auto p = points(c, m.GenerateNodes2()); auto el = m.GenerateElements2(); double h = X + Y; auto b = conforming(c, p, el, X*Y, h); inside(c, p, 0, X, 0, Y); c.check((int)el.size() == nx*ny && (int)p.size() == (2*nx + 1)*(2*ny + 1) - nx*ny, "number of nodes and elements"); std::map<Side, int> mid;
    for (auto& e : el) { c.check(e.size() == 8, "eight nodes"); for (int i = 0; i < 4; i++) { int u = e[i], v = e[(i + 1)%4]; for (int k = 0; k < 2; k++) c.near(p[e[4 + i]][k], 0.5*(p[u][k] + p[v][k]), h, 1e-12, "side node"); Side key(std::min(u, v), std::max(u, v)); if (mid.count(key)) c.check(mid[key] == e[4 + i], "neighbours do not share the side node"); mid[key] = e[4 + i]; } }
    auto ed = m.GenerateEdges2(); outline(c, ed, b); for (auto& e : ed) { c.check(e.size() == 3, "three nodes per edge"); c.check(mid[Side(std::min(e[0], e[1]), std::max(e[0], e[1]))] == e[2], "middle node of an edge"); } Select q = select(s, c, p, h); auto d = dofs(s); fixedlist(c, m.GenerateFixedlist2(d, PRED), p, q, d); auto e1 = m.GenerateEdges(); c.check(e1.size() == ed.size(), "linear and quadratic edges"); for (size_t i = 0; i < ed.size(); i++) c.check(ed[i][0] == e1[i][0] && ed[i][1] == e1[i][1], "linear and quadratic edges in the same order"); c.nontrivial(nx*ny >= 2);
}
static void grading(pbt::Ctx& c, const std::set<double>& v, int n, double X, double r, double h) { c.check((int)v.size() == n + 1, "number of grid lines"); dvec x(v.begin(), v.end()); for (int i = 0; i <= n; i++) c.near(x[i], X - x[n - i], h, 1e-10, "grid is symmetric"); for (int i = 0; i + 2 <= n/2; i++) c.near(x[i + 2] - x[i + 1], r*(x[i + 1] - x[i]), h, 1e-10, "grading ratio"); }
LAW(graded, 15000, 250000, "graded rectangles, 1..8 x 1..8 (at times 20) cells (odd and even), ratios 0.6..1.6: conforming, exact cover, symmetric with the given ratio between neighbouring cells, outline, node selections; non-trivial with three cells along a direction") {
    double X, Y; size_gen(s, c, X, Y); int nx = few(s, 1, 8, 20), ny = few(s, 1, 8, 20); double rx = s.coin() ? s.real(1.03, 1.6) : s.real(0.6, 0.97), ry = s.coin() ? s.real(1.03, 1.6) : s.real(0.6, 0.97); c.desc << " " << nx << "x" << ny << " r=" << rx << "," << ry; SquareMesh2<double> m(X, Y, nx, ny, rx, ry); auto p = points(c, m.GenerateNodes()); auto el = m.GenerateElements(); double h = X + Y; auto b = conforming(c, p, el, X*Y, h); inside(c, p, 0, X, 0, Y); on_box(c, b, p, 0, X, 0, Y); outline(c, m.GenerateEdges(), b); c.check((int)el.size() == nx*ny, "number of elements");
    grading(c, values(p, 0, 1e-9*h), nx, X, rx, h); grading(c, values(p, 1, 1e-9*h), ny, Y, ry, h); Select q = select(s, c, p, h); auto d = dofs(s); fixedlist(c, m.GenerateFixedlist(d, PRED), p, q, d); c.nontrivial(nx >= 3 || ny >= 3);
}
static bool on_ring(const dvec& u, const dvec& v, double x, double y, double t) { return (std::fabs(std::fabs(u[0]) - x/2) < t && std::fabs(u[0] - v[0]) < t) || (std::fabs(std::fabs(u[1]) - y/2) < t && std::fabs(u[1] - v[1]) < t); }
LAW(frame, 15000, 250000, "rectangle with a rectangular hole (any proportions), 1..5 x 1..5 (at times 20) cells round and 1..4 (at times 15) layers: conforming, exact cover of the frame, both outlines, node selections; non-trivial with more than the minimum of cells") {
    double X, Y; size_gen(s, c, X, Y); double a = X*s.real(0.1, 0.9), b = Y*s.real(0.1, 0.9); int nx = few(s, 1, 5, 20), ny = few(s, 1, 5, 20), nt = few(s, 1, 4, 15); c.desc << " hole " << a << "x" << b << " " << nx << "," << ny << "," << nt; SquareAnnulusMesh<double> m(X, Y, a, b, nx, ny, nt); auto p = points(c, m.GenerateNodes()); auto el = m.GenerateElements(); double h = X + Y; auto o = conforming(c, p, el, X*Y - a*b, h); c.check((int)el.size() == 2*(nx + ny)*nt, "number of elements"); inside(c, p, -X/2, X/2, -Y/2, Y/2); for (auto& v : p) c.check(!(std::fabs(v[0]) < a/2 - 1e-9*h && std::fabs(v[1]) < b/2 - 1e-9*h), "node in the hole");
    for (auto& e : o) c.check(on_ring(p[e.first], p[e.second], X, Y, 1e-9*h) || on_ring(p[e.first], p[e.second], a, b, 1e-9*h), "a side without neighbour inside the domain"); outline(c, m.GenerateEdges(), o); Select q = select(s, c, p, h); auto d = dofs(s); fixedlist(c, m.GenerateFixedlist(d, PRED), p, q, d); c.nontrivial(nx + ny + nt > 3);
}
LAW(grid_with_hole, 15000, 250000, "rectangular grids with a central rectangular hole of nv x nw cells left out: conforming, exact cover, all cells equal, the outer outline, node selections; non-trivial with a hole of more than one cell") {
    double X, Y; size_gen(s, c, X, Y); int nv = few(s, 1, 4, 15), nw = few(s, 1, 4, 15), ex = few(s, 1, 3, 8), ey = few(s, 1, 3, 8), nx = nv + 2*ex, ny = nw + 2*ey; c.desc << " " << nx << "x" << ny << " hole " << nv << "x" << nw; SquareAnnulusMesh2<double> m(X, Y, nx, ny, nv, nw); auto p = points(c, m.GenerateNodes()); auto el = m.GenerateElements(); double h = X + Y; auto o = conforming(c, p, el, X*Y*(1 - (double)nv*nw/(nx*ny)), h); c.check((int)el.size() == nx*ny - nv*nw, "number of elements"); inside(c, p, 0, X, 0, Y);
    double x0 = X*ex/nx, x1 = X*(ex + nv)/nx, y0 = Y*ey/ny, y1 = Y*(ey + nw)/ny; for (auto& v : p) c.check(!(v[0] > x0 + 1e-9*h && v[0] < x1 - 1e-9*h && v[1] > y0 + 1e-9*h && v[1] < y1 - 1e-9*h), "node in the hole"); for (auto& e : el) c.near(0.5*std::fabs(cross(p[e[0]], p[e[1]], p[e[2]]))*2, X*Y/(nx*ny), h*h, 1e-12, "cell area"); std::set<Side> outer, inner; double t = 1e-9*h; for (auto& e : o) { const dvec &u = p[e.first], &v = p[e.second]; bool out = (std::fabs(u[0] - v[0]) < t && (u[0] < t || u[0] > X - t)) || (std::fabs(u[1] - v[1]) < t && (u[1] < t || u[1] > Y - t)); (out ? outer : inner).insert(e); }
    c.check((int)outer.size() == 2*(nx + ny) && (int)inner.size() == 2*(nv + nw), "sides of the outlines"); outline(c, m.GenerateEdges(), outer); Select q = select(s, c, p, h); auto d = dofs(s); fixedlist(c, m.GenerateFixedlist(d, PRED), p, q, d); c.nontrivial(nv*nw > 1);
}
LAW(ring, 15000, 250000, "annuli with 1..5 (at times 20) layers and 3..24 (at times 120) sectors: nodes on concentric equidistant circles, conforming, exact cover of the polygonal ring, both outlines, node selections; non-trivial with two layers or more") {
    double r1 = s.coin() ? 1.0 : s.logreal(1e-6, 1e6), r0 = r1*s.real(0.05, 0.95); int nr = few(s, 1, 5, 20), nt = few(s, 3, 24, 120); c.desc << "radii " << r0 << "," << r1 << " " << nr << "x" << nt; AnnulusMesh<double> m(r0, r1, nr, nt); auto p = points(c, m.GenerateNodes()); auto el = m.GenerateElements(); double area = 0.5*nt*std::sin(2*M_PI/nt)*(r1*r1 - r0*r0); auto o = conforming(c, p, el, area, r1); c.check((int)el.size() == nr*nt && (int)p.size() == (nr + 1)*nt, "number of nodes and elements");
    for (auto& v : p) { double k = (std::hypot(v[0], v[1]) - r0)/(r1 - r0)*nr; c.near(k, std::round(k), 1, 1e-9, "radius"); c.check(k > -1e-6 && k < nr + 1e-6, "radius outside"); } for (auto& e : o) { double a = std::hypot(p[e.first][0], p[e.first][1]), b = std::hypot(p[e.second][0], p[e.second][1]); c.near(a, b, r1, 1e-12, "outline"); c.check(std::fabs(a - r0) < 1e-9*r1 || std::fabs(a - r1) < 1e-9*r1, "a side without neighbour inside the ring"); c.near(std::hypot(p[e.first][0] - p[e.second][0], p[e.first][1] - p[e.second][1]), 2*a*std::sin(M_PI/nt), r1, 1e-12, "sectors are equal"); } outline(c, m.GenerateEdges(), o); Select q = select(s, c, p, r1); auto d = dofs(s); fixedlist(c, m.GenerateFixedlist(d, PRED), p, q, d); c.nontrivial(nr >= 2);
}
LAW(plate_with_hole, 15000, 250000, "rectangle (sides 3:4 to 4:3) with a circular hole, balanced subdivisions, 1..4 layers, grading exponent 0.5..2: conforming, exact cover between rectangle and polygonal hole, both outlines, node selections; non-trivial with two layers or more") {
    double X = s.coin() ? 1.0 : s.logreal(1e-6, 1e6), Y = X*(s.coin() ? 1.0 : s.real(0.75, 1.33)), r = 0.5*std::min(X, Y)*s.real(0.1, 0.7), e = s.real(0.5, 2.0); int nx = few(s, 1, 6, 20), ny = std::max(1, nx + s.range(0, 2) - 1), nr = few(s, 1, 4, 15); if (std::max(nx, ny) > 1.6*std::min(nx, ny)) ny = nx; c.desc << X << "x" << Y << " hole " << r << " " << nx << "," << ny << "," << nr << " p=" << e; SquareCircleAnnulusMesh<double> m(X, Y, r, e, nx, ny, nr); auto p = points(c, m.GenerateNodes()); auto el = m.GenerateElements(); int nt = 2*(nx + ny); double h = X + Y; auto o = conforming(c, p, el, X*Y - 0.5*nt*std::sin(2*M_PI/nt)*r*r, h);
    c.check((int)el.size() == nt*nr && (int)p.size() == nt*(nr + 1), "number of nodes and elements"); inside(c, p, -X/2, X/2, -Y/2, Y/2); for (auto& q : o) { const dvec &u = p[q.first], &v = p[q.second]; bool in = std::fabs(std::hypot(u[0], u[1]) - r) < 1e-9*h && std::fabs(std::hypot(v[0], v[1]) - r) < 1e-9*h; c.check(in || on_ring(u, v, X, Y, 1e-9*h), "a side without neighbour inside the domain"); } outline(c, m.GenerateEdges(), o); Select q = select(s, c, p, h); auto d = dofs(s); fixedlist(c, m.GenerateFixedlist(d, PRED), p, q, d); c.nontrivial(nr >= 2);
}
LAW(ground_structure, 10000, 150000, "ground structures on 1..5 x 1..5 (at times 10 x 10) grids with any maximal length: the bars are exactly the pairs of different nodes closer than the length, each once; node selections; non-trivial when some but not all pairs are joined") {
    double X, Y; size_gen(s, c, X, Y); int nx = few(s, 1, 5, 10), ny = few(s, 1, 5, 10); double l = std::hypot(X, Y)*s.real(0.02, 1.1); c.desc << " " << nx << "x" << ny << " lmax=" << l; GrandStructure2D<double> m(X, Y, nx, ny, l); auto p = points(c, m.GenerateNodes()); auto el = m.GenerateElements(); double h = X + Y; c.check((int)p.size() == (nx + 1)*(ny + 1), "number of nodes"); inside(c, p, 0, X, 0, Y); c.check((int)values(p, 0, 1e-9*h).size() == nx + 1 && (int)values(p, 1, 1e-9*h).size() == ny + 1, "grid lines"); std::set<Side> want, got; for (int i = 0; i < (int)p.size(); i++) for (int j = i + 1; j < (int)p.size(); j++) { double d = std::hypot(p[i][0] - p[j][0], p[i][1] - p[j][1]); c.check(d > 1e-9*h, "two nodes at one place"); if (std::fabs(d - l) < 1e-9*h) throw pbt::Reject(); if (d < l) want.insert({i, j}); }
    for (auto& e : el) { c.check(e.size() == 2, "two ends"); c.check(got.insert({std::min(e[0], e[1]), std::max(e[0], e[1])}).second, "a bar is listed twice"); } c.check(got == want, "bars are not exactly the pairs within the length"); Select q = select(s, c, p, h); auto d = dofs(s); fixedlist(c, m.GenerateFixedlist(d, PRED), p, q, d); c.nontrivial(!want.empty() && want.size() < p.size()*(p.size() - 1)/2);
}
