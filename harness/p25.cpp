#include <cassert>
#include "util.h"
#include <set>
#include "PrePost/Mesher/Delaunay.h"
using namespace PANSFEM2;
typedef std::pair<int, int> Side; typedef std::vector<int> Ring;
struct Shape { std::vector<dvec> p; std::vector<Ring> outer, inner; double area = 0, perimeter = 0; };     // rings index p; outer rings clockwise, holes counter-clockwise, as the library's sample lists them
static double cross(const dvec& a, const dvec& b, const dvec& q) { return (b[0] - a[0])*(q[1] - a[1]) - (b[1] - a[1])*(q[0] - a[0]); }
static double dist(const dvec& a, const dvec& b) { return std::hypot(a[0] - b[0], a[1] - b[1]); }
static std::vector<dvec> placed(pbt::Src& s, std::vector<dvec> p, bool turn) { double scale = s.coin() ? 1.0 : s.logreal(1e-9, 1e9), far = s.chance(1, 5) ? 100 : 4, x = s.coin() ? 0.0 : s.real(-far, far), y = s.coin() ? 0.0 : s.real(-far, far), t = !turn || s.coin() ? 0.0 : s.sreal(3.1416); for (auto& q : p) q = {scale*(x + q[0]*std::cos(t) - q[1]*std::sin(t)), scale*(y + q[0]*std::sin(t) + q[1]*std::cos(t))}; return p; }
// adds a counter-clockwise ring of points to the shape as an outline or as a hole
static void add(pbt::Src& s, Shape& h, const std::vector<dvec>& ring, bool hole) {
    int n0 = (int)h.p.size(), n = (int)ring.size(), shift = s.range(0, n - 1); Ring ids; double a = 0; for (int i = 0; i < n; i++) { h.p.push_back(ring[i]); ids.push_back(n0 + i); const dvec &u = ring[i], &v = ring[(i + 1)%n]; a += 0.5*cross({0, 0}, u, v); h.perimeter += dist(u, v); }
    std::rotate(ids.begin(), ids.begin() + shift, ids.end()); if (hole) { h.area -= a; h.inner.push_back(ids); } else { std::reverse(ids.begin(), ids.end()); h.area += a; h.outer.push_back(ids); }
}
// every outline side can be seen: none of the corners of its own and of the earlier rings inside the circle that has the side as its diameter
static bool visible(const Shape& h) { std::vector<int> seen; auto ok = [&](const Ring& r) { int n = (int)r.size(); seen.insert(seen.end(), r.begin(), r.end()); for (int i = 0; i < n; i++) { const dvec &a = h.p[r[i]], &b = h.p[r[(i + 1)%n]]; for (int k : seen) if (k != r[i] && k != r[(i + 1)%n] && (a[0] - h.p[k][0])*(b[0] - h.p[k][0]) + (a[1] - h.p[k][1])*(b[1] - h.p[k][1]) < 1e-3*dist(a, b)*dist(a, b)) return false; } return true; }; for (auto& r : h.outer) if (!ok(r)) return false; for (auto& r : h.inner) if (!ok(r)) return false; return true; }
static void judge(pbt::Src& s, pbt::Ctx& c, Shape h, double lo = 0.15, double hi = 0.8) {
    double size = std::sqrt(h.area), hmax = size*s.real(lo, hi); std::vector<LVec> x; 
    // corners that no ring mentions do not take part
    int extra = s.chance(1, 4) ? s.range(1, 3) : 0; for (int k = 0; k < extra; k++) { int at = s.range(0, (int)h.p.size()); h.p.insert(h.p.begin() + at, dvec{size*s.real(-1, 1), size*s.real(-1, 1)}); for (auto* rs : {&h.outer, &h.inner}) for (auto& r : *rs) for (int& i : r) if (i >= at) i++; }
    for (auto& q : h.p) { LVec v(2); v(0) = q[0]; v(1) = q[1]; x.push_back(v); } c.desc << " h=" << hmax << " unused=" << extra; for (auto& q : h.p) c.desc << " " << show(q);
    PANSFEM2::Delaunay<double> m(x, h.outer, h.inner, hmax); auto nodes = m.GenerateNodes(); auto el = m.GenerateElements(); auto ed = m.GenerateEdges(); std::vector<dvec> p; for (auto& v : nodes) { c.check(v.SIZE() == 2, "a node has two coordinates"); p.push_back(ref(v)); c.check(std::isfinite(p.back()[0]) && std::isfinite(p.back()[1]), "coordinate is not a number"); }
    int n = (int)p.size(); std::set<Side> sides; double A = 0, longest = 0; std::vector<char> used(n, 0);
    for (auto& e : el) { c.check(e.size() == 3, "three corners"); for (int i : e) { c.check(i >= 0 && i < n, "element names a node that does not exist"); used[i] = 1; } double a = 0.5*cross(p[e[0]], p[e[1]], p[e[2]]); c.check(a > 0, "triangle is not positively oriented"); A += a; for (int i = 0; i < 3; i++) { c.check(sides.insert({e[i], e[(i + 1)%3]}).second, "two triangles on the same side of an edge"); longest = std::max(longest, dist(p[e[i]], p[e[(i + 1)%3]])); } }
    c.near(A, h.area, h.area, 1e-9, "area covered"); for (char u : used) c.check(u, "a node belongs to no triangle"); c.check(longest <= 1.5*hmax, "a side is longer than asked for");
    std::set<Side> border, listed; double L = 0; for (auto& q : sides) if (!sides.count({q.second, q.first})) { border.insert(q); L += dist(p[q.first], p[q.second]); } c.near(L, h.perimeter, h.perimeter, 1e-9, "length of the boundary");
    for (auto& e : ed) { c.check(e.size() == 2, "an edge has two ends"); c.check(border.count({e[0], e[1]}), "an edge that is not on the boundary, or runs the wrong way round"); c.check(listed.insert({e[0], e[1]}).second, "an edge is listed twice"); } c.check(listed.size() == border.size(), "an edge of the boundary is missing");
    // every side of the boundary lies on a side of the outline, every corner of the outline is a node
    std::vector<std::pair<dvec, dvec> > segs; for (auto* rs : {&h.outer, &h.inner}) for (auto& r : *rs) for (size_t i = 0; i < r.size(); i++) segs.push_back({h.p[r[i]], h.p[r[(i + 1)%r.size()]]});
    for (auto& q : border) { bool on = false; for (auto& g : segs) on = on || (std::fabs(dist(g.first, p[q.first]) + dist(p[q.first], g.second) - dist(g.first, g.second)) < 1e-9*size && std::fabs(dist(g.first, p[q.second]) + dist(p[q.second], g.second) - dist(g.first, g.second)) < 1e-9*size); c.check(on, "a boundary side away from the outline"); }
    for (auto& g : segs) { bool found = false; for (auto& v : p) found = found || dist(v, g.first) < 1e-12*size; c.check(found, "a corner of the outline is no node"); }
    double bx = s.real(-1, 1)*size + p[0][0]; auto q = [&](LVec v) { return v(0) < bx; }; for (auto& v : p) if (std::fabs(v[0] - bx) < 1e-9*size) throw pbt::Reject(); auto f = m.GenerateFixedlist({0, 2}, q); std::set<Side> got; for (auto& e : f) { c.check(e.second == 0 && e.first.first >= 0 && e.first.first < n && p[e.first.first][0] < bx && (e.first.second == 0 || e.first.second == 2), "a condition that was not asked for"); c.check(got.insert(e.first).second, "a condition is listed twice"); } size_t want = 0; for (auto& v : p) want += v[0] < bx ? 2 : 0; c.check(got.size() == want, "a selected node has no condition"); c.nontrivial(n > (int)h.p.size() - extra);
}
LAW(convex, 4000, 80000, "convex polygons with 3..9 corners (regular or irregular, stretched), any place, scale and first corner, mesh sizes 0.15..0.8 of the domain, points that no outline uses: positive triangles, exact cover, no cracks, edges = boundary, sides within the size, all corners kept, node selections; non-trivial when nodes are added") {
    int k = s.range(3, 9); double r = s.chance(1, 3) ? 0.0 : 0.3, st = s.coin() ? 1.0 : s.real(0.5, 1.0), w0 = s.coin() ? M_PI/2*s.range(-2, 2) : s.sreal(3.1416); std::vector<dvec> p; for (int i = 0; i < k; i++) { double w = w0 + (i + r*s.real(-1, 1))*2*M_PI/k; p.push_back({std::cos(w), st*std::sin(w)}); } Shape h; add(s, h, placed(s, p, true), false); if (!visible(h)) throw pbt::Reject(); c.desc << "convex"; judge(s, c, h);
}
LAW(star, 4000, 80000, "star-shaped polygons with 4..12 corners, concave ones and corners on a grid included, whose sides can be seen, the same checks; non-trivial when nodes are added") {
    int k = s.range(4, 12); double lo = s.coin() ? 0.5 : 0.3; std::vector<dvec> p; for (int i = 0; i < k; i++) { double w = (i + s.real(-0.3, 0.3))*2*M_PI/k, r = s.real(lo, 1); p.push_back({r*std::cos(w), r*std::sin(w)}); } if (s.chance(1, 3)) { for (auto& q : p) for (auto& y : q) y = std::round(y*4)/4; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (i != j && dist(p[i], p[j]) < 0.1) throw pbt::Reject(); double a = 0; for (int i = 0; i < k; i++) { if (p[i][0] == 0 && p[i][1] == 0) throw pbt::Reject(); if (!(cross({0, 0}, p[i], p[(i + 1)%k]) > 0)) throw pbt::Reject(); } c.label("on a grid"); } Shape h; add(s, h, placed(s, p, true), false); if (!visible(h)) throw pbt::Reject(); bool concave = false; for (int i = 0; i < k; i++) concave = concave || cross(p[i], p[(i + 1)%k], p[(i + 2)%k]) < 0; c.label(concave ? "concave" : "convex"); c.desc << "star"; judge(s, c, h);
}
LAW(rectangle, 4000, 80000, "rectangles with corners and further outline points (collinear) whose sides can be seen, the same checks; non-trivial when nodes are added") {
    int k = s.range(1, 4), l = s.range(1, 4); double X = s.real(0.5, 2), Y = s.real(0.5, 2); auto cut = [&](int n) { dvec t(n + 1); for (int i = 0; i <= n; i++) t[i] = (double)i/n; return t; }; dvec a = cut(k), b = cut(s.coin() ? k : s.range(1, 4)), d = cut(l), e = cut(s.coin() ? l : s.range(1, 4)); std::vector<dvec> p; for (size_t i = 0; i + 1 < a.size(); i++) p.push_back({X*a[i], 0}); for (size_t i = 0; i + 1 < d.size(); i++) p.push_back({X, Y*d[i]}); for (size_t i = b.size() - 1; i > 0; i--) p.push_back({X*b[i], Y}); for (size_t i = e.size() - 1; i > 0; i--) p.push_back({0, Y*e[i]});
    Shape h; add(s, h, placed(s, p, false), false); if (!visible(h)) throw pbt::Reject(); c.desc << "rectangle"; judge(s, c, h);
}
LAW(l_shape, 4000, 80000, "L-shaped polygons with legs of 0.3..0.7 of the sides and the outer corner at the origin, the same checks; non-trivial when nodes are added") {
    double X = s.real(1, 3), Y = s.real(1, 3), x = X*s.real(0.3, 0.7), y = Y*s.real(0.3, 0.7), sc = s.coin() ? 1.0 : s.logreal(1e-9, 1e9); std::vector<dvec> p = {{0, 0}, {X, 0}, {X, y}, {x, y}, {x, Y}, {0, Y}}; for (auto& q : p) { q[0] *= sc; q[1] *= sc; } Shape h; add(s, h, p, false); c.desc << "L"; judge(s, c, h);
}
LAW(holes, 3000, 60000, "rectangles with 1..3 x 1..2 regular holes of 3..7 corners, the same checks (cover of the region outside the holes, both kinds of boundary); non-trivial when nodes are added") {
    int k = s.range(1, 3), l = s.range(1, 2); bool even = s.chance(1, 3); double X = k*(even ? 1.0 : s.real(0.8, 1.3)), Y = l*(even ? 1.0 : s.real(0.8, 1.3)), x0 = s.coin() ? 0.0 : s.real(-2, 2), y0 = s.coin() ? 0.0 : s.real(-2, 2); Shape h; add(s, h, {{x0, y0}, {x0 + X, y0}, {x0 + X, y0 + Y}, {x0, y0 + Y}}, false);
    for (int i = 0; i < k; i++) for (int j = 0; j < l; j++) { if (i + j > 0 && s.chance(1, 4)) continue; int n = s.range(3, 7); double r = std::min(X/k, Y/l)*s.real(0.12, 0.3), w = even ? M_PI/n*s.range(0, 1) : s.sreal(3.1416); std::vector<dvec> ring; for (int q = 0; q < n; q++) ring.push_back({x0 + X*(i + 0.5)/k + r*std::cos(w + 2*M_PI*q/n), y0 + Y*(j + 0.5)/l + r*std::sin(w + 2*M_PI*q/n)}); add(s, h, ring, true); } if (!visible(h)) throw pbt::Reject(); c.label("holes=" + std::to_string(h.inner.size())); c.desc << "holes"; judge(s, c, h);
}
LAW(fine, 120, 2500, "finer meshes (sizes 0.05..0.15 of the domain) and rounder outlines: polygons of 10..40 corners (regular, elliptic, wavy), disks with a round hole, plates with round holes, the same checks; non-trivial when nodes are added") {
    int kind = s.range(0, 3), k = s.range(10, 40); Shape h; double st = s.coin() ? 1.0 : s.real(0.5, 1.0), wave = kind == 1 ? s.real(0, 0.15) : 0; int f = s.range(2, 5); std::vector<dvec> p;
    if (kind <= 2) { double w0 = s.coin() ? 0.0 : s.sreal(3.1416); for (int i = 0; i < k; i++) { double w = w0 + i*2*M_PI/k, r = 1 + wave*std::sin(f*w); p.push_back({r*std::cos(w), st*r*std::sin(w)}); } if (kind == 2) { double r = s.real(0.2, 0.6); int n = s.range(8, 24); for (int i = 0; i < n; i++) { double w = w0 + i*2*M_PI/n; p.push_back({r*std::cos(w), st*r*std::sin(w)}); } } p = placed(s, p, true); add(s, h, std::vector<dvec>(p.begin(), p.begin() + k), false); if (kind == 2) add(s, h, std::vector<dvec>(p.begin() + k, p.end()), true); }
    else { int a = s.range(1, 3), n = s.range(8, 20); double r = s.real(0.15, 0.35); add(s, h, {{0, 0}, {(double)a, 0}, {(double)a, 1}, {0, 1}}, false); for (int i = 0; i < a; i++) { std::vector<dvec> q; for (int j = 0; j < n; j++) q.push_back({i + 0.5 + r*std::cos(2*M_PI*j/n), 0.5 + r*std::sin(2*M_PI*j/n)}); add(s, h, q, true); } }
    if (!visible(h)) throw pbt::Reject(); c.desc << "fine, kind " << kind; c.label("kind " + std::to_string(kind)); judge(s, c, h, 0.05, 0.15);
}
FINDING(crossed_twice, "an outline side crossed by two sides of the triangulation of the corners is never recovered: the L-shape (-3,-2) (3,-2) (3,-1) (0,-1) (0,1) (-3,1) meshed with size 1.36 crashes") {
    Shape h; add(s, h, {{-3, -2}, {3, -2}, {3, -1}, {0, -1}, {0, 1}, {-3, 1}}, false); std::vector<LVec> x; for (auto& q : h.p) { LVec v(2); v(0) = q[0]; v(1) = q[1]; x.push_back(v); } PANSFEM2::Delaunay<double> m(x, h.outer, h.inner, 1.36); auto p = m.GenerateNodes(); double A = 0; for (auto& e : m.GenerateElements()) { double a = 0.5*cross(ref(p[e[0]]), ref(p[e[1]]), ref(p[e[2]])); c.check(a > 0, "triangle is not positively oriented"); A += a; } c.near(A, h.area, h.area, 1e-9, "area covered");
}
