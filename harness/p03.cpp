#include "sparse.h"
typedef CSR<double> C; typedef LILCSR<double> L;
static double unit = 1.0;   // the unit the numbers of a case are in
static double val(pbt::Src& s) { return (s.chance(3, 4) ? (double)s.srange(9) : s.sreal(100.0))*unit; }
static const double TOL = 1e-12, TINY = 1e-290;
static void draw_unit(pbt::Src& s, pbt::Ctx& c) { unit = s.chance(1, 3) ? s.logreal(1e-20, 1e20) : 1.0; if (unit != 1.0) c.desc << "unit " << unit << ", "; }
// each entry to its own rounding
static void entries(pbt::Ctx& c, const dmat& got, const dmat& want, const std::string& what) {
    c.check(got.r == want.r && got.c == want.c, what + ": shape");
    for (size_t i = 0; i < got.v.size(); i++) if (!(std::fabs(got.v[i] - want.v[i]) <= TOL*std::fabs(want.v[i]) + TINY)) { std::ostringstream o; o << what << " (" << i/got.c << "," << i%got.c << "): " << got.v[i] << " for " << want.v[i]; c.check(false, o.str()); }
}
static int dim(pbt::Src& s) { return s.chance(1, 8) ? s.range(1, 20) : s.range(1, 6); }

struct Pool { std::vector<std::unique_ptr<C> > a; std::vector<dmat> ma; std::vector<std::unique_ptr<L> > b; std::vector<dmat> mb; };
static void cmp(pbt::Ctx& c, Pool& p, const std::string& op) {
    for (size_t i = 0; i < p.a.size(); i++) { c.check(p.a[i]->ROWS == p.ma[i].r && p.a[i]->COLS == p.ma[i].c, op + ": shape"); entries(c, ref(*p.a[i]), p.ma[i], op + ": row-compressed matrix " + std::to_string(i)); }
    for (size_t i = 0; i < p.b.size(); i++) { c.check(p.b[i]->ROWS == p.mb[i].r && p.b[i]->COLS == p.mb[i].c, op + ": shape"); entries(c, ref(*p.b[i]), p.mb[i], op + ": list matrix " + std::to_string(i)); }
}
LAW(history, 120000, 2000000, "a history of 1..40 writes, overwrites, copies, conversions, products, sums, differences, scalings over 3 row-compressed and 3 list matrices of a common shape (1..20 x 1..20), every entry compared with a dense model after every step; non-trivial when an overwrite and an insertion before an existing column happened") {
    const int N = 3; int r = dim(s), q = dim(s); Pool p; draw_unit(s, c); double big = unit == 1.0 ? 1e6 : 1e100;
    for (int i = 0; i < N; i++) { p.a.emplace_back(new C(r, q)); p.b.emplace_back(new L(r, q)); p.ma.push_back(dmat(r, q)); p.mb.push_back(dmat(r, q)); }
    c.desc << r << "x" << q << ": ";
    std::set<std::vector<int> > used; bool over = false, before = false;
    int steps = s.range(1, 40);
    for (int k = 0; k < steps; k++) {
        int op = s.range(0, 19), i = s.range(0, N - 1), j = s.range(0, N - 1), t = s.range(0, N - 1);
        if (amax(p.ma[i]) > big || amax(p.mb[i]) > big || amax(p.ma[j]) > big || amax(p.mb[j]) > big) break;
        std::ostringstream nm; nm << "op" << op << "(" << i << "," << j << "," << t << ")"; std::string Nm = nm.str(); c.desc << Nm << " ";
        double f = val(s);
        if (op <= 4) { int y = s.range(0, r - 1), x = s.range(0, q - 1); p.a[i]->set(y, x, f); p.ma[i](y, x) = f;
            if (!used.insert({0, i, y, x}).second) over = true; auto it = used.upper_bound({0, i, y, x}); if (it != used.end() && (*it)[0] == 0 && (*it)[1] == i && (*it)[2] == y) before = true; }
        else if (op <= 8) { int y = s.range(0, r - 1), x = s.range(0, q - 1); p.b[i]->set(y, x, f); p.mb[i](y, x) = f; if (!used.insert({1, i, y, x}).second) over = true; }
        else if (op == 9) { std::unique_ptr<C> n(new C(*p.a[j])); dmat m = p.ma[j]; n->set(0, 0, f); m(0, 0) = f; p.a[t] = std::move(n); p.ma[t] = m; }
        else if (op == 10) { std::unique_ptr<L> n(new L(*p.b[j])); dmat m = p.mb[j]; n->set(0, 0, f); m(0, 0) = f; p.b[t] = std::move(n); p.mb[t] = m; }
        else if (op == 11) { p.a[t].reset(new C(*p.b[j])); p.ma[t] = p.mb[j]; }
        else if (op == 12) { p.b[t].reset(new L(*p.a[j])); p.mb[t] = p.ma[j]; }
        else if (op == 13) { dvec x(q); for (auto& v : x) v = val(s); same(c, (*p.a[i])*x, mul(p.ma[i], x), TINY + q*amax(p.ma[i])*amax(x), TOL, Nm + " row-compressed*vector"); same(c, (*p.b[i])*x, mul(p.mb[i], x), TINY + q*amax(p.mb[i])*amax(x), TOL, Nm + " list*vector"); }
        else if (op == 14) { bool pl = s.coin(); std::unique_ptr<C> n(pl ? new C(*p.a[i] + *p.a[j]) : new C(*p.a[i] - *p.a[j])); dmat m = add(p.ma[i], p.ma[j], pl ? 1 : -1); p.a[t] = std::move(n); p.ma[t] = m; }
        else if (op == 15) { bool pl = s.coin(); std::unique_ptr<L> n(pl ? new L(*p.b[i] + *p.b[j]) : new L(*p.b[i] - *p.b[j])); dmat m = add(p.mb[i], p.mb[j], pl ? 1 : -1); p.b[t] = std::move(n); p.mb[t] = m; }
        else if (op == 16 || op == 17) { if (f == 0) f = 2*unit; int w = s.range(0, 3); dmat m = op == 16 ? p.ma[i] : p.mb[i]; int fi = s.range(1, 3);
            if (w == 0 || w == 1) m = scale(m, f); else if (w == 2) for (auto& v : m.v) v /= f; else m = scale(m, fi);
            if (op == 16) { p.a[t].reset(w == 0 ? new C((*p.a[i])*f) : w == 1 ? new C(f*(*p.a[i])) : w == 2 ? new C((*p.a[i])/f) : new C(fi*(*p.a[i]))); p.ma[t] = m; }
            else { p.b[t].reset(w == 0 ? new L((*p.b[i])*f) : w == 1 ? new L(f*(*p.b[i])) : w == 2 ? new L((*p.b[i])/f) : new L(fi*(*p.b[i]))); p.mb[t] = m; } }
        else if (op == 18) { std::ostringstream o; bool csr = s.coin(); if (csr) o << *p.a[i]; else o << *p.b[i]; const dmat& m = csr ? p.ma[i] : p.mb[i]; std::istringstream in(o.str()); std::string line; int y = 0;
            while (std::getline(in, line)) { std::istringstream l(line); double v; int x = 0; while (l >> v) { c.check(y < r && x < q, Nm + " printed shape"); c.near(v, m(y, x), 1e-3*unit + std::fabs(m(y, x)), 1e-5, Nm + " printed entry"); x++; } c.check(x == q, Nm + " printed columns"); y++; } c.check(y == r, Nm + " printed rows"); }
        else { // the same contents filled through the two representations
            C n(*p.b[j]); L b(n); C n2(b); same(c, ref(n2), p.mb[j], 1, 0, Nm + " conversion there and back"); }
        cmp(c, p, Nm);
    }
    c.label(before ? "insert_before" : "append_only");
    c.nontrivial(over && before);
}
LAW(scatter, 20000, 300000, "additive filling (get then set, as assembly does) of an n x n matrix (n up to 30) in a random order through both representations, then product with a vector; non-trivial when some entry received several contributions") {
    draw_unit(s, c); int n = s.range(1, 30), k = s.range(1, 120); C a(n, n); L b(n, n); dmat m(n, n); bool rep = false; std::set<std::pair<int, int> > seen;
    for (int l = 0; l < k; l++) { int i = s.range(0, n - 1), j = s.range(0, n - 1); double v = val(s); a.set(i, j, a.get(i, j) + v); b.set(i, j, b.get(i, j) + v); m(i, j) += v; if (!seen.insert({i, j}).second) rep = true; }
    c.desc << "n=" << n << " contributions=" << k;
    C d(b); double e0 = TINY + 100*amax(m); same(c, ref(a), m, e0, TOL, "row-compressed"); same(c, ref(b), m, e0, TOL, "list"); same(c, ref(d), m, e0, TOL, "converted");
    dvec x(n); for (auto& v : x) v = val(s); double sc = TINY + 100*n*amax(m)*amax(x);
    same(c, a*x, mul(m, x), sc, TOL, "product (row-compressed)"); same(c, b*x, mul(m, x), sc, TOL, "product (list)"); same(c, d*x, mul(m, x), sc, TOL, "product (converted)");
    c.nontrivial(rep);
}
LAW(large, 1500, 20000, "matrices of up to 400 x 400 (rectangular, one dense row or column, bands, scattered), up to 3000 writes in increasing, decreasing or random order with overwrites and zeros, in both representations: reading, products, sums, differences, multiples, conversions and copies against a model; non-trivial with a row of more than 32 entries or more than 256 entries") {
    int r = s.range(1, 400), q = s.coin() ? r : s.range(1, 400), k = s.range(1, 3000), kind = s.range(0, 4), order = s.range(0, 2); draw_unit(s, c); Bulk b(s); c.desc << r << "x" << q << ", " << k << " writes, pattern " << kind << ", order " << order;
    auto fill = [&](C& a, L& l, std::map<std::pair<int, int>, double>& m, int k) {
        std::vector<std::pair<int, int> > e; for (int t = 0; t < k; t++) { int i = b.range(0, r - 1), j = b.range(0, q - 1); if (kind == 0 && b.range(0, 3)) i = r/2; if (kind == 1 && b.range(0, 3)) j = q/2; if (kind == 2) j = std::min(q - 1, std::max(0, i + b.range(-6, 6))); if (kind == 3) i %= 7; if (i >= r) i = r - 1; e.push_back({i, j}); }
        if (order == 1) std::sort(e.begin(), e.end()); if (order == 2) std::sort(e.rbegin(), e.rend());
        for (auto& p : e) { double v = b.range(0, 9) ? b.sreal(5)*unit : 0.0; a.set(p.first, p.second, v); l.set(p.first, p.second, v); m[p] = v; } };
    C a(r, q), a2(r, q); L l(r, q), l2(r, q); std::map<std::pair<int, int>, double> m, m2; fill(a, l, m, k); fill(a2, l2, m2, s.range(0, 400)); std::vector<int> len(r, 0); for (auto& p : m) len[p.first.first]++; C d(l); L e(a); C cp(a);
    auto at = [](const std::map<std::pair<int, int>, double>& m, int i, int j) { auto p = m.find({i, j}); return p == m.end() ? 0.0 : p->second; };
    auto has = [&](const std::string& what, double got, int i, int j, double want) { if (!(std::fabs(got - want) <= 1e-12*std::fabs(want) + TINY)) c.near(got, want, 1e-3*std::fabs(want), 1e-12, what + " (" + std::to_string(i) + "," + std::to_string(j) + ")"); };
    auto scan = [&](const std::string& what, std::function<double(int, int)> got, std::function<double(int, int)> want) { for (auto& p : m) has(what, got(p.first.first, p.first.second), p.first.first, p.first.second, want(p.first.first, p.first.second)); for (auto& p : m2) has(what, got(p.first.first, p.first.second), p.first.first, p.first.second, want(p.first.first, p.first.second)); Bulk z(b); for (int t = 0; t < 400; t++) { int i = z.range(0, r - 1), j = z.range(0, q - 1); has(what, got(i, j), i, j, want(i, j)); } };
    auto w = [&](int i, int j) { return at(m, i, j); }; scan("row-compressed", [&](int i, int j) { return a.get(i, j); }, w); scan("list", [&](int i, int j) { return l.get(i, j); }, w); scan("list to row-compressed", [&](int i, int j) { return d.get(i, j); }, w); scan("row-compressed to list", [&](int i, int j) { return e.get(i, j); }, w); scan("copy", [&](int i, int j) { return cp.get(i, j); }, w);
    dvec x(q), y(r, 0.0), g(r, 1e-300); for (auto& v : x) v = b.sreal(3); for (auto& p : m) { y[p.first.first] += p.second*x[p.first.second]; g[p.first.first] += std::fabs(p.second*x[p.first.second]); } double G = 1e-300; for (double t : g) G = std::max(G, t);
    same(c, a*x, y, G, TOL, "row-compressed*vector"); same(c, l*x, y, G, TOL, "list*vector"); same(c, d*x, y, G, TOL, "converted*vector");
    { C u = a + a2, v = a - a2; L t = l + l2, z = l - l2; auto pl = [&](int i, int j) { return at(m, i, j) + at(m2, i, j); }; auto mi = [&](int i, int j) { return at(m, i, j) - at(m2, i, j); }; scan("sum", [&](int i, int j) { return u.get(i, j); }, pl); scan("difference", [&](int i, int j) { return v.get(i, j); }, mi); scan("list sum", [&](int i, int j) { return t.get(i, j); }, pl); scan("list difference", [&](int i, int j) { return z.get(i, j); }, mi);
      double f = s.nonzero(3.0); C u2 = a*f, u3 = f*a, u4 = a/f; L t2 = l*f, t4 = l/f; auto mu = [&](int i, int j) { return f*at(m, i, j); }; auto di = [&](int i, int j) { return at(m, i, j)/f; }; scan("multiple", [&](int i, int j) { return u2.get(i, j); }, mu); scan("multiple from the left", [&](int i, int j) { return u3.get(i, j); }, mu); scan("quotient", [&](int i, int j) { return u4.get(i, j); }, di); scan("list multiple", [&](int i, int j) { return t2.get(i, j); }, mu); scan("list quotient", [&](int i, int j) { return t4.get(i, j); }, di); }
    scan("row-compressed after use", [&](int i, int j) { return a.get(i, j); }, w); scan("list after use", [&](int i, int j) { return l.get(i, j); }, w);
    int most = 0; for (int t : len) most = std::max(most, t); c.nontrivial(most > 32 || m.size() > 256);
}
