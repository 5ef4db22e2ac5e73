#include "sparse.h"
#include "LinearAlgebra/Solvers/CG.h"
typedef CSR<double> C;
struct Threads { Threads(int n) { omp_set_dynamic(0); omp_set_num_threads(n); } ~Threads() { omp_set_num_threads(1); } };
// rows x cols by rows of very different length; kept as triplets so that the reference product needs no library code
struct Rows { int r, c; std::vector<std::vector<std::pair<int, double> > > e; };
static Rows rows(pbt::Src& s, int maxrows) {
    Rows m; int k = s.range(0, 3);
    m.r = k == 0 ? s.range(1, 40) : k == 1 ? s.range(1, 400) : s.range(1, maxrows); m.c = s.coin() ? m.r : s.range(1, maxrows); m.e.resize(m.r);
    int shape = s.range(0, 4); uint64_t h = s.draw(1 << 30); int len = s.range(1, 12), step = s.range(1, std::max(1, m.c - 1));
    for (int i = 0; i < m.r; i++) {
        int l = shape == 0 ? len : shape == 1 ? (i%7 == 0 ? 0 : len) : shape == 2 ? (i == m.r/2 ? std::min(m.c, 4000) : len/2) : shape == 3 ? std::min(m.c, 1 + (len*8*i)/m.r) : (i < m.r/2 ? 1 : len*3);
        std::map<int, double> row;
        for (int t = 0; t < l; t++) { h = pbt::mix(h + i*977 + t); int j = shape == 0 ? (int)(((long)i + (long)t*step)%m.c) : (int)(h%m.c); row[j] = ((double)((h >> 20)%2000001) - 1000000)/1e6; }
        m.e[i].assign(row.begin(), row.end());
    }
    return m;
}
static C build(const Rows& m) { LILCSR<double> l(m.r, m.c); for (int i = 0; i < m.r; i++) for (auto& p : m.e[i]) l.set(i, p.first, p.second); return C(l); }
static dvec vec(pbt::Src& s, int n) { dvec v(n); uint64_t h = s.draw(1 << 30); for (auto& x : v) { h = pbt::mix(h); x = ((double)(h%2000001) - 1000000)/1e6; } return v; }
static void product(pbt::Ctx& c, const Rows& m, const dvec& x, const dvec& y, const std::string& what) {
    c.check((int)y.size() == m.r, what + ": length of the product");
    for (int i = 0; i < m.r; i++) { double q = 0, g = 1e-300; for (auto& p : m.e[i]) { q += p.second*x[p.first]; g += std::fabs(p.second*x[p.first]); } if (!(std::fabs(q - y[i]) <= 1e-12*g)) c.near(y[i], q, g, 1e-12, what + ", row " + std::to_string(i)); }
}
static const std::vector<int> COUNTS = {1, 2, 3, 4, 5, 7, 8, 11, 16};
LAW(product, 1500, 30000, "a sparse matrix of up to 3000 rows (rectangular, empty rows, one long row, lengths growing along the rows) times a vector, repeated under 2 to 4 thread counts out of 1..16: every product equals the row-wise reference; non-trivial with at least 16 rows and a thread count above 1") {
    Rows m = rows(s, 3000); C A = build(m); dvec x = vec(s, m.c); int k = s.range(2, 4); int most = 1; c.desc << m.r << "x" << m.c << " threads";
    for (int t = 0; t < k; t++) {
        int n = s.pick(COUNTS), rep = s.range(1, 5); most = std::max(most, n); c.desc << " " << n << "(x" << rep << ")"; Threads th(n);
        for (int q = 0; q < rep; q++) { dvec y = A*x; product(c, m, x, y, "product with " + std::to_string(n) + " threads"); }
    }
    c.nontrivial(m.r >= 16 && most > 1);
}
LAW(chained, 300, 6000, "powers: the product fed back into itself under a changing thread count, compared with the reference at every step; non-trivial with at least 16 rows") {
    Rows m = rows(s, 1500); m.c = m.r; for (auto& r : m.e) for (auto& p : r) p.first %= m.r;
    for (auto& r : m.e) { std::map<int, double> q; for (auto& p : r) q[p.first] = p.second; r.assign(q.begin(), q.end()); }
    C A = build(m); dvec x = vec(s, m.r); int k = s.range(2, 8); c.desc << m.r << " rows, " << k << " steps";
    for (int t = 0; t < k; t++) { Threads th(s.pick(COUNTS)); dvec y = A*x; product(c, m, x, y, "step " + std::to_string(t)); double g = amax(y); if (g < 1e-12) break; x = scale(y, 1/g); }
    c.nontrivial(m.r >= 16);
}
LAW(concurrent, 300, 6000, "several threads multiply the same matrix by vectors of their own at the same time; non-trivial with at least 16 rows") {
    Rows m = rows(s, 1000); C A = build(m); int n = s.range(2, 8); std::vector<dvec> x(n), y(n); for (auto& v : x) v = vec(s, m.c); c.desc << m.r << "x" << m.c << ", " << n << " concurrent products";
    { Threads th(n);
#pragma omp parallel for num_threads(n)
      for (int i = 0; i < n; i++) y[i] = A*x[i]; }
    for (int i = 0; i < n; i++) product(c, m, x[i], y[i], "concurrent product " + std::to_string(i)); c.nontrivial(m.r >= 16);
}
LAW(solvers, 250, 5000, "a diagonally dominant system of up to 400 unknowns solved under two thread counts: both solutions satisfy the system and agree; non-trivial with at least 16 unknowns") {
    int n = s.range(2, 400), w = s.range(1, std::max(1, n/3)); bool sym = s.coin(); Rows m; m.r = m.c = n; m.e.resize(n); std::map<std::pair<int, int>, double> e; uint64_t h = s.draw(1 << 30);
    for (int i = 0; i < n; i++) for (int j : {i + 1, i + w}) if (j < n && j != i) { h = pbt::mix(h); double v = ((double)(h%2001) - 1000)/1000; e[{i, j}] = v; e[{j, i}] = sym ? v : 0.5*v + 0.1; }
    dvec d(n, 0.5); for (auto& q : e) { d[q.first.first] += std::fabs(q.second)*1.1; d[q.first.second] += 0.6*std::fabs(q.second); } for (int i = 0; i < n; i++) e[{i, i}] = d[i];
    for (auto& q : e) m.e[q.first.first].push_back({q.first.second, q.second});
    C A = build(m); dvec b = vec(s, n); int k = sym ? s.range(0, 3) : s.range(1, 3); C M = ILU0(A); double eps = 1e-10; std::vector<dvec> x;
    int ta = s.pick(COUNTS), tb = s.pick(COUNTS); c.desc << n << " unknowns, solver " << k << ", threads " << ta << " and " << tb;
    for (int t : {ta, tb}) { Threads th(t); x.push_back(k == 0 ? CG(A, b, 4000, eps) : k == 1 ? BiCGSTAB(A, b, 4000, eps) : k == 2 ? ScalingBiCGSTAB(A, b, 4000, eps) : ILU0BiCGSTAB(A, M, b, 4000, eps)); }
    double g = amax(x[0]) + 1e-12; for (auto& v : x) c.check(!std::isnan(amax(v)), "the solution is a number");
    for (auto& v : x) { dvec r(n); for (int i = 0; i < n; i++) { r[i] = b[i]; for (auto& p : m.e[i]) r[i] -= p.second*v[p.first]; } c.atmost(nrm(r), 1e-7*(nrm(b) + 1e-12), "residual"); }
    same(c, x[1], x[0], g, 1e-6, "solution under the other thread count"); c.nontrivial(n >= 16);
}
