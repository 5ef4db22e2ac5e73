#include "pbt.h"
// Allocations made while the library runs, to see that all of them are released.
static bool g_track = false; static long g_live = 0;
#ifndef __SANITIZE_ADDRESS__
#include <new>
static const size_t HN = 1 << 16; static void* g_tab[HN]; static const void* TOMB = (void*)1;
static void track(void* p) { if (!g_track || !p) return; size_t h = ((size_t)p >> 4)*2654435761u%HN; while (g_tab[h] && g_tab[h] != TOMB) h = (h + 1)%HN; g_tab[h] = p; g_live++; }
static void untrack(void* p) { if (!g_live || !p) return; size_t h = ((size_t)p >> 4)*2654435761u%HN; while (g_tab[h]) { if (g_tab[h] == p) { g_tab[h] = (void*)TOMB; g_live--; return; } h = (h + 1)%HN; } }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); track(p); return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); track(p); return p; }
void operator delete(void* p) noexcept { untrack(p); free(p); }
void operator delete[](void* p) noexcept { untrack(p); free(p); }
void operator delete(void* p, size_t) noexcept { untrack(p); free(p); }
void operator delete[](void* p, size_t) noexcept { untrack(p); free(p); }
#endif
static void reset_tracking() {
#ifndef __SANITIZE_ADDRESS__
    std::memset(g_tab, 0, sizeof g_tab);
#endif
    g_live = 0; g_track = false;
}
struct Lib { Lib() { g_track = true; } ~Lib() { g_track = false; } };
#include "util.h"
using namespace PANSFEM2;

static double unit = 1.0;   // the unit the numbers of a history are in
static double val(pbt::Src& s) { return (s.chance(3, 4) ? (double)s.srange(9) : s.sreal(100.0))*unit; }
static const double TOL = 1e-12, TINY = 1e-290;

struct Pool { std::vector<LVec> v; std::vector<dvec> mv; std::vector<LMat> m; std::vector<dmat> mm; };
// each entry to its own rounding, or, where a product may have cancelled, to that of its terms (mag)
static void entries(pbt::Ctx& c, const dvec& got, const dvec& want, double mag, const std::string& what) {
    c.check(got.size() == want.size(), what + ": size");
    for (size_t i = 0; i < got.size(); i++) if (!(std::fabs(got[i] - want[i]) <= 1e-14*std::fabs(want[i]) + TOL*mag + TINY)) c.near(got[i], want[i], std::fabs(want[i]) + mag, TOL, what + ", entry " + std::to_string(i) + " (to its own rounding)"), c.check(false, what + ", entry " + std::to_string(i) + ": " + std::to_string(got[i]) + " for " + std::to_string(want[i]));
}
// compares every object with its model; the model then takes over the library's rounding, so that later cancellations see the same numbers
static void verify(pbt::Ctx& c, Pool& p, const std::string& op, int t = -1, double mag = 0) {
    for (size_t i = 0; i < p.v.size(); i++) { c.check(p.v[i].SIZE() == (int)p.mv[i].size(), op + ": size of vector " + std::to_string(i)); dvec r = ref(p.v[i]); entries(c, r, p.mv[i], (int)i == t ? mag : 0, op + ": vector " + std::to_string(i)); p.mv[i] = r; }
    for (size_t i = 0; i < p.m.size(); i++) { dmat r = ref(p.m[i]); c.check(r.r == p.mm[i].r && r.c == p.mm[i].c, op + ": shape of matrix " + std::to_string(i)); entries(c, r.v, p.mm[i].v, (int)i == t ? mag : 0, op + ": matrix " + std::to_string(i)); p.mm[i] = r; }
}

static void history(pbt::Src& s, pbt::Ctx& c) {
    const int NV = 4, NM = 4; Pool p; unit = s.chance(1, 3) ? s.logreal(1e-20, 1e20) : 1.0; double big = unit == 1.0 ? 1e6 : 1e100; auto sane = [](double h) { return std::fabs(h) > 1e-100; }; if (unit != 1.0) c.desc << "unit " << unit << " ";
    p.v.reserve(NV); p.m.reserve(NM);
    for (int i = 0; i < NV; i++) {
        int n = s.range(0, 4); dvec d(n); for (auto& x : d) x = val(s);
        int how = s.range(0, 3);
        Lib g;
        if (how == 0) { d.clear(); p.v.emplace_back(); }
        else if (how == 1) { p.v.emplace_back(n); for (int k = 0; k < n; k++) c.check(p.v.back()(k) == 0.0, "a new vector is zero"); for (int k = 0; k < n; k++) p.v.back()(k) = d[k]; }
        else if (how == 2) p.v.emplace_back(d);
        else { if (n == 2) p.v.push_back(LVec({d[0], d[1]})); else if (n == 3) p.v.push_back(LVec({d[0], d[1], d[2]})); else p.v.emplace_back(d); }
        p.mv.push_back(d);
    }
    for (int i = 0; i < NM; i++) {
        int r = s.range(0, 4), q = s.range(0, 4); dmat d(r, q); for (auto& x : d.v) x = val(s);
        int how = s.range(0, 2);
        Lib g;
        if (how == 0) { d = dmat(0, 0); p.m.emplace_back(); }
        else if (how == 1) { p.m.emplace_back(r, q); for (int k = 0; k < r; k++) for (int l = 0; l < q; l++) c.check(p.m.back()(k, l) == 0.0, "a new matrix is zero"); for (int k = 0; k < r; k++) for (int l = 0; l < q; l++) p.m.back()(k, l) = d(k, l); }
        else { dvec e(r); for (auto& x : e) x = val(s); d = dmat(r, 1); d.v = e; p.m.push_back(LMat(LVec(e))); }
        p.mm.push_back(d);
    }
    verify(c, p, "construction");
    int steps = s.range(1, 24), done = 0;
    for (int k = 0; k < steps; k++) {
        int op = s.range(0, 33), i = s.range(0, NV - 1), j = s.range(0, NV - 1), t = s.range(0, NV - 1);
        LVec &a = p.v[i], &b = p.v[j]; dvec &ma = p.mv[i], &mb = p.mv[j];
        LMat &A = p.m[i], &B = p.m[j]; dmat &mA = p.mm[i], &mB = p.mm[j];
        bool vv = ma.size() == mb.size(), MM = mA.r == mB.r && mA.c == mB.c;
        // keep the numbers small
        if (amax(ma) > big || amax(mb) > big || amax(mA) > big || amax(mB) > big) break;
        std::ostringstream nm; nm << "op" << op << "(" << i << "," << j << "," << t << ")"; std::string N = nm.str(); c.desc << N << " ";
        double f = val(s), mag = op == 19 ? amax(ma)*amax(mb) : op == 28 ? 4*amax(mA)*amax(mB) : op == 29 ? 4*amax(mA)*amax(mb) : 0;   // products may cancel
        Lib g;
        switch (op) {
        case 0: a = b; ma = dvec(mb); break;
        case 1: A = B; mA = dmat(mB); break;
        case 2: { LVec x(b); p.v[t] = x; p.mv[t] = dvec(mb); if (x.SIZE()) x(0) += 1; break; }
        case 3: { LMat x(B); p.m[t] = x; p.mm[t] = dmat(mB); if (x.ROW() && x.COL()) x(0, 0) += 1; break; }
        case 4: if (vv) { LVec& r = (a += b); c.check(&r == &a, "+= returns the left operand"); dvec q = add(ma, mb); ma = q; } break;
        case 5: if (vv) { LVec& r = (a -= b); c.check(&r == &a, "-= returns the left operand"); dvec q = add(ma, mb, -1); ma = q; } break;
        case 6: if (vv) { LVec x = a + b; p.v[t] = x; dvec q = add(ma, mb); p.mv[t] = q; } break;
        case 7: if (vv) { LVec x = a - b; p.v[t] = x; dvec q = add(ma, mb, -1); p.mv[t] = q; } break;
        case 8: if (vv) { double x = a*b; c.near(x, dot(ma, mb), TINY + nrm(ma)*nrm(mb), TOL, N + " dot"); } break;
        case 9: { if (s.coin() && ma.size()) { int q = (int)s.draw(ma.size() - 1); double h = ma[q]; a *= a(q); ma = scale(ma, h); } else { a *= f; ma = scale(ma, f); } break; }
        case 10: { if (s.coin() && ma.size()) { int q = (int)s.draw(ma.size() - 1); double h = ma[q]; if (sane(h)) { a /= a(q); for (auto& y : ma) y /= h; } } else if (f != 0) { a /= f; for (auto& y : ma) y /= f; } break; }
        case 11: { p.v[t] = s.coin() ? a*f : f*a; dvec q = scale(ma, f); p.mv[t] = q; break; }
        case 12: if (f != 0) { p.v[t] = a/f; dvec q = ma; for (auto& y : q) y /= f; p.mv[t] = q; } break;
        case 13: { p.v[t] = -a; dvec q = scale(ma, -1); p.mv[t] = q; break; }
        case 14: { if (amax(ma) == 0.0 || sane(amax(ma))) c.near(a.Norm(), nrm(ma), TINY + nrm(ma), TOL, N + " norm"); break; }
        case 15: { LMat x = a.Transpose(); dmat q(1, (int)ma.size()); q.v = ma; p.m[t] = x; p.mm[t] = q; break; }
        case 16: if (ma.size() + mb.size() <= 8) { LVec x = a.Vstack(b); dvec q = ma; q.insert(q.end(), mb.begin(), mb.end()); p.v[t] = x; p.mv[t] = q; } break;
        case 17: if (ma.size()) { int h = (int)s.draw(ma.size() - 1), e = h + 1 + (int)s.draw(ma.size() - 1 - h); LVec x = a.Segment(h, e); dvec q(ma.begin() + h, ma.begin() + e); p.v[t] = x; p.mv[t] = q; } break;
        case 18: if (sane(nrm(ma))) { LVec x = a.Normal(); dvec q = scale(ma, 1/nrm(ma)); p.v[t] = x; p.mv[t] = q; } break;
        case 19: if (ma.size() == 3 && mb.size() == 3) { LVec x = VectorProduct(a, b); dvec q = {ma[1]*mb[2] - ma[2]*mb[1], ma[2]*mb[0] - ma[0]*mb[2], ma[0]*mb[1] - ma[1]*mb[0]}; p.v[t] = x; p.mv[t] = q; } break;
        case 20: { LMat x = Diagonal(a); dmat q((int)ma.size(), (int)ma.size()); for (int l = 0; l < q.r; l++) q(l, l) = ma[l]; p.m[t] = x; p.mm[t] = q; break; }
        case 21: { int n = s.range(0, 4); p.m[t] = Identity<double>(n); p.mm[t] = eye(n); break; }
        case 22: if (MM) { LMat& r = (A += B); c.check(&r == &A, "+= returns the left operand"); dmat q = add(mA, mB); mA = q; } break;
        case 23: if (MM) { LMat& r = (A -= B); c.check(&r == &A, "-= returns the left operand"); dmat q = add(mA, mB, -1); mA = q; } break;
        case 24: if (MM) { bool plus = s.coin(); LMat x = plus ? A + B : A - B; dmat q = add(mA, mB, plus ? 1 : -1); p.m[t] = x; p.mm[t] = q; } break;
        case 25: { if (s.coin() && mA.v.size()) { int q = (int)s.draw(mA.v.size() - 1); double h = mA.v[q]; if (s.coin()) { A *= A(q/mA.c, q%mA.c); mA = scale(mA, h); } else if (sane(h)) { A /= A(q/mA.c, q%mA.c); for (auto& y : mA.v) y /= h; } }
                   else if (f != 0) { if (s.coin()) { A *= f; mA = scale(mA, f); } else { A /= f; for (auto& y : mA.v) y /= f; } } break; }
        case 26: if (f != 0) { int w = s.range(0, 2); LMat x = w == 0 ? A*f : w == 1 ? f*A : A/f; dmat q = w == 2 ? mA : scale(mA, f); if (w == 2) for (auto& y : q.v) y /= f; p.m[t] = x; p.mm[t] = q; } break;
        case 27: { p.m[t] = -A; dmat q = scale(mA, -1); p.mm[t] = q; break; }
        case 28: if (mA.c == mB.r) { LMat x = A*B; dmat q = mul(mA, mB); p.m[t] = x; p.mm[t] = q; } break;
        case 29: if (mA.c == (int)mb.size()) { LVec x = A*b; dvec q = mul(mA, mb); p.v[t] = x; p.mv[t] = q; } break;
        case 30: { LMat x = A.Transpose(); dmat q = tr(mA); p.m[t] = x; p.mm[t] = q; break; }
        case 31: if (mB.r == 1) { LMat x = a*B; dmat q((int)ma.size(), mB.c); for (int l = 0; l < q.r; l++) for (int o = 0; o < q.c; o++) q(l, o) = ma[l]*mB(0, o); p.m[t] = x; p.mm[t] = q; }
                 else if (mA.c == 1) { LVec x(A); dvec q = mA.v; p.v[t] = x; p.mv[t] = q; } break;
        case 32: if (mA.c == mB.c && mA.r + mB.r <= 8) { LMat x = A.Vstack(B); dmat q(mA.r + mB.r, mA.c); q.v = mA.v; q.v.insert(q.v.begin(), 0, 0.0); q.v.resize(mA.v.size()); q.v.insert(q.v.end(), mB.v.begin(), mB.v.end()); p.m[t] = x; p.mm[t] = q; }
                 else if (mA.r == mB.r && mA.c + mB.c <= 8) { LMat x = A.Hstack(B); dmat q(mA.r, mA.c + mB.c); for (int l = 0; l < q.r; l++) { for (int o = 0; o < mA.c; o++) q(l, o) = mA(l, o); for (int o = 0; o < mB.c; o++) q(l, o + mA.c) = mB(l, o); } p.m[t] = x; p.mm[t] = q; } break;
        case 33: if (mA.r && mA.c) { int r0 = (int)s.draw(mA.r - 1), c0 = (int)s.draw(mA.c - 1), h = 1 + (int)s.draw(mA.r - 1 - r0), w = 1 + (int)s.draw(mA.c - 1 - c0); LMat x = A.Block(r0, c0, h, w); dmat q(h, w); for (int l = 0; l < h; l++) for (int o = 0; o < w; o++) q(l, o) = mA(r0 + l, c0 + o); p.m[t] = x; p.mm[t] = q; } break;
        }
        verify(c, p, N, t, mag); done++;
    }
    c.nontrivial(done >= 3);
}
LAW(history, 400000, 6000000, "a history of 1..24 operations on 4 vectors and 4 matrices of sizes 0..4 (default-constructed, empty, aliased operands included), every object compared with a model after every step; non-trivial when at least 3 operations ran") {
    reset_tracking();
    s.rec.reserve(4096);
    try { history(s, c); } catch (...) { g_track = false; g_live = 0; unit = 1.0; throw; }
    unit = 1.0;
    long live = g_live; reset_tracking();
    c.check(live == 0, "memory allocated by the library is not released: " + std::to_string(live) + " blocks");
}
LAW(hstack_large, 40000, 400000, "stack / block / product / outer product / transpose on random shapes up to 12x12; non-trivial when both dimensions exceed 1") {
    int r = s.range(1, 12), q = s.range(1, 12), w = s.range(1, 12);
    dmat a(r, q), b(q, w), d(r, w), e(w, q); for (auto* m : {&a, &b, &d, &e}) { double u = s.chance(1, 4) ? s.logreal(1e-20, 1e20) : 1.0; for (auto& x : m->v) x = u*val(s); }
    dvec x(q), y(r); for (auto& t : x) t = val(s); for (auto& t : y) t = val(s);
    c.desc << r << "x" << q << " " << q << "x" << w;
    LMat A = lib(a), B = lib(b), D = lib(d), E = lib(e);
    double sc = TINY + 12*amax(a)*amax(b);
    same(c, ref(A*B), mul(a, b), sc, TOL, "product"); same(c, ref(A*lib(x)), mul(a, x), TINY + 12*amax(a)*amax(x), TOL, "matrix*vector");
    dmat h(r, q + w), v(r + w, q); for (int i = 0; i < r; i++) { for (int j = 0; j < q; j++) h(i, j) = v(i, j) = a(i, j); for (int j = 0; j < w; j++) h(i, q + j) = d(i, j); }
    for (int i = 0; i < w; i++) for (int j = 0; j < q; j++) v(r + i, j) = e(i, j);
    same(c, ref(A.Hstack(D)), h, 1, 0, "hstack"); same(c, ref(A.Vstack(E)), v, 1, 0, "vstack");
    same(c, ref(A.Hstack(D).Block(0, q, r, w)), d, 1, 0, "block of hstack"); same(c, ref(A.Vstack(E).Block(r, 0, w, q)), e, 1, 0, "block of vstack");
    same(c, ref((A*B).Transpose()), ref(B.Transpose()*A.Transpose()), sc, TOL, "transpose of a product");
    dmat o(r, q); for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) o(i, j) = y[i]*x[j];
    same(c, ref(lib(y)*lib(x).Transpose()), o, TINY + amax(x)*amax(y), TOL, "outer product");
    c.near((lib(y)*(A*lib(x))), dot(y, mul(a, x)), TINY + r*q*amax(y)*amax(x)*amax(a), TOL, "bilinear form");
    c.nontrivial(r > 1 && q > 1);
}
LAW(printing, 20000, 200000, "operator<< of a random vector / matrix, parsed back; non-trivial when non-empty") {
    int r = s.range(0, 5), q = s.range(0, 5); dmat a(r, q); for (auto& x : a.v) x = val(s); dvec y(r); for (auto& x : y) x = val(s);
    c.desc << r << "x" << q;
    std::ostringstream o; o << lib(a); std::istringstream in(o.str()); std::string line; int i = 0;
    while (std::getline(in, line)) { std::istringstream l(line); c.check(i < r, "too many rows printed"); double x; int j = 0; while (l >> x) { c.check(j < q, "too many columns printed"); c.near(x, a(i, j), 1e-3 + std::fabs(a(i, j)), 1e-5, "printed entry"); j++; } c.check(j == q, "columns printed"); i++; }
    c.check(i == r, "rows printed");
    std::ostringstream p; p << lib(y); std::istringstream ip(p.str()); double x; i = 0; while (ip >> x) { c.check(i < r, "too many values"); c.near(x, y[i], 1e-3 + std::fabs(y[i]), 1e-5, "printed value"); i++; } c.check(i == r, "values printed");
    c.nontrivial(r*q > 0);
}
LAW(large, 4000, 60000, "every operation on vectors of up to 600 entries and matrices of up to 90 x 90, compared with the model, operands unchanged; non-trivial when a size exceeds 32") {
    int n = s.chance(1, 6) ? s.range(1, 600) : s.range(1, 140), r = s.range(1, 90), q = s.range(1, 90), w = s.range(1, 90); Bulk b(s); double f = s.nonzero(3.0);
    c.desc << "vectors of " << n << ", matrices " << r << "x" << q << "x" << w;
    dvec x(n), y(n); for (auto& t : x) t = b.sreal(3); for (auto& t : y) t = b.sreal(3); LVec X = lib(x), Y = lib(y);
    same(c, ref(X + Y), add(x, y), 6, TOL, "sum"); same(c, ref(X - Y), add(x, y, -1), 6, TOL, "difference"); same(c, ref(-X), scale(x, -1), 3, TOL, "negative"); same(c, ref(X*f), scale(x, f), 9, TOL, "multiple"); same(c, ref(X/f), scale(x, 1/f), 3/std::fabs(f), TOL, "quotient");
    c.near(X*Y, dot(x, y), 9.0*n, TOL, "dot product"); c.near(X.Norm(), nrm(x), nrm(x), TOL, "norm"); same(c, ref(X.Normal()), scale(x, 1/nrm(x)), 1, TOL, "normal"); LVec Z(X); Z += Y; same(c, ref(Z), add(x, y), 6, TOL, "+="); Z -= X; same(c, ref(Z), y, 9, TOL, "-="); Z *= f; same(c, ref(Z), scale(y, f), 30, TOL, "*="); Z = X; Z /= f; same(c, ref(Z), scale(x, 1/f), 3/std::fabs(f), TOL, "/=");
    int h = s.range(0, n - 1), e = s.range(h + 1, n); same(c, ref(X.Segment(h, e)), dvec(x.begin() + h, x.begin() + e), 1, 0, "segment"); dvec st = x; st.insert(st.end(), y.begin(), y.end()); same(c, ref(X.Vstack(Y)), st, 1, 0, "stack");
    if (n <= 140) { dmat d(n, n); for (int i = 0; i < n; i++) d(i, i) = x[i]; same(c, ref(Diagonal(X)), d, 1, 0, "diagonal"); same(c, ref(Identity<double>(n)), eye(n), 1, 0, "identity"); dmat o(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o(i, j) = x[i]*y[j]; same(c, ref(X*Y.Transpose()), o, 9, TOL, "outer product"); }
    dmat a(r, q), g(r, q), d(q, w); for (auto* m : {&a, &g, &d}) for (auto& t : m->v) t = b.sreal(2); dvec u(q); for (auto& t : u) t = b.sreal(2); LMat A = lib(a), G = lib(g), D = lib(d);
    same(c, ref(A + G), add(a, g), 4, TOL, "matrix sum"); same(c, ref(A - G), add(a, g, -1), 4, TOL, "matrix difference"); same(c, ref(A*f), scale(a, f), 6, TOL, "matrix multiple"); same(c, ref(f*A), scale(a, f), 6, TOL, "multiple of a matrix"); same(c, ref(A/f), scale(a, 1/f), 2/std::fabs(f), TOL, "matrix quotient"); same(c, ref(-A), scale(a, -1), 2, TOL, "negative matrix");
    same(c, ref(A*D), mul(a, d), 4.0*q, TOL, "product"); same(c, ref(A*lib(u)), mul(a, u), 4.0*q, TOL, "matrix*vector"); same(c, ref(A.Transpose()), tr(a), 1, 0, "transpose");
    LMat B(A); B += G; same(c, ref(B), add(a, g), 4, TOL, "+="); B -= A; same(c, ref(B), g, 6, TOL, "-="); B *= f; same(c, ref(B), scale(g, f), 18, TOL, "*="); B = A; B /= f; same(c, ref(B), scale(a, 1/f), 2/std::fabs(f), TOL, "/=");
    int r0 = s.range(0, r - 1), c0 = s.range(0, q - 1), hh = s.range(1, r - r0), ww = s.range(1, q - c0); dmat k(hh, ww); for (int i = 0; i < hh; i++) for (int j = 0; j < ww; j++) k(i, j) = a(r0 + i, c0 + j); same(c, ref(A.Block(r0, c0, hh, ww)), k, 1, 0, "block");
    dmat H(r, 2*q), V(2*r, q); for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) { H(i, j) = V(i, j) = a(i, j); H(i, q + j) = V(r + i, j) = g(i, j); } same(c, ref(A.Hstack(G)), H, 1, 0, "hstack"); same(c, ref(A.Vstack(G)), V, 1, 0, "vstack");
    same(c, ref(A), a, 1, 0, "left operand"); same(c, ref(G), g, 1, 0, "right operand"); same(c, ref(X), x, 1, 0, "left vector"); same(c, ref(Y), y, 1, 0, "right vector"); c.nontrivial(n > 32 || r > 32 || q > 32);
}
