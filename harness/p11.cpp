#include "sparse.h"
#include "FEM/Controller/Assembling.h"
#include "FEM/Controller/BoundaryCondition.h"
using namespace PANSFEM2;
typedef std::vector<std::vector<int> > N2G; typedef std::vector<std::vector<std::pair<int, int> > > N2E; typedef std::vector<std::pair<std::pair<int, int>, double> > Fixed;
struct Model {
    int nodes; std::vector<int> dofs; N2G g; std::vector<LVec> u; int K; bool tied = false, fixed = false;
};
static std::string showg(const N2G& g) { std::string o = "["; for (auto& v : g) o += pbt::show(v); return o + "]"; }
// Nodes with their own numbers of degrees of freedom, Dirichlet conditions, then either plain numbering or periodic ties
static Model model(pbt::Src& s, pbt::Ctx& c, int maxnodes = 9) {
    Model m; m.nodes = few(s, 1, maxnodes, 60, 10); bool mixed = s.coin(), many = s.chance(1, 6); int d = s.range(1, many ? 6 : 3); m.g.resize(m.nodes); std::vector<int> master;
    for (int i = 0; i < m.nodes; i++) { int k = mixed ? s.range(1, many ? 6 : 4) : d; m.dofs.push_back(k); m.g[i].assign(k, 0); LVec v(k); for (int j = 0; j < k; j++) v(j) = s.sreal(2.0); m.u.push_back(v); }
    Fixed f; int nf = s.range(0, m.nodes); std::vector<std::vector<char> > fx(m.nodes); for (int i = 0; i < m.nodes; i++) fx[i].assign(m.dofs[i], 0);
    std::vector<dvec> before; for (auto& v : m.u) before.push_back(ref(v));
    for (int k = 0; k < nf; k++) { int i = s.range(0, m.nodes - 1), j = s.range(0, m.dofs[i] - 1); double val = (s.chance(1, 6) ? s.logreal(1e-20, 1e20) : 1.0)*s.sreal(3.0); f.push_back({{i, j}, val}); fx[i][j] = 1; before[i][j] = val; m.fixed = true; }
    if (s.coin()) SetDirichlet(m.u, m.g, f);
    else { SetDirichlet(m.g, f); for (auto& q : f) m.u[q.first.first](q.first.second) = q.second; }
    for (int i = 0; i < m.nodes; i++) { same(c, ref(m.u[i]), before[i], 1, 0, "prescribed values"); for (int j = 0; j < m.dofs[i]; j++) c.check((m.g[i][j] == -1) == (fx[i][j] != 0), "a degree of freedom is fixed exactly when a condition names it"); }
    std::vector<int> tie(m.nodes, -1);
    std::vector<std::pair<int, int> > ties;
    if (!s.chance(1, 3) && m.nodes >= 2) {
        int k = s.range(1, m.nodes/2); std::vector<char> ismaster(m.nodes, 0);
        for (int t = 0; t < k; t++) { int a = s.range(0, m.nodes - 1), b = s.range(0, m.nodes - 1); if (a == b || tie[a] != -1 || tie[b] != -1 || ismaster[b] || m.dofs[a] != m.dofs[b]) continue; tie[b] = a; ismaster[a] = 1; ties.push_back({a, b}); }
        m.tied = !ties.empty(); m.K = SetPeriodic(m.g, ties);
    } else m.K = Renumbering(m.g);
    // fixed ones stay fixed, tied ones share their master's equation, the others are numbered 0..K-1 without gap or repetition
    std::set<int> used; int free = 0;
    for (int i = 0; i < m.nodes; i++) for (int j = 0; j < m.dofs[i]; j++) {
        if (tie[i] >= 0) c.check(m.g[i][j] == m.g[tie[i]][j], "a tied degree of freedom has its master's equation");
        else if (fx[i][j]) c.check(m.g[i][j] == -1, "a fixed degree of freedom has no equation");
        else { free++; c.check(m.g[i][j] >= 0 && m.g[i][j] < m.K, "equation number in range"); c.check(used.insert(m.g[i][j]).second, "equation numbers are distinct"); }
    }
    c.check(free == m.K, "number of equations"); c.check((int)m.g.size() == m.nodes, "nodes kept"); for (int i = 0; i < m.nodes; i++) c.check((int)m.g[i].size() == m.dofs[i], "degrees of freedom kept");
    c.desc << "nodes " << m.nodes << " equations " << m.K << " map " << showg(m.g) << "; ";
    return m;
}
struct Element { std::vector<int> nodes; N2E map; int size; };
static Element element(pbt::Src& s, const Model& m) {
    Element e; int k = s.range(1, std::min(s.chance(1, 5) ? 24 : 4, m.nodes)); std::vector<int> p = s.permutation(m.nodes); e.nodes.assign(p.begin(), p.begin() + k); std::vector<std::pair<int, int> > slots;
    e.map.resize(k); int total = 0; for (int i = 0; i < k; i++) { std::vector<int> q = s.permutation(m.dofs[e.nodes[i]]); int l = s.range(0, (int)q.size()); if (i == 0 && l == 0) l = 1; for (int j = 0; j < l; j++) { e.map[i].push_back({q[j], 0}); total++; } }
    e.size = total; std::vector<int> q = s.permutation(total); int t = 0; for (auto& v : e.map) for (auto& x : v) x.second = q[t++];
    return e;
}
// every contribution may have its own unit, and every entry is judged against the sum of the magnitudes that went into it
static double unit(pbt::Src& s) { return s.chance(1, 4) ? s.logreal(1e-25, 1e25) : 1.0; }
static LMat mat(pbt::Src& s, int n) { double w = unit(s); LMat m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = w*s.sreal(2.0); return m; }
static LVec vec(pbt::Src& s, int n) { double w = unit(s); LVec m(n); for (int i = 0; i < n; i++) m(i) = w*s.sreal(2.0); return m; }
struct System { dmat K, k; dvec F, f; System(int n) : K(n, n), k(n, n), F(n), f(n) {} void add(int i, int j, double v) { K(i, j) += v; k(i, j) += std::abs(v); } void add(int i, double v) { F[i] += v; f[i] += std::abs(v); } };
static void scatter(const Model& m, const Element& r, const Element& c, LMat ke, System& S, bool K, bool F) {
    for (size_t i = 0; i < r.nodes.size(); i++) for (auto p : r.map[i]) { int gi = m.g[r.nodes[i]][p.first]; if (gi < 0) continue; for (size_t j = 0; j < c.nodes.size(); j++) for (auto q : c.map[j]) { int gj = m.g[c.nodes[j]][q.first]; LVec uj = m.u[c.nodes[j]]; if (gj >= 0) { if (K) S.add(gi, gj, ke(p.second, q.second)); } else if (F) S.add(gi, -ke(p.second, q.second)*uj(q.first)); } }
}
static void scatter(const Model& m, const Element& r, LVec fe, System& S) { for (size_t i = 0; i < r.nodes.size(); i++) for (auto p : r.map[i]) { int gi = m.g[r.nodes[i]][p.first]; if (gi >= 0) S.add(gi, fe(p.second)); } }
static void matches(pbt::Ctx& c, const dmat& A, const dmat& B, const dmat& scale, std::string what) { c.check(A.r == B.r && A.c == B.c, what + " shape"); for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) { if (scale(i, j) == 0) c.check(A(i, j) == 0, what + " entry nothing was added to"); else c.near(A(i, j)/scale(i, j), B(i, j)/scale(i, j), 1, 1e-13, what + " (" + std::to_string(i) + "," + std::to_string(j) + ")"); } }
static void matches(pbt::Ctx& c, const dvec& A, const dvec& B, const dvec& scale, std::string what) { c.check(A.size() == B.size(), what + " size"); for (size_t i = 0; i < A.size(); i++) { if (scale[i] == 0) c.check(A[i] == 0, what + " entry nothing was added to"); else c.near(A[i]/scale[i], B[i]/scale[i], 1, 1e-13, what + " (" + std::to_string(i) + ")"); } }
LAW(assembling, 60000, 900000, "1..9 (at times 60) nodes with 1..4 (at times 6) degrees of freedom each, random Dirichlet conditions, plain or periodic numbering, then 1..6 (at times 40) random contributions of elements of 1..4 (at times 24) nodes through every overload (matrix with or without vector, several maps at once, matrix only, vector only, condition influence only, point loads) on top of existing content, contributions and prescribed values in units from 1e-25 to 1e25, against a dense model, every entry within 1e-13 of the magnitudes added to it; non-trivial with an equation and a fixed or tied degree of freedom") {
    Model m = model(s, c); int K = m.K; LILCSR<double> A(K, K); System S(K); dvec F(K);
    if (s.coin()) for (int i = 0; i < K; i++) { F[i] = s.sreal(1.0); S.add(i, F[i]); int j = s.range(0, K - 1); double v = s.sreal(1.0); S.add(i, j, v); A.set(i, j, v); }
    int n = few(s, 1, 6, 40, 20);
    for (int t = 0; t < n; t++) {
        int kind = s.range(0, 6); Element e = element(s, m); LMat Ke = mat(s, e.size); LVec Fe = vec(s, e.size); LMat Ke0 = Ke; LVec Fe0 = Fe; c.desc << "overload " << kind << " element " << pbt::show(e.nodes) << "; "; c.label("overload" + std::to_string(kind));
        if (kind == 0) { Assembling(A, F, m.u, Ke, Fe, m.g, e.map, e.nodes); scatter(m, e, e, Ke0, S, true, true); scatter(m, e, Fe0, S); }
        else if (kind == 1) { Assembling(A, F, m.u, Ke, m.g, e.map, e.nodes); scatter(m, e, e, Ke0, S, true, true); }
        else if (kind == 2) {
            Element h = element(s, m); std::vector<N2E> maps = {e.map, h.map}; std::vector<std::vector<int> > els = {e.nodes, h.nodes}; for (auto& v : maps[1]) for (auto& x : v) x.second += e.size; for (auto& v : h.map) for (auto& x : v) x.second += e.size;
            LMat Kb = mat(s, e.size + h.size), K0 = Kb; Assembling(A, F, m.u, Kb, m.g, maps, els);
            for (auto* x : {&e, &h}) for (auto* y : {&e, &h}) scatter(m, *x, *y, K0, S, true, true);
        }
        else if (kind == 3) { Assembling(A, Ke, m.g, e.map, e.nodes); scatter(m, e, e, Ke0, S, true, false); }
        else if (kind == 4) { Assembling(F, Fe, m.g, e.map, e.nodes); scatter(m, e, Fe0, S); }
        else if (kind == 5) { Assembling(F, m.u, Ke, m.g, e.map, e.nodes); scatter(m, e, e, Ke0, S, false, true); }
        else { Fixed q; int k = s.range(0, 4); for (int l = 0; l < k; l++) { int i = s.range(0, m.nodes - 1), j = s.range(0, m.dofs[i] - 1); double v = unit(s)*s.sreal(2.0); q.push_back({{i, j}, v}); if (m.g[i][j] >= 0) S.add(m.g[i][j], v); } Assembling(F, q, m.g); }
        same(c, ref(Ke), ref(Ke0), 1, 0, "element matrix"); same(c, ref(Fe), ref(Fe0), 1, 0, "element vector");
    }
    matches(c, ref(A), S.K, S.k, "global matrix"); matches(c, F, S.F, S.f, "global vector"); c.nontrivial(K > 0 && (m.fixed || m.tied));
}
LAW(distribution, 30000, 400000, "a solution vector distributed to the nodes: every free or tied component receives its own equation's value, fixed components keep theirs; non-trivial with an equation and a fixed or tied degree of freedom") {
    Model m = model(s, c, 14); dvec r(m.K); for (auto& x : r) x = unit(s)*s.sreal(5.0); std::vector<dvec> e; for (int i = 0; i < m.nodes; i++) { e.push_back(ref(m.u[i])); for (int j = 0; j < m.dofs[i]; j++) if (m.g[i][j] >= 0) e[i][j] = r[m.g[i][j]]; }
    Disassembling(m.u, r, m.g); for (int i = 0; i < m.nodes; i++) same(c, ref(m.u[i]), e[i], 1, 0, "values of node " + std::to_string(i)); c.nontrivial(m.K > 0 && (m.fixed || m.tied));
}
LAW(renewal, 20000, 300000, "conditions removed and others imposed on the same map: the numbering depends on the last conditions only; non-trivial with two nodes and a condition") {
    Model m = model(s, c); RemoveBoundaryConditions(m.g); for (int i = 0; i < m.nodes; i++) { c.check((int)m.g[i].size() == m.dofs[i], "degrees of freedom kept"); for (int x : m.g[i]) c.check(x != -1, "no condition is left"); }
    Fixed f; int nf = s.range(0, m.nodes); std::set<std::pair<int, int> > fx; for (int k = 0; k < nf; k++) { int i = s.range(0, m.nodes - 1), j = s.range(0, m.dofs[i] - 1); f.push_back({{i, j}, 0.0}); fx.insert({i, j}); }
    SetDirichlet(m.g, f); int K = Renumbering(m.g); std::set<int> used; int free = 0; for (int i = 0; i < m.nodes; i++) for (int j = 0; j < m.dofs[i]; j++) { if (fx.count({i, j})) c.check(m.g[i][j] == -1, "fixed"); else { free++; used.insert(m.g[i][j]); c.check(m.g[i][j] >= 0 && m.g[i][j] < K, "range"); } }
    c.check(free == K && (int)used.size() == K, "bijective numbering after renewal"); c.nontrivial(m.nodes >= 2 && !fx.empty());
}
LAW(equivalence, 20000, 300000, "one mesh of elements assembled in two different orders, and as one combined call against a matrix, a condition and a vector call: same system; non-trivial with two equations and a condition") {
    Model m = model(s, c); int K = m.K, n = few(s, 1, 6, 40, 20); std::vector<Element> es; std::vector<LMat> Ks; std::vector<LVec> Fs; for (int i = 0; i < n; i++) { es.push_back(element(s, m)); Ks.push_back(mat(s, es[i].size)); Fs.push_back(vec(s, es[i].size)); }
    std::vector<int> p = s.permutation(n); LILCSR<double> A(K, K), B(K, K); dvec F(K), G(K);
    for (int i = 0; i < n; i++) Assembling(A, F, m.u, Ks[i], Fs[i], m.g, es[i].map, es[i].nodes);
    for (int i : p) { Assembling(G, Fs[i], m.g, es[i].map, es[i].nodes); Assembling(B, Ks[i], m.g, es[i].map, es[i].nodes); Assembling(G, m.u, Ks[i], m.g, es[i].map, es[i].nodes); }
    System S(K); for (int i = 0; i < n; i++) { scatter(m, es[i], es[i], Ks[i], S, true, true); scatter(m, es[i], Fs[i], S); } matches(c, ref(B), ref(A), S.k, "matrix"); matches(c, G, F, S.f, "vector"); c.nontrivial(K >= 2 && (m.fixed || m.tied));
}
