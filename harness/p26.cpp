#include <cassert>
#include "util.h"
#include "PrePost/Export/ExportToVTK.h"
#include "PrePost/Import/ImportFromVTK.h"
#define ImportModelFromVTK ImportMeshFromVTK
#include "PrePost/Import/ImportFromVTK2.h"
#undef ImportModelFromVTK
#include "PrePost/Import/ImportFromCSV.h"
using namespace PANSFEM2;
typedef std::vector<std::vector<int> > Cells; typedef std::vector<std::pair<std::pair<int, int>, double> > Conditions;
// A file that exists in memory only: nothing is written to any directory
struct File { int fd; std::string name; File() { fd = memfd_create("pbt", 0); if (fd < 0) throw std::runtime_error("memfd"); name = "/proc/self/fd/" + std::to_string(fd); } ~File() { ::close(fd); } void write(const std::string& t) { std::ofstream o(name); o << t; } std::string read() { std::ifstream i(name); std::ostringstream o; o << i.rdbuf(); return o.str(); } };
struct Field { std::string name; int kind; std::vector<dvec> v; };      // kinds: 0 point scalars, 1 point vectors, 2 cell scalars, 3 cell vectors, 4 point scalars written from one-component vectors
static double value(pbt::Src& s) { int k = s.range(0, 5); if (k == 0) return 0.0; if (k == 1) return s.srange(100000); double v = k == 2 ? s.real(0, 1) : k == 3 ? s.logreal(1e-30, 1e30) : s.logreal(1e-3, 1e6); return s.coin() ? -v : v; }
static std::string name(pbt::Src& s, const std::vector<Field>& used) { static const char* n[] = {"u", "s", "T", "u1", "uu", "rho", "U", "stress_xx", "_", "float", "default", "7", "p-q", "u,v"}; std::string t = n[s.range(0, 13)]; auto taken = [&] { for (auto& f : used) if (f.name == t) return true; return false; }; while (taken()) t += (char)('a' + s.range(0, 2)); return t; }
struct Model { int dim; std::vector<dvec> x; Cells el; std::vector<int> type; std::vector<Field> fields; };
static Model model(pbt::Src& s, pbt::Ctx& c, bool cellvectors) {
    Model m; m.dim = s.range(1, 3); int n = few(s, 1, 12, 300, 20), e = few(s, 1, 8, 150, 20); for (int i = 0; i < n; i++) { m.x.push_back(dvec(m.dim)); for (auto& v : m.x.back()) v = value(s); } for (int i = 0; i < e; i++) { m.el.push_back(std::vector<int>(s.range(1, 8))); for (int& v : m.el.back()) v = s.range(0, n - 1); m.type.push_back(s.range(1, 25)); }
    // fields of the points come before those of the cells
    int np = s.range(0, 4), nc = s.range(0, 3); for (int k = 0; k < np + nc; k++) { Field f; f.kind = k < np ? s.pick(std::vector<int>{0, 1, 4}) : (cellvectors ? s.range(2, 3) : 2); f.name = name(s, m.fields); int comp = f.kind == 1 || f.kind == 3 ? m.dim : 1; f.v.assign(k < np ? n : e, dvec(comp)); for (auto& v : f.v) for (double& t : v) t = value(s); m.fields.push_back(f); }
    c.desc << m.dim << "D, " << n << " points, " << e << " cells, fields"; for (auto& f : m.fields) c.desc << " " << f.name << "/" << f.kind; c.nontrivial(m.fields.size() >= 2); return m;
}
static std::vector<LVec> vecs(const std::vector<dvec>& v) { std::vector<LVec> r; for (auto& x : v) r.push_back(lib(x)); return r; }
static dvec flat(const std::vector<dvec>& v) { dvec r; for (auto& x : v) r.push_back(x[0]); return r; }
// written by the library
static void exported(const Model& m, const std::string& file) {
    std::ofstream o(file); MakeHeadderToVTK(o); AddPointsToVTK(vecs(m.x), o); AddElementToVTK(m.el, o); AddElementTypes(m.type, o); bool p = true, q = true;
    for (auto& f : m.fields) { if (f.kind == 0) AddPointScalers(flat(f.v), f.name, o, p); if (f.kind == 4) AddPointScalers(vecs(f.v), f.name, o, p); if (f.kind == 1) AddPointVectors(vecs(f.v), f.name, o, p); if (f.kind == 2) AddElementScalers(flat(f.v), f.name, o, q); (f.kind == 2 ? q : p) = false; }
}
// the same by the rules of the format alone
static std::string written(pbt::Src& s, const Model& m) {
    std::ostringstream o; o.precision(12); const char* sep = s.coin() ? " " : "\t"; std::string gap = s.coin() ? "\n" : ""; auto triple = [&](const dvec& v) { for (int i = 0; i < 3; i++) o << (i < (int)v.size() ? v[i] : 0.0) << (i < 2 ? sep : "\n"); }; o << "# vtk DataFile Version 4.1\nvtk output\nASCII\nDATASET UNSTRUCTURED_GRID\n" << gap << "POINTS" << sep << m.x.size() << sep << "float\n"; for (auto& v : m.x) triple(v); size_t n = 0; for (auto& e : m.el) n += e.size() + 1; o << gap << "CELLS" << sep << m.el.size() << sep << n << "\n"; for (auto& e : m.el) { o << e.size(); for (int i : e) o << sep << i; o << "\n"; } o << gap << "CELL_TYPES" << sep << m.type.size() << "\n"; for (int t : m.type) o << t << "\n"; bool p = true, q = true;
    for (auto& f : m.fields) { bool cell = f.kind == 2 || f.kind == 3, vec = f.kind == 1 || f.kind == 3; bool& first = cell ? q : p; if (first) o << gap << (cell ? "CELL_DATA" : "POINT_DATA") << sep << f.v.size() << "\n"; first = false; o << (vec ? "VECTORS" : "SCALARS") << " " << f.name << " float\n"; if (!vec) o << "LOOKUP_TABLE default\n"; for (auto& v : f.v) { if (vec) triple(v); else o << v[0] << "\n"; } } return o.str();
}
static void close_to(pbt::Ctx& c, double got, double want, const std::string& what) { c.near(got, want, std::fabs(want), 5.1e-6, what); }
// a reader of the legacy format, token by token
struct Reader { pbt::Ctx& c; std::istringstream in; Reader(pbt::Ctx& c_, const std::string& t) : c(c_), in(t) {} std::string word() { std::string w; c.check(!!(in >> w), "file ends too early"); return w; } void expect(const std::string& w) { std::string g = word(); c.check(g == w, "expected " + w + " in the file, found " + g); } double number() { std::string w = word(); char* e; double v = strtod(w.c_str(), &e); c.check(*e == 0, "not a number in the file: " + w); return v; } long integer() { std::string w = word(); char* e; long v = strtol(w.c_str(), &e, 10); c.check(*e == 0, "not an integer in the file: " + w); return v; } };
static void conforms(pbt::Ctx& c, const Model& m, const std::string& t) {
    Reader r(c, t); std::string line; for (int i = 0; i < 4; i++) { c.check(!!std::getline(r.in, line), "file ends too early"); if (i == 0) c.check(line.rfind("# vtk DataFile Version", 0) == 0, "first line"); if (i == 2) c.check(line == "ASCII", "third line"); if (i == 3) c.check(line == "DATASET UNSTRUCTURED_GRID", "fourth line"); } r.expect("POINTS"); c.check(r.integer() == (long)m.x.size(), "number of points"); r.word(); for (auto& v : m.x) for (int i = 0; i < 3; i++) close_to(c, r.number(), i < m.dim ? v[i] : 0.0, "coordinate in the file");
    size_t n = 0; for (auto& e : m.el) n += e.size() + 1; r.expect("CELLS"); c.check(r.integer() == (long)m.el.size(), "number of cells"); c.check(r.integer() == (long)n, "size of the cell list"); for (auto& e : m.el) { c.check(r.integer() == (long)e.size(), "size of a cell"); for (int i : e) c.check(r.integer() == i, "node of a cell"); } r.expect("CELL_TYPES"); c.check(r.integer() == (long)m.type.size(), "number of cell types"); for (int k : m.type) c.check(r.integer() == k, "cell type"); int section = 0;
    for (auto& f : m.fields) { int sec = f.kind == 2 ? 2 : 1; if (sec != section) { r.expect(sec == 2 ? "CELL_DATA" : "POINT_DATA"); c.check(r.integer() == (long)f.v.size(), "number of values"); section = sec; } r.expect(f.kind == 1 ? "VECTORS" : "SCALARS"); r.expect(f.name); r.word(); if (f.kind != 1) { r.expect("LOOKUP_TABLE"); r.expect("default"); } for (auto& v : f.v) for (int i = 0; i < (f.kind == 1 ? 3 : 1); i++) close_to(c, r.number(), i < (int)v.size() ? v[i] : 0.0, "field value in the file"); } std::string rest; c.check(!(r.in >> rest), "something after the last field");
}
template<class I> static void points(pbt::Ctx& c, const Model& m, I& in, int d) { auto p = in.ImportPOINTS(); c.check(p.size() == m.x.size(), "number of points read"); for (size_t i = 0; i < p.size(); i++) { c.check(p[i].SIZE() == d, "dimension of a point"); for (int k = 0; k < d; k++) close_to(c, p[i](k), k < m.dim ? m.x[i][k] : 0.0, "coordinate read"); } }
static void field(pbt::Ctx& c, const Field& f, const std::vector<LVec>& v, const dvec& t, bool vec, int d) { size_t n = vec ? v.size() : t.size(); c.check(n == f.v.size(), "number of values of " + f.name + " read: " + std::to_string(n)); for (size_t i = 0; i < n; i++) { if (!vec) close_to(c, t[i], f.v[i][0], "scalar read"); else { LVec w = v[i]; c.check(w.SIZE() == d, "dimension of a vector"); for (int k = 0; k < d; k++) close_to(c, w(k), k < (int)f.v[i].size() ? f.v[i][k] : 0.0, "vector read"); } } }
LAW(vtk, 15000, 300000, "models with 1..12 (at times 300) points in 1-3 dimensions, 1..8 (at times 150) cells of 1..8 nodes, up to 7 named fields of points and cells, exported by the library or written by the rules of the format (then with vectors of cells too): the file conforms, points, cells and fields are imported to the printed precision in any order of 1..12 requests, repeated and with names that do not occur; non-trivial with two fields or more") {
    bool own = s.coin(); Model m = model(s, c, own); File f; if (own) f.write(written(s, m)); else { exported(m, f.name); conforms(c, m, f.read()); } int d = s.chance(1, 3) ? s.range(1, 3) : m.dim; ImportModelFromVTK<double> in(f.name, d); c.desc << (own ? ", written" : ", exported") << ", requests"; int n = s.range(1, 12);
    for (int q = 0; q < n; q++) { int k = s.range(0, 3); if (k == 0) { c.desc << " points"; points(c, m, in, d); } else if (k == 1) { c.desc << " cells"; c.check(in.ImportCELLS() == m.el, "cells read"); } else { std::string nm; int want; const Field* f = nullptr; if (!m.fields.empty() && !s.chance(1, 4)) { f = &s.pick(m.fields); nm = f->name; want = f->kind == 4 ? 0 : f->kind; if (s.chance(1, 6)) { want = (want + s.range(1, 3))%4; f = nullptr; } } else { nm = name(s, m.fields); want = s.range(0, 3); }
            c.desc << " " << nm << "/" << want; bool vec = want%2; std::vector<LVec> v; dvec t; if (want == 0) t = in.ImportPOINTSCALARS(nm); if (want == 1) v = in.ImportPOINTVECTORS(nm); if (want == 2) t = in.ImportCELLSCALARS(nm); if (want == 3) v = in.ImportCELLVECTORS(nm); if (f) field(c, *f, v, t, vec, d); else c.check(v.empty() && t.empty(), "values for a field that is not in the file"); } }
}
LAW(vtk_mesh, 10000, 200000, "the same models read by the second importer (points and cells only), 1..5 requests in any order; non-trivial with two fields or more in the file") {
    bool own = s.coin(); Model m = model(s, c, own); File f; if (own) f.write(written(s, m)); else exported(m, f.name); ImportMeshFromVTK<double> in(f.name); int n = s.range(1, 5); for (int q = 0; q < n; q++) { if (s.coin()) { auto p = in.GenerateNodes(); c.check(p.size() == m.x.size(), "number of points read"); for (size_t i = 0; i < p.size(); i++) { c.check(p[i].SIZE() == 3, "a point has three coordinates"); for (int k = 0; k < 3; k++) close_to(c, p[i](k), k < m.dim ? m.x[i][k] : 0.0, "coordinate read"); } } else c.check(in.GenerateElements() == m.el, "cells read"); }
}
struct Table { std::vector<int> id; std::vector<dvec> v; std::vector<std::vector<char> > free; };
static std::string csv(pbt::Src& s, pbt::Ctx& c, const std::vector<std::string>& rows) { std::string nl = s.coin() ? "\n" : "\r\n"; std::ostringstream o; o << (s.coin() ? "id,x,y,z" : "id of it, a header with blanks") << nl; for (size_t i = 0; i < rows.size(); i++) { o << rows[i]; if (i + 1 < rows.size() || s.coin()) o << nl; if (s.chance(1, 8)) o << nl; } c.desc << " rows " << pbt::show(rows); return o.str(); }
static std::string text(pbt::Src& s, double v) { char b[64]; snprintf(b, sizeof b, s.coin() ? "%.17g" : "%.16e", v); return b; }
LAW(csv, 20000, 400000, "CSV tables of 0..10 (at times 250) rows for nodes (1-3 coordinates), elements (1..8 nodes), prescribed values and loads (1..6 columns, some free), initial values and periodic pairs, with either line end, with and without a final one, with blank lines, read into empty or filled lists: read completely, exactly and in order, what was there before kept, free entries give nothing; non-trivial with two rows or more") {
    int what = s.range(0, 5), n = few(s, 0, 10, 250, 20), cols = s.range(1, what == 1 ? 8 : what == 0 ? 3 : 6); std::vector<std::string> rows; std::vector<int> id; std::vector<dvec> v; std::vector<std::vector<char> > open; std::vector<int> perm = s.permutation(n);
    for (int i = 0; i < n; i++) { int k = what == 5 || what == 0 ? i : perm[i]; if (what == 2 || what == 3) k = s.range(0, 200); id.push_back(what == 4 ? perm[i] : k); int w = what == 1 ? s.range(1, cols) : what == 5 ? 1 : cols; dvec r; std::vector<char> fr; std::string t = std::to_string(id.back()); for (int j = 0; j < w; j++) { bool integer = what == 1 || what == 5; double x = integer ? s.range(0, 999) : value(s); bool f = what >= 2 && what <= 4 && s.chance(1, 3); r.push_back(x); fr.push_back(f); t += "," + (f ? "free" : integer ? std::to_string((int)x) : text(s, x)); } rows.push_back(t); v.push_back(r); open.push_back(fr); }
    static const char* kinds[] = {"nodes", "elements", "Dirichlet", "Neumann", "initial", "periodic"}; c.desc << kinds[what]; c.label(kinds[what]); File f; f.write(csv(s, c, rows)); bool filled = s.coin(); c.nontrivial(n >= 2);
    if (what == 0) { std::vector<LVec> x; if (filled) x.push_back(lib(dvec{7, 8})); size_t b = x.size(); c.check(ImportNodesFromCSV(x, f.name), "not read"); c.check(x.size() == b + n, "number of nodes"); if (filled) c.check(x[0].SIZE() == 2 && x[0](1) == 8, "what was there before"); for (int i = 0; i < n; i++) { c.check(x[b + i].SIZE() == cols, "coordinates"); for (int j = 0; j < cols; j++) c.check(x[b + i](j) == v[i][j], "coordinate"); } }
    if (what == 1) { Cells e; if (filled) e.push_back({7, 8}); Cells want = e; for (auto& r : v) want.push_back(std::vector<int>(r.begin(), r.end())); c.check(ImportElementsFromCSV(e, f.name), "not read"); c.check(e == want, "elements"); }
    if (what == 2 || what == 3) { Conditions q; if (filled) q.push_back({{7, 8}, 9}); Conditions want = q; for (int i = 0; i < n; i++) for (int j = 0; j < cols; j++) if (!open[i][j]) want.push_back({{id[i], j}, v[i][j]}); c.check(what == 2 ? ImportDirichletFromCSV(q, f.name) : ImportNeumannFromCSV(q, f.name), "not read"); c.check(q == want, "conditions"); }
    if (what == 4) { int all = n + s.range(0, 3); std::vector<dvec> u; for (int i = 0; i < all; i++) { u.push_back(dvec(cols)); for (double& t : u.back()) t = s.srange(50); } auto x = vecs(u); for (int i = 0; i < n; i++) for (int j = 0; j < cols; j++) if (!open[i][j]) u[id[i]][j] = v[i][j]; c.check(ImportInitialFromCSV(x, f.name), "not read"); for (int i = 0; i < all; i++) c.check(ref(x[i]) == u[i], "initial values"); }
    if (what == 5) { std::vector<std::pair<int, int> > q; if (filled) q.push_back({7, 8}); auto want = q; for (int i = 0; i < n; i++) want.push_back({id[i], (int)v[i][0]}); c.check(ImportPeriodicFromCSV(q, f.name), "not read"); c.check(q == want, "pairs"); }
}
LAW(missing, 300, 3000, "files that do not exist, lists empty or filled: the CSV importers say so, answer false and leave the data alone, the VTK importer says so and gives nothing; non-trivial when the lists are filled") {
    std::string none = "/proc/self/fd/999" + std::to_string(s.range(0, 9)) + (s.coin() ? "" : "/x.csv"); bool filled = s.coin(); int what = s.range(0, 6); c.nontrivial(filled); c.desc << what << " " << none; std::vector<LVec> x; Cells e; Conditions q; std::vector<std::pair<int, int> > p; if (filled) { x.push_back(lib(dvec{7, 8})); e.push_back({1, 2}); q.push_back({{1, 2}, 3}); p.push_back({4, 5}); } auto e0 = e; auto q0 = q; auto p0 = p; bool r = false;
    switch (what) { case 0: r = ImportNodesFromCSV(x, none); break; case 1: r = ImportElementsFromCSV(e, none); break; case 2: r = ImportDirichletFromCSV(q, none); break; case 3: r = ImportNeumannFromCSV(q, none); break; case 4: r = ImportInitialFromCSV(x, none); break; case 5: r = ImportPeriodicFromCSV(p, none); break; default: { ImportModelFromVTK<double> in(none, 2); c.check(in.ImportPOINTS().empty() && in.ImportCELLS().empty() && in.ImportPOINTSCALARS("u").empty() && in.ImportPOINTVECTORS("u").empty() && in.ImportCELLSCALARS("u").empty() && in.ImportCELLVECTORS("u").empty(), "data out of nothing"); } }
    c.check(!r, "answers true"); c.check(c.printed().find(none) != std::string::npos, "the missing file is not reported"); c.check(e == e0 && q == q0 && p == p0 && x.size() == (filled ? 1u : 0u) && (!filled || (x[0].SIZE() == 2 && x[0](0) == 7 && x[0](1) == 8)), "data changed");
}
