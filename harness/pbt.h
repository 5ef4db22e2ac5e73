// A small property-based testing engine.
//
// Every random decision of a case is an integer drawn from a recorded choice stream (Src).  A case is a pure
// function of (code under test, choice stream): the stream is produced by a PRNG seeded with
// (VERIF_SEED, law name, case index), a failing stream is shrunk (delete / zero / halve / decrement choices), and the
// shrunk stream is the replay file.  Cases run in forked worker processes, so that a crash, a failed assertion, a
// sanitizer report or an endless loop in the code under test is one failing case, not the end of the run.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <chrono>
#include <memory>
#include <limits>

#include <csignal>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>

namespace pbt {
struct Failure { std::string msg; };
struct Reject {};

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30))*0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27))*0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t hashstr(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ULL; }
    return h;
}

class Src {
public:
    explicit Src(uint64_t seed) : state(seed), replaying(false) {}
    explicit Src(const std::vector<uint64_t>& r) : state(0), replaying(true), replay(r) {}
    // An integer in [0, max]; 0 is the simplest value.
    uint64_t draw(uint64_t max) {
        uint64_t v;
        if (replaying) v = rec.size() < replay.size() ? replay[rec.size()] : 0;
        else { state = mix(state + 0x632be59bd9b4e019ULL); v = max == UINT64_MAX ? state : state%(max + 1); }
        if (v > max) v = max;
        rec.push_back(v);
        if (rec.size() > 400000) throw Reject();
        return v;
    }
    int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo)); }      // shrinks to lo
    int srange(int m) { uint64_t v = draw(2*(uint64_t)m); return (v%2) ? (int)((v + 1)/2) : -(int)(v/2); }  // shrinks to 0
    bool chance(int num, int den) { return (int)draw(den - 1) >= den - num; }           // shrinks to false
    bool coin() { return draw(1) == 1; }
    // A real number in [lo, hi]; one in four comes from a coarse grid (so that equal and boundary values occur).
    double real(double lo, double hi) {
        if (draw(3) == 0) return lo + (hi - lo)*(double)draw(8)/8.0;
        return lo + (hi - lo)*((double)draw(1 << 26)/(double)(1 << 26));
    }
    double fine(double lo, double hi) { return lo + (hi - lo)*((double)draw(1 << 26)/(double)(1 << 26)); }
    // A positive number spread over orders of magnitude.
    double logreal(double lo, double hi) { return lo*std::pow(hi/lo, real(0.0, 1.0)); }
    double sreal(double m) {                                                        // shrinks to 0
        uint64_t k = draw(3);
        if (k == 0) return m*srange(8)/8.0;
        uint64_t v = draw(1 << 27);
        double a = (double)((v + 1)/2)/(double)(1 << 26);
        return (v%2) ? m*a : -m*a;
    }
    // Never closer to zero than m/64
    double nonzero(double m) { double v = real(1.0/64.0, 1.0); return coin() ? -m*v : m*v; }
    template<class C> const typename C::value_type& pick(const C& c) { return c[(size_t)draw(c.size() - 1)]; }
    std::vector<int> permutation(int n) {
        std::vector<int> p(n);
        for (int i = 0; i < n; i++) p[i] = i;
        for (int i = 0; i + 1 < n; i++) std::swap(p[i], p[i + (int)draw(n - 1 - i)]);
        return p;
    }
    std::vector<uint64_t> rec;
private:
    uint64_t state;
    bool replaying;
    std::vector<uint64_t> replay;
};

class Ctx {
public:
    bool nontriv = false;
    std::ostringstream desc;            // the case, written out
    std::vector<std::string> labels;
    std::ostringstream out;             // what the code under test wrote to std::cout
    bool thorough = false;
    void nontrivial(bool b = true) { nontriv = b; }
    void label(const std::string& l) { labels.push_back(l); }
    std::string printed() const { return out.str(); }
    void clear_printed() { out.str(""); }
    void fail(const std::string& m) { throw Failure{m}; }
    void check(bool ok, const std::string& m) { if (!ok) fail(m); }
    // |a - b| <= tol*scale ; NaN fails
    void near(double a, double b, double scale, double tol, const std::string& what) {
        if (!(std::fabs(a - b) <= tol*scale)) {
            std::ostringstream o; o.precision(17);
            o << what << ": got " << a << ", expected " << b << " (|diff| " << std::fabs(a - b) << " > " << tol*scale << ")";
            fail(o.str());
        }
    }
    void atmost(double a, double b, const std::string& what) {
        if (!(a <= b)) { std::ostringstream o; o.precision(17); o << what << ": " << a << " > " << b; fail(o.str()); }
    }
};
template<class T> inline std::string show(const std::vector<T>& v) {
    std::ostringstream o; o << "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; o << v[i]; }
    o << "]"; return o.str();
}

typedef void (*LawFn)(Src&, Ctx&);
struct Law { std::string name; LawFn fn; long quick, thorough; bool finding; std::string about; };
inline std::vector<Law>& laws() { static std::vector<Law> l; return l; }
struct Reg { Reg(const char* n, LawFn f, long q, long t, bool finding, const char* about) { laws().push_back({n, f, q, t, finding, about}); } };
// LAW(name, cases in the quick tier, cases in the thorough tier, what is generated and what is non-trivial)
#define LAW(name, q, t, about) \
    static void law_##name(pbt::Src& s, pbt::Ctx& c); \
    static pbt::Reg reg_##name(#name, law_##name, q, t, false, about); \
    static void law_##name([[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Ctx& c)
// A probe of a recorded defect: one deterministic case; its failure is a KNOWN-FINDING when the file lists it.
#define FINDING(name, about) \
    static void law_##name(pbt::Src& s, pbt::Ctx& c); \
    static pbt::Reg reg_##name(#name, law_##name, 1, 1, true, about); \
    static void law_##name([[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Ctx& c)

enum Outcome { PASS = 0, FAIL = 1, REJECT = 2, CRASH = 3, HANG = 4 };
struct Result { Outcome o = PASS; std::string msg; std::vector<uint64_t> rec; bool nontriv = false; std::vector<std::string> labels; std::string desc; };

inline Result run_once(const Law& l, Src& s, bool thorough) {
    Result r; Ctx c; c.thorough = thorough;
    c.desc.precision(6);
    std::streambuf* old = std::cout.rdbuf(c.out.rdbuf());
    std::cout.clear();
    try { l.fn(s, c); }
    catch (Failure& f) { r.o = FAIL; r.msg = f.msg; }
    catch (Reject&) { r.o = REJECT; }
    catch (std::exception& e) { r.o = FAIL; r.msg = std::string("exception: ") + e.what(); }
    std::cout.rdbuf(old);
    r.rec = s.rec; r.nontriv = c.nontriv; r.labels = c.labels; r.desc = c.desc.str();
    return r;
}

struct Shared { volatile int law; volatile long idx; volatile long serial; };

inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

inline double CASE_CPU() { const char* e = getenv("PBT_CASE_CPU"); return e ? atof(e) : 20.0; }
inline void arm(double cpu) {
    struct itimerval it; std::memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (long)cpu; it.it_value.tv_usec = (long)((cpu - (long)cpu)*1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}
inline std::string sigtext(int st) {
    std::ostringstream o;
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGPROF) o << "no result within the CPU limit of a case (endless loop)";
        else o << "process ended by signal " << sg << " (" << strsignal(sg) << ")";
    } else o << "process ended with exit status " << WEXITSTATUS(st) << " (sanitizer report or exit inside the library)";
    return o.str();
}
inline std::string slurp(const std::string& f, size_t lim = 3000) {
    std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); std::string t = o.str();
    return t.size() > lim ? t.substr(0, lim) : t;
}
inline void quiet_stdio(const std::string& errfile) {
    int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 1); close(n); }
    int e = open(errfile.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0600); if (e >= 0) { dup2(e, 2); close(e); }
}

// Run one case in a child of its own.
inline Result isolated(const Law& l, const std::vector<uint64_t>& choices, bool thorough, double cpu, const std::string& scratch) {
    int p[2]; if (pipe(p)) { perror("pipe"); exit(2); }
    std::string err = scratch + "/stderr.iso";
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]); quiet_stdio(err); arm(cpu);
        Src s(choices);
        Result r = run_once(l, s, thorough);
        std::ostringstream o; o << (int)r.o << "\n" << r.rec.size() << "\n";
        for (auto v : r.rec) o << v << " ";
        o << "\n" << r.msg << "\n\x01\n" << r.desc;
        std::string t = o.str(); size_t off = 0;
        while (off < t.size()) { ssize_t k = write(p[1], t.data() + off, t.size() - off); if (k <= 0) break; off += k; }
        _exit(0);
    }
    close(p[1]);
    std::string t; char buf[65536];
    double t0 = now(); bool wall = false;
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    for (;;) {
        ssize_t k = read(p[0], buf, sizeof buf);
        if (k > 0) t.append(buf, k);
        else if (k == 0) break;
        else { usleep(500); if (now() - t0 > 4*cpu + 30) { wall = true; kill(pid, SIGKILL); break; } }
    }
    close(p[0]);
    int st; waitpid(pid, &st, 0);
    Result r;
    if (wall) { r.o = HANG; r.msg = "no result within the wall-clock limit of a case"; r.rec = choices; return r; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        std::istringstream i(t); int o; size_t n; i >> o >> n; r.o = (Outcome)o; r.rec.resize(n);
        for (auto& v : r.rec) i >> v;
        std::string rest; std::getline(i, rest);
        std::ostringstream q; q << i.rdbuf(); rest = q.str();
        size_t sep = rest.find("\n\x01\n");
        r.msg = rest.substr(0, sep); if (sep != std::string::npos) r.desc = rest.substr(sep + 3);
        return r;
    }
    r.o = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF ? HANG : CRASH;
    r.msg = sigtext(st); std::string e = slurp(err); if (!e.empty()) r.msg += "\n" + e;
    r.rec = choices;
    return r;
}
inline bool bad(const Result& r) { return r.o == FAIL || r.o == CRASH || r.o == HANG; }

inline std::vector<uint64_t> shrink(const Law& l, std::vector<uint64_t> best, bool thorough, const std::string& scratch, Outcome kind) {
    double t0 = now(); int tries = 0;
    double cpu = kind == HANG ? CASE_CPU()/2 : CASE_CPU();
    int maxtries = kind == HANG ? 6 : 1500;
    auto attempt = [&](std::vector<uint64_t> cand) {
        if (cand == best || tries >= maxtries || now() - t0 > 60) return false;
        tries++;
        Result r = isolated(l, cand, thorough, cpu, scratch);
        if (!bad(r) || r.o != kind) return false;
        std::vector<uint64_t> rec = r.o == FAIL ? r.rec : cand;
        while (!rec.empty() && rec.back() == 0) rec.pop_back();
        if (rec.size() < best.size() || (rec.size() == best.size() && rec < best)) { best = rec; return true; }
        return false;
    };
    bool progress = true;
    while (progress && tries < maxtries && now() - t0 < 60) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.size()/2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.size();) {
                std::vector<uint64_t> cand = best; cand.erase(cand.begin() + i, cand.begin() + i + len);
                if (attempt(cand)) progress = true; else i += len;
                if (tries >= maxtries) break;
            }
            if (len == 1) break;
        }
        for (size_t len = std::max<size_t>(1, best.size()/2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.size(); i += len) {
                std::vector<uint64_t> cand = best; std::fill(cand.begin() + i, cand.begin() + i + len, 0);
                if (attempt(cand)) progress = true;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < best.size(); i++) {
            uint64_t lo = 0, v = best[i];
            while (lo < v && i < best.size() && best[i] == v) {
                uint64_t mid = lo + (v - lo)/2;
                std::vector<uint64_t> cand = best; cand[i] = mid;
                if (attempt(cand)) { progress = true; if (i >= best.size()) break; v = best[i]; }
                else lo = mid + 1;
            }
        }
    }
    return best;
}

inline std::string jesc(const std::string& s) {
    std::ostringstream o;
    for (unsigned char ch : s) {
        if (ch == '"') o << "\\\""; else if (ch == '\\') o << "\\\\"; else if (ch == '\n') o << "\\n"; else if (ch == '\t') o << "\\t";
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o << b; } else o << ch;
    }
    return o.str();
}

// main: harness --property P --tier quick|thorough --seed N --share F --stats FILE --replaydir DIR [--known FILE] [--law L]
//       harness --replay FILE
inline int engine_main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto get = [&](const char* k, const char* d) { auto it = a.find(k); return it == a.end() ? std::string(d) : it->second; };
    bool thorough = get("--tier", "quick") == "thorough";
    std::string scratch = get("--scratch", "/tmp"); mkdir(scratch.c_str(), 0700);
    setenv("PBT_SCRATCH", scratch.c_str(), 1);
    if (a.count("--replay")) {
        std::ifstream f(a["--replay"]); std::string key, lawname; std::vector<uint64_t> ch; std::string line;
        while (std::getline(f, line)) {
            std::istringstream i(line); i >> key;
            if (key == "law") i >> lawname;
            else if (key == "tier") { std::string t; i >> t; thorough = t == "thorough"; }
            else if (key == "choices") { uint64_t v; while (i >> v) ch.push_back(v); }
        }
        for (auto& l : laws()) if (l.name == lawname) {
            Result r = isolated(l, ch, thorough, 60, scratch);
            printf("%s law=%s\ncase: %s\n%s\n", bad(r) ? "FAIL" : r.o == REJECT ? "REJECT" : "PASS", lawname.c_str(), r.desc.c_str(), r.msg.c_str());
            return bad(r) ? 1 : 0;
        }
        fprintf(stderr, "no law %s\n", lawname.c_str()); return 2;
    }
    std::string property = get("--property", "?");
    uint64_t seed = strtoull(get("--seed", "1").c_str(), nullptr, 10);
    double share = atof(get("--share", "1.0").c_str());
    std::string only = get("--law", "");
    std::string tag = get("--tag", "plain");
    int W = atoi(get("--jobs", "8").c_str());
    double deadline = now() + atof(get("--budget", thorough ? "6000" : "420").c_str());
    std::string replaydir = get("--replaydir", "."); mkdir(replaydir.c_str(), 0755);
    std::vector<std::string> known;
    { std::ifstream f(get("--known", "/dev/null")); std::string line; while (std::getline(f, line)) known.push_back(line); }
    double t0 = now();

    std::vector<long> count(laws().size());
    for (size_t i = 0; i < laws().size(); i++) {
        if (!only.empty() && laws()[i].name != only) { count[i] = 0; continue; }
        if (laws()[i].finding) { count[i] = tag == "plain" ? 1 : 0; continue; }
        long q = thorough ? laws()[i].thorough : laws()[i].quick;
        count[i] = std::max<long>(1, (long)std::ceil(q*share));
    }
    auto caseseed = [&](int li, long idx) { return mix(mix(seed*1000003ULL + hashstr(laws()[li].name)) + hashstr(tag)*31 + (uint64_t)idx*0x9e3779b97f4a7c15ULL); };

    struct W_ { pid_t pid = -1; Shared* sh = nullptr; long lastserial = -1; double lastt = 0; bool done = false; std::string out, err; };
    std::vector<W_> ws(W);
    struct Fail_ { int law; long idx; Outcome kind; };
    std::vector<Fail_> fails;
    std::vector<std::string> outs;
    // A worker handles the cases idx with idx%W == w of every law, in order; (fl, fi) is where it starts.
    auto spawn = [&](int w, int fl, long fi, int gen) {
        W_& k = ws[w];
        if (!k.sh) k.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
        k.sh->law = fl; k.sh->idx = fi; k.sh->serial = 0; k.lastserial = -1; k.lastt = now(); k.done = false;
        k.out = scratch + "/w" + std::to_string(w) + "." + std::to_string(gen); k.err = k.out + ".err";
        outs.push_back(k.out);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid) { k.pid = pid; return; }
        quiet_stdio(k.err);
        std::vector<long> ev(laws().size(), 0), rj(laws().size(), 0);
        std::map<std::string, long> labels;
        std::vector<std::unordered_set<uint64_t> > seen(laws().size());
        std::vector<std::vector<std::string> > samples(laws().size());
        std::ofstream fo(k.out);
        auto flush_stats = [&]() {
            for (size_t i = 0; i < laws().size(); i++) {
                fo << "L " << i << " " << ev[i] << " " << rj[i] << "\n";
                for (auto h : seen[i]) fo << "H " << i << " " << h << "\n";
                for (auto& t : samples[i]) { std::string u = t; std::replace(u.begin(), u.end(), '\n', ' '); fo << "S " << i << " " << u << "\n"; }
            }
            for (auto& kv : labels) fo << "T " << kv.second << " " << kv.first << "\n";
            fo.flush();
        };
        bool expired = false;
        for (int li = fl; li < (int)laws().size() && !expired; li++) {
            long start = li == fl ? fi : w;
            for (long idx = start; idx < count[li]; idx += W) {
                if (now() > deadline) { expired = true; break; }
                k.sh->law = li; k.sh->idx = idx; k.sh->serial = k.sh->serial + 1;
                arm(CASE_CPU());
                Src s(caseseed(li, idx));
                Result r = run_once(laws()[li], s, thorough);
                ev[li]++;
                if (r.o == REJECT) { rj[li]++; continue; }
                for (auto& t : r.labels) labels[laws()[li].name + "/" + t]++;
                if (r.nontriv && r.o == PASS) {
                    uint64_t h = 0; for (auto v : r.rec) h = mix(h ^ v);
                    seen[li].insert(h);
                    if (samples[li].size() < 1) samples[li].push_back(r.desc.substr(0, 400));
                }
                if (r.o == FAIL) { fo << "F " << li << " " << idx << "\n"; fo.flush(); flush_stats(); _exit(0); }
            }
        }
        arm(0);
        if (expired) fo << "X\n";
        fo << "D\n";
        flush_stats();
        fo.close();
        _exit(0);
    };
    int gen = 0;
    for (int w = 0; w < W; w++) spawn(w, 0, w, gen);
    int live = W;
    std::vector<int> lawfails(laws().size(), 0);
    while (live > 0) {
        usleep(2000);
        for (int w = 0; w < W; w++) {
            W_& k = ws[w]; if (k.done) continue;
            int st; pid_t r = waitpid(k.pid, &st, WNOHANG);
            if (r == 0) {
                if (k.sh->serial != k.lastserial) { k.lastserial = k.sh->serial; k.lastt = now(); }
                else if (now() - k.lastt > 6*CASE_CPU() + 60) { kill(k.pid, SIGKILL); }
                continue;
            }
            int fl = -1; long fi = -1; Outcome kind = FAIL;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                std::ifstream f(k.out); std::string t; bool failed = false;
                while (f >> t) { if (t == "F") { f >> fl >> fi; failed = true; break; } if (t == "D") break; std::string rest; std::getline(f, rest); }
                if (!failed) { k.done = true; live--; continue; }
            } else {
                fl = k.sh->law; fi = k.sh->idx;
                kind = WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGKILL) ? HANG : CRASH;
            }
            fails.push_back({fl, fi, kind}); lawfails[fl]++;
            // go on behind the failing case, or behind the whole law once it has failed
            long nx = fi + W;
            int nl = fl;
            if (lawfails[fl] >= 1) { count[fl] = std::min<long>(count[fl], 0); nl = fl + 1; nx = w; }
            if (nl >= (int)laws().size() || now() > deadline) { k.done = true; live--; continue; }
            spawn(w, nl, nx, ++gen);
        }
    }
    // collect
    std::vector<long> ev(laws().size(), 0), rj(laws().size(), 0);
    std::vector<std::unordered_set<uint64_t> > seen(laws().size());
    std::vector<std::vector<std::string> > samples(laws().size());
    std::map<std::string, long> labels; bool expired = false;
    for (auto& o : outs) {
        std::ifstream f(o); std::string line;
        while (std::getline(f, line)) {
            std::istringstream i(line); std::string t; i >> t;
            if (t == "L") { size_t l; long e, r; i >> l >> e >> r; ev[l] += e; rj[l] += r; }
            else if (t == "H") { size_t l; uint64_t h; i >> l >> h; seen[l].insert(h); }
            else if (t == "S") { size_t l; i >> l; std::string rest; std::getline(i, rest); if (samples[l].size() < 2) samples[l].push_back(rest); }
            else if (t == "T") { long n; i >> n; std::string rest; std::getline(i, rest); labels[rest.substr(1)] += n; }
            else if (t == "X") expired = true;
        }
        unlink(o.c_str()); unlink((o + ".err").c_str());
    }
    // failures: confirm, shrink, write the replay file
    int violations = 0; std::set<int> reported; std::vector<std::string> notes;
    std::sort(fails.begin(), fails.end(), [](const Fail_& x, const Fail_& y) { return std::make_pair(x.law, x.idx) < std::make_pair(y.law, y.idx); });
    for (auto& f : fails) {
        if (reported.count(f.law)) continue;
        const Law& l = laws()[f.law];
        if (violations >= 4) break;      // enough is known
        Result first;
        {
            // a child runs the original seed and reports what it drew; after a crash the draws are recovered from shared memory
            size_t cap = 500000; uint64_t* mem = (uint64_t*)mmap(nullptr, (cap + 1)*8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
            pid_t pid = fork();
            if (pid == 0) {
                quiet_stdio(scratch + "/stderr.first"); arm(CASE_CPU());
                Src s(caseseed(f.law, f.idx));
                s.rec.reserve(cap);
                // on every way out (return, signal, exit from a sanitizer) publish what was drawn
                static Src* gs; static uint64_t* gm; gs = &s; gm = mem;
                auto h = [](int sg) { size_t n = gs->rec.size(); gm[0] = n; for (size_t i = 0; i < n; i++) gm[1 + i] = gs->rec[i]; signal(sg, SIG_DFL); raise(sg); };
                for (int sg : {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGBUS, SIGPROF}) signal(sg, h);
                atexit([]() { size_t n = gs->rec.size(); gm[0] = n; for (size_t i = 0; i < n; i++) gm[1 + i] = gs->rec[i]; });
                Result r = run_once(l, s, thorough);
                size_t n = r.rec.size(); mem[0] = n; for (size_t i = 0; i < n; i++) mem[1 + i] = r.rec[i];
                _exit(0);
            }
            int st; waitpid(pid, &st, 0);
            std::vector<uint64_t> ch(mem + 1, mem + 1 + mem[0]);
            munmap(mem, (cap + 1)*8);
            first.rec = ch;
        }
        Result r; int ok = 0, tries = 0;
        int need = f.kind == HANG ? 2 : 3;
        for (; tries < need || (tries < 20 && ok > 0 && ok < need); tries++) {
            r = isolated(l, first.rec, thorough, CASE_CPU(), scratch); if (bad(r)) ok++;
            if (ok == 0 && tries >= 5) break;
        }
        for (int e = 0; ok == 0 && e < 3; e++) { r = isolated(l, first.rec, thorough, CASE_CPU(), scratch); if (bad(r)) ok++; }
        if (ok < need) {
            std::ostringstream o; o << "law " << l.name << " case " << f.idx << " failed once, but only " << ok << " of the replays did: not reported";
            notes.push_back(o.str()); fprintf(stderr, "note: %s\n", o.str().c_str()); continue;
        }
        if (!bad(r)) r = isolated(l, first.rec, thorough, CASE_CPU(), scratch);
        Outcome kind = bad(r) ? r.o : FAIL;
        std::vector<uint64_t> best = violations >= 2 ? first.rec : shrink(l, first.rec, thorough, scratch, kind);
        ok = 0; need = kind == HANG ? 1 : 3; Result rb; for (int t = 0; t < need; t++) { rb = isolated(l, best, thorough, CASE_CPU(), scratch); if (bad(rb)) ok++; }
        if (ok < need) { best = first.rec; rb = isolated(l, best, thorough, CASE_CPU(), scratch); }
        reported.insert(f.law);
        if (l.finding) {
            bool listed = false;
            for (auto& line : known) if (line.rfind("known:", 0) == 0 && line.find("property=" + property + " ") != std::string::npos && line.find("probe=" + l.name + " ") != std::string::npos) {
                listed = true; printf("KNOWN-FINDING: property=%s %s\n", property.c_str(), l.about.c_str());
            }
            if (listed) continue;
        }
        std::string file = replaydir + "/" + property + "_" + l.name + "_" + tag + ".replay";
        { std::ofstream o(file); o << "property " << property << "\nlaw " << l.name << "\nbuild " << tag << "\ntier " << (thorough ? "thorough" : "quick") << "\nchoices";
          for (auto v : best) o << " " << v;
          o << "\n# case: "; for (char ch : rb.desc) { o << ch; if (ch == '\n') o << "# "; }
          o << "\n# " ; for (char ch : rb.msg) { o << ch; if (ch == '\n') o << "# "; } o << "\n"; }
        printf("law %s (%s build): %s\n  case: %s\n", l.name.c_str(), tag.c_str(), rb.msg.c_str(), rb.desc.c_str());
        printf("VIOLATION property=%s replay=%s\n", property.c_str(), file.c_str());
        violations++;
    }
    // statistics for the driver
    std::string sf = get("--stats", ""); 
    if (!sf.empty()) {
        std::ofstream o(sf); o << "{\"tag\":\"" << tag << "\",\"wall_s\":" << now() - t0 << ",\"violations\":" << violations << ",\"expired\":" << (expired ? "true" : "false") << ",\"laws\":[";
        for (size_t i = 0; i < laws().size(); i++) {
            if (i) o << ",";
            o << "{\"law\":\"" << laws()[i].name << "\",\"about\":\"" << jesc(laws()[i].about) << "\",\"evaluations\":" << ev[i] << ",\"rejected\":" << rj[i] << ",\"distinct_nontrivial\":" << seen[i].size() << ",\"samples\":[";
            for (size_t j = 0; j < samples[i].size(); j++) o << (j ? "," : "") << "\"" << jesc(samples[i][j]) << "\"";
            o << "]}";
        }
        o << "],\"labels\":{"; bool first = true;
        for (auto& kv : labels) { o << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; }
        o << "},\"notes\":["; for (size_t i = 0; i < notes.size(); i++) o << (i ? "," : "") << "\"" << jesc(notes[i]) << "\"";
        o << "]}\n";
    }
    return violations ? 1 : 0;
}
}  // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }
#endif
