// Shared machinery of the monitors: case driver, statistics, PRNG, reference
// structures and oracles that are independent of the library under test.
#pragma once
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <stdint.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#ifdef _OPENMP
#include <omp.h>
#endif
#ifdef USE_SHIM
#include "shim.h"
#endif

namespace vf {

inline uint64_t mix64(uint64_t x) {
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    // uniform in [0,n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int) below((uint64_t) (b - a + 1)); } // inclusive
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    bool coin() { return next() & 1; }
    template<typename T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
};

struct Mismatch {
    std::string key, msg;
};

// ---------------------------------------------------------------- driver ----
struct Ctx {
    uint64_t seed = 1;
    uint64_t caseNo = 0;
    bool thorough = false;
    std::string mode;
    bool verbose = false;
    bool soft = false;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t evaluations = 0;
    std::vector<std::string> mismatches;
    volatile uint64_t* cur = 0;
};
inline Ctx& ctx() { static Ctx c; return c; }

inline void count(std::string const& k, uint64_t n = 1) { ctx().counters[k] += n; }
inline void maxcount(std::string const& k, uint64_t n) { uint64_t& x = ctx().counters["max:" + k]; if (x < n) x = n; }
inline void nontrivial(uint64_t h) { if (ctx().distinct.size() < 2000000) ctx().distinct.insert(h); }
inline void sample(std::string const& s) { if (ctx().samples.size() < 3) ctx().samples.push_back(s.substr(0, 400)); }

[[noreturn]] inline void fail(std::string const& key, std::string const& msg) { throw Mismatch{key, msg}; }
// a mismatch that is a recorded finding (known_findings.txt decides): reported once per process, the case goes on
inline void softfail(std::string const& key, std::string const& msg) {
    if (++ctx().counters["finding:" + key] > 1) return;
    std::string line = "MISMATCH\t" + key + "\t" + std::to_string(ctx().caseNo) + "\t" + msg.substr(0, 3000);
    printf("%s\n", line.c_str());
    fflush(stdout);
    ctx().soft = true;
}
// runs f in a forked child; true if the child ended normally and f returned true
template<typename F> bool survives(F f) {
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open("/dev/null", O_WRONLY);
        if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        alarm(60);
        bool ok = false;
        try { ok = f(); } catch (...) {}
        _exit(ok ? 0 : 1);
    }
    if (pid < 0) return true; // cannot tell
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
template<typename A, typename B>
void expectEq(A const& got, B const& want, std::string const& key, std::string const& what) {
    if (!(got == want)) { std::ostringstream o; o << what << ": got " << got << ", expected " << want; fail(key, o.str()); }
}
#define REQUIRE(c, key, msg) do { if (!(c)) { std::ostringstream o_; o_ << msg; vf::fail(key, o_.str()); } } while (0)

inline std::string jsonEsc(std::string const& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

void runCase(Rng& rng); // provided by each monitor

// first contract violation a callback observed in this case (any thread)
struct CallbackMonitor {
    std::mutex mu;
    std::string error;
    uint64_t checked = 0;
    void err(std::string const& e) { std::lock_guard<std::mutex> g(mu); if (error.empty()) error = e; }
};
inline CallbackMonitor& callbacks() { static CallbackMonitor m; return m; }

inline int driver(int argc, char** argv) {
    Ctx& c = ctx();
    uint64_t lo = 0, hi = 1;
    std::string stats, cur;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--seed") c.seed = strtoull(argv[++i], 0, 10);
        else if (a == "--lo") lo = strtoull(argv[++i], 0, 10);
        else if (a == "--hi") hi = strtoull(argv[++i], 0, 10);
        else if (a == "--stats") stats = argv[++i];
        else if (a == "--cur") cur = argv[++i];
        else if (a == "--mode") c.mode = argv[++i];
        else if (a == "--thorough") c.thorough = true;
        else if (a == "-v") c.verbose = true;
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 64; }
    }
    uint64_t dummy = 0;
    c.cur = &dummy;
    if (!cur.empty()) {
        int fd = open(cur.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, 8) == 0) {
            void* p = mmap(0, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) c.cur = (volatile uint64_t*) p;
        }
    }
    for (uint64_t k = lo; k < hi; ++k) {
        c.caseNo = k;
        *c.cur = k;
        Rng rng(mix64(c.seed * 0x100000001B3ULL) ^ mix64(k + 12345));
        std::string key, msg;
        try {
            ++c.evaluations;
            callbacks().error.clear();
            runCase(rng);
            if (!callbacks().error.empty()) { key = "callback"; msg = callbacks().error; }
        }
        catch (Mismatch const& m) { key = m.key; msg = m.msg; }
        catch (std::exception const& e) { key = "exception"; msg = std::string("unexpected exception: ") + e.what(); }
        if (!key.empty()) {
            std::string line = "MISMATCH\t" + key + "\t" + std::to_string(k) + "\t" + jsonEsc(msg.substr(0, 3000));
            printf("%s\n", line.c_str());
            fflush(stdout);
            c.mismatches.push_back(line);
            if (c.mismatches.size() >= 5) break;
        }
    }
#ifdef USE_SHIM
    { uint64_t r, s, y, ch; shim_stats(&r, &s, &y, &ch, 0);
      count("shim:parallel_regions", r); count("shim:thread_switches", s); count("shim:yield_points", y); count("shim:chunks", ch); }
#endif
    if (!stats.empty()) {
        std::ofstream o(stats.c_str());
        o << "{\"evaluations\":" << c.evaluations << ",\"mismatches\":" << c.mismatches.size() << ",\"counters\":{";
        bool first = true;
        for (auto& p : c.counters) { o << (first ? "" : ",") << "\"" << jsonEsc(p.first) << "\":" << p.second; first = false; }
        o << "},\"samples\":[";
        for (size_t i = 0; i < c.samples.size(); ++i) o << (i ? "," : "") << "\"" << jsonEsc(c.samples[i]) << "\"";
        o << "],\"distinct\":[";
        first = true;
        for (uint64_t h : c.distinct) { o << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
        o << "]}\n";
    }
    return c.mismatches.empty() && !c.soft ? 0 : 10;
}

#define VF_MAIN int main(int argc, char** argv) { return vf::driver(argc, argv); }

// ------------------------------------------------------- schedule control ----
inline void yieldPoint() {
#ifdef USE_SHIM
    shim_yield();
#endif
}
// chooses thread count (and, with the shim, the schedule) for this case
inline int chooseThreads(Rng& rng) {
    static const int T[] = {1, 2, 2, 3, 4, 4, 5, 7, 8, 12};
    int t = T[rng.below(10)];
#ifdef _OPENMP
    omp_set_num_threads(t);
#endif
#ifdef USE_SHIM
    static const double P[] = {0.02, 0.1, 0.3, 0.6};
#ifdef SHIM_FREE
    shim_config(0, rng.next(), P[rng.below(4)] * 0.3);
#else
    shim_config(rng.chance(0.85), rng.next(), P[rng.below(4)]);
#endif
#endif
    return t;
}

// ---------------------------------------------------- reference automaton ----
// A leveled automaton: level 0 holds the terminals 0 and 1.
struct Ref {
    int level;
    int idx;
    bool operator==(Ref const& o) const { return level == o.level && idx == o.idx; }
};

struct Table {
    int n = 0;      // number of levels (root may be lower)
    int arity = 2;
    std::vector<std::vector<std::vector<Ref> > > t; // t[level][idx][b]
    Ref root = {0, 0};

    Ref const& child(int level, int idx, int b) const { return t[level][idx][b]; }

    std::string str() const {
        std::ostringstream o;
        o << "n=" << n << " arity=" << arity << " root=" << root.level << ":" << root.idx;
        for (int i = n; i >= 1; --i)
            for (size_t j = 0; j < t[i].size(); ++j) {
                o << " " << i << ":" << j << "(";
                for (int b = 0; b < arity; ++b) o << (b ? "," : "") << t[i][j][b].level << ":" << t[i][j][b].idx;
                o << ")";
            }
        return o.str();
    }
    uint64_t hash() const {
        uint64_t h = mix64(n * 31 + arity);
        h = mix64(h ^ (root.level * 1000003ULL + root.idx));
        for (int i = 1; i <= n; ++i) for (auto& s : t[i]) for (auto& r : s) h = mix64(h ^ (r.level * 1000003ULL + r.idx + 7));
        return h;
    }
    size_t nodes() const { size_t m = 0; for (auto& l : t) m += l.size(); return m; }
};

struct TableParam {
    int n = 5, width = 4, arity = 2;
    double pZero = 0.15, pOne = 0.05, pSkip = 0.2, pDup = 0.2, pDead = 0.05;
    bool rootTop = true;
};

inline Table randomTable(Rng& rng, TableParam const& p) {
    Table T;
    T.n = p.n;
    T.arity = p.arity;
    T.t.resize(p.n + 1);
    T.t[0].resize(2);
    for (int i = 1; i <= p.n; ++i) {
        int w = 1 + (int) rng.below(p.width);
        T.t[i].resize(w);
        for (int j = 0; j < w; ++j) {
            std::vector<Ref>& c = T.t[i][j];
            c.resize(p.arity);
            if (j > 0 && rng.chance(p.pDup)) { c = T.t[i][rng.below(j)]; if (rng.coin()) c[rng.below(p.arity)] = c[rng.below(p.arity)]; continue; }
            bool dead = rng.chance(p.pDead);
            for (int b = 0; b < p.arity; ++b) {
                Ref r;
                if (dead || rng.chance(p.pZero)) r = Ref{0, 0};
                else if (i == 1 || rng.chance(p.pOne)) r = Ref{0, rng.chance(0.3) ? 0 : 1};
                else {
                    int l = i - 1;
                    if (rng.chance(p.pSkip)) l = rng.range(0, i - 1);
                    r.level = l;
                    r.idx = l == 0 ? (rng.chance(0.3) ? 0 : 1) : (int) rng.below(T.t[l].size());
                }
                c[b] = r;
            }
            // ZDD / BDD style redundancy
            if (rng.chance(0.1)) for (int b = 1; b < p.arity; ++b) c[b] = Ref{0, 0};
            else if (rng.chance(0.1)) for (int b = 1; b < p.arity; ++b) c[b] = c[0];
        }
    }
    int rl = p.rootTop ? p.n : rng.range(0, p.n);
    T.root = rl == 0 ? Ref{0, (int) rng.below(2)} : Ref{rl, (int) rng.below(T.t[rl].size())};
    return T;
}

// a varied distribution of parameters
inline TableParam randomParam(Rng& rng, int arity, int maxN, int maxW) {
    TableParam p;
    p.arity = arity;
    p.n = rng.range(1, maxN);
    p.width = rng.range(1, maxW);
    static const double Z[] = {0.0, 0.05, 0.15, 0.35, 0.6};
    p.pZero = Z[rng.below(5)];
    p.pOne = rng.coin() ? 0.02 : 0.2;
    static const double S[] = {0.0, 0.1, 0.4, 0.9};
    p.pSkip = S[rng.below(4)];
    p.pDup = rng.coin() ? 0.1 : 0.5;
    static const double D[] = {0.0, 0.05, 0.3};
    p.pDead = D[rng.below(3)];
    p.rootTop = rng.chance(0.8);
    return p;
}

// size extremes: automata with many levels or with many states per level
inline bool stretch(Rng& rng, TableParam& p, double chance, int maxTall = 400, int maxWide = 1500) {
    if (!rng.chance(chance)) return false;
    p.rootTop = true;
    p.pDead = 0;
    p.pOne = rng.coin() ? 0 : 0.01;
    p.pZero = rng.coin() ? 0 : 0.03;
    p.pSkip = rng.coin() ? 0 : rng.coin() ? 0.02 : 0.1;
    if (rng.chance(0.7)) {
        switch (rng.below(5)) {
        case 0: p.n = rng.range(60, 70); break;
        case 1: p.n = rng.range(124, 133); break;
        case 2: p.n = rng.range(250, 262); break;
        default: p.n = rng.range(33, maxTall);
        }
        p.n = std::min(p.n, maxTall);
        p.width = rng.range(1, 4);
        count("tall_automata");
    }
    else {
        p.n = rng.range(9, 15);
        p.width = rng.range(200, p.arity > 4 ? 300 : maxWide);
        count("wide_automata");
    }
    return true;
}

// --------------------------------------------------------- canonical forms ----
enum Mode { PATH, ZDD, BDD, QDD, RAW };
// RAW : isomorphism up to duplicate nodes, no deletion at all
// PATH: equality of the families of (level,value) paths to the 1-terminal
//       (dead nodes are 0; no other deletion rule)
// ZDD : additionally deletes nodes whose non-zero branches are all 0
// BDD : additionally deletes nodes whose branches all agree
class Canon {
    struct H { size_t operator()(std::vector<int64_t> const& v) const { uint64_t h = 0; for (int64_t x : v) h = mix64(h ^ (uint64_t) x); return h; } };
    std::unordered_map<std::vector<int64_t>, int, H> uniq;
    std::vector<std::vector<int64_t> > nodes;
    Mode mode;
    int arity;
public:
    Canon(Mode m, int ar) : nodes(2), mode(m), arity(ar) {}
    // children are canonical ids
    int make(int level, std::vector<int64_t> const& ch) {
        bool allZero = true, tailZero = true, same = true;
        for (int b = 0; b < arity; ++b) {
            if (ch[b] != 0) { allZero = false; if (b) tailZero = false; }
            if (ch[b] != ch[0]) same = false;
        }
        if (allZero && mode != RAW) return 0;
        if (mode == ZDD && tailZero) return (int) ch[0];
        if (mode == BDD && same) return (int) ch[0];
        std::vector<int64_t> k(ch);
        k.push_back(level);
        auto it = uniq.find(k);
        if (it != uniq.end()) return it->second;
        int id = (int) nodes.size();
        nodes.push_back(k);
        uniq.emplace(k, id);
        return id;
    }
    int level(int id) const { return id < 2 ? 0 : (int) nodes[id][arity]; }
    int child(int id, int b) const { return (int) nodes[id][b]; }
    size_t reach(int root) const { // number of distinct nonterminal nodes below root
        if (root < 2) return 0;
        std::unordered_set<int> seen;
        std::vector<int> st(1, root);
        seen.insert(root);
        while (!st.empty()) {
            int f = st.back(); st.pop_back();
            for (int b = 0; b < arity; ++b) { int g = child(f, b); if (g >= 2 && seen.insert(g).second) st.push_back(g); }
        }
        return seen.size();
    }
};

inline int canonTable(Canon& C, Table const& T, Ref root) {
    std::vector<std::vector<int> > id(T.n + 1);
    for (int i = 1; i <= T.n; ++i) {
        id[i].resize(T.t[i].size());
        for (size_t j = 0; j < T.t[i].size(); ++j) {
            std::vector<int64_t> ch(T.arity);
            for (int b = 0; b < T.arity; ++b) { Ref r = T.t[i][j][b]; ch[b] = r.level == 0 ? r.idx : id[r.level][r.idx]; }
            id[i][j] = C.make(i, ch);
        }
    }
    return root.level == 0 ? root.idx : id[root.level][root.idx];
}
inline int canonTable(Canon& C, Table const& T) { return canonTable(C, T, T.root); }

// Walks a DdStructure through its public interface only.
template<typename DD>
struct Walker {
    typedef decltype(std::declval<DD const&>().root()) NID;
    static uint64_t keyOf(int row, uint64_t col) { return ((uint64_t) row << 40) | col; }

    // all reachable nonterminals, grouped by level
    static std::vector<std::vector<std::pair<uint64_t, int> > > collect(DD const& dd, int arity, size_t& reachable) {
        auto root = static_cast<DD const&>(dd).root();
        int n = root.row();
        std::vector<std::vector<std::pair<uint64_t, int> > > lv(n + 1);
        std::unordered_set<uint64_t> seen;
        reachable = 0;
        if (n > 0) { lv[n].push_back(std::make_pair((uint64_t) root.col(), 0)); seen.insert(keyOf(n, root.col())); }
        for (int i = n; i >= 1; --i) {
            for (size_t k = 0; k < lv[i].size(); ++k) {
                ++reachable;
                for (int b = 0; b < arity; ++b) {
                    auto g = dd.child(typename std::decay<decltype(root)>::type((uint64_t) i, (uint64_t) lv[i][k].first), b);
                    int r = g.row();
                    if (r == 0) { if (g.col() > 1) fail("bad-terminal", "branch to an unknown terminal"); continue; }
                    if (r >= i) fail("level-order", "edge does not go to a lower level");
                    if (seen.insert(keyOf(r, g.col())).second) lv[r].push_back(std::make_pair((uint64_t) g.col(), 0));
                }
            }
        }
        return lv;
    }

    static int canon(Canon& C, DD const& dd, int arity, size_t* reachableOut = 0) {
        auto root = static_cast<DD const&>(dd).root();
        if (root.row() == 0) { if (reachableOut) *reachableOut = 0; if (root.col() > 1) fail("bad-terminal", "root is an unknown terminal"); return (int) root.col(); }
        size_t reachable = 0;
        auto lv = collect(dd, arity, reachable);
        if (reachableOut) *reachableOut = reachable;
        std::unordered_map<uint64_t, int> id;
        typedef typename std::decay<decltype(root)>::type N;
        for (size_t i = 1; i < lv.size(); ++i)
            for (auto& e : lv[i]) {
                std::vector<int64_t> ch(arity);
                for (int b = 0; b < arity; ++b) {
                    N g = dd.child(N((uint64_t) i, e.first), b);
                    ch[b] = g.row() == 0 ? (int64_t) g.col() : id.at(keyOf(g.row(), g.col()));
                }
                id[keyOf(i, e.first)] = C.make((int) i, ch);
            }
        return id.at(keyOf(root.row(), root.col()));
    }
};
template<typename DD> int canonDD(Canon& C, DD const& dd, int arity, size_t* reach = 0) { return Walker<DD>::canon(C, dd, arity, reach); }

// ------------------------------------------------------------ truth tables ----
// An assignment is a vector v[1..n] of values; enumerated as a mixed radix number.
inline uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e-- > 0) r *= b; return r; }

template<typename F> // bool f(std::vector<int> const& v /*1-based*/)
std::vector<bool> truthTable(int n, int arity, F f) {
    uint64_t m = ipow(arity, n);
    std::vector<bool> r(m);
    std::vector<int> v(n + 1, 0);
    for (uint64_t k = 0; k < m; ++k) {
        uint64_t x = k;
        for (int i = 1; i <= n; ++i) { v[i] = (int) (x % arity); x /= arity; }
        r[k] = f(v);
    }
    return r;
}
inline bool evalTable(Table const& T, Ref r, std::vector<int> const& v, bool zdd, int n) {
    int expect = n;
    while (r.level > 0) {
        if (zdd) for (; expect > r.level; --expect) if (v[expect]) return false;
        r = T.t[r.level][r.idx][v[expect = r.level]];
        --expect;
    }
    if (zdd) for (; expect > 0; --expect) if (v[expect]) return false;
    return r.idx == 1;
}
inline std::vector<bool> ttTable(Table const& T, int n, bool zdd) { return truthTable(n, T.arity, [&](std::vector<int> const& v) { return evalTable(T, T.root, v, zdd, n); }); }

template<typename DD>
bool evalDD(DD const& dd, std::vector<int> const& v, bool zdd, int n) {
    auto r0 = static_cast<DD const&>(dd).root();
    typename std::decay<decltype(r0)>::type r = r0;
    int expect = n;
    while (r.row() > 0) {
        if (r.row() > expect) fail("level-order", "node level too high");
        if (zdd) for (; expect > r.row(); --expect) if (v[expect]) return false;
        expect = r.row();
        r = dd.child(r, v[expect]);
        --expect;
    }
    if (zdd) for (; expect > 0; --expect) if (v[expect]) return false;
    return r.col() == 1;
}
template<typename DD>
std::vector<bool> ttDD(DD const& dd, int n, int arity, bool zdd) { return truthTable(n, arity, [&](std::vector<int> const& v) { return evalDD(dd, v, zdd, n); }); }

inline std::string ttStr(std::vector<bool> const& t) { std::string s; for (size_t i = 0; i < t.size() && i < 128; ++i) s += t[i] ? '1' : '0'; if (t.size() > 128) s += "..."; return s; }
inline uint64_t ttHash(std::vector<bool> const& t) { uint64_t h = t.size(); uint64_t w = 0; for (size_t i = 0; i < t.size(); ++i) { w = w << 1 | (t[i] ? 1 : 0); if (i % 64 == 63) { h = mix64(h ^ w); w = 0; } } return mix64(h ^ w); }

// --------------------------------------------------------- exact counting ----
struct Big { // little-endian base 1e9
    std::vector<uint32_t> d;
    Big(uint64_t x = 0) { while (x) { d.push_back(x % 1000000000u); x /= 1000000000u; } }
    Big& operator+=(Big const& o) {
        uint64_t c = 0;
        for (size_t i = 0; i < std::max(d.size(), o.d.size()) || c; ++i) {
            if (i >= d.size()) d.push_back(0);
            uint64_t s = c + d[i] + (i < o.d.size() ? o.d[i] : 0);
            d[i] = s % 1000000000u; c = s / 1000000000u;
        }
        return *this;
    }
    Big& mul(uint32_t k) {
        uint64_t c = 0;
        for (size_t i = 0; i < d.size() || c; ++i) {
            if (i >= d.size()) d.push_back(0);
            uint64_t s = c + (uint64_t) d[i] * k;
            d[i] = s % 1000000000u; c = s / 1000000000u;
        }
        while (!d.empty() && d.back() == 0) d.pop_back();
        return *this;
    }
    std::string str() const {
        if (d.empty()) return "0";
        char b[16];
        std::string s = std::to_string(d.back());
        for (size_t i = d.size() - 1; i-- > 0;) { snprintf(b, sizeof b, "%09u", d[i]); s += b; }
        return s;
    }
};
inline Big bigPow(uint32_t b, int e) { Big r(1); while (e-- > 0) r.mul(b); return r; }

} // namespace vf

namespace vf {
// independent binary apply on canonical ids (ZDD or BDD reading of skipped levels)
struct Apply {
    Canon& C; int arity; Mode mode; bool conj;
    std::unordered_map<uint64_t, int> memo;
    int operator()(int a, int b) {
        if (conj) { if (a == 0 || b == 0) return 0; }
        else { if (a == 0) return b; if (b == 0) return a; }
        if (a < 2 && b < 2) return 1;
        if (mode == BDD) {
            if (conj) { if (a == 1) return b; if (b == 1) return a; }
            else if (a == 1 || b == 1) return 1;
        }
        uint64_t k = (uint64_t) a << 32 | (uint32_t) b;
        auto it = memo.find(k);
        if (it != memo.end()) return it->second;
        int la = C.level(a), lb = C.level(b), l = std::max(la, lb);
        std::vector<int64_t> ch(arity);
        for (int x = 0; x < arity; ++x) {
            int aa = la == l ? C.child(a, x) : mode == BDD || x == 0 ? a : 0;
            int bb = lb == l ? C.child(b, x) : mode == BDD || x == 0 ? b : 0;
            ch[x] = (*this)(aa, bb);
        }
        int r = C.make(l, ch);
        memo[k] = r;
        return r;
    }
};
} // namespace vf
