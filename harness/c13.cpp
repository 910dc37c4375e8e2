// PARTS: 0 2 3 4
// C13: no memory error, use of uninitialised memory, failed assertion or undefined arithmetic in any supported use.
// The oracle is the instrumentation; results are only compared with each other.
#include "graphs.hpp"
#include <tdzdd/DdSpecOp.hpp>
#include <tdzdd/spec/DegreeConstraint.hpp>
#include <tdzdd/spec/FrontierBasedSearch.hpp>
#include <tdzdd/spec/PathZdd.hpp>
#include <tdzdd/spec/PathZddByStdMap.hpp>
#include <tdzdd/spec/SizeConstraint.hpp>
#include <tdzdd/dd/PathCounter.hpp>
#include <tdzdd/eval/Cardinality.hpp>
using namespace vf;

#ifdef VF_VALGRIND
enum { SMALL = 1 };
#else
enum { SMALL = 0 };
#endif

struct Fn { // implicit automaton: states are numbers below w
    int n; uint32_t w; uint64_t seed; int zero, skip;
    uint32_t rootState() const { return (uint32_t) (mix64(seed) % w); }
    int step(uint32_t& s, int level, int b) const {
        uint64_t h = mix64(seed ^ mix64(((uint64_t) level << 40) ^ ((uint64_t) s << 8) ^ b));
        if ((int) (h % 100) < zero) { s = 0; return 0; }
        int l = level - 1;
        if ((int) ((h >> 8) % 100) < skip) l = (int) ((h >> 16) % level);
        if (l == 0) { s = 0; return (h >> 30) % 3 ? -1 : 0; }
        s = (uint32_t) ((h >> 32) % w);
        return l;
    }
    std::string str() const { return "n=" + std::to_string(n) + " w=" + std::to_string(w) + " seed=" + std::to_string(seed) + " zero=" + std::to_string(zero) + " skip=" + std::to_string(skip); }
};

struct Odd3 { unsigned char c[3]; Odd3() {} Odd3(uint32_t v) { c[0] = v & 255; c[1] = v >> 8 & 255; c[2] = v >> 16 & 255; } operator uint32_t() const { return c[0] | c[1] << 8 | c[2] << 16; } };
struct Odd5 { unsigned char c[5]; Odd5() {} Odd5(uint32_t v) { for (int i = 0; i < 4; ++i) c[i] = v >> (8 * i) & 255; c[4] = 9; } operator uint32_t() const { return c[0] | c[1] << 8 | c[2] << 16 | (uint32_t) c[3] << 24; } };
inline std::ostream& operator<<(std::ostream& os, Odd3 const& x) { return os << (uint32_t) x; }
inline std::ostream& operator<<(std::ostream& os, Odd5 const& x) { return os << (uint32_t) x; }

template<int N> struct OddN { unsigned char c[N]; OddN() {} OddN(uint32_t v) { for (int i = 0; i < N; ++i) c[i] = 7; for (int i = 0; i < (N < 4 ? N : 4); ++i) c[N - 1 - i] = v >> (8 * i) & 255; } operator uint32_t() const { uint32_t v = 0; for (int i = 0; i < (N < 4 ? N : 4); ++i) v |= (uint32_t) c[N - 1 - i] << (8 * i); return v; } size_t hash() const { return (uint32_t) *this * 2654435761u; } bool operator==(OddN const& o) const { return (uint32_t) *this == (uint32_t) o; } friend std::ostream& operator<<(std::ostream& os, OddN const& x) { return os << (uint32_t) x; } };

template<typename S, int AR>
class ScalarX : public DdSpec<ScalarX<S, AR>, S, AR> {
    Fn f;
public:
    ScalarX(Fn const& f) : f(f) {}
    int getRoot(S& s) const { s = (S) f.rootState(); return f.n; }
    int getChild(S& s, int level, int b) const { uint32_t x = (uint32_t) s; int l = f.step(x, level, b); s = (S) x; return l; }
};
template<typename E, int AR>
class PodX : public PodArrayDdSpec<PodX<E, AR>, E, AR> {
    Fn f; int m;
public:
    PodX(Fn const& f, int m) : f(f), m(m) { this->setArraySize(m); }
    int getRoot(E* a) const { for (int k = 0; k < m; ++k) a[k] = E(f.rootState()); return f.n; }
    int getChild(E* a, int level, int b) const { uint32_t x = (uint32_t) a[m - 1]; int l = f.step(x, level, b); for (int k = 0; k < m; ++k) a[k] = E(x); return l; }
};
template<typename S, typename E, int AR>
class HybX : public HybridDdSpec<HybX<S, E, AR>, S, E, AR> {
    Fn f; int m;
public:
    HybX(Fn const& f, int m) : f(f), m(m) { this->setArraySize(m); }
    int getRoot(S& s, E* a) const { s = (S) 1; for (int k = 0; k < m; ++k) a[k] = E(f.rootState()); return f.n; }
    int getChild(S& s, E* a, int level, int b) const { uint32_t x = (uint32_t) a[m - 1]; int l = f.step(x, level, b); s = (S) (x & 3); for (int k = 0; k < m; ++k) a[k] = E(x); return l; }
};
template<int AR>
class StlX : public DdSpec<StlX<AR>, std::vector<int>, AR> { // heap-owning state with its own hash
    Fn f; int m;
public:
    StlX(Fn const& f, int m) : f(f), m(m) {}
    int getRoot(std::vector<int>& s) const { s.assign(m, (int) f.rootState()); return f.n; }
    int getChild(std::vector<int>& s, int level, int b) const { uint32_t x = (uint32_t) s.back(); int l = f.step(x, level, b); s.assign(1 + (m + x) % 5, (int) x); return l; }
    size_t hashCode(std::vector<int> const& s) const { size_t h = s.size(); for (int x : s) h = h * 31 + x; return h; }
    void printState(std::ostream& os, std::vector<int> const& s) const { os << s.size() << "x" << s[0]; }
};

template<int AR, typename F>
std::string withX(Rng& rng, Fn const& f, F go) {
    int m = rng.chance(0.1) ? rng.range(60, 300) : rng.range(1, 17);
    if constexpr (AR <= 3) {
        switch ((int) rng.below(11)) {
        case 9: go(ScalarX<OddN<2>, AR>(f)); return "2-byte struct"; // fewer than 65536 states
        case 10: go(ScalarX<OddN<11>, AR>(f)); return "11-byte struct";
        case 0: go(ScalarX<uint32_t, AR>(f)); return "scalar32";
        case 1: go(ScalarX<uint64_t, AR>(f)); return "scalar64";
        case 2: go(PodX<Odd3, AR>(f, m)); return "array of 3-byte structs";
        case 3: go(PodX<Odd5, AR>(f, m)); return "array of 5-byte structs";
        case 4: go(PodX<unsigned short, AR>(f, m)); return "array of 16-bit";
        case 5: go(HybX<unsigned char, Odd3, AR>(f, m)); return "8-bit and 3-byte structs";
        case 6: go(HybX<short, Odd5, AR>(f, m)); return "16-bit and 5-byte structs";
        case 7: go(HybX<double, unsigned short, AR>(f, m)); return "double and 16-bit";
        default: go(StlX<AR>(f, m)); return "vector";
        }
    }
    else {
        if (rng.chance(0.2)) { go(ScalarX<OddN<9>, AR>(f)); return "9-byte struct"; }
        if (rng.coin()) { go(ScalarX<uint32_t, AR>(f)); return "scalar32"; }
        go(PodX<Odd3, AR>(f, m)); return "array of 3-byte structs";
    }
}

template<int AR>
struct Sum : public DdEval<Sum<AR>, double> {
    void evalTerminal(double& v, int x) const { v = x; }
    void evalNode(double& v, int level, DdValues<double, AR> const& values) const {
        v = 0;
        for (int b = 0; b < AR; ++b) v += values.get(b) * 0.5 + (values.getLevel(b) == level - 1 ? 0 : 1e-9);
    }
};

static Fn randomFn(Rng& rng, int ar) {
    Fn f;
    f.seed = rng.next();
    static const int Z[] = {0, 5, 20, 50}, S[] = {0, 0, 10, 60};
    f.zero = Z[rng.below(4)]; f.skip = S[rng.below(4)];
    int kind = (int) rng.below(10);
    if (kind < 5) { f.n = rng.range(1, 12); f.w = (uint32_t) rng.range(1, 12); }
    else if (kind < 7) { f.n = rng.range(40, SMALL ? 80 : 400); f.w = (uint32_t) rng.range(1, 3); f.zero = 0; }
    else if (kind < 9) { f.n = rng.range(8, 14); f.w = (uint32_t) rng.range(20, SMALL ? 60 : 300); }
    else { f.n = rng.range(12, 14); f.w = SMALL ? 80 : (uint32_t) rng.range(600, 1500); f.zero = 0; f.skip = 0; count("wide_levels"); }
    if (ar > 4) { f.n = std::min(f.n, 30); f.w = std::min(f.w, 40u); }
    return f;
}

template<int AR>
static void one(Rng& rng) {
    Fn f = randomFn(rng, AR), f2 = randomFn(rng, AR);
    if (f2.w > 60) f2.w = 60;
    bool mp = rng.chance(0.5);
    if (mp) chooseThreads(rng);
    std::string d = "arity " + std::to_string(AR) + (mp ? " mp " : " ") + f.str();
    std::string fl = withX<AR>(rng, f, [&](auto const& spec) {
        DdStructure<AR> dd(spec, mp);
        std::string c0 = dd.evaluate(ZddCardinality<std::string, AR>());
        count("built_nodes", dd.size());
        for (int k = rng.range(1, 4); k > 0; --k) {
            switch ((int) rng.below(12)) {
            case 0: dd.zddReduce(); count("op:reduce"); break;
            case 1: { DdStructure<AR> e(dd); if (rng.coin()) e.bddReduce(); else e.qddReduce(); volatile double x = e.evaluate(BddCardinality<double, AR>(f.n)); (void) x; count("op:bdd"); break; }
            case 2: withX<AR>(rng, f2, [&](auto const& s2) { DdStructure<AR> e(dd); e.zddSubset(s2); count("subset_nodes", e.size()); }); count("op:subset"); break;
            case 3: if (f.n <= 40) { std::ostringstream o; spec.dumpDot(o, "x"); dd.dumpDot(o); count("dump_bytes", o.str().size()); } count("op:dump"); break;
            case 4: if constexpr (AR == 2) { std::ostringstream o; dd.dumpSapporo(o); count("op:sapporo"); } break;
            case 5: if constexpr (AR == 2) { int k2 = 0; DdStructure<AR> r(dd); r.zddReduce(); /* dead ends would take exponential time */ for (typename DdStructure<AR>::const_iterator t = r.begin(); t != r.end() && k2 < 40; ++t, ++k2) count("iterated_items", t->size()); count("op:iterate"); } break;
            case 6: if (f.n * (AR == 2 ? 1.0 : AR == 3 ? 1.6 : AR == 5 ? 2.4 : 6.0) > 17) break; // the search backtracks without memory
                try { std::vector<int> v(f.n + 1); auto it = spec.findOneInstance(); count("instances"); } catch (std::exception&) { count("no_instance"); } break;
            case 7: { Sum<AR> s; volatile double x = dd.evaluate(s); (void) x; count("op:evaluate"); break; }
            case 8: if (f.n <= 60) { auto sp = spec; std::string c = countPaths(sp); REQUIRE(c == c0, "count", "path count " << c << " and cardinality " << c0 << " differ: " << d); count("op:countPaths"); } break;
            case 9: if constexpr (AR == 2) withX<AR>(rng, f2, [&](auto const& s2) {
                        if constexpr (std::is_copy_constructible<typename std::decay<decltype(s2)>::type>::value) {
                            if (rng.coin()) { DdStructure<AR> e(zddUnion(dd, DdStructure<AR>(s2)), mp); count("op_nodes", e.size()); }
                            else { DdStructure<AR> e(zddIntersection(DdStructure<AR>(s2), dd), mp); count("op_nodes", e.size()); }
                        } }); count("op:operator"); break;
            case 10: { DdStructure<AR> e(zddLookahead(spec), mp); std::string c = e.evaluate(ZddCardinality<std::string, AR>()); REQUIRE(c == c0, "lookahead", "cardinality " << c << " after look-ahead, " << c0 << " before: " << d); count("op:lookahead"); break; }
            default: if (f.n <= 60) { DdStructure<AR> e(zddUnreduction(dd, f.n + rng.range(0, 3)), mp); e.zddReduce(); DdStructure<AR> g(dd); g.zddReduce(); REQUIRE(e == g, "unreduction", "un-reducing and reducing differ: " << d); count("op:unreduction"); } break;
            }
        }
        dd.zddReduce();
        std::string c1 = dd.evaluate(ZddCardinality<std::string, AR>());
        REQUIRE(c0 == c1, "reduce", "cardinality " << c1 << " after reduction, " << c0 << " before: " << d);
        if (!dd.empty() && dd.topLevel() > 0) { nontrivial(mix64(f.seed) ^ mix64(f.n * 4096 + f.w)); count("nontrivial_cases"); }
    });
    count("layout:" + fl);
    maxcount("levels", f.n); maxcount("width", f.w);
    sample(fl + ", " + d);
}

// larger graphs than the exhaustive oracles can handle
static void graph(Rng& rng) {
    GSpec g = randomGraph(rng, SMALL ? 9 : 22, rng.coin());
    Graph G;
    load(G, g);
    int n = (int) g.vs.size(), m = (int) g.e.size();
    bool look = rng.coin(), mp = rng.chance(0.4);
    if (mp) chooseThreads(rng);
    std::string d = g.str();
    auto card = [&](auto const& spec) { DdStructure<2> dd(spec, mp); if (rng.coin()) dd.zddReduce(); count("graph_nodes", dd.size()); return dd.zddCardinality(); };
    REQUIRE(card(CycleZdd(G, true)) == card(CycleZdd(G, false)), "graph:cycle", "look-ahead changes the number of cycles of " << d);
    card(HamiltonCycleZdd(G, look));
    std::vector<int> perm(n);
    for (int i = 0; i < n; ++i) perm[i] = i;
    for (int i = n; i > 1; --i) std::swap(perm[i - 1], perm[rng.below(i)]);
    if (rng.chance(0.7)) {
        int np = std::min(n / 2, rng.range(1, 4));
        for (int k = 0; k < 2 * np; ++k) G.setColor(g.vs[perm[k]], "c" + std::to_string(k / 2));
        G.update();
        REQUIRE(card(PathZdd(G, true)) == card(PathZdd(G, false)), "graph:path", "look-ahead changes the number of paths of " << d);
        card(HamiltonPathZdd(G, look));
        if (np == 1) REQUIRE(card(PathZddByStdMap(G)) == card(PathZdd(G, look)), "graph:path-map", "map-based path spec differs on " << d);
        count("colored_graphs");
    }
    if (m <= 16) card(FrontierBasedSearch(G, rng.chance(0.4) ? -1 : rng.range(0, 3), rng.coin(), look));
    IntRange r(rng.range(0, 2), rng.range(2, 4), rng.range(1, 2));
    DegreeConstraint dc(G, &r, look);
    for (int v = 1; v <= n; ++v) if (rng.chance(0.3)) dc.setConstraint(v, rng.coin() ? &r : 0);
    DdStructure<2> dd(dc, mp);
    IntRange z(rng.range(0, 4), rng.range(4, m + 2));
    dd.zddSubset(SizeConstraint(m, &z));
    dd.zddReduce();
    std::ostringstream o;
    G.dump(o);
    count("graphs");
    nontrivial(g.hash());
    maxcount("edges", m);
}

void run2(Rng& rng); void run3(Rng& rng); void run4(Rng& rng);
#if VF_PART == 0
// a spec that does not say how large its states are is refused, not run in memory of unknown size
struct NoSize : public PodArrayDdSpec<NoSize, int, 2> {
    explicit NoSize(int times) { for (int k = 0; k < times; ++k) setArraySize(k + 1); }
    int getRoot(int* a) const { a[0] = 0; return 3; }
    int getChild(int* a, int level, int value) const { a[0] += value; return --level > 0 ? level : a[0] == 1 ? -1 : 0; }
};
static void refused(Rng& rng) {
    int times = (int) rng.below(3), op = (int) rng.below(4);
    bool mp = rng.coin(), threw = false;
    try {
        NoSize s(times);
        if (op == 0) { DdStructure<2> d(s, mp); if (times == 1) REQUIRE(d.zddCardinality() == "3", "array-size", "wrong result"); }
        else if (op == 1) { DdStructure<2> d(4, mp); d.zddSubset(s); }
        else if (op == 2) { std::ostringstream o; s.dumpDot(o); }
        else s.findOneInstance();
    }
    catch (std::runtime_error const&) { threw = true; }
    REQUIRE(threw == (times != 1), "array-size", "a spec that set its array size " << times << " times is " << (threw ? "refused" : "accepted"));
    count("array_size_cases");
}
void vf::runCase(Rng& rng) {
    if (rng.chance(0.02)) return refused(rng);
    int k = (int) rng.below(20);
    if (k < 4) graph(rng);
    else if (k < 12) run2(rng);
    else if (k < 16) run3(rng);
    else run4(rng);
}
VF_MAIN
#elif VF_PART == 2
void run2(Rng& rng) { one<2>(rng); }
#elif VF_PART == 3
void run3(Rng& rng) { one<3>(rng); }
#else
void run4(Rng& rng) { if (rng.coin()) one<5>(rng); else one<64>(rng); }
#endif
