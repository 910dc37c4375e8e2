// PARTS: 0 2 3
// Large diagrams: hundreds of thousands of nodes on a level, thousands of
// levels, many threads. The mode selects what is judged (one property each).
#include "specs.hpp"
#include "dot.hpp"
#include <tdzdd/DdEval.hpp>
#include <tdzdd/DdSpecOp.hpp>
#include <tdzdd/dd/PathCounter.hpp>
#include <tdzdd/util/MyHashTable.hpp>
#include <tdzdd/util/MyList.hpp>
#include <tdzdd/util/MyVector.hpp>
#include <tdzdd/util/MemoryPool.hpp>
#include <pthread.h>
using namespace vf;

template<int AR>
class HugeSpec : public DdSpec<HugeSpec<AR>, uint64_t, AR> {
public:
    int n; uint32_t w, dup; uint64_t seed; int zero, skip, one;
    // state: meaning * dup + salt
    int step(uint64_t& s, int level, int b) const {
        uint64_t m = s / dup;
        uint64_t h = mix64(seed ^ mix64(((uint64_t) level << 44) ^ (m << 6) ^ b));
        if ((int) (h % 1000) < zero) { s = 0; return 0; }
        if ((int) ((h >> 10) % 1000) < one) { s = 0; return -1; }
        int l = level - 1;
        if ((int) ((h >> 20) % 1000) < skip) l = level - 1 - (int) ((h >> 30) % std::min(level, 4));
        if (l <= 0) { s = 0; return (h >> 30) % 3 ? -1 : 0; }
        uint64_t salt = dup > 1 ? mix64(s * 31 + b) % dup : 0;
        s = (h >> 32) % w * dup + salt;
        return l;
    }
    int getRoot(uint64_t& s) const { s = 0; return n; }
    int getChild(uint64_t& s, int level, int b) const { return step(s, level, b); }
    std::string str() const { std::ostringstream o; o << "n=" << n << " w=" << w << " dup=" << dup << " seed=" << seed << " zero=" << zero << " skip=" << skip << " one=" << one << " arity=" << AR; return o.str(); }
};

// bottom-up value of every reachable meaning
template<int AR, typename V, typename F>
static V fold(HugeSpec<AR> const& S, V zero, V one, F f) {
    std::vector<std::vector<char> > seen(S.n + 1);
    std::vector<std::vector<V> > val(S.n + 1);
    for (int i = 1; i <= S.n; ++i) seen[i].resize(S.w);
    seen[S.n][0] = 1;
    for (int i = S.n; i >= 1; --i) for (uint32_t m = 0; m < S.w; ++m) if (seen[i][m])
        for (int b = 0; b < AR; ++b) { uint64_t s = (uint64_t) m * S.dup; int l = S.step(s, i, b); if (l > 0) seen[l][s / S.dup] = 1; }
    std::vector<V> ch(AR); std::vector<int> lv(AR);
    for (int i = 1; i <= S.n; ++i) {
        val[i].resize(S.w);
        for (uint32_t m = 0; m < S.w; ++m) if (seen[i][m]) {
            for (int b = 0; b < AR; ++b) { uint64_t s = (uint64_t) m * S.dup; int l = S.step(s, i, b); ch[b] = l < 0 ? one : l == 0 ? zero : val[l][s / S.dup]; lv[b] = std::max(l, 0); }
            val[i][m] = f(i, ch, lv);
        }
    }
    return val[S.n][0];
}
template<int AR>
static int canonHuge(Canon& C, HugeSpec<AR> const& S) { return fold<AR, int64_t>(S, 0, 1, [&](int i, std::vector<int64_t> const& ch, std::vector<int> const&) { return (int64_t) C.make(i, ch); }); }

template<int AR>
static HugeSpec<AR> randomHuge(Rng& rng, uint32_t maxW, int maxTall) {
    HugeSpec<AR> S;
    S.seed = rng.next();
    S.zero = rng.coin() ? 0 : rng.range(1, 150);
    S.one = rng.coin() ? 0 : rng.range(1, 10);
    S.skip = rng.coin() ? 0 : rng.range(1, 200);
    S.dup = rng.coin() ? 1 : rng.range(2, 4);
    if (maxTall >= 400 && ctx().caseNo % 10 == 3) { // more levels than 15, 16 (17, ...) bits can number
        static const int T[] = {65600, 33000, 140000, 270000}, U[] = {530000, 1040000};
        S.n = ctx().thorough && rng.chance(0.1) ? U[rng.below(2)] : T[ctx().caseNo / 10 % 3 + (ctx().thorough && rng.coin())] + rng.range(0, 500);
        if (ctx().mode == "par" || ctx().mode == "reduce" || ctx().mode == "copy") S.n = std::min(S.n, 66000); // a parallel region per level
        S.w = rng.range(1, 2); S.zero = S.one = 0; S.dup = rng.range(1, 2); if (S.skip) S.skip = 20;
        count("very_tall_cases"); maxcount("very_tall_levels", S.n);
        omp_set_num_threads(rng.range(1, 2));
    }
    else if (AR == 2 && maxTall >= 400 && ctx().caseNo == 14 && ctx().mode != "copy" && ctx().mode != "dump") { // more than 2^20 nodes on a level
        S.n = 23; S.w = 1250000; S.dup = 1; S.zero = 0; count("very_wide_cases");
    }
    else if (rng.chance(0.3)) { S.n = rng.range(maxTall / 3, maxTall); S.w = rng.range(1, 5); S.zero = S.one = 0; if (S.skip) S.skip = 20; count("tall_cases"); }
    else { S.w = (uint32_t) rng.range(maxW / 8, maxW); S.n = AR == 2 ? rng.range(19, 23) : rng.range(13, 15); count("wide_cases"); }
    return S;
}
static int threads(Rng& rng) {
    static const int T[] = {1, 2, 3, 4, 6, 8, 11, 16, 24};
    int t = T[rng.below(9)];
    omp_set_num_threads(t);
    maxcount("threads", t);
    return t;
}

// runs f on a stack that holds a recursion over all levels
template<typename F>
static void bigStack(F f) {
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, (size_t) 2 << 30);
    pthread_t t;
    if (pthread_create(&t, &a, [](void* p) -> void* { (*static_cast<F*>(p))(); return 0; }, &f)) { f(); return; }
    pthread_join(t, 0);
    pthread_attr_destroy(&a);
}

static uint64_t weight(int level, int b) { return mix64(level * 64 + b) | 1; }
template<int AR>
struct WSum : public DdEval<WSum<AR>, uint64_t> {
    bool safe;
    explicit WSum(bool s) : safe(s) {}
    bool isThreadSafe() const { return safe; }
    void evalTerminal(uint64_t& v, int id) const { v = id ? 0x12345 : 7; }
    void evalNode(uint64_t& v, int level, DdValues<uint64_t, AR> const& c) const { v = level; for (int b = 0; b < AR; ++b) v += weight(level, b) * (c.get(b) ^ mix64(c.getLevel(b))); }
};
template<int AR>
struct ModSpec : public DdSpec<ModSpec<AR>, int, AR> { // sum of the values is r modulo k
    int n, k, r;
    int getRoot(int& s) const { s = 0; return n; }
    int getChild(int& s, int level, int b) const { s = (s + b) % k; return level > 1 ? level - 1 : s == r ? -1 : 0; }
};

// the number of paths of an automaton most of whose levels force the value
template<int AR>
struct ChainSpec : public DdSpec<ChainSpec<AR>, int, AR> {
    int n, free; uint64_t seed; // free: that many levels do not force the value; the state counts them
    bool isFree(int level) const { return mix64(seed ^ level) % 997 < 3; }
    int getRoot(int& s) const { s = 0; return n; }
    int getChild(int& s, int level, int b) const {
        if (isFree(level) && s < free) ++s;
        else if (b != (int) (mix64(seed + level) % AR)) return 0;
        return level > 1 ? level - 1 : -1;
    }
    uint64_t number() const { int k = 0; for (int i = n; i >= 1; --i) if (isFree(i) && k < free) ++k; return ipow(AR, k); }
};
template<int AR>
static ChainSpec<AR> veryTall(Rng& rng) {
    ChainSpec<AR> c;
    static const int T[] = {33000, 65600, 66000, 140000};
    c.n = T[ctx().caseNo / 10 % 4] + rng.range(0, 500);
    c.free = rng.range(1, 12); c.seed = rng.next();
    count("very_tall_cases"); maxcount("very_tall_levels", c.n);
    return c;
}

template<int AR>
static void one(Rng& rng) {
    std::string const& mode = ctx().mode;
    bool th = ctx().thorough;
    bool mp = rng.coin();
    int t = threads(rng);
    if (mode == "build") {
        HugeSpec<AR> S = randomHuge<AR>(rng, th ? 600000 : 150000, 4000);
        DdStructure<AR> dd(S, mp);
        Canon C(PATH, AR);
        size_t reach = 0;
        int want = canonHuge(C, S), got = canonDD(C, dd, AR, &reach);
        REQUIRE(got == want, "huge", "diagram and spec disagree: " << S.str() << " mp=" << mp << " threads=" << t);
        REQUIRE(dd.size() >= reach, "huge:size", "size() " << dd.size() << " below the number of reachable nodes " << reach);
        maxcount("nodes", reach); maxcount("levels", S.n);
        if (want >= 2) nontrivial(S.seed);
    }
    else if (mode == "reduce") {
        HugeSpec<AR> S = randomHuge<AR>(rng, th ? 400000 : 100000, 3000);
        Mode m = (Mode) (1 + rng.below(3));
        Canon C(m == QDD ? PATH : m, AR);
        int want = canonHuge(C, S);
        DdStructure<AR> dd(S, rng.coin());
        size_t before = dd.size(), reach = 0, best = C.reach(want);
        dd.useMultiProcessors(mp);
        if (m == ZDD) dd.zddReduce(); else if (m == BDD) dd.bddReduce(); else dd.qddReduce();
        int got = canonDD(C, dd, AR, &reach);
        REQUIRE(got == want, "huge", "reduction changed the meaning: " << S.str() << " mode=" << m << " mp=" << mp << " threads=" << t);
        REQUIRE(reach == best && dd.size() == best, "huge:minimal", "reduced to " << dd.size() << " nodes (" << reach << " reachable), minimal are " << best << ": " << S.str() << " mode=" << m << " mp=" << mp);
        maxcount("nodes", before);
        if (before > best) count("cases_with_removed_nodes_large");
        if (want >= 2) nontrivial(S.seed);
    }
    else if (mode == "par") {
        HugeSpec<AR> S = randomHuge<AR>(rng, th ? 300000 : 60000, 1500);
        ModSpec<AR> M; M.n = S.n; M.k = rng.range(2, 3); M.r = rng.below(M.k);
        int order = rng.below(3);
        std::vector<DdStructure<AR> > r;
        std::vector<uint64_t> v; std::vector<std::string> card;
        for (int k = 0; k < 2; ++k) {
            DdStructure<AR> d(S, k == 1);
            d.useMultiProcessors(k == 1);
            if (order == 1) d.zddReduce();
            if (k && S.n < 30000) threads(rng);
            if (order >= 1) d.zddSubset(M);
            if (k && S.n < 30000) threads(rng);
            if (rng.coin()) d.zddReduce(); else { d.zddReduce(); d.zddReduce(); }
            v.push_back(d.evaluate(WSum<AR>(true)));
            card.push_back(S.n < 100 ? d.zddCardinality() : "");
            r.push_back(d);
        }
        REQUIRE(r[0] == r[1] && r[0].size() == r[1].size(), "huge", "multi-processor result differs: " << S.str() << " order=" << order);
        REQUIRE(v[0] == v[1], "huge:value", "evaluation differs: " << S.str());
        REQUIRE(card[0] == card[1], "huge:cardinality", "cardinality differs: " << S.str());
        maxcount("nodes", r[0].size());
        if (r[0].size()) nontrivial(S.seed);
    }
    else if (mode == "subset") {
        HugeSpec<AR> S = randomHuge<AR>(rng, th ? 300000 : 50000, 1500);
        ModSpec<AR> M; M.n = std::max(1, S.n + rng.range(-2, 2)); M.k = rng.range(2, 4); M.r = rng.below(M.k);
        Canon C(ZDD, AR);
        int a = canonHuge(C, S);
        std::vector<std::vector<int64_t> > id(M.n + 1, std::vector<int64_t>(M.k));
        for (int i = 1; i <= M.n; ++i) for (int s = 0; s < M.k; ++s) { std::vector<int64_t> ch(AR); for (int b = 0; b < AR; ++b) { int x = s, l = M.getChild(x, i, b); ch[b] = l > 0 ? id[l][x] : l ? 1 : 0; } id[i][s] = C.make(i, ch); }
        Apply A{C, AR, ZDD, true};
        int want; bigStack([&]() { want = A(a, (int) id[M.n][0]); });
        DdStructure<AR> dd(S, rng.coin());
        if (rng.coin()) dd.zddReduce();
        DdStructure<AR> copy; bool keep = rng.coin();
        if (keep) copy = dd;
        size_t before = dd.size();
        dd.useMultiProcessors(mp);
        dd.zddSubset(M);
        REQUIRE(canonDD(C, dd, AR) == want, "huge", "subset is not the intersection: " << S.str() << " by sum=" << M.r << " mod " << M.k << " n=" << M.n << " mp=" << mp << " threads=" << t);
        if (keep) REQUIRE(canonDD(C, copy, AR) == a && copy.size() == before, "huge:copy", "the copy changed: " << S.str());
        maxcount("nodes", before);
        if (want >= 2) nontrivial(S.seed);
    }
    else if (mode == "eval") {
        HugeSpec<AR> S = randomHuge<AR>(rng, th ? 400000 : 100000, 3000);
        DdStructure<AR> dd(S, rng.coin());
        bool safe = rng.coin();
        dd.useMultiProcessors(mp);
        uint64_t got = dd.evaluate(WSum<AR>(safe));
        // independent bottom-up pass over the diagram
        typedef Walker<DdStructure<AR> > W;
        size_t reach = 0;
        uint64_t want = 7;
        auto root = static_cast<DdStructure<AR> const&>(dd).root();
        typedef typename std::decay<decltype(root)>::type N;
        if (root.row() == 0) want = root.col() ? 0x12345 : 7;
        else {
            auto lv = W::collect(dd, AR, reach);
            std::unordered_map<uint64_t, uint64_t> val;
            for (size_t i = 1; i < lv.size(); ++i) for (auto& e : lv[i]) {
                uint64_t v = i;
                for (int b = 0; b < AR; ++b) { N g = static_cast<DdStructure<AR> const&>(dd).child(N((uint64_t) i, e.first), b); v += weight(i, b) * ((g.row() == 0 ? (g.col() ? 0x12345 : 7) : val.at(W::keyOf(g.row(), g.col()))) ^ mix64(g.row())); }
                val[W::keyOf(i, e.first)] = v;
            }
            want = val.at(W::keyOf(root.row(), root.col()));
        }
        REQUIRE(got == want, "huge", "evaluation gives " << got << ", expected " << want << ": " << S.str() << " mp=" << mp << " safe=" << safe << " threads=" << t);
        maxcount("nodes", reach);
        if (reach) nontrivial(S.seed);
    }
    else if ((mode == "card" || mode == "count") && ctx().caseNo % 10 == 3) {
        omp_set_num_threads(rng.range(1, 2));
        ChainSpec<AR> c = veryTall<AR>(rng);
        std::string want = std::to_string(c.number()), got;
        int k = rng.below(3);
        if (mode == "count") got = k == 0 ? countPaths(c) : k == 1 ? countPaths(c, true) : std::to_string(countPaths64(c));
        else { DdStructure<AR> dd(c, c.n < 67000 && mp); if (k) dd.zddReduce(); dd.useMultiProcessors(c.n < 67000 && mp); got = dd.zddCardinality(); }
        REQUIRE(got == want, "huge:tall", mode << " gives " << got << ", exact " << want << " for " << c.n << " levels, seed " << c.seed << " free=" << c.free << " arity=" << AR << " variant=" << k);
        nontrivial(c.seed);
    }
    else if (mode == "card") {
        HugeSpec<AR> S = randomHuge<AR>(rng, th ? 300000 : 80000, 60);
        if (AR > 2 && S.n > 39) S.n = 39;
        DdStructure<AR> dd(S, rng.coin());
        uint64_t z = fold<AR, uint64_t>(S, 0, 1, [&](int, std::vector<uint64_t> const& c, std::vector<int> const&) { uint64_t v = 0; for (uint64_t x : c) v += x; return v; });
        uint64_t b2 = fold<AR, uint64_t>(S, 0, 1, [&](int i, std::vector<uint64_t> const& c, std::vector<int> const& l) { uint64_t v = 0; for (int b = 0; b < AR; ++b) v += c[b] * ipow(AR, i - 1 - l[b]); return v; });
        int k = rng.below(3);
        if (k == 1) dd.zddReduce();
        dd.useMultiProcessors(mp);
        if (k != 2) REQUIRE(dd.zddCardinality() == std::to_string(z), "huge:zdd", "zddCardinality " << dd.zddCardinality() << ", exact " << z << ": " << S.str() << " mp=" << mp);
        if (k != 1) { if (k == 2) dd.bddReduce(); REQUIRE(dd.bddCardinality(S.n) == std::to_string(b2), "huge:bdd", "bddCardinality " << dd.bddCardinality(S.n) << ", exact " << b2 << ": " << S.str() << " mp=" << mp); }
        maxcount("nodes", dd.size());
        if (z) nontrivial(S.seed);
    }
    else if (mode == "count") {
        HugeSpec<AR> S = randomHuge<AR>(rng, th ? 200000 : 50000, 60);
        if (AR > 2 && S.n > 39) S.n = 39;
        uint64_t z = fold<AR, uint64_t>(S, 0, 1, [&](int, std::vector<uint64_t> const& c, std::vector<int> const&) { uint64_t v = 0; for (uint64_t x : c) v += x; return v; });
        int k = rng.below(3);
        std::string got = k == 0 ? countPaths(S) : k == 1 ? countPaths(S, true) : std::to_string(countPaths64(S));
        REQUIRE(got == std::to_string(z), "huge", "path count (variant " << k << ") " << got << ", exact " << z << ": " << S.str());
        maxcount("states", S.w);
        if (z) nontrivial(S.seed);
    }
    else if (mode == "copy") {
        HugeSpec<AR> S = randomHuge<AR>(rng, th ? 200000 : 40000, 1000);
        Canon R(RAW, AR);
        std::vector<std::unique_ptr<DdStructure<AR> > > v;
        std::vector<int> id; std::vector<size_t> size;
        int copies = rng.chance(0.3) ? rng.range(200, 70000) : rng.range(1, 5); // more copies than small counters can hold
        if (ctx().caseNo % 20 == 5) copies = rng.range(65600, 70000);
        DdStructure<AR> dd(S, rng.coin());
        std::vector<DdStructure<AR> > crowd;
        crowd.reserve(copies);
        for (int k = 0; k < copies; ++k) crowd.push_back(dd);
        int want = canonDD(R, dd, AR); size_t sz = dd.size();
        DdStructure<AR> other = dd;
        other.useMultiProcessors(mp);
        switch (rng.below(4)) {
        case 0: other.zddReduce(); break;
        case 1: other.bddReduce(); break;
        case 2: { ModSpec<AR> M; M.n = S.n; M.k = 2; M.r = 1; other.zddSubset(M); break; }
        default: other.qddReduce();
        }
        if (rng.coin()) crowd.resize(1);
        REQUIRE(canonDD(R, dd, AR) == want && dd.size() == sz, "huge", "a diagram changed when its copy was processed: " << S.str() << " copies=" << copies);
        REQUIRE(canonDD(R, crowd.back(), AR) == want && crowd.back() == dd, "huge:copies", "one of " << copies << " copies changed: " << S.str());
        maxcount("copies", copies);
        if (want >= 2) nontrivial(S.seed);
    }
    else if (mode == "wrap") {
        HugeSpec<AR> S = randomHuge<AR>(rng, th ? 100000 : 30000, 400);
        int k = rng.below(4), nv = S.n + rng.range(0, 3);
        if (S.n > 30000 && rng.chance(0.8)) k = 2 + ctx().caseNo / 10 % 2;
        Canon C(k % 2 ? ZDD : BDD, AR), P(PATH, AR);
        int want = canonHuge(C, S);
        DdStructure<AR> dd = k == 0 ? DdStructure<AR>(bddLookahead(S), mp) : k == 1 ? DdStructure<AR>(zddLookahead(S), mp) : k == 2 ? DdStructure<AR>(bddUnreduction(S, nv), mp) : DdStructure<AR>(zddUnreduction(S, nv), mp);
        REQUIRE(canonDD(C, dd, AR) == want, "huge", "wrapper " << k << " changed the meaning: " << S.str() << " numVars=" << nv << " mp=" << mp);
        if (k >= 2 && want) { // every level explicit
            size_t reach; auto lv = Walker<DdStructure<AR> >::collect(dd, AR, reach);
            typedef typename std::decay<decltype(static_cast<DdStructure<AR> const&>(dd).root())>::type N;
            REQUIRE((int) lv.size() - 1 == nv, "huge:levels", "top level " << lv.size() - 1 << " for " << nv << " variables");
            for (size_t i = 1; i < lv.size(); ++i) for (auto& e : lv[i]) for (int b = 0; b < AR; ++b) { N g = static_cast<DdStructure<AR> const&>(dd).child(N((uint64_t) i, e.first), b); REQUIRE(g == 0 || (int) g.row() == (int) i - 1, "huge:levels", "edge from level " << i << " to " << g.row() << " after unreduction: " << S.str()); }
        }
        maxcount("nodes", dd.size());
        if (want >= 2) nontrivial(S.seed);
    }
    else fail("mode", "unknown mode " + mode);
    count("huge_cases");
    sample(mode + " large");
}

void runDump(Rng&); void run2(Rng&); void run3(Rng&); void runIter(Rng&); void runOps(Rng&); void runContainers(Rng&);
#if VF_PART == 2
void run2(Rng& rng) { one<2>(rng); }
// a large family is enumerated completely
void runIter(Rng& rng) {
    if (ctx().caseNo % 10 == 3) { // members with tens of thousands of elements
        ChainSpec<2> c = veryTall<2>(rng);
        c.free = std::min(c.free, 4);
        DdStructure<2> dd(c);
        if (rng.coin()) dd.zddReduce();
        uint64_t want = c.number(), n = 0;
        std::set<uint64_t> seen;
        for (auto it = dd.begin(); it != dd.end() && n <= want; ++it, ++n) {
            std::set<int> const& s = *it;
            uint64_t h = 1;
            int st = 0, l = c.n;
            auto p = s.rbegin();
            for (int i = c.n; i >= 1 && l > 0; --i) { int b = p != s.rend() && *p == i; if (b) ++p; h = h * 31 + b; l = c.getChild(st, i, b); }
            REQUIRE(l == -1 && p == s.rend(), "huge:member", "iteration yields a non-member of a family with " << c.n << " levels, seed " << c.seed);
            REQUIRE(seen.insert(mix64(h)).second, "huge:twice", "a set is yielded twice");
        }
        REQUIRE(n == want, "huge:number", n << " of " << want << " sets of a family with " << c.n << " levels, seed " << c.seed);
        std::vector<std::pair<int, int> > v;
        std::string ex;
        bigStack([&]() { try { v = dd.findOneInstance(); } catch (std::exception& e) { ex = e.what(); } });
        REQUIRE(ex.empty(), "huge:instance", "findOneInstance throws " << ex);
        std::map<int, int> e;
        for (auto const& x : v) REQUIRE(e.insert(x).second, "huge:instance", "a level occurs twice in an instance");
        int st = 0, l = c.n;
        for (int i = c.n; i >= 1 && l > 0; --i) l = c.getChild(st, i, e.count(i) ? e[i] : 0);
        REQUIRE(l == -1, "huge:instance", "the instance is not a member of a family with " << c.n << " levels, seed " << c.seed);
        nontrivial(c.seed);
        count("huge_cases");
        return;
    }
    HugeSpec<2> S = randomHuge<2>(rng, 20000, 300);
    if (S.n > 100) { S.n *= 10; // one or few very long sets
        S.w = rng.range(1, 2); S.zero = 700; S.one = 0; S.skip = 0; S.dup = 1;
        struct Chain : public DdSpec<Chain, int, 2> { int n; uint64_t seed; int getRoot(int& s) const { s = 0; return n; } int getChild(int& s, int level, int b) const { bool free = mix64(seed ^ level) % 400 == 0 && s < 8; if (free) s += 1; else if (b != (int) (mix64(seed + level) & 1)) return 0; return level > 1 ? level - 1 : -1; } } ch;
        ch.n = S.n; ch.seed = S.seed;
        DdStructure<2> dd(ch);
        uint64_t want = std::stoull(dd.zddCardinality()), n = 0;
        std::set<uint64_t> seen;
        for (auto it = dd.begin(); it != dd.end(); ++it) {
            std::set<int> const& s = *it;
            uint64_t h = 1, sz = 0;
            for (int x : s) { h = mix64(h ^ x); ++sz; REQUIRE(x >= 1 && x <= S.n, "huge:level", "level " << x << " of " << S.n); }
            int st = 0, l = S.n;
            for (int i = S.n; i >= 1 && l > 0; --i) { REQUIRE(l == i, "huge:oracle", "chain"); l = ch.getChild(st, i, s.count(i) ? 1 : 0); }
            REQUIRE(l == -1, "huge:member", "iteration yields a non-member of a family with " << S.n << " levels, seed " << S.seed);
            REQUIRE(seen.insert(h).second, "huge:twice", "a set is yielded twice");
            ++n;
        }
        REQUIRE(n == want, "huge:number", n << " of " << want << " sets of a family with " << S.n << " levels, seed " << S.seed);
        std::map<int, int> e;
        for (auto const& x : dd.findOneInstance()) REQUIRE(e.insert(x).second, "huge:instance", "a level occurs twice in an instance");
        int st = 0, l = S.n;
        for (int i = S.n; i >= 1 && l > 0; --i) l = e.count(i) ? ch.getChild(st, i, e[i]) : 0;
        REQUIRE(l == -1, "huge:instance", "the instance is not a member of a family with " << S.n << " levels, seed " << S.seed);
        maxcount("levels", S.n);
        count("huge_cases");
        nontrivial(S.seed);
        return;
    }
    DdStructure<2> dd(S, rng.coin());
    dd.zddReduce();
    // the independent number of members and the sum of a hash over all of them
    uint64_t limit = 400000, n = 0, sum = 0, sum2 = 0;
    std::string c = dd.zddCardinality();
    struct Rec { HugeSpec<2> const& S; uint64_t n = 0, sum = 0, limit; bool go(uint64_t s, int level, uint64_t h) { for (int b = 0; b < 2; ++b) { uint64_t x = s; int l = S.step(x, level, b); uint64_t g = b ? h + mix64(level * 77) : h; if (l < 0) { ++n; sum += mix64(g); } else if (l > 0 && !go(x, l, g)) return false; if (n > limit) return false; } return true; } } rec{S};
    rec.limit = limit;
    bool all = rec.go(0, S.n, 1);
    (void) sum2;
    for (auto it = dd.begin(); it != dd.end() && n <= limit; ++it) { uint64_t h = 1; for (int x : *it) h += mix64(x * 77); sum += mix64(h); ++n; }
    if (all) REQUIRE(n == rec.n && sum == rec.sum, "huge", "iteration yields " << n << " sets, the family has " << rec.n << " (or other members): " << S.str());
    else REQUIRE(n > limit, "huge:few", "iteration ends after " << n << " sets: " << S.str());
    maxcount("sets_iterated", n);
    count("huge_cases");
    nontrivial(S.seed);
}
#elif VF_PART == 3
void run3(Rng& rng) { one<3>(rng); }
void runOps(Rng& rng) {
    bool mp = rng.coin();
    threads(rng);
    HugeSpec<2> S = randomHuge<2>(rng, ctx().thorough ? 100000 : 20000, 400);
    ModSpec<2> M; M.n = std::max(1, S.n + rng.range(-2, 2)); M.k = rng.range(2, 4); M.r = rng.below(M.k);
    int k = rng.below(4);
    Mode m = k < 2 ? BDD : ZDD;
    Canon C(m, 2);
    int a = canonHuge(C, S);
    std::vector<std::vector<int64_t> > id(M.n + 1, std::vector<int64_t>(M.k));
    for (int i = 1; i <= M.n; ++i) for (int s = 0; s < M.k; ++s) { std::vector<int64_t> ch(2); for (int b = 0; b < 2; ++b) { int x = s, l = M.getChild(x, i, b); ch[b] = l > 0 ? id[l][x] : l ? 1 : 0; } id[i][s] = C.make(i, ch); }
    Apply A{C, 2, m, k % 2 == 0};
    int want; bigStack([&]() { want = A(a, (int) id[M.n][0]); });
    DdStructure<2> dd = k == 0 ? DdStructure<2>(bddAnd(S, M), mp) : k == 1 ? DdStructure<2>(bddOr(M, S), mp) : k == 2 ? DdStructure<2>(zddIntersection(M, S), mp) : DdStructure<2>(zddUnion(S, M), mp);
    REQUIRE(canonDD(C, dd, 2) == want, "huge", "operator " << k << " of " << S.str() << " and sum=" << M.r << " mod " << M.k << " n=" << M.n << " mp=" << mp);
    maxcount("nodes", dd.size());
    if (want >= 2) nontrivial(S.seed);
    count("huge_cases");
}
void runDump(Rng& rng) {
    threads(rng);
    HugeSpec<2> S = randomHuge<2>(rng, ctx().thorough ? 40000 : 8000, 1500);
    int k = rng.below(3);
    DdStructure<2> dd;
    bool red = k < 2 && rng.coin();
    Canon C(red ? ZDD : PATH, 2);
    int want = canonHuge(C, S), got = -1;
    std::ostringstream o;
    if (k < 2) { dd = DdStructure<2>(S, rng.coin()); if (red) dd.zddReduce(); }
    if (k == 0) {
        dd.dumpSapporo(o);
        std::istringstream in(o.str());
        std::string w[3], a, b; long ni = -1, no = -1, nn = -1, id; int l;
        REQUIRE(in >> w[0] >> ni >> w[1] >> no >> w[2] >> nn && w[0] == "_i" && w[1] == "_o" && w[2] == "_n" && no == 1, "huge:sapporo", "header of " << S.str());
        REQUIRE(nn == (long) dd.size() && ni >= dd.topLevel(), "huge:sapporo", ni << " inputs and " << nn << " nodes declared, size is " << dd.size() << " and top level " << dd.topLevel() << ": " << S.str());
        std::unordered_map<long, int64_t> node; std::unordered_map<long, int> level;
        auto ref = [&](std::string const& s, int above) -> int64_t {
            if (s == "F") return 0;
            if (s == "T") return 1;
            long x = atol(s.c_str());
            REQUIRE(node.count(x) && level[x] < above, "huge:sapporo", "node " << s << " used before its definition or not above: " << S.str());
            return node[x];
        };
        for (long j = 0; j < nn; ++j) {
            REQUIRE(in >> id >> l >> a >> b && l >= 1 && l <= ni && !node.count(id), "huge:sapporo", "line " << j << " of " << S.str());
            std::vector<int64_t> ch(2); ch[0] = ref(a, l); ch[1] = ref(b, l);
            node[id] = C.make(l, ch); level[id] = l;
        }
        REQUIRE((bool) (in >> a), "huge:sapporo", "no root: " << S.str());
        got = (int) ref(a, INT_MAX);
    }
    else {
        if (k == 1) dd.dumpDot(o); else S.dumpDot(o);
        Dot D = parseDot(o.str());
        std::map<std::string, Ref> where;
        REQUIRE(D.rootEdge.size() <= 1, "huge:dot", "root edges");
        if (D.rootEdge.empty()) got = 0;
        else {
            int top = k == 1 ? dd.topLevel() : S.n;
            Table X = dotTable(D, 2, where, top);
            REQUIRE(where.count(D.rootEdge[0]), "huge:dot", "undeclared root: " << S.str());
            X.root = where[D.rootEdge[0]];
            got = canonTable(C, X);
        }
    }
    REQUIRE(got == want, "huge", "export " << k << " denotes another diagram: " << S.str() << " reduced=" << red);
    maxcount("exported_bytes", o.str().size());
    count("huge_exports");
    if (want >= 2) nontrivial(S.seed);
    count("huge_cases");
}
void runContainers(Rng& rng) {
    size_t n = (size_t) rng.range(100000, ctx().thorough ? 3000000 : 400000);
    uint64_t seed = rng.next(), range = rng.coin() ? n : n * 1000;
    switch (rng.below(4)) {
    case 0: {
        MyHashTable<uint64_t> h(rng.coin() ? 0 : (size_t) rng.below(n));
        std::unordered_set<uint64_t> m;
        for (size_t i = 0; i < n; ++i) { uint64_t x = 1 + mix64(seed + i) % range; uint64_t& y = h.add(x); REQUIRE(y == x, "huge:hash-add", "add returned " << y << " for " << x); m.insert(x); }
        REQUIRE(h.size() == m.size(), "huge:hash-size", h.size() << " elements, expected " << m.size());
        for (uint64_t x : m) REQUIRE(h.get(x) != 0, "huge:hash-lost", x << " lost among " << m.size());
        size_t k = 0;
        for (auto it = h.begin(); it != h.end(); ++it) { ++k; REQUIRE(m.count(*it), "huge:hash-alien", *it << " was never added"); }
        REQUIRE(k == m.size(), "huge:hash-iteration", k << " of " << m.size() << " elements visited");
        for (size_t i = 0; i < 1000; ++i) { uint64_t x = 1 + mix64(~seed + i) % (range * 2); REQUIRE((h.get(x) != 0) == (m.count(x) != 0), "huge:hash-get", "membership of " << x); }
        maxcount("hash_size", m.size());
        break; }
    case 1: {
        MyList<uint64_t> l;
        for (size_t i = 0; i < n; ++i) new (l.alloc_front(sizeof(uint64_t))) uint64_t(mix64(seed + i));
        size_t k = n;
        for (auto it = l.begin(); it != l.end(); ++it) { --k; REQUIRE(**it == mix64(seed + k), "huge:list", "element " << k << " of " << n); }
        REQUIRE(k == 0 && l.size() == n, "huge:list", "size " << l.size() << ", expected " << n);
        for (size_t i = n; i > 0; --i) { REQUIRE(*l.front() == mix64(seed + i - 1), "huge:list-front", "front " << i); l.pop_front(); }
        REQUIRE(l.empty(), "huge:list", "not empty");
        maxcount("list_size", n);
        break; }
    case 2: {
        MyVector<uint64_t> v; std::vector<uint64_t> m;
        for (size_t i = 0; i < n; ++i) { v.push_back(mix64(seed + i)); if (i % 65536 == 777) { v.resize(i / 2 + 1); i = i / 2 + 2 + i; for (size_t j = v.size(); j <= i && j < n; ++j) v.push_back(mix64(seed + j)); if (i >= n) break; } }
        for (size_t i = 0; i < v.size(); ++i) REQUIRE(v[i] == mix64(seed + i), "huge:vector", "element " << i << " of " << v.size());
        maxcount("vector_size", v.size());
        break; }
    default: {
        MemoryPool pool;
        std::vector<std::pair<unsigned char*, size_t> > all;
        size_t total = 0;
        for (size_t i = 0; total < n * 20; ++i) { size_t k = 1 + mix64(seed + i) % (mix64(seed - i) % 50 == 0 ? 30000 : 64); unsigned char* p = static_cast<unsigned char*>(pool.alloc(k)); memset(p, (int) (i * 31 + 7) & 0xff, k); all.emplace_back(p, k); total += k; }
        for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < all[i].second; ++j) REQUIRE(all[i].first[j] == (unsigned char) (i * 31 + 7), "huge:pool", "block " << i << " of " << all.size() << " was overwritten");
        maxcount("pool_bytes", total);
    }
    }
    nontrivial(seed);
    count("huge_cases");
}
#else
void vf::runCase(Rng& rng) { if (ctx().mode == "iter") runIter(rng); else if (ctx().mode == "ops") runOps(rng); else if (ctx().mode == "dump") runDump(rng); else if (ctx().mode == "containers") runContainers(rng); else if (rng.chance(0.7)) run2(rng); else run3(rng); }
VF_MAIN
#endif
