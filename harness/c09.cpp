// PARTS: 0 2 3 4
// C09: cardinalities are exact.
#include "specs.hpp"
#include <cmath>
using namespace vf;

template<int AR>
static void counts(DdStructure<AR> const& dd, int n, Big& z, Big& b, int& bits) {
    typedef typename std::decay<decltype(dd.root())>::type N;
    N root = dd.root();
    size_t reach = 0;
    std::unordered_map<uint64_t, Big> Z, B;
    auto lv = Walker<DdStructure<AR> >::collect(dd, AR, reach);
    auto zero = [](Big const& x) { return x.d.empty(); };
    auto val = [&](std::unordered_map<uint64_t, Big>& M, N f) { return f.row() == 0 ? Big(f.col()) : M.at(Walker<DdStructure<AR> >::keyOf(f.row(), f.col())); };
    for (size_t i = 1; i < lv.size(); ++i) for (auto& e : lv[i]) {
        Big sz, sb;
        for (int x = 0; x < AR; ++x) {
            N g = dd.child(N((uint64_t) i, e.first), x);
            sz += val(Z, g);
            Big t = val(B, g);
            if (!zero(t)) for (int k = g.row() + 1; k < (int) i; ++k) t.mul(AR);
            sb += t;
        }
        Z[Walker<DdStructure<AR> >::keyOf((int) i, e.first)] = sz;
        B[Walker<DdStructure<AR> >::keyOf((int) i, e.first)] = sb;
    }
    z = val(Z, root);
    b = val(B, root);
    if (!zero(b)) for (int k = root.row(); k < n; ++k) b.mul(AR);
    bits = (int) (b.d.size() * 30);
}
static double toDouble(Big const& b) { double r = 0; for (size_t i = b.d.size(); i-- > 0;) r = r * 1e9 + b.d[i]; return r; }
static bool fits64(Big const& b, uint64_t& v) { // < 2^63
    if (b.d.size() > 3) return false;
    unsigned __int128 r = 0;
    for (size_t i = b.d.size(); i-- > 0;) r = r * 1000000000u + b.d[i];
    if (r >> 63) return false;
    v = (uint64_t) r;
    return true;
}

template<int AR>
class ChainSpec : public DdSpec<ChainSpec<AR>, int, AR> { // long random chains with skips
public:
    int n, w; uint64_t seed; int zero, skip, longskip; bool word = false;
    int getRoot(int& s) const { s = 0; return n; }
    int getChild(int& s, int level, int b) const {
        uint64_t h = mix64(seed ^ mix64(level * 1000003ULL + s * 131 + b));
        if ((int) (h % 100) < zero && b) return 0;
        int l = level - 1;
        if ((int) ((h >> 8) % 100) < skip) l -= (int) ((h >> 16) % 5);
        if ((int) ((h >> 24) % 1000) < longskip) l -= word ? 61 + (int) ((h >> 34) % 5) + 63 * (int) ((h >> 40) % 3) : (int) ((h >> 34) % 200);
        if (l <= 0) return -1;
        s = (int) ((h >> 44) % w);
        return l;
    }
};

template<int AR>
static void one(Rng& rng) {
    bool mp = rng.chance(0.4);
    if (mp) chooseThreads(rng);
    DdStructure<AR> dd;
    std::ostringstream log;
    int kind = (int) rng.below(10);
    if (kind == 0) { int n = rng.chance(0.3) ? rng.range(100, 700) : rng.chance(0.3) ? 63 * rng.range(1, 6) + rng.range(-1, 1) : rng.range(0, 140); dd = DdStructure<AR>(n, mp); log << "universal " << n; if (rng.coin()) { dd.bddReduce(); log << " bdd"; } }
    else if (kind <= 4) {
        TableParam p = randomParam(rng, AR, 12, 8);
        TableP T = mk(randomTable(rng, p));
        dd = DdStructure<AR>(ScalarSpec<AR>(T), mp);
        log << T->str();
        count("small_tables");
    }
    else {
        ChainSpec<AR> s;
        s.n = rng.chance(0.25) ? rng.range(150, ctx().thorough ? 1500 : 500) : rng.range(20, 150);
        if (AR > 4) s.n = 1 + s.n / 4;
        s.w = rng.range(1, 4); s.seed = rng.next();
        s.zero = rng.coin() ? 0 : 20; s.skip = rng.coin() ? 0 : 20; s.longskip = rng.coin() ? 0 : rng.coin() ? 8 : 40; s.word = rng.coin();
        dd = DdStructure<AR>(s, mp);
        log << "chain n=" << s.n << " w=" << s.w << " seed=" << s.seed << " zero=" << s.zero << " skip=" << s.skip << "/" << s.longskip << (s.word ? "w" : "");
    }
    int pre = (int) rng.below(6);
    if (pre == 0) dd.zddReduce(); else if (pre == 1) dd.bddReduce(); else if (pre == 2) dd.qddReduce();
    dd.useMultiProcessors(mp);
    int extra = rng.chance(0.4) ? 0 : rng.chance(0.5) ? rng.range(1, 70) : rng.range(60, 600);
    if (rng.chance(0.25)) { int m = 63 * rng.range(1, 8) + rng.range(-1, 1); extra = rng.coin() ? m : std::max(0, m - dd.topLevel()); } // around the word size
    int n = dd.topLevel() + extra;
    log << " pre=" << pre << " mp=" << mp << " top=" << dd.topLevel() << " numVars=" << n << " arity=" << AR;
    Big z, b;
    int bits;
    counts<AR>(dd, n, z, b, bits);
    std::string gz = dd.zddCardinality(), gb = dd.bddCardinality(n);
    REQUIRE(gz == z.str(), "zdd", "zddCardinality " << gz << ", exact " << z.str() << ": " << log.str());
    REQUIRE(gb == b.str(), "bdd", "bddCardinality " << gb << ", exact " << b.str() << ": " << log.str());
    uint64_t v;
    if (fits64(z, v)) {
        uint64_t x = dd.evaluate(ZddCardinality<uint64_t, AR>());
        REQUIRE(x == v, "zdd-u64", "uint64 ZDD count " << x << ", exact " << v << ": " << log.str());
        if (v < 2000000000) { int y = dd.evaluate(ZddCardinality<int, AR>()); REQUIRE(y == (int) v, "zdd-int", "int ZDD count " << y << ", exact " << v << ": " << log.str()); }
        count("fits_u64");
    }
    if (fits64(b, v)) {
        uint64_t x = dd.evaluate(BddCardinality<uint64_t, AR>(n));
        REQUIRE(x == v, "bdd-u64", "uint64 BDD count " << x << ", exact " << v << ": " << log.str());
    }
    double dz = toDouble(z), db = toDouble(b);
    if (dz < 1e300) { double x = dd.evaluate(ZddCardinality<double, AR>()); REQUIRE(std::fabs(x - dz) <= 1e-9 * dz, "zdd-double", "double ZDD count " << x << ", exact " << dz << ": " << log.str()); }
    if (db < 1e300) { double x = dd.evaluate(BddCardinality<double, AR>(n)); REQUIRE(std::fabs(x - db) <= 1e-9 * db, "bdd-double", "double BDD count " << x << ", exact " << db << ": " << log.str()); }
    maxcount("bits", bits);
    if (bits > 63) count("multiword_results");
    if (bits > 300) count("many_word_results");
    if (extra >= 64) count("numvars_above_height");
    count("arity:" + std::to_string(AR));
    if (dd.topLevel() > 0 && b.d.size()) { nontrivial(mix64(std::hash<std::string>()(log.str()))); count("nontrivial_cases"); }
    sample(log.str());
}

void run2(Rng&); void run3(Rng&); void run4(Rng&, int);
#if VF_PART == 2
void run2(Rng& rng) { one<2>(rng); }
#elif VF_PART == 3
void run3(Rng& rng) { one<3>(rng); }
#elif VF_PART == 4
void run4(Rng& rng, int k) { k == 0 ? one<4>(rng) : k == 1 ? one<7>(rng) : one<37>(rng); }
#else
void vf::runCase(Rng& rng) { int k = (int) rng.below(10); if (k < 5) run2(rng); else if (k < 8) run3(rng); else run4(rng, (int) rng.below(3)); }
VF_MAIN
#endif
