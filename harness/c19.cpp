// PARTS: 0 2 3 4
// C19: counting paths on a spec equals counting on its diagram.
#include "specs.hpp"
#include <tdzdd/dd/PathCounter.hpp>
using namespace vf;

template<int AR>
class WideSpec : public DdSpec<WideSpec<AR>, int, AR> { // many paths, optional long skips into shared low states
public:
    int n, w; uint64_t seed; int zero, skipPct, target, targetPct, one, stride, strideFrom, quiet;
    int step(int& s, int level, int b) const {
        uint64_t h = mix64(seed ^ mix64(level * 1000003ULL + s * 131 + b));
        if ((int) (h % 100) < zero) return 0;
        if ((int) ((h >> 8) % 1000) < one) return -1;
        int l = level - 1;
        if (stride > 1) { if (level > strideFrom) l = std::max(0, level - stride); else if (quiet && b && level % quiet) return 0; }
        else if ((int) ((h >> 20) % 100) < skipPct) l = (int) ((h >> 30) % level);
        if (target && level > target && (int) ((h >> 40) % 100) < targetPct) { s = 0; return target; }
        if (l == 0) return -1;
        s = l == target ? 0 : (int) ((h >> 50) % w);
        return l;
    }
    int getRoot(int& s) const { s = 0; return n; }
    int getChild(int& s, int level, int b) const { return step(s, level, b); }
};

template<int AR>
static Big pathsOf(WideSpec<AR> const& S) {
    std::vector<std::map<int, Big> > v(S.n + 1);
    v[S.n][0] = Big(1);
    Big total;
    for (int i = S.n; i >= 1; --i) {
        for (auto& e : v[i]) for (int b = 0; b < AR; ++b) {
            int s = e.first, l = S.step(s, i, b);
            if (l < 0) total += e.second;
            else if (l > 0) v[l][s] += e.second;
        }
        v[i].clear();
    }
    return total;
}
static Big pathsOf(Table const& T) {
    std::vector<std::vector<Big> > v(T.n + 1);
    for (int i = 1; i <= T.n; ++i) v[i].resize(T.t[i].size());
    Big total;
    if (T.root.level == 0) return Big(T.root.idx);
    v[T.root.level][T.root.idx] = Big(1);
    for (int i = T.n; i >= 1; --i) for (size_t j = 0; j < v[i].size(); ++j) {
        if (v[i][j].d.empty()) continue;
        for (int b = 0; b < T.arity; ++b) { Ref r = T.t[i][j][b]; if (r.level) v[r.level][r.idx] += v[i][j]; else if (r.idx) total += v[i][j]; }
    }
    return total;
}

template<typename S>
static void judge(S& spec, Big const& want, std::string const& log, bool dd) {
    std::string w = want.str();
    std::string a = countPaths(spec), b = countPaths(spec, true);
    REQUIRE(a == w, "count", "countPaths " << a << ", exact " << w << ": " << log);
    REQUIRE(b == w, "countFast", "countPaths(fast) " << b << ", exact " << w << ": " << log);
    if (w.size() <= 18) { uint64_t c = countPaths64(spec); REQUIRE(std::to_string(c) == w, "count64", "countPaths64 " << c << ", exact " << w << ": " << log); count("count64"); }
    if (dd) { DdStructure<S::ARITY> d(spec); REQUIRE(d.zddCardinality() == w, "diagram", "diagram has " << d.zddCardinality() << " paths, exact " << w << ": " << log); count("diagram_compared"); }
    if (w.size() > 19) count("multiword_results");
    maxcount("digits", w.size());
}

template<int AR>
static void one(Rng& rng) {
    if (rng.chance(0.4)) {
        WideSpec<AR> s;
        s.n = rng.chance(0.6) ? rng.range(30, 140) : rng.range(140, ctx().thorough ? 900 : 420);
        s.w = rng.chance(0.7) ? rng.range(1, 6) : rng.range(8, 40);
        s.seed = rng.next();
        s.zero = rng.coin() ? 0 : rng.range(0, 20);
        s.skipPct = rng.coin() ? 0 : rng.range(0, 10);
        s.one = rng.coin() ? 0 : rng.range(0, 20);
        s.target = rng.coin() ? 0 : rng.range(1, s.n - 1);
        s.targetPct = rng.coin() ? 2 : 10;
        s.stride = rng.chance(0.7) ? 1 : rng.range(2, 6); // regular long steps above strideFrom: counts grow only across skipped levels
        s.strideFrom = rng.coin() ? 0 : rng.range(0, s.n);
        s.quiet = rng.coin() ? 0 : rng.range(2, 9);
        if (s.stride > 1) { s.n = s.n * s.stride / (rng.coin() ? 1 : 2); s.target = 0; if (rng.coin()) s.one = s.zero = 0; count("strided_cases"); }
        std::ostringstream o;
        o << "wide arity=" << AR << " n=" << s.n << " w=" << s.w << " seed=" << s.seed << " zero=" << s.zero << " skip=" << s.skipPct << " one=" << s.one << " target=" << s.target << "/" << s.targetPct << " stride=" << s.stride << ">" << s.strideFrom << " quiet=" << s.quiet;
        Big want = pathsOf(s);
        judge(s, want, o.str(), rng.chance(0.3));
        count("wide_cases");
        if (!want.d.empty()) { nontrivial(mix64(s.seed)); count("nontrivial_cases"); }
        sample(o.str());
        return;
    }
    TableParam p = randomParam(rng, AR, rng.chance(0.2) ? 25 : 9, 8);
    TableP T = mk(randomTable(rng, p));
    Big want = pathsOf(*T);
    life().reset();
    std::string fl = withSpec<AR>(rng, T, [&](auto const& spec) { auto s = spec; judge(s, want, T->str(), true); });
    if (!life().error.empty()) fail("life", life().error + ": " + T->str());
    if (!life().live.empty()) fail("leak", "states alive after counting (" + std::to_string(life().live.size()) + "): " + fl + " " + T->str());
    if (fl.find("Object") != std::string::npos) count("object_states");
    count("flavour:" + fl);
    if (!want.d.empty()) { nontrivial(T->hash()); count("nontrivial_cases"); }
    sample(T->str());
}

void run2(Rng&); void run3(Rng&); void run4(Rng&);
#if VF_PART == 2
void run2(Rng& rng) { one<2>(rng); }
#elif VF_PART == 3
void run3(Rng& rng) { one<3>(rng); }
#elif VF_PART == 4
void run4(Rng& rng) { if (rng.coin()) one<5>(rng); else one<16>(rng); }
#else
void vf::runCase(Rng& rng) { int k = (int) rng.below(10); if (k < 6) run2(rng); else if (k < 8) run3(rng); else run4(rng); }
VF_MAIN
#endif
