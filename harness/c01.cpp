// PARTS: 0 2 3 4
// C01: the diagram built from a spec represents exactly the spec's language.
#include "specs.hpp"
using namespace vf;

template<int AR>
static void one(Rng& rng) {
    bool big = rng.chance(0.03);
    TableParam p = big ? randomParam(rng, AR, 12, AR > 4 ? 60 : 400) : randomParam(rng, AR, rng.chance(0.2) ? 30 : 9, rng.chance(0.3) ? 30 : 6);
    if (!big && rng.chance(0.1)) p.width = 1;
    if (!big && AR < 10) stretch(rng, p, 0.02);
    if (AR > 10 && p.width > 20) p.width = 20;
    TableP T = mk(randomTable(rng, p));
    bool mp = rng.chance(0.5);
    if (mp) chooseThreads(rng);
    std::string fl;
    fl = withSpec<AR>(rng, T, [&](auto const& spec) {
        DdStructure<AR> dd(spec, mp);
        Canon C(PATH, AR);
        size_t reach = 0;
        int got = canonDD(C, dd, AR, &reach);
        int want = canonTable(C, *T);
        count("dd_nodes", reach);
        count("spec_states", T->nodes());
        if (got != want) fail(std::string("language") + (mp ? "-mp" : ""), "diagram and spec disagree: " + T->str());
        // observable summary
        REQUIRE(dd.size() >= reach, "size", "size() smaller than the number of reachable nodes");
        REQUIRE(dd.empty() == (static_cast<DdStructure<AR> const&>(dd).root() == 0), "empty", "empty()");
        if (T->root.level == 0) {
            REQUIRE(dd.topLevel() == 0 && dd.empty() == (T->root.idx == 0), "terminal-root", "terminal root: " + T->str());
            count("terminal_root");
        }
        else if (want >= 2 && dd.topLevel() != T->root.level) fail("top-level", "top level differs: " + T->str());
        // A built diagram is itself a spec and must rebuild to the same language.
        DdStructure<AR> again(dd, rng.coin());
        if (canonDD(C, again, AR) != want) fail("rebuild", "rebuilding from the diagram changed it: " + T->str());
        if (want >= 2) { nontrivial(mix64(T->hash() ^ (mp ? 77 : 0))); count("nontrivial_cases"); }
        if (reach > T->nodes()) count("more_nodes_than_states");
        if (reach < T->nodes()) count("merged_or_swept_cases");
    });
    count("flavour:" + fl);
    count(mp ? "mp_builds" : "serial_builds");
    sample(fl + (mp ? " mp " : " serial ") + T->str());
}

// Large automata without a stored table: state = hash value modulo w.
template<int AR>
class HashSpec : public DdSpec<HashSpec<AR>, uint32_t, AR> {
public:
    int n; uint32_t w; uint64_t seed; int zero, skip;
    int step(uint32_t& s, int level, int b) const {
        uint64_t h = mix64(seed ^ mix64(((uint64_t) level << 40) ^ ((uint64_t) s << 8) ^ b));
        if ((int) (h % 100) < zero) { s = 0; return 0; }
        int l = level - 1;
        if ((int) ((h >> 8) % 100) < skip) l = (int) ((h >> 16) % level);
        if (l == 0) { s = 0; return (h >> 30) % 3 ? -1 : 0; }
        s = (uint32_t) ((h >> 32) % w);
        return l;
    }
    int getRoot(uint32_t& s) const { s = 0; return n; }
    int getChild(uint32_t& s, int level, int b) const { yieldPoint(); return step(s, level, b); }
};

template<int AR>
static int canonHash(Canon& C, HashSpec<AR> const& S) {
    std::vector<std::unordered_map<uint32_t, int> > id(S.n + 1);
    id[S.n][0] = -1;
    for (int i = S.n; i >= 1; --i)
        for (auto& e : id[i])
            for (int b = 0; b < AR; ++b) { uint32_t s = e.first; int l = S.step(s, i, b); if (l > 0) id[l][s] = -1; }
    for (int i = 1; i <= S.n; ++i)
        for (auto& e : id[i]) {
            std::vector<int64_t> ch(AR);
            for (int b = 0; b < AR; ++b) { uint32_t s = e.first; int l = S.step(s, i, b); ch[b] = l <= 0 ? (l ? 1 : 0) : id[l][s]; }
            e.second = C.make(i, ch);
        }
    return id[S.n][0];
}

template<int AR>
static void large(Rng& rng) {
    HashSpec<AR> S;
    S.n = rng.chance(0.3) ? rng.range(100, 1500) : rng.range(8, 22);
    S.w = S.n > 50 ? rng.range(1, 12) : (uint32_t) rng.range(50, ctx().thorough ? 20000 : 3000);
    S.seed = rng.next();
    static const int Z[] = {0, 5, 30, 48};
    S.zero = Z[rng.below(4)];
    static const int K[] = {0, 0, 10, 50};
    S.skip = K[rng.below(4)];
    bool mp = rng.coin();
    if (mp) chooseThreads(rng);
    DdStructure<AR> dd(S, mp);
    Canon C(PATH, AR);
    size_t reach = 0;
    int got = canonDD(C, dd, AR, &reach);
    int want = canonHash(C, S);
    count("dd_nodes", reach);
    maxcount("nodes", reach);
    maxcount("levels", S.n);
    std::ostringstream o;
    o << "hash automaton n=" << S.n << " w=" << S.w << " seed=" << S.seed << " zero=" << S.zero << " skip=" << S.skip << " arity=" << AR << " mp=" << mp;
    if (got != want) fail("language-large", o.str());
    count("large_cases");
    if (want >= 2) nontrivial(mix64(S.seed ^ S.n));
    sample(o.str());
}

void run2(Rng&, bool);
void run3(Rng&, bool);
void run4(Rng&, int);
#if VF_PART == 2
void run2(Rng& rng, bool big) { big ? large<2>(rng) : one<2>(rng); }
#elif VF_PART == 3
void run3(Rng& rng, bool big) { big ? large<3>(rng) : one<3>(rng); }
#elif VF_PART == 4
void run4(Rng& rng, int k) { k == 0 ? one<4>(rng) : k == 1 ? one<7>(rng) : one<37>(rng); }
#else
void vf::runCase(Rng& rng) {
    int k = (int) rng.below(100);
    if (k < 4) run2(rng, true);
    else if (k < 6) run3(rng, true);
    else if (k < 55) run2(rng, false);
    else if (k < 75) run3(rng, false);
    else if (k < 88) run4(rng, 0);
    else if (k < 97) run4(rng, 1);
    else run4(rng, 2);
    if (!life().error.empty()) { std::string e = life().error; life().reset(); fail("state-life", e); }
}
VF_MAIN
#endif
