// PARTS: 0 2 3 4
// C02: reduction preserves meaning, is canonical and minimal, equality is exact.
#include "specs.hpp"
using namespace vf;

static const char* NAME[] = {"path", "zdd", "bdd", "qdd"};

template<int AR>
static void reduceAs(DdStructure<AR>& dd, Mode m) {
    if (m == ZDD) dd.zddReduce();
    else if (m == BDD) dd.bddReduce();
    else dd.qddReduce();
}

template<int AR>
static void checkReduced(DdStructure<AR> const& dd, Canon& C, int want, Mode m, std::string const& tag, Table const& T) {
    size_t reach = 0;
    int got = canonDD(C, dd, AR, &reach);
    if (got != want) fail(tag + ":meaning", std::string(NAME[m]) + " reduction changed the function: " + T.str());
    size_t best = C.reach(want);
    if (reach != best) { std::ostringstream o; o << NAME[m] << "-reduced diagram has " << reach << " reachable nodes, canonical has " << best << ": " << T.str(); fail(tag + ":minimal", o.str()); }
    if (dd.size() != best) { std::ostringstream o; o << NAME[m] << "-reduced diagram reports size " << dd.size() << ", canonical has " << best << ": " << T.str(); fail(tag + ":size", o.str()); }
    if (dd.topLevel() != C.level(want)) fail(tag + ":top", "top level differs from the canonical one: " + T.str());
    if (dd.empty() != (want == 0)) fail(tag + ":empty", "empty() wrong: " + T.str());
    count("reduced_nodes", best);
}

// a table with the same language but permuted states and extra unreachable/duplicate ones
static Table shuffled(Rng& rng, Table const& T) {
    Table S = T;
    std::vector<std::vector<int> > perm(T.n + 1);
    for (int i = 1; i <= T.n; ++i) {
        int m = (int) T.t[i].size();
        perm[i].resize(m);
        for (int j = 0; j < m; ++j) perm[i][j] = j;
        for (int j = m - 1; j > 0; --j) std::swap(perm[i][j], perm[i][rng.below(j + 1)]);
    }
    auto mp = [&](Ref r) { return r.level == 0 ? r : Ref{r.level, perm[r.level][r.idx]}; };
    for (int i = 1; i <= T.n; ++i)
        for (size_t j = 0; j < T.t[i].size(); ++j) {
            std::vector<Ref> c(T.arity);
            for (int b = 0; b < T.arity; ++b) c[b] = mp(T.t[i][j][b]);
            S.t[i][perm[i][j]] = c;
        }
    S.root = mp(T.root);
    return S;
}

template<int AR>
static void one(Rng& rng) {
    TableParam p = randomParam(rng, AR, rng.chance(0.15) ? 40 : 9, rng.chance(0.15) ? (AR > 4 ? 30 : 200) : 8);
    stretch(rng, p, 0.02);
    Table T0 = randomTable(rng, p);
    TableP T = mk(T0);
    Mode m = (Mode) (1 + rng.below(3));
    bool mpB = rng.chance(0.3), mpR = rng.chance(0.5);
    if (mpB || mpR) chooseThreads(rng);
    std::string tag = std::string(NAME[m]) + (mpR ? "-mp" : "");
    Canon C(m == QDD ? PATH : m, AR);
    int want = canonTable(C, *T);
    auto build = [&](TableP t) {
        DdStructure<AR> dd = rng.chance(0.5) ? DdStructure<AR>(ScalarSpec<AR>(t), mpB) : DdStructure<AR>(SaltSpec<AR>(t, 1 + rng.below(5)), mpB);
        return dd;
    };
    DdStructure<AR> dd = build(T);
    dd.useMultiProcessors(mpR);
    size_t before = dd.size();
    reduceAs(dd, m);
    checkReduced(dd, C, want, m, tag, *T);
    if (dd.size() > before) fail(tag + ":grew", "reduction enlarged the diagram");
    // idempotence, in either mode
    DdStructure<AR> copy = dd;
    if (rng.coin()) dd.useMultiProcessors(!mpR);
    reduceAs(dd, m);
    checkReduced(dd, C, want, m, tag + ":again", *T);
    if (!(dd == copy) || dd != copy) fail(tag + ":idempotent", "second reduction changed the diagram: " + T->str());
    // canonicity against an equivalent and against a mutated automaton
    for (int k = 0; k < 2; ++k) {
        Table U = shuffled(rng, *T);
        if (k == 1) {
            for (int x = rng.range(1, 2); x > 0; --x) {
                int i = rng.range(1, U.n);
                int j = (int) rng.below(U.t[i].size());
                int b = (int) rng.below(AR);
                int l = rng.range(0, i - 1);
                U.t[i][j][b] = l == 0 ? Ref{0, (int) rng.below(2)} : Ref{l, (int) rng.below(U.t[l].size())};
            }
            if (rng.chance(0.1)) U.root = Ref{0, (int) rng.below(2)};
        }
        TableP UP = mk(U);
        DdStructure<AR> ee = build(UP);
        ee.useMultiProcessors(rng.coin());
        reduceAs(ee, m);
        int w2 = canonTable(C, *UP);
        checkReduced(ee, C, w2, m, tag + ":second", *UP);
        bool eq = (dd == ee), eq2 = (ee == dd), ne = (dd != ee);
        if (eq != (w2 == want) || eq2 != eq || ne == eq) {
            std::ostringstream o;
            o << "equality " << eq << "/" << eq2 << "/" << ne << " but same function is " << (w2 == want) << ": " << T->str() << " | " << UP->str();
            fail(tag + ":equality", o.str());
        }
        count(w2 == want ? "equal_pairs" : "different_pairs");
    }
    count(std::string("mode:") + NAME[m] + (mpR ? "-mp" : ""));
    if (want >= 2) { nontrivial(T->hash() ^ m); count("nontrivial_cases"); }
    if (before > C.reach(want)) count("cases_with_removed_nodes");
    sample(tag + " " + T->str());
}

// universal diagram constructor and its reductions
template<int AR>
static void universal(Rng& rng) {
    int n = rng.range(0, 12);
    bool mp = rng.coin();
    if (mp) chooseThreads(rng);
    DdStructure<AR> dd(n, mp);
    REQUIRE((int) dd.size() == n && dd.topLevel() == n && !dd.empty(), "universal:shape", "universal diagram of " << n << " variables");
    DdStructure<AR> b = dd, z = dd, q = dd;
    b.bddReduce(); z.zddReduce(); q.qddReduce();
    REQUIRE(b.size() == 0 && !b.empty() && b.topLevel() == 0, "universal:bdd", "BDD reduction of the universal diagram n=" << n);
    REQUIRE((int) z.size() == n && (int) q.size() == n && z == dd && q == dd, "universal:zdd", "ZDD/QDD reduction of the universal diagram n=" << n);
    count("universal");
}

void run2(Rng&, int); void run3(Rng&, int); void run4(Rng&, int);
#if VF_PART == 2
void run2(Rng& rng, int u) { u ? universal<2>(rng) : one<2>(rng); }
#elif VF_PART == 3
void run3(Rng& rng, int u) { u ? universal<3>(rng) : one<3>(rng); }
#elif VF_PART == 4
void run4(Rng& rng, int k) { k ? one<4>(rng) : one<9>(rng); }
#else
void vf::runCase(Rng& rng) {
    int k = (int) rng.below(100);
    if (k < 2) run2(rng, 1);
    else if (k < 3) run3(rng, 1);
    else if (k < 58) run2(rng, 0);
    else if (k < 78) run3(rng, 0);
    else run4(rng, k < 92);
}
VF_MAIN
#endif
