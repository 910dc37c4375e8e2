// PARTS: 0 1 2 3 4 5
// C07: look-ahead, unreduction and BDD/ZDD conversion preserve meaning.
#include "specs.hpp"
using namespace vf;

// number of states of the look-ahead graph over table states: from each state
// follow the rule (ZDD: all non-zero branches lead to 0; BDD: all branches to
// the same state) until it no longer applies
static Ref skip(Table const& T, Ref r, bool zdd) {
    while (r.level > 0) {
        std::vector<Ref> const& c = T.t[r.level][r.idx];
        bool del = true;
        for (int b = 1; b < T.arity; ++b) {
            if (zdd) { if (!(c[b] == Ref{0, 0})) del = false; }
            else if (!(c[b] == c[0])) del = false;
        }
        if (!del) break;
        r = c[0];
    }
    return r;
}
static size_t lookaheadStates(Table const& T, bool zdd, Ref& root) {
    std::set<std::pair<int, int> > seen;
    std::vector<Ref> st;
    root = skip(T, T.root, zdd);
    if (root.level) { seen.insert({root.level, root.idx}); st.push_back(root); }
    while (!st.empty()) {
        Ref r = st.back(); st.pop_back();
        for (int b = 0; b < T.arity; ++b) {
            Ref q = skip(T, T.t[r.level][r.idx][b], zdd);
            if (q.level && seen.insert({q.level, q.idx}).second) st.push_back(q);
        }
    }
    return seen.size();
}

static Table table(Rng& rng, int AR) {
    bool big = rng.chance(0.05);
    TableParam p = randomParam(rng, AR, big ? 20 : 9, big ? (AR > 3 ? 20 : 60) : 6);
    if (rng.chance(0.6)) { p.rootTop = true; p.pZero = 0.1; p.pDead = 0; }
    stretch(rng, p, 0.01, 200, 300);
    return randomTable(rng, p);
}

template<int AR>
static void lookahead(Rng& rng) {
    Table T0 = table(rng, AR);
    TableP T = mk(T0);
    bool zdd = rng.coin(), mp = rng.chance(0.4);
    if (mp) chooseThreads(rng);
    Mode M = zdd ? ZDD : BDD;
    Canon C(M, AR);
    int want = canonTable(C, *T);
    std::string tag = std::string(zdd ? "zdd" : "bdd") + "Lookahead";
    Ref root;
    size_t states = lookaheadStates(*T, zdd, root);
    size_t sz = 0;
    int top = 0;
    std::string fl = withSpec<AR>(rng, T, [&](auto const& spec) {
        DdStructure<AR> dd = zdd ? DdStructure<AR>(zddLookahead(spec), mp) : DdStructure<AR>(bddLookahead(spec), mp);
        if (canonDD(C, dd, AR) != want) fail(tag + ":meaning", "look-ahead changed the meaning: " + T->str());
        sz = dd.size();
        top = dd.topLevel();
        if (rng.coin()) { if (zdd) dd.zddReduce(); else dd.bddReduce(); if (dd.size() != C.reach(want)) fail(tag + ":reduced", "reduced size differs: " + T->str()); }
    });
    // salted flavours have more states than the table (and may hide equality)
    if (fl == "Scalar" || fl.compare(0, 3, "Pod") == 0 || fl == "Stateless" || fl == "Scalar/colliding-hash") {
        if (top > root.level) { std::ostringstream o; o << "look-ahead root at level " << top << ", skippable down to " << root.level << ": " << T->str(); fail(tag + ":root", o.str()); }
        if (sz > states) { std::ostringstream o; o << "look-ahead left " << sz << " nodes, only " << states << " states survive its rule: " << T->str(); fail(tag + ":nodes", o.str()); }
        count("size_checks");
    }
    count(tag);
    count("flavour:" + fl);
    if (states < T->nodes() && want >= 2) { nontrivial(T->hash() ^ zdd); count("lookahead_skipped"); }
    sample(tag + " " + fl + " " + T->str());
}

template<int AR>
static void unreduce(Rng& rng) {
    TableP T = mk(table(rng, AR));
    bool zdd = rng.coin(), mp = rng.chance(0.4);
    if (mp) chooseThreads(rng);
    Mode M = zdd ? ZDD : BDD;
    Canon C(M, AR);
    int want = canonTable(C, *T);
    int n = T->root.level + (int) rng.below(5);
    int n2 = n - (rng.chance(0.1) && n > 0 ? 1 : 0);
    if (n2 < T->root.level) n2 = T->root.level;
    std::string tag = std::string(zdd ? "zdd" : "bdd") + "Unreduction";
    std::string log = tag + "(" + std::to_string(n2) + ") " + T->str();
    std::string fl = withSpec<AR>(rng, T, [&](auto const& spec) {
        DdStructure<AR> dd = zdd ? DdStructure<AR>(zddUnreduction(spec, n2), mp) : DdStructure<AR>(bddUnreduction(spec, n2), mp);
        if (canonDD(C, dd, AR) != want) fail(tag + ":meaning", "unreduction changed the meaning: " + log);
        // every accepting path mentions every level
        if (want != 0) {
            if (dd.topLevel() != n2) fail(tag + ":root", "root is not at the requested level: " + log);
            size_t reach = 0;
            auto lv = Walker<DdStructure<AR> >::collect(dd, AR, reach);
            typedef typename std::decay<decltype(static_cast<DdStructure<AR> const&>(dd).root())>::type N;
            for (size_t i = 1; i < lv.size(); ++i) for (auto& e : lv[i]) for (int b = 0; b < AR; ++b) {
                N g = dd.child(N((uint64_t) i, e.first), b);
                if (g == 0) continue;
                if (g.row() != (int) i - 1) fail(tag + ":skip", "an edge skips a level: " + log);
            }
            count("levels_checked", lv.size());
        }
        DdStructure<AR> r = dd;
        if (zdd) r.zddReduce(); else r.bddReduce();
        if (r.size() != C.reach(want)) fail(tag + ":reduced", "reduced size differs: " + log);
    });
    count(tag); count("flavour:" + fl);
    if (want >= 2) { nontrivial(T->hash() ^ zdd ^ (uint64_t) n2 << 20); count("nontrivial_unreductions"); }
    sample(log);
}

template<int AR>
static void convert(Rng& rng) {
    TableP T = mk(table(rng, AR));
    bool b2z = rng.coin(), mp = rng.chance(0.4);
    if (mp) chooseThreads(rng);
    int pre = (int) rng.below(3);
    DdStructure<AR> dd((ScalarSpec<AR>(T)), rng.coin());
    dd.useMultiProcessors(mp);
    if (pre == 0) { if (b2z) dd.bddReduce(); else dd.zddReduce(); }
    else if (pre == 1) dd.qddReduce();
    int n = std::max(dd.topLevel(), 0) + (int) rng.below(5);
    std::string log = std::string(b2z ? "bdd2zdd" : "zdd2bdd") + "(" + std::to_string(n) + ") " + T->str();
    Canon CB(BDD, AR), CZ(ZDD, AR);
    DdStructure<AR> res = b2z ? dd.bdd2zdd(n) : dd.zdd2bdd(n);
    if (ipow(AR, n) <= 5000) {
        std::vector<bool> a = ttDD(dd, n, AR, !b2z), b = ttDD(res, n, AR, b2z);
        if (T->root.level <= n && a != ttTable(*T, n, !b2z)) fail("convert:source", "the source diagram has a wrong meaning: " + log);
        if (a != b) fail(b2z ? "bdd2zdd" : "zdd2bdd", "conversion changed the accepted assignments: " + log);
        count("extensional_conversions");
        if (std::count(a.begin(), a.end(), true)) { nontrivial(T->hash() ^ b2z ^ (uint64_t) n << 20); count("nontrivial_conversions"); }
    }
    // there and back
    DdStructure<AR> back = b2z ? res.zdd2bdd(n) : res.bdd2zdd(n);
    DdStructure<AR> orig = dd;
    if (b2z) { back.bddReduce(); orig.bddReduce(); } else { back.zddReduce(); orig.zddReduce(); }
    if (!(back == orig) || back != orig || back.size() != orig.size()) fail("convert:roundtrip", "converting back does not return the reduced original: " + log);
    // canonical forms of the result
    DdStructure<AR> rr = res;
    if (b2z) rr.zddReduce(); else rr.bddReduce();
    size_t reach; canonDD(b2z ? CZ : CB, rr, AR, &reach);
    REQUIRE(rr.size() == reach && rr.size() <= res.size(), "convert:size", "sizes of the converted diagram: " << log);
    count(b2z ? "bdd2zdd" : "zdd2bdd");
    sample(log);
}

typedef void Fn(Rng&);
Fn l2, l3, u2, u3, c2, c3, l5, c5;
#if VF_PART == 1
void l2(Rng& r) { lookahead<2>(r); }
#elif VF_PART == 2
void l3(Rng& r) { lookahead<3>(r); }
void l5(Rng& r) { lookahead<5>(r); }
#elif VF_PART == 3
void u2(Rng& r) { unreduce<2>(r); }
#elif VF_PART == 4
void u3(Rng& r) { unreduce<3>(r); }
#elif VF_PART == 5
void c2(Rng& r) { convert<2>(r); }
void c3(Rng& r) { convert<3>(r); }
void c5(Rng& r) { convert<4>(r); }
#else
void vf::runCase(Rng& rng) {
    static Fn* const F[] = {l2, l2, l3, l5, u2, u2, u3, c2, c2, c2, c3, c5};
    F[rng.below(12)](rng);
}
VF_MAIN
#endif
