// C23: diagrams exchanged with external BDD packages keep their meaning.
#include "specs.hpp"
#include <tdzdd/eval/ToZBDD.hpp>
#include <tdzdd/eval/ToBDD.hpp>
#include <tdzdd/spec/SapporoZdd.hpp>
#include <tdzdd/spec/SapporoBdd.hpp>
#include <cnfbdd/Cudd.hpp>
using namespace vf;

static void pkgReset(Rng& rng, int vars) { // a package in use: variables in any order
    sapporo::lib().reset();
    sapporo::lib().hook = yieldPoint;
    bool permuted = rng.chance(0.7);
    for (int i = 0; i < vars; ++i) BDD_NewVarOfLev(permuted ? 1 + (int) rng.below(i + 1) : i + 1);
    if (permuted && vars > 1) count("permuted_orders");
    sapporo::lib().calls = 0;
}
static void pkgCheck(std::string const& tag, std::string const& log) {
    if (!sapporo::lib().error.empty()) fail(tag + ":package", sapporo::lib().error + ": " + log);
    count("package_calls", sapporo::lib().calls);
}
static int pkgCanon(Canon& C, int f) { // package diagram by level
    sapporo::Lib& l = sapporo::lib();
    std::unordered_map<int, int> id;
    id[0] = 0; id[1] = 1;
    std::vector<int> st(1, f);
    while (!st.empty()) {
        int g = st.back();
        if (id.count(g)) { st.pop_back(); continue; }
        sapporo::Node n = l.node[g];
        if (!id.count(n.lo)) { st.push_back(n.lo); continue; }
        if (!id.count(n.hi)) { st.push_back(n.hi); continue; }
        id[g] = C.make(l.lev[n.var], {id[n.lo], id[n.hi]});
        st.pop_back();
    }
    return id[f];
}
static std::vector<int> below(Canon const& C, int root) { // nodes, children first
    std::set<int> s;
    std::vector<int> st(1, root);
    while (!st.empty()) { int f = st.back(); st.pop_back(); if (f < 2 || !s.insert(f).second) continue; st.push_back(C.child(f, 0)); st.push_back(C.child(f, 1)); }
    return std::vector<int>(s.begin(), s.end()); // ids grow upwards
}
static int toPkg(Canon const& C, int root, bool zdd) {
    sapporo::Lib& l = sapporo::lib();
    std::map<int, int> id;
    id[0] = 0; id[1] = 1;
    for (int f : below(C, root)) {
        int a = id[C.child(f, 0)], b = id[C.child(f, 1)], v = l.varOf[C.level(f)];
        id[f] = zdd ? l.zdd(v, a, b) : l.bdd(v, a, b);
    }
    return id[root];
}
// levels moved by k; below level 1 only the 0-branch remains
static int shiftZ(Canon& C, int root, int k) {
    std::map<int, int> id;
    id[0] = 0; id[1] = 1;
    for (int f : below(C, root)) id[f] = C.level(f) + k <= 0 ? id[C.child(f, 0)] : C.make(C.level(f) + k, {id[C.child(f, 0)], id[C.child(f, 1)]});
    return id[root];
}
static int lowest(Canon const& C, int root) { int m = 1 << 30; for (int f : below(C, root)) m = std::min(m, C.level(f)); return m; }
static int lowestDD(DdStructure<2> const& dd) {
    size_t reach;
    auto lv = Walker<DdStructure<2> >::collect(dd, 2, reach);
    for (size_t i = 1; i < lv.size(); ++i) if (!lv[i].empty()) return (int) i;
    return 1 << 30;
}
static TableP table(Rng& rng) {
    bool big = rng.chance(0.05);
    TableParam p = randomParam(rng, 2, big ? 14 : 8, big ? 40 : 6);
    if (rng.chance(0.6)) { p.rootTop = true; p.pZero = 0.1; p.pDead = 0; }
    stretch(rng, p, 0.01, 150, 200);
    return mk(randomTable(rng, p));
}

static void exporting(Rng& rng) {
    TableP T = table(rng);
    bool zdd = rng.coin(), mp = rng.chance(0.5);
    if (mp) chooseThreads(rng);
    DdStructure<2> dd((SaltSpec<2>(T, 1 + rng.below(2))), rng.chance(0.3));
    int pre = (int) rng.below(4);
    if (pre == 0) dd.zddReduce(); else if (pre == 1) { if (zdd) dd.zddReduce(); else dd.bddReduce(); } else if (pre == 2) dd.qddReduce();
    dd.useMultiProcessors(mp);
    // the diagram as it is, in the meaning it is exported with
    Canon C(zdd ? vf::ZDD : vf::BDD, 2);
    int src = canonDD(C, dd, 2);
    int top = std::max(dd.topLevel(), 0);
    int k = rng.chance(0.5) ? 0 : rng.chance(0.6) ? rng.range(1, 5) : -rng.range(0, top + 1);
    pkgReset(rng, rng.chance(0.3) ? 0 : rng.chance(0.5) ? top + std::max(k, 0) + (int) rng.below(4) : (int) rng.below(top + 2));
    std::ostringstream o;
    o << (zdd ? "ToZBDD(" : "ToBDD(") << k << ") mp=" << mp << " order=";
    for (size_t i = 1; i < sapporo::lib().varOf.size(); ++i) o << sapporo::lib().varOf[i] << ",";
    o << " " << T->str();
    std::string log = o.str(), tag = zdd ? "tozbdd" : "tobdd";
    if (zdd) {
        ZBDD f = rng.chance(0.2) && k == 0 ? dd.evaluate(ToZBDD()) : dd.evaluate(ToZBDD(k));
        pkgCheck(tag, log);
        int want = shiftZ(C, src, k);
        REQUIRE(pkgCanon(C, f.id()) == want, "tozbdd:family", "the exported family differs: " << log);
        if (k < 0 && want != src) count("truncated_exports");
        if (want >= 2) { nontrivial(T->hash() ^ mix64(k * 2 + 1)); count("nontrivial_exports"); }
    }
    else {
        bool low = lowestDD(dd) + k <= 0, thrown = false;
        ::BDD f;
        try { f = rng.chance(0.2) && k == 0 ? dd.evaluate(ToBDD()) : dd.evaluate(ToBDD(k)); }
        catch (std::runtime_error const& e) { thrown = true; }
        pkgCheck(tag, log);
        REQUIRE(thrown == low, "tobdd:levels", (thrown ? "valid levels are rejected: " : "levels below 1 are accepted: ") << log);
        if (thrown) { count("invalid_levels_rejected"); sample(log); return; }
        int want = shiftZ(C, src, k);
        REQUIRE(pkgCanon(C, f.id()) == want, "tobdd:function", "the exported function differs: " << log);
        if (want >= 2) { nontrivial(T->hash() ^ mix64(k * 2)); count("nontrivial_exports"); }
    }
    if (mp) count("mp_exports");
    sample(log);
}

static void importing(Rng& rng) {
    TableP T = table(rng);
    bool zdd = rng.coin();
    Canon C(zdd ? vf::ZDD : vf::BDD, 2);
    int src = canonTable(C, *T);
    int top = C.level(src);
    int k = rng.chance(0.5) ? 0 : rng.chance(zdd ? 0.02 : 0.5) ? -rng.range(1, 5) : rng.range(0, top + 1);
    sapporo::lib().limit = 0;
    pkgReset(rng, std::max(std::max(top, top - k), top + k) + 1 + (int) rng.below(3));
    bool identity = true;
    for (size_t i = 1; i < sapporo::lib().varOf.size(); ++i) if (sapporo::lib().varOf[i] != (int) i) identity = false;
    int f = toPkg(C, src, zdd);
    std::ostringstream o;
    o << (zdd ? "SapporoZdd offset " : "SapporoBdd offset ") << k << " order=";
    for (size_t i = 1; i < sapporo::lib().varOf.size(); ++i) o << sapporo::lib().varOf[i] << ",";
    o << " " << T->str();
    std::string log = o.str(), tag = zdd ? "sapporozdd" : "sapporobdd";
    bool low = src >= 2 && lowest(C, src) - k <= 0;
    sapporo::lib().limit = 2000 + 400 * (C.reach(src) + 10) * (top + 4);
    bool thrown = false, runaway = false;
    DdStructure<2> dd, sub = DdStructure<2>(std::max(top - k, 0) + (int) rng.below(3));
    bool subsetting = rng.chance(0.3);
    if (zdd && k < 0) { // in a process of its own
        bool good = survives([&] { DdStructure<2> d((SapporoZdd(ZBDD::ofId(f), k))); Canon D(C); return canonDD(D, d, 2) == shiftZ(D, src, -k); });
        if (!good) softfail("sapporozdd:negative-offset", "SapporoZdd with a negative offset: " + log);
        count("negative_offsets");
        return;
    }
    try {
        if (zdd) { SapporoZdd s = k == 0 && rng.coin() ? SapporoZdd(ZBDD::ofId(f)) : SapporoZdd(ZBDD::ofId(f), k); if (subsetting) { sub.zddSubset(s); dd = sub; } else dd = DdStructure<2>(s); }
        else { SapporoBdd s = k == 0 && rng.coin() ? SapporoBdd(BDD::ofId(f)) : SapporoBdd(BDD::ofId(f), k); dd = DdStructure<2>(s); }
    }
    catch (std::runtime_error const& e) { thrown = true; runaway = std::string(e.what()).find("runaway") != std::string::npos; }
    if (runaway) {
        if (zdd && low && !identity) { softfail("sapporozdd:levels-below-offset", "SapporoZdd never returns: " + log); return; }
        fail(tag + ":runaway", "the spec never returns: " + log);
    }
    pkgCheck(tag, log);
    if (zdd) {
        REQUIRE(!thrown, "sapporozdd:exception", "unexpected exception: " << log);
        int want = shiftZ(C, src, -k);
        REQUIRE(canonDD(C, dd, 2) == want, "sapporozdd:family", "the imported family differs: " << log);
        REQUIRE(subsetting || dd.size() >= C.reach(want), "sapporozdd:size", "impossible size: " << log);
        if (low) count("truncated_imports");
        if (want >= 2) { nontrivial(T->hash() ^ mix64(k * 2 + 1) ^ 77); count("nontrivial_imports"); }
    }
    else {
        REQUIRE(thrown == low, "sapporobdd:levels", (thrown ? "valid levels are rejected: " : "levels below 1 are accepted: ") << log);
        if (thrown) { count("invalid_levels_rejected"); sample(log); return; }
        int want = shiftZ(C, src, -k);
        REQUIRE(canonDD(C, dd, 2) == want, "sapporobdd:function", "the imported function differs: " << log);
        if (want >= 2) { nontrivial(T->hash() ^ mix64(k * 2) ^ 77); count("nontrivial_imports"); }
    }
    if (subsetting) count("subset_imports");
    // and back
    if (rng.coin() && sapporo::lib().limit) {
        sapporo::lib().limit = 0;
        if (zdd) { ZBDD g = dd.evaluate(ToZBDD(k)); if (!low && g.id() != f) fail("roundtrip:zdd", "exporting the imported family gives another one: " + log); }
        else { ::BDD g = dd.evaluate(ToBDD(k)); if (g.id() != f) fail("roundtrip:bdd", "exporting the imported function gives another one: " + log); }
        pkgCheck(tag, log);
        count("round_trips");
    }
    sample(log);
}

// ------------------------------------------------------------ CUDD wrapper ---
static int const NV = 6;
typedef uint64_t TT; // one bit per assignment of levels 1..6
static TT const VARS[NV + 1] = {0, 0xaaaaaaaaaaaaaaaaull, 0xccccccccccccccccull, 0xf0f0f0f0f0f0f0f0ull, 0xff00ff00ff00ff00ull, 0xffff0000ffff0000ull, 0xffffffff00000000ull};
static TT cof(TT f, int v, int b) { int s = 1 << (v - 1); return b ? (f & VARS[v]) | (f & VARS[v]) >> s : (f & ~VARS[v]) | (f & ~VARS[v]) << s; }
static TT ttNode(DdNode* f, std::map<DdNode*, TT>& m) {
    if (Cudd_IsConstant(f)) return Cudd_IsComplement(f) ? 0 : ~0ull;
    auto it = m.find(f);
    if (it != m.end()) return it->second;
    unsigned v = Cudd_Regular(f)->index;
    TT t = ttNode(Cudd_NotCond(Cudd_T(f), Cudd_IsComplement(f)), m), e = ttNode(Cudd_NotCond(Cudd_E(f), Cudd_IsComplement(f)), m);
    return m[f] = (VARS[v] & t) | (~VARS[v] & e);
}
struct Fn { Cudd f; TT t; };
static void cuddWrapper(Rng& rng) {
    DdManager* M = Cudd::manager;
    M->abortOnError = false;
    M->hook = yieldPoint;
    M->error.clear();
    long before = M->outstanding;
    uint64_t calls = M->calls, freed = M->freed;
    std::string log;
    uint64_t h = 1;
    auto ok = [&](std::string const& what) { if (!M->error.empty()) fail("cudd:package", M->error + " in " + what + " after " + log); };
    {
        std::vector<Fn> pool;
        for (int i = 1; i <= NV; ++i) pool.push_back(Fn{Cudd(i, Cudd(0), Cudd(1)), VARS[i]});
        pool.push_back(Fn{Cudd(0), 0});
        pool.push_back(Fn{Cudd(1), ~0ull});
        int steps = rng.range(4, 24);
        for (int s = 0; s < steps; ++s) {
            size_t ia = rng.below(pool.size()), ib = rng.below(pool.size()), ic = rng.below(pool.size());
            Fn const a = pool[ia], b = pool[ib], c = pool[ic];
            int v = rng.range(1, NV), op = (int) rng.below(20);
            std::vector<int> vs;
            for (int i = 1; i <= NV; ++i) if (rng.chance(0.3)) vs.push_back(i);
            Cudd cube(1);
            for (int i : vs) cube &= Cudd(i, Cudd(0), Cudd(1));
            Fn r = a;
            std::string name;
            switch (op) {
            case 0: name = "not"; r = Fn{~a.f, ~a.t}; break;
            case 1: name = "and"; r = Fn{a.f & b.f, a.t & b.t}; break;
            case 2: name = "or"; r = Fn{a.f | b.f, a.t | b.t}; break;
            case 3: name = "xor"; r = Fn{a.f ^ b.f, a.t ^ b.t}; break;
            case 4: name = "and="; r.f &= b.f; r.t &= b.t; break;
            case 5: name = "or="; r.f |= b.f; r.t |= b.t; break;
            case 6: name = "xor="; r.f ^= b.f; r.t ^= b.t; break;
            case 7: name = "ite"; r = Fn{a.f.ite(b.f, c.f), (a.t & b.t) | (~a.t & c.t)}; break;
            case 8: { // the new node may lie below its arguments
                name = "node"; r = Fn{Cudd(v, a.f, b.f), (VARS[v] & b.t) | (~VARS[v] & a.t)}; break; }
            case 9: { name = "abstract"; r = Fn{a.f.abstract(cube), a.t}; for (int i : vs) r.t = cof(r.t, i, 0) | cof(r.t, i, 1); break; }
            case 10: { name = "andAbstract"; r = Fn{a.f.andAbstract(b.f, cube), a.t & b.t}; for (int i : vs) r.t = cof(r.t, i, 0) | cof(r.t, i, 1); break; }
            case 11: { name = "abstract1"; r = Fn{a.f.abstract1(cube), a.t}; for (int i : vs) r.t |= VARS[i] & cof(r.t, i, 0); break; } // closed upwards
            case 12: { name = "cofactor"; bool z = b.t == 0; Cudd g = a.f.cofactor(b.f); if (!z) { std::map<DdNode*, TT> m; TT t = ttNode(g.ddNode(), m); REQUIRE((t & b.t) == (a.t & b.t), "cudd:cofactor", "cofactor differs inside its care set after " << log); r = Fn{g, t}; } break; }
            case 13: { name = "child"; if (!a.f.isConstant()) { int l = a.f.level(), br = (int) rng.below(2); REQUIRE(l >= 1 && l <= NV && cof(a.t, l, 0) != cof(a.t, l, 1), "cudd:level", "level() is not a variable of the function after " << log); r = Fn{a.f.child(br), cof(a.t, l, br)}; } else REQUIRE(a.f.level() == 0, "cudd:level", "level() of a constant is not 0"); break; }
            case 14: { name = "support"; TT want = ~0ull; for (int i = 1; i <= NV; ++i) if (cof(a.t, i, 0) != cof(a.t, i, 1)) want &= VARS[i]; r = Fn{a.f.support(), want}; break; }
            case 15: { name = "compose"; std::vector<Cudd> g(rng.below(NV + 2)); TT t = 0; std::vector<TT> gt(NV + 1);
                for (int i = 1; i <= NV; ++i) { gt[i] = VARS[i]; if (i < (int) g.size() && rng.coin()) { Fn const& p = pool[rng.below(pool.size())]; g[i] = p.f; gt[i] = p.t; } }
                for (int x = 0; x < 64; ++x) { int y = 0; for (int i = 1; i <= NV; ++i) y |= (int) (gt[i] >> x & 1) << (i - 1); t |= (a.t >> y & 1) << x; }
                r = Fn{a.f.compose(g), t}; break; }
            case 16: { name = "self-assign"; Cudd& x = pool[ia].f; x = x; x &= x; x |= x; r = pool[ia]; break; }
            case 17: { name = "spec"; // the wrapper as a specification
                Cudd spec = a.f;
                DdStructure<2> dd(spec);
                std::vector<bool> tt = ttDD(dd, NV, 2, false);
                std::vector<bool> want = truthTable(NV, 2, [&](std::vector<int> const& as) { int x = 0; for (int i = 1; i <= NV; ++i) x |= as[i] << (i - 1); return (a.t >> x & 1) != 0; });
                REQUIRE(tt == want, "cudd:spec", "the diagram built from a CUDD function differs after " << log);
                if (a.t != 0 && a.t != ~0ull) count("specs_built");
                break; }
            case 18: name = "compare";
                REQUIRE((a.f == b.f) == (a.t == b.t) && (a.f != b.f) == (a.t != b.t), "cudd:equal", "equality of functions after " << log);
                REQUIRE((a.f == 1) == (a.t == ~0ull) && (a.f == 0) == (a.t == 0) && (a.f != 1) == (a.t != ~0ull) && (a.f != 0) == (a.t != 0), "cudd:equal", "equality with constants after " << log);
                REQUIRE(a.f.contains(b.f) == ((b.t & ~a.t) == 0), "cudd:contains", "contains() after " << log);
                REQUIRE(a.f.intersects(b.f) == ((a.t & b.t) != 0), "cudd:intersects", "intersects() after " << log);
                REQUIRE(a.f.isConstant() == (a.t == 0 || a.t == ~0ull), "cudd:constant", "isConstant() after " << log);
                REQUIRE(a.f.countMinterm(NV) == (double) __builtin_popcountll(a.t), "cudd:count", "countMinterm() after " << log);
                REQUIRE(a.t != b.t || (a.f.hash() == b.f.hash() && !(a.f < b.f)), "cudd:hash", "equal functions, different hash after " << log);
                break;
            default: { name = "vector"; // references survive moves inside containers
                MyVector<Cudd> w; for (size_t i = 0; i < rng.below(20); ++i) w.push_back(pool[rng.below(pool.size())].f);
                std::vector<Cudd> x(w.begin(), w.end()); if (!x.empty()) { size_t n = Cudd::sharingSize(x); size_t m = 0; for (Cudd const& f : x) m = std::max(m, f.size()); REQUIRE(n >= m, "cudd:size", "sharing size is smaller than a member"); }
                break; }
            }
            log += name + "(" + std::to_string(ia) + "," + std::to_string(ib) + "," + std::to_string(ic) + ") ";
            ok(name);
            std::map<DdNode*, TT> m;
            TT got = ttNode(r.f.ddNode(), m);
            REQUIRE(got == r.t, "cudd:" + name, name << " gives a wrong function after " << log);
            h = mix64(h ^ got);
            pool.push_back(r);
            if (pool.size() > 12 && rng.coin()) pool.erase(pool.begin() + rng.below(pool.size()));
            count("cudd:" + name);
        }
        for (Fn const& p : pool) { std::map<DdNode*, TT> m; REQUIRE(ttNode(p.f.ddNode(), m) == p.t, "cudd:stable", "a function changed later: " << log); }
    }
    ok("destruction");
    REQUIRE(M->outstanding == before, "cudd:references", M->outstanding - before << " references are left after " << log);
    count("package_calls", M->calls - calls);
    count("nodes_freed", M->freed - freed);
    nontrivial(h); count("cudd_programs");
    sample(log);
}

void vf::runCase(Rng& rng) { int k = (int) rng.below(5); if (k < 2) exporting(rng); else if (k < 4) importing(rng); else cuddWrapper(rng); }
VF_MAIN
