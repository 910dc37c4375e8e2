// PARTS: 0 1 2 3 4
// C06: spec operators compute conjunction / disjunction / intersection / union.
#include "specs.hpp"
using namespace vf;
typedef DdStructure<2> DD;

enum { AND, OR, CAP, CUP };
static const char* OPN[] = {"bddAnd", "bddOr", "zddIntersection", "zddUnion"};

template<int OP, typename... S>
static auto mkop(S const&... s) {
    if constexpr (OP == AND) return bddAnd(s...);
    else if constexpr (OP == OR) return bddOr(s...);
    else if constexpr (OP == CAP) return zddIntersection(s...);
    else return zddUnion(s...);
}
constexpr bool isBdd(int op) { return op == AND || op == OR; }
constexpr bool isConj(int op) { return op == AND || op == CAP; }

static Table table(Rng& rng, Table const* base, bool big) {
    if (base && rng.chance(0.4)) {
        Table U = *base;
        for (int k = rng.range(0, 4); k > 0; --k) {
            int i = rng.range(1, U.n), j = (int) rng.below(U.t[i].size()), b = (int) rng.below(2), l = rng.range(0, i - 1);
            U.t[i][j][b] = l == 0 ? Ref{0, (int) rng.below(2)} : Ref{l, (int) rng.below(U.t[l].size())};
        }
        if (rng.chance(0.2)) { int l = rng.range(0, U.n); U.root = l == 0 ? Ref{0, (int) rng.below(2)} : Ref{l, (int) rng.below(U.t[l].size())}; }
        return U;
    }
    TableParam p = randomParam(rng, 2, big ? 14 : 9, big ? 60 : 6);
    if (rng.chance(0.7)) { p.rootTop = true; p.pZero = 0.05; p.pDead = 0; if (p.n < 3) p.n += 3; }
    if (rng.chance(0.5)) p.pSkip = 0.1;
    stretch(rng, p, 0.006, 200, 200);
    return randomTable(rng, p);
}

struct Case {
    std::vector<TableP> T;
    int want; Mode mode;
    std::string name;
    bool mp, subset;
};

template<typename SPEC>
static void judge(Rng& rng, Canon& C, Case const& c, SPEC const& spec, std::function<bool(std::vector<int> const&, int)> const& ext) {
    std::string log = c.name + (c.mp ? " mp" : "");
    for (auto& t : c.T) log += " [" + t->str() + "]";
    DD dd;
    if (c.subset) { // as the argument of zddSubset on a universal diagram
        int n = 0;
        for (auto& t : c.T) n = std::max(n, t->n);
        dd = DD(n, c.mp);
        dd.zddSubset(spec);
        count("via_subset");
    }
    else dd = DD(spec, c.mp);
    size_t reach = 0;
    int got = canonDD(C, dd, 2, &reach);
    if (got != c.want) fail(c.name + (c.mp ? "-mp" : ""), "combined spec has a wrong language: " + log);
    int n = 0;
    for (auto& t : c.T) n = std::max(n, t->n);
    if (n <= 9) {
        std::vector<bool> t = truthTable(n, 2, [&](std::vector<int> const& v) { return evalDD(dd, v, c.mode == ZDD, n); });
        std::vector<bool> u = truthTable(n, 2, [&](std::vector<int> const& v) { return ext(v, n); });
        if (t != u) fail(c.name + ":extension", "combined spec accepts the wrong assignments: " + log + " got " + ttStr(t) + " expected " + ttStr(u));
        count("extensional_checks");
    }
    if (rng.chance(0.2)) { // the spec object stays usable
        DD again(spec, rng.coin());
        if (canonDD(C, again, 2) != c.want) fail(c.name + ":reuse", "second build from the same combined spec differs: " + log);
    }
    count("op:" + c.name);
    if (c.want >= 2) { nontrivial(mix64(c.T[0]->hash() ^ c.T[1]->hash() * 3 ^ c.want)); count("nontrivial_cases"); }
    sample(log);
}

template<int OP, typename A, typename B>
static void pair_(Rng& rng, Canon& C, std::vector<TableP> T, bool mp, std::function<A(TableP)> fa, std::function<B(TableP)> fb) {
    constexpr Mode M = isBdd(OP) ? BDD : ZDD;
    Apply ap{C, 2, M, isConj(OP), {}};
    int a = canonTable(C, *T[0]), b = canonTable(C, *T[1]);
    Case c{{T[0], T[1]}, ap(a, b), M, OPN[OP], mp, !isBdd(OP) && rng.chance(0.2)};
    auto make = [&]() { A x = fa(T[0]); B y = fb(T[1]); return mkop<OP>(x, y); };
    auto spec = make();
    if (T[0]->root.level != T[1]->root.level) count("differing_heights");
    if (!T[0]->root.level || !T[1]->root.level) count("terminal_operand");
    judge(rng, C, c, spec, [&](std::vector<int> const& v, int n) {
        bool p = evalTable(*T[0], T[0]->root, v, M == ZDD, n), q = evalTable(*T[1], T[1]->root, v, M == ZDD, n);
        return isConj(OP) ? p && q : p || q;
    });
}

// OP1(OP2(x,y),z), OP1(x,OP2(y,z)), OP1(x,y,z), OP1(x,y,z,x)
template<int OP1, int OP2>
static void triple(Rng& rng, Canon& C, std::vector<TableP> T, bool mp) {
    constexpr Mode M = isBdd(OP1) ? BDD : ZDD;
    Apply a1{C, 2, M, isConj(OP1), {}}, a2{C, 2, M, isConj(OP2), {}};
    int x = canonTable(C, *T[0]), y = canonTable(C, *T[1]), z = canonTable(C, *T[2]);
    auto f1 = [](bool p, bool q) { return isConj(OP1) ? p && q : p || q; };
    auto f2 = [](bool p, bool q) { return isConj(OP2) ? p && q : p || q; };
    auto ev = [&](int k, std::vector<int> const& v, int n) { return evalTable(*T[k], T[k]->root, v, M == ZDD, n); };
    ScalarSpec<2> X(T[0]); PodSpec<short, 2> Y(T[1], 5); HybSpec<char, char, 2> Z(T[2], 4);
    switch ((int) rng.below(4)) {
    case 0: { Case c{T, a1(a2(x, y), z), M, std::string(OPN[OP1]) + "(" + OPN[OP2] + "(.,.),.)", mp, false};
        judge(rng, C, c, mkop<OP1>(mkop<OP2>(X, Y), Z), [&](std::vector<int> const& v, int n) { return f1(f2(ev(0, v, n), ev(1, v, n)), ev(2, v, n)); }); break; }
    case 1: { Case c{T, a1(x, a2(y, z)), M, std::string(OPN[OP1]) + "(.," + OPN[OP2] + "(.,.))", mp, false};
        judge(rng, C, c, mkop<OP1>(X, mkop<OP2>(Y, Z)), [&](std::vector<int> const& v, int n) { return f1(ev(0, v, n), f2(ev(1, v, n), ev(2, v, n))); }); break; }
    case 2: { Case c{T, a1(x, a1(y, z)), M, std::string(OPN[OP1]) + "(.,.,.)", mp, false};
        judge(rng, C, c, mkop<OP1>(X, Y, Z), [&](std::vector<int> const& v, int n) { return f1(ev(0, v, n), f1(ev(1, v, n), ev(2, v, n))); }); break; }
    default: { DD d(X); if (rng.coin()) { if (M == ZDD) d.zddReduce(); else d.bddReduce(); }
        Case c{T, a1(a1(x, y), z), M, std::string(OPN[OP1]) + "(.,.,.,.)", mp, false};
        judge(rng, C, c, mkop<OP1>(Y, d, Z, X), [&](std::vector<int> const& v, int n) { return f1(ev(0, v, n), f1(ev(1, v, n), ev(2, v, n))); });
        if (canonDD(C, d, 2) != x) fail("operand-changed", "the operand diagram changed"); }
    }
    count("nested_or_variadic");
}

template<int OP>
static void pairs(Rng& rng, Canon& C, std::vector<TableP> T, bool mp) {
    typedef ScalarSpec<2> Sc; typedef PodSpec<short, 2> Po; typedef HybSpec<char, char, 2> Hy; typedef ObjSpec<2> Ob; typedef SaltSpec<2> Sa;
    std::function<Sc(TableP)> sc = [](TableP t) { return Sc(t); };
    std::function<Po(TableP)> po = [](TableP t) { return Po(t, 5); };
    std::function<Hy(TableP)> hy = [](TableP t) { return Hy(t, 3); };
    std::function<Ob(TableP)> ob = [](TableP t) { return Ob(t, 2); };
    std::function<Sa(TableP)> sa = [](TableP t) { return Sa(t, 3); };
    std::function<DD(TableP)> dd = [&](TableP t) { DD d((ScalarSpec<2>(t))); if (rng.coin()) { if (isBdd(OP)) d.bddReduce(); else d.zddReduce(); } return d; };
    switch ((int) rng.below(6)) {
    case 0: pair_<OP, Sc, Po>(rng, C, T, mp, sc, po); break;
    case 1: pair_<OP, Po, Sa>(rng, C, T, mp, po, sa); break;
    case 2: pair_<OP, Ob, Sc>(rng, C, T, mp, ob, sc); break;
    case 3: pair_<OP, Hy, Ob>(rng, C, T, mp, hy, ob); break;
    case 4: pair_<OP, DD, Hy>(rng, C, T, mp, dd, hy); break;
    default: pair_<OP, DD, DD>(rng, C, T, mp, dd, dd); break;
    }
}

typedef void Fn(Rng&, Canon&, std::vector<TableP>, bool);
Fn runA, runB, runC, runD;
#if VF_PART == 1
void runA(Rng& r, Canon& C, std::vector<TableP> T, bool mp) { if (r.chance(0.6)) pairs<AND>(r, C, T, mp); else triple<AND, OR>(r, C, T, mp); }
#elif VF_PART == 2
void runB(Rng& r, Canon& C, std::vector<TableP> T, bool mp) { if (r.chance(0.6)) pairs<OR>(r, C, T, mp); else triple<OR, AND>(r, C, T, mp); }
#elif VF_PART == 3
void runC(Rng& r, Canon& C, std::vector<TableP> T, bool mp) { if (r.chance(0.6)) pairs<CAP>(r, C, T, mp); else triple<CAP, CUP>(r, C, T, mp); }
#elif VF_PART == 4
void runD(Rng& r, Canon& C, std::vector<TableP> T, bool mp) { if (r.chance(0.6)) pairs<CUP>(r, C, T, mp); else triple<CUP, CAP>(r, C, T, mp); }
#else
void vf::runCase(Rng& rng) {
    bool big = rng.chance(0.05);
    std::vector<TableP> T;
    T.push_back(mk(table(rng, 0, big)));
    T.push_back(mk(table(rng, T[0].get(), big)));
    T.push_back(mk(table(rng, T[0].get(), big)));
    bool mp = rng.chance(0.4);
    if (mp) chooseThreads(rng);
    int op = (int) rng.below(4);
    Canon C(isBdd(op) ? BDD : ZDD, 2);
    (op == AND ? runA : op == OR ? runB : op == CAP ? runC : runD)(rng, C, T, mp);
    if (mp) count("mp_builds");
}
VF_MAIN
#endif
