// PARTS: 0 2 3 4
// C05: zddSubset is exactly intersection with the family of the spec.
#include "specs.hpp"
using namespace vf;

// independent intersection on canonical ZDD ids
struct Inter {
    Canon& C; int arity;
    std::unordered_map<uint64_t, int> memo;
    int operator()(int a, int b) {
        if (a == 0 || b == 0) return 0;
        if (a < 2 && b < 2) return 1;
        uint64_t k = (uint64_t) a << 32 | (uint32_t) b;
        auto it = memo.find(k);
        if (it != memo.end()) return it->second;
        int la = C.level(a), lb = C.level(b), r;
        if (la > lb) r = (*this)(C.child(a, 0), b);
        else if (la < lb) r = (*this)(a, C.child(b, 0));
        else {
            std::vector<int64_t> ch(arity);
            for (int x = 0; x < arity; ++x) ch[x] = (*this)(C.child(a, x), C.child(b, x));
            r = C.make(la, ch);
        }
        memo[k] = r;
        return r;
    }
};

template<int AR>
static void one(Rng& rng) {
    bool big = rng.chance(0.06);
    int maxN = big ? 16 : 9, maxW = big ? (AR > 3 ? 25 : 80) : 7;
    auto table = [&](double similar, Table const* base) {
        TableParam p = randomParam(rng, AR, maxN, maxW);
        if (rng.chance(0.7)) { p.rootTop = true; p.pZero = rng.coin() ? 0.0 : 0.1; p.pDead = 0; if (rng.chance(0.6)) p.pSkip = rng.coin() ? 0.0 : 0.1; if (p.n < 3) p.n += 3; }
        if (base && rng.chance(similar)) { // a relaxation / mutation of the other operand so that the result is not trivial
            Table U = *base;
            for (int k = rng.range(0, 4); k > 0; --k) {
                int i = rng.range(1, U.n), j = (int) rng.below(U.t[i].size()), b = (int) rng.below(AR), l = rng.range(0, i - 1);
                U.t[i][j][b] = l == 0 ? Ref{0, (int) rng.below(2)} : Ref{l, (int) rng.below(U.t[l].size())};
            }
            return U;
        }
        stretch(rng, p, 0.01, 200, 300);
        return randomTable(rng, p);
    };
    bool mp = rng.chance(0.45);
    if (mp) chooseThreads(rng);
    std::string log;
    Table A = table(0, 0);
    TableP AP = mk(A);
    DdStructure<AR> dd;
    if (rng.chance(0.1)) { int n = rng.range(0, 10); dd = DdStructure<AR>(n, mp); log = "universal(" + std::to_string(n) + ") "; }
    else {
        bool mpb = rng.chance(0.3);
        if (rng.coin()) dd = DdStructure<AR>(SaltSpec<AR>(AP, 1 + rng.below(4)), mpb); else dd = DdStructure<AR>(ScalarSpec<AR>(AP), mpb);
        log = "build[" + A.str() + "] ";
    }
    dd.useMultiProcessors(mp);
    Canon C(ZDD, AR);
    Inter inter{C, AR, {}};
    int want = canonDD(C, dd, AR);
    std::vector<std::pair<DdStructure<AR>, int> > copies;
    int steps = rng.range(1, 3);
    bool changed = false;
    for (int s = 0; s < steps; ++s) {
        int pre = (int) rng.below(6);
        if (pre == 0) { dd.zddReduce(); log += "zddReduce "; }
        else if (pre == 1) { dd.qddReduce(); log += "qddReduce "; }
        if (rng.coin()) copies.push_back(std::make_pair(dd, want)), log += "copy ";
        int before = want;
        int kind = (int) rng.below(10);
        if (kind == 0) { dd.zddSubset(dd); log += "subset(self) "; count("self_subsets"); }
        else if (kind == 1 && !copies.empty()) {
            size_t k = rng.below(copies.size());
            want = inter(want, copies[k].second);
            dd.zddSubset(copies[k].first);
            log += "subset(copy) "; count("shared_subsets");
        }
        else if (kind == 2) { // by a diagram
            TableP BP = mk(table(0.5, &A));
            DdStructure<AR> e((ScalarSpec<AR>(BP)), rng.coin());
            if (rng.coin()) e.zddReduce();
            want = inter(want, canonTable(C, *BP));
            dd.zddSubset(e);
            log += "subset(dd[" + BP->str() + "]) "; count("diagram_subsets");
        }
        else {
            TableP BP = mk(table(0.75, &A));
            int b = canonTable(C, *BP);
            want = inter(want, b);
            std::string fl = withSpec<AR>(rng, BP, [&](auto const& spec) { dd.zddSubset(spec); });
            log += "subset(" + fl + "[" + BP->str() + "]) ";
            count("flavour:" + fl);
            if (AP->root.level != BP->root.level) count("differing_heights");
            if (before >= 2 && b < 2) count("terminal_operand");
        }
        size_t reach = 0;
        int got = canonDD(C, dd, AR, &reach);
        if (got != want) fail(mp ? "subset-mp" : "subset", "result is not the intersection: " + log);
        REQUIRE(dd.size() >= reach, "size", "size() below the number of reachable nodes: " + log);
        if (want != before) changed = true;
        if (want == 0) count("empty_results");
        for (auto& c : copies) {
            if (canonDD(C, c.first, AR) != c.second) fail("copy-changed", "a copy taken before subsetting changed: " + log);
            count("copies_checked");
        }
        count(mp ? "mp_subsets" : "serial_subsets");
        maxcount("nodes", reach);
    }
    DdStructure<AR> z = dd;
    z.zddReduce();
    REQUIRE(z.size() == C.reach(want), "reduced-size", "reduced result has " << z.size() << " nodes, canonical " << C.reach(want) << ": " << log);
    // small cases: extensional check independent of the canonical machinery
    int n = std::max(dd.topLevel(), C.level(want));
    if (want >= 2 && ipow(AR, n) <= 512 && copies.size() && copies[0].first.topLevel() <= n + 2) {
        int m = std::max(n, copies[0].first.topLevel());
        std::vector<bool> t = ttDD(dd, m, AR, true), u = ttDD(copies[0].first, m, AR, true);
        for (size_t k = 0; k < t.size(); ++k) REQUIRE(!t[k] || u[k], "not-a-subset", "result contains a set that was not in the diagram: " << log);
        count("extensional_checks");
    }
    if (changed && want >= 2) { nontrivial(mix64(A.hash() ^ want * 31)); count("nontrivial_cases"); }
    sample(log);
}

void run2(Rng&); void run3(Rng&); void run4(Rng&);
#if VF_PART == 2
void run2(Rng& rng) { one<2>(rng); }
#elif VF_PART == 3
void run3(Rng& rng) { one<3>(rng); }
#elif VF_PART == 4
void run4(Rng& rng) { one<6>(rng); }
#else
void vf::runCase(Rng& rng) {
    int k = (int) rng.below(10);
    if (k < 7) run2(rng); else if (k < 9) run3(rng); else run4(rng);
}
VF_MAIN
#endif
