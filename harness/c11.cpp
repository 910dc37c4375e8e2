// PARTS: 0 1 2
// C11: diagram objects behave as independent values; equality is structural.
#include "specs.hpp"
#include <tdzdd/DdEval.hpp>
using namespace vf;

static uint64_t hmix(uint64_t h, uint64_t x) { return mix64(h ^ mix64(x)); }

struct Shadow { // what must stay true of an object as long as nobody operates on it
    int path, raw; // canonical ids
    int zdd, bdd;
    size_t size;
    int top;
    std::string card;
};

template<int AR>
struct History {
    Rng& rng;
    Canon P, R, Z, B;
    std::vector<std::unique_ptr<DdStructure<AR> > > v;
    std::vector<Shadow> sh;
    std::ostringstream log;
    bool mpUsed = false;
    size_t maxLive = 0, shared = 0;
    int nv = 7;
    explicit History(Rng& r) : rng(r), P(PATH, AR), R(RAW, AR), Z(ZDD, AR), B(BDD, AR) {}

    Shadow snap(DdStructure<AR> const& d) {
        Shadow s;
        s.path = canonDD(P, d, AR);
        s.raw = canonDD(R, d, AR);
        s.zdd = canonDD(Z, d, AR);
        s.bdd = canonDD(B, d, AR);
        s.size = d.size();
        s.top = d.topLevel();
        s.card = d.zddCardinality();
        return s;
    }
    std::string where() { return " after:" + log.str(); }
    void checkOne(size_t i, char const* what) {
        DdStructure<AR> const& d = *v[i];
        Shadow const& s = sh[i];
        Shadow t = snap(d);
        if (t.path != s.path || t.raw != s.raw) fail(std::string(what) + ":changed", "object " + std::to_string(i) + " changed its meaning or structure" + where());
        if (t.size != s.size || t.top != s.top || d.empty() != (s.raw == 0)) fail(std::string(what) + ":size", "size(), topLevel() or empty() of object " + std::to_string(i) + " changed" + where());
        if (t.card != s.card) fail(std::string(what) + ":cardinality", "cardinality of object " + std::to_string(i) + " changed" + where());
    }
    void checkOthers(size_t target) {
        for (size_t i = 0; i < v.size(); ++i) if (i != target) { checkOne(i, "bystander"); count("bystanders_checked"); }
    }
    void setSnap(size_t i) { sh[i] = snap(*v[i]); }
    // must be equal if isomorphic, must differ if they mean different path sets
    void checkEq(size_t a, size_t b) {
        bool e1 = *v[a] == *v[b], e2 = *v[b] == *v[a], n1 = *v[a] != *v[b];
        if (e1 != e2) fail("eq:symmetry", "a==b differs from b==a for objects " + std::to_string(a) + "," + std::to_string(b) + where());
        if (e1 == n1) fail("eq:negation", "a==b and a!=b agree" + where());
        if (sh[a].raw == sh[b].raw && !e1) fail("eq:same-structure", "isomorphic diagrams " + std::to_string(a) + "," + std::to_string(b) + " compare unequal" + where());
        if (sh[a].path != sh[b].path && e1) fail("eq:different", "different diagrams " + std::to_string(a) + "," + std::to_string(b) + " compare equal" + where());
        count(e1 ? "equal_pairs" : "unequal_pairs");
    }
    Table table() {
        TableParam p = randomParam(rng, AR, nv, rng.chance(0.15) ? 12 : 4);
        if (rng.chance(0.7)) { p.rootTop = true; p.n = nv; p.pDead = 0; p.pZero = 0.08; }
        return randomTable(rng, p);
    }
    size_t any() { return rng.below(v.size()); }
    size_t slot() { // a fresh or existing slot to write to
        if (v.size() < 3 || (v.size() < 7 && rng.chance(0.3))) { v.emplace_back(new DdStructure<AR>()); sh.push_back(Shadow()); return v.size() - 1; }
        return any();
    }
    void put(size_t i, DdStructure<AR> const& d) {
        *v[i] = d;
    }
    static DdStructure<AR> byValue(DdStructure<AR> d) { return d; }

    void step() {
        bool mp = rng.chance(0.4);
        if (mp) { chooseThreads(rng); mpUsed = true; }
        int op = v.empty() ? 0 : (int) rng.below(20);
        if (op <= 1) { // construct
            TableP T = mk(table());
            size_t i = slot();
            withSpec<AR>(rng, T, [&](auto const& spec) { put(i, DdStructure<AR>(spec, mp)); });
            log << " v" << i << "=build";
            if (canonDD(P, *v[i], AR) != canonTable(P, *T)) fail("build", "built diagram differs from its spec" + where());
            setSnap(i); checkOthers(i); count("op:build");
        }
        else if (op <= 4) { // copy / assign, including to itself
            size_t j = any(), i = rng.chance(0.35) ? j : slot();
            log << " v" << i << "=v" << j;
            switch (rng.below(5)) {
            case 0: case 1: *v[i] = *v[j]; break;
            case 2: { DdStructure<AR> t(*v[j]); *v[i] = t; break; }
            case 3: { DdStructure<AR> t; t = *v[j]; v[i].reset(new DdStructure<AR>(t)); break; }
            default: *v[i] = byValue(*v[j]); break;
            }
            if (i != j) sh[i] = sh[j];
            else count("self_assignments");
            checkOne(i, "copy"); checkOthers(i); ++shared; count("op:copy");
            checkEq(i, j);
        }
        else if (op == 5 && v.size() > 1) { // destroy
            size_t i = any();
            log << " drop v" << i;
            v.erase(v.begin() + i); sh.erase(sh.begin() + i);
            checkOthers((size_t) -1); count("op:destroy");
        }
        else if (op == 6 && v.size() > 1) {
            size_t i = any(), j = any();
            log << " swap v" << i << ",v" << j;
            std::swap(*v[i], *v[j]); std::swap(sh[i], sh[j]);
            checkOthers((size_t) -1); count("op:swap");
        }
        else if (op <= 9) { // reduce in place
            size_t i = any();
            Shadow s = sh[i];
            v[i]->useMultiProcessors(mp);
            int k = rng.below(3);
            log << " v" << i << (k == 0 ? ".zddReduce" : k == 1 ? ".bddReduce" : ".qddReduce");
            if (k == 0) v[i]->zddReduce(); else if (k == 1) v[i]->bddReduce(); else v[i]->qddReduce();
            setSnap(i);
            if (k == 0 ? sh[i].zdd != s.zdd : k == 1 ? sh[i].bdd != s.bdd : sh[i].path != s.path) fail("reduce", "reduction changed the meaning" + where());
            checkOthers(i); count("op:reduce");
        }
        else if (op <= 11) { // subset in place by another object, itself or a spec
            size_t i = any();
            Shadow s = sh[i];
            v[i]->useMultiProcessors(mp);
            Apply A{Z, AR, ZDD, true};
            int want;
            if (rng.chance(0.7)) {
                size_t j = any();
                want = A(s.zdd, sh[j].zdd);
                log << " v" << i << ".subset(v" << j << ")";
                v[i]->zddSubset(*v[j]);
            }
            else {
                TableP T = mk(table());
                want = A(s.zdd, canonTable(Z, *T));
                log << " v" << i << ".subset(spec)";
                withSpec<AR>(rng, T, [&](auto const& spec) { v[i]->zddSubset(spec); });
            }
            setSnap(i);
            if (sh[i].zdd != want) fail("subset", "subset is not the intersection" + where());
            checkOthers(i); count("op:subset");
        }
        else if (op <= 13) { // rebuild from a diagram, also onto itself
            size_t j = any(), i = rng.chance(0.3) ? j : slot();
            int want = sh[j].path;
            log << " v" << i << "=DdStructure(spec v" << j << ")";
            put(i, DdStructure<AR>(static_cast<DdSpecBase<DdStructure<AR>, AR> const&>(*v[j]), mp));
            setSnap(i);
            if (sh[i].path != want) fail("rebuild", "rebuilt diagram differs" + where());
            checkOthers(i); count("op:rebuild");
        }
        else if (op <= 15) { // convert
            size_t j = any(), i = rng.chance(0.3) ? j : slot();
            int n = std::max(nv, v[j]->topLevel());
            v[j]->useMultiProcessors(mp);
            bool toZ = rng.coin();
            log << " v" << i << "=v" << j << (toZ ? ".bdd2zdd" : ".zdd2bdd");
            std::vector<bool> a = ttDD(*v[j], n, AR, !toZ);
            put(i, toZ ? v[j]->bdd2zdd(n) : v[j]->zdd2bdd(n));
            if (ttDD(*v[i], n, AR, toZ) != a) fail("convert", "conversion changed the function" + where());
            setSnap(i); checkOthers(i); count("op:convert");
        }
        else if (op == 16) { // build the same thing twice, process it the same way, compare
            TableP T = mk(table());
            size_t i = slot(), j = slot();
            int red = rng.below(4);
            uint64_t fs = rng.next();
            log << " v" << i << ",v" << j << "=twins/" << red;
            for (int k = 0; k < 2; ++k) {
                Rng r2(fs);
                size_t t = k ? j : i;
                withSpec<AR>(r2, T, [&](auto const& spec) { put(t, DdStructure<AR>(spec, k ? mp : false)); });
                v[t]->useMultiProcessors(mp && k);
                if (red == 1) v[t]->zddReduce(); else if (red == 2) v[t]->bddReduce(); else if (red == 3) v[t]->qddReduce();
            }
            setSnap(i); setSnap(j);
            if (!(*v[i] == *v[j])) fail("eq:twins", "diagrams built and processed the same way compare unequal: " + T->str() + where());
            checkEq(i, j); count("op:twins");
        }
        else if (op == 17) { // read-only operations
            size_t i = any();
            v[i]->useMultiProcessors(mp);
            log << " read v" << i;
            std::string c = v[i]->zddCardinality();
            v[i]->bddCardinality(nv);
            std::ostringstream o; v[i]->dumpDot(o);
            if constexpr (AR == 2) { std::ostringstream o2; v[i]->dumpSapporo(o2); size_t k = 0; for (auto it = v[i]->begin(); it != v[i]->end() && k < 40; ++it) ++k; }
            checkOne(i, "reader"); checkOthers(i); count("op:read");
        }
        else { // equality as a relation
            size_t a = any(), b = any(), c = any();
            checkEq(a, b); checkEq(b, c); checkEq(a, a);
            if (*v[a] == *v[b] && *v[b] == *v[c] && !(*v[a] == *v[c])) fail("eq:transitivity", "equality is not transitive" + where());
            count("op:compare");
        }
        maxLive = std::max(maxLive, v.size());
    }
};

template<int AR>
static void one(Rng& rng) {
    History<AR> h(rng);
    h.nv = rng.range(2, AR == 2 ? 8 : 5);
    int n = rng.range(6, 22);
    for (int i = 0; i < n; ++i) h.step();
    uint64_t x = n;
    bool nontriv = false;
    for (auto& s : h.sh) { x = hmix(x, s.path * 7919 + s.raw); if (s.path > 1) nontriv = true; }
    if (nontriv && h.v.size() > 1) { nontrivial(hmix(x, ctx().caseNo)); count("nontrivial_histories"); }
    if (h.shared) count("histories_with_sharing");
    if (h.mpUsed) count("histories_with_mp");
    maxcount("live_objects", h.maxLive);
    count("steps", n);
    sample("AR=" + std::to_string(AR) + h.log.str());
}

void part0(Rng&); void part1(Rng&); void part2(Rng&);
#if VF_PART == 0
void part0(Rng& r) { one<2>(r); }
void vf::runCase(Rng& rng) { unsigned k = rng.below(10); if (k < 7) part0(rng); else if (k < 9) part1(rng); else part2(rng); }
VF_MAIN
#elif VF_PART == 1
void part1(Rng& r) { one<3>(r); }
#else
void part2(Rng& r) { one<5>(r); }
#endif
