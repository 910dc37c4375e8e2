// PARTS: 0 1 2
// C12: every state and value object is created and destroyed exactly once and
// nothing stays allocated.
#include "specs.hpp"
#include <tdzdd/DdEval.hpp>
#include <tdzdd/dd/PathCounter.hpp>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define HEAP_BYTES() __sanitizer_get_current_allocated_bytes()
#else
#include <malloc.h>
#define HEAP_BYTES() 0
#endif
using namespace vf;

static Table table(Rng& rng, int AR, bool extremes = false) {
    bool big = rng.chance(0.1);
    TableParam p = randomParam(rng, AR, big ? 14 : 7, big ? 40 : 6);
    if (rng.chance(0.5)) { p.rootTop = true; p.pZero = 0.1; p.pDead = 0; }
    else if (rng.chance(0.3)) { p.pZero = 0.9; } // nothing or little accepted
    if (extremes) stretch(rng, p, 0.02, 150, 300); // not where search may take exponential time
    Table T = randomTable(rng, p);
    if (rng.chance(0.1)) T.root = Ref{0, (int) rng.below(2)};
    return T;
}

// value objects for evaluation
struct ValObj {
    uint64_t* heap;
    ValObj() : heap(new uint64_t(0)) { life().add(this, false); }
    ValObj(ValObj const& o) : heap(0) { life().use(&o, "value copy"); heap = new uint64_t(*o.heap); life().add(this, true); }
    ValObj& operator=(ValObj const& o) { life().use(this, "value assign"); life().use(&o, "value assign from"); *heap = *o.heap; return *this; }
    ~ValObj() { life().del(this); delete heap; heap = 0; }
};
template<int AR, bool SAFE>
struct ObjEval : public DdEval<ObjEval<AR, SAFE>, ValObj, uint64_t> {
    bool isThreadSafe() const { return SAFE; }
    void evalTerminal(ValObj& v, int one) { life().use(&v, "evalTerminal"); *v.heap = one ? 1 : 0; }
    void evalNode(ValObj& v, int, DdValues<ValObj, AR> const& values) {
        life().use(&v, "evalNode");
        uint64_t s = 0;
        for (int b = 0; b < AR; ++b) { life().use(&values.get(b), "child value"); s += *values.get(b).heap; }
        *v.heap = s;
    }
    uint64_t getValue(ValObj const& v) { life().use(&v, "getValue"); return *v.heap; }
};

// object states resolved against each other: cheaper one kept, ties merged
template<int AR>
class ObjMergeSpec : public DdSpec<ObjMergeSpec<AR>, ObjState, AR> {
    TableP T; Touch touch; LevelLog log; int costMod;
public:
    ObjMergeSpec(TableP t, int c) : T(t), costMod(c) {}
    int getRoot(ObjState& s) const { life().use(&s, "getRoot"); *s.heap = T->root.idx; s.salt = 0; s.lv = T->root.level; return refToLevel(T->root); }
    void destructLevel(int level) { levelDone(level); log.done(level); }
    int getChild(ObjState& s, int level, int b) const {
        touch();
        life().use(&s, "getChild");
        log.expand(level);
        Ref r = T->child(level, *s.heap, b);
        s.salt += (int) (mix64(*s.heap * 977 + level * 31 + b) % costMod);
        atLevel(s.lv, level, "getChild");
        *s.heap = r.idx;
        s.lv = r.level;
        return refToLevel(r);
    }
    int mergeStates(ObjState& a, ObjState& b) {
        life().use(&a, "mergeStates");
        life().use(&b, "mergeStates");
        return a.salt < b.salt ? 2 : b.salt < a.salt ? 1 : 0;
    }
    size_t hashCode(ObjState const& s) const { life().use(&s, "hash"); return (size_t) *s.heap * 2654435761u; }
    bool equalTo(ObjState const& a, ObjState const& b) const { life().use(&a, "equalTo"); life().use(&b, "equalTo"); return *a.heap == *b.heap; }
};

template<int AR, typename F>
static std::string withObj(Rng& rng, TableP T, F f, bool merging = false) {
    if (merging && rng.chance(0.35)) { count("merging_specs"); f(ObjMergeSpec<AR>(T, rng.range(2, 5))); return "Object/merging"; }
    if (rng.chance(0.7)) { f(ObjSpec<AR>(T, rng.range(1, 3))); return "Object"; }
    f(ObjHybSpec<AR>(T, rng.range(1, 6))); return "Hybrid<Object,short>";
}

static char const* const OPS[] = {"build", "subset", "dump", "findOneInstance", "countPaths", "operator", "nested-operator", "lookahead", "unreduction", "evaluate"};

static std::string unannounced;
static void announced(bool direct) { std::string e = levelBook().verdict(direct); if (unannounced.empty()) unannounced = e; levelBook().reset(); }

// levels that have nodes have an end
template<int AR>
static void nodeLevels(DdStructure<AR> const& d) {
    size_t reach; auto lv = Walker<DdStructure<AR> >::collect(d, AR, reach);
    std::lock_guard<std::mutex> g(levelBook().mu);
    for (size_t i = 1; i < lv.size(); ++i) if (!lv[i].empty()) levelBook().announced.insert((int) i);
}

template<typename SPEC, int AR>
static uint64_t drain(Rng& rng, SPEC const& spec, bool mp) { // use a composed spec in one of the ways
    switch (rng.below(5)) {
    case 0: { DdStructure<AR> d(spec, mp); nodeLevels(d); return d.size(); }
    case 1: { DdStructure<AR> d(rng.range(0, 8), mp); d.zddSubset(spec); nodeLevels(d); return d.size(); }
    case 2: { std::ostringstream o; spec.dumpDot(o); return o.str().size(); }
    case 3: { try { return spec.findOneInstance().size(); } catch (std::runtime_error&) { return 1; } }
    default: { SPEC s(spec); uint64_t a = countPaths(s).size(); SPEC t(spec); a += countPaths(t, true).size(); SPEC u(spec); return a + countPaths64(u); }
    }
}

template<int AR>
static uint64_t perform(Rng& rng, int op) {
    TableP T = mk(table(rng, AR, op == 0 || op == 1 || op == 2 || op == 4));
    bool mp = rng.chance(0.4);
    if (mp) chooseThreads(rng);
    uint64_t r = 0;
    if (op == 0) withObj<AR>(rng, T, [&](auto const& s) {
        DdStructure<AR> d(s, mp);
        if (rng.coin()) d.zddReduce();
        r = d.size();
    }, !mp);
    else if (op == 1) {
        TableP U = mk(table(rng, AR));
        DdStructure<AR> d(ScalarSpec<AR>(U), mp);
        if (rng.coin()) d.zddReduce();
        if (rng.chance(0.3)) d = DdStructure<AR>(rng.range(0, 8), mp);
        DdStructure<AR> copy;
        if (rng.coin()) copy = d;
        withObj<AR>(rng, T, [&](auto const& s) {
            for (int k = rng.range(1, 2); k > 0; --k) {
                d.zddSubset(s);
                nodeLevels(d);
                announced(false);
            }
        }, !mp);
        r = d.size();
    }
    else if (op == 2) withObj<AR>(rng, T, [&](auto const& s) { std::ostringstream o; s.dumpDot(o, rng.coin() ? "t" : ""); r = o.str().size(); }, true);
    else if (op == 3) withObj<AR>(rng, T, [&](auto const& s) { try { r = s.findOneInstance().size(); } catch (std::runtime_error&) { r = 99; } });
    else if (op == 4) withObj<AR>(rng, T, [&](auto const& s) { auto t = s; r = countPaths(t, rng.coin()).size(); auto u = s; r += countPaths64(u); });
    else if (op == 5 || op == 6) {
        if constexpr (AR == 2) {
            TableP U = mk(table(rng, AR)), V = mk(table(rng, AR));
            ObjSpec<2> a(T, rng.range(1, 2)), b(U, rng.range(1, 3));
            ScalarSpec<2> p(V);
            if (op == 5) switch (rng.below(4)) {
            case 0: { auto s = bddAnd(a, b); r = drain<decltype(s), 2>(rng, s, mp); break; }
            case 1: { auto s = bddOr(a, b); r = drain<decltype(s), 2>(rng, s, mp); break; }
            case 2: { auto s = zddIntersection(a, b); r = drain<decltype(s), 2>(rng, s, mp); break; }
            default: { auto s = zddUnion(a, b); r = drain<decltype(s), 2>(rng, s, mp); break; }
            }
            else switch (rng.below(4)) {
            case 0: { auto s = zddIntersection(p, a, b); r = drain<decltype(s), 2>(rng, s, mp); break; }
            case 1: { auto s = zddUnion(zddIntersection(a, p), b); r = drain<decltype(s), 2>(rng, s, mp); break; }
            case 2: { auto s = zddLookahead(zddUnion(a, b)); r = drain<decltype(s), 2>(rng, s, mp); break; }
            default: { auto s = bddOr(bddAnd(p, a), b); r = drain<decltype(s), 2>(rng, s, mp); break; }
            }
        }
    }
    else if (op == 7) withObj<AR>(rng, T, [&](auto const& s) {
        if (rng.coin()) { auto x = zddLookahead(s); r = drain<decltype(x), AR>(rng, x, mp); }
        else { auto x = bddLookahead(s); r = drain<decltype(x), AR>(rng, x, mp); }
    });
    else if (op == 8) withObj<AR>(rng, T, [&](auto const& s) {
        int n = T->n + rng.range(0, 3);
        if (rng.coin()) { auto x = zddUnreduction(s, n); r = drain<decltype(x), AR>(rng, x, mp); }
        else { auto x = bddUnreduction(s, n); r = drain<decltype(x), AR>(rng, x, mp); }
    });
    else {
        DdStructure<AR> d(ScalarSpec<AR>(T), mp);
        if (rng.coin()) d.zddReduce();
        r = rng.coin() ? d.evaluate(ObjEval<AR, true>()) : d.evaluate(ObjEval<AR, false>());
        if constexpr (AR == 2) if (rng.coin()) { size_t k = 0; for (auto it = d.begin(); it != d.end() && k < 50; ++it) ++k; r += k; }
    }
    if (mp) count("mp_operations");
    if (T->root.level == 0) count("terminal_roots");
    return r;
}

template<int AR>
static void one(Rng& rng) {
    int op;
    do op = (int) rng.below(10); while (AR != 2 && (op == 5 || op == 6));
    std::string tag = std::string(OPS[op]) + "/" + std::to_string(AR);
    uint64_t seed = rng.next();
    uint64_t r[2];
    size_t before = 0, after = 0;
    // the first run warms up lazily allocated storage; the second is measured
    for (int k = 0; k < 2; ++k) {
        Rng r2(seed);
        srand((unsigned) seed);
        life().reset();
        levelBook().reset();
        unannounced.clear();
        { std::unordered_map<void const*, uint64_t>().swap(life().live); }
        std::string err;
        uint64_t created, destroyed, left;
        if (k) before = HEAP_BYTES();
        r[k] = perform<AR>(r2, op);
        announced(op == 0 || op >= 2 && op <= 4);
        if (!unannounced.empty()) fail(tag + ":level-end", unannounced);
        { std::lock_guard<std::mutex> g(life().mu);
          created = life().created; destroyed = life().destroyed; left = life().live.size();
          std::unordered_map<void const*, uint64_t>().swap(life().live);
          if (k) after = HEAP_BYTES();
          err = life().error; }
        if (!err.empty()) fail(tag + ":lifetime", err);
        if (left) fail(tag + ":leak", std::to_string(left) + " of " + std::to_string(created) + " objects were never destroyed");
        if (created != destroyed) fail(tag + ":balance", "created " + std::to_string(created) + ", destroyed " + std::to_string(destroyed));
        if (k) {
            count("objects", created);
            maxcount("objects_per_case", created);
            count(std::string("op:") + OPS[op]);
            if (created > 3) { nontrivial(seed); count("nontrivial_cases"); }
        }
    }
    if (after > before) fail(tag + ":heap", "heap grew by " + std::to_string(after - before) + " bytes");
    if (before) count("heap_checks");
    count("level_ends_checked", levelBook().checked); levelBook().checked = 0;
    sample(tag + " result " + std::to_string(r[1]));
}

void part0(Rng&); void part1(Rng&); void part2(Rng&);
#if VF_PART == 0
void part0(Rng& r) { one<2>(r); }
void vf::runCase(Rng& rng) { unsigned k = rng.below(10); if (k < 7) part0(rng); else if (k < 9) part1(rng); else part2(rng); }
VF_MAIN
#elif VF_PART == 1
void part1(Rng& r) { one<3>(r); }
#elif VF_PART == 2
void part2(Rng& r) { one<4>(r); }
#endif
