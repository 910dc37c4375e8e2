// PARTS: 0 2 3 4
// C22: specs that resolve equivalent states (keep the better one, merge ties).
// The oracle computes level by level which states survive; construction,
// subsetting and dumping must contain exactly the paths through survivors.
#include "specs.hpp"
#include "dot.hpp"
#include <tdzdd/DdSpecOp.hpp>
using namespace vf;

struct St { int key = 0; int cost = 0; unsigned acc = 0; };
struct Rule { // meaning of the spec: automaton + costs + marks
    TableP T;
    uint64_t seed; unsigned costMod, accBits; bool accMatters, useCost;
    int root(St& s) const { s = St(); s.key = T->root.idx; return refToLevel(T->root); }
    int step(St& s, int level, int b) const {
        int b2 = b;
        if (accMatters) b2 = (b + (int) __builtin_popcount(s.acc & (unsigned) mix64(seed ^ level))) % T->arity;
        uint64_t h = mix64(seed * 31 + level * 1009 + s.key * 31 + b);
        if (useCost) s.cost += (int) (h % costMod);
        if (accBits) s.acc |= 1u << (h / 64 % accBits);
        Ref r = T->child(level, s.key, b2);
        s.key = r.idx;
        return refToLevel(r);
    }
    // 0: merge (marks are united), 1: drop the first, 2: drop the second
    static int merge(St& a, St const& b) { if (a.cost < b.cost) return 2; if (b.cost < a.cost) return 1; a.acc |= b.acc; return 0; }
};
struct Monitor { uint64_t merges[3] = {0, 0, 0}; };
static Monitor mon;
static int judge(St& a, St const& b) { int r = Rule::merge(a, b); ++mon.merges[r]; return r; }

template<int AR>
class MScalar : public DdSpec<MScalar<AR>, St, AR> {
    Rule R; bool collide;
public:
    MScalar(Rule r, int c) : R(r), collide(c & 1) {}
    int getRoot(St& s) const { return R.root(s); }
    int getChild(St& s, int l, int b) const { return R.step(s, l, b); }
    int mergeStates(St& a, St& b) { return judge(a, b); }
    size_t hashCode(St const& s) const { return collide ? 7 : s.key * 31u; }
    bool equalTo(St const& a, St const& b) const { return a.key == b.key; }
    void printState(std::ostream& os, St const& s) const { os << s.key << "/" << s.cost << "/" << s.acc; }
};
template<int AR>
class MPod : public PodArrayDdSpec<MPod<AR>, int, AR> {
    Rule R;
    static St get(int const* a) { St s; s.key = a[0]; s.cost = a[1]; s.acc = (unsigned) a[2]; return s; }
    static void put(int* a, St const& s) { a[0] = s.key; a[1] = s.cost; a[2] = (int) s.acc; }
public:
    MPod(Rule r, int c) : R(r) { this->setArraySize(3 + c % 4); }
    int getRoot(int* a) const { St s; int l = R.root(s); for (int k = 3; k < this->getArraySize(); ++k) a[k] = k; put(a, s); return l; }
    int getChild(int* a, int l, int b) const { St s = get(a); int r = R.step(s, l, b); put(a, s); return r; }
    int mergeStates(int* a, int* b) { St s = get(a); int r = judge(s, get(b)); put(a, s); return r; }
    size_t hashCode(int const* a) const { return (size_t) a[0] * 2654435761u; }
    bool equalTo(int const* a, int const* b) const { return a[0] == b[0]; }
};
template<int AR>
class MHyb : public HybridDdSpec<MHyb<AR>, St, short, AR> { // the array part follows from the key
    Rule R; int m;
    void put(short* a, int key) const { for (int k = 0; k < m; ++k) a[k] = (short) (key * (k + 1)); }
public:
    MHyb(Rule r, int c) : R(r), m(1 + c % 5) { this->setArraySize(m); }
    int getRoot(St& s, short* a) const { int l = R.root(s); put(a, s.key); return l; }
    int getChild(St& s, short* a, int l, int b) const { int r = R.step(s, l, b); put(a, s.key); return r; }
    int mergeStates(St& s, short*, St& t, short*) { return judge(s, t); }
    size_t hashCode(St const& s) const { return (size_t) s.key; }
    bool equalTo(St const& s, St const& t) const { return s.key == t.key; }
    void printState(std::ostream& os, St const& s, short const*) const { os << s.key << "/" << s.cost; }
};
struct MObj { // heap-owning, life-cycle checked
    ObjState o; St s;
};
template<int AR>
class MObject : public DdSpec<MObject<AR>, MObj, AR> {
    Rule R;
    static void in(MObj const& m) { life().use(&m.o, "merge spec"); }
public:
    MObject(Rule r, int) : R(r) {}
    int getRoot(MObj& m) const { in(m); return R.root(m.s); }
    int getChild(MObj& m, int l, int b) const { in(m); return R.step(m.s, l, b); }
    int mergeStates(MObj& a, MObj& b) { in(a); in(b); return judge(a.s, b.s); }
    size_t hashCode(MObj const& m) const { in(m); return m.s.key; }
    bool equalTo(MObj const& a, MObj const& b) const { in(a); in(b); return a.s.key == b.s.key; }
    void printState(std::ostream& os, MObj const& m) const { in(m); os << m.s.key; }
};

// ------------------------------------------------------------------ oracle ----
struct Survivors { Table out; uint64_t discardedEdges = 0, mergedEdges = 0, discardedOnes = 0, states = 0; };
struct Edge { int level, idx, b; St s; };
// next(pos,state,b) -> level of the successor (-1, 0, >0), updating pos and state; group key = (pos,key)
template<typename NEXT>
static Survivors survive(int arity, int rootLevel, long rootPos, St rootState, NEXT next) {
    Survivors V;
    int n = rootLevel;
    V.out.n = n; V.out.arity = arity; V.out.t.resize(n + 1); V.out.t[0].resize(2);
    std::vector<std::map<std::pair<long, int>, std::vector<Edge> > > in(n + 1);
    std::vector<Edge> ones;
    in[n][{rootPos, rootState.key}].push_back(Edge{0, 0, 0, rootState});
    for (int i = n; i >= 1; --i)
        for (auto& g : in[i]) {
            int best = g.second[0].s.cost;
            for (Edge& e : g.second) best = std::min(best, e.s.cost);
            St s; s.key = g.first.second; s.cost = best; s.acc = 0;
            for (Edge& e : g.second) if (e.s.cost == best) s.acc |= e.s.acc;
            int me = (int) V.out.t[i].size(), kept = 0;
            V.out.t[i].push_back(std::vector<Ref>(arity, Ref{0, 0}));
            ++V.states;
            for (Edge& e : g.second) {
                if (e.s.cost != best) { ++V.discardedEdges; continue; }
                ++kept;
                if (e.level == 0) V.out.root = Ref{i, me}; else V.out.t[e.level][e.idx][e.b] = Ref{i, me};
            }
            if (kept > 1) V.mergedEdges += kept - 1;
            for (int b = 0; b < arity; ++b) {
                long pos = g.first.first; St x = s;
                int l = next(i, pos, x, b);
                if (l < 0) ones.push_back(Edge{i, me, b, x});
                else if (l > 0) in[l][{pos, x.key}].push_back(Edge{i, me, b, x});
            }
        }
    if (!ones.empty()) {
        int best = ones[0].s.cost;
        for (Edge& e : ones) best = std::min(best, e.s.cost);
        for (Edge& e : ones) if (e.s.cost == best) V.out.t[e.level][e.idx][e.b] = Ref{0, 1}; else ++V.discardedOnes;
    }
    return V;
}

template<int AR>
class Everything : public StatelessDdSpec<Everything<AR>, AR> { // no level is skipped, nothing is rejected
    int n;
public:
    explicit Everything(int n) : n(n) {}
    int getRoot() const { return n > 0 ? n : -1; }
    int getChild(int l, int) const { return l > 1 ? l - 1 : -1; }
};

template<int AR, typename SPEC>
static void check(Rng& rng, Rule const& R, SPEC const& spec, std::string const& name, int op, bool obj) {
    Table const& T = *R.T;
    std::string what = name + " op=" + std::to_string(op) + " seed=" + std::to_string(R.seed) + " costMod=" + std::to_string(R.costMod) + " accBits=" + std::to_string(R.accBits) + (R.accMatters ? " acc" : "") + (R.useCost ? " cost" : "") + " " + T.str();
    mon = Monitor();
    life().reset();
    Survivors V;
    St rs;
    int rl = R.root(rs);
    auto specNext = [&](int i, long&, St& s, int b) { return R.step(s, i, b); };
    if (op != 1) {
        if (rl > 0) V = survive(AR, rl, 0, rs, specNext);
        else { V.out.arity = AR; V.out.t.resize(1); V.out.t[0].resize(2); V.out.root = Ref{0, rl ? 1 : 0}; }
    }
    Canon P(PATH, AR);
    if (op == 0) {
        DdStructure<AR> dd(spec);
        int want = canonTable(P, V.out);
        int got = canonDD(P, dd, AR);
        REQUIRE(got == want, "construct", "wrong paths after construction: " << what);
        DdStructure<AR> d2(dd);
        d2.zddReduce();
        Canon Z(ZDD, AR);
        REQUIRE(canonDD(Z, d2, AR) == canonTable(Z, V.out), "reduce", "wrong family after construction and reduction: " << what);
        count("op:construct");
    }
    else if (op == 1) {
        TableParam p = randomParam(rng, AR, T.n + 1, 5);
        if (rng.coin()) { p.pZero = 0; p.pDead = 0; p.rootTop = true; }
        if (rng.coin()) { p.pSkip = 0.1; p.n = T.n; }
        Table A = randomTable(rng, p);
        DdStructure<AR> dd;
        if (rng.chance(0.15)) dd = DdStructure<AR>(T.n); else dd = DdStructure<AR>(ScalarSpec<AR>(mk(A)));
        if (rng.chance(0.3)) dd.zddReduce();
        what += " on " + A.str();
        // synchronised descent: the higher one follows 0-branches
        DdStructure<AR> const in(dd);
        auto ref = [&](NodeId f) { return f.row() == 0 ? (f == 1 ? -1 : 0) : (int) f.row(); };
        auto sync = [&](NodeId& f, St& s, int& k, int& l) {
            while (k != 0 && l != 0 && k != l) {
                if (k > l) { f = in.child(f, 0); k = ref(f); }
                else l = R.step(s, l, 0);
            }
            if (k == 0 || l == 0) k = l = 0;
        };
        NodeId f = in.root();
        int k = ref(f), l = rl;
        sync(f, rs, k, l);
        if (l > 0) V = survive(AR, l, (long) f.col(), rs, [&](int i, long& pos, St& s, int b) {
                NodeId g = in.child(NodeId(i, pos), b);
                int kk = ref(g), ll = R.step(s, i, b);
                sync(g, s, kk, ll);
                pos = ll > 0 ? (long) g.col() : 0;
                return ll;
            });
        else { V.out.arity = AR; V.out.t.resize(1); V.out.t[0].resize(2); V.out.root = Ref{0, l ? 1 : 0}; }
        life().reset();
        dd.zddSubset(spec);
        int want = canonTable(P, V.out);
        int got = canonDD(P, dd, AR);
        REQUIRE(got == want, "subset", "wrong paths after subsetting: " << what);
        REQUIRE(in.root() == DdStructure<AR>(in).root(), "copy", "copy changed");
        count("op:subset");
    }
    else if (op == 3) { // wrapped so that the meaning stays the same
        int n = std::max(rl, 0), k = (int) rng.below(AR == 2 ? 5 : 2);
        DdStructure<AR> dd;
        if (k == 0) dd = DdStructure<AR>(zddUnreduction(spec, n));
        else if (k == 1) dd = DdStructure<AR>(bddUnreduction(spec, n));
        else if constexpr (AR == 2) {
            if (k == 2) dd = DdStructure<AR>(zddIntersection(Everything<AR>(n), spec));
            else if (k == 3) dd = DdStructure<AR>(bddAnd(spec, Everything<AR>(n)));
            else dd = DdStructure<AR>(zddUnreduction(zddIntersection(spec, Everything<AR>(n)), n));
        }
        int want = canonTable(P, V.out);
        REQUIRE(canonDD(P, dd, AR) == want, "wrapped", "wrong paths after construction through wrapper " << k << ": " << what);
        count("op:wrapped");
    }
    else {
        std::ostringstream os;
        spec.dumpDot(os, "t");
        Dot D = parseDot(os.str());
        Table X;
        if (rl == 0) { REQUIRE(D.rootEdge.empty() && D.label.empty(), "dump", "rejecting spec dumped with nodes: " << what); }
        else {
            REQUIRE(D.rootEdge.size() == 1, "dump", "root edges: " << D.rootEdge.size() << " " << what);
            REQUIRE(D.square.size() == 1, "dump", "number of visible terminals: " << D.square.size() << " " << what);
            std::map<std::string, Ref> where;
            X = dotTable(D, AR, where, std::max(rl, 0));
            REQUIRE(where.count(D.rootEdge[0]), "dump", "undeclared root " << what);
            X.root = where[D.rootEdge[0]];
            REQUIRE(canonTable(P, X) == canonTable(P, V.out), "dump", "dumped paths differ from the surviving ones: " << what << "\n" << os.str());
        }
        count("op:dump");
    }
    count("discarded_edges", V.discardedEdges);
    count("merged_edges", V.mergedEdges);
    count("discarded_accepting_edges", V.discardedOnes);
    count("merge_calls_keep_second", mon.merges[1]);
    count("merge_calls_keep_first", mon.merges[2]);
    count("merge_calls_merged", mon.merges[0]);
    maxcount("states", V.states);
    if (obj) {
        REQUIRE(life().error.empty(), "life", life().error << " " << what);
        REQUIRE(life().live.empty(), "life", life().live.size() << " states never destroyed " << what);
        count("object_states");
    }
    if (V.discardedEdges + V.discardedOnes > 0) nontrivial(mix64(T.hash() ^ R.seed ^ op * 977));
    if (V.discardedEdges > 3) sample(what.substr(0, 300));
}

template<int AR>
static void one(Rng& rng) {
    bool big = rng.chance(0.05);
    TableParam p = randomParam(rng, AR, big ? 14 : 7, big ? 60 : 6);
    stretch(rng, p, 0.002, 150, 300);
    if (rng.chance(0.6)) { p.rootTop = true; p.pDead = 0.03; if (p.pZero > 0.3) p.pZero = 0.1; if (p.n < 3) p.n += 3; }
    Rule R;
    int op = (int) rng.below(4), c = (int) rng.below(12);
    if (op == 3) { p.pSkip = 0; p.rootTop = true; }
    Table T0 = randomTable(rng, p);
    if (op == 3) for (int i = 2; i <= T0.n; ++i) for (auto& row : T0.t[i]) for (Ref& r : row) if (r.level != i - 1) { if (T0.t[i - 1].empty()) r = Ref{0, 0}; else r = Ref{i - 1, (int) rng.below(T0.t[i - 1].size())}; }
    R.T = mk(T0);
    R.seed = rng.next();
    R.costMod = 2 + (unsigned) rng.below(rng.coin() ? 2 : 6);
    R.useCost = rng.chance(0.85);
    R.accBits = rng.chance(0.5) ? 1 + (unsigned) rng.below(6) : 0;
    R.accMatters = R.accBits && rng.coin();
    // with transitions that depend on the marks a row may lead anywhere the automaton can go: still levelled
    switch ((int) rng.below(4)) {
    case 0: check<AR>(rng, R, MScalar<AR>(R, c), "Scalar", op, false); break;
    case 1: check<AR>(rng, R, MPod<AR>(R, c), "PodArray", op, false); break;
    case 2: check<AR>(rng, R, MHyb<AR>(R, c), "Hybrid", op, false); break;
    default: check<AR>(rng, R, MObject<AR>(R, c), "Object", op, true); break;
    }
}

#if VF_PART == 2
void part2(Rng& rng) { one<2>(rng); }
#elif VF_PART == 3
void part3(Rng& rng) { one<3>(rng); }
#elif VF_PART == 4
void part4(Rng& rng) { one<4>(rng); }
#else
void part2(Rng&); void part3(Rng&); void part4(Rng&);
void vf::runCase(Rng& rng) {
    switch (rng.below(4)) { case 0: part3(rng); break; case 1: part4(rng); break; default: part2(rng); }
}
VF_MAIN
#endif
