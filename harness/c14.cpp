// PARTS: 0 2 3 4
// C14: exported text (DOT of specs, diagrams and node tables, Sapporo node
// lists) denotes exactly the diagram; Graphillion node lists are read exactly.
#include "specs.hpp"
#include "dot.hpp"
#include <cerrno>
#include <fstream>
#include <tdzdd/util/MessageHandler.hpp>
#include <tdzdd/spec/GraphillionZdd.hpp>
using namespace vf;

static size_t reachableStates(Table const& T, std::set<std::pair<int, int> >* out = 0) {
    std::set<std::pair<int, int> > seen;
    std::vector<Ref> st;
    if (T.root.level > 0) { st.push_back(T.root); seen.insert({T.root.level, T.root.idx}); }
    while (!st.empty()) {
        Ref r = st.back(); st.pop_back();
        for (Ref c : T.t[r.level][r.idx]) if (c.level > 0 && seen.insert({c.level, c.idx}).second) st.push_back(c);
    }
    if (out) *out = seen;
    return seen.size();
}

// checks a dump of a spec or diagram against the automaton it denotes; states may be split (unsized = true)
static void checkDump(std::string const& text, Table const& T, int arity, std::string const& title, bool exactStates, bool stateLabels, bool levelNames, std::string const& what) {
    Dot D = parseDot(text);
    REQUIRE(D.title == title, "dot-title", what << ": graph name " << D.title);
    int top = T.root.level;
    if (top == 0) {
        REQUIRE(D.label.empty() && D.edge.empty(), "dot-terminal", what << ": terminal spec drawn with nodes: " << text);
        if (T.root.idx == 0) REQUIRE(D.rootEdge.empty() && D.square.empty(), "dot-terminal", what << ": empty family drawn as " << text);
        else REQUIRE(D.rootEdge.size() == 1 && D.square.count(D.rootEdge[0]), "dot-terminal", what << ": accepting root drawn as " << text);
        count("terminal_dumps");
        return;
    }
    REQUIRE(D.rootEdge.size() == 1, "dot-root", what << ": " << D.rootEdge.size() << " root edges");
    for (int i = 1; i <= top; ++i) {
        REQUIRE(D.levelLabel.count(i), "dot-levels", what << ": level " << i << " is missing");
        std::string want = levelNames ? "x" + std::to_string(i) : std::to_string(i);
        REQUIRE(D.levelLabel[i] == want, "dot-levels", what << ": level " << i << " labelled " << D.levelLabel[i]);
        if (i > 1) REQUIRE(D.levelOrder.count(std::make_pair(i, i - 1)), "dot-levels", what << ": order of levels " << i << " and " << i - 1 << " is not fixed");
    }
    REQUIRE((int) D.levelLabel.size() == top && (int) D.levelOrder.size() == top - 1, "dot-levels", what << ": extra levels");
    std::map<std::string, Ref> where;
    Table U = dotTable(D, arity, where, top);
    auto it = where.find(D.rootEdge[0]);
    REQUIRE(it != where.end() && it->second.level == top, "dot-root", what << ": root edge goes to " << D.rootEdge[0]);
    U.root = it->second;
    // joint walk: every drawn node stands for exactly one state
    std::map<std::pair<int, int>, std::string> nameOf;
    for (auto& w : where) if (w.second.level > 0) nameOf[{w.second.level, w.second.idx}] = w.first;
    std::map<std::pair<int, int>, int> stands;
    auto key = [](Ref r) { return std::make_pair(r.level, r.idx); };
    std::vector<Ref> st(1, U.root);
    stands[{U.root.level, U.root.idx}] = T.root.idx;
    while (!st.empty()) {
        Ref u = st.back(); st.pop_back();
        int s = stands[{u.level, u.idx}];
        if (stateLabels) REQUIRE(D.label[nameOf[key(u)]] == std::to_string(s), "dot-label", what << ": node of state " << s << " labelled " << D.label[nameOf[key(u)]]);
        for (int b = 0; b < arity; ++b) {
            Ref x = U.t[u.level][u.idx][b], y = T.t[u.level][s][b];
            if (x.level == 0 || y.level == 0) { REQUIRE(x == y, "dot-branch", what << ": branch " << b << " of " << nameOf[key(u)] << " is wrong: " << T.str() << " :: " << text); continue; }
            REQUIRE(x.level == y.level, "dot-branch", what << ": branch " << b << " of " << nameOf[key(u)] << " goes to level " << x.level << " instead of " << y.level);
            auto k = stands.find({x.level, x.idx});
            if (k == stands.end()) { stands[{x.level, x.idx}] = y.idx; st.push_back(x); }
            else REQUIRE(k->second == y.idx, "dot-merged", what << ": one node drawn for two states: " << T.str());
        }
    }
    REQUIRE(stands.size() == nameOf.size(), "dot-unreachable", what << ": drawn nodes that are not reachable: " << T.str() << " :: " << text);
    if (exactStates) REQUIRE(stands.size() == reachableStates(T), "dot-count", what << ": " << stands.size() << " nodes drawn for " << reachableStates(T) << " states");
    count("dumps"); count("dumped_nodes", stands.size());
}

template<int AR> static Table structureTable(DdStructure<AR> const& dd) { // through the public interface
    Table T; T.arity = AR;
    NodeId r = static_cast<DdStructure<AR> const&>(dd).root();
    T.n = r.row(); T.t.resize(T.n + 1); T.t[0].resize(2);
    std::vector<std::map<size_t, int> > idx(T.n + 1);
    std::function<Ref(NodeId)> ref = [&](NodeId f) { if (f.row() == 0) return Ref{0, (int) f.col()}; auto x = idx[f.row()].emplace(f.col(), (int) idx[f.row()].size()); return Ref{(int) f.row(), x.first->second}; };
    T.root = ref(r);
    for (int i = T.n; i >= 1; --i) {
        T.t[i].resize(idx[i].size());
        for (auto& e : idx[i]) { T.t[i][e.second].resize(AR); for (int b = 0; b < AR; ++b) T.t[i][e.second][b] = ref(dd.child(NodeId(i, e.first), b)); }
    }
    return T;
}

template<int AR>
class NamedSpec : public DdSpec<NamedSpec<AR>, int, AR> {
    TableP T;
public:
    explicit NamedSpec(TableP t) : T(t) {}
    int getRoot(int& s) const { s = T->root.idx; return refToLevel(T->root); }
    int getChild(int& s, int level, int b) const { Ref r = T->child(level, s, b); s = r.idx; return refToLevel(r); }
    void printLevel(std::ostream& os, int level) const { os << "x" << level; }
};

template<typename S> static std::string dumpBy(Rng& rng, S const& spec, std::string const& title) {
    std::ostringstream o;
    switch (rng.below(3)) {
    case 0: return spec.dot(title);
    case 1: spec.dumpDot(o, title); return o.str();
    default: { o << "prefix"; spec.dumpDot(o, title); return o.str().substr(6); }
    }
}

// node table dump: all nodes of the table, unreachable ones included
template<int AR> static void checkTableDump(DdStructure<AR> const& dd, std::string const& title) {
    std::ostringstream o;
    DdStructure<AR> const& c = dd;
    c.getDiagram()->dumpDot(o, title);
    Dot D = parseDot(o.str());
    REQUIRE(D.title == title, "dot-title", "node table: graph name");
    int n = c.getDiagram()->numRows() - 1;
    std::map<std::string, Ref> where;
    Table U = dotTable(D, AR, where, n);
    size_t m = 0;
    for (int i = 1; i <= n; ++i) {
        REQUIRE(D.levelLabel.count(i), "dot-levels", "node table: level " << i << " is missing");
        if (i > 1) REQUIRE(D.levelOrder.count(std::make_pair(i, i - 1)), "dot-levels", "node table: level order");
        m += U.t[i].size();
    }
    REQUIRE(m == dd.size(), "dot-count", "node table dump has " << m << " nodes, table has " << dd.size());
    NodeId r = c.root();
    if (r.row() > 0) {
        std::ostringstream name; name << r.row() << ":" << r.col();
        REQUIRE(where.count(name.str()), "dot-root", "node table: root node not drawn");
        U.root = where[name.str()];
        Canon C(RAW, AR);
        REQUIRE(canonTable(C, U) == canonTable(C, structureTable(dd)), "dot-table", "node table dump denotes another diagram: " << o.str());
    }
    count("table_dumps");
}

// ------------------------------------------------------------- Sapporo list ----
static void checkSapporo(DdStructure<2> const& dd, std::string const& what) {
    std::ostringstream o;
    dd.dumpSapporo(o);
    std::istringstream in(o.str());
    std::string tag; long ni = -1, no = -1, nn = -1;
    auto syntax = [&](char const* m) { fail("sapporo-syntax", what + ": " + m + ": " + o.str().substr(0, 500)); };
    std::string w1, w2, w3; long v;
    if (!(in >> w1 >> ni >> w2 >> no >> w3 >> nn) || w1 != "_i" || w2 != "_o" || w3 != "_n") syntax("header");
    if (no != 1) syntax("number of roots");
    Table T = structureTable(dd);
    REQUIRE(ni >= T.root.level, "sapporo-inputs", what << ": " << ni << " variables declared for a diagram of height " << T.root.level);
    REQUIRE(nn == (long) dd.size(), "sapporo-count", what << ": " << nn << " nodes declared, size() is " << dd.size());
    std::map<long, Ref> id;
    Table U; U.n = (int) ni; U.arity = 2; U.t.resize(ni + 1); U.t[0].resize(2);
    auto ref = [&](std::string const& s) -> Ref {
        if (s == "F") return Ref{0, 0};
        if (s == "T") return Ref{0, 1};
        char* e; long k = strtol(s.c_str(), &e, 10);
        if (*e || s.empty()) syntax("bad node number");
        if (k % 2) syntax("odd node number denotes a complement edge");
        auto i = id.find(k);
        if (i == id.end()) syntax("node used before its definition");
        return i->second;
    };
    for (long j = 0; j < nn; ++j) {
        long k; int l; std::string a, b;
        if (!(in >> k >> l >> a >> b)) syntax("node line");
        if (k <= 0 || k % 2 || id.count(k)) syntax("node number");
        if (l < 1 || l > ni) syntax("level");
        Ref x = ref(a), y = ref(b);
        if (x.level >= l || y.level >= l) syntax("child not below its parent");
        id[k] = Ref{l, (int) U.t[l].size()};
        U.t[l].push_back({x, y});
    }
    std::string r, rest;
    if (!(in >> r)) syntax("no root");
    U.root = ref(r);
    if (in >> rest) syntax("text after the root");
    Canon C(RAW, 2);
    REQUIRE(canonTable(C, U) == canonTable(C, T), "sapporo-meaning", what << ": node list denotes another diagram: " << o.str().substr(0, 800));
    count("sapporo_lists");
    if (T.root.level == 0) count("sapporo_terminals");
}

// ---------------------------------------------------------- Graphillion list ----
static void checkGraphillion(Rng& rng) {
    TableParam p = randomParam(rng, 2, rng.chance(0.2) ? 25 : 8, rng.chance(0.2) ? 40 : 6);
    p.rootTop = rng.chance(0.9);
    Table T = randomTable(rng, p);
    std::set<std::pair<int, int> > keep;
    reachableStates(T, &keep);
    std::string text;
    auto ws = [&](bool line) { std::string s; int k = rng.chance(0.8) ? 1 : rng.range(1, 3); while (k--) s += line && rng.chance(0.2) ? "\t" : " "; return s; };
    auto term = [&](int one) { return std::string(one ? (rng.chance(0.8) ? "T" : "t") : (rng.chance(0.8) ? "B" : "b")); };
    if (T.root.level == 0) text = term(T.root.idx) + "\n";
    else {
        // indices: 1 = top, increasing downwards, offset arbitrary
        int off = rng.chance(0.7) ? 0 : rng.range(0, 50);
        bool sparse = rng.chance(0.3);
        std::map<std::pair<int, int>, uint64_t> id;
        std::set<uint64_t> used;
        uint64_t nextId = rng.below(4);
        for (auto& k : keep) { if (sparse) { uint64_t x; do x = rng.below(2000); while (!used.insert(x).second); id[k] = x; } else id[k] = nextId, nextId += 1 + rng.below(2); }
        std::vector<std::pair<int, int> > order(keep.begin(), keep.end()); // bottom up
        if (rng.chance(0.4)) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
        for (auto& k : order) {
            text += std::to_string(id[k]) + ws(true) + std::to_string(off + T.root.level - k.first + 1);
            for (int b = 0; b < 2; ++b) { Ref c = T.t[k.first][k.second][b]; text += ws(true) + (c.level == 0 ? term(c.idx) : std::to_string(id[{c.level, c.idx}])); }
            if (rng.chance(0.1)) text += " ";
            text += rng.chance(0.05) ? "\r\n" : "\n";
            if (rng.chance(0.05)) text += "\n";
        }
    }
    bool dot = rng.chance(0.6);
    if (dot) text += rng.chance(0.7) ? ".\n" : ".";
    else if (rng.chance(0.3)) text.pop_back();
    GraphillionZdd S;
    if (rng.coin()) {
        std::istringstream in(text);
        std::streambuf* old = std::cin.rdbuf(in.rdbuf());
        std::cin.clear();
        try { S.read(); } catch (...) { std::cin.rdbuf(old); throw; }
        std::cin.rdbuf(old);
        count("read_stdin");
    }
    else {
        char name[] = "/tmp/vf-c14-XXXXXX";
        int fd = mkstemp(name);
        if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t) text.size()) { perror("mkstemp"); exit(70); }
        close(fd);
        try { S.read(name); } catch (...) { unlink(name); throw; }
        unlink(name);
        count("read_files");
    }
    bool mp = rng.chance(0.3);
    if (mp) chooseThreads(rng);
    DdStructure<2> dd(S, mp);
    // the lowest level of the text is level 1
    int low = T.root.level;
    for (auto& k : keep) low = std::min(low, k.first);
    if (T.root.level == 0) low = 1;
    Table U = T; // shift down
    if (low > 1) {
        int d = low - 1;
        U.n = T.n - d;
        U.t.assign(U.n + 1, {});
        U.t[0].resize(2);
        for (int i = low; i <= T.n; ++i) {
            U.t[i - d] = T.t[i];
            for (auto& s : U.t[i - d]) for (Ref& r : s) if (r.level > d) r.level -= d; else if (r.level > 0) r = Ref{0, 0}; // only unreachable states go below
        }
        U.root.level -= d;
    }
    Canon C(PATH, 2);
    int want = canonTable(C, U);
    if (T.root.level == 0 && T.root.idx == 1 && canonDD(C, dd, 2) == 0) { // recorded finding
        softfail("graphillion:only-1-terminal", "a list that consists of the 1-terminal only is read as the empty family");
        return;
    }
    REQUIRE(canonDD(C, dd, 2) == want, "graphillion", "node list read as another family: " << text << " :: " << T.str());
    if (want >= 2) { REQUIRE(dd.topLevel() == U.root.level, "graphillion-top", "height " << dd.topLevel()); count("graphillion_nontrivial"); nontrivial(T.hash() ^ 99); }
    count("graphillion_lists");
}

template<int AR>
static void one(Rng& rng) {
    bool mp = rng.chance(0.3);
    if (mp) chooseThreads(rng);
    TableParam p = randomParam(rng, AR, rng.chance(0.15) ? 20 : 7, rng.chance(0.2) ? 25 : 5);
    stretch(rng, p, 0.002, 150, 200);
    TableP T = mk(randomTable(rng, p));
    static const char* TT[] = {"T", "a title", "", "x1"};
    std::string title = TT[rng.below(4)];
    size_t states = reachableStates(*T);
    switch (rng.below(4)) {
    case 0: case 1: { // specs
        if (rng.chance(0.3)) { checkDump(dumpBy(rng, ScalarSpec<AR>(T), title), *T, AR, title, true, true, false, "Scalar"); break; }
        if (rng.chance(0.2)) { checkDump(dumpBy(rng, NamedSpec<AR>(T), title), *T, AR, title, true, true, true, "Named"); break; }
        std::string text;
        std::string fl = withSpec<AR>(rng, T, [&](auto const& s) { text = dumpBy(rng, s, title); });
        checkDump(text, *T, AR, title, fl != "Scalar/salted" && fl != "Object", false, false, fl);
        count("flavour:" + fl);
        break;
    }
    case 2: { // diagrams
        DdStructure<AR> dd(SaltSpec<AR>(T, 1 + rng.below(3)), mp);
        if (rng.coin()) { int k = (int) rng.below(4); if (k == 0) dd.zddReduce(); else if (k == 1) dd.bddReduce(); else if (k == 2) dd.qddReduce(); else { TableParam q = randomParam(rng, AR, 8, 5); dd.zddSubset(ScalarSpec<AR>(mk(randomTable(rng, q)))); } }
        if (rng.chance(0.05)) dd = DdStructure<AR>(rng.range(0, 6));
        Table S = structureTable(dd);
        checkDump(dumpBy(rng, dd, title), S, AR, title, true, false, false, "diagram");
        checkTableDump<AR>(dd, title);
        if constexpr (AR == 2) checkSapporo(dd, "diagram of " + T->str());
        states = S.nodes() - 2;
        break;
    }
    default: { // composed specs: the drawn automaton accepts what the built diagram accepts
        TableP B = mk(randomTable(rng, randomParam(rng, AR, 7, 5)));
        DdStructure<AR> built; std::string text; char const* what = "";
        bool named = rng.coin();
        auto both = [&](auto const& s, char const* w) { built = DdStructure<AR>(s); text = dumpBy(rng, s, title); what = w; };
        int k = (int) rng.below(AR == 2 ? 10 : 4);
        if (k < 2 && named) { if (k == 0) both(zddLookahead(NamedSpec<AR>(T)), "zddLookahead"); else both(bddLookahead(NamedSpec<AR>(T)), "bddLookahead"); }
        else if (k == 0) both(zddLookahead(ScalarSpec<AR>(T)), "zddLookahead");
        else if (k == 1) both(bddLookahead(PodSpec<short, AR>(T, 5)), "bddLookahead");
        else if (k == 2) both(zddUnreduction(ScalarSpec<AR>(T), T->n + 1), "zddUnreduction");
        else if (k == 3) both(bddUnreduction(ScalarSpec<AR>(T), T->n), "bddUnreduction");
        else if constexpr (AR == 2) {
            if (k == 4) both(zddUnion(ScalarSpec<2>(T), PodSpec<char, 2>(B, 6)), "zddUnion");
            else if (k == 5) both(zddIntersection(ScalarSpec<2>(T), HybSpec<int, short, 2>(B, 6)), "zddIntersection");
            else if (k == 6) both(bddAnd(ScalarSpec<2>(T), ScalarSpec<2>(B)), "bddAnd");
            else if (k == 7) both(bddOr(ScalarSpec<2>(T), SaltSpec<2>(B, 2)), "bddOr");
            else { // more than two operands
                ScalarSpec<2> a(T), b(B); PodSpec<short, 2> c(rng.coin() ? T : B, 4);
                switch (rng.below(4)) {
                case 0: both(zddUnion(a, c, b), "zddUnion of three"); break;
                case 1: both(zddIntersection(a, b, c), "zddIntersection of three"); break;
                case 2: both(bddAnd(c, a, b), "bddAnd of three"); break;
                default: both(bddOr(a, b, c), "bddOr of three"); break;
                }
            }
        }
        Dot D = parseDot(text);
        Canon C(PATH, AR);
        int want = canonDD(C, built, AR), got;
        if (D.rootEdge.empty()) got = 0;
        else if (D.square.count(D.rootEdge[0])) got = 1;
        else {
            int top = 0;
            for (auto& l : D.levelLabel) top = std::max(top, l.first);
            std::map<std::string, Ref> where;
            Table U = dotTable(D, AR, where, top);
            REQUIRE(where.count(D.rootEdge[0]), "dot-root", what << ": root edge to an undeclared node");
            U.root = where[D.rootEdge[0]];
            got = canonTable(C, U);
            if (k < 2 && named && T->nodes() < 80) { // the names of the states are those of the wrapped spec
                Canon N(k == 0 ? ZDD : BDD, AR);
                for (auto& w : where) if (w.second.level > 0) {
                    std::string const& lb = D.label[w.first];
                    int s = atoi(lb.c_str());
                    REQUIRE(lb == std::to_string(s) && s >= 0 && s < (int) T->t[w.second.level].size(), "dot-label", what << ": node " << w.first << " labelled " << lb);
                    REQUIRE(canonTable(N, U, w.second) == canonTable(N, *T, Ref{w.second.level, s}), "dot-label", what << ": node " << w.first << " carries the label of another state: " << T->str() << " :: " << text);
                    count("wrapped_labels");
                }
            }
        }
        REQUIRE(got == want, "dot-composed", what << ": drawn automaton accepts something else: " << T->str() << " / " << B->str() << " :: " << text);
        count(std::string("composed:") + what);
        count("composed_dumps");
        break;
    }
    }
    if (states > 1) { nontrivial(T->hash()); count("nontrivial_cases"); }
    sample(T->str());
}

void run2(Rng&); void run3(Rng&); void run4(Rng&);
#if VF_PART == 2
void run2(Rng& rng) { if (rng.chance(0.25)) checkGraphillion(rng); else one<2>(rng); }
#elif VF_PART == 3
void run3(Rng& rng) { one<3>(rng); }
#elif VF_PART == 4
void run4(Rng& rng) { one<4>(rng); }
#else
void vf::runCase(Rng& rng) {
    int k = (int) rng.below(10);
    if (k < 7) run2(rng); else if (k < 9) run3(rng); else run4(rng);
}
VF_MAIN
#endif
