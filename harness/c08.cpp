// PARTS: 0 2 3 4
// C08: bottom-up evaluation, observed by a monitoring evaluator.
#include "specs.hpp"
using namespace vf;

// one trace monitor per evaluation, shared by all evaluator copies
struct Trace {
    std::mutex mu;
    int arity, height;
    bool threadSafe;
    Canon C;
    int instances = 0;
    std::map<int, int> initialised;               // instance -> level
    std::map<int, std::set<int> > finished;       // instance -> levels announced
    std::set<int> finishedAny;
    std::set<int> active;                         // instances that were driven at all
    bool terminal[2] = {false, false};
    std::map<std::vector<int64_t>, uint64_t> evaluated; // (level, child ids) -> times
    uint64_t calls = 0;
    int results = 0;
    std::string error;
    std::unordered_set<void const*> liveVals;
    uint64_t created = 0;
    Trace(int ar, int h, bool safe) : arity(ar), height(h), threadSafe(safe), C(PATH, ar) {}
    void err(std::string const& e) { if (error.empty()) error = e; }
};

struct Val {
    Trace** home; // heap cell: catches bitwise copies and use after destruction
    int level = -1, id = -1;
    static Trace*& cur() { static Trace* t = 0; return t; }
    Val() : home(new Trace*(cur())) { std::lock_guard<std::mutex> g((*home)->mu); (*home)->liveVals.insert(this); ++(*home)->created; }
    Val(Val const& o) : home(new Trace*(*o.home)), level(o.level), id(o.id) { std::lock_guard<std::mutex> g((*home)->mu); if (!(*home)->liveVals.count(&o)) (*home)->err("copy of a dead value"); (*home)->liveVals.insert(this); ++(*home)->created; }
    Val& operator=(Val const& o) { level = o.level; id = o.id; return *this; }
    ~Val() { { std::lock_guard<std::mutex> g((*home)->mu); if (!(*home)->liveVals.erase(this)) (*home)->err("value destroyed twice"); } delete home; home = 0; }
};

inline std::ostream& operator<<(std::ostream& os, Val const& v) { return os << "<" << v.id << ">"; }

struct Result { int id; Result(int i = -9) : id(i) {} explicit Result(Val const& v) : id(v.id) {} };

template<int AR>
class Mon : public DdEval<Mon<AR>, Val, Result> {
    Trace* t; int inst;
    void drive() const { t->active.insert(inst); }
public:
    explicit Mon(Trace* t) : t(t), inst(0) {}
    Mon(Mon const& o) : t(o.t) { std::lock_guard<std::mutex> g(t->mu); inst = ++t->instances; }
    bool isThreadSafe() const { return t->threadSafe; }
    void initialize(int level) {
        std::lock_guard<std::mutex> g(t->mu);
        drive();
        if (t->initialised.count(inst)) t->err("evaluator initialised twice");
        t->initialised[inst] = level;
        if (level != t->height) t->err("initialised with level " + std::to_string(level) + " instead of the height " + std::to_string(t->height));
    }
    void evalTerminal(Val& v, int id) {
        std::lock_guard<std::mutex> g(t->mu);
        drive();
        if (!t->initialised.count(inst)) t->err("evalTerminal before initialize");
        if (id < 0 || id > 1) { t->err("unknown terminal"); return; }
        if (!t->liveVals.count(&v)) t->err("terminal value is not live");
        if (t->terminal[id]) t->err("terminal evaluated twice");
        t->terminal[id] = true;
        v.level = 0; v.id = id;
    }
    void evalNode(Val& v, int level, DdValues<Val, AR> const& c) {
        yieldPoint();
        std::lock_guard<std::mutex> g(t->mu);
        drive();
        auto it = t->initialised.find(inst);
        if (it == t->initialised.end()) t->err("evalNode before initialize");
        if (level < 1 || level > t->height) t->err("evalNode for an impossible level");
        if (!t->liveVals.count(&v)) { t->err("node value is not live"); return; }
        if (v.id != -1) t->err("node evaluated twice");
        if (t->finishedAny.count(level)) t->err("node of a level that was announced as finished");
        std::vector<int64_t> ch(AR);
        for (int b = 0; b < AR; ++b) {
            Val const& x = c.get(b);
            int l = c.getLevel(b);
            if (!t->liveVals.count(&x)) { t->err("child value is not live"); return; }
            if (x.id == -1) { t->err("child value read before the child was evaluated"); return; }
            if (x.level != l) t->err("child level " + std::to_string(l) + " but the value belongs to level " + std::to_string(x.level));
            if (l >= level) t->err("child is not below its parent");
            if (l > 0 && t->finishedAny.count(l)) t->err("level " + std::to_string(l) + " was announced as finished but is still referred to");
            if (l == 0 && !t->terminal[x.id & 1]) t->err("terminal not evaluated first");
            ch[b] = x.id;
        }
        if (t->calls % 16 == 0) { // a collection of child values prints value@level of every child
            std::ostringstream got, want;
            got << c;
            for (int b = 0; b < AR; ++b) want << (b ? "," : "(") << "<" << c.get(b).id << ">@" << c.getLevel(b);
            want << ")";
            if (got.str() != want.str()) t->err("child values are printed as " + got.str() + " instead of " + want.str());
        }
        v.level = level;
        v.id = t->C.make(level, ch);
        ch.push_back(level);
        ++t->evaluated[ch];
        ++t->calls;
    }
    Result getValue(Val const& v) {
        std::lock_guard<std::mutex> g(t->mu);
        drive();
        ++t->results;
        if (!t->liveVals.count(&v)) { t->err("root value is not live"); return Result(-8); }
        if (v.level != t->height) t->err("getValue got a value that is not the root's");
        return Result(v.id);
    }
    void destructLevel(int i) {
        std::lock_guard<std::mutex> g(t->mu);
        drive();
        if (i < 0 || i >= std::max(1, t->height)) t->err("impossible level announced as finished");
        if (!t->finished[inst].insert(i).second) t->err("level announced as finished twice to one evaluator");
        t->finishedAny.insert(i);
    }
};

template<int AR>
static void one(Rng& rng) {
    bool big = rng.chance(0.05);
    TableParam p = randomParam(rng, AR, big ? 30 : 10, big ? 120 : 7);
    if (rng.chance(0.6)) { p.rootTop = true; p.pZero = 0.1; p.pDead = 0; }
    stretch(rng, p, 0.03, 300, 300);
    TableP T = mk(randomTable(rng, p));
    bool mp = rng.coin();
    chooseThreads(rng);
    DdStructure<AR> dd = rng.coin() ? DdStructure<AR>(ScalarSpec<AR>(T), rng.coin()) : DdStructure<AR>(SaltSpec<AR>(T, 3), rng.coin());
    switch ((int) rng.below(5)) { case 0: dd.zddReduce(); break; case 1: dd.bddReduce(); break; case 2: dd.qddReduce(); break; default:; }
    if (rng.chance(0.1)) { DdStructure<AR> u(dd.topLevel()); dd.zddSubset(u); }
    dd.useMultiProcessors(mp);
    DdStructure<AR> other; // keep the table shared sometimes
    if (rng.coin()) other = dd;
    bool safe = rng.chance(0.6);
    int reps = rng.range(1, 2);
    std::string log = std::string(mp ? "mp " : "serial ") + (safe ? "safe " : "unsafe ") + T->str();
    for (int k = 0; k < reps; ++k) {
        Trace t(AR, dd.topLevel(), safe);
        Val::cur() = &t;
        Result r;
        {
            Mon<AR> m(&t);
            r = dd.evaluate(m);
            if (t.error.empty() && !t.liveVals.empty()) t.err("values alive after the evaluation");
        }
        Val::cur() = 0;
        std::string tag = mp && safe ? "-mp" : "";
        if (!t.error.empty()) fail("event" + tag, t.error + ": " + log);
        size_t reach = 0;
        int want = canonDD(t.C, dd, AR, &reach);
        if (r.id != want) fail("result" + tag, "result is not the value of the root: " + log);
        REQUIRE(t.results == 1, "getValue" + tag, "getValue called " << t.results << " times: " << log);
        REQUIRE(t.terminal[0] && t.terminal[1], "terminals" + tag, "a terminal was not evaluated: " << log);
        if (!safe && t.active.size() > 1) fail("unsafe-shared", "a not thread-safe evaluator was driven through several copies: " + log);
        // every reachable node was evaluated, and nothing more often than it is stored
        auto lv = Walker<DdStructure<AR> >::collect(dd, AR, reach);
        typedef typename std::decay<decltype(static_cast<DdStructure<AR> const&>(dd).root())>::type N;
        std::map<std::vector<int64_t>, uint64_t> need;
        std::unordered_map<uint64_t, int> id;
        for (size_t i = 1; i < lv.size(); ++i) for (auto& e : lv[i]) {
            std::vector<int64_t> ch(AR);
            for (int b = 0; b < AR; ++b) { N g = dd.child(N((uint64_t) i, e.first), b); ch[b] = g.row() ? id.at(Walker<DdStructure<AR> >::keyOf(g.row(), g.col())) : (int) g.col(); }
            id[Walker<DdStructure<AR> >::keyOf((int) i, e.first)] = t.C.make((int) i, ch);
            ch.push_back(i);
            ++need[ch];
        }
        for (auto& e : need) if (t.evaluated[e.first] < e.second) fail("missed" + tag, "a reachable node was not evaluated: " + log);
        REQUIRE(t.calls <= dd.size(), "extra" + tag, "more evaluations than nodes: " << log);
        count("node_events", t.calls);
        count("values_created", t.created);
        for (auto& f : t.finished) count("level_finished_events", f.second.size());
        if (t.instances > 1 && mp && safe) count("mp_evaluations");
        if (!safe && mp) count("unsafe_in_mp_mode");
    }
    count("evaluations");
    if (dd.topLevel() > 0) { nontrivial(mix64(T->hash() ^ mp ^ safe * 2)); count("nontrivial_cases"); }
    sample(log);
}

void run2(Rng&); void run3(Rng&); void run4(Rng&);
#if VF_PART == 2
void run2(Rng& rng) { one<2>(rng); }
#elif VF_PART == 3
void run3(Rng& rng) { one<3>(rng); }
#elif VF_PART == 4
void run4(Rng& rng) { one<7>(rng); }
#else
void vf::runCase(Rng& rng) { int k = (int) rng.below(10); if (k < 6) run2(rng); else if (k < 9) run3(rng); else run4(rng); }
VF_MAIN
#endif
