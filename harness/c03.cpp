// PARTS: 0 2 3 4
// C03/C04: a program of diagram operations gives the same results in
// multi-processor mode, on any number of threads and any schedule, as in
// sequential mode.  Under ThreadSanitizer the same workload is the race monitor.
#include "specs.hpp"
using namespace vf;

// thread-safe evaluator with a per-copy scratch word
template<int AR>
class HashEval : public DdEval<HashEval<AR>, uint64_t> {
    Touch touch; uint64_t salt; int top = -1; bool safe;
public:
    HashEval(uint64_t salt, bool safe) : salt(salt), safe(safe) {}
    bool isThreadSafe() const { return safe; }
    void initialize(int l) { touch(); top = l; }
    void evalTerminal(uint64_t& v, int id) { touch(); v = mix64(salt + id); }
    void evalNode(uint64_t& v, int level, DdValues<uint64_t, AR> const& c) {
        touch();
        if (top < level) fail("eval:uninitialised", "evalNode called on an evaluator that was not initialised with the height");
        uint64_t h = mix64(level * 77 + salt), zero = mix64(salt);
        bool dead = true;
        for (int b = 0; b < AR; ++b) { if (c.get(b) != zero) dead = false; h = mix64(h * 3 + c.get(b) + c.getLevel(b) * (c.get(b) != zero)); }
        v = dead ? zero : h; // dead nodes may or may not be present
    }
    uint64_t getValue(uint64_t const& v) { touch(); return v; }
    void destructLevel(int) { touch(); }
};

struct Obs { std::string op; uint64_t v; std::string s; };

// Runs the program given by seed; mp selects the mode of every operation.
template<int AR>
static void program(uint64_t seed, Rng* sched, Canon& C, std::vector<Obs>& out, std::vector<DdStructure<AR> >& var, int scale) {
    Rng rng(seed);
    bool mp = sched != 0;
    int steps = rng.range(2, 7);
    auto obs = [&](std::string const& op, uint64_t v, std::string const& s = "") { out.push_back(Obs{op, v, s}); };
    auto threads = [&]() { if (mp && sched->chance(0.6)) chooseThreads(*sched); };
    auto table = [&]() {
        TableParam p = randomParam(rng, AR, scale > 1 ? 14 : 7, scale > 1 ? (AR > 3 ? 40 : 150) : 10);
        if (rng.chance(0.6)) p.rootTop = true, p.pZero = 0.1, p.n += 2;
        if (scale > 1) stretch(rng, p, 0.15, 150, 400);
        return mk(randomTable(rng, p));
    };
    if (mp) chooseThreads(*sched);
    var.clear();
    for (int k = 0; k < steps; ++k) {
        threads();
        int op = var.empty() ? 0 : (int) rng.below(10);
        size_t at = rng.below(var.size() ? var.size() : 1);
        uint64_t r = rng.next();
        switch (op) {
        case 0: case 1: {
            TableP T = table();
            uint64_t sd = rng.next();
            Rng sub(sd);
            withSpec<AR>(sub, T, [&](auto const& spec) { var.push_back(DdStructure<AR>(spec, mp)); });
            at = var.size() - 1;
            obs("build", 0);
            break;
        }
        case 2: case 3: {
            TableP T = table();
            if (r % 3 == 0) var[at].zddSubset(ScalarSpec<AR>(T));
            else if (r % 3 == 1) var[at].zddSubset(SaltSpec<AR>(T, 1 + r / 7 % 4));
            else var[at].zddSubset(PodSpec<short, AR>(T, 5));
            obs("subset", 0);
            break;
        }
        case 4: var[at].zddReduce(); obs("zdd", 0); break;
        case 5: if (r & 1) { var[at].bddReduce(); obs("bdd", 0); } else { var[at].qddReduce(); obs("qdd", 0); } break;
        case 6: {
            int n = var[at].topLevel() + (int) (r % 3);
            if (AR == 2 || n <= 6) { DdStructure<AR> x = (r & 8) ? var[at].zdd2bdd(n) : var[at].bdd2zdd(n); var[at] = x; }
            obs("convert", 0);
            break;
        }
        case 7: { DdStructure<AR> x(var[at], mp); var.push_back(x); at = var.size() - 1; obs("rebuild", 0); break; }
        case 8: {
            if constexpr (AR == 2) {
                size_t o = r % var.size();
                DdStructure<AR> x = (r >> 8 & 1) ? DdStructure<AR>(zddUnion(var[at], var[o]), mp) : DdStructure<AR>(zddIntersection(var[at], var[o]), mp);
                var.push_back(x);
                at = var.size() - 1;
            }
            else var[at].zddSubset(var[r % var.size()]);
            obs("combine", 0);
            break;
        }
        default: var.push_back(var[at]); at = var.size() - 1; obs("copy", 0);
        }
        DdStructure<AR>& d = var[at];
        d.useMultiProcessors(mp);
        size_t reach = 0;
        obs("language", canonDD(C, d, AR, &reach));
        threads();
        obs("evaluate", d.evaluate(HashEval<AR>(r, rng.coin())));
        obs("zddCardinality", 0, d.zddCardinality());
        threads();
        DdStructure<AR> z = d;
        z.zddReduce();
        obs("reduced size", z.size());
        obs("reduced empty", z.empty());
        obs("reduced top", z.topLevel());
        if (ctx().verbose) std::cerr << out.back().op << " " << reach << "\n";
    }
    // finally all variables in all three reduced forms
    for (size_t k = 0; k < var.size(); ++k) {
        threads();
        obs("final language", canonDD(C, var[k], AR));
        int m = (int) rng.below(3);
        if (m == 0) var[k].zddReduce(); else if (m == 1) var[k].bddReduce(); else var[k].qddReduce();
        obs("final size", var[k].size());
        if (m == 1) obs("bddCardinality", 0, var[k].bddCardinality(var[k].topLevel()));
    }
}

template<int AR>
static void one(Rng& rng, int scale) {
    uint64_t seed = rng.next();
    Canon C(PATH, AR);
    std::vector<Obs> a, b;
    std::vector<DdStructure<AR> > va, vb;
    if (ctx().verbose) std::cerr << "serial\n";
    program<AR>(seed, 0, C, a, va, scale);
    int repeats = rng.chance(0.3) ? 2 : 1;
    for (int k = 0; k < repeats; ++k) {
        b.clear();
        Rng sched(rng.next());
        if (ctx().verbose) std::cerr << "mp\n";
        program<AR>(seed, &sched, C, b, vb, scale);
        REQUIRE(a.size() == b.size() && va.size() == vb.size(), "length", "different number of observations");
        for (size_t i = 0; i < a.size(); ++i)
            if (a[i].v != b[i].v || a[i].s != b[i].s) {
                std::ostringstream o;
                o << "observation " << i << " (" << a[i].op << "): sequential " << a[i].v << a[i].s << ", parallel " << b[i].v << b[i].s << "; operations:";
                for (size_t j = 0; j <= i; ++j) o << " " << a[j].op;
                fail("mode:" + a[i].op, o.str());
            }
        for (size_t i = 0; i < va.size(); ++i)
            if (!(va[i] == vb[i]) || !(vb[i] == va[i]) || va[i] != vb[i]) fail("mode:equality", "reduced results of the two modes compare unequal");
        count("parallel_runs");
    }
    count("observations", a.size());
    bool nt = false;
    for (auto& d : va) if (d.topLevel() > 0) nt = true;
    if (nt) { nontrivial(seed); count("nontrivial_cases"); }
    for (auto& x : a) if (x.op[0] != 'r' && x.op[0] != 'l' && x.op[0] != 'f') count("op:" + x.op);
#ifdef USE_SHIM
    static std::unordered_set<uint64_t> seen;
    uint64_t r, s, y, ch, h;
    shim_stats(&r, &s, &y, &ch, &h);
    if (seen.insert(h).second) count("distinct_schedules");
#endif
    std::ostringstream o;
    o << "arity " << AR << ":";
    for (size_t j = 0; j < a.size() && j < 40; ++j) o << " " << a[j].op;
    sample(o.str());
}

void run2(Rng&, int); void run3(Rng&, int); void run4(Rng&, int);
#if VF_PART == 2
void run2(Rng& rng, int s) { one<2>(rng, s); }
#elif VF_PART == 3
void run3(Rng& rng, int s) { one<3>(rng, s); }
#elif VF_PART == 4
void run4(Rng& rng, int s) { one<5>(rng, s); }
#else
void vf::runCase(Rng& rng) {
    int s = rng.chance(0.1) ? 2 : 1;
    int k = (int) rng.below(10);
    if (k < 6) run2(rng, s); else if (k < 9) run3(rng, s); else run4(rng, s);
}
VF_MAIN
#endif
