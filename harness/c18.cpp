// C18: degree, size and linear constraints accept exactly what they state.
#include "graphs.hpp"
#include <climits>
#include <tdzdd/spec/DegreeConstraint.hpp>
#include <tdzdd/spec/SizeConstraint.hpp>
#include <tdzdd/spec/LinearConstraints.hpp>
#include <tdzdd/util/IntSubset.hpp>
using namespace vf;

// an arbitrary finite set with honest (not necessarily tight) bounds
struct AnySet : public IntSubset {
    std::set<int> s; int lo, hi;
    bool contains(int x) const { return s.count(x) != 0; }
    int lowerBound() const { return lo; }
    int upperBound() const { return hi; }
};
// one that states no bounds of its own
struct LooseSet : public IntSubset {
    std::set<int> s;
    bool contains(int x) const { return s.count(x) != 0; }
};
static IntSubset* randomSet(Rng& rng, int maxVal, std::function<bool(int)>& in, std::string& d) {
    std::ostringstream o;
    IntSubset* r;
    if (rng.chance(0.15)) {
        LooseSet* a = new LooseSet;
        for (int x = 0; x <= maxVal; ++x) if (rng.chance(0.5)) a->s.insert(x);
        o << "any{"; for (int x : a->s) o << x << " "; o << "}";
        std::set<int> s = a->s;
        in = [s](int x) { return s.count(x) != 0; };
        r = a;
        count("sets_without_bounds");
    }
    else if (rng.coin()) {
        AnySet* a = new AnySet;
        for (int x = 0; x <= maxVal; ++x) if (rng.chance(0.4)) a->s.insert(x);
        a->lo = a->s.empty() ? (rng.coin() ? 0 : maxVal) : *a->s.begin() - (rng.coin() ? 0 : 1);
        a->hi = a->s.empty() ? maxVal : *a->s.rbegin() + (rng.coin() ? 0 : 2);
        o << "{"; for (int x : a->s) o << x << " "; o << "}";
        std::set<int> s = a->s;
        in = [s](int x) { return s.count(x) != 0; };
        r = a;
    }
    else {
        int lo = rng.range(0, maxVal + 1), hi = rng.chance(0.3) ? INT_MAX : lo + rng.range(-1, maxVal), st = rng.range(1, 4);
        if (rng.chance(0.1)) { lo = -rng.range(0, 3); }
        o << "[" << lo << ".." << hi << " step " << st << "]";
        in = [lo, hi, st](int x) { return x >= lo && x <= hi && (x - lo) % st == 0; };
        r = new IntRange(lo, hi, st);
    }
    d += o.str();
    return r;
}

static void degree(Rng& rng) {
    GSpec g = randomGraph(rng, rng.chance(0.3) ? 12 : 9, rng.coin());
    if (rng.chance(0.02)) { g.e.clear(); g.fillVertices(); }
    int m = (int) g.e.size(), n = (int) g.vs.size();
    Components C(g);
    Graph G;
    load(G, g);
    bool look = rng.coin();
    std::string desc = "degree " + g.str() + (look ? "lookahead " : "");
    std::vector<std::unique_ptr<IntSubset> > keep;
    std::vector<std::function<bool(int)> > f(n);
    std::vector<bool> has(n, false);
    std::function<bool(int)> def;
    IntSubset* d = 0;
    if (rng.coin()) { desc += "all:"; d = randomSet(rng, 3, def, desc); keep.emplace_back(d); for (int v = 0; v < n; ++v) { f[v] = def; has[v] = true; } }
    DegreeConstraint dc(G, d, look);
    for (int v = 0; v < n; ++v) if (rng.chance(0.4)) {
        std::function<bool(int)> h;
        IntSubset* s = 0;
        desc += " " + g.vs[v] + ":";
        if (rng.chance(0.15)) { desc += "free"; has[v] = false; }
        else { s = randomSet(rng, 4, h, desc); keep.emplace_back(s); has[v] = true; f[v] = h; }
        if (rng.coin()) dc.setConstraint(g.vs[v], s); else dc.setConstraint(G.getVertex(g.vs[v]), s);
    }
    std::vector<bool> want(1u << m);
    for (uint32_t x = 0; x < (1u << m); ++x) {
        C.set(x);
        bool ok = true;
        for (int v = 0; v < n && ok; ++v) if (has[v] && !f[v](C.deg[v])) ok = false;
        want[x] = ok;
    }
    std::vector<bool> none(1u << m, false);
    checkFamily(rng, dc, m, want, "degree", desc, m == 0 ? &none : 0, "degree:empty-graph");
    bool threw = false;
    try { dc.setConstraint(n + 1, 0); } catch (std::runtime_error&) { threw = true; }
    if (!threw) fail("degree:range", "a constraint for an unknown vertex was accepted");
    count("degree");
    size_t k = popcnt(want);
    if (k > 0 && k < want.size()) { nontrivial(std::hash<std::string>()(desc)); count("nontrivial_degree"); }
    sample(desc);
}

static void size(Rng& rng) {
    int n = rng.range(1, 12);
    std::function<bool(int)> h;
    std::string desc = "size n=" + std::to_string(n) + " ";
    std::unique_ptr<IntSubset> s;
    bool free = rng.chance(0.1);
    if (free) h = [](int) { return true; };
    else s.reset(randomSet(rng, rng.coin() ? n : n + 3, h, desc));
    std::vector<bool> want(1u << n);
    for (uint32_t x = 0; x < (1u << n); ++x) want[x] = h(__builtin_popcount(x));
    if (free || rng.coin()) checkFamily(rng, SizeConstraint(n, s.get()), n, want, "size", desc);
    else checkFamily(rng, SizeConstraint(n, *s), n, want, "size", desc);
    count("size");
    size_t k = popcnt(want);
    if (k > 0 && k < want.size()) { nontrivial(std::hash<std::string>()(desc)); count("nontrivial_size"); }
    sample(desc);
}

template<typename T>
static void linear(Rng& rng, char const* tn) {
    int n = rng.range(1, 10), k = rng.range(0, 5);
    std::ostringstream d;
    d << "linear<" << tn << "> n=" << n;
    LinearConstraints<T> lc(n);
    struct Con { std::map<int, T> e; T lb, ub; };
    std::vector<Con> cs;
    int mag = rng.coin() ? 3 : 50;
    for (int j = 0; j < k; ++j) {
        Con c;
        double p = rng.coin() ? 0.3 : 0.8;
        int lo = 0, hi = 0;
        for (int i = 1; i <= n; ++i) if (rng.chance(p)) { int w = rng.range(-mag, mag); if (rng.chance(0.5)) w = abs(w); c.e[i] = (T) w; if (w > 0) hi += w; else lo += w; }
        int a = rng.range(lo - 2, hi + 2), b = a + (rng.chance(0.3) ? 0 : rng.range(0, std::max(1, (hi - lo) / 2)));
        if (rng.chance(0.1)) a = lo - 5;
        if (rng.chance(0.1)) b = hi + 5;
        if (rng.chance(0.03)) b = a - 1;
        if (rng.chance(0.7) && !(a <= hi && lo <= b)) { a = lo; b = (lo + hi) / 2; }
        c.lb = (T) a; c.ub = (T) b;
        lc.addConstraint(c.e, c.lb, c.ub);
        cs.push_back(c);
        d << " ; " << a << "<=";
        for (auto& t : c.e) d << " " << t.second << "*x" << t.first;
        d << "<=" << b;
    }
    lc.update();
    std::vector<bool> want(1u << n);
    for (uint32_t x = 0; x < (1u << n); ++x) {
        bool ok = true;
        for (auto& c : cs) { T s = 0; for (auto& t : c.e) if (x >> (n - t.first) & 1) s += t.second; if (s < c.lb || s > c.ub) ok = false; }
        want[x] = ok; // bit k of x is level n-k
    }
    checkFamily(rng, lc, n, want, "linear", d.str());
    if (rng.chance(0.3)) checkFamily(rng, zddLookahead(lc), n, want, "linear:lookahead", d.str());
    count("linear");
    size_t q = popcnt(want);
    if (q > 0 && q < want.size()) { nontrivial(std::hash<std::string>()(d.str())); count("nontrivial_linear"); }
    if (q == 0) count("unsatisfiable_systems");
    sample(d.str());
}

void vf::runCase(Rng& rng) {
    switch (rng.below(8)) {
    case 0: case 1: case 2: degree(rng); break;
    case 3: case 4: size(rng); break;
    case 5: linear<int>(rng, "int"); break;
    case 6: linear<double>(rng, "double"); break;
    default: linear<long>(rng, "long"); break;
    }
}
VF_MAIN
