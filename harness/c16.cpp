// C16: path and cycle specs contain exactly the paths and cycles.
#include "graphs.hpp"
#include <map>
#include <tdzdd/spec/PathZdd.hpp>
#include <tdzdd/spec/PathZddByStdMap.hpp>
using namespace vf;

// vertex-disjoint paths, one for each pair, nothing else
static bool isPaths(Components& C, uint32_t mask, std::vector<std::pair<int, int> > const& pairs, bool hamilton) {
    C.set(mask);
    if (C.loop) return false;
    int n = (int) C.g->vs.size();
    std::vector<int> want(n, -1);
    std::set<int> roots;
    for (auto& p : pairs) {
        if (C.find(p.first) != C.find(p.second)) return false;
        if (C.deg[p.first] != 1 || C.deg[p.second] != 1) return false;
        if (!roots.insert(C.find(p.first)).second) return false;
        want[p.first] = want[p.second] = 1;
    }
    for (int v = 0; v < n; ++v) {
        if (want[v] == 1) continue;
        if (C.deg[v] == 0) { if (hamilton) return false; continue; }
        if (C.deg[v] != 2 || !roots.count(C.find(v))) return false;
    }
    return true;
}
static bool isCycle(Components& C, uint32_t mask, bool hamilton) {
    if (mask == 0) return false;
    C.set(mask);
    int n = (int) C.g->vs.size(), root = -1;
    for (int v = 0; v < n; ++v) {
        if (C.deg[v] == 0) { if (hamilton) return false; continue; }
        if (C.deg[v] != 2) return false;
        if (root < 0) root = C.find(v); else if (C.find(v) != root) return false;
    }
    return true;
}

// What the recorded finding hamilton:vertex-outside-frontier accepts instead: when the last edge of the set is
// taken only the vertices in the frontier window are inspected, so that later vertices may be missed
// (and, for cycles, the first vertex of the window).
static std::vector<bool> hamiltonWindow(Components& C, Graph& G, GSpec const& g, std::vector<bool> const& plain, bool cycle) {
    int m = (int) g.e.size(), n = (int) g.vs.size();
    std::vector<int> num(n), last(n, -1), last2(n, -1);
    for (int v = 0; v < n; ++v) num[v] = G.getVertex(g.vs[v]);
    for (int k = 0; k < m; ++k) for (int v : {C.ends[k].first, C.ends[k].second}) { last2[v] = last[v]; last[v] = k; }
    int w = G.maxFrontierSize();
    std::vector<bool> r(plain.size(), false);
    for (uint32_t x = 0; x < plain.size(); ++x) if (plain[x]) {
        C.set(x);
        int a = m - 1;
        while (a >= 0 && !(x >> a & 1)) --a;
        if (a < 0) continue;
        int v0 = G.edgeInfo(a).v0;
        bool ok = true;
        for (int v = 0; v < n; ++v) if (C.deg[v] == 0) {
            if (num[v] >= v0 + w) continue;
            if (cycle && num[v] == v0 && !(last2[v] >= 0 && last2[v] < a)) continue;
            ok = false;
        }
        r[x] = ok;
    }
    return r;
}
// What the recorded finding path-stdmap:several-pairs accepts instead: sets that form one single cycle together
// with an imaginary edge between the two ends of every pair.
static std::vector<bool> oneCycleThroughPairs(Components& C, GSpec const& g, std::vector<std::pair<int, int> > const& pairs) {
    int m = (int) g.e.size(), n = (int) g.vs.size();
    std::vector<bool> r(1u << m, false);
    for (uint32_t x = 0; x < r.size(); ++x) {
        C.set(x);
        std::vector<int> deg = C.deg;
        std::set<int> roots;
        for (auto& p : pairs) { ++deg[p.first]; ++deg[p.second]; int a = C.find(p.first), b = C.find(p.second); if (a != b) C.p[a] = b; }
        bool ok = x != 0;
        for (int v = 0; v < n; ++v) { if (deg[v] != 0 && deg[v] != 2) ok = false; if (deg[v]) roots.insert(C.find(v)); }
        r[x] = ok && roots.size() == 1;
    }
    return r;
}

void vf::runCase(Rng& rng) {
    GSpec g = randomGraph(rng, rng.chance(0.3) ? 13 : 10, rng.coin());
    if (rng.chance(0.02)) { g.e.clear(); g.fillVertices(); }
    int m = (int) g.e.size(), n = (int) g.vs.size();
    Components C(g);
    Graph G;
    load(G, g);
    bool look = rng.coin();
    std::string desc = g.str() + (look ? "[look-ahead] " : "[no look-ahead] ");
    if (m == 0) {
        static int probes = 0;
        count("empty_graphs");
        if (probes++ >= 2) return;
        bool ok = survives([&] {
            bool r = true;
            { DdStructure<2> dd(PathZdd(G, look)); r = r && dd.zddCardinality() == "0"; }
            { DdStructure<2> dd(HamiltonPathZdd(G, look)); r = r && dd.zddCardinality() == "0"; }
            { DdStructure<2> dd(CycleZdd(G, look)); r = r && dd.zddCardinality() == "0"; }
            { DdStructure<2> dd(HamiltonCycleZdd(G, look)); r = r && dd.zddCardinality() == "0"; }
            return r;
        });
        if (!ok) softfail("empty-graph", "path and cycle specs of a graph without edges crash or yield a set");
        return;
    }
    { // cycles need no colours
        std::vector<bool> cy(1u << m), hc(1u << m);
        for (uint32_t x = 0; x < (1u << m); ++x) { cy[x] = isCycle(C, x, false); hc[x] = cy[x] && isCycle(C, x, true); }
        std::vector<bool> hcBad = hamiltonWindow(C, G, g, cy, true);
        if (hcBad != hc) count("hamilton_window_matters");
        checkFamily(rng, CycleZdd(G, look), m, cy, "cycle", "cycles of " + desc);
        checkFamily(rng, HamiltonCycleZdd(G, look), m, hc, "hamilton-cycle", "Hamiltonian cycles of " + desc, &hcBad, "hamilton:vertex-outside-frontier");
        if (rng.coin()) checkFamily(rng, PathZddByStdMap(G), m, cy, "cycle-stdmap", "cycles (map-based) of " + desc);
        if (popcnt(cy)) count("graphs_with_cycles");
        if (popcnt(hc)) count("graphs_with_hamilton_cycles");
    }
    { // no colours: no path
        std::vector<bool> none(1u << m, false);
        if (rng.chance(0.1)) checkFamily(rng, PathZdd(G, look), m, none, "path-uncolored", "paths of uncoloured " + desc);
    }
    std::vector<int> perm(n);
    for (int i = 0; i < n; ++i) perm[i] = i;
    for (int i = n; i > 1; --i) std::swap(perm[i - 1], perm[rng.below(i)]);
    int np = std::min(n / 2, rng.chance(0.6) ? 1 : rng.range(1, 3));
    std::vector<std::pair<int, int> > pairs;
    for (int k = 0; k < np; ++k) {
        pairs.push_back({perm[2 * k], perm[2 * k + 1]});
        std::string c = "col" + std::to_string(rng.coin() ? k : 9 - k);
        for (int v : {perm[2 * k], perm[2 * k + 1]}) { G.setColor(g.vs[v], c); }
        desc += g.vs[perm[2 * k]] + "~" + g.vs[perm[2 * k + 1]] + " ";
    }
    // colour names may have collided (k and 9-k never do for k < 3)
    G.update();
    std::vector<bool> pa(1u << m), hp(1u << m);
    for (uint32_t x = 0; x < (1u << m); ++x) { pa[x] = isPaths(C, x, pairs, false); hp[x] = pa[x] && isPaths(C, x, pairs, true); }
    std::string k = np > 1 ? "s" : "";
    std::vector<bool> hpBad = hamiltonWindow(C, G, g, pa, false);
    if (hpBad != hp) count("hamilton_window_matters");
    checkFamily(rng, PathZdd(G, look), m, pa, "path" + k, "paths of " + desc);
    checkFamily(rng, HamiltonPathZdd(G, look), m, hp, "hamilton-path" + k, "Hamiltonian paths of " + desc, &hpBad, "hamilton:vertex-outside-frontier");
    std::vector<bool> joined;
    if (np > 1) { joined = oneCycleThroughPairs(C, g, pairs); count("several_pairs"); }
    checkFamily(rng, PathZddByStdMap(G), m, pa, "path-stdmap" + k, "paths (map-based) of " + desc, np > 1 ? &joined : 0, "path-stdmap:several-pairs");
    if (popcnt(pa)) count("graphs_with_paths");
    if (popcnt(hp)) count("graphs_with_hamilton_paths");
    if (popcnt(pa) > 1) { nontrivial(g.hash() ^ mix64(pairs[0].first * 64 + pairs[0].second) ^ np); count("nontrivial_cases"); }
    maxcount("edges", m); maxcount("vertices", n);
    sample(desc + ": " + std::to_string(popcnt(pa)) + " paths");
}
VF_MAIN
