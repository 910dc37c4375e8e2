// C17: frontier-based search yields exactly the constrained subgraphs.
#include "graphs.hpp"
#include <tdzdd/spec/FrontierBasedSearch.hpp>
using namespace vf;

void vf::runCase(Rng& rng) {
    GSpec g = randomGraph(rng, rng.chance(0.3) ? 12 : 9, rng.coin());
    if (rng.chance(0.02)) { g.e.clear(); g.fillVertices(); }
    int m = (int) g.e.size(), n = (int) g.vs.size();
    Components C(g);
    Graph G;
    load(G, g);
    std::vector<int> color(n, 0);
    int colors = m == 0 || rng.chance(0.25) ? 0 : rng.range(1, 3);
    std::string desc = g.str();
    if (colors) {
        double p = rng.coin() ? 0.4 : 0.8;
        for (int v = 0; v < n; ++v) if (rng.chance(p)) { color[v] = rng.range(1, colors); G.setColor(g.vs[v], "c" + std::to_string(color[v])); desc += g.vs[v] + ":" + std::to_string(color[v]) + " "; }
        G.update();
    }
    int uec = rng.chance(0.3) ? -1 : rng.range(0, 3);
    bool noLoop = rng.coin(), look = rng.coin();
    desc += "uec=" + std::to_string(uec) + (noLoop ? " noLoop" : "") + (look ? " lookahead" : "");
    if (m == 0) {
        static int probes = 0;
        count("empty_graphs");
        if (probes++ >= 2) return;
        if (!survives([&] { DdStructure<2> dd(FrontierBasedSearch(G, uec, noLoop, look)); return dd.zddCardinality() == (uec <= 0 ? "1" : "0"); }))
            softfail("empty-graph", "frontier-based search on a graph without edges crashes or is wrong");
        return;
    }
    std::vector<bool> want(1u << m);
    for (uint32_t x = 0; x < (1u << m); ++x) {
        C.set(x);
        bool ok = !(noLoop && C.loop);
        std::map<int, int> rootOfColor, colorOfRoot;
        for (int v = 0; v < n && ok; ++v) if (color[v]) {
            int r = C.find(v);
            if (rootOfColor.count(color[v]) && rootOfColor[color[v]] != r) ok = false;
            if (colorOfRoot.count(r) && colorOfRoot[r] != color[v]) ok = false;
            rootOfColor[color[v]] = r; colorOfRoot[r] = color[v];
        }
        if (ok && uec >= 0) {
            int k = 0;
            for (int v = 0; v < n; ++v) if (C.find(v) == v && C.ne[v] > 0 && !colorOfRoot.count(v)) ++k;
            ok = k == uec;
        }
        want[x] = ok;
    }
    checkFamily(rng, FrontierBasedSearch(G, uec, noLoop, look), m, want, std::string("fbs") + (colors ? ":colored" : ""), desc);
    if (rng.chance(0.3)) checkFamily(rng, FrontierBasedSearch(G, uec, noLoop, !look), m, want, std::string("fbs:other-lookahead") + (colors ? ":colored" : ""), desc);
    if (colors) count("colored");
    if (uec >= 0) count("counted_components");
    if (noLoop) count("acyclic");
    size_t k = popcnt(want);
    if (k > 0 && k < want.size()) { nontrivial(mix64(g.hash()) ^ std::hash<std::string>()(desc)); count("nontrivial_cases"); }
    if (k == 0) count("empty_families");
    sample(desc + ": " + std::to_string(k) + " subgraphs");
}
VF_MAIN
