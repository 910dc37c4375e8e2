// Random graphs, texts for them, and independent combinatorial oracles.
#pragma once
#include "specs.hpp"
#include <cctype>
#include <cerrno>
#include <tdzdd/util/MessageHandler.hpp>
#include <tdzdd/util/Graph.hpp>

namespace vf {

struct GEdge { std::string a, b; };

struct GSpec { // abstract simple graph, edges in order
    std::vector<GEdge> e;
    std::vector<std::string> vs; // vertices in order of first use
    int idx(std::string const& s) const { for (size_t i = 0; i < vs.size(); ++i) if (vs[i] == s) return (int) i; return -1; }
    void fillVertices() { vs.clear(); for (auto& x : e) { if (idx(x.a) < 0) vs.push_back(x.a); if (idx(x.b) < 0) vs.push_back(x.b); } }
    std::string str() const { std::string s; for (auto& x : e) s += x.a + "-" + x.b + " "; return s; }
    uint64_t hash() const { uint64_t h = 7; for (char c : str()) h = mix64(h ^ (unsigned char) c); return h; }
};

inline GSpec randomGraph(Rng& rng, int maxEdges, bool numeric = true) {
    std::vector<std::pair<int, int> > e;
    int kind = (int) rng.below(8);
    auto add = [&](int a, int b) {
        if (a == b) return;
        for (auto& x : e) if ((x.first == a && x.second == b) || (x.first == b && x.second == a)) return;
        e.push_back({a, b});
    };
    if (kind == 0) { int r = rng.range(2, 3), c = rng.range(2, 4); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { if (j + 1 < c) add(i * c + j, i * c + j + 1); if (i + 1 < r) add(i * c + j, i * c + j + c); } }
    else if (kind == 1) { int n = rng.range(3, 5); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) add(i, j); }
    else if (kind == 2) { int n = rng.range(2, maxEdges); for (int i = 0; i + 1 < n; ++i) add(i, i + 1); if (rng.coin() && n > 2) add(n - 1, 0); for (int k = rng.below(4); k > 0; --k) add((int) rng.below(n), (int) rng.below(n)); }
    else if (kind == 3) { int n = rng.range(2, 7); for (int i = 1; i < n; ++i) add((int) rng.below(i), i); for (int k = rng.below(5); k > 0; --k) add((int) rng.below(n), (int) rng.below(n)); }
    else if (kind == 4) { int a = rng.range(1, 3), b = rng.range(1, 4); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) add(i, a + j); }
    else if (kind == 5) { int n = rng.range(4, 9), m = rng.range(2, maxEdges); for (int k = 0; k < m; ++k) add((int) rng.below(n), (int) rng.below(n)); } // sparse, often disconnected
    else if (kind == 6) { int n = rng.range(3, 6); for (int i = 1; i < n; ++i) { add(0, i); } for (int i = 1; i < n; ++i) if (rng.chance(0.8)) add(i, i % (n - 1) + 1); } // star / wheel
    else { int n = rng.range(3, 6), m = rng.range(3, maxEdges); for (int k = 0; k < m; ++k) add((int) rng.below(n), (int) rng.below(n)); } // dense
    if (e.empty()) add(0, 1);
    if (rng.chance(0.6)) for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[rng.below(i)]); // random edge order
    while ((int) e.size() > maxEdges) e.erase(e.begin() + rng.below(e.size()));
    std::map<int, std::string> name;
    int off = rng.chance(0.5) ? 1 : (int) rng.below(30);
    for (auto& x : e) for (int v : {x.first, x.second}) if (!name.count(v)) {
        if (numeric) name[v] = std::to_string(v + off);
        else { static char const* A[] = {"v", "node_", "x.", "#", "\"q", "a,b", "1", "-", "\xc3\xa9", "ABC"}; name[v] = std::string(A[rng.below(10)]) + std::to_string(v); }
    }
    std::set<std::string> uniq;
    for (auto& p : name) { while (!uniq.insert(p.second).second) p.second += "'"; }
    GSpec g;
    for (auto& x : e) { bool sw = rng.coin(); g.e.push_back({name[sw ? x.second : x.first], name[sw ? x.first : x.second]}); }
    g.fillVertices();
    return g;
}

inline void load(Graph& G, GSpec const& g) { for (auto& x : g.e) G.addEdge(x.a, x.b); G.update(); }

// subsets as bit masks over edge positions
struct Components {
    std::vector<int> p, deg, ne;
    GSpec const* g;
    std::vector<std::pair<int, int> > ends;
    explicit Components(GSpec const& g_) : g(&g_) { for (auto& x : g->e) ends.push_back({g->idx(x.a), g->idx(x.b)}); }
    int find(int v) { while (p[v] != v) v = p[v] = p[p[v]]; return v; }
    bool loop;
    void set(uint32_t mask) {
        int n = (int) g->vs.size();
        p.resize(n); deg.assign(n, 0); ne.assign(n, 0); loop = false;
        for (int i = 0; i < n; ++i) p[i] = i;
        for (size_t k = 0; k < ends.size(); ++k) if (mask >> k & 1) {
            int a = find(ends[k].first), b = find(ends[k].second);
            ++deg[ends[k].first]; ++deg[ends[k].second];
            if (a == b) loop = true; else p[a] = b;
        }
        for (size_t k = 0; k < ends.size(); ++k) if (mask >> k & 1) ++ne[find(ends[k].first)];
    }
};

// family of a diagram over m edges: bit k of a mask is edge k, i.e. level m-k
template<typename DD>
std::vector<bool> edgeFamily(DD const& dd, int m) {
    std::vector<bool> r(size_t(1) << m);
    std::vector<int> v(m + 1);
    for (uint32_t mask = 0; mask < (1u << m); ++mask) {
        for (int k = 0; k < m; ++k) v[m - k] = mask >> k & 1;
        r[mask] = evalDD(dd, v, true, m);
    }
    return r;
}
inline std::string firstDiff(std::vector<bool> const& got, std::vector<bool> const& want, int m) {
    for (size_t x = 0; x < got.size(); ++x) if (got[x] != want[x]) {
        std::string s = got[x] ? "contains " : "lacks ";
        for (int k = 0; k < m; ++k) if (x >> k & 1) s += "e" + std::to_string(k) + " ";
        return s;
    }
    return "";
}
inline size_t popcnt(std::vector<bool> const& v) { size_t n = 0; for (bool b : v) n += b; return n; }

// builds the family of a spec in several ways and compares
// (defective: the family a recorded finding yields instead, reported under the key of that finding)
template<typename SPEC>
void checkFamily(Rng& rng, SPEC const& spec, int m, std::vector<bool> const& right, std::string const& key, std::string const& what, std::vector<bool> const* defective = 0, std::string const& finding = "") {
    std::vector<bool> want = right;
    bool mp = rng.chance(0.3);
    if (mp) chooseThreads(rng);
    DdStructure<2> dd(spec, mp);
    if (rng.coin()) dd.zddReduce();
    if (rng.chance(0.2)) { DdStructure<2> u(m, mp); u.zddSubset(spec); dd = u; }
    std::vector<bool> got = edgeFamily(dd, m);
    if (defective && got == *defective && got != want) {
        softfail(finding, what + ": " + firstDiff(got, want, m) + "(got " + std::to_string(popcnt(got)) + " sets, expected " + std::to_string(popcnt(want)) + ")");
        want = got;
    }
    if (got != want) fail(key, what + ": " + firstDiff(got, want, m) + "(got " + std::to_string(popcnt(got)) + " sets, expected " + std::to_string(popcnt(want)) + ")");
    if (dd.zddCardinality() != std::to_string(popcnt(want))) fail(key + ":count", what + ": cardinality " + dd.zddCardinality() + ", expected " + std::to_string(popcnt(want)));
    count("families");
    if (mp) count("mp_builds");
    size_t k = popcnt(want);
    if (k > 0 && k < want.size()) count("proper_families");
}

} // namespace vf
