// C15: graphs are read and indexed faithfully.
#include "graphs.hpp"
using namespace vf;

static std::string tmpPath() {
    static std::string p;
    if (p.empty()) {
        char const* d = getenv("TMPDIR");
        p = std::string(d ? d : "/tmp") + "/vfc15-" + std::to_string(getpid()) + ".txt";
        atexit([] { unlink(tmpPath().c_str()); });
    }
    return p;
}
static void writeFile(std::string const& s) { std::ofstream o(tmpPath().c_str(), std::ios::binary); o << s; }

struct Expect { // independent reading of the rules
    std::vector<GEdge> e;              // merged edges in order of first appearance
    std::vector<std::string> v;        // v[1..]
    std::map<std::string, int> num;
};
static Expect expectOf(std::vector<GEdge> const& in) {
    Expect x;
    std::set<std::pair<std::string, std::string> > seen;
    for (auto& p : in) {
        auto k = p.a < p.b ? std::make_pair(p.a, p.b) : std::make_pair(p.b, p.a);
        if (seen.insert(k).second) x.e.push_back(p);
    }
    std::map<std::string, int> last;
    for (size_t i = 0; i < x.e.size(); ++i) { last[x.e[i].a] = (int) i; last[x.e[i].b] = (int) i; }
    x.v.push_back("");
    for (size_t i = 0; i < x.e.size(); ++i) { // vertices leave in this order
        if (last[x.e[i].a] == (int) i) { x.num[x.e[i].a] = (int) x.v.size(); x.v.push_back(x.e[i].a); }
        if (last[x.e[i].b] == (int) i) { x.num[x.e[i].b] = (int) x.v.size(); x.v.push_back(x.e[i].b); }
    }
    return x;
}

static void verify(Graph const& G, Expect const& x, std::map<std::string, int> const& color, std::string const& what) {
    int m = (int) x.e.size(), n = (int) x.v.size() - 1;
    if (G.edgeSize() != m || G.vertexSize() != n) fail("sizes", what + ": " + std::to_string(G.vertexSize()) + " vertices, " + std::to_string(G.edgeSize()) + " edges; expected " + std::to_string(n) + ", " + std::to_string(m));
    // the order of leaving is fixed up to vertices that leave with the same edge
    std::vector<int> last(n + 1, -1), last2(n + 1, -1);
    std::vector<std::pair<int, int> > ev(m);
    for (int a = 0; a < m; ++a) {
        int p = G.getVertex(x.e[a].a), q = G.getVertex(x.e[a].b);
        if (p < 1 || p > n || q < 1 || q > n || p == q) fail("vertex-number", what + ": vertex number out of range");
        if (G.vertexName(p) != x.e[a].a || G.vertexName(q) != x.e[a].b) fail("vertex-name", what + ": vertexName(getVertex(" + x.e[a].a + ")) differs");
        ev[a] = {std::min(p, q), std::max(p, q)};
        for (int v : {p, q}) { last2[v] = last[v]; last[v] = a; }
    }
    for (int v = 1; v <= n; ++v) if (G.vertexLabel(v) != G.vertexName(v)) fail("vertex-label", what + ": vertex " + G.vertexName(v) + " is labelled " + G.vertexLabel(v));
    { // pairs of vertices without an edge
        std::set<std::pair<int, int> > es(ev.begin(), ev.end());
        for (int k = 0, p = 1; k < 20 && n >= 2; ++k, p = p % n + 1) {
            int q = (p + k * 7) % n + 1;
            if (p == q || es.count({std::min(p, q), std::max(p, q)})) continue;
            bool threw = false;
            try { G.getEdge(p, q); } catch (std::runtime_error&) { threw = true; }
            if (!threw) fail("unknown-edge", what + ": an edge between " + G.vertexName(p) + " and " + G.vertexName(q) + " was found");
            threw = false;
            try { G.getEdge(G.vertexName(p), G.vertexName(q)); } catch (std::runtime_error&) { threw = true; }
            if (!threw) fail("unknown-edge", what + ": an edge named " + G.vertexName(p) + "," + G.vertexName(q) + " was found");
            count("absent_edges");
        }
    }
    if (G.vertexName(0) != "?" || G.vertexName(n + 1) != "?") fail("vertex-name", what + ": name of an unknown vertex");
    for (int v = 1; v < n; ++v) if (last[v] > last[v + 1]) fail("vertex-order", what + ": vertex " + G.vertexName(v) + " leaves after " + G.vertexName(v + 1));
    std::map<int, int> cfirst; // colour -> first edge
    int colors = 0;
    { std::set<int> s; for (auto& c : color) s.insert(c.second); colors = (int) s.size(); }
    std::map<int, std::vector<std::string> > byColor;
    for (auto& c : color) byColor[c.second].push_back(c.first);
    int allSeen = 0;
    for (auto& c : byColor) { int f = m; for (auto& s : c.second) for (int a = 0; a < m; ++a) if (x.e[a].a == s || x.e[a].b == s) { f = std::min(f, a); break; } allSeen = std::max(allSeen, f); }
    if (G.numColor() != colors) fail("colors", what + ": numColor " + std::to_string(G.numColor()) + ", expected " + std::to_string(colors));
    bool pairs = colors > 0;
    for (auto& c : byColor) if (c.second.size() != 2) pairs = false;
    if (G.hasColorPairs() != pairs) fail("color-pairs", what + ": hasColorPairs is wrong");
    int front = 0, v0 = 1;
    for (int a = 0; a < m; ++a) {
        Graph::EdgeInfo const& e = G.edgeInfo(a);
        std::string w = what + ": edge " + std::to_string(a) + " ";
        if (e.v1 != ev[a].first || e.v2 != ev[a].second) fail("edge-ends", w + "has wrong end points");
        while (last[v0] < a) ++v0;
        if (e.v0 != v0) fail("frontier", w + "starts the frontier at " + std::to_string(e.v0) + ", expected " + std::to_string(v0));
        if (e.v1final != (last[e.v1] == a) || e.v2final != (last[e.v2] == a)) fail("final", w + "has wrong last-use marks");
        if (e.v1final2 != (last2[e.v1] == a) || e.v2final2 != (last2[e.v2] == a)) fail("final2", w + "has wrong second-last-use marks");
        if (e.finalEdge != (a == m - 1)) fail("finalEdge", w + "has a wrong final-edge mark");
        if (e.allColorsSeen != (a >= allSeen)) fail("colorsSeen", w + "has a wrong all-colours-seen mark");
        front = std::max(front, e.v2 - v0 + 1);
        if (G.getEdge(e.v1, e.v2) != a || G.getEdge(e.v2, e.v1) != a) fail("edge-index", w + "is not found by its vertex numbers");
        if (G.getEdge(x.e[a].a, x.e[a].b) != a || G.getEdge(x.e[a].b, x.e[a].a) != a) fail("edge-index", w + "is not found by its vertex names");
        auto nm = G.edgeName(a);
        if (!((nm.first == x.e[a].a && nm.second == x.e[a].b) || (nm.first == x.e[a].b && nm.second == x.e[a].a))) fail("edge-name", w + "has a wrong name");
        if (G.edgeLabel(a) != nm.first + "," + nm.second) fail("edge-label", w + "is labelled " + G.edgeLabel(a));
    }
    if (G.edgeName(-1).first != "?" || G.edgeName(m).second != "?") fail("edge-name", what + ": name of an unknown edge");
    if (G.maxFrontierSize() != front) fail("frontier-size", what + ": maxFrontierSize " + std::to_string(G.maxFrontierSize()) + ", expected " + std::to_string(front));
    std::map<int, int> c2n;
    std::set<int> used;
    for (int v = 1; v <= n; ++v) {
        auto t = color.find(G.vertexName(v));
        int c = G.colorNumber(v);
        if (t == color.end()) { if (c != 0 || G.virtualMate(v) != 0) fail("color-number", what + ": uncoloured vertex has a colour or mate"); continue; }
        if (c < 1 || c > colors) fail("color-number", what + ": colour number out of range");
        if (c2n.count(t->second) ? c2n[t->second] != c : !used.insert(c).second) fail("color-number", what + ": colour numbers do not match the groups");
        c2n[t->second] = c;
        auto& grp = byColor[t->second];
        int mate = grp.size() == 2 ? G.getVertex(grp[0] == G.vertexName(v) ? grp[1] : grp[0]) : 0;
        if (G.virtualMate(v) != mate) fail("virtual-mate", what + ": virtualMate of " + G.vertexName(v) + " is wrong");
    }
    for (int v = 1, seen = 0; v <= n; ++v) { int c = G.colorNumber(v); if (c > seen) { if (c != seen + 1) fail("color-order", what + ": colours are not numbered by first vertex"); seen = c; } }
    try { G.getVertex("no such vertex"); fail("unknown-vertex", what + ": unknown vertex was found"); } catch (std::runtime_error&) {}
    try { G.getEdge(std::string("no such"), std::string("edge")); fail("unknown-edge", what + ": unknown edge was found"); } catch (std::runtime_error&) {}
    count("graphs_verified");
}

// the drawing: every vertex once, every edge once in order, vertices of one colour drawn alike and others differently
static void verifyDrawing(Graph const& G, Expect const& x, std::map<std::string, int> const& color, std::string const& what) {
    for (auto& n : x.v) if (n.find('"') != std::string::npos) return; // no quoting rules are promised
    std::ostringstream os;
    os << G;
    std::istringstream is(os.str());
    std::string line, all = os.str();
    std::set<std::string> vs;
    std::vector<std::pair<std::string, std::string> > es;
    std::map<int, std::string> style;
    std::map<std::string, int> back;
    bool open = false, closed = false;
    while (std::getline(is, line)) {
        if (line == "graph {") { if (open) fail("drawing", what + ": two headers"); open = true; continue; }
        if (line == "}") { closed = true; continue; }
        if (!open || closed) fail("drawing", what + ": text outside the graph: " + line);
        size_t a = line.find('"'), b = a == std::string::npos ? a : line.find('"', a + 1);
        if (b == std::string::npos) continue; // layout attributes
        std::string p = line.substr(a + 1, b - a - 1), rest = line.substr(b + 1);
        if (rest.compare(0, 3, "--\"") == 0) {
            size_t c = rest.find('"', 3);
            es.push_back({p, rest.substr(3, c - 3)});
            continue;
        }
        if (!vs.insert(p).second) fail("drawing", what + ": vertex " + p + " drawn twice");
        size_t c = rest.find("color=\"");
        std::string st = c == std::string::npos ? "" : rest.substr(c + 7, rest.find('"', c + 7) - c - 7);
        auto t = color.find(p);
        if ((t == color.end()) != st.empty()) fail("drawing", what + ": vertex " + p + (st.empty() ? " drawn without its colour" : " drawn with a colour"));
        if (t != color.end()) {
            if (style.count(t->second) ? style[t->second] != st : back.count(st) != 0) fail("drawing", what + ": the drawn colours do not match the groups");
            style[t->second] = st;
            back[st] = t->second;
        }
    }
    if (!open || !closed) fail("drawing", what + ": unbalanced text");
    if (vs != std::set<std::string>(x.v.begin() + 1, x.v.end())) fail("drawing", what + ": drawn vertices differ:\n" + all.substr(0, 800));
    if (es.size() != x.e.size()) fail("drawing", what + ": " + std::to_string(es.size()) + " edges drawn, expected " + std::to_string(x.e.size()));
    for (size_t i = 0; i < es.size(); ++i) if (!((es[i].first == x.e[i].a && es[i].second == x.e[i].b) || (es[i].first == x.e[i].b && es[i].second == x.e[i].a))) fail("drawing", what + ": edge " + std::to_string(i) + " drawn as " + es[i].first + "--" + es[i].second);
    count("drawings");
}

// many vertices, many groups, the largest graphs that are accepted
static void large(Rng& rng) {
    Graph G;
    std::vector<GEdge> in;
    std::map<std::string, int> color;
    int n = rng.chance(0.01) ? 65534 : rng.chance(0.05) ? rng.range(30000, 50000) : rng.range(200, 1500);
    int kind = (int) rng.below(3); // path, star, ladder
    int off = rng.range(0, 5);
    auto name = [&](int i) { return std::to_string(i + off); };
    for (int i = 1; i < n; ++i) in.push_back(kind == 0 ? GEdge{name(i), name(i + 1)} : kind == 1 ? (i & 1 ? GEdge{name(1), name(i + 1)} : GEdge{name(i + 1), name(1)}) : GEdge{name(i), name(i > 1 ? i + 1 - (i & 1) * 2 + 2 : 2)});
    if (kind == 2) { in.clear(); for (int i = 1; i + 2 <= n; i += 2) { in.push_back({name(i), name(i + 1)}); in.push_back({name(i), name(i + 2)}); if (i + 3 <= n) in.push_back({name(i + 1), name(i + 3)}); } if (in.empty()) in.push_back({name(1), name(2)}); }
    Expect x = expectOf(in);
    std::string tag = "large graph, kind " + std::to_string(kind) + ", " + std::to_string(n) + " vertices from " + name(1);
    std::string t;
    for (auto& e : in) t += e.a + " " + e.b + "\n";
    writeFile(t);
    G.readEdges(tmpPath());
    bool few = n > 5000;
    int groups = few ? rng.range(1, 3) : rng.range(100, 600), per = few ? 2 : rng.range(1, 2);
    t.clear();
    int k = 1, step = (n - 1) / (groups * per) ? (n - 1) / (groups * per) : 1;
    for (int c = 0; c < groups && k <= (int) x.v.size() - 1; ++c) {
        for (int q = 0; q < per && k <= (int) x.v.size() - 1; ++q, k += step) { std::string s = x.v[k]; t += " " + s; color[s] = c; }
        t += "\n";
    }
    writeFile(t);
    G.readVertexGroups(tmpPath());
    verify(G, x, color, tag + ", " + std::to_string(groups) + " groups");
    verifyDrawing(G, x, color, tag);
    maxcount("vertices", (uint64_t) G.vertexSize());
    maxcount("groups", (uint64_t) G.numColor());
    if (n > 60000) { // one more vertex than the marks can hold
        bool threw = false;
        try { for (int i = 1; i <= 3; ++i) G.addEdge(name(1), "extra" + std::to_string(i)); G.update(); } catch (std::runtime_error&) { threw = true; }
        if (!threw && (G.vertexSize() != (int) x.v.size() + 2 || G.getVertex(name(n)) < 1)) fail("too-large", tag + ": grown beyond the limit without notice");
        count("largest_graphs");
    }
    count("large_graphs");
    nontrivial(std::hash<std::string>()(tag));
    sample(tag);
}

static std::string ws(Rng& rng) { static char const* W[] = {" ", "  ", "\t", " \t ", "\v", " \f"}; return W[rng.below(6)]; }
static std::string eol(Rng& rng) { static char const* W[] = {"\n", "\n", "\n", "\r\n", " \n", "\n\n", "\n \n"}; return W[rng.below(7)]; }

void vf::runCase(Rng& rng) {
    if (rng.chance(0.01)) return large(rng);
    bool numeric = rng.coin();
    GSpec g = randomGraph(rng, rng.chance(0.1) ? 60 : 14, numeric);
    std::vector<GEdge> in = g.e;
    bool dups = rng.chance(0.5);
    if (dups) for (int k = rng.range(1, 4); k > 0; --k) { GEdge d = in[rng.below(in.size())]; if (rng.coin()) std::swap(d.a, d.b); in.insert(in.begin() + rng.below(in.size() + 1), d); }
    Expect x = expectOf(in);
    Graph G;
    if (G.vertexSize() != 0 || G.edgeSize() != 0 || G.numColor() != 0 || G.hasColorPairs()) fail("fresh", "a new graph is not empty");
    std::string what;
    int mode = (int) rng.below(4);
    std::map<std::string, int> color;
    if (mode == 0) { what = "addEdge"; for (auto& e : in) G.addEdge(e.a, e.b); G.update(); }
    else if (mode <= 2 || !numeric) { // edge list text
        std::string t;
        if (rng.chance(0.2)) t += eol(rng);
        for (size_t i = 0; i < in.size(); ++i) {
            if (rng.chance(0.2)) t += ws(rng);
            t += in[i].a + ws(rng) + in[i].b;
            if (rng.chance(0.2)) t += ws(rng);
            if (i + 1 < in.size() || rng.chance(0.6)) t += eol(rng);
            else count("no_final_newline");
        }
        what = "readEdges";
        if (rng.chance(0.2)) { // from the standard input
            std::istringstream is(t);
            std::streambuf* old = std::cin.rdbuf(is.rdbuf());
            std::cin.clear();
            G.readEdges("");
            std::cin.rdbuf(old);
            std::cin.clear();
            count("from_stdin");
        }
        else {
            writeFile(t);
            G.readEdges(tmpPath());
        }
        count("edge_lists");
    }
    else { // adjacency list: line i names neighbours of vertex i
        std::map<int, std::vector<int> > adj;
        int mx = 0;
        for (auto& e : in) { int a = atoi(e.a.c_str()), b = atoi(e.b.c_str()); if (a == 0) std::swap(a, b); if (rng.coin() && b != 0) std::swap(a, b); adj[a].push_back(b); mx = std::max(mx, a); }
        std::string t;
        in.clear();
        for (int i = 1; i <= mx; ++i) {
            for (int b : adj[i]) { t += ws(rng) + std::to_string(b); in.push_back({std::to_string(i), std::to_string(b)}); }
            if (rng.chance(0.3)) t += " ";
            if (i < mx || rng.chance(0.6)) t += rng.chance(0.2) ? "\r\n" : "\n";
            else count("no_final_newline");
        }
        x = expectOf(in);
        what = "readAdjacencyList";
        if (rng.chance(0.3)) { // an adjacency list replaces what the object held before
            G.addEdge("old1", "old2");
            G.addEdge("1", "old1");
            G.update();
            G.setColor("old1", "c");
            if (rng.coin()) G.update();
            count("replaced");
        }
        if (rng.chance(0.2)) {
            std::istringstream is(t);
            std::streambuf* old = std::cin.rdbuf(is.rdbuf());
            std::cin.clear();
            G.readAdjacencyList("");
            std::cin.rdbuf(old);
            std::cin.clear();
            count("from_stdin");
        }
        else {
            writeFile(t);
            G.readAdjacencyList(tmpPath());
        }
        count("adjacency_lists");
    }
    std::string tag = what + " " + g.str() + (dups ? "(with duplicates)" : "");
    verify(G, x, color, tag);
    // colours
    int rounds = rng.range(0, 3);
    for (int r = 0; r < rounds; ++r) {
        std::vector<std::string> vs(x.v.begin() + 1, x.v.end());
        for (size_t i = vs.size(); i > 1; --i) std::swap(vs[i - 1], vs[rng.below(i)]);
        int how = (int) rng.below(4);
        size_t k = 0;
        int groups = rng.range(1, 4);
        std::vector<std::vector<std::string> > gr(groups);
        bool pairsOnly = rng.coin();
        for (int c = 0; c < groups; ++c) for (int q = pairsOnly ? 2 : rng.range(0, 3); q > 0 && k < vs.size(); --q) gr[c].push_back(vs[k++]);
        std::string far = std::to_string(G.vertexSize());
        if (how == 0 && x.num.count("1") && x.num.count(far) && rng.coin()) { G.setDefaultPathColor(); color.clear(); color["1"] = color[far] = 7; tag += " setDefaultPathColor"; count("default_colors"); }
        else if (how == 0) { G.clearColors(); color.clear(); tag += " clearColors"; }
        else if (how == 1 && numeric) {
            color.clear();
            std::string t;
            for (int c = 0; c < groups; ++c) {
                for (auto& s : gr[c]) { t += ws(rng) + s; color[s] = c; }
                if (c + 1 < groups || rng.coin()) t += "\n";
            }
            if (rng.chance(0.2)) {
                std::istringstream is(t);
                std::streambuf* old = std::cin.rdbuf(is.rdbuf());
                std::cin.clear();
                G.readVertexGroups("");
                std::cin.rdbuf(old);
                std::cin.clear();
                count("from_stdin");
            }
            else {
                writeFile(t);
                G.readVertexGroups(tmpPath());
            }
            tag += " readVertexGroups";
            count("vertex_groups");
        }
        else {
            for (int c = 0; c < groups; ++c) for (auto& s : gr[c]) {
                if (rng.coin() && how == 2) G.setColor(s, "c" + std::to_string(c)); else if (how == 2) G.setColor(s, std::string("c") + std::to_string(c)); else G.setColor(s, c + 100);
                color[s] = how == 2 ? c + 1000 : c + 100;
            }
            G.update();
            tag += " setColor";
        }
        verify(G, x, color, tag);
        if (rng.chance(0.3)) verifyDrawing(G, x, color, tag);
        if (!color.empty()) count("colored_graphs");
    }
    if (rng.chance(0.15)) { // add more edges afterwards
        std::string p = x.v[1], q = "999" ;
        if (!x.num.count(q)) { G.addEdge(p, q); G.update(); in.push_back({p, q}); x = expectOf(in); verify(G, x, color, tag + " addEdge"); count("extended"); }
    }
    if (rng.chance(0.3)) { // malformed texts must be rejected
        Graph B;
        std::string t;
        int kind = (int) rng.below(4);
        int lines = rng.range(0, 3);
        bool threw = false;
        try {
            if (kind == 0 || kind == 1) {
                int bad = rng.range(0, lines);
                for (int i = 0; i <= lines; ++i) {
                    if (i == bad) t += kind == 0 ? "lonely" : "a b c"; else t += "p" + std::to_string(i) + " q";
                    if (i < lines || rng.coin()) t += "\n";
                }
                writeFile(t); B.readEdges(tmpPath());
            }
            else if (kind == 2) { t = rng.coin() ? "2 3\nx 1\n" : "2\n3 y"; writeFile(t); B.readAdjacencyList(tmpPath()); }
            else { B.addEdge("0", "1"); B.addEdge("1", "2"); B.update(); t = rng.coin() ? "0 1\n7\n" : "0 z\n"; writeFile(t); B.readVertexGroups(tmpPath()); }
        }
        catch (std::runtime_error&) { threw = true; }
        if (!threw) fail("malformed", "malformed text was accepted (kind " + std::to_string(kind) + "): " + t);
        count("malformed_rejected");
        bool nofile = false;
        try { B.readEdges("/nonexistent/file"); } catch (std::runtime_error&) { nofile = true; }
        if (!nofile) fail("missing-file", "a missing file was accepted");
    }
    if (x.e.size() >= 2) { nontrivial(g.hash() ^ mode); count("nontrivial_cases"); }
    sample(tag);
}
VF_MAIN
