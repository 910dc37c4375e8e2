#pragma once
#include "common.hpp"
#include <map>
#include <set>
#include <cstring>
namespace vf {
// --------------------------------------------------------------- DOT parser ----
struct Dot {
    std::map<std::string, std::string> label;     // declared nodes -> label
    std::set<std::string> square, invis;          // terminals
    std::map<std::string, std::vector<std::pair<std::string, std::string> > > edge; // from -> (attributes, to)
    std::map<std::string, std::string> rankOf;    // node -> level statement
    std::map<int, std::string> levelLabel;
    std::set<std::pair<int, int> > levelOrder;
    std::vector<std::string> rootEdge;
    std::string title;
};
struct Lexer { // tokens: ids (quoted or bare), punctuation
    std::string const& s; size_t p = 0;
    Lexer(std::string const& s) : s(s) {}
    bool next(std::string& t, bool& quoted) {
        while (p < s.size() && isspace((unsigned char) s[p])) ++p;
        if (p >= s.size()) return false;
        quoted = false; t.clear();
        if (s[p] == '"') {
            quoted = true;
            for (++p; p < s.size() && s[p] != '"'; ++p) { if (s[p] == '\\' && p + 1 < s.size()) t += s[p++]; t += s[p]; }
            if (p >= s.size()) fail("dot-syntax", "unterminated string");
            ++p;
            return true;
        }
        if (s.compare(p, 2, "->") == 0) { t = "->"; p += 2; return true; }
        if (strchr("{}[];=,", s[p])) { t = s[p++]; return true; }
        while (p < s.size() && (isalnum((unsigned char) s[p]) || strchr("_.", s[p]) || (unsigned char) s[p] >= 128)) t += s[p++];
        if (t.empty()) fail("dot-syntax", "unexpected character near " + s.substr(p > 60 ? p - 60 : 0, 120));
        return true;
    }
};
inline Dot parseDot(std::string const& text) {
    std::vector<std::pair<std::string, bool> > tok;
    { Lexer L(text); std::string t; bool q; while (L.next(t, q)) tok.push_back({t, q}); }
    Dot D;
    size_t p = 0;
    auto is = [&](char const* t) { return p < tok.size() && !tok[p].second && tok[p].first == t; };
    auto expect = [&](char const* t) { if (!is(t)) fail("dot-syntax", std::string("expected '") + t + "' at token " + std::to_string(p) + " of " + text.substr(0, 600)); ++p; };
    auto attrs = [&]() {
        std::map<std::string, std::string> a;
        if (!is("[")) return a;
        ++p;
        while (!is("]")) {
            if (p + 2 >= tok.size()) fail("dot-syntax", "attribute list not closed");
            std::string k = tok[p].first; ++p;
            expect("=");
            a[k] = tok[p].first; ++p;
            if (is(",")) ++p;
        }
        ++p;
        return a;
    };
    expect("digraph");
    D.title = tok.at(p++).first;
    expect("{");
    while (!is("}")) {
        if (p >= tok.size()) fail("dot-syntax", "graph not closed");
        if (is("{")) { // {rank=same; level; nodes}
            ++p;
            expect("rank"); expect("="); expect("same"); expect(";");
            std::string lv = tok.at(p++).first;
            while (is(";")) { ++p; if (is("}")) break; std::string nd = tok.at(p++).first; if (!D.rankOf.emplace(nd, lv).second) fail("dot-rank", "node listed in two levels: " + nd); }
            expect("}");
            continue;
        }
        std::string a = tok.at(p).first; bool q = tok[p].second; ++p;
        if (!q && is("=")) { p += 2; expect(";"); continue; } // graph attribute
        if (is("->")) {
            ++p;
            std::string b = tok.at(p).first; bool qb = tok[p].second; ++p;
            std::map<std::string, std::string> at = attrs();
            expect(";");
            if (!q && !qb) { D.levelOrder.insert({atoi(a.c_str()), atoi(b.c_str())}); continue; }
            if (a == "^") { D.rootEdge.push_back(b); continue; }
            std::string k = at["style"];
            if (at.count("color")) k += "/" + at["color"];
            D.edge[a].push_back({k, b});
            continue;
        }
        std::map<std::string, std::string> at = attrs();
        expect(";");
        if (!q) { D.levelLabel[atoi(a.c_str())] = at.count("label") ? at["label"] : a; continue; }
        if (a == "^") continue;
        if (at["shape"] == "square") D.square.insert(a);
        else if (at["style"] == "invis") D.invis.insert(a);
        else { if (D.label.count(a)) fail("dot-duplicate", "node declared twice: " + a); D.label[a] = at["label"]; }
    }
    ++p;
    if (p != tok.size()) fail("dot-syntax", "text after the graph");
    return D;
}
inline char const* branchStyle(int arity, int b) {
    if (arity == 2) return b ? "solid" : "dashed";
    static char const* S[] = {"dashed", "solid/blue", "solid/red", "solid/green"};
    return S[b];
}
// converts to a table; names -> references
inline Table dotTable(Dot const& D, int arity, std::map<std::string, Ref>& where, int top) {
    Table T; T.arity = arity; T.n = top; T.t.resize(top + 1); T.t[0].resize(2);
    for (auto& e : D.label) {
        auto r = D.rankOf.find(e.first);
        if (r == D.rankOf.end()) fail("dot-rank", "node without level: " + e.first);
        int l = atoi(r->second.c_str());
        if (l < 1 || l > top) fail("dot-rank", "node at a level outside the diagram: " + e.first);
        where[e.first] = Ref{l, (int) T.t[l].size()};
        T.t[l].push_back(std::vector<Ref>(arity, Ref{0, 0}));
    }
    for (auto& r : D.rankOf) if (!D.label.count(r.first)) fail("dot-rank", "level lists an undeclared node: " + r.first);
    for (auto& t : D.square) where[t] = Ref{0, 1};
    for (auto& t : D.invis) where[t] = Ref{0, 0};
    for (auto& e : D.edge) {
        auto f = where.find(e.first);
        if (f == where.end() || f->second.level == 0) fail("dot-edge", "edge from an undeclared node " + e.first);
        std::set<std::string> seen;
        for (auto& x : e.second) {
            int b = -1;
            for (int c = 0; c < arity; ++c) if (x.first == branchStyle(arity, c)) b = c;
            if (b < 0) fail("dot-style", "unknown edge style " + x.first);
            if (!seen.insert(x.first).second) fail("dot-edge", "two edges for one branch of " + e.first);
            auto g = where.find(x.second);
            if (g == where.end()) fail("dot-edge", "edge to an undeclared node " + x.second);
            if (g->second.level >= f->second.level) fail("dot-edge", "edge does not go down");
            T.t[f->second.level][f->second.idx][b] = g->second;
        }
    }
    return T;
}

} // namespace vf
