// Stand-in for SAPPOROBDD's BDD.h: a small exact implementation of the part of
// its interface that TdZdd uses, with a monitor in front of every call.
// Observed: concurrent entry (the package is not thread-safe), impossible
// variables and levels, runaway loops.
#pragma once
#include <atomic>
#include <cstdint>
#include <map>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <vector>

namespace sapporo {
struct Node { int var; int lo, hi; };
struct Lib {
    std::vector<Node> node;                       // 0, 1: terminals
    std::map<std::tuple<int, int, int>, int> uniq; // (var, lo, hi)
    std::vector<int> lev, varOf;                   // index 1..
    std::atomic<int> inside{0};
    uint64_t calls = 0, concurrent = 0, limit = 0, vars = 0;
    std::string error;
    void (*hook)() = 0;
    void err(std::string const& e) { if (error.empty()) error = e; }
    Lib() { reset(); }
    void reset() {
        node.assign(2, Node{0, -1, -1});
        uniq.clear();
        lev.assign(1, 0); varOf.assign(1, 0);
        calls = concurrent = limit = vars = 0;
        error.clear();
    }
    int used() const { return (int) lev.size() - 1; }
    int newVarOfLev(int l) { // inserts at level l, moving the others up
        int v = used() + 1;
        lev.push_back(l);
        varOf.insert(varOf.begin() + l, v);
        for (int i = 1; i <= used(); ++i) lev[varOf[i]] = i;
        return v;
    }
    int level(int f) const { return lev[node[f].var]; }
    int raw(int var, int lo, int hi) {
        auto k = std::make_tuple(var, lo, hi);
        auto it = uniq.find(k);
        if (it != uniq.end()) return it->second;
        node.push_back(Node{var, lo, hi});
        return uniq[k] = (int) node.size() - 1;
    }
    int zdd(int var, int lo, int hi) { return hi == 0 ? lo : raw(var, lo, hi); }
    int bdd(int var, int lo, int hi) { return lo == hi ? lo : raw(var, lo, hi); }
};
inline Lib& lib() { static Lib l; return l; }
struct Guard { // one call into the package
    Guard() {
        Lib& l = lib();
        if (l.inside.fetch_add(1) != 0) { l.err("the package is entered by two threads at a time"); ++l.concurrent; }
        if (l.hook) l.hook(); else if (l.calls % 16 == 0) std::this_thread::yield();
        ++l.calls;
        if (l.limit && l.calls > l.limit) { l.inside.fetch_sub(1); throw std::runtime_error("runaway: call limit of the package monitor exceeded"); }
    }
    ~Guard() { lib().inside.fetch_sub(1); }
};
typedef std::map<std::pair<int, int>, int> Memo;
inline int zunion(int f, int g, Memo& m) {
    Lib& l = lib();
    if (f == 0) return g;
    if (g == 0 || f == g) return f;
    if (f > g) std::swap(f, g);
    auto it = m.find({f, g});
    if (it != m.end()) return it->second;
    int a = l.level(f), b = l.level(g), v = a >= b ? l.node[f].var : l.node[g].var;
    int f0 = a >= b ? l.node[f].lo : f, f1 = a >= b ? l.node[f].hi : 0;
    int g0 = b >= a ? l.node[g].lo : g, g1 = b >= a ? l.node[g].hi : 0;
    int r0 = zunion(f0, g0, m), r1 = zunion(f1, g1, m);
    return m[{f, g}] = l.zdd(v, r0, r1);
}
// the members with (on) or without (off) v; on: v is removed
inline int zsplit(int f, int v, bool on, std::map<int, int>& m) {
    Lib& l = lib();
    if (l.level(f) < l.lev[v]) return on ? 0 : f;
    if (l.node[f].var == v) return on ? l.node[f].hi : l.node[f].lo;
    auto it = m.find(f);
    if (it != m.end()) return it->second;
    Node n = l.node[f];
    int r0 = zsplit(n.lo, v, on, m), r1 = zsplit(n.hi, v, on, m);
    return m[f] = l.zdd(n.var, r0, r1);
}
inline int zchange(int f, int v, std::map<int, int>& m) {
    Lib& l = lib();
    if (f == 0) return 0;
    if (l.level(f) < l.lev[v]) return l.zdd(v, 0, f);
    Node n = l.node[f];
    if (n.var == v) return l.zdd(v, n.hi, n.lo);
    auto it = m.find(f);
    if (it != m.end()) return it->second;
    int r0 = zchange(n.lo, v, m), r1 = zchange(n.hi, v, m);
    return m[f] = l.zdd(n.var, r0, r1);
}
inline int bcof(int f, int v, bool one, std::map<int, int>& m) {
    Lib& l = lib();
    if (l.level(f) < l.lev[v]) return f;
    Node n = l.node[f];
    if (n.var == v) return one ? n.hi : n.lo;
    auto it = m.find(f);
    if (it != m.end()) return it->second;
    int r0 = bcof(n.lo, v, one, m), r1 = bcof(n.hi, v, one, m);
    return m[f] = l.bdd(n.var, r0, r1);
}
inline int bapply(int op, int f, int g, Memo& m) { // 0 and, 1 or, 2 xor
    Lib& l = lib();
    if (f < 2 && g < 2) return op == 0 ? f & g : op == 1 ? f | g : f ^ g;
    if (op == 0 && (f == 0 || g == 0)) return 0;
    if (op == 1 && (f == 1 || g == 1)) return 1;
    auto it = m.find({f, g});
    if (it != m.end()) return it->second;
    int a = l.level(f), b = l.level(g), v = a >= b ? l.node[f].var : l.node[g].var;
    int f0 = a >= b ? l.node[f].lo : f, f1 = a >= b ? l.node[f].hi : f;
    int g0 = b >= a ? l.node[g].lo : g, g1 = b >= a ? l.node[g].hi : g;
    int r0 = bapply(op, f0, g0, m), r1 = bapply(op, f1, g1, m);
    return m[{f, g}] = l.bdd(v, r0, r1);
}
inline bool okVar(int v, char const* what) {
    if (v >= 1 && v <= lib().used()) return true;
    lib().err(std::string(what) + ": no variable " + std::to_string(v));
    return false;
}
} // namespace sapporo

typedef unsigned long long bddword;
inline int BDD_VarUsed() { sapporo::Guard g; return sapporo::lib().used(); }
inline int BDD_NewVar() { sapporo::Guard g; return sapporo::lib().newVarOfLev(sapporo::lib().used() + 1); }
inline int BDD_NewVarOfLev(int l) { sapporo::Guard g; return sapporo::lib().newVarOfLev(l); }
inline int BDD_LevOfVar(int v) {
    sapporo::Guard g;
    if (v < 0 || v > sapporo::lib().used()) { sapporo::lib().err("BDD_LevOfVar: no variable " + std::to_string(v)); return 0; }
    return sapporo::lib().lev[v];
}
inline int BDD_VarOfLev(int l) {
    sapporo::Guard g;
    if (l < 0 || l > sapporo::lib().used()) { sapporo::lib().err("BDD_VarOfLev: no level " + std::to_string(l)); return 0; }
    return sapporo::lib().varOf[l];
}

class BDD {
    int f;
    explicit BDD(int id, char) : f(id) {}
public:
    BDD() : f(0) {}
    BDD(int val) : f(val ? 1 : 0) {}
    static BDD ofId(int id) { return BDD(id, 'x'); }
    int id() const { return f; }
    int Top() const { sapporo::Guard g; return sapporo::lib().node[f].var; }
    bddword GetID() const { sapporo::Guard g; return (bddword) f; }
    BDD At0(int v) const { sapporo::Guard g; std::map<int, int> m; return sapporo::okVar(v, "At0") ? ofId(sapporo::bcof(f, v, false, m)) : *this; }
    BDD At1(int v) const { sapporo::Guard g; std::map<int, int> m; return sapporo::okVar(v, "At1") ? ofId(sapporo::bcof(f, v, true, m)) : *this; }
    BDD operator~() const { sapporo::Guard g; sapporo::Memo m; return ofId(sapporo::bapply(2, f, 1, m)); }
    friend BDD operator&(BDD const& a, BDD const& b) { sapporo::Guard g; sapporo::Memo m; return ofId(sapporo::bapply(0, a.f, b.f, m)); }
    friend BDD operator|(BDD const& a, BDD const& b) { sapporo::Guard g; sapporo::Memo m; return ofId(sapporo::bapply(1, a.f, b.f, m)); }
    friend BDD operator^(BDD const& a, BDD const& b) { sapporo::Guard g; sapporo::Memo m; return ofId(sapporo::bapply(2, a.f, b.f, m)); }
    BDD& operator&=(BDD const& o) { return *this = *this & o; }
    BDD& operator|=(BDD const& o) { return *this = *this | o; }
    BDD& operator^=(BDD const& o) { return *this = *this ^ o; }
    friend bool operator==(BDD const& a, BDD const& b) { return a.f == b.f; }
    friend bool operator!=(BDD const& a, BDD const& b) { return a.f != b.f; }
};
inline BDD BDDvar(int v) { sapporo::Guard g; return sapporo::okVar(v, "BDDvar") ? BDD::ofId(sapporo::lib().bdd(v, 0, 1)) : BDD(0); }
