// Stand-in for CUDD's cudd.h: a small exact implementation of the part of its
// interface that the TdZdd sample programs use (complement edges, reference
// counts), with a monitor in front of every call.  Nodes that nobody refers to
// are really freed at the next operation, so that AddressSanitizer sees any
// use of them; unreferenced operands, references dropped twice, impossible
// variables and concurrent entry are reported.
#pragma once
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <tuple>
#include <vector>

#define CUDD_UNIQUE_SLOTS 256
#define CUDD_CACHE_SLOTS 262144
#define CUDD_CONST_INDEX 0x7fffffffU
typedef unsigned int DdHalfWord;
struct DdNode { DdHalfWord index; DdHalfWord ref; DdNode* T; DdNode* E; };
typedef enum { CUDD_REORDER_SAME, CUDD_REORDER_NONE, CUDD_REORDER_SIFT } Cudd_ReorderingType;

#define Cudd_Regular(n) ((DdNode*) ((uintptr_t) (n) & ~(uintptr_t) 1))
#define Cudd_Not(n) ((DdNode*) ((uintptr_t) (n) ^ (uintptr_t) 1))
#define Cudd_NotCond(n, c) ((DdNode*) ((uintptr_t) (n) ^ (uintptr_t) ((c) ? 1 : 0)))
#define Cudd_IsComplement(n) ((int) ((uintptr_t) (n) & (uintptr_t) 1))
#define Cudd_IsConstant(n) (Cudd_Regular(n)->index == CUDD_CONST_INDEX)
#define Cudd_T(n) (Cudd_Regular(n)->T)
#define Cudd_E(n) (Cudd_Regular(n)->E)
#define Cudd_NodeReadIndex(n) (Cudd_Regular(n)->index)

struct DdManager {
    DdNode* one;
    std::map<std::tuple<unsigned, DdNode*, DdNode*>, DdNode*> uniq;
    std::vector<DdNode*> var;   // by index, permanently referenced
    std::vector<unsigned> perm; // index -> level (0 = top)
    std::set<DdNode*> dead;     // not referenced
    std::atomic<int> inside{0};
    uint64_t calls = 0, live = 0, peak = 0, freed = 0;
    long outstanding = 0;       // references held by the client
    std::string error;
    bool abortOnError;
    void (*hook)();
    DdManager() : abortOnError(true), hook(0) { one = new DdNode{CUDD_CONST_INDEX, 1, 0, 0}; }
    void err(std::string const& e) {
        if (error.empty()) error = e;
        if (abortOnError) { fprintf(stderr, "CUDD-MONITOR: %s\n", e.c_str()); abort(); }
    }
    unsigned level(DdNode* f) const { f = Cudd_Regular(f); return f == one ? 0x7fffffffU : perm[f->index]; }
    void inc(DdNode* f) { f = Cudd_Regular(f); if (f == one) return; if (f->ref++ == 0) dead.erase(f); }
    void dec(DdNode* f) { f = Cudd_Regular(f); if (f == one) return; if (f->ref == 0) { err("a reference is dropped twice"); return; } if (--f->ref == 0) dead.insert(f); }
    void collect() { // free everything unreferenced
        while (!dead.empty()) {
            DdNode* f = *dead.begin();
            dead.erase(dead.begin());
            uniq.erase(std::make_tuple(f->index, f->T, f->E));
            DdNode *t = f->T, *e = f->E;
            delete f;
            --live; ++freed;
            dec(t); dec(e);
        }
    }
    DdNode* make(unsigned index, DdNode* t, DdNode* e) {
        if (t == e) return t;
        if (Cudd_IsComplement(t)) return Cudd_Not(make(index, Cudd_Not(t), Cudd_Not(e)));
        auto k = std::make_tuple(index, t, e);
        auto it = uniq.find(k);
        if (it != uniq.end()) return it->second;
        DdNode* f = new DdNode{index, 0, t, e};
        inc(t); inc(e);
        dead.insert(f);
        if (++live > peak) peak = live;
        return uniq[k] = f;
    }
    bool operand(DdNode* f, char const* what) {
        if (f == 0) { err(std::string(what) + ": null operand"); return false; }
        DdNode* r = Cudd_Regular(f);
        if (r != one && r->ref == 0) { err(std::string(what) + ": operand without a reference"); return false; }
        return true;
    }
    // cofactors by the top index v
    DdNode* hi(DdNode* f, unsigned v) const { return Cudd_Regular(f) != one && Cudd_Regular(f)->index == v ? Cudd_NotCond(Cudd_T(f), Cudd_IsComplement(f)) : f; }
    DdNode* lo(DdNode* f, unsigned v) const { return Cudd_Regular(f) != one && Cudd_Regular(f)->index == v ? Cudd_NotCond(Cudd_E(f), Cudd_IsComplement(f)) : f; }
    unsigned top(DdNode* a, DdNode* b, DdNode* c) const {
        DdNode* x = a;
        if (level(b) < level(x)) x = b;
        if (level(c) < level(x)) x = c;
        return Cudd_Regular(x)->index;
    }
    typedef std::map<std::tuple<DdNode*, DdNode*, DdNode*>, DdNode*> Memo;
    DdNode* ite(DdNode* f, DdNode* g, DdNode* h, Memo& m) {
        if (f == one) return g;
        if (f == Cudd_Not(one)) return h;
        if (g == h) return g;
        auto k = std::make_tuple(f, g, h);
        auto it = m.find(k);
        if (it != m.end()) return it->second;
        unsigned v = top(f, g, h);
        DdNode* t = ite(hi(f, v), hi(g, v), hi(h, v), m);
        DdNode* e = ite(lo(f, v), lo(g, v), lo(h, v), m);
        return m[k] = make(v, t, e);
    }
    DdNode* exist(DdNode* f, std::set<unsigned> const& vs, std::map<DdNode*, DdNode*>& m) {
        if (Cudd_IsConstant(f)) return f;
        auto it = m.find(f);
        if (it != m.end()) return it->second;
        unsigned v = Cudd_Regular(f)->index;
        DdNode *t = exist(hi(f, v), vs, m), *e = exist(lo(f, v), vs, m), *r;
        Memo mm;
        if (vs.count(v)) r = ite(t, one, e, mm); else r = make(v, t, e);
        return m[f] = r;
    }
    DdNode* constrain(DdNode* f, DdNode* c, std::map<std::pair<DdNode*, DdNode*>, DdNode*>& m) {
        if (c == one || Cudd_IsConstant(f)) return f;
        if (c == Cudd_Not(one)) return c;
        if (f == c) return one;
        if (f == Cudd_Not(c)) return Cudd_Not(one);
        auto it = m.find({f, c});
        if (it != m.end()) return it->second;
        unsigned v = top(f, c, one);
        DdNode *c1 = hi(c, v), *c0 = lo(c, v), *r;
        if (c1 == Cudd_Not(one)) r = constrain(lo(f, v), c0, m);
        else if (c0 == Cudd_Not(one)) r = constrain(hi(f, v), c1, m);
        else { DdNode *t = constrain(hi(f, v), c1, m), *e = constrain(lo(f, v), c0, m); r = make(v, t, e); }
        return m[{f, c}] = r;
    }
    void nodes(DdNode* f, std::set<DdNode*>& s) const { f = Cudd_Regular(f); if (!s.insert(f).second || f == one) return; nodes(f->T, s); nodes(f->E, s); }
    double fraction(DdNode* f, std::map<DdNode*, double>& m) const {
        if (Cudd_IsConstant(f)) return Cudd_IsComplement(f) ? 0.0 : 1.0;
        auto it = m.find(f);
        if (it != m.end()) return it->second;
        unsigned v = Cudd_Regular(f)->index;
        return m[f] = (fraction(hi(f, v), m) + fraction(lo(f, v), m)) / 2;
    }
};
namespace cuddmock {
struct Guard { // one call into the package
    DdManager* m;
    Guard(DdManager* m, bool gc = false) : m(m) {
        if (m->inside.fetch_add(1) != 0) m->err("the package is entered by two threads at a time");
        if (m->hook) m->hook(); else if (m->calls % 16 == 0) std::this_thread::yield();
        ++m->calls;
        if (gc) m->collect();
    }
    ~Guard() { m->inside.fetch_sub(1); }
};
inline std::set<unsigned> cube(DdManager* m, DdNode* c) { std::set<unsigned> s; while (!Cudd_IsConstant(c)) { unsigned v = Cudd_Regular(c)->index; s.insert(v); c = m->hi(c, v); } return s; }
inline DdManager*& last() { static DdManager* m = 0; return m; }
}
inline DdManager* Cudd_Init(unsigned, unsigned, unsigned, unsigned, unsigned long) { return cuddmock::last() = new DdManager(); }
inline int Cudd_ReadSize(DdManager* m) { return (int) m->var.size(); }
inline DdNode* Cudd_bddNewVarAtLevel(DdManager* m, int level) {
    cuddmock::Guard g(m, true);
    unsigned i = (unsigned) m->var.size();
    for (unsigned& p : m->perm) if (p >= (unsigned) level) ++p;
    m->perm.push_back((unsigned) level);
    DdNode* v = m->make(i, m->one, Cudd_Not(m->one));
    m->inc(v);
    m->var.push_back(v);
    return v;
}
inline DdNode* Cudd_bddIthVar(DdManager* m, int i) {
    if (i < 0 || i >= (int) m->var.size()) { m->err("Cudd_bddIthVar: variable " + std::to_string(i) + " does not exist"); return 0; }
    return m->var[i];
}
inline DdNode* Cudd_ReadOne(DdManager* m) { return m->one; }
inline DdNode* Cudd_ReadLogicZero(DdManager* m) { return Cudd_Not(m->one); }
inline void Cudd_Ref(DdNode* f) {
    DdManager* m = cuddmock::last();
    cuddmock::Guard g(m);
    if (f == 0) { m->err("Cudd_Ref of a null pointer"); return; }
    m->inc(f);
    ++m->outstanding;
}
inline void Cudd_RecursiveDeref(DdManager* m, DdNode* f) { cuddmock::Guard g(m); m->dec(f); --m->outstanding; }
inline DdNode* Cudd_bddIte(DdManager* m, DdNode* f, DdNode* t, DdNode* e) { cuddmock::Guard g(m, true); DdManager::Memo mm; if (!m->operand(f, "ite") || !m->operand(t, "ite") || !m->operand(e, "ite")) return 0; return m->ite(f, t, e, mm); }
inline DdNode* Cudd_bddAnd(DdManager* m, DdNode* a, DdNode* b) { cuddmock::Guard g(m, true); DdManager::Memo mm; if (!m->operand(a, "and") || !m->operand(b, "and")) return 0; return m->ite(a, b, Cudd_Not(m->one), mm); }
inline DdNode* Cudd_bddOr(DdManager* m, DdNode* a, DdNode* b) { cuddmock::Guard g(m, true); DdManager::Memo mm; if (!m->operand(a, "or") || !m->operand(b, "or")) return 0; return m->ite(a, m->one, b, mm); }
inline DdNode* Cudd_bddXor(DdManager* m, DdNode* a, DdNode* b) { cuddmock::Guard g(m, true); DdManager::Memo mm; if (!m->operand(a, "xor") || !m->operand(b, "xor")) return 0; return m->ite(a, Cudd_Not(b), b, mm); }
inline int Cudd_bddLeq(DdManager* m, DdNode* a, DdNode* b) { cuddmock::Guard g(m, true); DdManager::Memo mm; if (!m->operand(a, "leq") || !m->operand(b, "leq")) return 0; return m->ite(a, Cudd_Not(b), Cudd_Not(m->one), mm) == Cudd_Not(m->one); }
inline DdNode* Cudd_Support(DdManager* m, DdNode* f) {
    cuddmock::Guard g(m, true);
    if (!m->operand(f, "support")) return 0;
    std::set<DdNode*> s;
    m->nodes(f, s);
    std::vector<unsigned> vs;
    for (DdNode* n : s) if (n != m->one) vs.push_back(n->index);
    std::sort(vs.begin(), vs.end(), [m](unsigned a, unsigned b) { return m->perm[a] > m->perm[b]; });
    vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
    DdNode* r = m->one;
    for (unsigned v : vs) r = m->make(v, r, Cudd_Not(m->one));
    return r;
}
inline DdNode* Cudd_bddExistAbstract(DdManager* m, DdNode* f, DdNode* c) { cuddmock::Guard g(m, true); std::map<DdNode*, DdNode*> mm; if (!m->operand(f, "exist") || !m->operand(c, "exist")) return 0; return m->exist(f, cuddmock::cube(m, c), mm); }
inline DdNode* Cudd_bddAndAbstract(DdManager* m, DdNode* a, DdNode* b, DdNode* c) { cuddmock::Guard g(m, true); DdManager::Memo mm; std::map<DdNode*, DdNode*> m2; if (!m->operand(a, "and-exist") || !m->operand(b, "and-exist") || !m->operand(c, "and-exist")) return 0; return m->exist(m->ite(a, b, Cudd_Not(m->one), mm), cuddmock::cube(m, c), m2); }
inline DdNode* Cudd_bddConstrain(DdManager* m, DdNode* f, DdNode* c) { cuddmock::Guard g(m, true); std::map<std::pair<DdNode*, DdNode*>, DdNode*> mm; if (!m->operand(f, "constrain") || !m->operand(c, "constrain")) return 0; return m->constrain(f, c, mm); }
inline DdNode* Cudd_bddMinimize(DdManager* m, DdNode* f, DdNode* c) { return Cudd_bddConstrain(m, f, c); }
inline DdNode* Cudd_Cofactor(DdManager* m, DdNode* f, DdNode* c) { cuddmock::Guard g(m, true); std::map<std::pair<DdNode*, DdNode*>, DdNode*> mm; if (!m->operand(f, "cofactor") || !m->operand(c, "cofactor")) return 0; return m->constrain(f, c, mm); }
inline int Cudd_bddVarIsDependent(DdManager* m, DdNode* f, DdNode* v) {
    cuddmock::Guard g(m, true); // f determines v: the two cofactors are disjoint
    std::map<std::pair<DdNode*, DdNode*>, DdNode*> mm; DdManager::Memo m2;
    return m->ite(m->constrain(f, v, mm), m->constrain(f, Cudd_Not(v), mm), Cudd_Not(m->one), m2) == Cudd_Not(m->one);
}
inline DdNode* Cudd_bddVectorCompose(DdManager* m, DdNode* f, DdNode** v) {
    cuddmock::Guard g(m, true);
    struct R { DdManager* m; DdNode** v; std::map<DdNode*, DdNode*> memo;
        DdNode* go(DdNode* f) { if (Cudd_IsConstant(f)) return f; auto it = memo.find(f); if (it != memo.end()) return it->second; unsigned x = Cudd_Regular(f)->index; DdNode *t = go(m->hi(f, x)), *e = go(m->lo(f, x)); DdManager::Memo mm; return memo[f] = m->ite(v[x], t, e, mm); } } r{m, v, {}};
    return r.go(f);
}
inline int Cudd_DagSize(DdNode* f) { std::set<DdNode*> s; cuddmock::last()->nodes(f, s); return (int) s.size(); }
inline int Cudd_SharingSize(DdNode** v, int n) { std::set<DdNode*> s; for (int i = 0; i < n; ++i) cuddmock::last()->nodes(v[i], s); return (int) s.size(); }
inline double Cudd_CountMinterm(DdManager* m, DdNode* f, int nvars) { std::map<DdNode*, double> mm; return m->fraction(f, mm) * std::pow(2.0, nvars); }
inline long Cudd_ReadPeakLiveNodeCount(DdManager* m) { return (long) m->peak; }
inline int Cudd_ReduceHeap(DdManager*, Cudd_ReorderingType, int) { return 1; }
