// PARTS: 0 1 2 3
// C20: support containers against mathematical models, under random histories.
#include "common.hpp"
#include <tdzdd/util/MyVector.hpp>
#include <tdzdd/util/MyHashTable.hpp>
#include <tdzdd/util/MyList.hpp>
#include <tdzdd/util/MySet.hpp>
#include <tdzdd/util/MemoryPool.hpp>
#include <tdzdd/util/BigNumber.hpp>
#include <tdzdd/util/IntSubset.hpp>
#include <tdzdd/dd/DataTable.hpp>
#include <deque>
#include <memory>
#include <climits>
using namespace vf;
using namespace tdzdd;

// element with identity checks
struct Live { std::unordered_map<void const*, int> m; std::string err; };
inline Live& live() { static Live l; return l; }
struct Obj {
    int* v;
    Obj() : v(new int(0)) { reg(); }
    Obj(int x) : v(new int(x)) { reg(); }
    Obj(Obj const& o) : v(new int(*o.chk())) { reg(); }
    Obj& operator=(Obj const& o) { chk(); *v = *o.chk(); return *this; }
    ~Obj() { if (!live().m.erase(this)) live().err = "destroyed twice or never constructed"; delete v; v = 0; }
    void reg() { if (!live().m.emplace(this, 1).second) live().err = "constructed over a live object"; }
    int* chk() const { if (!live().m.count(this)) { live().err = "use of a dead object"; static int z; return &z; } return v; }
    bool operator==(Obj const& o) const { return *chk() == *o.chk(); }
    size_t hash() const { return *chk() * 1234567u; }
    operator int() const { return *chk(); }
    friend std::ostream& operator<<(std::ostream& os, Obj const& o) { return os << *o.chk(); }
};
struct Pt { // hashable value, all-zero = default
    int a, b;
    Pt(int a = 0, int b = 0) : a(a), b(b) {}
    bool operator==(Pt const& o) const { return a == o.a && b == o.b; }
    bool operator<(Pt const& o) const { return a != o.a ? a < o.a : b < o.b; }
    size_t hash() const { return a & 3; } // heavy collisions
};

// ----------------------------------------------------------------- MyVector ----
template<typename T, typename Size>
static void vectors(Rng& rng, char const* name) {
    typedef MyVector<T, Size> V;
    int const K = 3;
    std::string log = name; log += ":";
    {
        std::unique_ptr<V> v[K]; std::vector<int> m[K];
        for (int i = 0; i < K; ++i) v[i].reset(new V());
        auto val = [&](Rng& r) { return (int) r.below(100); };
        int steps = rng.range(5, 60);
        for (int s = 0; s < steps; ++s) {
            int i = (int) rng.below(K), j = (int) rng.below(K);
            int op = (int) rng.below(16);
            switch (op) {
            case 0: case 1: case 2: { int n = rng.chance(0.1) ? rng.range(20, 300) : rng.range(1, 6); for (int k = 0; k < n; ++k) { int x = val(rng); v[i]->push_back(T(x)); m[i].push_back(x); } log += " push" + std::to_string(n); break; }
            case 3: v[i]->pop_back(); if (!m[i].empty()) m[i].pop_back(); log += " pop"; break;
            case 4: { int n = rng.chance(0.2) ? 0 : rng.range(0, 40); v[i]->resize(n); size_t old = m[i].size(); m[i].resize(n, 0); for (size_t k = old; k < (size_t) n; ++k) { int x = val(rng); (*v[i])[k] = T(x); m[i][k] = x; } log += " resize" + std::to_string(n); break; }
            case 5: { int n = rng.range(0, 30); v[i]->init(n); m[i].assign(n, 0); for (int k = 0; k < n; ++k) { int x = val(rng); (*v[i])[k] = T(x); m[i][k] = x; } log += " init" + std::to_string(n); break; }
            case 6: { int n = rng.range(0, 60); v[i]->reserve(n); REQUIRE((long) v[i]->capacity() >= n, "vector-capacity", log << " reserve"); log += " reserve"; break; }
            case 7: v[i]->clear(); m[i].clear(); log += " clear"; break;
            case 8: v[i].reset(new V(*v[j])); m[i] = std::vector<int>(m[j]); log += " copy"; break;
            case 9: { V& r = *v[j]; *v[i] = r; m[i] = std::vector<int>(m[j]); log += i == j ? " self-assign" : " assign"; if (i == j) count("vector_self_assign"); break; }
            case 10: if (i != j) { v[i]->swap(*v[j]); m[i].swap(m[j]); log += " swap"; } break;
            case 11: { size_t a = rng.below(m[i].size() + 1), b = a + rng.below(m[i].size() - a + 1);
                T* r = v[i]->erase(v[i]->begin() + a, v[i]->begin() + b);
                m[i].erase(m[i].begin() + a, m[i].begin() + b);
                REQUIRE(r == v[i]->begin() + a, "vector-erase", log << " erase range: returned position");
                log += " erase[" + std::to_string(a) + "," + std::to_string(b) + ")"; count("vector_erase"); break; }
            case 12: if (!m[i].empty()) { size_t a = rng.below(m[i].size()); T* r = v[i]->erase(v[i]->begin() + a); m[i].erase(m[i].begin() + a); log += " erase@" + std::to_string(a); REQUIRE(r == v[i]->begin() + a, "vector-erase", log << ": returned position"); count("vector_erase"); } break;
            case 13: { std::vector<int> src; for (int n = rng.range(0, 12); n > 0; --n) src.push_back(val(rng)); if (rng.coin()) { *v[i] = src; log += " assign-std"; } else { v[i].reset(new V(src)); log += " from-std"; } m[i] = src; break; }
            case 14: { int n = rng.range(0, 20), x = val(rng); v[i].reset(new V((Size) n, T(x))); m[i].assign(n, x); log += " fill"; break; }
            default: if (!m[i].empty()) { size_t a = rng.below(m[i].size()); int x = val(rng); (*v[i])[a] = T(x); m[i][a] = x; if (rng.coin()) { v[i]->back() = T(x); m[i].back() = x; } log += " set"; } break;
            }
            count("vector_ops");
            for (int k = 0; k < K; ++k) {
                V const& c = *v[k];
                REQUIRE((size_t) c.size() == m[k].size() && c.empty() == m[k].empty() && (size_t) c.capacity() >= m[k].size(), "vector-size", log << ": size " << c.size() << " expected " << m[k].size());
                for (size_t a = 0; a < m[k].size(); ++a) REQUIRE((int) c[a] == m[k][a], "vector-content", log << ": vector " << k << " element " << a << " is " << (int) c[a] << " expected " << m[k][a]);
                size_t a = 0;
                for (typename V::const_iterator t = c.begin(); t != c.end(); ++t, ++a) REQUIRE(a < m[k].size() && (int) *t == m[k][a], "vector-iteration", log);
                REQUIRE(a == m[k].size(), "vector-iteration", log);
                if (a) { a = m[k].size(); for (typename V::const_reverse_iterator t = c.rbegin(); t != c.rend(); ++t) REQUIRE(a > 0 && (int) *t == m[k][--a], "vector-reverse", log); REQUIRE(a == 0, "vector-reverse", log); REQUIRE((int) c.back() == m[k].back(), "vector-back", log); }
                REQUIRE((c == *v[(k + 1) % K]) == (m[k] == m[(k + 1) % K]), "vector-equality", log);
            }
            if (rng.chance(0.3)) {
                std::ostringstream o, w; o << *v[i]; w << "(";
                for (size_t a = 0; a < m[i].size(); ++a) w << (a ? "," : "") << T(m[i][a]);
                w << ")";
                REQUIRE(o.str() == w.str(), "vector-print", log << ": printed " << o.str() << " expected " << w.str());
            }
            REQUIRE(live().err.empty(), "vector-life", log << ": " << live().err);
        }
        nontrivial(mix64(std::hash<std::string>()(log)));
    }
    REQUIRE(live().m.empty(), "vector-leak", log << ": " << live().m.size() << " elements not destroyed");
    count("nontrivial_cases");
    sample(log);
}

static void dataTables(Rng& rng) {
    std::string log = "DataTable:";
    {
        DataTable<Obj> t(rng.range(0, 4)), u;
        std::vector<std::vector<int> > m(t.numRows()), w;
        for (int s = rng.range(5, 40); s > 0; --s) {
            switch (rng.below(8)) {
            case 0: { int n = rng.range(0, 6); t.init(n); m.assign(n, {}); log += " init"; break; }
            case 1: { int n = rng.range(0, 8); t.setNumRows(n); m.resize(n); log += " rows"; break; }
            case 2: if (!m.empty()) { int i = (int) rng.below(m.size()), n = rng.range(0, 9); t.initRow(i, n); m[i].assign(n, 0); log += " initRow"; } break;
            case 3: case 4: if (!m.empty()) { int i = (int) rng.below(m.size()); size_t c = t.addColumn(i); REQUIRE(c == m[i].size(), "table-column", log); m[i].push_back(0); t[i][c] = Obj((int) s); m[i][c] = s; log += " addColumn"; } break;
            case 5: u = t; w = m; log += " assign"; break;
            case 6: { DataTable<Obj> x(t); t = u; u = x; m.swap(w); log += " exchange"; break; }
            default: { DataTable<Obj>& r = t; t = r; log += " self-assign"; break; }
            }
            auto cmp = [&](DataTable<Obj> const& a, std::vector<std::vector<int> > const& b) {
                size_t tot = 0;
                REQUIRE(a.numRows() == (int) b.size(), "table-rows", log);
                for (size_t i = 0; i < b.size(); ++i) { REQUIRE(a[i].size() == b[i].size(), "table-row-size", log); for (size_t j = 0; j < b[i].size(); ++j) REQUIRE((int) a[i][j] == b[i][j], "table-content", log); tot += b[i].size(); }
                REQUIRE(a.totalSize() == tot, "table-total", log);
            };
            cmp(t, m); cmp(u, w);
            if (rng.chance(0.2)) {
                std::ostringstream o, x; o << t;
                for (size_t i = 0; i < m.size(); ++i) { x << i << ": "; for (size_t j = 0; j < m[i].size(); ++j) x << (j ? ", " : "") << Obj(m[i][j]); x << "\n"; }
                REQUIRE(o.str() == x.str(), "table-print", log << ": printed " << o.str() << " expected " << x.str());
            }
            REQUIRE(live().err.empty(), "table-life", log << ": " << live().err);
        }
        nontrivial(mix64(std::hash<std::string>()(log)));
    }
    REQUIRE(live().m.empty(), "table-leak", log);
    count("table_cases");
}

// --------------------------------------------------------------- hash tables ----
template<typename T> struct Gen;
template<> struct Gen<uint64_t> { static uint64_t make(Rng& r, int range) { return 1 + r.below(range); } };
template<> struct Gen<int> { static int make(Rng& r, int range) { int x = (int) r.below(range) - range / 2; return x ? x : range; } };
template<> struct Gen<Pt> { static Pt make(Rng& r, int range) { return Pt(1 + (int) r.below(5), (int) r.below(range / 5 + 1)); } };
template<> struct Gen<int8_t> { static int8_t make(Rng& r, int) { int x = (int) r.below(255) - 127; return x ? x : 1; } };

template<typename T>
static void hashSets(Rng& rng, char const* name) {
    typedef MyHashTable<T> H;
    int const K = 2;
    std::unique_ptr<H> h[K]; std::set<T> m[K];
    for (int i = 0; i < K; ++i) { if (rng.coin()) h[i].reset(new H()); else h[i].reset(new H((size_t) rng.below(40))); }
    std::string log = name; log += ":";
    bool big = rng.chance(0.03);
    int range = big ? 20000 : (int) rng.range(3, 300);
    for (int s = rng.range(5, 50); s > 0; --s) {
        int i = (int) rng.below(K), j = (int) rng.below(K);
        // every copy or rehash about doubles the storage: keep it within bounds
        bool room = h[i]->tableSize() < 20000 && h[j]->tableSize() < 20000;
        int op = (int) rng.below(12);
        if (!room && op >= 8 && op <= 10) op = rng.coin() ? 6 : 4;
        switch (op) {
        case 0: case 1: case 2: case 3: {
            int n = big && rng.coin() ? (std::is_same<T, Pt>::value ? 300 : 6000) : rng.range(1, 20);
            for (int k = 0; k < n; ++k) { T x = Gen<T>::make(rng, range); T& r = h[i]->add(x); REQUIRE(r == x, "hash-add", log << " add returned another element"); m[i].insert(x); }
            log += " add" + std::to_string(n); break; }
        case 4: case 5: for (int k = 0; k < 10; ++k) { T x = Gen<T>::make(rng, range); T* p = h[i]->get(x); REQUIRE((p != 0) == (m[i].count(x) > 0), "hash-get", log << " get: membership"); REQUIRE(p == 0 || *p == x, "hash-get", log << " get: element"); } break;
        case 6: if (rng.chance(0.4)) { h[i]->clear(); m[i].clear(); log += " clear"; } break;
        case 7: if (rng.chance(0.4)) { size_t n = rng.below(60); h[i]->initialize(n); m[i].clear(); log += " initialize" + std::to_string(n); } break;
        case 8: { size_t n = rng.below(200); h[i]->rehash(n); log += " rehash"; break; }
        case 9: { H* c = rng.coin() ? new H(*h[j]) : new H(*h[j], rng.below(100)); h[i].reset(c); m[i] = std::set<T>(m[j]); log += " copy"; break; }
        case 10: { H& r = *h[j]; *h[i] = r; m[i] = std::set<T>(m[j]); log += i == j ? " self-assign" : " assign"; if (i == j) count("hash_self_assign"); break; }
        default: if (i != j) { h[i]->moveAssign(*h[j]); m[i] = m[j]; m[j].clear(); log += " move"; } break;
        }
        count("hash_ops");
        for (int k = 0; k < K; ++k) {
            H const& c = *h[k];
            REQUIRE(c.size() == m[k].size() && c.empty() == m[k].empty(), "hash-size", log << ": size " << c.size() << " expected " << m[k].size());
            std::set<T> seen;
            for (typename H::const_iterator t = c.begin(); t != c.end(); ++t) REQUIRE(seen.insert(*t).second, "hash-iteration", log << ": element visited twice");
            REQUIRE(seen == m[k], "hash-content", log << ": contents differ");
            size_t n = 0;
            for (typename H::iterator t = h[k]->begin(); t != h[k]->end(); ++t) ++n;
            REQUIRE(n == m[k].size(), "hash-iteration", log);
            for (auto& x : m[k]) REQUIRE(c.get(x) != 0, "hash-lost", log << ": element lost");
            maxcount("hash_size", c.size());
        }
    }
    nontrivial(mix64(std::hash<std::string>()(log)));
    count("nontrivial_cases"); count(std::string("hash:") + name);
}

static void hashMaps(Rng& rng) {
    typedef MyHashMap<Pt, std::string> M;
    std::unique_ptr<M> h(rng.coin() ? new M() : new M((size_t) rng.below(30)));
    std::map<Pt, std::string> m;
    std::string log = "map:";
    int range = rng.range(5, 200);
    for (int s = rng.range(10, 200); s > 0; --s) {
        Pt k = Gen<Pt>::make(rng, range);
        switch (rng.below(10)) {
        case 0: case 1: case 2: case 3: { std::string x = std::to_string(rng.below(1000)); (*h)[k] = x; m[k] = x; break; }
        case 4: { REQUIRE((*h)[k] == m[k], "map-value", log << " operator[]"); break; }
        case 5: case 6: { std::string* p = h->getValue(k); auto it = m.find(k); REQUIRE((p != 0) == (it != m.end()) && (p == 0 || *p == it->second), "map-value", log << " getValue"); break; }
        case 7: if (h->tableSize() < 20000) h->rehash(rng.below(100)); break;
        case 8: if (rng.chance(0.3) && h->tableSize() < 20000) { h.reset(new M(*h, rng.below(50))); log += " copy"; } break;
        default: if (rng.chance(0.05)) { h->clear(); m.clear(); } else if (rng.chance(0.3)) { M& r = *h; *h = r; log += " self-assign"; } break;
        }
        REQUIRE(h->size() == m.size(), "map-size", log << ": size " << h->size() << " expected " << m.size());
    }
    size_t n = 0;
    for (M::iterator t = h->begin(); t != h->end(); ++t, ++n) { auto it = m.find(t->key); REQUIRE(it != m.end() && it->second == t->value, "map-content", log); }
    REQUIRE(n == m.size(), "map-content", log);
    count("map_cases");
}

// --------------------------------------------------------------------- lists ----
static uint64_t pat(uint64_t id, size_t k) { return mix64(id * 1000003 + k); }
template<typename T, size_t B>
static void lists(Rng& rng) {
    MyList<T, B> l; MyListOnPool<T> q; MemoryPool pool;
    struct E { uint64_t id; size_t n; T* p; };
    std::deque<E> ml, mq;
    uint64_t id = 0;
    std::string log = "list:";
    bool fixed = rng.coin(); size_t fn = 1 + rng.below(6);
    for (int s = rng.range(5, 40); s > 0; --s) {
        int op = (int) rng.below(8);
        if (op < 4) {
            int c = rng.chance(0.05) ? (int) (2 * B) % 3000 + 7 : rng.range(1, 12);
            for (int k = 0; k < c; ++k) {
                size_t n = fixed ? fn : rng.chance(0.02) ? 1 + rng.below(800) : 1 + rng.below(9);
                bool dflt = n == 1 && rng.coin();
                T* p = dflt ? l.alloc_front() : l.alloc_front(n);
                T* r = dflt ? q.alloc_front(pool) : q.alloc_front(pool, n);
                ++id;
                for (size_t a = 0; a < n; ++a) p[a] = r[a] = (T) pat(id, a);
                ml.push_front(E{id, n, p}); mq.push_front(E{id, n, r});
            }
            log += " alloc" + std::to_string(c);
        }
        else if (op < 6) { size_t c = std::min<size_t>(ml.size(), rng.chance(0.2) ? 500 : rng.below(20)); for (size_t k = 0; k < c; ++k) { l.pop_front(); ml.pop_front(); } c = std::min<size_t>(mq.size(), rng.below(20)); for (size_t k = 0; k < c; ++k) { q.pop_front(); mq.pop_front(); } log += " pop"; }
        else if (op == 6) { if (rng.chance(0.3)) { l.clear(); ml.clear(); log += " clear"; } if (rng.chance(0.3)) { q.clear(); mq.clear(); } }
        else { if (ml.empty()) { MyList<T, B> e(l); l = e; } }
        count("list_ops");
        auto check = [&](auto& L, std::deque<E> const& M, char const* w) {
            REQUIRE(L.size() == M.size() && L.empty() == M.empty(), "list-size", w << " " << log << ": size " << L.size() << " expected " << M.size());
            if (!M.empty()) REQUIRE(L.front() == M.front().p, "list-front", w << " " << log);
            size_t k = 0;
            for (auto t = L.begin(); t != L.end(); ++t, ++k) {
                REQUIRE(k < M.size(), "list-iteration", w << " " << log << ": too long");
                auto* p = *t;
                REQUIRE(p == M[k].p, "list-order", w << " " << log << ": element " << k);
                for (size_t a = 0; a < M[k].n; ++a) REQUIRE(p[a] == (T) pat(M[k].id, a), "list-content", w << " " << log << ": element " << k << " overwritten");
            }
            REQUIRE(k == M.size(), "list-iteration", w << " " << log << ": too short");
        };
        check(l, ml, "MyList"); check(q, mq, "MyListOnPool");
        MyList<T, B> const& lc = l; MyListOnPool<T> const& qc = q;
        check(lc, ml, "MyList const"); check(qc, mq, "MyListOnPool const");
        if (ml.size() < 50 && mq.size() < 50) {
            std::ostringstream o, w, oq, wq; o << lc; oq << qc; w << "("; wq << "(";
            for (size_t a = 0; a < ml.size(); ++a) w << (a ? "," : "") << ml[a].p[0];
            for (size_t a = 0; a < mq.size(); ++a) wq << (a ? "," : "") << mq[a].p[0];
            REQUIRE(o.str() == w.str() + ")" && oq.str() == wq.str() + ")", "list-print", log << ": printed " << o.str() << " " << oq.str());
        }
        maxcount("list_size", ml.size());
    }
    nontrivial(mix64(std::hash<std::string>()(log) ^ B * 31 ^ sizeof(T)));
    count("nontrivial_cases"); count("list_cases");
}

// --------------------------------------------------------------------- pools ----
struct Area { unsigned char* p; size_t n; uint64_t id; };
static void fillArea(Area const& a) { for (size_t k = 0; k < a.n; ++k) a.p[k] = (unsigned char) pat(a.id, k / 64); }
static bool intact(Area const& a) { for (size_t k = 0; k < a.n; ++k) if (a.p[k] != (unsigned char) pat(a.id, k / 64)) return false; return true; }
static void pools(Rng& rng) {
    int const K = 2;
    bool vec = rng.chance(0.3);
    MyVector<MemoryPool> V;
    MemoryPool own[K];
    if (vec) V.resize(K);
    auto pool = [&](int i) -> MemoryPool& { return vec ? V[i] : own[i]; };
    std::vector<Area> m[K];
    uint64_t id = 0;
    std::string log = "pool:";
    for (int s = rng.range(5, 40); s > 0; --s) {
        int i = (int) rng.below(K);
        switch (rng.below(9)) {
        case 0: case 1: case 2: case 3: {
            int c = rng.range(1, 30); int kind = (int) rng.below(5);
            if (kind >= 3) c = rng.range(1, 4);
            for (int k = 0; k < c; ++k) {
                size_t n = kind == 0 ? 1 + rng.below(16) : kind == 1 ? 1 + rng.below(3000) : kind == 2 ? 1 + rng.below(300) : kind == 3 ? 39000 + rng.below(2500) : 1 + rng.below(200000);
                Area a{(unsigned char*) pool(i).alloc(n), n, ++id};
                REQUIRE(((uintptr_t) a.p & 7) == 0, "pool-alignment", log);
                fillArea(a); m[i].push_back(a);
            }
            log += " alloc(kind" + std::to_string(kind) + ")x" + std::to_string(c); break; }
        case 4: if (rng.coin()) { pool(i).reuse(); m[i].clear(); log += " reuse"; count("pool_reuse"); } break;
        case 5: if (rng.chance(0.3)) { pool(i).clear(); m[i].clear(); log += " clear"; REQUIRE(pool(i).empty(), "pool-empty", log); } break;
        case 6: if (rng.coin()) { pool(i).splice(pool(1 - i)); m[i].insert(m[i].end(), m[1 - i].begin(), m[1 - i].end()); m[1 - i].clear(); log += " splice"; count("pool_splice"); REQUIRE(pool(1 - i).empty(), "pool-empty", log); } break;
        case 7: if (vec) { V.resize(rng.range(K, 12)); log += " grow-vector"; count("pool_vector"); } break;
        default: { // as a standard allocator
            std::vector<int, MemoryPool::Allocator<int> > v(pool(i).allocator<int>());
            for (int k = 0; k < 50; ++k) v.push_back(k);
            for (int k = 0; k < 50; ++k) REQUIRE(v[k] == k, "pool-allocator", log);
            log += " vector"; break; }
        }
        count("pool_ops");
        for (int k = 0; k < K; ++k) for (auto& a : m[k]) REQUIRE(intact(a), "pool-overlap", log << ": an area of " << a.n << " bytes was overwritten");
    }
    nontrivial(mix64(std::hash<std::string>()(log)));
    count("nontrivial_cases"); count("pool_cases");
}

// ---------------------------------------------------------------------- sets ----
template<typename BS>
static void bitOps(Rng& rng, BS& b, size_t bits, char const* name) {
    std::set<size_t> m;
    std::string log = name; log += ":";
    for (int s = rng.range(5, 60); s > 0; --s) {
        size_t i = rng.chance(0.3) ? (rng.coin() ? bits - 1 : (rng.below(bits / 64 + 1) * 64 + 63) % bits) : rng.below(bits);
        switch (rng.below(8)) {
        case 0: case 1: case 2: case 3: for (int k = rng.range(1, 8); k > 0; --k) { b.add(i); m.insert(i); log += " +" + std::to_string(i); i = rng.below(bits); } break;
        case 4: b.remove(i); m.erase(i); log += " -" + std::to_string(i); break;
        case 5: { b.pullout(i); std::set<size_t> r; for (size_t x : m) { if (x < i) r.insert(x); else if (x > i) r.insert(x - 1); } m = r; log += " pullout" + std::to_string(i); count("pullouts"); break; }
        case 6: if (rng.chance(0.2)) { b.clear(); m.clear(); log += " clear"; } break;
        default: REQUIRE(b.includes(i) == (m.count(i) > 0), "bitset-includes", log << " includes " << i); break;
        }
        std::vector<size_t> got, want(m.begin(), m.end());
        for (typename BS::const_iterator t = b.begin(); t != b.end(); ++t) { got.push_back(*t); if (got.size() > bits + 1) break; }
        if (got != want) { std::ostringstream o; for (size_t x : got) o << " " << x; o << " expected"; for (size_t x : want) o << " " << x; fail("bitset-content", log + ": contents" + o.str()); }
        for (size_t k = 0; k < bits; ++k) REQUIRE(b.includes(k) == (m.count(k) > 0), "bitset-includes", log << ": element " << k);
        REQUIRE(b.empty() == m.empty(), "bitset-empty", log);
    }
    std::ostringstream o, w; o << b; w << "{"; bool c = false; for (size_t x : m) { w << (c ? "," : "") << x; c = true; } w << "}";
    REQUIRE(o.str() == w.str(), "bitset-print", log << ": " << o.str());
    nontrivial(mix64(std::hash<std::string>()(log)));
    count("bitset_cases");
}
template<size_t N>
static void bitPair(Rng& rng) {
    MyBitSet<N> a, b; std::set<size_t> x, y;
    for (int k = (int) rng.below(12); k > 0; --k) { size_t i = rng.below(64 * N); a.add(i); x.insert(i); if (rng.coin()) { b.add(i); y.insert(i); } }
    if (rng.coin()) for (int k = (int) rng.below(6); k > 0; --k) { size_t i = rng.below(64 * N); b.add(i); y.insert(i); }
    bool inter = false; for (size_t i : x) if (y.count(i)) inter = true;
    REQUIRE(a.intersects(b) == inter, "bitset-intersects", "MyBitSet intersects");
    REQUIRE((a == b) == (x == y), "bitset-equality", "MyBitSet ==");
    if (x == y) REQUIRE(a.hash() == b.hash(), "bitset-hash", "MyBitSet hash");
    MyBitSet<N> c(a);
    REQUIRE(c == a, "bitset-copy", "MyBitSet copy");
}
template<typename SS>
static void smallOps(Rng& rng, SS& b, size_t cap, bool bounded, char const* name) {
    std::set<int> m;
    std::string log = name; log += ":";
    for (int s = rng.range(5, 60); s > 0; --s) {
        int e = (int) rng.below(cap + 3);
        switch (rng.below(6)) {
        case 0: case 1: case 2:
            if (m.size() >= cap && !m.count(e)) {
                if (!bounded) break;
                bool thrown = false;
                try { b.add(e); } catch (std::out_of_range const&) { thrown = true; }
                if (!thrown) m.insert(e); // roomier than required is fine as long as it is a set
                count("smallset_full");
                log += " add-full";
                if (!thrown) cap = m.size();
                break;
            }
            b.add(e); m.insert(e); log += " +" + std::to_string(e); break;
        case 3: b.remove(e); m.erase(e); log += " -" + std::to_string(e); break;
        case 4: if (rng.chance(0.2)) { b.clear(); m.clear(); log += " clear"; } break;
        default: REQUIRE(b.includes(e) == (m.count(e) > 0), "smallset-includes", log << " includes " << e); break;
        }
        std::vector<int> got(b.begin(), b.end()), want(m.begin(), m.end());
        REQUIRE(got == want, "smallset-content", log << ": contents differ (" << got.size() << " elements, expected " << want.size() << ")");
        REQUIRE(b.size() == m.size() && b.empty() == m.empty(), "smallset-size", log);
        size_t k = want.size();
        for (auto t = b.rbegin(); t != b.rend(); ++t) REQUIRE(k > 0 && *t == want[--k], "smallset-reverse", log);
        for (size_t a = 0; a < want.size(); ++a) REQUIRE(b.get(a) == want[a], "smallset-get", log);
        std::vector<int> other;
        for (size_t x = 0; x < cap + 3; ++x) if (rng.chance(0.3)) other.push_back((int) x);
        if (rng.chance(0.2)) other = want;
        if (rng.chance(0.2)) { other = want; if (!other.empty()) other.erase(other.begin() + rng.below(other.size())); }
        bool inter = false, all = true; for (int x : other) { if (m.count(x)) inter = true; else all = false; }
        REQUIRE(b.equals(other) == (other == want), "smallset-equals", log);
        REQUIRE(b.intersects(other) == inter, "smallset-intersects", log);
        REQUIRE(b.containsAll(other) == all, "smallset-containsAll", log);
    }
    std::ostringstream o, w; o << b; w << "{"; bool c = false; for (int x : m) { w << (c ? "," : "") << x; c = true; } w << "}";
    REQUIRE(o.str() == w.str(), "smallset-print", log << ": " << o.str());
    nontrivial(mix64(std::hash<std::string>()(log)));
    count("smallset_cases");
}
// sets that live in a pool are compared and hashed as keys
static void pooledPairs(Rng& rng) {
    MemoryPool p;
    size_t bits = rng.range(1, 300);
    std::vector<std::set<size_t> > m;
    std::vector<MyBitSetOnPool*> b;
    std::vector<MySmallSetOnPool<int>*> c;
    for (int k = 0; k < 5; ++k) {
        std::set<size_t> x;
        if (k && rng.chance(0.7)) { x = m[rng.below(m.size())]; if (rng.chance(0.6)) { size_t i = rng.chance(0.4) ? bits - 1 : rng.below(bits); if (!x.insert(i).second) x.erase(i); } } // equal or nearly so
        else for (int q = (int) rng.below(8); q > 0; --q) x.insert(rng.below(bits));
        m.push_back(x);
        b.push_back(MyBitSetOnPool::newInstance(p, bits));
        c.push_back(MySmallSetOnPool<int>::newInstance(p, x.size() + rng.below(3)));
        std::vector<size_t> order(x.begin(), x.end());
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
        for (size_t i : order) { b.back()->add(i); c.back()->add((int) i); }
    }
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) {
        bool eq = m[i] == m[j];
        REQUIRE((*b[i] == *b[j]) == eq && (!eq || b[i]->hash() == b[j]->hash()), "bitset-equality", "MyBitSetOnPool of " << bits << " bits: equality or hash of two sets that are " << (eq ? "equal" : "different"));
        REQUIRE((*c[i] == *c[j]) == eq && (!eq || c[i]->hash() == c[j]->hash()), "smallset-equality", "MySmallSetOnPool: equality or hash of two sets that are " << (eq ? "equal" : "different"));
        count(eq ? "pooled_equal" : "pooled_different");
    }
}
static void sets(Rng& rng) {
    if (rng.chance(0.2)) pooledPairs(rng);
    switch (rng.below(7)) {
    case 0: { MyBitSet<1> b; bitOps(rng, b, 64, "MyBitSet<1>"); bitPair<1>(rng); break; }
    case 1: { MyBitSet<3> b; bitOps(rng, b, 192, "MyBitSet<3>"); bitPair<3>(rng); break; }
    case 2: case 3: { MemoryPool p; size_t n = rng.range(1, 400); MyBitSetOnPool* b = MyBitSetOnPool::newInstance(p, n); char* guard = p.allocate<char>(64); memset(guard, 0x5a, 64); bitOps(rng, *b, n, "MyBitSetOnPool"); for (int k = 0; k < 64; ++k) REQUIRE(guard[k] == 0x5a, "bitset-overflow", "MyBitSetOnPool wrote behind its storage"); break; }
    case 4: { MySmallSet<int, 8> b; smallOps(rng, b, 7, true, "MySmallSet<8>");
        MySmallSet<int, 8> c, d; std::set<int> x, y;
        for (int k = (int) rng.below(6); k > 0; --k) { int e = (int) rng.below(5); c.add(e); x.insert(e); e = (int) rng.below(5); d.add(e); y.insert(e); }
        REQUIRE((c == d) == (x == y) && (!(x == y) || c.hash() == d.hash()), "smallset-equality", "MySmallSet equality or hash"); break; }
    case 5: { MemoryPool p; size_t n = rng.range(1, 12); auto* b = MySmallSetOnPool<int>::newInstance(p, n); char* guard = p.allocate<char>(64); memset(guard, 0x5a, 64); smallOps(rng, *b, n, false, "MySmallSetOnPool"); for (int k = 0; k < 64; ++k) REQUIRE(guard[k] == 0x5a, "smallset-overflow", "MySmallSetOnPool wrote behind its storage"); break; }
    default: { MemoryPool p; std::vector<int> src; for (int k = (int) rng.below(10); k > 0; --k) src.push_back((int) rng.below(8)); auto* b = MySmallSetOnPool<int>::newInstance(p, src); std::set<int> m(src.begin(), src.end()); REQUIRE(std::vector<int>(b->begin(), b->end()) == std::vector<int>(m.begin(), m.end()), "smallset-copy", "MySmallSetOnPool from a container"); break; }
    }
    count("nontrivial_cases");
}
static void ranges(Rng& rng) {
    for (int k = 0; k < 20; ++k) {
        bool wide = rng.chance(0.3);
        int lo = wide ? (int) (uint32_t) rng.next() : rng.range(-20, 20);
        int hi = rng.chance(0.2) ? INT_MAX : wide ? (int) (uint32_t) rng.next() : rng.range(-20, 40);
        int st = rng.chance(0.4) ? 1 : rng.range(1, 9);
        IntRange r(lo, hi, st);
        IntSubset const& S = r;
        if (lo <= hi) REQUIRE(S.lowerBound() == lo && S.upperBound() >= lo, "range-bounds", "IntRange bounds");
        for (int t = 0; t < 30; ++t) {
            int x = rng.chance(0.5) ? (int) (uint32_t) rng.next() : (int) ((int64_t) lo + rng.range(0, 50) <= INT_MAX ? lo + rng.range(0, 3) : lo);
            bool want = lo <= x && x <= hi && ((int64_t) x - lo) % st == 0;
            REQUIRE(S.contains(x) == want, "range-contains", "IntRange(" << lo << "," << hi << "," << st << ") contains " << x);
            if (want) REQUIRE(S.lowerBound() <= x && x <= S.upperBound(), "range-bounds", "IntRange member outside its bounds");
        }
    }
    count("range_cases");
}

// ------------------------------------------------------------------- numbers ----
static uint32_t bigDivide(Big& b, uint32_t n) { uint64_t r = 0; for (size_t i = b.d.size(); i-- > 0;) { uint64_t x = r * 1000000000ULL + b.d[i]; b.d[i] = (uint32_t) (x / n); r = x % n; } while (!b.d.empty() && b.d.back() == 0) b.d.pop_back(); return (uint32_t) r; }
static void bigShift(Big& b, int k) { while (k > 0) { int s = std::min(k, 31); b.mul(s == 31 ? 0x80000000u : 1u << s); k -= s; } }
static size_t words63(Big b) { // number of 63-bit digits
    size_t w = 0; do { for (int i = 0; i < 3; ++i) bigDivide(b, 1u << 21); ++w; } while (!b.d.empty()); return w; }
struct Num { std::vector<uint64_t> store; BigNumber n; Big m; // storage exactly as large as the value needs
    void room(size_t w) { std::vector<uint64_t> s(w, 0xAAAAAAAAAAAAAAAAULL); if (!store.empty()) std::copy(store.begin(), store.begin() + std::min(store.size(), w), s.begin()); s.shrink_to_fit(); store.swap(s); n.setArray(store.data()); }
};
static void numbers(Rng& rng) {
    int const K = 3;
    Num a[K];
    std::string log = "numbers:";
    for (int i = 0; i < K; ++i) { a[i].room(1); a[i].n.store(0); }
    auto check = [&](Num& x) {
        REQUIRE((size_t) x.n.size() == words63(x.m), "number-size", log << ": " << x.n.size() << " words, expected " << words63(x.m));
        std::string s = x.n;
        REQUIRE(s == x.m.str(), "number-value", log << ": got " << s << " expected " << x.m.str());
    };
    static const uint64_t X[] = {0, 1, 2, 9, 10, (1ULL << 62), (1ULL << 63) - 1, 1ULL << 63, ~0ULL, ~0ULL - 1, 0xFFFFFFFFULL, 1ULL << 32};
    for (int s = rng.range(5, 50); s > 0; --s) {
        int i = (int) rng.below(K), j = (int) rng.below(K);
        size_t w;
        switch (rng.below(8)) {
        case 0: { uint64_t x = rng.coin() ? X[rng.below(12)] : rng.next() >> rng.below(64); Big b(x); a[i].room(words63(b)); w = a[i].n.store(x); a[i].m = b; REQUIRE(w == words63(b), "number-words", log << " store " << x << " returned " << w); REQUIRE(a[i].n == x && !(a[i].n != x), "number-equal", log << " store " << x << ": not equal to it"); log += " =" + std::to_string(x); break; }
        case 1: if (i != j) { a[i].room(words63(a[j].m)); w = a[i].n.store(a[j].n); a[i].m = a[j].m; REQUIRE(w == words63(a[j].m), "number-words", log << " store"); log += " copy"; } break;
        case 2: case 3: case 4: { Big b = a[i].m; b += a[j].m; a[i].room(words63(b)); if (i != j) {} w = a[i].n.add(a[j].n); a[i].m = b; REQUIRE(w == words63(b), "number-words", log << " add returned " << w); log += i == j ? " self-add" : " add"; count("number_adds"); break; }
        case 5: { int k = rng.chance(0.3) ? (int) (63 * rng.below(4)) + rng.range(-1, 1) : rng.range(0, 200); if (k < 0) k = 0; if (a[i].m.d.size() > 60) break; Big b = a[i].m; bigShift(b, k); a[i].room(words63(b)); w = a[i].n.shiftLeft(k); a[i].m = b; REQUIRE(w == words63(b), "number-words", log << " shift " << k << " returned " << w); log += " <<" + std::to_string(k); count("number_shifts"); break; }
        case 6: { uint32_t d = rng.chance(0.5) ? 1 + (uint32_t) rng.below(20) : (uint32_t) rng.next() | 1; Big b = a[i].m; uint32_t want = bigDivide(b, d), got = a[i].n.divide(d); a[i].m = b; REQUIRE(got == want, "number-remainder", log << " divide by " << d << ": remainder " << got << " expected " << want); log += " /" + std::to_string(d); count("number_divisions"); break; }
        default: REQUIRE((a[i].n == a[j].n) == (a[i].m.str() == a[j].m.str()) && (a[i].n != a[j].n) != (a[i].n == a[j].n), "number-equal", log << ": equality"); break;
        }
        for (int k = 0; k < K; ++k) check(a[k]);
        if (words63(a[i].m) <= 2) { unsigned __int128 v = a[i].n.translate<unsigned __int128>(); Big b((uint64_t) (v >> 64)); bigShift(b, 64); b += Big((uint64_t) v); REQUIRE(b.str() == a[i].m.str(), "number-translate", log << " translate"); }
        if (a[i].m.str().size() <= 18) REQUIRE(std::to_string(a[i].n.translate<uint64_t>()) == a[i].m.str(), "number-translate", log << " translate u64");
        maxcount("number_words", words63(a[i].m));
    }
    { int s0 = (int) rng.below(2); // a number without storage is zero and can only be zero
        BigNumber z;
        Num& x = a[rng.below(K)];
        bool zero = x.m.str() == "0";
        REQUIRE(z.size() == 1 && z == (uint64_t) 0 && !(z == (uint64_t) 1) && z == BigNumber(), "number-null", log << ": number without storage is not zero");
        REQUIRE((z == x.n) == zero && (x.n == z) == zero && (z != x.n) == !zero, "number-null", log << ": comparison with a number without storage");
        bool threw = false;
        try { size_t w = z.store(x.n); REQUIRE(w == 1, "number-null", log << ": " << w << " words stored"); } catch (std::runtime_error&) { threw = true; }
        REQUIRE(threw == !zero, "number-null", log << ": store " << x.m.str() << " in a number without storage");
        threw = false;
        try { z.store((uint64_t) s0); } catch (std::runtime_error&) { threw = true; }
        REQUIRE(threw == (s0 != 0), "number-null", log << ": store " << s0 << " in a number without storage");
        x.room(1); x.m = Big(0);
        REQUIRE(x.n.store(z) == 1, "number-null", log << ": copy of a number without storage");
        check(x);
    }
    // fixed size
    FixedBigNumber<6> f((uint32_t) rng.next()), g; Big fm, gm;
    { std::string t = f; fm = Big(strtoull(t.c_str(), 0, 10)); }
    for (int s = rng.range(3, 60); s > 0; --s) {
        switch (rng.below(6)) {
        case 0: { uint32_t x = (uint32_t) rng.next(); g = x; gm = Big(x); break; }
        case 1: case 2: { Big b = fm; b += gm; Big lim(1); bigShift(lim, 192); if (b.str().size() < lim.str().size()) { f += g; fm = b; } break; }
        case 3: { Big b = fm; b += fm; if (b.str().size() < 57) { f += f; fm = b; } break; }
        case 4: { uint32_t d = rng.coin() ? 1 + (uint32_t) rng.below(20) : (uint32_t) rng.next() | 1; Big b = fm; uint32_t want = bigDivide(b, d), got = f.divide(d); fm = b; REQUIRE(got == want, "fixed-remainder", "FixedBigNumber divide by " << d << ": remainder " << got << " expected " << want); break; }
        default: { FixedBigNumber<6> h = g + g; Big b = gm; b += gm; REQUIRE(std::string(h) == b.str(), "fixed-value", "FixedBigNumber operator+"); REQUIRE((f == g) == (fm.str() == gm.str()), "fixed-equal", "FixedBigNumber =="); std::swap(f, g); std::swap(fm, gm); break; }
        }
        REQUIRE(std::string(f) == fm.str(), "fixed-value", "FixedBigNumber: got " << std::string(f) << " expected " << fm.str());
    }
    nontrivial(mix64(std::hash<std::string>()(log)));
    count("nontrivial_cases"); count("number_cases");
    sample(log);
}

void part1(Rng&); void part2(Rng&); void part3(Rng&);
#if VF_PART == 1
void part1(Rng& rng) {
    switch (rng.below(5)) {
    case 0: vectors<int, size_t>(rng, "MyVector<int>"); break;
    case 1: case 2: vectors<Obj, size_t>(rng, "MyVector<Obj>"); break;
    case 3: vectors<Obj, int>(rng, "MyVector<Obj,int>"); break;
    default: dataTables(rng); break;
    }
}
#elif VF_PART == 2
void part2(Rng& rng) {
    switch (rng.below(5)) {
    case 0: hashSets<uint64_t>(rng, "uint64"); break;
    case 1: hashSets<int>(rng, "int"); break;
    case 2: hashSets<Pt>(rng, "struct"); break;
    case 3: hashSets<int8_t>(rng, "int8"); break;
    default: hashMaps(rng); break;
    }
}
#elif VF_PART == 3
void part3(Rng& rng) {
    switch (rng.below(7)) {
    case 0: lists<uint64_t, 3>(rng); break;
    case 1: lists<uint16_t, 7>(rng); break;
    case 2: lists<uint32_t, 1000>(rng); break;
    case 3: case 4: pools(rng); break;
    default: sets(rng); break;
    }
}
#else
void vf::runCase(Rng& rng) {
    live().m.clear(); live().err.clear();
    switch (rng.below(10)) {
    case 0: case 1: part1(rng); break;
    case 2: case 3: part2(rng); break;
    case 4: case 5: case 6: part3(rng); break;
    case 7: case 8: numbers(rng); break;
    default: ranges(rng); break;
    }
}
VF_MAIN
#endif
