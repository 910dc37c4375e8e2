// Table-driven specs in every flavour of spec base class the library offers.
#pragma once
#include "common.hpp"
#include <tdzdd/DdSpec.hpp>
#include <tdzdd/DdSpecOp.hpp>
#include <tdzdd/DdStructure.hpp>
#include <memory>

namespace vf {
using namespace tdzdd;
typedef std::shared_ptr<Table const> TableP;

// Scratch word written by every callback: two unsynchronised callbacks on one
// spec copy are a data race that ThreadSanitizer reports.
struct Touch {
    mutable unsigned n = 0;
    void operator()() const { ++n; yieldPoint(); }
};

inline int refToLevel(Ref const& r) { return r.level > 0 ? r.level : (r.idx ? -1 : 0); }

// 1. scalar state
template<int AR>
class ScalarSpec : public DdSpec<ScalarSpec<AR>, int, AR> {
    TableP T; Touch touch;
public:
    explicit ScalarSpec(TableP t) : T(t) {}
    int getRoot(int& s) const { s = T->root.idx; return refToLevel(T->root); }
    int getChild(int& s, int level, int b) const {
        touch();
        Ref r = T->child(level, s, b);
        s = r.idx;
        return refToLevel(r);
    }
};

// the library asks for hashes and equality at the level the state belongs to
inline void atLevel(long has, int level, char const* what) {
    if (has != level) callbacks().err(std::string(what) + " at level " + std::to_string(level) + " of a state that belongs to level " + std::to_string(has));
}

// 2. scalar state, all hash values collide; hash and equality depend on the
// level and ignore the history the state carries along
template<int AR>
class CollideSpec : public DdSpec<CollideSpec<AR>, long, AR> {
    TableP T; Touch touch;
    static long enc(Ref r, long junk) { return (junk & 0xff) << 54 | (long) r.level << 40 | (long) r.idx; }
    static int level(long s) { return (int) (s >> 40 & 0x3fff); }
    static int idx(long s) { return (int) (s & 0xffffffffffL); }
public:
    explicit CollideSpec(TableP t) : T(t) {}
    int getRoot(long& s) const { s = enc(T->root, 0); return refToLevel(T->root); }
    int getChild(long& s, int lv, int b) const {
        touch();
        atLevel(level(s), lv, "getChild");
        s = enc(T->child(lv, idx(s), b), (s >> 54) * 5 + b + lv);
        return refToLevel(Ref{level(s), idx(s)});
    }
    size_t hashCodeAtLevel(long const& s, int lv) const { touch(); atLevel(level(s), lv, "hash"); return 42; }
    bool equalToAtLevel(long const& s, long const& t, int lv) const { touch(); atLevel(level(s), lv, "comparison"); atLevel(level(t), lv, "comparison"); return idx(s) == idx(t); }
};

// 3. scalar state with salt: distinct states that mean the same
template<int AR>
class SaltSpec : public DdSpec<SaltSpec<AR>, uint64_t, AR> {
    TableP T; Touch touch; unsigned salts;
public:
    SaltSpec(TableP t, unsigned salts) : T(t), salts(salts) {}
    int getRoot(uint64_t& s) const { s = T->root.idx; return refToLevel(T->root); }
    int getChild(uint64_t& s, int level, int b) const {
        touch();
        uint64_t salt = s >> 32;
        Ref r = T->child(level, (int) (s & 0xffffffffu), b);
        salt = mix64(salt * 31 + b * 7 + level) % salts;
        s = (uint64_t) r.idx | (salt << 32);
        return refToLevel(r);
    }
};

// where in an array the digits of a state number are kept: anywhere, often in the last element
struct Digits {
    std::vector<int> pos; // digits first, then reserved cells
    int bits;
    Digits(int m, int reserved, uint64_t seed) {
        int d = m - reserved >= 8 ? 8 : 4;
        bits = d == 8 ? 3 : 7;
        std::vector<int> all(m);
        for (int k = 0; k < m; ++k) all[k] = k;
        Rng rng(seed);
        for (int k = 0; k < d + reserved && k < m; ++k) std::swap(all[k], all[k + rng.below(m - k)]);
        int w = (int) rng.below(3), want = w == 0 ? m - 1 : w == 1 ? 0 : -1; // the lowest digit last, first or anywhere
        if (want >= 0) for (int k = 0; k < m; ++k) if (all[k] == want) { std::swap(all[k], all[0]); break; }
        pos.assign(all.begin(), all.begin() + std::min(m, d + reserved));
        count(pos[0] == m - 1 ? "state_in_last_element" : "state_elsewhere");
        if ((int) pos.size() < d + reserved) abort();
        pos.push_back(d);
    }
    int digits() const { return pos.back(); }
    int cell(int r) const { return pos[digits() + r]; }
    template<typename E> void put(E* a, int m, unsigned idx) const { for (int k = 0; k < m; ++k) a[k] = 9; for (int k = 0; k < digits(); ++k) a[pos[k]] = (E) (idx >> (bits * k) & ((1u << bits) - 1)); }
    template<typename E> unsigned get(E const* a) const { unsigned x = 0; for (int k = 0; k < digits(); ++k) x |= ((unsigned) a[pos[k]] & ((1u << bits) - 1)) << (bits * k); return x; }
};

// 4. POD array; E may be narrower than a machine word
template<typename E, int AR>
class PodSpec : public PodArrayDdSpec<PodSpec<E, AR>, E, AR> {
    typedef PodArrayDdSpec<PodSpec<E, AR>, E, AR> Base;
    static bool const LV = sizeof(E) == 2; // hash and equality depend on the level and ignore one element (the history)
    TableP T; Touch touch; int m; Digits D;
    void put(E* a, int level, int idx) const {
        E old = LV ? a[D.cell(1)] : 0;
        D.put(a, m, idx);
        if (LV) { a[D.cell(0)] = (E) level; a[D.cell(1)] = (E) ((old * 5 + level + idx) & 0xff); }
    }
    int get(E const* a) const { return (int) D.get(a); }
    int lv(E const* a) const { return a[D.cell(0)]; }
public:
    PodSpec(TableP t, int m0) : T(t), m(LV && m0 < 6 ? 6 : m0 < 4 ? 4 : m0), D(m, LV ? 2 : 0, t->hash() + m) { this->setArraySize(m); }
    size_t hashCodeAtLevel(E const* a, int level) const {
        if (!LV) return Base::hashCodeAtLevel(a, level);
        touch(); atLevel(lv(a), level, "hash");
        return (size_t) get(a) * 7919;
    }
    bool equalToAtLevel(E const* a, E const* b, int level) const {
        if (!LV) return Base::equalToAtLevel(a, b, level);
        touch(); atLevel(lv(a), level, "comparison"); atLevel(lv(b), level, "comparison");
        return get(a) == get(b);
    }
    int getRoot(E* a) const { if (LV) a[D.cell(1)] = 0; put(a, T->root.level, T->root.idx); return refToLevel(T->root); }
    int getChild(E* a, int level, int b) const {
        touch();
        if (LV) atLevel(lv(a), level, "getChild");
        Ref r = T->child(level, get(a), b);
        put(a, r.level, r.idx);
        return refToLevel(r);
    }
    // numbers also for character arrays: a raw character could end a DOT string
    void printState(std::ostream& os, E const* a) const { for (int k = 0; k < m; ++k) os << (k ? "," : "") << (long) a[k]; }
};

// 5. hybrid: scalar + array; the meaning is split between both parts
template<typename S, typename E, int AR>
class HybSpec : public HybridDdSpec<HybSpec<S, E, AR>, S, E, AR> {
    typedef HybridDdSpec<HybSpec<S, E, AR>, S, E, AR> Base;
    static bool const LV = sizeof(S) == 4; // hash and equality of the scalar depend on the level and ignore its high bits
    TableP T; Touch touch; int m; Digits D; int sbits, shift;
public:
    HybSpec(TableP t, int m0) : T(t), m(m0 < 4 ? 4 : m0), D(m, 0, t->hash() ^ m) {
        this->setArraySize(m);
        uint64_t h = mix64(t->hash() + 5 * m);
        sbits = LV || h % 3 == 0 ? 4 : h % 3 == 1 ? 1 : 0; // how much of the state is in the scalar
        shift = LV || (h >> 20) % 2 ? 0 : (int) sizeof(S) * 8 - 6;
    }
    size_t hashCodeAtLevel(S const& s, int level) const {
        if (!LV) return Base::hashCodeAtLevel(s, level);
        touch(); atLevel((long) s >> 4 & 0x3fff, level, "hash");
        return (size_t) (s & 15) * 7919;
    }
    bool equalToAtLevel(S const& s, S const& t, int level) const {
        if (!LV) return Base::equalToAtLevel(s, t, level);
        touch(); atLevel((long) s >> 4 & 0x3fff, level, "comparison"); atLevel((long) t >> 4 & 0x3fff, level, "comparison");
        return (s & 15) == (t & 15);
    }
    void put(S& s, E* a, int level, int idx, int junk) const {
        s = (S) ((uint64_t) (idx & ((1 << sbits) - 1)) << shift);
        if (LV) s = (S) ((long) s | (long) level << 4 | ((long) junk & 0x1fff) << 18);
        D.put(a, m, (unsigned) idx >> sbits);
    }
    int get(S const& s, E const* a) const { return (int) ((uint64_t) s >> shift & ((1 << sbits) - 1)) | (int) (D.get(a) << sbits); }
    int getRoot(S& s, E* a) const { put(s, a, T->root.level, T->root.idx, 0); return refToLevel(T->root); }
    int getChild(S& s, E* a, int level, int b) const {
        touch();
        if (LV) atLevel((long) s >> 4 & 0x3fff, level, "getChild");
        Ref r = T->child(level, get(s, a), b);
        put(s, a, r.level, r.idx, (int) ((long) s >> 18) * 5 + b + level);
        return refToLevel(r);
    }
    void printState(std::ostream& os, S const& s, E const* a) const { os << (long) s; for (int k = 0; k < m; ++k) os << "," << (long) a[k]; }
};

// 6. stateless: needs a table of width one
template<int AR>
class NoStateSpec : public StatelessDdSpec<NoStateSpec<AR>, AR> {
    TableP T; Touch touch;
public:
    explicit NoStateSpec(TableP t) : T(t) {}
    int getRoot() const { return refToLevel(T->root); }
    int getChild(int level, int b) const { touch(); return refToLevel(T->child(level, 0, b)); }
};

// 7. object state with a life-cycle monitor
struct LifeMonitor {
    std::mutex mu;
    std::unordered_map<void const*, uint64_t> live;
    uint64_t created = 0, destroyed = 0, copied = 0, peak = 0, levelsDone = 0;
    std::string error;
    void err(std::string const& e) { if (error.empty()) error = e; }
    void add(void const* p, bool copy) {
        std::lock_guard<std::mutex> g(mu);
        ++created; if (copy) ++copied;
        // constructing over a live object loses the old one
        if (!live.emplace(p, created).second) err("state constructed over a live state");
        if (live.size() > peak) peak = live.size();
    }
    void del(void const* p) {
        std::lock_guard<std::mutex> g(mu);
        ++destroyed;
        if (!live.erase(p)) err("state destroyed twice or never constructed");
    }
    void use(void const* p, char const* what) {
        std::lock_guard<std::mutex> g(mu);
        if (!live.count(p)) err(std::string("use of a dead state in ") + what);
    }
    void reset() { live.clear(); created = destroyed = copied = peak = levelsDone = 0; error.clear(); }
};
inline LifeMonitor& life() { static LifeMonitor m; return m; }

struct ObjState {
    int* heap; // makes a bitwise copy or a missed destruction visible to ASan/LSan as well
    int salt, lv = 0; // lv: the level the state belongs to
    mutable bool finished = false;
    void use(char const* what) const { life().use(this, what); if (finished) callbacks().err(std::string(what) + " of a state whose level was announced as finished"); }
    ObjState() : heap(new int(0)), salt(0) { life().add(this, false); }
    ObjState(ObjState const& o) : heap(0), salt(o.salt), lv(o.lv) { life().use(&o, "copy"); heap = new int(*o.heap); life().add(this, true); }
    ObjState& operator=(ObjState const& o) { life().use(this, "assign-to"); life().use(&o, "assign-from"); finished = false; *heap = *o.heap; salt = o.salt; lv = o.lv; return *this; }
    ~ObjState() { life().del(this); delete heap; heap = 0; }
    bool operator==(ObjState const& o) const { use("comparison"); o.use("comparison"); return *heap == *o.heap && salt == o.salt; }
    size_t hash() const { use("hash"); return (size_t) *heap * 2654435761u + salt; }
    friend std::ostream& operator<<(std::ostream& os, ObjState const& s) { life().use(&s, "print"); return os << "<" << *s.heap << "/" << s.salt << ">"; }
};

// Which levels a spec (with all its copies) expanded and which it was told the end of.
struct LevelBook {
    std::mutex mu;
    std::map<uint64_t, std::pair<std::set<int>, std::set<int> > > family; // expanded, announced
    std::set<int> announced;                                                // to any spec
    std::string instance;                                                   // a single object was never told
    uint64_t ids = 0, checked = 0;
    void reset() { std::lock_guard<std::mutex> g(mu); std::map<uint64_t, std::pair<std::set<int>, std::set<int> > >().swap(family); std::set<int>().swap(announced); std::string().swap(instance); }
    // direct: no other spec around it decides which levels exist
    std::string verdict(bool direct) {
        std::lock_guard<std::mutex> g(mu);
        if (direct && !instance.empty()) return instance;
        for (auto& f : family) for (int i : f.second.first) { ++checked; if (!f.second.second.count(i) && (direct || announced.count(i))) return "states were expanded at level " + std::to_string(i) + " but its end was never announced to the spec"; }
        return "";
    }
};
inline LevelBook& levelBook() { static LevelBook b; return b; }
struct LevelLog {
    uint64_t id; mutable std::set<int> pending;
    LevelLog() { std::lock_guard<std::mutex> g(levelBook().mu); id = ++levelBook().ids; }
    LevelLog(LevelLog const& o) : id(o.id) {}
    LevelLog& operator=(LevelLog const& o) { id = o.id; return *this; }
    ~LevelLog() { if (!pending.empty()) { std::lock_guard<std::mutex> g(levelBook().mu); levelBook().instance = "the spec object that expanded states at level " + std::to_string(*pending.rbegin()) + " was never told the end of the level"; } }
    void expand(int level) const { if (!pending.insert(level).second) return; std::lock_guard<std::mutex> g(levelBook().mu); levelBook().family[id].first.insert(level); }
    void done(int level) const { pending.erase(level); std::lock_guard<std::mutex> g(levelBook().mu); levelBook().family[id].second.insert(level); levelBook().announced.insert(level); }
};

// once the end of a level is announced (a spec may release what its states share), its states are no longer expanded,
// hashed or compared (they may still be printed, or copied as the stale part of a composite state)
inline void levelDone(int level) {
    std::lock_guard<std::mutex> g(life().mu);
    for (auto const& e : life().live) { ObjState const* s = static_cast<ObjState const*>(e.first); if (s->lv == level) s->finished = true; }
    ++life().levelsDone;
}

template<int AR>
class ObjSpec : public DdSpec<ObjSpec<AR>, ObjState, AR> {
    TableP T; Touch touch; LevelLog log; int salts;
public:
    ObjSpec(TableP t, int salts) : T(t), salts(salts) {}
    int getRoot(ObjState& s) const { life().use(&s, "getRoot"); *s.heap = T->root.idx; s.lv = T->root.level; return refToLevel(T->root); }
    int getChild(ObjState& s, int level, int b) const {
        touch();
        s.use("getChild");
        log.expand(level);
        atLevel(s.lv, level, "getChild");
        Ref r = T->child(level, *s.heap, b);
        *s.heap = r.idx;
        s.lv = r.level;
        s.salt = salts > 1 ? (int) (mix64(s.salt * 17 + level * 5 + b) % salts) : 0;
        return refToLevel(r);
    }
    void destructLevel(int level) { touch(); levelDone(level); log.done(level); }
    size_t hashCodeAtLevel(ObjState const& s, int level) const { touch(); atLevel(s.lv, level, "hash"); return s.hash(); }
    bool equalToAtLevel(ObjState const& s, ObjState const& t, int level) const { touch(); atLevel(s.lv, level, "comparison"); atLevel(t.lv, level, "comparison"); return s == t; }
};

// 8. hybrid with an object scalar
template<int AR>
class ObjHybSpec : public HybridDdSpec<ObjHybSpec<AR>, ObjState, short, AR> {
    TableP T; Touch touch; LevelLog log; int m;
    void put(ObjState& s, short* a, Ref r) const { *s.heap = r.idx >> 1; s.lv = r.level; a[m - 1] = (short) (r.idx & 1); } // the lowest bit is in the last element
public:
    ObjHybSpec(TableP t, int m) : T(t), m(m < 1 ? 1 : m) { this->setArraySize(this->m); }
    int getRoot(ObjState& s, short* a) const { life().use(&s, "getRoot"); for (int k = 0; k < m; ++k) a[k] = 0; put(s, a, T->root); return refToLevel(T->root); }
    int getChild(ObjState& s, short* a, int level, int b) const {
        touch();
        s.use("getChild");
        log.expand(level);
        atLevel(s.lv, level, "getChild");
        Ref r = T->child(level, *s.heap << 1 | a[m - 1], b);
        put(s, a, r);
        return refToLevel(r);
    }
    void destructLevel(int level) { touch(); levelDone(level); log.done(level); }
    size_t hashCodeAtLevel(ObjState const& s, int level) const { touch(); atLevel(s.lv, level, "hash"); return s.hash(); }
    bool equalToAtLevel(ObjState const& s, ObjState const& t, int level) const { touch(); atLevel(s.lv, level, "comparison"); atLevel(t.lv, level, "comparison"); return s == t; }
};

// 8. scalar state of any size in bytes: the state number is in its last bytes
template<int N>
struct ByteState {
    unsigned char c[N];
    void set(unsigned v) { for (int i = 0; i < N; ++i) c[i] = (unsigned char) (i * 37 + 1); c[N - 1] = (unsigned char) v; c[N - 2] = (unsigned char) (v >> 8); if (N > 2) c[N > 2 ? N - 3 : 0] = (unsigned char) (v >> 16); }
    unsigned get() const {
        for (int i = 0; i + 3 < N; ++i) if (c[i] != (unsigned char) (i * 37 + 1)) fail("state-bytes", "a state was overwritten outside its callbacks");
        return c[N - 1] | (unsigned) c[N - 2] << 8 | (N > 2 ? (unsigned) c[N > 2 ? N - 3 : 0] << 16 : 0u);
    }
    size_t hash() const { return get() * 314159257u; }
    bool operator==(ByteState const& o) const { return get() == o.get(); }
    friend std::ostream& operator<<(std::ostream& os, ByteState const& s) { return os << s.get(); }
};
template<int N, int AR>
class ByteSpec : public DdSpec<ByteSpec<N, AR>, ByteState<N>, AR> {
    TableP T; Touch touch;
public:
    explicit ByteSpec(TableP t) : T(t) {}
    int getRoot(ByteState<N>& s) const { s.set((unsigned) T->root.idx); return refToLevel(T->root); }
    int getChild(ByteState<N>& s, int level, int b) const {
        touch();
        unsigned v = s.get();
        if (v >= T->t[level].size()) fail("state-bytes", "a state was changed outside its callbacks");
        Ref r = T->child(level, (int) v, b);
        s.set((unsigned) r.idx);
        return refToLevel(r);
    }
};

// Applies f to a spec of a randomly chosen flavour that implements T.
// Returns the flavour's name.
template<int AR, typename F>
std::string withSpec(Rng& rng, TableP T, F f, bool allowObj = true) {
    bool narrow = true;
    for (auto& l : T->t) if (l.size() > 1 && &l != &T->t[0]) narrow = false;
    if (T->root.level > 0 && T->root.idx != 0) narrow = false;
    if (narrow && rng.chance(0.5)) { f(NoStateSpec<AR>(T)); return "Stateless"; }
    if constexpr (AR == 2) {
        if (rng.chance(0.1)) { if (rng.coin()) { f(ByteSpec<3, AR>(T)); return "Scalar<3 bytes>"; } else { f(ByteSpec<9, AR>(T)); return "Scalar<9 bytes>"; } }
        switch ((int) rng.below(allowObj ? 13 : 11)) {
        case 0: case 1: f(ScalarSpec<AR>(T)); return "Scalar";
        case 2: f(CollideSpec<AR>(T)); return "Scalar/colliding-hash";
        case 3: f(SaltSpec<AR>(T, 1 + rng.below(6))); return "Scalar/salted";
        case 4: f(PodSpec<char, AR>(T, rng.range(4, 40))); return "PodArray<char>";
        case 5: f(PodSpec<short, AR>(T, rng.range(4, 24))); return "PodArray<short>";
        case 6: f(PodSpec<int, AR>(T, rng.range(4, 9))); return "PodArray<int>";
        case 7: f(PodSpec<uint64_t, AR>(T, rng.chance(0.1) ? rng.range(3000, 7000) : rng.range(4, 6))); return "PodArray<u64>";
        case 8: f(HybSpec<int, short, AR>(T, rng.range(3, 9))); return "Hybrid<int,short>";
        case 9: f(HybSpec<char, char, AR>(T, rng.range(3, 30))); return "Hybrid<char,char>";
        case 10: f(HybSpec<uint64_t, int, AR>(T, rng.range(3, 7))); return "Hybrid<u64,int>";
        case 11: f(ObjSpec<AR>(T, rng.range(1, 3))); return "Object";
        default: f(ObjHybSpec<AR>(T, rng.range(1, 6))); return "Hybrid<Object,short>";
        }
    }
    else if constexpr (AR == 3) {
        switch ((int) rng.below(allowObj ? 6 : 4)) {
        case 0: f(SaltSpec<AR>(T, 1 + rng.below(6))); return "Scalar/salted";
        case 1: f(CollideSpec<AR>(T)); return "Scalar/colliding-hash";
        case 2: f(PodSpec<short, AR>(T, rng.range(4, 24))); return "PodArray<short>";
        case 3: f(HybSpec<char, char, AR>(T, rng.range(3, 30))); return "Hybrid<char,char>";
        default: f(ObjSpec<AR>(T, rng.range(1, 3))); return "Object";
        }
    }
    else {
        if (rng.chance(0.2)) { f(ByteSpec<11, AR>(T)); return "Scalar<11 bytes>"; }
        if (rng.coin()) { f(SaltSpec<AR>(T, 1 + rng.below(6))); return "Scalar/salted"; }
        f(PodSpec<char, AR>(T, rng.range(4, 40))); return "PodArray<char>";
    }
}

inline TableP mk(Table const& t) { return std::make_shared<Table const>(t); }

} // namespace vf
