// PARTS: 0 1 2 3
// C10: iteration yields every set once; a found instance is a member.
#include "specs.hpp"
using namespace vf;
typedef std::set<int> Set;

static void enumerate(DdStructure<2> const& dd, std::set<Set>& out) {
    typedef std::decay<decltype(dd.root())>::type N;
    std::vector<std::pair<N, Set> > st;
    st.push_back({dd.root(), Set()});
    while (!st.empty()) {
        auto e = st.back(); st.pop_back();
        N f = e.first;
        if (f.row() == 0) { if (f.col() == 1) out.insert(e.second); continue; }
        st.push_back({dd.child(f, 0), e.second});
        Set s = e.second; s.insert(f.row());
        st.push_back({dd.child(f, 1), s});
    }
}

// many levels, no dead ends, few accepted paths
static Table tallSparse(Rng& rng, int AR, double branch) {
    Table T;
    T.n = rng.chance(0.4) ? rng.range(60, 70) : rng.chance(0.4) ? rng.range(124, 134) : rng.range(30, 300);
    T.arity = AR;
    T.t.resize(T.n + 1);
    T.t[0].resize(2);
    for (int i = 1; i <= T.n; ++i) {
        T.t[i].resize(1 + rng.below(3));
        for (auto& c : T.t[i]) {
            c.assign(AR, Ref{0, 0});
            int live = (int) rng.below(AR);
            for (int b = 0; b < AR; ++b) if (b == live || rng.chance(branch)) {
                int l = rng.chance(0.05) ? rng.range(0, i - 1) : i - 1;
                c[b] = l == 0 ? Ref{0, 1} : Ref{l, (int) rng.below(T.t[l].size())};
            }
        }
    }
    T.root = Ref{T.n, (int) rng.below(T.t[T.n].size())};
    count("tall_automata");
    return T;
}

static void iterate(Rng& rng) {
    TableParam p = randomParam(rng, 2, 9, 7);
    if (rng.chance(0.6)) { p.rootTop = true; p.pZero = 0.1; }
    TableP T = mk(rng.chance(0.02) ? tallSparse(rng, 2, 0.015) : randomTable(rng, p));
    bool mp = rng.chance(0.3);
    if (mp) chooseThreads(rng);
    DdStructure<2> dd(SaltSpec<2>(T, 1 + rng.below(3)), mp);
    int pre = (int) rng.below(5);
    if (pre == 0) dd.zddReduce(); else if (pre == 1) dd.qddReduce(); else if (pre == 2) dd = DdStructure<2>(zddUnreduction(dd, dd.topLevel() + 2));
    if (rng.chance(0.05)) dd = DdStructure<2>(rng.range(0, 10));
    std::string log = "pre=" + std::to_string(pre) + " " + T->str();
    std::set<Set> want, got;
    if (T->n > 20 && dd.zddCardinality().size() > 3) { count("too_many_sets"); return; }
    enumerate(dd, want);
    DdStructure<2> const& d = dd;
    uint64_t steps = 0;
    DdStructure<2>::const_iterator e = d.end();
    std::vector<DdStructure<2>::const_iterator> seen;
    for (DdStructure<2>::const_iterator t = d.begin(); t != e; ++t) {
        REQUIRE(++steps <= want.size(), "too-many", "iteration yields more than " << want.size() << " sets: " << log);
        REQUIRE(*t == *t.operator->() && t == t && !(t != t), "iterator", "iterator inconsistent: " << log);
        if (!got.insert(*t).second) fail("repeated", "a set is yielded twice: " + log);
        if (!want.count(*t)) fail("extra", "a set outside the family is yielded: " + log);
        if (seen.size() < 24) seen.push_back(t);
    }
    if (got.size() != want.size()) fail("missing", "iteration yields " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " sets: " + log);
    for (size_t i = 0; i < seen.size(); ++i) {
        if (seen[i] == e) fail("equal", "a position equals end(): " + log);
        for (size_t j = 0; j < seen.size(); ++j) if ((seen[i] == seen[j]) != (i == j) || (seen[i] != seen[j]) == (i == j)) fail("equal", "iterator equality is not position equality: " + log);
    }
    // a second traversal meets the same positions
    size_t k = 0;
    for (DdStructure<2>::const_iterator t = d.begin(); t != d.end() && k < seen.size(); ++t, ++k) if (!(t == seen[k])) fail("replay", "a second traversal differs: " + log);
    // copies advance independently
    if (seen.size() >= 2) { DdStructure<2>::const_iterator c = seen[0]; ++c; if (!(c == seen[1]) || c == seen[0]) fail("copy", "copied iterator advances wrongly: " + log); }
    if (want.empty() && !(d.begin() == d.end())) fail("empty", "begin()!=end() for the empty family: " + log);
    count("sets_iterated", got.size());
    count("iterations");
    if (want.empty()) count("empty_families");
    if (want.size() > 1) { nontrivial(T->hash() ^ pre); count("nontrivial_iterations"); }
    sample("iterate " + log);
}

// is the list of (level,value) pairs an accepting path of the table?
static bool accepts(Table const& T, std::vector<std::pair<int, int> > v, std::string& why) {
    Ref r = T.root;
    // any order of listing is fine
    std::sort(v.begin(), v.end(), [](std::pair<int, int> a, std::pair<int, int> b) { return a.first > b.first; });
    size_t k = 0;
    while (r.level > 0) {
        if (k >= v.size()) { why = "a decided level is missing"; return false; }
        if (v[k].first != r.level) { why = "levels listed do not match the path"; return false; }
        if (v[k].second < 0 || v[k].second >= T.arity) { why = "impossible value"; return false; }
        r = T.t[r.level][r.idx][v[k].second];
        ++k;
    }
    if (k != v.size()) { why = "undecided level or duplicate listed"; return false; }
    if (r.idx != 1) { why = "the assignment is rejected"; return false; }
    return true;
}

template<int AR>
static void instance(Rng& rng) {
    TableParam p = randomParam(rng, AR, AR > 4 ? 4 : 7, 5);
    if (rng.chance(0.5)) p.pZero = 0.5;
    TableP T = mk(rng.chance(0.03) ? tallSparse(rng, AR, 0.2) : randomTable(rng, p));
    Canon C(PATH, AR);
    int want = canonTable(C, *T);
    life().reset();
    auto tryOne = [&](auto const& spec, std::string const& what, bool exact) {
        for (int k = 0; k < 3; ++k) {
            srand((unsigned) rng.next());
            std::vector<std::pair<int, int> > v;
            bool found = true;
            try { v = spec.findOneInstance(); } catch (std::runtime_error const&) { found = false; }
            if (found != (want != 0)) fail("existence", what + (found ? " found an instance of an empty spec: " : " found nothing although something is accepted: ") + T->str());
            if (found) {
                std::string why;
                if (exact && !accepts(*T, v, why)) fail("instance", what + ": " + why + ": " + T->str());
                if (!exact) { // complete with zeros
                    std::vector<int> a(T->n + 1, 0);
                    std::set<int> ls;
                    for (auto& e : v) { REQUIRE(e.first >= 1 && e.first <= T->n && ls.insert(e.first).second, "instance", what << ": level listed twice or impossible: " << T->str()); a[e.first] = e.second; }
                    if (!evalTable(*T, T->root, a, true, T->n)) fail("instance", what + ": the assignment is rejected: " + T->str());
                }
                count("instances");
            }
            else count("no_instance");
        }
    };
    std::string fl = withSpec<AR>(rng, T, [&](auto const& spec) { tryOne(spec, "spec", true); });
    if (!life().error.empty()) fail("life", life().error + ": " + T->str());
    DdStructure<AR> dd((ScalarSpec<AR>(T)));
    int pre = (int) rng.below(3);
    if (pre == 0) { dd.zddReduce(); tryOne(dd, "zdd", false); }
    else if (pre == 1) tryOne(dd, "diagram", true);
    count("flavour:" + fl);
    if (want >= 2) { nontrivial(T->hash()); count("nontrivial_searches"); }
}

void it2(Rng&); void in2(Rng&); void in3(Rng&);
#if VF_PART == 1
void it2(Rng& r) { iterate(r); }
#elif VF_PART == 2
void in2(Rng& r) { instance<2>(r); }
#elif VF_PART == 3
void in3(Rng& r) { if (r.coin()) instance<3>(r); else instance<6>(r); }
#else
void vf::runCase(Rng& rng) { int k = (int) rng.below(4); if (k < 2) it2(rng); else if (k == 2) in2(rng); else in3(rng); }
VF_MAIN
#endif
