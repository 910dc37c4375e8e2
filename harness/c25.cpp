// PARTS: 0 1 2 3
// C25: progress messages only observe, and report what happened.
#include "specs.hpp"
#include <tdzdd/DdEval.hpp>
#include <tdzdd/DdSpecOp.hpp>
#include <tdzdd/dd/PathCounter.hpp>
#include <tdzdd/util/Graph.hpp>
#include <tdzdd/util/MessageHandler.hpp>
#include <tdzdd/util/demangle.hpp>
#include <ctime>
#include <cmath>
using namespace vf;

// The clock the message handlers poll: a case may make it run fast, which
// reaches the long-running form of the progress display.
extern std::atomic<long> clockNow, clockStep;
// The readings behind the resource reports: while virtualClock is set, wall
// clock and processor time (in 1/100 s) and memory (in KB) are chosen by the case.
extern std::atomic<bool> virtualClock;
extern std::atomic<long> wallNow, userNow, rssNow, wallReads, usageReads;
struct Virtual {
    Virtual() { virtualClock = true; }
    ~Virtual() { virtualClock = false; }
    // whether the library takes its readings from the functions replaced here
    bool wall() const { long c = wallReads; ResourceUsage u; (void) u; return wallReads != c; }
    bool user() const { long c = usageReads; ResourceUsage u; (void) u; return usageReads != c; }
    bool rss() const { return user(); }
    static void pass(Rng& rng) { // time goes by
        if (rng.coin()) wallNow += rng.chance(0.3) ? rng.range(0, 100000) : rng.range(0, 300);
        if (rng.coin()) userNow += rng.range(0, 300);
        if (rng.chance(0.3)) rssNow += rng.range(0, 5000);
    }
};

struct Capture { // what is written to std::cerr and std::cout
    std::stringbuf e, o;
    std::streambuf *oe, *oo;
    Capture() : oe(std::cerr.rdbuf(&e)), oo(std::cout.rdbuf(&o)) {}
    ~Capture() { std::cerr.rdbuf(oe); std::cout.rdbuf(oo); }
};
struct Quiet { bool prev; explicit Quiet(bool on) : prev(MessageHandler::showMessages(on)) {} ~Quiet() { MessageHandler::showMessages(prev); } };

struct Line { int indent; std::string text; bool tail; long n; bool progress; int pct; int dots; };
static bool number(std::string const& s, size_t& i, bool frac) {
    if (i < s.size() && s[i] == '-') ++i; // the wall clock may be set back
    size_t b = i;
    while (i < s.size() && isdigit((unsigned char) s[i])) ++i;
    if (i == b) return false;
    if (!frac) return true;
    if (i >= s.size() || s[i] != '.') return false;
    size_t c = ++i;
    while (i < s.size() && isdigit((unsigned char) s[i])) ++i;
    return i - c == 2;
}
// " in 0.00s elapsed, 0.00s user, 12MB." at the end
static bool resourceTail(std::string const& s, size_t& at) {
    at = s.rfind(" in ");
    if (at == std::string::npos) return false;
    size_t i = at + 4;
    auto lit = [&](char const* t) { size_t n = strlen(t); if (s.compare(i, n, t)) return false; i += n; return true; };
    return number(s, i, true) && lit("s elapsed, ") && number(s, i, true) && lit("s user, ") && number(s, i, false) && lit("MB.") && i == s.size();
}
// what the report says: seconds elapsed, seconds of processor time, MB
static bool readTail(std::string const& s, double& e, double& u, double& m) {
    size_t at = s.rfind(" in ");
    return at != std::string::npos && sscanf(s.c_str() + at, " in %lfs elapsed, %lfs user, %lfMB.", &e, &u, &m) == 3;
}
static std::vector<Line> parse(std::string const& log, std::string const& what) {
    std::vector<Line> v;
    size_t p = 0;
    while (p < log.size()) {
        size_t q = log.find('\n', p);
        REQUIRE(q != std::string::npos, "format", what << ": unfinished last line: " << log);
        std::string s = log.substr(p, q - p);
        p = q + 1;
        Line l{0, "", false, -1, false, -1, 0};
        while (l.indent < (int) s.size() && s[l.indent] == ' ') ++l.indent;
        l.text = s.substr(l.indent);
        REQUIRE(!l.text.empty(), "format", what << ": blank line in: " << log);
        size_t at;
        l.tail = resourceTail(l.text, at);
        std::string head = l.tail ? l.text.substr(0, at) : l.text;
        if (l.tail && !head.empty() && head.back() == '>') { size_t k = head.rfind('<'); if (k != std::string::npos) { char* end; l.n = strtol(head.c_str() + k + 1, &end, 10); if (*end != '>') l.n = -1; } }
        for (size_t i = head.size(); i-- > 0;) { // last run of dots
            if (head[i] == '.') { ++l.dots; continue; }
            if (l.dots) break;
        }
        if (l.text[0] == '-' || (l.text[0] == '.' && !l.tail)) {
            l.progress = true;
            size_t i = 0; while (i < l.text.size() && l.text[i] == '-') ++i;
            size_t k = l.text.find('%');
            if (k != std::string::npos) l.pct = atoi(l.text.c_str() + i);
        }
        v.push_back(l);
    }
    return v;
}
// one balanced block at this depth; returns the index after it
static size_t block(std::vector<Line> const& v, size_t i, int depth, int steps, std::string const& what, std::string const& log, int* inner) {
    REQUIRE(i < v.size(), "balance", what << ": no message: " << log);
    REQUIRE(v[i].indent == 2 * depth && !v[i].progress, "indent", what << ": line \"" << v[i].text << "\" is not at depth " << depth << ": " << log);
    REQUIRE(isupper((unsigned char) v[i].text[0]) || !isalpha((unsigned char) v[i].text[0]), "format", what << ": name not capitalised: " << log);
    if (v[i].tail) return i + 1;
    ++i;
    int last = -1;
    while (i < v.size() && v[i].indent > 2 * depth) {
        if (v[i].progress) {
            REQUIRE(v[i].indent == 2 * depth + 2, "indent", what << ": progress line at the wrong depth: " << log);
            if (v[i].pct >= 0) {
                count("percent_lines");
                REQUIRE(v[i].pct > last && v[i].pct <= 100, "percent", what << ": percentages do not grow or exceed 100: " << log);
                if (steps > 0) { bool ok = false; for (int k = 50; k <= steps; k += 50) if (k * 100 / steps == v[i].pct) ok = true; REQUIRE(ok, "percent", what << ": " << v[i].pct << "% is not a multiple of 50 of " << steps << " steps: " << log); }
                last = v[i].pct;
            }
            ++i;
        }
        else { i = block(v, i, depth + 1, 0, what, log, 0); if (inner) ++*inner; }
    }
    REQUIRE(i < v.size() && v[i].indent == 2 * depth && v[i].tail, "balance", what << ": block is not closed: " << log);
    return i + 1;
}
static std::string cap(std::string s) { if (!s.empty()) s[0] = toupper(s[0]); return s; }

struct Outer { // an operation of the user around those of the library
    MessageHandler mh;
};

#if VF_PART == 1
struct CountEval : public DdEval<CountEval, uint64_t> {
    bool show, safe;
    bool showMessages() const { return show; }
    bool isThreadSafe() const { return safe; }
    void evalTerminal(uint64_t& v, bool one) const { v = one; }
    void evalNode(uint64_t& v, int level, DdValues<uint64_t, 2> const& c) const { v = mix64(c.get(0) * 31 + c.get(1) * 7 + level * 3 + c.getLevel(0) + c.getLevel(1)); }
};

struct Program { // what a program computes, from its own random choices
    std::vector<std::string> results;
    std::vector<std::pair<std::string, size_t> > shown; // block name, reported size (or -1: none, -2: unknown)
    std::vector<int> steps, aborted;
};

static void runProgram(uint64_t seed, bool on, Program& P) {
    Rng rng(seed);
    Canon R(RAW, 2);
    DdStructure<2> d, e;
    auto note = [&](std::string const& name, size_t n, int steps, bool ab = false) { P.shown.push_back(std::make_pair(cap(name), n)); P.steps.push_back(steps); P.aborted.push_back(ab); };
    auto res = [&](DdStructure<2> const& x) { P.results.push_back(std::to_string(canonDD(R, x, 2)) + "/" + std::to_string(x.size()) + "/" + std::to_string(x.topLevel())); };
    auto table = [&]() {
        TableParam p = randomParam(rng, 2, rng.chance(0.15) ? 150 : 9, rng.chance(0.2) ? 20 : 5);
        if (rng.chance(0.6)) { p.rootTop = true; p.pDead = 0; p.pZero = 0.1; }
        return mk(randomTable(rng, p));
    };
    int len = rng.range(2, 8);
    for (int k = 0; k < len; ++k) {
        bool mp = rng.coin();
        chooseThreads(rng);
        switch (k == 0 ? 0 : (int) rng.below(9)) {
        case 0: case 1: {
            TableP T = table();
            withSpec<2>(rng, T, [&](auto const& s) { e = d; d = DdStructure<2>(s, mp); note(typenameof(s), d.size(), refToLevel(T->root) > 0 ? T->root.level : 0); });
            res(d); break;
        }
        case 2: {
            d.useMultiProcessors(mp);
            int h = d.topLevel();
            int w = rng.below(3);
            if (w == 0) d.zddReduce(); else if (w == 1) d.bddReduce(); else d.qddReduce();
            note("reduction", d.size(), h);
            res(d); break;
        }
        case 3: {
            d.useMultiProcessors(mp);
            TableP T = table();
            withSpec<2>(rng, T, [&](auto const& s) { d.zddSubset(s); note(typenameof(s), d.size(), -1); });
            res(d); break;
        }
        case 4: {
            auto u = zddUnion(d, e);
            d = DdStructure<2>(u, mp);
            note(typenameof(u), d.size(), -1);
            res(d); break;
        }
        case 5: {
            CountEval ev; ev.show = rng.coin(); ev.safe = rng.coin();
            d.useMultiProcessors(mp);
            P.results.push_back(std::to_string(d.evaluate(ev)));
            if (ev.show) note(typenameof(ev), -1, d.topLevel());
            break;
        }
        case 6: {
            TableP T = table();
            if (T->n > 40) break;
            ScalarSpec<2> s(T);
            int w = rng.below(3);
            P.results.push_back(w == 0 ? countPaths(s) : w == 1 ? countPaths(s, true) : std::to_string(countPaths64(s)));
            note(typenameof(s), -2, -1);
            break;
        }
        case 7: {
            P.results.push_back(d.zddCardinality() + "," + std::to_string(d == e) + "," + std::to_string(d.empty()));
            break;
        }
        default: { // reading a file, well-formed, malformed or missing
            char name[] = "/tmp/vf-c25-XXXXXX";
            int fd = mkstemp(name);
            if (fd < 0) break;
            int m = rng.range(1, 8);
            std::string text;
            for (int i = 0; i < m; ++i) text += "v" + std::to_string(rng.below(6)) + " w" + std::to_string(rng.below(6)) + "\n";
            int kind = rng.below(3);
            if (kind == 1) text += "a b c d\n";
            bool ok = write(fd, text.data(), text.size()) == (ssize_t) text.size();
            close(fd);
            if (kind == 2) unlink(name);
            Graph g;
            std::string r = "read";
            try { g.readEdges(name); r = "ok " + std::to_string(g.edgeSize()) + " " + std::to_string(g.vertexSize()); }
            catch (std::exception const& x) { r = std::string("error "); count("aborted_operations"); note("reading", -1, -1, true); }
            if (r[0] == 'o') note("reading", -1, -1);
            unlink(name);
            if (ok) P.results.push_back(r);
        }
        }
    }
    (void) on;
}

void part1(Rng& rng) {
    uint64_t seed = rng.next();
    clockStep = rng.chance(0.3) ? (rng.coin() ? 5 : 1) : 0;
    int wrap = rng.chance(0.3) ? rng.range(1, 3) : 0;
    Program off, on;
    std::string offErr, offOut, log, out;
    std::ios_base::fmtflags fl = std::cerr.flags(), flAfter;
    std::streamsize pr = std::cerr.precision(rng.range(3, 8)), prIn = std::cerr.precision(), prAfter;
    auto runOff = [&]() { Capture c; Quiet q(false); runProgram(seed, false, off); offErr = c.e.str(); offOut = c.o.str(); };
    bool offFirst = rng.coin();
    if (offFirst) runOff();
    {
        Capture c;
        Quiet q(true);
        std::vector<std::unique_ptr<MessageHandler> > outer;
        for (int i = 0; i < wrap; ++i) { outer.emplace_back(new MessageHandler); outer.back()->begin("outer" + std::to_string(i)); }
        runProgram(seed, true, on);
        int w = rng.below(3);
        for (int i = wrap; i-- > 0;) {
            if (w == 0) outer[i]->end();
            else if (w == 1) outer[i]->end(12345 + i);
            outer.pop_back(); // w == 2: ended by its destruction
        }
        log = c.e.str(); out = c.o.str();
    }
    flAfter = std::cerr.flags(); prAfter = std::cerr.precision();
    std::cerr.precision(pr);
    if (!offFirst) runOff();
    clockStep = 0;
    REQUIRE(offErr.empty() && offOut.empty(), "off", "messages are off, but written: " << offErr << offOut);
    REQUIRE(out.empty(), "stdout", "messages written to the standard output: " << out);
    REQUIRE(flAfter == fl && prAfter == prIn, "stream-state", "the format state of std::cerr changed");
    REQUIRE(on.results.size() == off.results.size(), "result", "different number of results with messages on");
    for (size_t i = 0; i < on.results.size(); ++i) REQUIRE(on.results[i] == off.results[i], "result", "result " << i << " with messages on: " << on.results[i] << ", off: " << off.results[i]);
    std::vector<Line> v = parse(log, "program");
    size_t i = 0;
    for (int k = 0; k < wrap; ++k) {
        if (on.shown.empty() && k == wrap - 1) break; // one line only
        REQUIRE(i < v.size() && v[i].indent == 2 * k && v[i].text == "Outer" + std::to_string(k) && !v[i].tail, "nesting", "outer block " << k << " is not opened: " << log);
        ++i;
    }
    for (size_t k = 0; k < on.shown.size(); ++k) {
        std::string const& name = on.shown[k].first;
        size_t first = i;
        int inner = 0;
        i = block(v, i, wrap, on.steps[k], name, log, &inner);
        REQUIRE(v[first].text.compare(0, name.size(), name) == 0, "name", "block " << k << " should be about " << name << ": " << v[first].text << " in: " << log);
        Line const& l = v[i - 1];
        if (on.aborted[k]) REQUIRE(l.text.find("borted") != std::string::npos, "aborted", name << " ended by an exception is not reported as aborted: " << log);
        else REQUIRE(l.text.find("borted") == std::string::npos, "aborted", name << " is reported as aborted: " << log);
        if (on.shown[k].second == (size_t) -1) REQUIRE(on.aborted[k] || l.n < 0 || l.text.find(name) == 0, "size", name << " reports a size: " << log);
        else if (on.shown[k].second != (size_t) -2) { REQUIRE(l.n == (long) on.shown[k].second, "size", name << " reports <" << l.n << ">, the diagram has " << on.shown[k].second << " nodes: " << log); count("sizes_checked"); }
        if (first + 1 == i && on.steps[k] > 0 && !on.aborted[k]) {
            REQUIRE(l.dots == 10, "dots", name << " shows " << l.dots << " of 10 marks: " << l.text << " in: " << log);
            count("dots_checked");
        }
        count(first + 1 == i ? "one_line_blocks" : "multi_line_blocks");
        count("blocks");
    }
    for (int k = wrap; k-- > 0;) {
        REQUIRE(i < v.size() && v[i].indent == 2 * k && v[i].tail, "nesting", "outer block " << k << " is not closed: " << log);
        ++i;
        count("outer_blocks");
    }
    REQUIRE(i == v.size(), "extra", "unexpected message \"" << v[i].text << "\" in: " << log);
    if (clockStep) count("fast_clock");
    if (!on.shown.empty()) { count("nontrivial_cases"); nontrivial(seed); }
    sample(log.substr(0, 300));
}
#endif

#if VF_PART == 2
// handlers used directly: nothing is lost, reordered or mixed up
void part2(Rng& rng) {
    Capture c;
    Quiet q(true);
    clockStep = rng.chance(0.3) ? rng.range(1, 6) : 0;
    std::vector<std::unique_ptr<MessageHandler> > st;
    std::vector<int> depthOf;
    std::string want; // all visible characters in order, resource reports as '@'
    std::ostringstream prog;
    auto vis = [&](std::string const& s) { for (char ch : s) if (!isspace((unsigned char) ch)) want += ch; };
    int depth = 0;
    std::vector<std::vector<int> > lineDepth;
    int n = rng.range(3, 40);
    bool fast = clockStep != 0;
    std::vector<std::string> names;
    bool first = true;
    for (int k = 0; k < n; ++k) {
        int op = st.empty() ? 0 : (int) rng.below(10);
        if (op <= 1 && st.size() < 6) {
            st.emplace_back(new MessageHandler);
            std::string name = rng.chance(0.1) ? "" : std::string(1, (char) ('a' + rng.below(26))) + std::to_string(rng.below(1000));
            names.push_back(name.empty() ? "level-" + std::to_string(depth) : name);
            st.back()->begin(name);
            vis(cap(names.back()));
            ++depth;
            prog << " begin(" << name << ")";
        }
        else if (op <= 6) {
            std::string t;
            int m = rng.range(1, 12);
            for (int i = 0; i < m; ++i) t += rng.chance(0.15) ? '\n' : rng.chance(0.2) ? ' ' : (char) ('!' + rng.below(94));
            if (t.find('@') != std::string::npos || t.find(" in ") != std::string::npos) continue;
            if (rng.chance(0.2)) { *st.back() << 42 << t << 'x'; t = "42" + t + "x"; }
            else *st.back() << t;
            vis(t);
            prog << " write(" << t << ")";
            count("texts");
        }
        else if (op == 7 && rng.chance(0.5)) {
            // with messages off in between nothing is written
            std::string before = c.e.str();
            bool p1 = MessageHandler::showMessages(false);
            MessageHandler m; m.begin("hidden"); m << "hidden\n"; m.step(); m.end(7);
            bool p2 = MessageHandler::showMessages(true);
            REQUIRE(p1 && !p2, "flag", "showMessages() does not return the previous setting");
            REQUIRE(c.e.str() == before, "off", "messages are off, but written: " << c.e.str().substr(before.size()));
            count("hidden");
        }
        else if (op == 7 && !fast) {
            int s = rng.range(1, 30);
            st.back()->setSteps(s);
            for (int i = 0; i < s; ++i) st.back()->step();
            vis("..........");
            prog << " steps(" << s << ")";
            count("step_runs");
        }
        else if (op >= 8) {
            int w = rng.below(4);
            std::string before = c.e.str();
            // whether the closing text repeats the name depends on the lines in between
            std::string head;
            size_t at0 = before.size();
            if (w == 0) st.back()->end(); else if (w == 1) st.back()->end("stopped"); else if (w == 2) st.back()->end((size_t) 77); else ;
            st.pop_back(); // w == 3: destruction ends it
            --depth;
            std::string added = c.e.str().substr(at0);
            std::vector<Line> v = parse(added[0] == '\n' ? added.substr(1) : added, "end");
            Line const& l = v.back();
            REQUIRE(l.tail, "format", "no resource report at the end of a block: " << added);
            REQUIRE(v.size() == 1, "format", "more than one line at the end of a block: " << added);
            std::string name = names.back(); names.pop_back();
            bool own = l.text.compare(0, 5, "Done ") == 0 || l.text.compare(0, 7, "Stopped") == 0 || l.text.compare(0, 7, "Aborted") == 0;
            if (w == 0) REQUIRE(l.text.find("one") != std::string::npos, "end", "end(): " << added);
            if (w == 1) REQUIRE(l.text.find("topped") != std::string::npos, "end", "end(\"stopped\"): " << added);
            if (w == 2) REQUIRE(l.n == 77, "end", "end(77): " << added);
            if (w == 3) REQUIRE(l.text.find("borted") != std::string::npos, "end", "unfinished block: " << added);
            if (own) { REQUIRE(l.indent == 2 * depth, "indent", "closing line of depth " << depth << " is indented by " << l.indent << ": " << c.e.str()); count("closing_lines"); }
            size_t at;
            std::string t = l.text;
            resourceTail(t, at);
            vis(t.substr(0, at) + "@");
            prog << " end" << w;
            count("ends");
            REQUIRE(added.back() == '\n', "format", "no newline after a block: " << added);
        }
        first = false;
    }
    while (!st.empty()) { size_t at0 = c.e.str().size(); st.back()->end(); st.pop_back(); --depth; std::string t = c.e.str().substr(at0); size_t i = t.find_last_not_of('\n'); t = t.substr(0, i + 1); size_t at; REQUIRE(resourceTail(t, at), "format", "no resource report: " << t); vis(t.substr(0, at) + "@"); }
    std::string log = c.e.str(), got;
    size_t p = 0;
    while (p < log.size()) {
        size_t e = log.find('\n', p);
        if (e == std::string::npos) e = log.size();
        std::string s = log.substr(p, e - p);
        size_t at;
        bool tail = resourceTail(s, at);
        for (char ch : tail ? s.substr(0, at) : s) if (!isspace((unsigned char) ch)) got += ch;
        if (tail) got += '@';
        p = e + 1;
    }
    clockStep = 0;
    REQUIRE(got == want, "text", "written:\n" << want << "\nshown:\n" << got << "\nprogram:" << prog.str() << "\nlog:\n" << log);
    // a following block starts in the first column of a fresh line
    size_t at0 = log.size();
    { MessageHandler m; m.begin("fresh"); m.end(); }
    std::string t = c.e.str().substr(at0);
    REQUIRE(t.compare(0, 5, "Fresh") == 0 && (at0 == 0 || log.back() == '\n'), "indent", "indentation is not restored: " << t << " after:\n" << log);
    (void) first; (void) lineDepth;
    count("handler_cases");
    nontrivial(mix64(std::hash<std::string>()(prog.str())));
}
#endif

#if VF_PART == 3
// resource reports: each block reports exactly what was used while it was open
struct Mark { long wall, user; };
static void checkReport(std::string const& line, Mark const& b, Virtual const& V, std::string const& what, std::string const& log) {
    double e, u, m;
    REQUIRE(readTail(line, e, u, m), "format", what << ": no resource report: " << line);
    if (V.wall()) { REQUIRE(std::fabs(e - (wallNow - b.wall) * 0.01) < 0.0051, "elapsed", what << " took " << (wallNow - b.wall) * 0.01 << "s, reported " << e << "s: " << log); count("elapsed_checked"); }
    if (V.user()) { REQUIRE(std::fabs(u - (userNow - b.user) * 0.01) < 0.0051, "user-time", what << " used " << (userNow - b.user) * 0.01 << "s, reported " << u << "s: " << log); count("user_time_checked"); }
    if (V.rss()) { REQUIRE(std::fabs(m - rssNow / 1024.0) < 0.51, "memory", what << ": " << rssNow << "KB in use, reported " << m << "MB: " << log); count("memory_checked"); }
}
static void reports(Rng& rng) {
    Capture c;
    Quiet q(true);
    Virtual V;
    wallNow = rng.range(1, 100000000); userNow = rng.range(0, 1000000); rssNow = rng.range(1000, 10000000);
    clockStep = 0;
    struct H { std::unique_ptr<MessageHandler> mh; Mark b; bool open; };
    std::vector<H> st;
    int n = rng.range(4, 40);
    std::ostringstream prog;
    for (int k = 0; k < n || !st.empty(); ++k) {
        V.pass(rng);
        int op = k >= n ? 9 : st.empty() ? 0 : (int) rng.below(10);
        if (op <= 2 && st.size() < 6) {
            st.push_back(H{std::unique_ptr<MessageHandler>(new MessageHandler), Mark(), true});
            V.pass(rng); // between the making of a handler and its first block
            st.back().mh->begin("b" + std::to_string(k));
            st.back().b = Mark{wallNow, userNow};
            prog << " begin" << k;
        }
        else if (op <= 4) { *st.back().mh << "text" << k << (rng.coin() ? "\n" : ""); prog << " text"; }
        else if (op == 5) { int m = rng.range(1, 20); st.back().mh->setSteps(m); for (int i = 0; i < m; ++i) st.back().mh->step(); prog << " steps"; }
        else if (op >= 6) {
            size_t at = c.e.str().size();
            bool again = op == 6 && k < n;
            H& h = st.back();
            Mark b = h.b;
            int w = rng.below(4);
            if (w == 0) h.mh->end(); else if (w == 1) h.mh->end("stopped"); else if (w == 2) h.mh->end((size_t) 77); else h.mh.reset();
            std::string t = c.e.str().substr(at);
            while (!t.empty() && t.back() == '\n') t.pop_back();
            prog << " end" << w;
            checkReport(t, b, V, "block", prog.str() + "\n" + c.e.str());
            if (again && w != 3) { // the same handler reports a further block of its own
                V.pass(rng);
                h.mh->begin("again" + std::to_string(k));
                h.b = Mark{wallNow, userNow};
                prog << " again";
                count("reused_handlers");
            }
            else st.pop_back();
            count("reports");
        }
    }
    nontrivial(mix64(std::hash<std::string>()(prog.str())));
}
// the long-running form: every fifty steps a line with the share done and the time they took
static void longRun(Rng& rng) {
    Capture c;
    Quiet q(true);
    Virtual V;
    wallNow = rng.range(1, 100000000); userNow = 0; rssNow = rng.range(1000, 10000000);
    clockStep = 0;
    std::vector<std::unique_ptr<MessageHandler> > outer;
    int depth = rng.below(4);
    for (int i = 0; i < depth; ++i) { outer.emplace_back(new MessageHandler); outer.back()->begin("outer"); }
    size_t at = c.e.str().size();
    MessageHandler m;
    m.begin("long");
    Mark b{wallNow, userNow};
    int S = rng.range(50, 420), done = 0;
    m.setSteps(S);
    clockNow += 10; // more than four seconds without a step
    bool talk = rng.coin();
    int said = 0;
    std::vector<long> at50; // wall clock after each fifty steps
    std::vector<long> mem;
    for (int i = 0; i < S; ++i) {
        V.pass(rng);
        if (talk && rng.chance(0.03)) { MessageHandler o; o << "said" << said++ << "\n"; }
        m.step();
        ++done;
        if (done % 50 == 0) { at50.push_back(wallNow); mem.push_back(rssNow); }
    }
    V.pass(rng);
    m.end((size_t) S);
    std::string log = c.e.str().substr(at);
    Mark end{wallNow, userNow};
    size_t p = 0, k = 0; int heard = 0; std::string lastLine, dashes;
    if (!log.empty() && log[0] == '\n') p = 1;
    while (p < log.size()) {
        size_t e = log.find('\n', p);
        REQUIRE(e != std::string::npos, "format", "unfinished line: " << log);
        std::string s = log.substr(p, e - p);
        p = e + 1;
        size_t ind = s.find_first_not_of(' ');
        REQUIRE(ind != std::string::npos, "format", "blank line: " << log);
        std::string t = s.substr(ind);
        if (t.compare(0, 4, "said") == 0) { REQUIRE(t == "said" + std::to_string(heard), "text", "message " << heard << " shown as " << t << ": " << log); ++heard; continue; }
        if (t[0] == '-') {
            REQUIRE((int) ind == 2 * (depth + 1), "indent", "progress line indented by " << ind << " at depth " << depth << ": " << log);
            size_t d = t.find_first_not_of('-');
            if (d == std::string::npos) { REQUIRE(t.size() <= 50, "progress", "more than fifty marks: " << log); continue; }
            int pct; double el, mb;
            REQUIRE(d == 50 && sscanf(t.c_str() + d, "%d%% (%lfs, %lfMB)", &pct, &el, &mb) == 3, "progress", "line \"" << t << "\" is no report on fifty steps: " << log);
            REQUIRE(k < at50.size(), "progress", "more reports than fifties of " << S << " steps: " << log);
            REQUIRE(pct == (int) (50 * (k + 1)) * 100 / S, "percent", pct << "% reported after " << 50 * (k + 1) << " of " << S << " steps: " << log);
            long from = k ? at50[k - 1] : b.wall;
            if (V.wall()) { REQUIRE(std::fabs(el - (at50[k] - from) * 0.01) < 0.0051, "elapsed", "steps up to " << 50 * (k + 1) << " took " << (at50[k] - from) * 0.01 << "s, reported " << el << "s: " << log); count("step_times_checked"); }
            if (V.rss()) REQUIRE(std::fabs(mb - mem[k] / 1024.0) < 0.51, "memory", mem[k] << "KB in use, reported " << mb << "MB: " << log);
            ++k;
            count("percent_lines");
            continue;
        }
        lastLine = t;
    }
    REQUIRE(k == at50.size(), "progress", k << " reports on " << at50.size() << " fifties of steps: " << log);
    REQUIRE(heard == said, "text", heard << " of " << said << " messages shown: " << log);
    checkReport(lastLine, b, V, "long block", log);
    (void) end;
    while (!outer.empty()) outer.pop_back();
    nontrivial(mix64(S * 1000003 + said));
    count("long_runs");
}
// the measuring tools themselves
static void tools(Rng& rng) {
    Virtual V;
    wallNow = rng.range(1, 100000000); userNow = rng.range(0, 1000000); rssNow = rng.range(1000, 10000000);
    if (!V.wall() || !V.user() || !V.rss()) return;
    ElapsedTimeCounter t[3];
    long total[3] = {0, 0, 0}, since[3] = {0, 0, 0}; bool running[3] = {false, false, false};
    ResourceUsage sum(0, 0, 0, 0), at;
    long sw = 0, su = 0, w0 = wallNow, u0 = userNow;
    long maxrss = 0;
    for (int k = rng.range(2, 30); k > 0; --k) {
        V.pass(rng);
        int i = rng.below(3);
        if (rng.chance(0.1) && !running[i]) { t[i].reset(); total[i] = 0; }
        else if (running[i]) { t[i].stop(); total[i] += wallNow - since[i]; running[i] = false; }
        else { t[i].start(); since[i] = wallNow; running[i] = true; }
        for (int j = 0; j < 3; ++j) {
            REQUIRE(std::fabs((double) t[j] - total[j] * 0.01) < 1e-3, "timer", "timer shows " << (double) t[j] << "s, ran " << total[j] * 0.01 << "s");
        }
        if (rng.chance(0.3)) {
            std::ostringstream os; os.precision(rng.range(1, 9));
            std::ios_base::fmtflags fl = os.flags();
            os << t[i];
            REQUIRE(os.flags() == fl, "stream-state", "printing a timer changes the format of the stream");
            double v; REQUIRE(sscanf(os.str().c_str(), "%lfs", &v) == 1 && std::fabs(v - total[i] * 0.01) < 0.0051, "timer", "timer of " << total[i] * 0.01 << "s prints " << os.str());
        }
        if (rng.chance(0.4)) {
            ResourceUsage now, d = now - at;
            REQUIRE(std::fabs(d.etime - (wallNow - w0) * 0.01) < 1e-3 && std::fabs(d.utime - (userNow - u0) * 0.01) < 1e-3 && d.maxrss == rssNow, "usage", "difference of two readings " << d << " for " << (wallNow - w0) * 0.01 << "s, " << (userNow - u0) * 0.01 << "s");
            ResourceUsage d2 = now; d2 -= at;
            REQUIRE(d2.etime == d.etime && d2.utime == d.utime && d2.stime == d.stime && d2.maxrss == d.maxrss, "usage", "- and -= differ");
            ResourceUsage s2 = sum + d;
            sum += d;
            sw += wallNow - w0; su += userNow - u0; maxrss = std::max(maxrss, (long) rssNow);
            REQUIRE(s2.etime == sum.etime && s2.utime == sum.utime && s2.stime == sum.stime && s2.maxrss == sum.maxrss, "usage", "+ and += differ");
            REQUIRE(std::fabs(sum.etime - sw * 0.01) < 1e-2 && std::fabs(sum.utime - su * 0.01) < 1e-2 && sum.maxrss == maxrss, "usage", "sum of usages " << sum << " for " << sw * 0.01 << "s, " << su * 0.01 << "s, " << maxrss << "KB");
            std::ostringstream os; std::ios_base::fmtflags fl = os.flags();
            os << d;
            REQUIRE(os.flags() == fl, "stream-state", "printing a resource usage changes the format of the stream");
            double e, u, m; REQUIRE(readTail(" in " + os.str() + ".", e, u, m), "format", "usage prints " << os.str());
            double e1, u1, m1;
            REQUIRE(sscanf(d.elapsedTime().c_str(), "%lfs", &e1) == 1 && sscanf(d.userTime().c_str(), "%lfs", &u1) == 1 && sscanf(d.memory().c_str(), "%lfMB", &m1) == 1 && e1 == e && u1 == u && m1 == m, "usage", os.str() << " versus " << d.elapsedTime() << " " << d.userTime() << " " << d.memory());
            REQUIRE(std::fabs(e - (wallNow - w0) * 0.01) < 0.0051 && std::fabs(u - (userNow - u0) * 0.01) < 0.0051 && std::fabs(m - rssNow / 1024.0) < 0.51, "usage", "usage prints " << os.str());
            at.update(); w0 = wallNow; u0 = userNow;
            count("usage_checks");
        }
    }
    count("tool_cases");
}
void part3(Rng& rng) { switch (rng.below(4)) { case 0: tools(rng); break; case 1: longRun(rng); break; default: reports(rng); } }
#endif

#if VF_PART == 0
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>
std::atomic<long> clockNow(1000000), clockStep(0);
std::atomic<bool> virtualClock(false);
std::atomic<long> wallNow(0), userNow(0), rssNow(0), wallReads(0), usageReads(0);
extern "C" int gettimeofday(struct timeval* t, void*) noexcept {
    ++wallReads;
    if (virtualClock) { t->tv_sec = wallNow / 100; t->tv_usec = wallNow % 100 * 10000; return 0; }
    struct timespec s; clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}
extern "C" int getrusage(__rusage_who_t who, struct rusage* r) noexcept {
    ++usageReads;
    int rc = syscall(SYS_getrusage, (int) who, r);
    if (virtualClock && rc == 0) { r->ru_utime.tv_sec = userNow / 100; r->ru_utime.tv_usec = userNow % 100 * 10000; r->ru_maxrss = rssNow; }
    return rc;
}
extern "C" time_t time(time_t* t) noexcept { time_t r = (time_t) clockNow.fetch_add(clockStep.load()); if (t) *t = r; return r; }
void part1(Rng&); void part2(Rng&); void part3(Rng&);
void vf::runCase(Rng& rng) { if (rng.chance(0.6)) part1(rng); else if (rng.chance(0.6)) part2(rng); else part3(rng); }
VF_MAIN
#endif
