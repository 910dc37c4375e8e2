"""C24: the CNF programs (cnfbdd, cnf2ztdd2bdd) against brute force.

The real programs are built from the repository against a stand-in for CUDD (mock/cudd) that is exact,
frees unreferenced nodes at once and aborts on misuse (unreferenced operands, references dropped twice,
concurrent entry).  Every case runs one program on a generated CNF file; exit code, reported counts,
printed solutions and dumped diagrams are compared with an enumeration of all assignments.
"""
import glob, hashlib, itertools, multiprocessing as mp, os, random, re, shutil, signal, subprocess, sys
from c21 import Bad, call as call21, cnt

APPS = ["cnfbdd", "cnf2ztdd2bdd"]
FLAGS = {"asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
         "opt": ["-O2", "-DNDEBUG"], "vg": ["-O1", "-g"]}


def call(ctx, app, args, files, stdin=None):
    rc, out, err = call21(ctx, app, args, files, stdin)
    if "CUDD-MONITOR" in err:
        raise Bad(app + ":cudd", err[-800:])
    if rc == 26:
        raise Bad(app + ":memcheck", err[-3000:])
    return rc, out, err


# ------------------------------------------------------------------ input ----
def random_cnf(r):
    big = r.random() < 0.1
    nv = r.randint(9, 12) if big else r.randint(1, 8)
    nc = r.randint(1, 30) if big else r.randint(1, r.choice([3, 6, 10, 16]))
    width = r.choice([1, 2, 2, 3, 3, 5, 8])
    lo, hi = 1, nv
    if nv > 3 and r.random() < 0.2:   # some variables are never mentioned
        lo, hi = sorted(r.sample(range(1, nv + 1), 2))
    local = r.random() < 0.3
    cl = []
    for _ in range(nc):
        k = r.randint(1, width)
        if r.random() < 0.08:         # repeated or opposite literals
            c = [r.choice([1, -1]) * r.randint(lo, hi) for _ in range(k + 1)]
        else:
            vs = list(range(lo, hi + 1))
            if local:
                a = r.randint(lo, hi)
                vs = [v for v in vs if a <= v <= a + 3]
            c = [r.choice([1, -1]) * v for v in r.sample(vs, min(k, len(vs)))]
        cl.append(c)
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        c = list(r.choice(cl))
        r.shuffle(c)
        if r.random() < 0.5 and len(c) > 1:
            c.pop()                   # subsuming clause
        cl.append(c)
    if r.random() < 0.3:              # clauses that share their tails
        t = [r.choice([1, -1]) * v for v in range(max(1, nv - 1), nv + 1)]
        for v in range(1, min(4, nv - 1)):
            cl.append([r.choice([1, -1]) * v] + t)
    r.shuffle(cl)
    s = ""
    for _ in range(r.choice([0, 0, 1, 3])):
        s += r.choice(["c a comment\n", "c\n", "c p cnf\n"])
    s += "p cnf %d %d\n" % (nv, len(cl))
    for c in cl:
        sep = r.choice([" ", " ", "  ", "\t", "\n"]) if r.random() < 0.3 else " "
        s += sep.join(map(str, c)) + sep + "0" + r.choice(["\n", "\n", "\n", " ", "\n\n", " \n"])
    if r.random() < 0.3:
        s = s.rstrip()
    return nv, cl, s


def models(nv, cl):
    cl = [(sum(1 << (l - 1) for l in set(c) if l > 0), sum(1 << (-l - 1) for l in set(c) if l < 0)) for c in cl]
    full = (1 << nv) - 1
    return [a for a in range(1 << nv) if all(a & p or (a ^ full) & n for p, n in cl)]


# ------------------------------------------------------------------- dots ----
def graphs(text):
    return dict((k + 1, m) for k, m in enumerate(re.findall(r'^digraph "([^"]*)" \{\n(.*?)^\}', text, re.M | re.S)))


class Dot:
    def __init__(self, body):
        self.edge, self.root, self.level = {}, None, {}
        self.terms = set(re.findall(r'"([^"]+)" \[shape=square[^\]]*label="(?:T|1|⊤)"', body))
        self.level = {m[0]: int(m[0].split(":")[0]) for m in re.findall(r'"([^"^]+)" \[label="([^"]*)"', body)}
        for a, b, st in re.findall(r'"([^"]+)" -> "([^"]+)" \[style=([^\]]*)\]', body):
            if a == "^":
                self.root = b
                continue
            k = {"dashed": 0, "solid": 1, "solid,color=blue": 1, "solid,color=red": 2}.get(st)
            if k is None:
                raise Bad("dot:style", "unexpected edge style " + st)
            if self.edge.setdefault(a, {}).setdefault(k, b) != b:
                raise Bad("dot:edge", "two edges for one branch of " + a)

    def run(self, value):
        x, seen = self.root, []
        while x is not None and x not in self.terms:
            if x not in self.level:
                raise Bad("dot:node", "edge to an undeclared node " + x)
            x = self.edge.get(x, {}).get(value(self.level[x]))
        return x is not None

    def paths(self):
        out = []

        def rec(x, acc):
            if x in self.terms:
                out.append(acc)
                return
            for k, y in sorted(self.edge.get(x, {}).items()):
                rec(y, acc + [(self.level[x], k)])
        if self.root is not None:
            rec(self.root, [])
        return out


def bdd_size(nv, ms):
    """nodes of the reduced BDD, variable 1 on top"""
    tab = [0] * (1 << nv)
    for a in ms:                       # index: variable 1 is the most significant bit
        tab[int("".join("1" if a >> i & 1 else "0" for i in range(nv)), 2)] = 1
    cur, n = tuple(tab), set()

    def rec(t):
        if len(t) == 1:
            return
        h = len(t) // 2
        a, b = t[:h], t[h:]
        if a == b:
            return rec(a)
        if t in n:
            return
        n.add(t)
        rec(a)
        rec(b)
    rec(cur)
    return len(n)


def check_bdd(name, d, nv, ms):
    s = set(ms)
    for a in range(1 << nv):
        if d.run(lambda l: a >> (nv - l) & 1) != (a in s):
            raise Bad(name, "the dumped diagram is wrong for assignment %s" % bin(a))


# ------------------------------------------------------------------- cases ----
def solutions(text, nv):
    got = []
    for l in text.splitlines():
        if not re.match(r"[+-]\d", l):
            continue
        f = l.split(" ")
        if len(f) != nv or any(x[1:] != str(i + 1) or x[0] not in "+-" for i, x in enumerate(f)):
            raise Bad("solution-format", "malformed solution line " + repr(l))
        got.append(sum(1 << i for i, x in enumerate(f) if x[0] == "+"))
    return got


def solve(ctx, r):
    nv, cl, text = random_cnf(r)
    ms = models(nv, cl)
    proper = [c for c in cl if not any(-l in c for l in c)]
    app = "cnfbdd" if r.random() < 0.7 else "cnf2ztdd2bdd"
    args, dumps = [], []
    if app == "cnfbdd":
        for o, p in (("-s", 0.3), ("-c", 0.3), ("-p", 0.2), ("-cnf", 0.05), ("-dd0", 0.1), ("-dd1", 0.1), ("-dump", 0.25)):
            if r.random() < p:
                args.append([o])
        x = r.random()
        if x < 0.15:
            args.append(["-n"])
        elif x < 0.3:
            args.append(["-b"])
        elif x < 0.6:
            args.append(["-limit", str(r.choice([0, 1, 2, 3, 4, 6, 10, 100]))])
    else:
        for o, p in (("-dd0", 0.2), ("-dd1", 0.2), ("-dd2", 0.2), ("-dump", 0.3)):
            if r.random() < p:
                args.append([o])
    r.shuffle(args)
    for o in ("-cnf", "-dd0", "-dd1", "-dd2", "-dump"):
        if [o] in args:
            dumps.append(o)
    args = [x for a in args for x in a]
    outfile = r.choice([None, "-", "out.txt"])
    stdin = r.random() < 0.3
    args += ["-" if stdin else "in.cnf"] + ([outfile] if outfile else [])
    rc, out, err = call(ctx, app, args, {} if stdin else {"in.cnf": text}, text if stdin else None)
    if rc != 0:
        raise Bad(app + ":exit", "exit code %d\n%s" % (rc, err[-600:]))
    m = re.search(r"#solution = (\S+)", err)
    if not m or m.group(1) != str(len(ms)):
        raise Bad(app + ":count", "reported %s solutions, there are %d" % (m and m.group(1), len(ms)))
    m = re.search(r"#var = (\d+), #clause = (\d+)", err)
    if not m or int(m.group(1)) != nv or int(m.group(2)) != len(proper):
        raise Bad(app + ":input", "reported %s, %d variables and %d proper clauses" % (m and m.group(0), nv, len(proper)))
    if outfile:
        t = out if outfile == "-" else open(os.path.join(ctx["dir"], "out.txt")).read()
        got = solutions(t, nv)
        if sorted(got) != sorted(ms):
            raise Bad(app + ":solutions", "%d solutions printed, %d distinct, %d exist, %d wrong" % (len(got), len(set(got)), len(ms), len(set(got) - set(ms))))
        cnt(ctx, "solutions_printed", len(got))
        cnt(ctx, "outputs_" + ("stdout" if outfile == "-" else "file"))
    gs = graphs(out)
    if len(gs) != len(dumps):
        raise Bad(app + ":dumps", "%d graphs for %s" % (len(gs), dumps))
    for k, o in enumerate(dumps):
        if o == "-cnf":
            continue
        d = Dot(gs[k + 1][1])
        name = "%s:%s" % (app, o)
        if o == "-dump" or app == "cnfbdd":
            check_bdd(name, d, nv, ms)
            if o == "-dump" and len(d.level) != bdd_size(nv, ms):
                raise Bad(name + ":size", "the final BDD has %d nodes, the reduced one %d" % (len(d.level), bdd_size(nv, ms)))
        else:                          # a ternary ZDD: the set of clauses
            want = sorted(set(tuple(sorted(set(c))) for c in proper))
            got = sorted(tuple(sorted((nv - l + 1) * (1 if k == 2 else -1) for l, k in p if k)) for p in d.paths())
            if got != want:
                raise Bad(name, "the dumped clause set is wrong: %s, expected %s" % (got, want))
        cnt(ctx, "dumps")
    if app == "cnf2ztdd2bdd":
        want = len(set(tuple(sorted(set(c))) for c in proper))
        m = re.search(r"\n\s*#clause = (\d+)", err)
        if not m or int(m.group(1)) != want:
            raise Bad(app + ":clauses", "reported %s clauses, %d distinct" % (m and m.group(1), want))
    cnt(ctx, app)
    cnt(ctx, "parallel", 1 if "-p" in args else 0)
    cnt(ctx, "limited", 1 if "-limit" in args else 0)
    if not ms:
        cnt(ctx, "unsatisfiable")
    if not proper:
        cnt(ctx, "tautologies_only")
    if len(proper) != len(set(tuple(sorted(set(c))) for c in proper)):
        cnt(ctx, "repeated_clauses")
    ctx["sample"] = None
    if 0 < len(ms) < 1 << nv:
        cnt(ctx, "nontrivial_cases")
        ctx["distinct"].add(app + " ".join(args) + text)
        ctx["sample"] = "%s %s: %s -> %d solutions" % (app, " ".join(args), text.replace("\n", " / ")[:160], len(ms))


def errors(ctx, r):
    ok = "p cnf 2 2\n1 2 0\n-1 0\n"
    tests = [([], {}, None), (["-nosuch", "f"], {"f": ok}, None), (["missing.cnf"], {}, None), (["f"], {"f": ""}, None),
             (["f"], {"f": "c nothing here\n"}, None), (["f"], {"f": "p cnf 2 2\n1 2 0\n"}, None), (["f"], {"f": "p cnf 2 1\n1 0\n2 0\n"}, None),
             (["f"], {"f": "p cnf 2 1\n1 3 0\n"}, None), (["f"], {"f": "p cnf 2 1\n-3 0\n"}, None), (["f", "nodir/out"], {"f": ok}, None),
             (["f", "g", "h"], {"f": ok}, None), (["-"], {}, "p dnf 2 1\n1 0\n")]
    args, files, inp = r.choice(tests)
    app = r.choice(APPS)
    rc, out, err = call(ctx, app, args, files, inp)
    if rc != 1 or not err:
        raise Bad(app + ":error-exit", "exit code %d for %s" % (rc, args))
    cnt(ctx, "errors_rejected")


def one(ctx, seed, case):
    r = random.Random("%d/%d" % (seed, case))
    ctx["flavour"] = "vg" if case % 40 == 7 else "asan" if r.random() < 0.6 else "opt"
    cnt(ctx, "runs_" + ctx["flavour"])
    if r.random() < 0.04:
        errors(ctx, r)
    else:
        solve(ctx, r)


def worker(a):
    base, exe, env, seed, lo, hi = a
    d = os.path.join(base, "w%d" % lo)
    os.makedirs(d, exist_ok=True)
    ctx = {"dir": d, "exe": exe, "env": env, "counters": {}, "distinct": set(), "sample": None, "soft": {}}
    viol, n, samples = [], 0, []
    for case in range(lo, hi):
        if os.path.exists(os.path.join(base, "STOP")):
            break
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        n += 1
        try:
            one(ctx, seed, case)
            if ctx["sample"] and len(samples) < 2:
                samples.append(ctx["sample"][:300])
        except Bad as b:
            viol.append((b.key, case, ctx["flavour"], "%s [%s]\n%s\n%s" % (ctx.get("cmd"), ctx["flavour"], b.text,
                                                                    "\n".join("--- %s\n%s" % x for x in ctx.get("files", {}).items()))))
            if b.key.endswith((":hang", ":endless-output")):
                open(os.path.join(base, "STOP"), "w").close()
            if len(viol) >= 5:
                break
    shutil.rmtree(d, ignore_errors=True)
    return viol, n, ctx["counters"], [int(hashlib.sha1(x.encode()).hexdigest()[:15], 16) for x in ctx["distinct"]], samples


def build_apps(R):
    jobs, exe = [], {}
    mock = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mock", "cudd")
    os.makedirs(R.BUILD, exist_ok=True)
    for app in APPS:
        srcs = sorted(glob.glob(os.path.join(R.REPO, "apps", app, "*.cpp")))
        for fl, flags in FLAGS.items():
            o = os.path.join(R.BUILD, "C24-%s-%s" % (app, fl))
            exe[(app, fl)] = o
            jobs.append((["g++", "-std=c++11", "-fopenmp", "-w"] + flags + ["-I" + mock, "-I" + os.path.join(R.REPO, "include")] + srcs + ["-o", o], o))
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(R.CORES) as ex:
        for rc, o, cmd, err in ex.map(R.compile_job, jobs):
            if rc:
                raise R.Inconclusive("compile failed: %s\n%s" % (cmd, err[:4000]))
    for app in APPS:
        o = exe[(app, "vg")]
        with open(o + ".sh", "w") as f:
            f.write('#!/bin/sh\nexec valgrind -q --error-exitcode=26 --exit-on-first-error=yes --leak-check=no --num-callers=12 "%s" "$@"\n' % o)
        os.chmod(o + ".sh", 0o755)
        exe[(app, "vg")] = o + ".sh"
    return exe


def environment(R):
    env = R.run_env("asan")
    env["ASAN_OPTIONS"] += ":detect_leaks=0"
    env["OMP_NUM_THREADS"] = "3"
    return env


def run(self, job):
    R = sys.modules["__main__"]
    exe = build_apps(R)
    n = job["cases"] if self.tier == "quick" else job["cases_thorough"]
    base = os.path.join(R.BUILD, "C24-work")
    shutil.rmtree(base, ignore_errors=True)
    step = max(1, -(-n // (R.CORES * 6)))
    work = [(base, exe, environment(R), self.seed, lo, min(n, lo + step)) for lo in range(0, n, step)]
    with mp.Pool(R.CORES) as pool:
        for viol, k, counters, distinct, samples in pool.imap(worker, work):
            self.stats["evaluations"] += k
            for c, v in counters.items():
                self.stats["counters"][c] = self.stats["counters"].get(c, 0) + v
            self.stats["distinct"].update(distinct)
            self.stats["samples"] += samples[: max(0, 6 - len(self.stats["samples"]))]
            for key, case, fl, text in viol:
                self.add(key, {"src": "c24.py", "flavour": fl}, case, text)
    shutil.rmtree(base, ignore_errors=True)


def replay(R, rep):
    exe = build_apps(R)
    d = os.path.join(R.BUILD, "C24-replay")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    ctx = {"dir": d, "exe": exe, "env": environment(R), "counters": {}, "distinct": set(), "sample": None, "soft": {}}
    try:
        one(ctx, rep["seed"], rep["case"])
        print("held:", ctx["cmd"])
        return 0
    except Bad as b:
        print(ctx["cmd"], ctx["files"], b.key, b.text)
        return 1
