"""C21: the sample programs (ddpaths, ddqueens, ddnumlin) against brute force.

Every case runs the real program, built from the repository with AddressSanitizer and UBSan or optimised,
on generated input; exit code, printed counts and printed solutions are compared with an independent
enumeration.
"""
import glob, hashlib, itertools, json, multiprocessing as mp, os, random, re, resource, shutil, signal, subprocess, sys

APPS = {"ddpaths": ["ddpaths/ddpaths.cpp"], "ddqueens": ["ddqueens/ddqueens.cpp"], "ddnumlin": ["numberlink/*.cpp"]}
FLAGS = {"asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
         "opt": ["-O2", "-DNDEBUG"]}


class Bad(Exception):
    def __init__(self, key, text):
        self.key, self.text = key, text


# ------------------------------------------------------------- families ------
def zdd_size(family, n):
    """number of nodes of the reduced ZDD; family = set of int bit masks, level l = bit l-1"""
    fam = frozenset(family)
    seen = [set() for _ in range(n + 1)]

    def rec(f, l):
        while l > 0:
            if not f or f == frozenset([0]):
                return
            b = 1 << (l - 1)
            hi = frozenset(x & ~b for x in f if x & b)
            if hi:
                if f in seen[l]:
                    return
                seen[l].add(f)
                rec(hi, l - 1)
                f = frozenset(x for x in f if not x & b)
            l -= 1
    rec(fam, n)
    return sum(len(s) for s in seen)


def dot_family(text, n):
    """families of a dumped ZDD (only omits edges to the 0-terminal)"""
    zero, one, root = {}, {}, None
    for a, b, st in re.findall(r'"([^"]+)" -> "([^"]+)" \[style=(\w+)', text):
        if a == "^":
            root = b
        elif st == "dashed":
            zero.setdefault(a, []).append(b)
        elif st == "solid":
            one.setdefault(a, []).append(b)
        else:
            raise Bad("dot:style", "unexpected edge style " + st)
    terms = set(re.findall(r'"([^"]+)" \[shape=square[^\]]*label="(?:T|1|⊤)"', text))
    level = {m[0]: int(m[0].split(":")[0]) for m in re.findall(r'"([^"^]+)" \[label="([^"]*)"', text)}
    memo = {}

    def fam(x):
        if x in terms:
            return {0}
        if x not in memo:
            l = level[x]
            r = set()
            for y in zero.get(x, []):
                r |= fam(y)
            for y in one.get(x, []):
                r |= {z | 1 << (l - 1) for z in fam(y)}
            memo[x] = r
        return memo[x]
    return fam(root) if root is not None else set()


def sapporo_family(text):
    lines = [l for l in text.splitlines() if l]
    i = next(k for k, l in enumerate(lines) if l.startswith("_i "))
    n = int(lines[i].split()[1])
    cnt = int(lines[i + 2].split()[1])
    fam = {"F": set(), "T": {0}}
    for l in lines[i + 3:i + 3 + cnt]:
        a, v, z, o = l.split()
        v = int(v)
        # Sapporo variables are levels here: 1 is the bottom
        fam[a] = fam[z] | {x | 1 << (v - 1) for x in fam[o]}
    return n, cnt, fam[lines[i + 3 + cnt]]


# --------------------------------------------------------------- graphs ------
class G:
    pass


def random_graph(r, maxe):
    kind = r.randrange(7)
    E = []
    if kind == 0:
        a, b = r.choice([(2, 2), (2, 3), (3, 2), (2, 4), (3, 3), (1, 5)])
        for i in range(a):
            for j in range(b):
                if j + 1 < b:
                    E.append((i * b + j + 1, i * b + j + 2))
                if i + 1 < a:
                    E.append((i * b + j + 1, i * b + j + 1 + b))
    elif kind == 1:
        k = r.randint(2, 5)
        E = [(i, j) for i in range(1, k + 1) for j in range(i + 1, k + 1)]
    elif kind == 2:
        k = r.randint(3, 8)
        E = [(i, i + 1) for i in range(1, k)] + [(1, k)]
    elif kind == 3:
        k = r.randint(2, 8)
        E = [(r.randint(1, i - 1), i) for i in range(2, k + 1)]
    else:
        k = r.randint(2, 7)
        al = [(i, j) for i in range(1, k + 1) for j in range(i + 1, k + 1)]
        r.shuffle(al)
        E = sorted(al[: r.randint(1, min(len(al), maxe))])
    if len(E) > maxe:
        E = sorted(r.sample(E, maxe))
    if r.random() < 0.3:   # renumber the vertices
        vs = sorted({v for e in E for v in e})
        p = vs[:]
        r.shuffle(p)
        m = dict(zip(vs, p))
        E = [tuple(sorted((m[a], m[b]))) for a, b in E]
    g = G()
    top = max(v for e in E for v in e)
    style = r.randrange(3)   # which of the two ends lists the edge
    rows = {i: [] for i in range(1, top + 1)}
    for a, b in E:
        if style == 0:
            rows[a].append(b); rows[b].append(a)
        elif style == 1:
            rows[a].append(b)
        else:
            (rows[a].append(b) if r.random() < 0.5 else rows[b].append(a))
    if r.random() < 0.3:
        for v in rows.values():
            r.shuffle(v)
    if style != 1 and r.random() < 0.5:
        pass
    text = ""
    order, orient, seen = [], [], set()
    lines = []
    for i in range(1, top + 1):
        lines.append(" ".join(map(str, rows[i])))
        for j in rows[i]:
            e = frozenset((i, j))
            if e not in seen:
                seen.add(e)
                order.append((min(i, j), max(i, j)))
                orient.append((i, j))
    while lines and lines[-1] == "":
        lines.pop()
    text = "\n".join(lines) + ("\n" if r.random() < 0.8 else "")
    g.E = order            # order of first mention; edge k is level n-k
    g.text = text
    g.orient = orient      # as mentioned
    g.V = sorted({v for e in order for v in e})
    g.top = top
    return g


def components(g, mask):
    par = {v: v for v in g.V}

    def find(v):
        while par[v] != v:
            v = par[v]
        return v
    deg = dict.fromkeys(g.V, 0)
    loop = False
    ne = {}
    n = len(g.E)
    for k, (a, b) in enumerate(g.E):
        if mask >> (n - k - 1) & 1:
            deg[a] += 1; deg[b] += 1
            x, y = find(a), find(b)
            if x == y:
                loop = True
            else:
                par[x] = y
    return find, deg, loop


def path_ok(g, mask, pairs, ham):
    find, deg, loop = components(g, mask)
    if loop:
        return False
    ends = {v for p in pairs for v in p}
    for v in g.V:
        if v in ends:
            if deg[v] != 1:
                return False
        elif deg[v] != 2 and (ham or deg[v] != 0):
            return False
    return all(find(a) == find(b) for a, b in pairs)


def cycle_ok(g, mask, ham):
    if mask == 0:
        return False
    find, deg, loop = components(g, mask)
    if any(d not in (0, 2) for d in deg.values()):
        return False
    used = [v for v in g.V if deg[v]]
    if ham and len(used) < len(g.V):
        return False
    return len({find(v) for v in used}) == 1


def fbs_ok(g, mask, groups, uec, forest):
    find, deg, loop = components(g, mask)
    if forest and loop:
        return False
    col = {}
    for c, vs in enumerate(groups):
        if len({find(v) for v in vs}) > 1:
            return False
        if find(vs[0]) in col:
            return False
        col[find(vs[0])] = c
    if uec >= 0:
        roots = {find(v) for v in g.V if deg[v]}
        if len([x for x in roots if x not in col]) != uec:
            return False
    return True


def hamilton_window(g, plain, cycle):
    """what the recorded finding ddpaths:hamilton-vertex-outside-frontier yields instead: only the vertices in the
    frontier window are inspected when the last edge of a set is taken"""
    n = len(g.E)
    stack = []
    for a, b in reversed(g.orient):
        for v in (b, a):
            if v not in stack:
                stack.append(v)
    num = {v: k + 1 for k, v in enumerate(reversed(stack))}
    last, last2 = {}, {}
    for k, e in enumerate(g.E):
        for v in e:
            last2[v] = last.get(v, -1)
            last[v] = k
    v0s = [min(num[v] for v in g.V if last[v] >= k) for k in range(n)]
    width = max(max(num[a], num[b]) - v0s[k] + 1 for k, (a, b) in enumerate(g.E))
    res = set()
    for x in plain:
        a = max(k for k in range(n) if x >> (n - 1 - k) & 1)
        deg = components(g, x)[1]
        if all(num[v] >= v0s[a] + width or (cycle and num[v] == v0s[a] and not 0 <= last2[v] < a) for v in g.V if deg[v] == 0):
            res.add(x)
    return res


def one_cycle_through_pairs(g, pairs):
    """what the recorded finding ddpaths:slow-several-pairs yields instead"""
    n = len(g.E)
    res = set()
    for x in range(1, 1 << n):
        deg = dict(components(g, x)[1])
        for p in pairs:
            for v in p:
                deg[v] += 1
        if any(d not in (0, 2) for d in deg.values()):
            continue
        adj = {v: set() for v in g.V}
        for k, (a, b) in list(enumerate(g.E)):
            if x >> (n - 1 - k) & 1:
                adj[a].add(b); adj[b].add(a)
        for a, b in pairs:
            adj[a].add(b); adj[b].add(a)
        used = [v for v in g.V if deg[v]]
        seen, todo = set(), [used[0]]
        while todo:
            v = todo.pop()
            if v not in seen:
                seen.add(v)
                todo += adj[v]
        if len(seen) == len(used):
            res.add(x)
    return res


# ------------------------------------------------------------------ runs -----
HANG, OUTPUT = 200, 64 << 20


def limits(flavour):
    resource.setrlimit(resource.RLIMIT_FSIZE, (OUTPUT, OUTPUT))
    if flavour == "opt":   # the sanitizers reserve address space and have limits of their own
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def call(ctx, app, args, files, stdin=None):
    """runs app in a scratch directory; returns rc, out, err"""
    d = ctx["dir"]
    for name, text in files.items():
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    exe = ctx["exe"][(app, ctx["flavour"])]
    cmd = [exe] + args
    ctx["cmd"] = "%s %s" % (app, " ".join(args))
    ctx["files"] = dict(files)
    if stdin is not None:
        ctx["files"]["<stdin>"] = stdin
    # bounded output and time: a program that never stops is a violation, not a reason to run out of memory
    with open(d + ".in", "w") as f:
        f.write(stdin or "")
    with open(d + ".in") as fi, open(d + ".out", "wb") as fo, open(d + ".err", "wb") as fe:
        p = subprocess.Popen(cmd, cwd=d, env=ctx["env"], stdin=fi, stdout=fo, stderr=fe, start_new_session=True, preexec_fn=lambda: limits(ctx["flavour"]))
        try:
            p.wait(HANG)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise Bad(app + ":hang", "no answer within %d s" % HANG)
    if p.returncode == -signal.SIGXFSZ or max(os.path.getsize(d + x) for x in (".out", ".err")) >= OUTPUT:
        raise Bad(app + ":endless-output", "more than %d bytes of output; it starts with\n%s" % (OUTPUT, open(d + ".out", errors="replace").read(500)))
    out, err = (open(d + x, errors="replace").read() for x in (".out", ".err"))
    rc = p.returncode
    if rc < 0 or rc in (23, 24) or "Sanitizer" in err or "runtime error:" in err:
        m = re.search(r"(AddressSanitizer: \S+|runtime error: [^\n]{0,50})", err)
        raise Bad("%s:crash:%s" % (app, re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1)).replace(" ", "-") if m else rc), err[-3000:])
    return rc, out, err


def cnt(ctx, k, v=1):
    ctx["counters"][k] = ctx["counters"].get(k, 0) + v


def ddpaths(ctx, r):
    g = random_graph(r, 9 if r.random() < 0.7 else 11)
    n = len(g.E)
    t = r.choice(["path", "path", "cycle", "cc", "forest"])
    args, files = [], {"g.dat": g.text}
    if t != "path" or r.random() < 0.5:
        args += ["-t", t]
    ham = t in ("path", "cycle") and r.random() < 0.35
    slow = t in ("path", "cycle") and r.random() < 0.25
    groups, expect_error = None, False
    if t == "path":
        if r.random() < 0.6:
            k = min(len(g.V) // 2, r.choice([1, 1, 2, 3]))
            vs = r.sample(g.V, 2 * k)
            groups = [(vs[2 * i], vs[2 * i + 1]) for i in range(k)]
        else:
            # default: from vertex "1" to the vertex named after the number of vertices
            if 1 in g.V and len(g.V) in g.V and len(g.V) > 1:
                groups = [(1, len(g.V))]
            else:
                expect_error = True
    elif t in ("cc", "forest"):
        groups = []
        if r.random() < 0.7:
            vs = r.sample(g.V, r.randint(1, len(g.V)))
            k = r.randint(1, min(3, len(vs)))
            groups = [[] for _ in range(k)]
            for i, v in enumerate(vs):
                groups[i if i < k else r.randrange(k)].append(v)
    elif r.random() < 0.2:
        groups = [tuple(r.sample(g.V, 2))]      # ignored for cycles
    use_file = bool(groups) and not (t == "path" and not expect_error and len(groups) == 1 and groups[0] == (1, len(g.V)) and r.random() < 0.5)
    if use_file:
        files["t.dat"] = "".join(" ".join(map(str, x)) + "\n" for x in groups)
    if ham: args.append("-hamilton")
    if slow: args.append("-slow")
    for o, p in (("-nola", .3), ("-p", .4), ("-dc", .3), ("-nored", .25), ("-count", .6)):
        if r.random() < p:
            args.append(o)
    uec = -1
    if t in ("cc", "forest") and r.random() < 0.6:
        uec = r.randint(0, 3)
        args += ["-uec", str(uec)]
    lb, ub = 0, 1 << 30
    if r.random() < 0.35:
        lb = r.randint(0, n)
        args += ["-lb", str(lb)]
    if r.random() < 0.35:
        ub = r.randint(0, n)
        args += ["-ub", str(ub)]
    outs = [o for o in ("-all", "-zdd", "-export") if r.random() < 0.35]
    args += outs
    dump = r.random() < 0.06
    if dump: args.append("-graph")
    if r.random() < 0.3:
        r.shuffle(args) if not any(a in ("-t", "-lb", "-ub", "-uec") for a in args) else None
    stdin = None
    if r.random() < 0.15:
        stdin = g.text
        args.append("-")
    else:
        args.append("g.dat")
    if use_file: args.append("t.dat")
    rc, out, err = call(ctx, "ddpaths", args, files, stdin)
    if expect_error:
        if rc != 1:
            raise Bad("ddpaths:default-ends", "exit code %d although a default end vertex does not exist" % rc)
        cnt(ctx, "ddpaths_rejected")
        return
    if rc != 0:
        raise Bad("ddpaths:rc", "exit code %d: %s" % (rc, err[-500:]))
    m = re.search(r"#vertex = (\d+), #edge = (\d+), max_frontier_size = (\d+)", err)
    if not m or int(m.group(1)) != len(g.V) or int(m.group(2)) != n:
        raise Bad("ddpaths:graph-report", "%s, expected %d vertices and %d edges" % (m and m.group(0), len(g.V), n))
    if dump:
        es = re.findall(r'"(\d+)"--"(\d+)"', out)
        if sorted(tuple(sorted(map(int, e))) for e in es) != sorted(g.E):
            raise Bad("ddpaths:graph-dump", out[:1000])
        cnt(ctx, "graph_dumps")
        return
    if t == "path":
        fam = {x for x in range(1 << n) if path_ok(g, x, groups, ham)}
    elif t == "cycle":
        fam = {x for x in range(1 << n) if cycle_ok(g, x, ham)}
    else:
        fam = {x for x in range(1 << n) if fbs_ok(g, x, groups, uec, t == "forest")}
    bad = finding = None
    if ham:
        plain = {x for x in range(1 << n) if (path_ok(g, x, groups, False) if t == "path" else cycle_ok(g, x, False))}
        bad, finding = hamilton_window(g, plain, t == "cycle"), "ddpaths:hamilton-vertex-outside-frontier"
    elif slow and t == "path" and len(groups) > 1:
        bad, finding = one_cycle_through_pairs(g, groups), "ddpaths:slow-several-pairs"
        if "-dc" in args:   # already restricted to the right degrees
            bad = {x for x in bad if all((d == 1) if any(v in p for p in groups) else d in (0, 2) for v, d in components(g, x)[1].items())}
    fam = {x for x in fam if lb <= bin(x).count("1") <= ub}
    what = "ddpaths:%s%s%s" % (t, ":hamilton" if ham else "", ":slow" if slow and not ham else "")
    m = re.search(r"#node = (\d+), #solution = (\S+)", err)
    # the right family, or the one a recorded finding yields: every observation must fit
    cands = [fam]
    if bad is not None:
        bad = {x for x in bad if lb <= bin(x).count("1") <= ub}
        if bad != fam:
            cands.append(bad)

    def observe(what, fits, text):
        left = [f for f in cands if fits(f)]
        if not left:
            raise Bad(what, text)
        if cands[0] is fam and left[0] is not fam:
            ctx["soft"].setdefault(finding, "%s: %s" % (ctx["cmd"], text))
        cands[:] = left
    observe(what, lambda f: m and float(m.group(2)) == len(f), "printed %s, expected %d" % (m and m.group(0), len(fam)))
    if "-nored" not in args:
        observe(what + ":nodes", lambda f: int(m.group(1)) == zdd_size(f, n), "printed %s, the reduced ZDD has %d nodes" % (m.group(0), zdd_size(fam, n)))
        cnt(ctx, "sizes_compared")
    if "-count" in args:
        k = re.findall(r"#solution = (\S+)", err)
        observe(what + ":count", lambda f: len(k) == 2 and k[1] == str(len(f)), "printed %s, expected %d" % (k, len(fam)))
    if "-zdd" in outs:
        d = dot_family(out[:out.index("_i ")] if "-export" in outs and "\n_i " in out else out, n)
        observe(what + ":zdd", lambda f: d == f, "dumped ZDD denotes another family\n" + out[:2000])
        cnt(ctx, "zdd_dumps")
    if "-export" in outs and "_i " in out:
        top, c, ex = sapporo_family(out[out.index("_i "):])
        observe(what + ":export", lambda f: ex == f, "exported ZDD denotes another family\n" + out[:2000])
        cnt(ctx, "exports")
    if "-all" in outs:
        got = []
        for b in re.findall(r"(?m)^graph \{.*?^\}", out, re.S):
            x = 0
            es = re.findall(r'"(\d+)"--"(\d+)"\[style=(\w+)', b)
            if len(es) != n:
                raise Bad(what + ":all", "solution with %d edges" % len(es))
            for a, c, st in es:
                if st == "bold":
                    x |= 1 << (n - 1 - g.E.index(tuple(sorted((int(a), int(c))))))
            got.append(x)
        observe(what + ":all", lambda f: len(got) == len(f) and set(got) == f, "%d solutions printed (%d distinct), expected %d" % (len(got), len(set(got)), len(fam)))
        cnt(ctx, "solutions_printed", len(got))
    cnt(ctx, "ddpaths_" + t)
    if len(fam) > 1:
        cnt(ctx, "nontrivial_paths")
        ctx["distinct"].add("p%s%s" % (g.text, ctx["cmd"]))
    ctx["sample"] = "%s on %r: %d solutions" % (ctx["cmd"], g.E, len(fam))


def numlin_all(rows, cols, num):
    """all link patterns: labelled cells have degree 1, others 0 or 2; yields (h, v) sets of cells"""
    res = []
    H = [[False] * cols for _ in range(rows)]   # link to the east
    V = [[False] * cols for _ in range(rows)]   # link to the south

    def rec(c):
        if c == rows * cols:
            res.append((frozenset((i, j) for i in range(rows) for j in range(cols) if H[i][j]),
                        frozenset((i, j) for i in range(rows) for j in range(cols) if V[i][j])))
            return
        i, j = divmod(c, cols)
        d = (i > 0 and V[i - 1][j]) + (j > 0 and H[i][j - 1])
        for e in (False, True):
            if e and j + 1 == cols:
                continue
            for s in (False, True):
                if s and i + 1 == rows:
                    continue
                k = d + e + s
                if (k != 1) if num[i][j] else (k not in (0, 2)):
                    continue
                H[i][j], V[i][j] = e, s
                rec(c + 1)
        H[i][j] = V[i][j] = False
    rec(0)
    good = []
    for h, v in res:
        par = {}

        def find(x):
            while par.get(x, x) != x:
                x = par[x]
            return x
        ok = True
        for (i, j), (di, dj) in [(x, (0, 1)) for x in h] + [(x, (1, 0)) for x in v]:
            a, b = find((i, j)), find((i + di, j + dj))
            if a == b:
                ok = False
                break
            par[a] = b
        if not ok:
            continue
        lab = {}
        for i in range(rows):
            for j in range(cols):
                if num[i][j]:
                    lab.setdefault(find((i, j)), []).append(num[i][j])
        if all(len(x) == 2 and x[0] == x[1] for x in lab.values()):
            good.append((h, v))
    return good


def detour_free(rows, cols, num, h, v):
    """no unit square with three used sides, no corner that could be flipped upwards into an unused cell,
    no roof that could be lowered"""
    def used(i, j):
        return num[i][j] != 0 or (i, j) in h or (i, j) in v or (i, j - 1) in h or (i - 1, j) in v
    for i in range(rows - 1):
        for j in range(cols - 1):
            sides = [(i, j) in h, (i + 1, j) in h, (i, j) in v, (i, j + 1) in v]
            if sum(sides) >= 3:
                return False
            if sides[1] and sides[2] and not used(i, j + 1):
                return False
            if sides[1] and sides[3] and not used(i, j):
                return False
    for i in range(rows - 1):
        for j0 in range(cols):
            if (i, j0) not in v or (i, j0) not in h:
                continue
            j = j0
            while (i, j) in h:
                j += 1
                if (i, j) in v:
                    break
            if (i, j) not in v:
                continue
            if any((i + 1, k) in h for k in range(j0, j)):
                continue
            if any(num[i + 1][k] for k in range(j0 + 1, j)):
                continue
            return False
    return True


def render(rows, cols, num, h, v):
    arms = {("E", "W"): "──", ("N", "W"): "─┘", ("E", "N"): " └", ("S", "W"): "─┐", ("E", "S"): " ┌", ("N", "S"): " │"}
    out = "┏" + "━━" * cols + "━┓\n"
    for i in range(rows):
        out += "┃"
        for j in range(cols):
            a = tuple(sorted(x for x, y in (("E", (i, j) in h), ("W", (i, j - 1) in h), ("S", (i, j) in v), ("N", (i - 1, j) in v)) if y))
            if len(a) >= 2:
                out += arms[a]
            else:
                out += "%2d" % num[i][j] if num[i][j] else "  "
        out += " ┃\n"
    return out + "┗" + "━━" * cols + "━┛\n"


def tr(s):
    return frozenset((j, i) for i, j in s)


def numlin(ctx, r):
    if r.random() < 0.12:
        rows, cols = r.choice([(1, r.randint(2, 9)), (r.randint(2, 9), 1)])
    else:
        while True:
            rows, cols = r.randint(2, 6), r.randint(2, 6)
            if rows * cols <= (20 if r.random() < 0.15 else 15):
                break
    num = [[0] * cols for _ in range(rows)]
    cells = [(i, j) for i in range(rows) for j in range(cols)]
    labels = list(range(1, 10)) if r.random() < 0.8 else [r.randint(10, 99) for _ in range(4)]
    mode = r.random()
    if mode < 0.65:
        # start from random disjoint walks, so that solutions exist
        free = set(cells)
        for lab in labels[: r.randint(1, 4)]:
            if not free:
                break
            p = [r.choice(sorted(free))]
            free.discard(p[0])
            for _ in range(r.randint(1, 8)):
                i, j = p[-1]
                nx = [x for x in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)) if x in free]
                if not nx:
                    break
                x = r.choice(nx)
                free.discard(x)
                p.append(x)
            if len(p) >= 2:
                num[p[0][0]][p[0][1]] = num[p[-1][0]][p[-1][1]] = lab
    elif mode < 0.95:
        k = r.randint(0, min(3, len(cells) // 2))
        cs = r.sample(cells, 2 * k)
        for q in range(k):
            for i, j in cs[2 * q:2 * q + 2]:
                num[i][j] = labels[q % (1 if r.random() < 0.2 else len(labels))]
    else:
        for i, j in r.sample(cells, r.randint(0, min(5, len(cells)))):
            num[i][j] = r.choice(labels[:2])
    sep = r.choice([" ", "  ", "\t"])
    blank = r.choice(["-", ".", "0", "_"])
    text = ""
    if r.random() < 0.3:
        text += r.choice(["# a comment\n", "\n\n", "title 5\n", "  \n"])
    text += ("%d %d" % (cols, rows)) if r.random() < 0.6 else ("%d, %d" % (rows, cols))
    text += "\n"
    for row in num:
        text += sep.join(str(x) if x else blank for x in row) + "\n"
    if r.random() < 0.2:
        text = text[:-1]
    if r.random() < 0.1 and text.endswith("\n"):
        text += "1 1 1 extra\n"
    args = []
    every = r.random() < 0.5
    if every: args.append("-a")
    if r.random() < 0.4: args.append("-p")
    k = -1
    if r.random() < 0.5:
        k = r.randint(0, min(8, rows * cols))
        args += ["-k", str(k)]
    lim = 10
    if r.random() < 0.7:
        lim = r.choice([0, 1, 3, 100000])
        args += ["-m", str(lim)]
    stdin = None
    if r.random() < 0.2:
        stdin = text
        args.append("-")
    else:
        args.append("b.dat")
    rc, out, err = call(ctx, "ddnumlin", args, {"b.dat": text}, stdin)
    if rc != 0:
        raise Bad("numlin:rc", "exit code %d: %s" % (rc, err[-500:]))
    sols = numlin_all(rows, cols, num)

    def blanks(h, v):
        on = {(i, j) for i in range(rows) for j in range(cols) if num[i][j]}
        for i, j in h:
            on |= {(i, j), (i, j + 1)}
        for i, j in v:
            on |= {(i, j), (i + 1, j)}
        return rows * cols - len(on)
    if k >= 0:
        sols = [s for s in sols if blanks(*s) <= k]
    if not every:
        # the solver works on the transposed board when that is narrower
        if cols == 1 or 1 < rows < cols:
            tn = [[num[i][j] for i in range(rows)] for j in range(cols)]
            pruned = [s for s in sols if detour_free(cols, rows, tn, tr(s[1]), tr(s[0]))]
        else:
            pruned = [s for s in sols if detour_free(rows, cols, num, s[0], s[1])]
        if sols and not pruned and k < 0:
            raise Bad("numlin:oracle", "oracle prunes every solution")
        sols = pruned
    what = "numlin%s%s" % (":all" if every else "", ":blanks" if k >= 0 else "")
    m = re.search(r"#solution = (\d+)", err)
    if not m or int(m.group(1)) != len(sols):
        raise Bad(what, "printed %s, expected %d solutions" % (m and m.group(0), len(sols)))
    boards = re.findall(r"(?m)^#(\d+)\n(┏.*?┛\n)", out, re.S)
    want = {}
    for h, v in sols:
        want[render(rows, cols, num, h, v)] = want.get(render(rows, cols, num, h, v), 0) + 1
    if len(boards) != min(lim, len(sols)):
        raise Bad(what + ":printed", "%d boards printed, expected %d" % (len(boards), min(lim, len(sols))))
    got = {}
    for no, (i, b) in enumerate(boards):
        if int(i) != no + 1:
            raise Bad(what + ":numbering", "board %d is numbered %s" % (no + 1, i))
        got[b] = got.get(b, 0) + 1
        if got[b] > want.get(b, 0):
            raise Bad(what + ":board", "printed board is not a solution (or printed twice)\n" + b)
    more = len(sols) - len(boards)
    m = re.search(r"(\S+) more solution", out)
    if lim and (more > 0) != bool(m) or (m and float(m.group(1)) != more):
        raise Bad(what + ":more", "%s, expected %d more" % (m and m.group(0), more))
    cnt(ctx, "boards_checked", len(boards))
    cnt(ctx, "numlin_puzzles")
    if rows == 1 or cols == 1: cnt(ctx, "numlin_single_row_or_column")
    if sols:
        cnt(ctx, "numlin_solvable")
        ctx["distinct"].add("n%s%s" % (text, ctx["cmd"]))
    ctx["sample"] = "%s on a %dx%d board: %d solutions" % (ctx["cmd"], rows, cols, len(sols))


# ------------------------------------------------- larger than brute force ----
def count_links(E, term, cycle=False, bounded=False):
    """numbers, by size if bounded, of the edge sets that are disjoint paths joining equal labels of term, or a single
    cycle: edge by edge, remembering for every open vertex where the path that ends there starts"""
    first, last, total = {}, {}, {}
    for k, e in enumerate(E):
        for v in e:
            first.setdefault(v, k)
            last[v] = k
    if any(v not in first for v in term):
        return total
    cur = {((), 0): 1}
    for k, (u, v) in enumerate(E):
        nxt = {}
        for (st, size), c in cur.items():
            mate = dict(st)
            for x in (u, v):
                if first[x] == k:
                    mate[x] = x
            for take in (0, 1):
                m, sz = dict(mate), size
                if take:
                    a, b = m[u], m[v]
                    if a == 0 or b == 0 or (u in term and a != u) or (v in term and b != v):
                        continue
                    sz += bounded
                    if a == v:
                        if cycle and all(y in (0, x) for x, y in m.items() if x != u and x != v):
                            total[sz] = total.get(sz, 0) + c
                        continue
                    if a in term and b in term and term[a] != term[b]:
                        continue
                    if u != a: m[u] = 0
                    if v != b: m[v] = 0
                    if a in m: m[a] = b
                    if b in m: m[b] = a
                ok = True
                for x in (u, v):
                    if last[x] == k:
                        y = m.pop(x)
                        ok = ok and (y != x if x in term else y in (0, x))
                if ok:
                    key = (tuple(sorted(m.items())), sz)
                    nxt[key] = nxt.get(key, 0) + c
        cur = nxt
    if not cycle:
        for (st, size), c in cur.items():
            total[size] = total.get(size, 0) + c
    return total


def grid(a, b):
    E = []
    for i in range(a):
        for j in range(b):
            v = i * b + j + 1
            if j + 1 < b: E.append((v, v + 1))
            if i + 1 < a: E.append((v, v + b))
    return E


def large_paths(ctx, r):
    kind = r.randrange(6)
    if kind == 0:
        E = grid(r.randint(3, 7), r.randint(2, 5))
    elif kind == 1:
        E = grid(r.randint(10, 60), 2)
    elif kind == 2:
        k = r.randint(30, 2500)
        E = [(i, i + 1) for i in range(1, k)]
        if r.random() < 0.7: E.insert(0, (1, k))
    elif kind == 3:
        k = r.randint(6, 8)
        E = [(i, j) for i in range(1, k + 1) for j in range(i + 1, k + 1)]
    else:
        k, w = r.randint(12, 60), r.randint(2, 4)   # edges between vertices close to each other
        E = sorted({(i, i + r.randint(1, w)) for i in range(1, k - w) for _ in range(2)})
        E = [(i, i + 1) for i in (1,) if (1, 2) not in E] + E
    E = sorted(set(E))
    top = max(v for e in E for v in e)
    rows = {i: [] for i in range(1, top + 1)}
    for a, b in E:
        rows[a].append(b)
    order = [(i, j) for i in range(1, top + 1) for j in rows[i]]
    V = sorted({v for e in order for v in e})
    args, files = [], {"g.dat": "\n".join(" ".join(map(str, rows[i])) for i in range(1, top + 1)).rstrip("\n") + "\n"}
    cyc = r.random() < 0.3
    term = {}
    npairs = 1
    if cyc:
        args += ["-t", "cycle"]
    else:
        npairs = r.choice([1, 1, 2, 3])
        vs = r.sample(V, 2 * npairs) if r.random() < 0.5 else [V[0], V[-1]] + r.sample(V[1:-1], 2 * npairs - 2)
        for i, v in enumerate(vs):
            term[v] = i // 2 + 1
        files["t.dat"] = "".join("%d %d\n" % (vs[2 * i], vs[2 * i + 1]) for i in range(npairs))
    if npairs == 1 and len(order) < 40 and r.random() < 0.15: args.append("-slow")
    for o, p in (("-nola", .3), ("-p", .4), ("-dc", .3), ("-nored", .2)):
        if r.random() < p:
            args.append(o)
    lb, ub = 0, 1 << 30
    if r.random() < 0.3:
        lb = r.randint(0, len(order)); args += ["-lb", str(lb)]
    if r.random() < 0.3:
        ub = r.randint(0, len(order)); args += ["-ub", str(ub)]
    args += ["-count", "g.dat"] + (["t.dat"] if term else [])
    rc, out, err = call(ctx, "ddpaths", args, files)
    if rc != 0:
        raise Bad("ddpaths:rc", "exit code %d: %s" % (rc, err[-500:]))
    bounded = lb > 0 or ub < 1 << 30
    want = sum(c for z, c in count_links(order, term, cyc, bounded).items() if not bounded or lb <= z <= ub)
    k = re.findall(r"#solution = (\S+)", err)
    if len(k) != 2 or k[1] != str(want):
        raise Bad("ddpaths:large:" + ("cycle" if cyc else "path"), "printed %s, expected %d" % (k, want))
    cnt(ctx, "large_graphs")
    if want > 1:
        cnt(ctx, "large_graphs_with_solutions")
        ctx["distinct"].add("P%s%s" % (files, ctx["cmd"]))
    ctx["sample"] = "%s: %d edges, %d solutions" % (ctx["cmd"], len(order), want)


def large_numlin(ctx, r):
    rows, cols = r.randint(4, 8), r.randint(4, 8)
    if r.random() < 0.15: rows, cols = r.choice([(2, r.randint(12, 60)), (r.randint(12, 60), 2), (3, r.randint(10, 25)), (r.randint(50, 200), 1)])
    num = {}
    free = {(i, j) for i in range(rows) for j in range(cols)}
    lab = 0
    for _ in range(rows * cols):
        if not free or lab >= 40 or r.random() < 0.03:
            break
        p = [r.choice(sorted(free))]
        free.discard(p[0])
        for _ in range(r.randint(2, 14)):
            i, j = p[-1]
            nx = [x for x in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)) if x in free]
            if not nx:
                break
            x = r.choice(nx)
            free.discard(x)
            p.append(x)
        if len(p) >= 3:
            lab += 1
            num[p[0]] = num[p[-1]] = lab
    if lab < min(rows, cols) - 1 and min(rows, cols) > 5:
        return large_numlin(ctx, r)     # too many solutions to work with
    text = "%d %d\n" % (cols, rows) + "".join(" ".join(str(num.get((i, j), "-")) for j in range(cols)) + "\n" for i in range(rows))
    every = r.random() < 0.7
    args = (["-a"] if every else []) + (["-p"] if r.random() < 0.4 else []) + ["-m", "2", "b.dat"]
    rc, out, err = call(ctx, "ddnumlin", args, {"b.dat": text})
    if rc != 0:
        raise Bad("numlin:rc", "exit code %d: %s" % (rc, err[-500:]))
    E = grid(rows, cols) if rows >= cols else [(((a - 1) % rows) * cols + (a - 1) // rows + 1, ((b - 1) % rows) * cols + (b - 1) // rows + 1) for a, b in grid(cols, rows)]
    want = sum(count_links(E, {i * cols + j + 1: x for (i, j), x in num.items()}).values())
    m = re.search(r"#solution = (\S+)", err)
    got = float(m.group(1)) if m else -1
    if every and abs(got - want) > want * 1e-5:
        raise Bad("numlin:large:all", "printed %s, expected %d solutions" % (m and m.group(0), want))
    if not every and not 1 <= got <= want:
        raise Bad("numlin:large", "printed %s, there are %d solutions with and at least one without detours" % (m and m.group(0), want))
    for no, (i, b) in enumerate(re.findall(r"(?m)^#(\d+)\n(┏.*?┛\n)", out, re.S)):
        check_board(rows, cols, num, b)
    cnt(ctx, "large_boards")
    ctx["distinct"].add("N%s%s" % (text, ctx["cmd"]))
    ctx["sample"] = "%s on a %dx%d board: %d solutions" % (ctx["cmd"], rows, cols, want)


def check_board(rows, cols, num, b):
    """the lines of a printed board join equal numbers and nothing else"""
    arms = {"──": "EW", "─┘": "NW", " └": "EN", "─┐": "SW", " ┌": "ES", " │": "NS"}
    lines = [l[1:-2] for l in b.split("\n")[1:-2]]
    if len(lines) != rows or any(len(l) != 2 * cols for l in lines):
        raise Bad("numlin:large:board", "wrong size\n" + b)
    cell = {(i, j): lines[i][2 * j:2 * j + 2] for i in range(rows) for j in range(cols)}
    arm = {}
    for x, t in cell.items():
        if x in num:
            if t.strip() != str(num[x]):
                raise Bad("numlin:large:board", "number %s at %s became %s\n%s" % (num[x], x, t, b))
            arm[x] = None
        elif t in arms:
            arm[x] = arms[t]
        elif t.strip():
            raise Bad("numlin:large:board", "unexpected %r\n%s" % (t, b))
        else:
            arm[x] = ""
    D = {"E": (0, 1, "W"), "W": (0, -1, "E"), "S": (1, 0, "N"), "N": (-1, 0, "S")}
    nxt = {}
    for x, a in arm.items():
        for d in a or "":
            y = (x[0] + D[d][0], x[1] + D[d][1])
            if y not in arm or (arm[y] is not None and D[d][2] not in arm[y]):
                raise Bad("numlin:large:board", "loose end at %s\n%s" % (x, b))
            nxt.setdefault(x, []).append(y)
    touched = {}
    for x, ys in nxt.items():
        for y in ys:
            if arm[y] is None:
                touched.setdefault(y, []).append(x)
    # follow the line from each number; neighbouring equal numbers may be joined without a visible line
    for x in num:
        t = touched.get(x, [])
        if len(t) > 1:
            raise Bad("numlin:large:board", "two lines at the number at %s\n%s" % (x, b))
        if not t:
            if not any((x[0] + d[0], x[1] + d[1]) in num and num[(x[0] + d[0], x[1] + d[1])] == num[x] for d in D.values()):
                raise Bad("numlin:large:board", "no line at the number at %s\n%s" % (x, b))
            continue
        prev, y = x, t[0]
        while arm[y] is not None:
            ys = [z for z in nxt[y] if z != prev]
            prev, y = y, ys[0]
        if num[y] != num[x]:
            raise Bad("numlin:large:board", "the numbers at %s and %s are joined\n%s" % (x, y, b))
    cnt_lines = sum(1 for x in arm if arm[x])
    reach = set()
    for x in num:
        for t in touched.get(x, []):
            prev, y = x, t
            while arm[y] is not None:
                reach.add(y)
                prev, y = y, [z for z in nxt[y] if z != prev][0]
    if len(reach) != cnt_lines:
        raise Bad("numlin:large:board", "a line that joins no numbers\n" + b)


def errors(ctx, r):
    k = r.randrange(16)
    tri = "2 3\n3\n"
    tests = [
        ("ddpaths", [], {}, 1), ("ddpaths", ["-nosuch", "g"], {"g": tri}, 1), ("ddpaths", ["missing.dat"], {}, 1),
        ("ddpaths", ["g", "t", "x"], {"g": tri, "t": "1 3\n"}, 1), ("ddpaths", ["g", "t"], {"g": tri, "t": "1 7\n"}, 1),
        ("ddpaths", ["g", "t"], {"g": tri, "t": "1 2 3\n"}, 1), ("ddpaths", ["g"], {"g": ""}, 1), ("ddpaths", ["-t", "tree", "g"], {"g": tri}, 1),
        ("ddpaths", ["-lb"], {"g": tri}, 1), ("ddpaths", ["g", "missing"], {"g": tri}, 1),
        ("ddqueens", [], {}, 1), ("ddqueens", ["0"], {}, 1), ("ddqueens", ["-x", "4"], {}, 1), ("ddqueens", ["4", "5"], {}, 1),
        ("ddnumlin", [], {}, 1), ("ddnumlin", ["missing"], {}, 1), ("ddnumlin", ["-z", "b"], {"b": "2 2\n1 1\n- -\n"}, 1),
        ("ddnumlin", ["b"], {"b": ""}, 1), ("ddnumlin", ["b"], {"b": "no board here\n"}, 1), ("ddnumlin", ["b"], {"b": "0 3\n"}, 1),
        ("ddnumlin", ["b"], {"b": "3 x\n1 1 -\n"}, 1), ("ddnumlin", ["b"], {"b": "2 2\n300 300\n- -\n"}, 1), ("ddnumlin", ["b", "c"], {"b": "2 1\n1 1\n"}, 1),
        ("ddnumlin", ["b"], {"b": "3,"}, 1),
    ]
    app, args, files, want = r.choice(tests)
    rc, out, err = call(ctx, app, args, files)
    if rc != want:
        raise Bad("%s:error-exit" % app, "exit code %d, expected %d" % (rc, want))
    if not err:
        raise Bad("%s:error-message" % app, "no message")
    cnt(ctx, "errors_rejected")


_Q = {}


def queens_all(n, diag=True):
    if (n, diag) not in _Q:
        res = []
        for p in itertools.permutations(range(n)):
            if not diag or (len({i + p[i] for i in range(n)}) == n and len({i - p[i] for i in range(n)}) == n):
                res.append(p)
        _Q[(n, diag)] = res
    return _Q[(n, diag)]


def colorings(n):
    """ways to cover the board by n disjoint queen solutions (colours fixed by the top row)"""
    sols = [[] for _ in range(n)]
    for p in queens_all(n):
        sols[p[0]].append(sum(1 << (i * n + p[i]) for i in range(n)))

    def rec(k, occ):
        if k == n:
            return 1
        return sum(rec(k + 1, occ | s) for s in sols[k] if not occ & s)
    return rec(0, 0)


def queens(ctx, r, n, args):
    rc, out, err = call(ctx, "ddqueens", args + [str(n)], {})
    if rc != 0:
        raise Bad("queens:rc", "exit code %d: %s" % (rc, err[-500:]))
    m = re.search(r"#node = (\d+), #solution = (\S+)", err)
    if "-noreport" in args:
        if m:
            raise Bad("queens:noreport", err[-500:])
    colored = "-colored" in args or "-colored1" in args
    if colored:
        want, fam = colorings(n), None
    else:
        # the queen of row i from the top is on level (n-1-i)*n + column + 1
        fam = {sum(1 << ((n - 1 - i) * n + p[i]) for i in range(n)) for p in queens_all(n)}
        want = len(fam)
    kind = "queens" + (":" + "".join(a for a in args if a.startswith("-c") or a == "-rook") if len(args) else "")
    if m and float(m.group(2)) != want:
        raise Bad(kind, "printed %s, expected %d" % (m.group(0), want))
    if m and fam is not None and int(m.group(1)) != zdd_size(fam, n * n):
        raise Bad(kind + ":nodes", "printed %s, the reduced ZDD has %d nodes" % (m.group(0), zdd_size(fam, n * n)))
    if "-dump" in args:
        got = dot_family(out, n * n * (n if colored else 1))
        if len(got) != want or (fam is not None and got != fam):
            raise Bad(kind + ":dump", "dumped ZDD denotes another family")
        cnt(ctx, "zdd_dumps")
    cnt(ctx, "queens_runs")
    ctx["distinct"].add("q" + ctx["cmd"])
    ctx["sample"] = "%s: %d solutions" % (ctx["cmd"], want)


QUEENS = [(n, c + x) for n in range(1, 9) for c in ([], ["-rook"], ["-colored"], ["-colored1"])
          for x in ([], ["-p"], ["-dump"], ["-noreport", "-dump"], ["-p", "-dump"])
          if not (c and c[0].startswith("-c") and n > 7)]


def one(ctx, seed, case):
    r = random.Random("%d/%d" % (seed, case))
    ctx["flavour"] = "asan" if r.random() < 0.6 else "opt"
    if case < len(QUEENS):
        n, a = QUEENS[case]
        if n >= 6 and ("-colored" in a or "-colored1" in a):
            ctx["flavour"] = "opt"
        return queens(ctx, r, n, a)
    x = r.random()
    if x < 0.05:
        errors(ctx, r)
    elif x < 0.11:
        if r.random() < 0.8: ctx["flavour"] = "opt"
        r.choice([large_paths, large_numlin])(ctx, r)
    elif x < 0.55:
        ddpaths(ctx, r)
    else:
        numlin(ctx, r)


def worker(a):
    base, exe, env, seed, lo, hi = a
    d = os.path.join(base, "w%d" % lo)
    os.makedirs(d, exist_ok=True)
    ctx = {"dir": d, "exe": exe, "env": env, "counters": {}, "distinct": set(), "sample": None, "soft": {}}
    viol, n, samples = [], 0, []
    for case in range(lo, hi):
        if os.path.exists(os.path.join(base, "STOP")):
            break
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        n += 1
        try:
            one(ctx, seed, case)
            cnt(ctx, "runs_" + ctx["flavour"])
            if ctx["sample"] and len(samples) < 2:
                samples.append(ctx["sample"][:300])
        except Bad as b:
            viol.append((b.key, case, ctx["flavour"], "%s [%s]\n%s\n%s" % (ctx.get("cmd"), ctx["flavour"], b.text,
                                                                    "\n".join("--- %s\n%s" % x for x in ctx.get("files", {}).items()))))
            if b.key.endswith((":hang", ":endless-output")):
                open(os.path.join(base, "STOP"), "w").close()
            if len(viol) >= 5:
                break
    for key, text in ctx["soft"].items():
        viol.append((key, lo, "-", text))
    shutil.rmtree(d, ignore_errors=True)
    return viol, n, ctx["counters"], [int(hashlib.sha1(x.encode()).hexdigest()[:15], 16) for x in ctx["distinct"]], samples


def build_apps(R):
    jobs, exe = [], {}
    for app, pats in APPS.items():
        srcs = sorted(s for p in pats for s in glob.glob(os.path.join(R.REPO, "apps", p)))
        for fl, flags in FLAGS.items():
            o = os.path.join(R.BUILD, "C21-%s-%s" % (app, fl))
            exe[(app, fl)] = o
            jobs.append((["g++", "-std=c++11", "-fopenmp", "-w"] + flags + ["-I" + os.path.join(R.REPO, "include")] + srcs + ["-o", o], o))
    os.makedirs(R.BUILD, exist_ok=True)
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(R.CORES) as ex:
        for rc, o, cmd, err in ex.map(R.compile_job, jobs):
            if rc:
                raise R.Inconclusive("compile failed: %s\n%s" % (cmd, err[:4000]))
    return exe


def run(self, job):
    R = sys.modules["__main__"]
    exe = build_apps(R)
    n = job["cases"] if self.tier == "quick" else job["cases_thorough"]
    base = os.path.join(R.BUILD, "C21-work")
    shutil.rmtree(base, ignore_errors=True)
    env = R.run_env("asan")
    env["ASAN_OPTIONS"] += ":detect_leaks=0"
    env["OMP_NUM_THREADS"] = "3"
    step = max(1, -(-n // (R.CORES * 6)))
    work = [(base, exe, env, self.seed, lo, min(n, lo + step)) for lo in range(0, n, step)]
    with mp.Pool(R.CORES) as pool:
        for viol, k, counters, distinct, samples in pool.imap(worker, work):
            self.stats["evaluations"] += k
            for c, v in counters.items():
                self.stats["counters"][c] = self.stats["counters"].get(c, 0) + v
            self.stats["distinct"].update(distinct)
            self.stats["samples"] += samples[: max(0, 6 - len(self.stats["samples"]))]
            for key, case, fl, text in viol:
                self.add(key, {"src": "c21.py", "flavour": fl}, case, text)
    shutil.rmtree(base, ignore_errors=True)


def replay(R, rep):
    exe = build_apps(R)
    env = R.run_env("asan")
    env["OMP_NUM_THREADS"] = "3"
    d = os.path.join(R.BUILD, "C21-replay")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    ctx = {"dir": d, "exe": exe, "env": env, "counters": {}, "distinct": set(), "sample": None, "soft": {}}
    try:
        one(ctx, rep["seed"], rep["case"])
        print("held:", ctx["cmd"])
        return 0
    except Bad as b:
        print(ctx["cmd"], ctx["files"], b.key, b.text)
        return 1
