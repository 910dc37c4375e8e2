#!/usr/bin/env python3
"""Runs the monitors that decide one property.

  run.py check <ID> [quick|thorough]     build from /repo, run the workload, judge, write evidence
  run.py replay <file>                   re-run the single case recorded in a replay file
  run.py setup                           sanity check of the tool chain

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check itself could not give an answer (build failure, nothing observed ...).
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(ROOT, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
CORES = max(2, min(8, os.cpu_count() or 2))
T0 = time.time()

sys.path.insert(0, H)
from plan import PLAN, FLAVOURS  # noqa: E402


class Inconclusive(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=None, mem=None, stop=None):
    """returns rc, stdout, stderr, timed out; with stop, a run that is no longer needed is ended (rc None)"""
    if mem and shutil.which("prlimit"):
        cmd = ["prlimit", "--as=%d" % mem] + list(cmd)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         start_new_session=True, errors="replace", text=True)
    t0, unneeded = time.time(), False
    while True:
        left = timeout - (time.time() - t0)
        try:
            out, err = p.communicate(timeout=max(0.1, min(left, 5) if stop else left))
            return p.returncode, out, err, False
        except subprocess.TimeoutExpired:
            unneeded = bool(stop and stop())
            if left > 5 and not unneeded:
                continue
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return (None, out, err, False) if unneeded else (-9, out, err, True)


def run_env(fl):
    e = dict(os.environ)
    e.update({"OMP_NUM_THREADS": "4", "OMP_DYNAMIC": "false", "OMP_WAIT_POLICY": "passive", "LC_ALL": "C.UTF-8"})
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=23:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=0:hard_rss_limit_mb=7000:strict_string_checks=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=24"
    e["TSAN_OPTIONS"] = "exitcode=25:halt_on_error=0:report_thread_leaks=0:history_size=4:second_deadlock_stack=0"
    return e


# ------------------------------------------------------------------ build ----
def compile_job(job):
    cmd, out = job
    rc, o, e, to = sh(cmd, 800)
    return rc, out, " ".join(cmd), e + (" [timeout]" if to else "")


def build(pid, jobs):
    """jobs: list of (src, flavour, defines). Returns {(src,flavour): exe}."""
    os.makedirs(BUILD, exist_ok=True)
    comp, links = [], {}
    shims = {}
    for src, fl in jobs:
        f = FLAVOURS[fl]
        text = open(os.path.join(H, src)).read()
        m = re.search(r"^// PARTS:(.*)$", text, re.M)
        parts = m.group(1).split() if m else [None]
        objs = []
        for p in parts:
            o = os.path.join(BUILD, "%s-%s-%s%s.o" % (pid, os.path.splitext(src)[0], fl, "" if p is None else "-" + p))
            cmd = [f.get("cxx", "g++"), "-std=c++17"] + f["cflags"] + ["-I" + H, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "apps"), "-I" + os.path.join(ROOT, "mock/sapporo"), "-I" + os.path.join(ROOT, "mock/cudd"), "-w"]
            if p is not None:
                cmd.append("-DVF_PART=" + p)
            cmd += ["-c", os.path.join(H, src), "-o", o]
            comp.append((cmd, o))
            objs.append(o)
        exe = os.path.join(BUILD, "%s-%s-%s" % (pid, os.path.splitext(src)[0], fl))
        if f.get("shim"):
            so = os.path.join(BUILD, "%s-shim-%s.o" % (pid, fl))
            if so not in shims:
                shims[so] = 1
                comp.append(([f.get("cxx", "g++"), "-std=c++17"] + [x for x in f["cflags"] if x != "-fopenmp"] + ["-w", "-c", os.path.join(H, "shim.cpp"), "-o", so], so))
            objs.append(so)
        links[(src, fl)] = ([f.get("cxx", "g++")] + objs + f["ldflags"] + ["-o", exe], exe)
    with cf.ThreadPoolExecutor(CORES) as ex:
        for rc, o, cmd, err in ex.map(compile_job, comp):
            if rc != 0:
                raise Inconclusive("compile failed: %s\n%s" % (cmd, err[:6000]))
        res = list(ex.map(compile_job, links.values()))
    for rc, o, cmd, err in res:
        if rc != 0:
            raise Inconclusive("link failed: %s\n%s" % (cmd, err[:6000]))
    return {k: v[1] for k, v in links.items()}


# ---------------------------------------------------------------- judging ----
def clean_frame(s):
    return re.sub(r"<.*>|\(.*\)|:\d+.*$", "", s)


def classify_crash(rc, err, to):
    """returns a violation key (stable under line changes) or None"""
    m = re.search(r"WARNING: ThreadSanitizer: ([a-z \-()]+)", err)
    if m:
        kind = m.group(1).strip().split(" (")[0]
        fr = re.findall(r"#0 (\S.*?) (/\S+?):\d+", err)
        locs = sorted({os.path.basename(f[1]) for f in fr[:2]})
        return "tsan:%s:%s" % (kind.replace(" ", "-"), "+".join(locs))
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z\-]+)", err)
    if m:
        fr = [os.path.basename(x) for x in re.findall(r"#\d+ .*? (/\S+?):\d+", err) if "/include/tdzdd/" in x or "/apps/" in x]
        return "asan:%s:%s" % (m.group(1), fr[0] if fr else "?")
    m = re.search(r"runtime error: (.{0,60})", err)
    if m:
        fr = re.search(r"(\S+?):\d+:\d+: runtime error", err)
        return "ubsan:%s:%s" % (re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1)), os.path.basename(fr.group(1)) if fr else "?")
    m = re.search(r"(\S+?):\d+: .*Assertion [`'](.*?)' failed", err)
    if m:
        return "assert:%s:%s" % (os.path.basename(m.group(1)), m.group(2)[:60])
    if rc == 26:
        m = re.search(r"==\d+== ((Invalid|Conditional|Use of|Syscall|Argument|Mismatched|Source)[^\n]{0,40})", err)
        fr = re.findall(r"\(([\w.]+\.hpp|[\w.]+\.cpp):\d+\)", err)
        return "memcheck:%s:%s" % (re.sub(r"\d+", "N", m.group(1)) if m else "?", fr[0] if fr else "?")
    if "hard rss limit exhausted" in err or "out of memory" in err:
        return "memory-exhausted"
    if to:
        return "hang"
    if rc < 0:
        return "signal:%d" % -rc
    if "terminate called" in err:
        return "terminate"
    return None


def load_known():
    known = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", ln.strip())
            if m:
                known.append(m.groups())
    return known


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.violations = []   # (key, replay dict, text)
        self.first = None      # time of the first violation
        self.notes = []
        self.stats = {"evaluations": 0, "counters": {}, "samples": [], "distinct": set(), "jobs": []}

    def absorb(self, path, label):
        try:
            j = json.load(open(path))
        except Exception:
            return False
        self.stats["evaluations"] += j["evaluations"]
        for k, v in j["counters"].items():
            if k.startswith("max:"):
                self.stats["counters"][k] = max(v, self.stats["counters"].get(k, 0))
            else:
                self.stats["counters"][k] = self.stats["counters"].get(k, 0) + v
        self.stats["samples"] += [s for s in j["samples"]][: max(0, 6 - len(self.stats["samples"]))]
        self.stats["distinct"].update(j["distinct"])
        return True

    def command(self, job, exe, lo, hi, stats=None, cur=None):
        f = FLAVOURS[job["flavour"]]
        cmd = list(f.get("wrap", [])) + [exe, "--seed", str(self.seed), "--lo", str(lo), "--hi", str(hi)]
        if stats:
            cmd += ["--stats", stats]
        if cur:
            cmd += ["--cur", cur]
        if self.tier == "thorough":
            cmd.append("--thorough")
        if job.get("mode"):
            cmd += ["--mode", job["mode"]]
        return cmd

    def shard(self, job, exe, k, lo, hi):
        if self.decided():
            return   # the answer is known: the shards that have not begun are not needed
        tag = os.path.join(BUILD, "%s-%s-%d" % (os.path.basename(exe), self.tier, k))
        limit = job.get("timeout", 300) if self.tier == "quick" else job.get("timeout_thorough", 3000)
        env = run_env(job["flavour"])
        mem = (8 << 30) if job["flavour"] == "fast" else None   # sanitizers reserve address space
        start = lo
        while start < hi:
            for f in (tag + ".stats", tag + ".cur"):
                if os.path.exists(f):
                    os.unlink(f)
            rc, out, err, to = sh(self.command(job, exe, start, hi, tag + ".stats", tag + ".cur"), limit, env, mem=mem, stop=lambda: self.decided(20))
            if rc is None:
                return
            found = [ln.split("\t") for ln in out.splitlines() if ln.startswith("MISMATCH\t")]
            for m in found:
                self.add(m[1], job, int(m[2]), m[3] if len(m) > 3 else "")
            self.absorb(tag + ".stats", job["src"])
            if rc == 0:
                return
            if rc in (10,) and found and not re.search("WARNING: ThreadSanitizer", err):
                # all cases run, or stopped after five mismatches
                return
            key = classify_crash(rc, err, to)
            try:
                case = struct.unpack("<Q", open(tag + ".cur", "rb").read(8))[0]
            except Exception:
                case = start
            if key is None:
                raise Inconclusive("monitor %s ended with code %s\n%s" % (exe, rc, (out + err)[-3000:]))
            if key == "hang" or key == "signal:9":
                # the machine may have been busy or out of memory: judge that case alone
                rc2, out2, err2, to2 = sh(self.command(job, exe, case, case + 1), max(120, limit // 2), env, stop=lambda: self.decided(20))
                if rc2 is None:
                    return
                k2 = classify_crash(rc2, err2, to2) if rc2 not in (0, 10) else None
                if k2 is None:
                    raise Inconclusive("shard of %s timed out but case %d alone did not" % (exe, case))
                key, err = k2, err2
            self.add(key, job, case, err[-6000:] if not key.startswith("tsan") else err[:6000])
            if key.startswith("tsan") and rc != 0 and not to:
                return   # tsan reports do not stop the run: all cases were executed
            if self.is_known(key):
                start = case + 1
                continue
            return

    def is_known(self, key):
        return any(p == self.pid and k == key for p, k, _ in load_known())

    def decided(self, grace=0):
        """a violation that is not a recorded finding was seen at least grace seconds ago"""
        return self.first is not None and time.time() - self.first >= grace

    def add(self, key, job, case, text):
        if self.first is None and not self.is_known(key):
            self.first = time.time()
        self.violations.append((key, {"property": self.pid, "tier": self.tier, "seed": self.seed, "src": job["src"],
                                      "flavour": job["flavour"], "mode": job.get("mode"), "case": case, "key": key}, text))

    def run(self):
        jobs = PLAN[self.pid]["jobs"]
        jobs = [j for j in jobs if (self.tier == "thorough" or not j.get("thorough_only"))]
        harness = [j for j in jobs if "src" in j]
        exes = build(self.pid, sorted({(j["src"], j["flavour"]) for j in harness}))
        t_built = time.time()
        work = []
        for j in harness:
            n = j["cases"] if self.tier == "quick" else j.get("cases_thorough", j["cases"] * 20)
            step = max(1, -(-n // CORES))
            if self.tier == "thorough":
                step = max(1, -(-n // (CORES * 4)))
            for k, lo in enumerate(range(0, n, step)):
                work.append((j, exes[(j["src"], j["flavour"])], k, lo, min(n, lo + step)))
        with cf.ThreadPoolExecutor(CORES) as ex:
            futs = [ex.submit(self.shard, *w) for w in work]
            errs = []
            for f in futs:
                try:
                    f.result()
                except Inconclusive as e:
                    errs.append(e)
        for j in jobs:
            if "py" in j:
                mod = __import__(j["py"])
                mod.run(self, j)
        self.t_run = time.time() - t_built
        if errs and not self.violations:
            raise errs[0]


def finish(r, status):
    pid = r.pid
    known = load_known()
    unknown, seen_known = [], {}
    for key, rep, text in r.violations:
        hit = [k for k in known if k[0] == pid and k[1] == key]
        if hit:
            seen_known.setdefault(key, hit[0][2])
        else:
            unknown.append((key, rep, text))
    for p, key, what in known:
        if p == pid and (key in seen_known or PLAN[pid].get("always_known")):
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, what, key))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    c = r.stats
    ev = {
        "property": pid, "tier": r.tier, "seed": r.seed, "level": "exploration",
        "coverage": {
            "evaluations": c["evaluations"], "distinct_nontrivial": len(c["distinct"]),
            "rule": PLAN[pid]["rule"], "samples": c["samples"][:6] or ["(none)"],
            "observed": {k: c["counters"][k] for k in sorted(c["counters"])},
            "builds": sorted({"%s/%s" % (j.get("src", j.get("py")), j.get("flavour", "-")) for j in PLAN[pid]["jobs"]}),
        },
        "assumptions": PLAN[pid].get("assumptions", []),
        "wall_s": round(time.time() - T0, 2), "violations": len(unknown),
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    if unknown:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        seen = set()
        for key, rep, text in unknown:
            if key in seen:
                continue
            seen.add(key)
            name = "%s-%s.json" % (pid, hashlib.sha1(("%s%s%s" % (key, rep.get("case"), rep.get("src"))).encode()).hexdigest()[:10])
            path = os.path.join(ROOT, "replays", name)
            rep["witness"] = text
            json.dump(rep, open(path, "w"), indent=1)
            print("  key=%s src=%s/%s case=%s\n  %s" % (key, rep.get("src"), rep.get("flavour"), rep.get("case"), text[:1500].replace("\n", "\n  ")))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return status


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    r = Run(pid, tier, seed)
    try:
        r.run()
    except Inconclusive as e:
        if r.violations:
            return finish(r, 2)
        print("INCONCLUSIVE property=%s: %s" % (pid, e))
        finish(r, 2)
        return 2
    for k, least in PLAN[pid].get("must_observe", {}).items():
        got = r.stats["counters"].get(k, 0)
        if got < least and not [v for v in r.violations if not r.is_known(v[0])]:
            print("INCONCLUSIVE property=%s: monitor observed %s=%d (<%d)" % (pid, k, got, least))
            finish(r, 2)
            return 2
    rc = finish(r, 0)
    if rc == 0:
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs (run %.1fs)" % (
            pid, tier, seed, r.stats["evaluations"], len(r.stats["distinct"]), time.time() - T0, r.t_run))
    return rc


def replay(path):
    rep = json.load(open(path))
    if rep["src"].endswith(".py"):
        return __import__(rep["src"][:-3]).replay(sys.modules["__main__"], rep)
    exes = build("replay", [(rep["src"], rep["flavour"])])
    exe = list(exes.values())[0]
    r = Run(rep["property"], rep["tier"], rep["seed"])
    job = {"src": rep["src"], "flavour": rep["flavour"], "mode": rep.get("mode")}
    rc, out, err, to = sh(r.command(job, exe, rep["case"], rep["case"] + 1), 900, run_env(rep["flavour"]))
    print(out + err)
    print("exit", rc, "timeout" if to else "")
    return 0 if rc == 0 else 1


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        for t in ("g++", "python3"):
            if not shutil.which(t):
                print("missing", t)
                return 1
        os.makedirs(BUILD, exist_ok=True)
        return 0
    if a[:1] == ["replay"]:
        return replay(a[1])
    if a[:1] == ["check"]:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(a[1], tier)
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Inconclusive as e:
        print("INCONCLUSIVE:", e)
        sys.exit(2)
