#!/usr/bin/env python3
"""Runs the check of one property: check.py <id> [--tier quick|thorough] [--seed N] [--scale X] [--case harness:variant:idx]

Builds the library from /repo's working tree under the instrumentation the property needs, drives it with the
property's workload on all cores, collects what the monitors saw, and decides:
  exit 0  the property held on everything explored (known findings are printed, see known_findings.txt)
  exit 1  "VIOLATION property=<id> replay=<path>": a violation that known_findings.txt does not list
  exit 3  no verdict: the machinery failed, or the monitors observed too little
"""
import sys, os, concurrent.futures, json, time, subprocess, re, tempfile, shutil, struct, traceback, resource, threading, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from checks import CHECKS

VERIF = build.VERIF
WORKERS = 8
CLOCK = 660        # seconds of wall clock after which no new work is started in the quick tier

ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=0:hard_rss_limit_mb=3000:malloc_context_size=12:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "LSAN_OPTIONS": "exitcode=97",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=96:second_deadlock_stack=1",
    "LC_ALL": "C",
})

class Inconclusive(Exception):
    pass

def classify(rc, err):
    """A stable key for a crash."""
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)(.*)", err)
    if "hard rss limit exhausted" in err:
        return "memory-limit"
    if "Assertion `" in err:
        a = re.search(r"([\w./]+):\d+: (.*?): Assertion `(.*?)' failed", err)
        if a:
            return "assertion:%s:%s" % (os.path.basename(a.group(1)), a.group(3))
        return "assertion"
    r = re.search(r"runtime error: (.*)", err)
    if r:
        loc = re.search(r"([\w.]+\.(?:h|cpp|y|c)):\d+", err)
        msg = re.sub(r"0x[0-9a-f]+|-?\d+", "N", r.group(1))
        return "ubsan:%s:%s" % (loc.group(1) if loc else "?", msg[:80])
    if m:
        fn = ""
        for line in err.splitlines():
            f = re.match(r"\s*#\d+ 0x[0-9a-f]+ in (.*)", line)
            if f and "Pire" in f.group(1):
                fn = re.sub(r"\(.*", "", f.group(1)); break
        return "%s:%s:%s" % (m.group(1), m.group(2), fn)
    if rc < 0:
        return "signal:%s" % signal.Signals(-rc).name
    if "terminate called" in err:
        return "terminate"
    return "exit:%d" % rc

def preexec(cpu, asan):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if not asan:
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    return f

class Pool:
    """Runs the cases of one stage, resuming after crashes, and merges what the workers report."""
    def __init__(self, prop, stage, binary, ncases, seed, tier, deadline, tmp):
        self.__dict__.update(prop=prop, stage=stage, binary=binary, n=ncases, seed=seed, tier=tier, deadline=deadline, tmp=tmp)
        self.lock = threading.Lock()
        self.evaluations = 0; self.skipped = 0; self.counters = {}; self.sets = {}; self.distinct = set(); self.samples = []
        self.violations = []; self.inconclusive = []; self.stop = False; self.crashes = 0; self.cut = False

    def one(self, frm, to, stride, limit, tag):
        out = os.path.join(self.tmp, "%s.json" % tag); prog = os.path.join(self.tmp, "%s.prog" % tag)
        for p in (out, prog):
            if os.path.exists(p):
                os.unlink(p)
        cmd = [self.binary, "--seed", str(self.seed), "--from", str(frm), "--to", str(to), "--stride", str(stride), "--tier", self.tier,
               "--out", out, "--progress", prog, "--limit", str(limit)]
        asan = self.stage["variant"] in ("asan", "scalar", "tsan")
        ncases = (to - frm + stride - 1) // stride
        wall = max(120, min(870, self.deadline - time.time() + 120))
        with open(os.path.join(self.tmp, tag + ".err"), "w+b") as err:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=ENV, preexec_fn=preexec(max(limit + 30, 900), asan), cwd=self.tmp)
            try:
                rc = p.wait(wall)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = "wall"
            err.seek(0); e = err.read().decode("utf8", "replace")
        idx = -1
        if os.path.exists(prog):
            with open(prog, "rb") as f:
                b = f.read()
                if len(b) == 16:
                    idx, status = struct.unpack("QQ", b)
        res = None
        if rc == 0:
            with open(out, encoding="latin1") as f:
                res = json.load(f)
        return rc, e, idx, res

    def merge(self, r):
        with self.lock:
            self.evaluations += r["evaluations"]; self.skipped += r["skipped"]
            for k, v in r["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + v
            for k, v in r["sets"].items():
                self.sets.setdefault(k, set()).update(v)
            self.distinct.update(r["distinct"])
            if len(self.samples) < 12:
                self.samples += r["samples"][:2]
            for v in r["violations"]:
                self.violations.append(dict(case=v["case"], key=v["key"], detail=v["detail"]))
            # listed findings may come up again and again: only unlisted ones end the run early
            if sum(1 for v in self.violations if not self.known(v)) >= 12:
                self.stop = True

    def known(self, v):
        return any(k.matches(self.prop, v["key"]) for k in KNOWN)

    def crash(self, idx, rc, err):
        limit = self.stage.get("limit", 40)
        tag = "re%d" % idx
        if rc == 77 or rc == -signal.SIGXCPU or rc == "wall":
            # the case used up its processor time: alone and with four times as much it must end
            rc2, err2, _, res = self.one(idx, idx + 1, 1, limit * 4, tag)
            if rc2 == 0:
                self.merge(res); self.note_inconclusive("case %d slow (ended with more time)" % idx); return
            if rc2 in (77, -signal.SIGXCPU):
                v = dict(case=idx, key="hang", detail="case %d did not end within %d s of processor time" % (idx, limit * 4))
            elif rc2 == "wall":
                self.note_inconclusive("case %d: watchdog" % idx); return
            else:
                v = dict(case=idx, key=classify(rc2, err2), detail=err2[-6000:])
        elif rc == -signal.SIGKILL:
            rc2, err2, _, res = self.one(idx, idx + 1, 1, limit * 4, tag)
            if rc2 == 0:
                self.merge(res); self.note_inconclusive("case %d killed once" % idx); return
            if rc2 == -signal.SIGKILL:
                v = dict(case=idx, key="killed", detail="killed twice (memory?)")
            else:
                v = dict(case=idx, key=classify(rc2, err2), detail=err2[-6000:])
        else:
            v = dict(case=idx, key=classify(rc, err), detail=err[-6000:])
        with self.lock:
            self.violations.append(v)
            if not self.known(v):
                self.crashes += 3 if v["key"] == "hang" else 1
            if self.crashes >= 6:
                self.stop = True

    def note_inconclusive(self, s):
        with self.lock:
            self.inconclusive.append(s)
            if len(self.inconclusive) > 6:
                self.stop = True

    def leak(self, err):
        return "LeakSanitizer" in err and "detected memory leaks" in err

    def worker(self, w):
        chunk = self.stage.get("chunk", max(1, min(400, self.n // (WORKERS * 6) + 1)))
        while True:
            with self.lock:
                if self.stop or self.next >= self.n:
                    return
                if time.time() > self.deadline:
                    self.cut = True
                    return
                frm = self.next; self.next = min(self.n, frm + chunk); to = self.next
            while frm < to and not self.stop:
                rc, err, idx, res = self.one(frm, to, 1, self.stage.get("limit", 40), "w%d" % w)
                if rc == 0:
                    self.merge(res); break
                if rc == 3 or idx < 0:
                    raise Inconclusive("harness failed (%s): %s" % (rc, err[-3000:]))
                if rc == 97 or self.leak(err):
                    # leaks are reported when the process ends: find the cases that leak
                    self.find_leak(frm, to, err, w); break
                self.crash(idx, rc, err)
                with self.lock:
                    self.evaluations += idx - frm + 1
                frm = idx + 1

    def find_leak(self, frm, to, err, w):
        lo, hi = frm, to
        while hi - lo > 1:
            mid = (lo + hi) // 2
            rc, e, _, _ = self.one(lo, mid, 1, self.stage.get("limit", 40) * 4, "w%d" % w)
            if rc == 97 or self.leak(e):
                hi = mid
            else:
                lo = mid
        rc, e, _, _ = self.one(lo, hi, 1, self.stage.get("limit", 40) * 4, "w%d" % w)
        m = ""
        for line in (e if self.leak(e) else err).splitlines():
            f = re.match(r"\s*#\d+ 0x[0-9a-f]+ in (.*)", line)
            if f and "Pire" in f.group(1):
                m = re.sub(r"\(.*", "", f.group(1)); break
        with self.lock:
            self.violations.append(dict(case=lo, key="leak:" + m, detail=(e if self.leak(e) else err)[-6000:]))
            self.crashes += 1
            if self.crashes >= 6:
                self.stop = True
            self.evaluations += to - frm

    def run(self):
        self.next = 0
        errs = []
        def body(w):
            try:
                self.worker(w)
            except BaseException as e:
                errs.append(e); self.stop = True
        ts = [threading.Thread(target=body, args=(w,)) for w in range(WORKERS)]
        [t.start() for t in ts]; [t.join() for t in ts]
        if errs:
            raise errs[0]

class Known:
    def __init__(self, prop, pattern, text):
        self.prop, self.re, self.text, self.hit = prop, re.compile(pattern), text, 0
    def matches(self, prop, key):
        return self.prop == prop and self.re.fullmatch(key) is not None

def load_known():
    """Lines: 'finding: property=<id> key=<regex> :: <what fails>'; 'fixed:' lines suppress nothing."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf8"):
            m = re.match(r"finding: property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m:
                res.append(Known(m.group(1), m.group(2), m.group(3)))
    return res

KNOWN = load_known()

def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1); scale = 1.0; only = None; keep = False
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--seed": seed = int(args.pop(0))
        elif a == "--scale": scale = float(args.pop(0))
        elif a == "--only": only = args.pop(0)
        elif a == "--case":
            h, v, idx = args.pop(0).split(":")
            st = next((s for s in CHECKS[prop]["stages"] if s["harness"] == h and s["variant"] == v), {})
            for k, t in st.get("tools", {}).items():
                ENV[k] = build.tool(t, v)
            ENV.update(st.get("vars", lambda: {})())
            b = build.harness(h, v, **next((s.get("build", {}) for s in CHECKS[prop]["stages"] if s["harness"] == h), {}))
            os.execvpe(b, [b, "--seed", str(seed), "--from", idx, "--to", str(int(idx) + 1), "--tier", tier, "--verbose", "1", "--limit", "100000"], ENV)
    spec = CHECKS[prop]
    t0 = time.time()
    deadline = t0 + (CLOCK if tier == "quick" else 6 * 3600)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    violations, inconclusive, samples = [], [], []
    counters, sets, distinct = {}, {}, set()
    evaluations = skipped = 0
    cut = False
    try:
        if "run" in spec:
            r = spec["run"](prop=prop, tier=tier, seed=seed, scale=scale, tmp=tmp, deadline=deadline, env=ENV, classify=classify)
            evaluations += r["evaluations"]; distinct |= set(r["distinct"]); samples += r["samples"]; counters.update(r.get("counters", {}))
            violations += r["violations"]; inconclusive += r.get("inconclusive", [])
        stages = []
        for st in spec.get("stages", []):
            if only and only not in (st["harness"], st["variant"], st["harness"] + ":" + st["variant"]):
                continue
            n = int(st["thorough" if tier == "thorough" else "quick"] * scale)
            if n > 0:
                stages.append((st, n))
        # All builds are started at once; a stage runs as soon as its own are ready
        builders = concurrent.futures.ThreadPoolExecutor(32)
        builds = [dict(tools={k: builders.submit(build.tool, t, st["variant"]) for k, t in st.get("tools", {}).items()},
                       vars=builders.submit(st.get("vars", lambda: {})),
                       binary=builders.submit(build.harness, st["harness"], st["variant"], **st.get("build", {}))) for st, n in stages]
        for (st, n), b in zip(stages, builds):
            for k, t in b["tools"].items():
                ENV[k] = t.result()
            ENV.update(b["vars"].result())
            binary = b["binary"].result()
            ts = time.time()
            pool = Pool(prop, st, binary, n, seed, tier, deadline, tmp)
            pool.run()
            print("%s %s/%s: %d cases in %.1f s, %d skipped, %d non-trivial, %d violations" %
                  (prop, st["harness"], st["variant"], pool.evaluations, time.time() - ts, pool.skipped, len(pool.distinct), len(pool.violations)), flush=True)
            evaluations += pool.evaluations; skipped += pool.skipped; distinct |= pool.distinct; samples += pool.samples
            cut = cut or pool.cut
            for k, v in pool.counters.items():
                counters[k] = counters.get(k, 0) + v
            for k, v in pool.sets.items():
                sets.setdefault(k, set()).update(v)
            for v in pool.violations:
                v["stage"] = "%s:%s" % (st["harness"], st["variant"]); violations.append(v)
            inconclusive += pool.inconclusive
    except build.BuildError as e:
        print("NO VERDICT: build failed\n%s" % e); shutil.rmtree(tmp, ignore_errors=True); return 3
    except Inconclusive as e:
        print("NO VERDICT: %s" % e); shutil.rmtree(tmp, ignore_errors=True); return 3
    shutil.rmtree(tmp, ignore_errors=True)

    fresh = []
    for v in violations:
        hit = next((k for k in KNOWN if k.matches(prop, v["key"])), None)
        if hit:
            hit.hit += 1
        else:
            fresh.append(v)
    for k, v in sets.items():
        counters["distinct " + k] = len(v)
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": spec["rule"], "samples": samples[:12] or ["(none)"],
            "skipped": skipped, "observed": counters, "inconclusive": inconclusive[:20], "cut_by_clock": cut,
        },
        "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True); f.write("\n")

    for k in KNOWN:
        if k.prop == prop and k.hit:
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, k.text, k.hit))
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for v in fresh:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            name = "%s-%s.txt" % (prop, re.sub(r"[^A-Za-z0-9]+", "_", v["key"])[:60])
            path = os.path.join(VERIF, "replays", name)
            with open(path, "w", encoding="utf8") as f:
                f.write("property: %s\nkey: %s\nreplay: python3 /verif/check.py %s --seed %d --tier %s --case %s:%s\n\n%s\n" %
                        (prop, v["key"], prop, seed, tier, v.get("stage", "-"), v.get("case", "-"), v["detail"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (v["key"], v["detail"][:700].replace("\n", "\n    ")))
            if len(seen) >= 6:
                break
        return 1
    need = spec.get("min", 50) * (1 if scale >= 1 else 0)
    if len(distinct) < need:
        print("NO VERDICT: the monitors observed only %d non-trivial cases (%d needed)" % (len(distinct), need))
        return 3
    if len(inconclusive) > 6:
        print("NO VERDICT: too many inconclusive cases: %s" % inconclusive[:5])
        return 3
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (prop, evaluations, len(distinct), time.time() - t0))
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(3)
