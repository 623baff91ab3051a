#!/usr/bin/env python3
"""Driver of the checks: check.py <ID> [--tier quick|thorough]; check.py replay <file>; check.py setup

exit 0: held on everything observed; 1: violation (VIOLATION line); 3: no verdict (see stderr)
"""
import json, os, re, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo_env(**kw):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.update(kw)
    return e


def build(crate, profile="release", target="h", toolchain=None, extra=(), env=None, quiet=False, timeout=850, bin=None):
    """build a harness crate against the current /repo tree; path of the binary"""
    t = os.path.join(TARGET, target)
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + ["build", "--offline", "--manifest-path",
           os.path.join(VERIF, crate, "Cargo.toml"), "--profile", profile] + list(extra)
    e = cargo_env(CARGO_TARGET_DIR=t, **(env or {}))
    t0 = time.time()
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        if not quiet:
            log(r.stdout[-4000:])
        raise Inconclusive("build of %s (%s) failed" % (crate, profile))
    log("built %s/%s in %.1fs" % (crate, profile, time.time() - t0))
    d = {"dev": "debug"}.get(profile, profile)
    trip = [extra[i + 1] for i, x in enumerate(extra) if x == "--target"] if extra else []
    return os.path.join(t, *(trip[:1]), d, bin or os.path.basename(crate))


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.lock = threading.RLock()
        self.viols = []      # dict(kind, detail, replay...)
        self.events = {}
        self.evals = 0
        self.distinct = 0
        self.samples = []
        self.rule = ""
        self.runs = []
        self.assumptions = []
        self.floor = {}
        self.known_hit = []
        self.extra = {}

    # ---- merging
    def add(self, name, d):
        """merge a harness report"""
        with self.lock:
            self._add(name, d)

    def _add(self, name, d):
        self.evals += d.get("evaluations", 0)
        self.distinct += d.get("distinct_nontrivial", 0)
        for k, v in d.get("events", {}).items():
            self.events[k] = self.events.get(k, 0) + v
        self.samples += d.get("samples", [])[:3]
        self.rule = self.rule or d.get("rule", "")
        self.runs.append({"run": name, "evaluations": d.get("evaluations", 0), "blocks": d.get("blocks"), "wall_s": round(d.get("wall_s", 0), 2)})

    def event(self, k, n=1, judged=True):
        self.events[k] = self.events.get(k, 0) + n
        if judged:
            self.evals += n

    def violation(self, kind, detail, **kw):
        self.viols.append(dict(kind=kind, detail=detail, **kw))

    # ---- harness runs
    def harness(self, binary, name, first=None, count=None, prop=None, max_secs=240, env=None, wrapper=(), min_frac=0.2, timeout=None, args=()):
        prop = prop or self.pid
        os.makedirs(OUT, exist_ok=True)
        base = os.path.join(OUT, "%s-%s" % (prop, re.sub(r"\W", "_", name)))
        outf, track = base + ".json", base + ".track"
        for f in (outf, track):
            if os.path.exists(f):
                os.unlink(f)
        cmd = list(wrapper) + [binary, "run", prop, "--seed", str(self.seed), "--tier", self.tier, "--out", outf, "--track", track, "--max-secs", str(max_secs)]
        if first is not None:
            cmd += ["--first", str(first)]
        if count is not None:
            cmd += ["--count", str(count)]
        cmd += list(args)
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout or max_secs + 120)
        if p.returncode < 0 and signal.Signals(-p.returncode) in CRASH:
            blocks = []
            try:
                import struct
                raw = open(track, "rb").read()
                blocks = [x - 1 for x in struct.unpack("<%dQ" % (len(raw) // 8), raw) if x]
            except OSError:
                pass
            self.violation("crash", "the process running the library died with %s; blocks in flight %s; %s" % (signal.Signals(-p.returncode).name, blocks, p.stdout[-1500:]), run=name, cmd=cmd, blocks=blocks)
            return None
        if p.returncode not in (0, 1) or not os.path.exists(outf):
            log(p.stdout[-3000:])
            raise Inconclusive("%s run %s ended with %s" % (prop, name, p.returncode))
        d = json.load(open(outf))
        self.add(name, d)
        for v in d["violations"]:
            self.violation(v["kind"], v["detail"], run=name, block=v["block"], cmd=[x for x in cmd if not x.startswith("/verif/out") and x not in ("--out", "--track")])
        if not d["violations"] and count and d["blocks"] < min_frac * count:
            raise Inconclusive("%s run %s completed only %d of %d blocks" % (prop, name, d["blocks"], count))
        return d

    # ---- known findings
    def known(self):
        res = {}
        p = os.path.join(VERIF, "known_findings.txt")
        for l in open(p) if os.path.exists(p) else []:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == self.pid:
                res[m.group(2)] = m.group(3)
        return res

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        os.makedirs(OUT, exist_ok=True)
        known = self.known()
        real, seen = [], {}
        for v in self.viols:
            key = v["kind"][3:] if v["kind"].startswith("KF:") else None
            if key in known:
                seen[key] = v
            else:
                real.append(v)
        for k in sorted(seen):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, known[k]))
        missing = [k for k, n in self.floor.items() if self.events.get(k, 0) < n]
        cov = {"evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": self.rule, "samples": self.samples[:8] or ["none"], "events": self.events, "runs": self.runs}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(real)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if real:
            for i, v in enumerate(real[:4]):
                path = os.path.join(OUT, "%s-violation-%d.json" % (self.pid, i))
                json.dump(dict(v, property=self.pid, seed=self.seed, tier=self.tier), open(path, "w"), indent=1)
                log("[%s] %s" % (v["kind"], v["detail"][:1500]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if missing:
            log("coverage floor not reached: %s" % missing)
            return 3
        log("%s: %d evaluations, %d distinct, %.1fs" % (self.pid, self.evals, self.distinct, time.time() - self.t0))
        return 0


def harness_list(binary):
    r = {}
    for l in subprocess.run([binary, "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        p = l.split()
        r[p[0]] = tuple(int(x) for x in p[1:])
    return r


def floors(pid):
    p = os.path.join(VERIF, "floors.json")
    return json.load(open(p)).get(pid, {}) if os.path.exists(p) else {}


def model_check(c):
    """differential monitors: optimised build, and a build with the crate's assertions armed"""
    rel = build("harness", "release")
    chk = build("harness", "checked")
    q, t, fixed = harness_list(rel)[c.pid]
    n = q if c.tier == "quick" else t
    secs = 240 if c.tier == "quick" else 420
    frac = 0.15 if c.tier == "quick" else 0.0
    c.floor = floors(c.pid)
    c.harness(rel, "optimised", 0, n, max_secs=secs, min_frac=frac)
    if fixed:
        c.harness(chk, "assertions, enumerated", 0, fixed, max_secs=secs)
    c.harness(chk, "assertions", n, max(n // 3, 1), max_secs=secs if c.tier == "quick" else 240, min_frac=frac)


def replay(path):
    v = json.load(open(path))
    print(json.dumps(v, indent=1))
    c = Check(v["property"], v["tier"], v["seed"])
    if "cmd" in v:
        cmd = v["cmd"]
        if "block" in v:
            b = str(v["block"])
            for flag, val in (("--first", b), ("--count", "1")):
                if flag in cmd:
                    cmd[cmd.index(flag) + 1] = val
                else:
                    cmd += [flag, val]
        build("harness", "release")
        build("harness", "checked")
        r = subprocess.run(cmd)
        print("replayed, exit", r.returncode)
        return 1 if r.returncode else 0
    print("re-run: VERIF_SEED=%s python3 check.py %s --tier %s" % (v["seed"], v["property"], v["tier"]))
    return 0


def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        try:
            build("harness", "release")
            build("harness", "checked")
        except Inconclusive as e:
            log(e)
            return 1
        return 0
    if a[0] == "replay":
        return replay(a[1])
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(pid, tier, seed)
    try:
        import special
    except ImportError:
        special = None
    fn = getattr(special, "check_" + pid, None) or model_check
    try:
        try:
            fn(c)
        except (Inconclusive, subprocess.TimeoutExpired, AssertionError) as e:
            log("no verdict: %s" % e)
            if not c.viols:
                c.finish()
                return 3
        return c.finish()
    finally:
        pass


if __name__ == "__main__":
    sys.exit(main())
