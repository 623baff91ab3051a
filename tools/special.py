"""Checks that are not plain model-differential runs of the main harness."""
import json, os, re, signal, subprocess, sys, time, threading
from concurrent.futures import ThreadPoolExecutor
import __main__ as M  # check.py

V = M.VERIF
CRASH = M.CRASH


def run_rep(c, cmd, name, timeout=600, env=None, ok_codes=(0, 1), sanitizer=None, hang=False):
    """run a monitor binary that writes a JSON report to --out"""
    os.makedirs(M.OUT, exist_ok=True)
    out = os.path.join(M.OUT, "%s-%s.json" % (c.pid, re.sub(r"\W", "_", name)))
    if os.path.exists(out):
        os.unlink(out)
    cmd = list(cmd) + ["--out", out, "--seed", str(c.seed)]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        if not hang:
            raise
        c.violation("nontermination", "%s did not end within %d s (it takes a few seconds)" % (name, timeout), cmd=cmd)
        return None
    log = p.stdout[-6000:]
    if sanitizer and re.search(sanitizer, p.stdout):
        m = re.search(sanitizer, p.stdout)
        c.violation("sanitizer", "%s: %s" % (name, p.stdout[max(0, m.start() - 200):m.start() + 3000]), cmd=cmd)
        return None
    if p.returncode < 0 and signal.Signals(-p.returncode) in CRASH:
        c.violation("crash", "%s died with %s; %s" % (name, signal.Signals(-p.returncode).name, log), cmd=cmd)
        return None
    if p.returncode not in ok_codes or not os.path.exists(out):
        M.log(log)
        raise M.Inconclusive("%s ended with %s" % (name, p.returncode))
    d = json.load(open(out))
    d["wall_s"] = time.time() - t0
    c.add(name, d)
    for v in d["violations"]:
        c.violation(v["kind"], "%s: %s" % (name, v["detail"]), run=name, cmd=cmd)
    return d


# ------------------------------------------------------------------ C17
def alloc_failures(c, binary, what, label, thorough):
    """fail every allocation of one context construction, in child processes"""
    r = subprocess.run([binary, "fail", "--what", what, "--k", "-1"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    m = re.search(r"ALLOCS (\d+)", r.stdout)
    if r.returncode != 0 or not m:
        if r.returncode == 1:
            c.violation("failure", "%s %s without failure: %s" % (label, what, r.stdout[-800:]))
            return
        raise M.Inconclusive("%s %s without failure: %s %s" % (label, what, r.returncode, r.stdout[-500:]))
    n = int(m.group(1))
    ks = range(n) if n <= (400 if thorough else 60) else sorted(set(list(range(30)) + [n * i // 30 for i in range(30)] + [n - 1]))
    jobs = [(k, st, mn) for k in ks for st in (0, 1) for mn in ((0,) if not thorough else (0, 4096))]
    def one(j):
        k, st, mn = j
        cmd = [binary, "fail", "--what", what, "--k", str(k), "--sticky", str(st), "--min", str(mn)]
        e = dict(os.environ, RUST_BACKTRACE="0")
        try:
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
            return j, cmd, p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return j, cmd, "timeout", ""
    with ThreadPoolExecutor(8) as ex:
        for j, cmd, rc, outp in ex.map(one, jobs):
            failed = not re.search(r"FAILED 0\b", outp)
            c.event("alloc_failure_injected" if failed else "alloc_failure_not_reached")
            if rc in (-signal.SIGABRT, 101):
                c.event("ended_in_allocation_error_handling", judged=False)
            elif rc == 0:
                c.event("completed_correctly_in_spite_of_failure" if failed else "completed", judged=False)
            elif rc == 1:
                c.violation("failure", "%s %s: wrong contents after failing allocation %d: %s" % (label, what, j[0], outp[-500:]), cmd=cmd)
            else:
                c.violation("failure", "%s %s: failing allocation %d of %d (sticky %d) ended with %s instead of allocation-failure handling: %s" % (label, what, j[0], n, j[1], rc, outp[-300:]), cmd=cmd)
    c.extra.setdefault("allocations_in_construction", {})["%s %s" % (label, what)] = n


def check_C17(c):
    th = c.tier == "thorough"
    c.rule = "every entry of every table against the model; construction over memory filled with 6 patterns; one child process per injected allocation failure; distinct = operand pairs run with each context"
    st = M.build("aux", "release", "aux", bin="ctx", extra=["--bin", "ctx"])
    lz = M.build("aux", "release", "auxlazy", bin="ctx", extra=["--bin", "ctx", "--features", "lazy"])
    n = ["--ops", "2000" if th else "300", "--reps", "6" if th else "1"]
    run_rep(c, [st, "tables"] + n, "static build")
    run_rep(c, [lz, "tables"] + n, "lazy build")
    if th:
        ck = M.build("aux", "checked", "aux", bin="ctx", extra=["--bin", "ctx"])
        run_rep(c, [ck, "tables"] + n, "static build, assertions")
        lk = M.build("aux", "checked", "auxlazy", bin="ctx", extra=["--bin", "ctx", "--features", "lazy"])
        run_rep(c, [lk, "tables"] + n, "lazy build, assertions")
    for what in ("ecmult", "gen"):
        alloc_failures(c, st, what, "static build", th)
    for what in ("lazygen", "lazyverify"):
        alloc_failures(c, lz, what, "lazy build", th)
    c.floor = {"table_entry": 17408 * 14, "context_comparison": 48, "alloc_failure_injected": 8, "operation_with_context": 1000}


# ------------------------------------------------------------------ C18
SAN = r"ERROR: AddressSanitizer|WARNING: ThreadSanitizer|ERROR: ThreadSanitizer|runtime error:|error: Undefined Behavior|Undefined Behavior:|unsafe precondition\(s\) violated"
HOST = "x86_64-unknown-linux-gnu"


def transcripts(c, ref, other, name, dump):
    """compare per-chunk transcripts of two runs of the same workload"""
    if not ref or not other:
        return
    a = {x[0]: x[1] for x in ref["extra"]["transcript"]}
    n = 0
    for k, h in other["extra"]["transcript"]:
        if k in a:
            n += 1
            if a[k] != h:
                c.violation("divergence", "%s: results of chunk %d differ from the optimised build; %s" % (name, k, dump(k)))
                break
    c.event("transcript_chunks_compared", n)


def differ(cmd_a, cmd_b):
    def f(k):
        try:
            o = [subprocess.run(x + ["--dump", str(k)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300).stdout.splitlines() for x in (cmd_a, cmd_b)]
        except (subprocess.TimeoutExpired, OSError) as e:
            return "no dump: %s" % e
        for x, y in zip(*o):
            if x != y:
                return "first difference: %s | %s" % (x[:300], y[:300])
        return "no difference on replay (not deterministic?)"
    return f


def check_C18(c):
    th = c.tier == "thorough"
    c.rule = "steps chaining every entry point on hostile values and on the library's own results; distinct = results by content; outcome transcripts compared between builds and tools"
    one = ["--bin", "hostile"]
    errs = []
    res = {}
    def bg(name, *a, **k):
        def f():
            try:
                res[name] = M.build(*a, **k)
            except Exception as e:
                errs.append("%s: %s" % (name, e))
        t = threading.Thread(target=f)
        t.start()
        return t
    ts = [bg("rel", "aux", "release", "aux", bin="hostile", extra=one),
          bg("asan", "aux", "release", "asan", toolchain="+nightly", bin="hostile", extra=one + ["--target", HOST], env={"RUSTFLAGS": "-Zsanitizer=address"}),
          bg("chk", "aux", "checked", "aux2", bin="hostile", extra=one)]
    if th:
        ts.append(bg("dev", "aux", "dev", "aux3", bin="hostile", extra=one))
        ts.append(bg("asanchk", "aux", "checked", "asan2", toolchain="+nightly", bin="hostile", extra=one + ["--target", HOST], env={"RUSTFLAGS": "-Zsanitizer=address"}))
    miri_env = M.cargo_env(CARGO_TARGET_DIR=os.path.join(M.TARGET, "miri"), MIRIFLAGS="-Zmiri-disable-isolation")
    miri = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", os.path.join(V, "aux", "Cargo.toml"), "--bin", "hostile", "--"]
    def miri_build():
        try:
            r = subprocess.run(miri + ["--chunks", "1", "--steps", "1", "--threads", "1", "--out", os.path.join(M.OUT, "miri0.json")], env=miri_env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            if r.returncode == 0:
                res["miri"] = miri
            else:
                errs.append("miri: " + r.stdout[-1500:])
        except Exception as e:
            errs.append("miri: %s" % e)
    os.makedirs(M.OUT, exist_ok=True)
    def foreign_build(tg):
        fenv = dict(miri_env, CARGO_TARGET_DIR=os.path.join(M.TARGET, "miri-" + tg.split("-")[0]))
        cmd = miri[:4] + ["--target", tg] + miri[4:]
        try:
            r = subprocess.run(cmd + ["--chunks", "1", "--steps", "1", "--threads", "1", "--out", os.path.join(M.OUT, "miri-%s.json" % tg)], env=fenv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
            if r.returncode == 0:
                foreign[tg] = (cmd, fenv)
            else:
                foreign_errs.append("miri %s: %s" % (tg, r.stdout[-1500:]))
        except Exception as e:
            foreign_errs.append("miri %s: %s" % (tg, e))
    foreign, foreign_errs = {}, []
    for f, a in [(miri_build, ())] + [(foreign_build, (tg,)) for tg in FOREIGN]:
        t = threading.Thread(target=f, args=a)
        t.start()
        ts.append(t)
    for t in ts:
        t.join()
    for b in ("rel", "chk"):
        if b not in res:
            raise M.Inconclusive("; ".join(errs))
    seed = ["--seed", str(c.seed)]
    n = 60000 if th else 4000
    base = run_rep(c, [res["rel"], "--chunks", str(n), "--max-secs", "400"], "optimised", sanitizer=SAN, timeout=800)
    o = run_rep(c, [res["chk"], "--chunks", str(n // 2), "--max-secs", "400"], "assertions", sanitizer=SAN, timeout=800)
    transcripts(c, base, o, "assertions", differ([res["rel"]] + seed, [res["chk"]] + seed))
    asan_env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66"}
    for b, name, cnt in (("asan", "AddressSanitizer", n // 4), ("asanchk", "AddressSanitizer, assertions", n // 8), ("dev", "unoptimised", n // 30)):
        if b in res:
            o = run_rep(c, [res[b], "--chunks", str(cnt), "--max-secs", "300"], name, env=asan_env, sanitizer=SAN, timeout=800)
            transcripts(c, base, o, name, differ([res["rel"]] + seed, [res[b]] + seed))
            c.event("sanitizer_or_tool_run:" + name, judged=False)
    # valgrind: uninitialised values and invalid accesses of the optimised code, each with its own chunk
    jobs = []
    for i in range(8):
        jobs.append(("valgrind %d" % i, ["valgrind", "-q", "--error-exitcode=97", res["rel"], "--first", str(i * (40 if th else 3)), "--chunks", str(40 if th else 3), "--threads", "1"], None, None))
    lightbase = None
    if "miri" in res:
        for i in range(8):
            jobs.append(("miri %d" % i, miri + ["--first", str(i + 8 * (c.seed % 1000)), "--chunks", "1", "--steps", "300" if th else "15", "--threads", "1", "--light", "1"], miri_env, 850))
        for tg, (cmd, fenv) in foreign.items():
            for i in range(8 if th else 2):
                jobs.append(("miri %s %d" % (tg, i), cmd + ["--first", str(i + 8 * (c.seed % 1000)), "--chunks", "1", "--steps", "300" if th else "15", "--threads", "1", "--light", "1"], fenv, 850 if th else 500))
        lightbase = run_rep(c, [res["rel"], "--light", "1", "--steps", "300" if th else "15", "--first", str(8 * (c.seed % 1000)), "--chunks", "8"], "optimised light")
    def job(j):
        name, cmd, env, tmo = j
        try:
            return j, run_rep(c, cmd, name, env=env, sanitizer=SAN, timeout=tmo or 800, ok_codes=(0, 1))
        except M.Inconclusive as e:
            return j, e
        except subprocess.TimeoutExpired as e:
            return j, e
    with ThreadPoolExecutor(8) as ex:
        for j, o in ex.map(job, jobs):
            if isinstance(o, Exception):
                if j[0].startswith("valgrind") and "ended with 97" in str(o):
                    c.violation("valgrind", "memcheck reported an error in %s" % j[0], cmd=j[1])
                else:
                    M.log("%s gave no result: %s" % (j[0], o))
                    c.event("tool_run_without_result:" + j[0].split()[0], judged=False)
                continue
            c.event("sanitizer_or_tool_run:" + " ".join(j[0].split()[:-1]), judged=False)
            if j[0].startswith("miri"):
                transcripts(c, lightbase, o, j[0], lambda k: "(miri)")
            else:
                transcripts(c, base, o, j[0], lambda k: "(valgrind)")
    c.extra["tools_unavailable"] = errs + foreign_errs
    c.floor = {"transcript_chunks_compared": n // 2, "sign": 1000, "recover": 1000, "verify": 1000, "ecdh": 1000, "combine": 1000, "sig_parse_der_lax": 1000, "serde_json": 500, "sanitizer_or_tool_run:valgrind": 4}
    if not errs:
        c.floor["sanitizer_or_tool_run:AddressSanitizer"] = 1


# ------------------------------------------------------------------ C19
FOREIGN = ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"]


def check_C19(c):
    th = c.tier == "thorough"
    c.rule = "one workload, run in every documented feature combination and in unoptimised and optimised profiles; per operation group the transcript hash must equal the default build's; distinct = (configuration, group) pairs compared"
    combos = [("default", ["f_default"])]
    for std in (0, 1):
        for hm in (0, 1):
            for st in (0, 1):
                combos.append(("+".join(n for n, x in (("std", std), ("hmac", hm), ("static-context", st)) if x) or "none", [n for n, x in (("f_std", std), ("f_hmac", hm), ("f_static", st)) if x]))
    combos += [("lazy-static-context", ["f_lazy"]), ("lazy-static-context+hmac", ["f_lazy", "f_hmac"])]
    jobs = []
    for prof in ("release", "dev"):
        for name, fs in combos:
            jobs.append(("feat", prof, name, fs))
    for prof in ("release", "dev"):
        for name, fs in combos[1:5]:
            jobs.append(("nostd", prof, name, fs))
    n = 600 if th else 60
    seeds = [c.seed + i for i in range(3 if th else 1)]
    results, errs = {}, {}
    lock = threading.Lock()
    def worker(w, mine):
        for j in mine:
            crate, prof, name, fs = j
            t = os.path.join(M.TARGET, "feat%d" % w)
            cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(V, crate, "Cargo.toml"), "--profile", prof, "--no-default-features", "--features", ",".join(fs)]
            try:
                r = subprocess.run(cmd, env=M.cargo_env(CARGO_TARGET_DIR=t, CARGO_BUILD_JOBS="3"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                with lock:
                    errs[j[:3]] = ("timeout", "")
                continue
            if r.returncode != 0:
                with lock:
                    errs[j[:3]] = ("build", r.stdout[-2500:], cmd)
                continue
            binp = os.path.join(t, {"dev": "debug"}.get(prof, prof), crate)
            keep = os.path.join(M.OUT, "feat-%s-%s-%s" % (crate, prof, name.replace("+", "_")))
            subprocess.run(["cp", binp, keep], check=True)
            for s in seeds:
                try:
                    r = subprocess.run([keep, str(s), str(n)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400)
                except subprocess.TimeoutExpired:
                    with lock:
                        errs[j[:3]] = ("timeout", "")
                    continue
                with lock:
                    results[j[:3] + (s,)] = (r.returncode, r.stdout, keep)
    os.makedirs(M.OUT, exist_ok=True)
    W = 6
    # a 32-bit and a big-endian target, executed by the interpreter
    fruns, fnone, fset, flock = {}, [], set(), {tg: threading.Lock() for tg in FOREIGN}
    def foreign(tg, ss):
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target", tg, "--manifest-path", os.path.join(V, "feat", "Cargo.toml"), "--no-default-features", "--features", "f_default", "--"]
        env = M.cargo_env(CARGO_TARGET_DIR=os.path.join(M.TARGET, "miri-" + tg.split("-")[0]), MIRIFLAGS="-Zmiri-disable-isolation" + ("" if th else " -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"))
        # here the transcript is the oracle: the aliasing and validity checks, which C18 has on, would double the time
        with flock[tg]:
            # one at a time: the interpreter builds its standard library on first use
            if tg not in fset:
                subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", tg], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT)
                fset.add(tg)
        for s in ss:
            try:
                r = subprocess.run(cmd + [str(s), "1"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800 if th else 600)
            except (subprocess.TimeoutExpired, OSError) as e:
                fnone.append("%s seed %d: %s" % (tg, s, str(e)[:300]))
                return
            fruns[tg, s] = (r.returncode, r.stdout, cmd + [str(s), "1"])
    fts = [threading.Thread(target=foreign, args=(tg, range(c.seed + i, c.seed + (9 if th else 1), 3))) for tg in FOREIGN for i in range(3 if th else 1)]
    [t.start() for t in fts]
    ths = [threading.Thread(target=worker, args=(w, jobs[w::W])) for w in range(W)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    base_build = errs.get(("feat", "release", "default"))
    if base_build:
        raise M.Inconclusive("the default configuration does not build: %s" % (base_build[1][-1500:],))
    for j, e in sorted(errs.items()):
        if e[0] == "build" and ("could not compile `libsecp256k1" in e[1] or re.search(r"^error(\[E\d+\])?:", e[1], re.M)):
            c.violation("build", "%s in profile %s, features %s: does not build: %s" % (j[0], j[1], j[2], e[1]), cmd=e[2])
        else:
            raise M.Inconclusive("%s: %s" % (j, e))
        c.event("configuration_built_and_run")
    for s in seeds:
        base = results.get(("feat", "release", "default", s))
        def parse(o):
            return {l.split()[1]: l.split()[2:] for l in o.splitlines() if l.startswith("GROUP")}
        bg = parse(base[1])
        for k, (rc, outp, binp) in sorted(results.items()):
            if k[3] != s:
                continue
            label = "%s, profile %s, features %s" % k[:3]
            c.event("configuration_built_and_run")
            fails = [l for l in outp.splitlines() if l.startswith("FAIL")]
            if rc != 0 or "DONE" not in outp or fails:
                c.violation("run", "%s: exit %s %s %s" % (label, rc, fails[:3], outp[-500:]), cmd=[binp, str(s), str(n)])
                continue
            g = parse(outp)
            for name in g:
                c.event("group_compared")
                c.distinct += 1
                c.events["operations_compared"] = c.events.get("operations_compared", 0) + int(g[name][1])
                if name not in bg or g[name] != bg[name]:
                    d = ""
                    try:
                        o = [subprocess.run([x, str(s), str(n), name], stdout=subprocess.PIPE, text=True, timeout=400).stdout.splitlines() for x in (base[2], binp)]
                        d = next(("%s | %s" % (x[:400], y[:400]) for x, y in zip(*o) if x != y), "lengths %d %d" % (len(o[0]), len(o[1])))
                    except Exception as e:
                        d = str(e)
                    c.violation("differs", "%s: results of %s differ from the default build: %s" % (label, name, d), cmd=[binp, str(s), str(n), name])
            need = {"derive", "verify", "recover", "ecdh", "combine", "pk_parse", "sig_der", "sig_der_lax", "scalar", "table_g"}
            if "hmac" in k[2] or k[2] == "default":
                need.add("sign")
            if need - set(g):
                raise M.Inconclusive("%s: groups %s missing" % (label, need - set(g)))
    c.samples.append("default: " + base[1].splitlines()[5])
    [t.join() for t in fts]
    native = results[("feat", "release", "default", c.seed)][2]
    for (tg, s), (rc, outp, cmd) in sorted(fruns.items()):
        if rc != 0 or "DONE" not in outp:
            if re.search(SAN + r"|panicked at", outp):
                c.violation("run", "target %s: exit %s %s" % (tg, rc, outp[-1500:]), cmd=cmd)
            else:
                fnone.append("%s seed %d: %s" % (tg, s, outp[-500:]))
            continue
        bg = parse(subprocess.run([native, str(s), "1"], stdout=subprocess.PIPE, text=True, timeout=400).stdout)
        c.event("foreign_target_run")
        for l in outp.splitlines():
            if l.startswith("FAIL"):
                c.violation("run", "target %s: %s" % (tg, l), cmd=cmd)
        for name, v in parse(outp).items():
            c.event("foreign_target_group_compared")
            if bg.get(name) != v:
                c.violation("differs", "target %s: results of %s differ from the native build: %s %s" % (tg, name, v, bg.get(name)), cmd=cmd)
    c.extra["foreign_targets_without_result"] = fnone
    c.floor = {"configuration_built_and_run": 30, "group_compared": 800}


# ------------------------------------------------------------------ C20
def check_C20(c):
    th = c.tier == "thorough"
    c.rule = "every ordered pair of calls of an operation on argument families that agree in all limbs but one, long repetition, random schedules on 2..16 threads, racing first uses in fresh processes, runs in permuted order in fresh processes; distinct = ordered call pairs"
    one = ["--bin", "pure"]
    res, errs = {}, []
    def bg(name, *a, **k):
        def f():
            try:
                res[name] = M.build(*a, **k)
            except Exception as e:
                errs.append("%s: %s" % (name, e))
        t = threading.Thread(target=f)
        t.start()
        return t
    os.makedirs(M.OUT, exist_ok=True)
    tsan = one + ["-Zbuild-std", "--target", HOST]
    ts = [bg("static", "aux", "release", "aux", bin="pure", extra=one),
          bg("lazy", "aux", "release", "auxlazy", bin="pure", extra=one + ["--features", "lazy"]),
          bg("tsan", "aux", "release", "tsan", toolchain="+nightly", bin="pure", extra=tsan + ["--features", "lazy"], env={"RUSTFLAGS": "-Zsanitizer=thread"})]
    if th:
        ts.append(bg("tsanstatic", "aux", "release", "tsan2", toolchain="+nightly", bin="pure", extra=tsan, env={"RUSTFLAGS": "-Zsanitizer=thread"}))
    ts[0].join()
    ts[1].join()
    for b in ("static", "lazy"):
        if b not in res:
            raise M.Inconclusive("; ".join(errs))
    # the same calls in different orders, each order in a fresh process
    orders = range(24 if th else 6)
    jobs = [(b, p) for b in ("static", "lazy") for p in orders]
    def ans(j):
        cmd = [res[j[0]], "answers", "--seed", str(c.seed), "--perm", str(j[1])]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
        return j, cmd, p.returncode, p.stdout.splitlines()
    ref = None
    with ThreadPoolExecutor(8) as ex:
        for j, cmd, rc, lines in ex.map(ans, jobs):
            if rc != 0:
                c.violation("crash", "answers in order %s ended with %s: %s" % (j, rc, lines[-5:]), cmd=cmd)
                continue
            ref = ref or lines
            c.event("answer_in_permuted_fresh_process", len(lines))
            if lines != ref:
                d = [(x, y) for x, y in zip(ref, lines) if x != y]
                c.violation("order", "%s build, order %d: %d answers differ from those of another order, first %s" % (j[0], j[1], len(d), d[:1]), cmd=cmd)
    # histories, split over processes
    parts = 8
    hj = [(b, i) for b in (("static", "lazy") if th else ("static",)) for i in range(parts)]
    def hist(j):
        b, i = j
        return run_rep(c, [res[b], "monitor", "--part", str(i), "--parts", str(parts), "--soak", "70000" if th else "60", "--secs", "0", "--min-rounds", "0", "--threads", "1"], "history %s %d" % (b, i), timeout=850)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(hist, hj))
    # schedules
    for b in ("static", "lazy"):
        run_rep(c, [res[b], "monitor", "--pairs", "0", "--soak", "70000" if th else "1500", "--secs", "60" if th else "6", "--round-calls", "200"], "threads %s" % b, timeout=850)
    # racing first uses
    def first(binary, rounds, label, env=None, san=None):
        def f(k):
            cmd = [binary, "first", "--seed", str(c.seed), "--round", str(k), "--threads", str(2 + k % 15)]
            try:
                p = subprocess.run(cmd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=200)
            except subprocess.TimeoutExpired:
                return cmd, "timeout", ""
            return cmd, p.returncode, p.stdout
        with ThreadPoolExecutor(3) as ex:
            for cmd, rc, o in ex.map(f, range(rounds)):
                c.event("first_use_race:" + label)
                if san and re.search(san, o):
                    c.violation("race", "%s: %s" % (label, o[:3000]), cmd=cmd)
                elif rc != 0:
                    c.violation("first", "%s: racing first uses ended with %s: %s" % (label, rc, o[-800:]), cmd=cmd)
    first(res["lazy"], 1200 if th else 120, "lazy")
    first(res["static"], 300 if th else 30, "static")
    for t in ts:
        t.join()
    env = {"TSAN_OPTIONS": "exitcode=66 halt_on_error=0 report_signal_unsafe=0 second_deadlock_stack=1"}
    for b in ("tsan", "tsanstatic"):
        if b in res:
            run_rep(c, [res[b], "monitor", "--pairs", "0", "--soak", "40" if th else "8", "--secs", "120" if th else "8", "--min-rounds", "6", "--round-calls", "40"], "ThreadSanitizer " + b, env=env, sanitizer=SAN, timeout=850, ok_codes=(0, 1))
            c.event("concurrent_run_under_ThreadSanitizer:" + b, judged=False)
            first(res[b], 60 if th else 16, "ThreadSanitizer " + b, env, SAN)
    c.extra["tools_unavailable"] = errs
    c.floor = {"call_after_other_call": 100000, "concurrent_call": 5000, "call_repeated": 50000, "first_use_race:lazy": 100, "answer_in_permuted_fresh_process": 10000}
    if not errs:
        c.floor["concurrent_run_under_ThreadSanitizer:tsan"] = 1


# ------------------------------------------------------------------ C21
def check_C21(c):
    th = c.tier == "thorough"
    c.rule = "secrets with and without zero bytes and words in 18 heap, container and stack placements; the memory is compared with a snapshot and scanned for fragments at the moment it is released; the monitor first has to see an unwiped secret in every placement; distinct = secrets"
    profs = ["release", "lto", "size", "o1"] + (["checked", "dev"] if th else [])
    errs, res = [], {}
    def f(p):
        try:
            res[p] = M.build("aux", p, "wipe-" + p, bin="wipe", extra=["--bin", "wipe"])
        except Exception as e:
            errs.append("%s: %s" % (p, e))
    ths = [threading.Thread(target=f, args=(p,)) for p in profs]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise M.Inconclusive("; ".join(errs))
    for p in profs:
        run_rep(c, [res[p], "--n", "20000" if th else "1500"], "profile " + p, timeout=600)
        c.event("optimisation_profile", judged=False)
    c.floor = {"memory_scanned_at_release": 50000, "stack_slot_scanned_after_return": 10000, "reads_as_zero_after_wipe": 5000, "unwiped_secret_seen_by_monitor": 45 * 4}


# ------------------------------------------------------------------ C22
def check_C22(c):
    th = c.tier == "thorough"
    c.rule = "every instruction and memory access of each run of a secret-key operation, counted by address and compared between secrets (random, sparse, and such that the blinded scalar has only zero or maximal digits); distinct = secrets"
    profs = ["release", "lto", "size", "o1"]
    errs, res = [], {}
    def f(p):
        try:
            res[p] = M.build("aux", p, "ct-" + p, bin="ct", extra=["--bin", "ct"] + (["--bin", "ctrace"] if p == "release" else []))
        except Exception as e:
            errs.append("%s: %s" % (p, e))
    ths = [threading.Thread(target=f, args=(p,)) for p in profs]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise M.Inconclusive("; ".join(errs))
    tr = os.path.join(os.path.dirname(res["release"]), "ctrace")
    jobs = []
    for p in profs:
        ops = ["ecdh", "sign", "derive", "nonce"] if p == "release" or th else ["ecdh", "sign"]
        sh, n = (8, 40) if th else ((2, 7) if p == "release" else (1, 5))
        jobs += [(p, op, k, sh, n) for op in ops for k in range(sh)]
        if p == "release" or th:
            jobs.append((p, "derive-heap", 0, 1, 40 if th else 3))
    jobs.insert(0, ("release", "control", 0, 1, 3))
    def one(j):
        p, op, k, sh, n = j
        return run_rep(c, [tr, "--ct", res[p], "--op", op, "--shard", str(k), "--shards", str(sh), "--n", str(n)] + (["--control", "1"] if op == "control" else []),
                       "%s %s %d" % (p, op, k), timeout=850)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    c.event("optimisation_profiles", len(profs), judged=False)
    c.floor = {"secrets_compared": 80, "control_difference_seen": 3, "table_accesses_observed": 100000, "ecdh_runs": 20, "sign_runs": 20, "derive_runs": 10, "nonce_runs": 10}


# ------------------------------------------------------------------ C02
def check_C02(c):
    """model monitors, and a build whose nonce generator can be made to return inadmissible candidates"""
    M.model_check(c)
    try:
        b = M.build("harness-drbg", "release", "drbg", bin="harness-drbg")
        bc = M.build("harness-drbg", "checked", "drbg", bin="harness-drbg")
    except M.Inconclusive as e:
        M.log("candidate rejection not observed: %s" % e)
        c.event("tap_inapplicable", judged=False)
        return
    n = 100000 if c.tier == "thorough" else 6000
    run_rep(c, [b, "--n", str(n)], "nonce candidates", timeout=400, hang=True)
    run_rep(c, [bc, "--n", str(n // 4)], "nonce candidates, assertions", timeout=400, hang=True)


# ------------------------------------------------------------------ C23
def check_C23(c):
    th = c.tier == "thorough"
    c.rule = "every operation on a painted stack and a counting allocator, with ordinary, failing and very long inputs; distinct = (operation, stack bytes, heap bytes) observed"
    builds = [("static, optimised", "release", []), ("lazy, optimised", "release", ["--features", "lazy"]), ("static, unoptimised", "dev", []), ("lazy, unoptimised", "dev", ["--features", "lazy"])]
    if th:
        builds += [("static, size", "size", []), ("static, lto", "lto", []), ("static, o1", "o1", []), ("static, assertions", "checked", [])]
    res, errs = {}, []
    def one(b):
        name, profile, extra = b
        try:
            x = M.build("aux", profile, "aux%s%s" % ("lazy" if extra else "", "" if profile == "release" else "-" + profile), bin="bounds", extra=["--bin", "bounds"] + extra)
            res[name] = x
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=one, args=(b,)) for b in builds]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    def go(b):
        slow = b[1] == "dev"
        n = (4000 if th else 400) // (10 if slow else 1)
        args = ["--rounds", str(n)] + (["--big", "3000000", "--long", "10000"] if th and not slow else [])
        return run_rep(c, [res[b[0]]] + args, b[0], timeout=850)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(go, builds))
    c.floor = {"operation_measured": 40000 // 4, "first_use_measured": 4 * 38, "growth_judged": 4 * 38}
