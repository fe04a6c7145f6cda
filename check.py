#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough   decide one property against /repo's working tree
   check.py --replay PROPERTY FILE    re-run one saved case
   check.py --setup                   sanity-build the engine
"""
import sys, os, json, time, shutil, subprocess, struct, glob, re, hashlib, tempfile, atexit

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "clang++-18"
NPROC = min(8, os.cpu_count() or 8)

def log(*a):
    print(*a, flush=True)

def stage(dst):
    """Lay the headers out the way the project's cmake does."""
    inc = os.path.join(dst, "include", "humoto")
    if os.path.isdir(os.path.join(dst, "include")):
        shutil.rmtree(os.path.join(dst, "include"))
    os.makedirs(inc)
    shutil.copy(os.path.join(V, "lib", "build_config.h"), inc)
    srcs = [os.path.join(REPO, "core/include"), os.path.join(REPO, "bridges/config_msgpack/interface"),
            os.path.join(REPO, "bridges/config_yaml/interface"), os.path.join(REPO, "bridges/qpmad/interface"),
            os.path.join(REPO, "bridges/QuadProgpp/interface"), os.path.join(REPO, "bridges/qpOASES/interface"),
            os.path.join(REPO, "bridges/rbdl/interface"), os.path.join(REPO, "bridges/obstacle_avoidance")]
    srcs += sorted(glob.glob(os.path.join(REPO, "modules/*/include")))
    for s in srcs:
        if os.path.isdir(s):
            shutil.copytree(s, inc, dirs_exist_ok=True, ignore=shutil.ignore_patterns("CMakeLists.txt"))
    return os.path.join(dst, "include")

def options(src):
    o = {"flags": "", "libs": "", "shards": str(NPROC)}
    with open(src) as f:
        for l in f.read().split("\n")[:30]:
            m = re.match(r"//\s*PBT-(\w+):\s*(.*)", l)
            if m:
                o[m.group(1)] = m.group(2).strip()
    return o

def compile_(src, out, inc, o, kind):
    base = ["-std=c++14", "-w", "-I" + inc, "-I" + os.path.join(V, "lib"), "-I/usr/include/eigen3"] + o["flags"].replace("{V}", V).replace("{R}", REPO).split()
    if kind == "plain":
        base += ["-O1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
    elif kind == "san":
        base += ["-O1", "-gline-tables-only", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize=vptr,float-divide-by-zero,alignment" + (","+o["nosan"] if o.get("nosan") else ""), "-fno-sanitize-recover=undefined"]
    elif kind == "fuzz":
        base += ["-O1", "-gline-tables-only", "-DPBT_LIBFUZZER", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=fuzzer,address"]
    cmd = [CXX] + base + [src, "-o", out, "-lboost_thread", "-lboost_system", "-lboost_chrono", "-lpthread"] + o["libs"].split()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log("BUILD ERROR\n" + "\n".join(p.stdout.split("\n")[:40]))
        return False
    return True

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:max_allocation_size_mb=3000:allocator_may_return_null=1:handle_abort=0:handle_segv=0:handle_sigfpe=0:handle_sigbus=0:handle_sigill=0:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1", MALLOC_PERTURB_="128")  # fresh heap memory reads as 0x7f7f.., fresh stack memory as a pattern

def scratch():
    d = None
    for base in ("/dev/shm", None):
        try:
            d = tempfile.mkdtemp(prefix="verif_", dir=base); break
        except OSError:
            pass
    if d:
        ENV["PBT_SCRATCH"] = d
        atexit.register(shutil.rmtree, d, True)

class Run:
    def __init__(self):
        self.cases = 0; self.disc = 0; self.hashes = set(); self.subs = {}; self.samples = []; self.fail = None; self.err = None; self.raw = None; self.origin = None

def run_shards(binary, outdir, seed, tier, scale, shards, r, label, timeout, only=None):
    os.makedirs(outdir, exist_ok=True)
    ps = []
    for i in range(shards):
        out = open(os.path.join(outdir, "s%d.log" % i), "wb")
        cmd = [binary, "run", str(seed), tier, str(i), str(shards), outdir, repr(scale)] + ([only] if only else [])
        ps.append(subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=ENV, cwd=outdir))
    end = time.time() + timeout
    codes = [None] * shards
    failed = False
    while any(c is None for c in codes):
        for i, p in enumerate(ps):
            if codes[i] is None:
                codes[i] = p.poll()
                if codes[i] not in (None, 0):
                    failed = True
        if failed:
            # leave the other shards a moment: a second failure is not needed
            time.sleep(0.2)
            for i, p in enumerate(ps):
                codes[i] = p.poll()
            if all(c is None or c == 0 for c in codes):
                continue
            for i, p in enumerate(ps):
                if codes[i] is None:
                    if os.path.exists(os.path.join(outdir, "s%d.failing" % i)):
                        pass
                    p.kill(); p.wait(); codes[i] = -999
            break
        if time.time() > end:
            for p in ps:
                p.kill()
            r.err = "time budget exceeded in " + label
            return
        time.sleep(0.05)
    for i in range(shards):
        j = os.path.join(outdir, "s%d.json" % i)
        try:
            d = json.load(open(j))
        except Exception:
            d = {"subs": []}
        for s in d["subs"]:
            r.cases += s["cases"]; r.disc += s["discarded"]
            e = r.subs.setdefault(s["name"], {"cases": 0, "discarded": 0, "nontrivial": 0, "classes": {}})
            e["cases"] += s["cases"]; e["discarded"] += s["discarded"]; e["nontrivial"] += s["nontrivial"]
            for k, v in s["tags"].items():
                e["classes"][k] = e["classes"].get(k, 0) + v
            if i == 0 and label == "random":
                r.samples += s["samples"]
        h = os.path.join(outdir, "s%d.hash" % i)
        if os.path.exists(h):
            b = open(h, "rb").read()
            for k in range(0, len(b) - 7, 8):
                r.hashes.add(b[k:k + 8])
    for i in range(shards):
        f = os.path.join(outdir, "s%d.fail" % i); c = os.path.join(outdir, "s%d.crash" % i)
        r.origin = {"binary": binary, "shard": i, "shards": shards, "seed": seed, "tier": tier, "scale": scale, "only": only}
        if codes[i] == 1 and os.path.exists(f):
            r.raw = f + "0"; r.fail = (f, label); return
        if codes[i] not in (0, -999, None):
            if os.path.exists(c):
                s = os.path.join(outdir, "s%d.shrunk" % i)
                subprocess.run([binary, "shrink", c, s], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                r.raw = c; r.fail = (s if os.path.exists(s) else c, label); return
            r.err = "shard %d of %s ended with %s without a case: %s" % (i, label, codes[i], open(os.path.join(outdir, "s%d.log" % i), errors="replace").read()[-800:])

def confirm(binary, f):
    if ENV.get("PBT_SCHEDULES"):
        # schedule dependent outcomes: one failure is enough, whatever the other attempts give
        t = open(f, errors="replace").read()
        hang = "message=hang" in t
        for _ in range(3 if hang else 40):
            p = subprocess.run([binary, "replay", f], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", cwd=os.path.dirname(f))
            if p.returncode not in (0, 3):
                return p.stdout or "crash"
        return None if hang else "FAIL (seen once, not in 40 attempts at repeating it)\n"
    last = ""
    for _ in range(3):
        p = subprocess.run([binary, "replay", f], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", cwd=os.path.dirname(f))
        last = p.stdout
        if p.returncode in (0, 3):
            return None
    return last or "crash"

def session(r, bd):
    """A failure that a fresh process does not repeat from its own input alone: it may need what earlier
    cases left behind in the process. Repeat with earlier cases before it, as few as suffice."""
    t = open(r.raw, errors="replace").read()
    g = lambda k: (re.search(r"^%s=(.*)$" % k, t, re.M) or [None, ""])[1]
    if not g("index"):
        return None
    o = r.origin; sub, idx, msg = g("sub"), int(g("index")), g("message")
    subs = [l.split() for l in subprocess.run([o["binary"], "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
    before = []
    for n, q, th in subs:
        if n == sub:
            break
        if not o["only"]:
            before.append((n, o["shard"], max(1, int(float(th if o["tier"] == "thorough" else q) * o["scale"])) - 1, o["shards"]))
    f = os.path.join(bd, "session.txt"); end = time.time() + 240
    def attempt(priors):
        open(f, "w").write("sub=%s\nmessage=%s\nsession_seed=%d\nprior=%s\nfinal=%s %d\n" % (sub, msg, o["seed"], "  ".join("%s %d %d %d" % p for p in priors), sub, idx))
        try:
            p = subprocess.run([o["binary"], "replay", f], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", cwd=bd, timeout=max(5, end - time.time()))
        except subprocess.TimeoutExpired:
            return None
        return None if p.returncode in (0, 3) else p.stdout or "crash"
    st = o["shards"]; own = lambda k: [(sub, max(o["shard"], idx - k * st), idx - st, st)] if idx - st >= o["shard"] and k else []
    total = (idx - o["shard"]) // st; best = None; k = 0
    while True:
        out = attempt(own(k))
        if out:
            best = own(k); break
        if k >= total or time.time() > end:
            break
        k = min(total, max(1, k * 4))
    if best is None and before and time.time() < end:
        best = before + own(total)
        if not attempt(best):
            best = None
        else:
            for i in range(len(before)):  # which of the earlier parts are needed
                c = [p for p in best if p != before[i]]
                if time.time() < end and attempt(c):
                    best = c
    if best is None:
        return None
    one = []
    for p in best:
        one += [(p[0], i, i, 1) for i in range(p[1], p[2] + 1, p[3])]
    chunk = len(one) // 2
    while chunk >= 1 and time.time() < end and len(one) <= 20000:
        i = 0
        while i < len(one) and time.time() < end:
            c = one[:i] + one[i + chunk:]
            if attempt(c):
                one = c
            else:
                i += chunk
        chunk //= 2
    out = attempt(one)
    return (f, out) if out else None

def findings():
    """known-findings.txt: KNOWN property=<id> sub=<probe> <text>"""
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s+property=(\w+)\s+probe=(\w+)\s+(.*)", l)
            if m:
                out.append(m.groups())
    return out

def main():
    scratch()
    if sys.argv[1:2] == ["--setup"]:
        p = subprocess.run([CXX, "--version"], stdout=subprocess.PIPE, text=True); log(p.stdout.split("\n")[0])
        return 0 if p.returncode == 0 else 2
    replay = None
    if sys.argv[1:2] == ["--replay"]:
        prop, tier, replay = sys.argv[2], "quick", os.path.abspath(sys.argv[3])
    else:
        prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    src = os.path.join(V, "harness", prop + ".cpp")
    bd = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(V, "build")), prop)
    if os.path.isdir(bd):
        shutil.rmtree(bd)
    os.makedirs(bd)
    inc = stage(bd)
    o = options(src)
    if o.get("schedules"):
        ENV["PBT_SCHEDULES"] = "1"
    if o.get("copy"):
        a, b = o["copy"].split(); shutil.copy(os.path.join(inc, a), os.path.join(inc, b))
    shards = int(o["shards"])
    binary = os.path.join(bd, "h")
    kind = o.get("quickkind", "plain")
    if not compile_(src, binary, inc, o, kind):
        return 2
    tc = time.time() - t0
    if replay:
        for _ in range(40 if o.get("schedules") else 1):
            p = subprocess.run([binary, "replay", replay], env=ENV, cwd=bd)
            if p.returncode != 0:
                return 1
        return 0
    r = Run()
    phases = ["random %s cases, %s build" % (tier, kind)]
    bins = {"random": binary}
    scale = float(os.environ.get("VERIF_SCALE", "1")) * (float(o.get("scale", "10")) if tier == "quick" else 1)
    run_shards(binary, os.path.join(bd, "run"), seed, tier, scale, shards, r, "random", 3000 if tier == "thorough" else 700, os.environ.get("VERIF_SUB"))
    extra = {}
    if tier == "thorough" and not r.fail and not r.err and not os.environ.get("VERIF_SUB"):
        if kind != "san" and o.get("san", "yes") == "yes":
            b2 = os.path.join(bd, "h_san")
            if compile_(src, b2, inc, o, "san"):
                bins["sanitized"] = b2
                run_shards(b2, os.path.join(bd, "run_san"), seed + 7919, "quick", float(o.get("sanscale", "1")), shards, r, "sanitized", 3000)
                phases.append("random cases under address+undefined sanitizers")
        fz = int(os.environ.get("VERIF_FUZZ_S", o.get("fuzz", "120")))
        if fz > 0 and not r.fail and not r.err:
            b3 = os.path.join(bd, "h_fuzz")
            if compile_(src, b3, inc, o, "fuzz"):
                ps = []
                for i in range(NPROC):
                    d = os.path.join(bd, "fuzz%d" % i); os.makedirs(os.path.join(d, "corpus"))
                    e = dict(ENV, PBT_OUT=os.path.join(d, "fail"))
                    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
                    ps.append((d, subprocess.Popen([b3, "corpus", "-max_total_time=%d" % fz, "-seed=%d" % (seed * 100 + i + 1), "-max_len=4096", "-timeout=120", "-rss_limit_mb=3000", "-print_final_stats=1", "-len_control=20"], cwd=d, env=e, stdout=open(os.path.join(d, "log"), "wb"), stderr=subprocess.STDOUT)))
                execs = 0; cov = 0
                for d, p in ps:
                    p.wait()
                    t = open(os.path.join(d, "log"), errors="replace").read()
                    m = re.search(r"number_of_executed_units:\s*(\d+)", t); execs += int(m.group(1)) if m else 0
                    m = re.findall(r"cov: (\d+)", t); cov = max(cov, int(m[-1]) if m else 0)
                    f = os.path.join(d, "fail")
                    if p.returncode != 0 and os.path.exists(f) and not r.fail:
                        s = f + ".shrunk"; subprocess.run([binary, "shrink", f, s], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                        r.fail = (s if confirm(binary, s) else f, "fuzz")
                extra["libfuzzer"] = {"executions": execs, "edge_coverage": cov, "seconds": fz, "processes": NPROC}
                r.cases += execs
                phases.append("coverage-guided choice tapes (libFuzzer)")
    viol = 0; rc = 0; msg = ""
    if r.fail:
        f, label = r.fail
        out = confirm(bins.get(label, binary), f)
        if out is None and r.raw and label in ("random", "sanitized"):
            out = confirm(r.origin["binary"], r.raw)   # shrinking may have relied on the state of the process
            if out is not None:
                f = r.raw; s = f + ".shrunk"; subprocess.run([r.origin["binary"], "shrink", f, s], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if os.path.exists(s) and confirm(r.origin["binary"], s):
                    f = s
            else:
                q = session(r, bd)
                if q:
                    f, out = q
                else:
                    t = open(r.raw, errors="replace").read()
                    if not re.search(r"^message=.*(hang|bad_alloc|scratch|Resource temporarily|No space left|Too many open)", t, re.M):
                        # e.g. the outcome depends on addresses or on uninitialised memory
                        f = r.raw; out = "FAIL (seen once; neither the case nor its process history repeats it)\n"
        if out is None:
            log("inconclusive: a failing case did not reproduce:", open(f).read()[:500]); rc = 2
        else:
            os.makedirs(os.path.join(V, "replays"), exist_ok=True)
            body = open(f).read()
            dst = os.path.join(V, "replays", "%s-%s.txt" % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
            open(dst, "w").write("property=%s\nseed=%d\nphase=%s\n" % (prop, seed, label) + body)
            log(out[:3000]); log(body[:1500])
            viol = 1; rc = 1
            log("VIOLATION property=%s replay=%s" % (prop, dst))
    elif r.err:
        log("error:", r.err); rc = 2
    known = []
    if rc == 0:
        for p_, probe, text in findings():
            if p_ == prop:
                log("KNOWN-FINDING: property=%s %s" % (prop, text)); known.append(text)
    rule = o.get("rule", "a case that reaches the behaviour under test with a non-degenerate input")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": r.cases, "distinct_nontrivial": len(r.hashes), "rule": rule, "samples": r.samples[:20],
                       "discarded": r.disc, "sub_properties": r.subs, "phases": phases, **extra},
          "wall_s": round(time.time() - t0, 2), "violations": viol,
          "assumptions": [a.strip() for a in o.get("assume", "").split("|") if a.strip()] + ["numerical comparisons use a relative tolerance stated in the harness", "absence of violations is established only for the generated cases"],
          "compile_s": round(tc, 2), "known_findings": known}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    log("%s %s: %d cases, %d distinct non-trivial, %d discarded, compile %.1f s, total %.1f s, exit %d" % (prop, tier, r.cases, len(r.hashes), r.disc, tc, time.time() - t0, rc))
    if rc != 2 and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(bd, ignore_errors=True)
    return rc

if __name__ == "__main__":
    sys.exit(main())
