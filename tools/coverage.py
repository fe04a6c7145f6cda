#!/usr/bin/env python3
"""coverage.py OUTDIR [ids]: which lines of the repository's headers do the harnesses reach? (development aid, not a check)
Compiles every harness with source coverage, runs a fraction of the quick cases and merges; writes OUTDIR/uncovered.txt."""
import os, sys, subprocess, json, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
out = sys.argv[1]; os.makedirs(out, exist_ok=True)
ids = sys.argv[2:] or open(os.path.join(check.V, "tools/claimed.txt")).read().split()
check.scratch()
def one(c):
    bd = os.path.join(out, c); os.makedirs(bd, exist_ok=True)
    src = os.path.join(check.V, "harness", c + ".cpp"); inc = check.stage(bd); o = check.options(src)
    if o.get("copy"):
        import shutil
        a, b = o["copy"].split(); shutil.copy(os.path.join(inc, a), os.path.join(inc, b))
    b = os.path.join(bd, "h")
    cmd = ["clang++", "-std=c++14", "-w", "-O0", "-fprofile-instr-generate", "-fcoverage-mapping", "-DPBT_COVERAGE", "-I" + inc, "-I" + os.path.join(check.V, "lib"), "-I/usr/include/eigen3"] + o["flags"].replace("{V}", check.V).replace("{R}", check.REPO).split() + [src, "-o", b, "-lboost_thread", "-lboost_system", "-lboost_chrono", "-lpthread"] + o["libs"].split()
    if subprocess.run(cmd).returncode: return c, None
    subprocess.run([b, "run", "1", "quick", "0", "1", bd, "0.05"], env=dict(check.ENV, LLVM_PROFILE_FILE=bd + "/p.profraw"), cwd=bd, stdout=subprocess.DEVNULL)
    subprocess.run(["llvm-profdata-18", "merge", "-o", bd + "/p.profdata", bd + "/p.profraw"])
    t = subprocess.run(["llvm-cov-18", "export", "-format=lcov", "-instr-profile=" + bd + "/p.profdata", b], stdout=subprocess.PIPE, text=True).stdout
    return c, t
cov = {}
with cf.ThreadPoolExecutor(int(os.environ.get("COV_JOBS", "3"))) as ex:
    for c, t in ex.map(one, ids):
        print(c, "failed" if not t else "ok", flush=True)
        f = None
        for l in (t or "").split("\n"):
            if l.startswith("SF:"): f = l[3:].split("/%s/" % c, 1)[-1]
            elif l.startswith("DA:"):
                a, b = l[3:].split(",")[:2]; d = cov.setdefault(f, {}); d[int(a)] = d.get(int(a), 0) + int(b)
json.dump(cov, open(out + "/cov.json", "w"))
with open(out + "/uncovered.txt", "w") as o:
    for f in sorted(cov):
        z = sorted(k for k, v in cov[f].items() if v == 0)
        o.write("%s %d/%d uncovered: %s\n" % (f, len(z), len(cov[f]), z))
