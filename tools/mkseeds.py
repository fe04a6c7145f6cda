#!/usr/bin/env python3
"""Writes seeded/<id>/ from the table in tools/seeds.py and tries each bug in a scratch copy of /repo.
   mkseeds.py write [ids]   - patch.diff, demo.cpp, demo.sh, meta.json
   mkseeds.py demo [ids]    - only the demonstrations, without and with the change
   mkseeds.py try [ids]     - build, stable tests, demo with and without the patch, and the check (VERIF_REPO)
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS
INC = {"core": "core/include", "wpg04": "modules/wpg04/include", "pepper_mpc": "modules/pepper_mpc/include"}
DEMO = """#!/bin/bash
# exit 0 if the behaviour is right, 1 otherwise
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
clang++ -std=c++14 -O0 -w -I_build/include -I/usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" -lboost_thread -lboost_system -lboost_chrono -lpthread || exit 2
cd "$t" && timeout 120 ./demo
"""
BRIDGE = """#!/bin/bash
# exit 0 if the behaviour is right, 1 otherwise; the external library is replaced by the stand-in in stubs/
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir -p "$t/inc/humoto"; for i in core/include modules/*/include bridges/*/interface; do cp -r $i/. "$t/inc/humoto/"; done; cp _build/include/humoto/build_config.h "$t/inc/humoto/"
clang++ -std=c++14 -O0 -w -DREPO="\\"$PWD\\"" -I"$d/stubs" -I"$t/inc" -I"$t/inc/humoto" -I/usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" -lboost_thread -lboost_system -lboost_chrono -lpthread %s || exit 2
cd "$t" && timeout 120 ./demo
"""
HEAD = """#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include <iostream>
#include <cmath>
%s
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
static int bad = 0;
#define EXPECT(c) do { if(!(c)) { std::cout << "wrong: " #c << std::endl; bad = 1; } } while(0)
static bool near(double a, double b) { return std::fabs(a - b) < 1e-6; }
%s
"""
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def write(s):
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    t = "/tmp/seedw"; shutil.rmtree(t, True); sh("git -C /repo worktree prune; git clone -q /repo %s" % t)
    for f, old, new in s["edits"]:
        p = os.path.join(t, f); x = open(p).read(); assert x.count(old) == 1, (s["id"], f, x.count(old)); o = sh("git -C /repo show 68a7b64:%s" % f).stdout; assert all(l.strip() in o for l in old.split("\n")), ("not original", s["id"]); open(p, "w").write(x.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=t).stdout); shutil.rmtree(t)
    inc = "\n".join('#include "humoto/%s.h"' % i for i in s.get("inc", ["humoto", "rigid_body", "walking"]))
    open(os.path.join(d, "demo.cpp"), "w").write(HEAD % (inc, s["demo"])); open(os.path.join(d, "demo.sh"), "w").write(BRIDGE % s.get("libs", "") if s.get("stubs") else DEMO)
    for x in s.get("stubs", []):
        y = os.path.join(d, "stubs", x if not x.startswith("yaml03/") else x[7:]); os.makedirs(os.path.dirname(y), exist_ok=True); shutil.copy(os.path.join(V, "lib/stubs", x), y)
    if True:os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def attempt(s):
    d = os.path.join(V, "seeded", s["id"]); t = "/tmp/seedt"; shutil.rmtree(t, True); os.makedirs(t)
    r0 = sh("cd /repo && bash %s/demo.sh" % d)
    sh("cp -a /repo/. %s/ && rm -rf %s/_build" % (t, t)); a = sh("git apply %s/patch.diff" % d, cwd=t); assert a.returncode == 0, a.stdout
    # the project's build in a copy
    b = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > /tmp/b_seed.sh; bash /tmp/b_seed.sh" % t)
    ts = sh("sed 's#/repo#%s#g;s#/opt/vp/build.sh#/tmp/b_seed.sh#' /opt/vp/test.sh > /tmp/t_seed.sh; bash /tmp/t_seed.sh /tmp/t_seed.json" % t)
    try: res = json.load(open("/tmp/t_seed.json")); tests = "%d/%d" % (len(res["passed"]), len(res["passed"]) + len(res["failed"]))
    except Exception as e: tests = "?" + ts.stdout[-300:]
    r1 = sh("cd %s && bash %s/demo.sh" % (t, d))
    c = sh("VERIF_REPO=%s VERIF_SEED=1 python3 %s/check.py %s quick" % (t, V, s["property"]))
    print("%-4s %s build %d tests %s demo %d/%d check exit %d %s" % (s["id"], s["property"], b.returncode, tests, r0.returncode, r1.returncode, c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or "seconds" in l][:1]), flush=True)
    if r0.returncode or r1.returncode != 1: print(r0.stdout[-500:], r1.stdout[-500:])
    if c.returncode != 1: print("   MISSED", c.stdout[-300:])
    shutil.rmtree(t, True)
def demo(s):
    """only the demonstration, with the changed headers copied over the built ones"""
    d = os.path.join(V, "seeded", s["id"]); t = "/tmp/seedd_" + s["id"]; shutil.rmtree(t, True); os.makedirs(t + "/_build"); shutil.copytree("/repo/_build/include", t + "/_build/include")
    r0 = sh("cd /repo && bash %s/demo.sh" % d)
    if s.get("stubs"): [shutil.copytree("/repo/" + x, t + "/" + x) for x in ("core", "modules", "bridges")]; [open(os.path.join(t, f), "w").write(open(os.path.join("/repo", f)).read().replace(old, new)) for f, old, new in s["edits"]]
    for f, old, new in [] if s.get("stubs") else s["edits"]: p = f.split("/include/" if "/include/" in f else "/interface/", 1)[1]; x = open(os.path.join("/repo", f)).read(); open(os.path.join(t, "_build/include/humoto", p), "w").write(x.replace(old, new))
    r1 = sh("cd %s && bash %s/demo.sh" % (t, d)); print(s["id"], r0.returncode, r1.returncode, "" if (r0.returncode, r1.returncode) == (0, 1) else r0.stdout[-600:] + "\n---\n" + r1.stdout[-300:], flush=True); shutil.rmtree(t, True)
ids = sys.argv[2:]
for s in SEEDS:
    if not ids or s["id"] in ids:
        {"write": write, "try": attempt, "demo": demo}[sys.argv[1]](s)
