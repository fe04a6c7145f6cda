#!/usr/bin/env python3
"""Re-run the survivors of a mutation log: retry.py LOG [checks]  (scratch under /tmp/mut)."""
import glob, json, os, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = open(sys.argv[1]).read().split("\n"); force = sys.argv[2].split(",") if len(sys.argv) > 2 else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]; by = {}
for p in props:
    for f in p["anchors"]["files"]:
        a = os.path.join("/repo", f)
        for x in [f] if os.path.isfile(a) else [os.path.relpath(x, "/repo") for x in glob.glob(a + "/**/*.h", recursive=True)]: by.setdefault(x, []).append(p["id"])
q = queue.Queue(); lock = threading.Lock()
for i, l in enumerate(L):
    m = re.match(r"SURVIVED (\S+):(\d+)", l)
    if m: q.put((m[1], int(m[2]) - 1, L[i + 1].strip()[2:], L[i + 2].strip()[2:]))
print(q.qsize(), "survivors")
def work(w):
    d = "/tmp/mut/w%d" % w; shutil.rmtree(d, True); os.makedirs(d + "/repo"); subprocess.run("cp -a /repo/core /repo/bridges /repo/modules %s/repo/" % d, shell=True)
    while True:
        try: f, i, old, new = q.get_nowait()
        except queue.Empty: return
        p = os.path.join(d, "repo", f); s = open(os.path.join("/repo", f), errors="replace").read().split("\n")
        if s[i].strip() != old:
            with lock: print("STALE", f, i + 1, repr(s[i].strip()), repr(old)); continue
        s[i] = new; open(p, "w").write("\n".join(s)); res = "SURVIVED"
        for c in force or by.get(f, []):
            env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build", VERIF_SEED="1", VERIF_EVIDENCE=d)
            try: r = subprocess.run(["python3", V + "/check.py", c, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired: res = "killed by " + c + " (timeout)"; break
            if r.returncode: res = "killed by %s (%d)" % (c, r.returncode); break
        shutil.copy(os.path.join("/repo", f), p)
        with lock: print("%s %s:%d\n   - %s\n   + %s" % (res, f, i + 1, old, new), flush=True)
T = [threading.Thread(target=work, args=(w,)) for w in range(int(os.environ.get("MUT_JOBS", "6")))]
[t.start() for t in T]; [t.join() for t in T]; shutil.rmtree("/tmp/mut", True)
