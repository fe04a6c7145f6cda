#!/usr/bin/env python3
"""Random mutation campaign: small edits of the headers, judged by the checks anchored at them.
   mutate.py OUT.jsonl COUNT SEED [file-substring] [check,check]   (scratch under /tmp/mut; reports survivors)
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
filt = sys.argv[4] if len(sys.argv) > 4 else ""
force = sys.argv[5].split(",") if len(sys.argv) > 5 else None
rnd = random.Random(seed)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
def files_of(p):
    r = []
    for f in p["anchors"]["files"]:
        q = os.path.join("/repo", f)
        r += [f] if os.path.isfile(q) else [os.path.relpath(x, "/repo") for x in glob.glob(q + "/**/*.h", recursive=True)]
    return r
by = {}
for p in props:
    for f in files_of(p): by.setdefault(f, []).append(p["id"])
def code_lines(f):
    """line numbers of code that is not comment, log or boilerplate"""
    s = open(os.path.join("/repo", f), errors="replace").read().split("\n"); ok = []; com = False; log = False
    for i, l in enumerate(s):
        if "/*" in l: com = True
        if not com and not log and not re.match(r"\s*(//|#|namespace|class|public|private|protected|template|typedef|using|const static|HUMOTO_ASSERT|HUMOTO_THROW|\"|logger)", l) and re.search(r"[=+\-*/<>&|(]|return|\d", l) and l.strip() not in ("{", "}", ");"): ok.append(i)
        if "*/" in l: com = False
    return s, ok
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\+=", "-="), (r"-=", "+="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\.x\(\)", ".y()"), (r"\.y\(\)", ".x()"), (r"\.z\(\)", ".y()"), (r"\bcol\(0\)", "col(1)"), (r"\bcol\(1\)", "col(0)"), (r"\brows\(\)", "cols()"), (r"\bcols\(\)", "rows()"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\b3\b", "2"), (r"\bhead\(", "tail("), (r"\btail\(", "head("), (r"Left", "Right"), (r"Right", "Left"), (r"LSS", "RSS"), (r"RSS", "LSS"), (r"\bDS\b", "TDS"), (r"LEFT", "RIGHT"), (r"lower", "upper"), (r"upper", "lower"), (r"Lower", "Upper"), (r"Upper", "Lower"), (r"\+\+", "--"), (r"body", "base"), (r"base", "body"), (r"velocity", "acceleration"), (r"position", "velocity"), (r"\.transpose\(\)", ""), (r"min", "max"), (r"max", "min"), (r"EQUALITY", "INACTIVE"), (r"INACTIVE", "LOWER_BOUND"), (r"= -", "= "), (r"\(-", "("), (r"cos", "sin"), (r"sin", "cos"), (r"\bi\b", "(i+1)"), (r"break;", ""), (r"return", "if(0) return"), (r"offset_", "length_"), (r"length_", "offset_"), (r"setZero", "setOnes"), (r"noalias\(\) =", "noalias() +="), (r"_ = ", "_ += ")]
def mutants():
    fs = [f for f in sorted(by) if filt in f]; cand = []
    for f in fs:
        s, ok = code_lines(f)
        for i in ok:
            for a, b in OPS:
                for m in re.finditer(a, s[i]): cand.append((f, i, s[i], s[i][:m.start()] + b + s[i][m.end():]))
            if re.match(r"\s+[\w\[\]\.\(\), \-]+(=|\+=|-=|\().*;\s*$", s[i]) and not re.search(r"return|const|double|std::|int |Eigen::\w+ \w|&", s[i]): cand.append((f, i, s[i], "//" + s[i]))
    if os.environ.get("MUT_LOG"):   # only statements that log something
        cand = []
        for f in fs:
            s = open(os.path.join("/repo", f), errors="replace").read().split("\n")
            for i, l in enumerate(s):
                if re.match(r"\s*(\*|//|#)", l) or not re.search(r"log|subname|const std::string *& *name *=", l): continue
                if l.rstrip().endswith(";"): cand.append((f, i, l, "//" + l))
                for a, b in [(r'"\)', 'x")'), (r'"\);', 'x");'), (r'name = "(\w+)', r'name = "\1x'), (r"\bi\+1\b", "i"), (r"subname = parent", "subname"), (r"_\);", "_.transpose().eval());"), (r"\badd\(name\)", 'add("")'), (r"\(subname\)", "(parent)"), (r"logger, subname", "logger, parent")]:
                    n = re.sub(a, b, l, count=1)
                    if n != l: cand.append((f, i, l, n))
    rnd.shuffle(cand); return cand
lock = threading.Lock(); q = queue.Queue(); stop = [0]
cands = mutants(); print(len(cands), "candidate mutants", flush=True)
for c in cands: q.put(c)
stat = {"killed": 0, "survived": 0, "nocompile": 0}
def work(w):
    d = "/tmp/mut/w%d" % w; shutil.rmtree(d, True); os.makedirs(d + "/repo"); subprocess.run("cp -a /repo/core /repo/bridges /repo/modules %s/repo/" % d, shell=True)
    while True:
        with lock:
            if stop[0] >= count: return
        try: f, i, old, new = q.get_nowait()
        except queue.Empty: return
        p = os.path.join(d, "repo", f); s = open(os.path.join("/repo", f), errors="replace").read().split("\n"); s[i] = new; open(p, "w").write("\n".join(s)); res = "survived"; by_ = None
        for c in (force or by[f]):
            env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build", VERIF_SEED="1", VERIF_SCALE=os.environ.get("VERIF_SCALE", "1"), VERIF_EVIDENCE=d)
            try: r = subprocess.run(["python3", V + "/check.py", c, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            except subprocess.TimeoutExpired: res = "killed"; by_ = c + " (timeout)"; break
            if r.returncode == 1: res = "killed"; by_ = c; break
            if r.returncode == 2: res = "nocompile" if "BUILD ERROR" in r.stdout else "killed"; by_ = c + " (exit 2) " + r.stdout[-200:]; break
        shutil.copy(os.path.join("/repo", f), p)
        with lock:
            stat[res] += 1
            if res != "nocompile": stop[0] += 1
            open(out, "a").write(json.dumps({"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "result": res, "by": by_, "checks": force or by[f]}) + "\n")
            if res == "survived": print("SURVIVED %s:%d\n   - %s\n   + %s" % (f, i + 1, old.strip(), new.strip()), flush=True)
            if (stop[0] % 25) == 0: print(stat, flush=True)
n = int(os.environ.get("MUT_JOBS", "8")); ts = [threading.Thread(target=work, args=(w,)) for w in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]; print("END", stat); shutil.rmtree("/tmp/mut", True)
