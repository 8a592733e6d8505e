#!/usr/bin/env python3
"""Development tool (no check uses it): mutation testing of the checks.

  muttest.py -o RESULTS.jsonl [-j N] [-n SAMPLE] [-f REGEX] [--retry]
Makes single syntactic changes (tools/mutate) in a scratch copy of /repo, keeps those that build
and pass the stable tests, and runs the checks on each until one reports a violation. What no
check reports is either equivalent, outside every property, or a gap: it is judged by hand."""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get("MUT_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-o", required=True); ap.add_argument("-j", type=int, default=7); ap.add_argument("-n", type=int, default=0)
ap.add_argument("-f", default="."); ap.add_argument("--swap", action="store_true"); ap.add_argument("--retry", action="store_true"); ap.add_argument("--seed", type=int, default=1)
a = ap.parse_args()
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOFLAGS="-mod=mod", GOMAXPROCS="2")
if not a.retry: ENV["VRUN_SMOKE"] = "1"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ORDER = {"mqttp": "C34 C35 C06 C04 C03 C01 C02 C10 C11 C14 C17 C18 C08 C25 C12 C07 C13 C26 C15 C20 C27 C28 C32 C31 C16 C23 C05 C09 C24 C19".split(),
         "vlauth": ["C30"], "vlpersistence": ["C30"], "vlmonitoring": ["C21", "C22"], "vlplugin": ["C33"], "vltypes": ["C29"]}
top = tempfile.mkdtemp(prefix="mut.")
mut = os.path.join(top, "mutate")
subprocess.check_call(["go", "build", "-o", mut, "."], cwd=os.path.join(V, "tools/mutate"), env=ENV)

def sh(cmd, cwd, timeout, mem=0):
    pre = "ulimit -v %d; exec " % mem if mem else "exec "
    p = subprocess.Popen(["bash", "-c", pre + '"$@"', "x"] + cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, "timeout"

local = threading.local()
def ws():
    if not hasattr(local, "w"):
        local.w = tempfile.mkdtemp(dir=top)
        shutil.copytree(REPO, local.w + "/repo", ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(V + "/harness", local.w + "/harness")
        g = local.w + "/harness/go.mod"; s = open(g).read(); open(g, "w").write(s.replace("=> /repo", "=> " + local.w + "/repo"))
        shutil.copy(V + "/known_findings", local.w); shutil.copy(V + "/properties.jsonl", local.w)
    return local.w

def one(job):
    f, k, line, what = job
    if (what.startswith('statement swapped') or what.startswith('"')) and not a.swap: return {'file': f, 'n': k, 'line': line, 'what': what, 'state': 'skipped'}
    w = ws(); dst = w + "/repo/" + f
    r = {"file": f, "n": k, "line": line, "what": what}
    try:
        p = subprocess.run([mut, REPO + "/" + f, str(k)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode: r["state"] = "nobuild"; return r
        open(dst, "wb").write(p.stdout)
        rc, o = sh(["go", "build", "./..."], w + "/repo", 120)
        if rc: r["state"] = "nobuild"; return r
        pkg = f.split("/")[0]
        if pkg == "mqttp":
            rc, o = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "60s", "./..."], w + "/repo", 120, 16000000)
            ok = {(e.get("Package", "") + "/" + e["Test"]) for e in (json.loads(l) for l in o.splitlines() if l.startswith("{")) if e.get("Action") == "pass" and e.get("Test")} if rc != 124 else set()
            if STABLE - ok: r["state"] = "tests"; return r
        b = w + "/vrun"
        rc, o = sh(["go", "build", "-o", b, "./cmd/vrun"], w + "/harness", 200)
        if rc: r["state"] = "harness build"; r["out"] = o[-300:]; return r
        for c in ORDER.get(pkg, []):
            rc, o = sh([b, "-prop", c, "-seed", "1", "-tier", "quick", "-verif", w], w, 300)
            if rc == 1 and "VIOLATION property=" + c in o:
                r["state"] = "caught"; r["by"] = c; return r
            if rc: r["state"] = "exit %d" % rc; r["by"] = c; r["out"] = o[-300:]; return r
        r["state"] = "SURVIVED"; return r
    finally:
        shutil.copy(REPO + "/" + f, dst)

done = {}
if os.path.exists(a.o):
    for l in open(a.o):
        r = json.loads(l); done[(r["file"], r["n"])] = r
jobs = []
for p in sorted(glob.glob(REPO + "/*/*.go")):
    f = p[len(REPO) + 1:]
    if f.endswith("_test.go") or not re.search(a.f, f): continue
    for l in subprocess.check_output([mut, p]).decode().splitlines():
        k, line, what = l.split("\t")
        jobs.append((f, int(k), int(line), what))
random.Random(a.seed).shuffle(jobs)
if a.n: jobs = jobs[:a.n]
if a.retry: jobs = [j for j in jobs if done.get(j[:2], {}).get("state") not in (None, "caught", "nobuild", "tests", "skipped")]
else: jobs = [j for j in jobs if j[:2] not in done]
print(len(jobs), "mutants", flush=True)
cnt = {}
with ThreadPoolExecutor(a.j) as ex, open(a.o, "a") as out:
    for r in ex.map(one, jobs):
        cnt[r["state"]] = cnt.get(r["state"], 0) + 1
        out.write(json.dumps(r) + "\n"); out.flush()
        if r["state"] not in ("caught", "nobuild", "tests", "skipped"): print(r, flush=True)
print(cnt)
shutil.rmtree(top, ignore_errors=True)
