#!/usr/bin/env python3
"""Development tool (no check uses it): validates planted bugs and shows which checks catch them.

  seedtest.py [-j N] [-a] [ID...]     ID: directory below /verif/seeded
For each bug, in scratch copies of /repo: the patch applies, changes lines of the original code,
builds, keeps the stable tests passing, its demo passes without and fails with it; then the
property's check (with -a: every check) runs against the patched copy."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "477666a"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOFLAGS="-mod=mod")
RACE = "C15 C19 C20 C21 C22 C33".split()
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def sh(cmd, cwd, env=ENV, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def original(repo, patch):
    """every removed line exists in the base commit (by blame)"""
    lines, cur, fname = [], 0, None
    removed = 0
    for l in open(patch, errors="replace"):
        if l.startswith("--- a/"):
            fname = l[6:].strip()
        elif l.startswith("@@"):
            cur = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            lines.append((fname, cur, l[1:].rstrip("\n"))); cur += 1; removed += 1
        elif l.startswith(" "):
            cur += 1
    out, orig = [], 0
    for f, n, t in lines:
        rc, o = sh(["git", "blame", "-s", "-L", "%d,%d" % (n, n), "HEAD", "--", f], "/repo")
        if o.startswith("^") or o.startswith(BASE):
            if t.strip():
                orig += 1
        else:
            out.append("%s:%d" % (f, n))
    return orig, out

def one(sid, allchecks):
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    r = {"id": sid, "property": meta["property"], "problems": []}
    w = tempfile.mkdtemp(prefix="seed.")
    try:
        repo = os.path.join(w, "repo"); shutil.copytree("/repo", repo)
        orig, mine = original(repo, os.path.join(d, "patch.diff"))
        if orig == 0: r["problems"].append("no original line changed")
        if mine: r["problems"].append("touches fix lines: " + ",".join(mine))
        demo = os.path.join(w, "demo"); os.mkdir(demo)
        for f in os.listdir(d):
            if f.endswith((".diff", ".patch")) or f == "meta.json": continue
            shutil.copy(os.path.join(d, f), demo)
        rc, o = sh(["bash", os.path.join(demo, "demo.sh")], repo, timeout=300)
        if rc != 0: r["problems"].append("demo fails unpatched: " + o[-600:])
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
        if rc != 0: r["problems"].append("does not apply: " + o); return r
        rc, o = sh(["go", "build", "./..."], repo)
        if rc != 0: r["problems"].append("build: " + o); return r
        rc, o = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./..."], repo)
        passed = set()
        for l in o.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
        miss = STABLE - passed
        if miss: r["problems"].append("tests fail: " + ", ".join(sorted(miss)[:5]))
        rc, o = sh(["bash", os.path.join(demo, "demo.sh")], repo, timeout=300)
        if rc == 0: r["problems"].append("demo passes patched")
        r["demo"] = o.strip()[-200:]
        h = os.path.join(w, "harness"); shutil.copytree(os.path.join(V, "harness"), h)
        gm = os.path.join(h, "go.mod"); s = open(gm).read(); open(gm, "w").write(s.replace("=> /repo", "=> " + repo))
        shutil.copy(os.path.join(V, "known_findings"), w)
        shutil.copy(os.path.join(V, "properties.jsonl"), w)
        ids = [meta["property"]]
        if allchecks: ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
        env = dict(ENV, GOFLAGS="-mod=readonly", CGO_ENABLED="1", TMPDIR=w)
        r["caught"] = []
        for i in ids:
            race = i in RACE
            b = os.path.join(w, "vrun" + ("r" if race else ""))
            if not os.path.exists(b):
                rc, o = sh(["go", "build"] + (["-race"] if race else []) + ["-o", b, "./cmd/vrun"], h, env)
                if rc != 0: r["problems"].append("harness build: " + o[-300:]); return r
            alt = []
            if i not in ("C38", "C39"):
                b3 = os.path.join(w, "vrun386")
                if not os.path.exists(b3):
                    rc, o = sh(["go", "build", "-o", b3, "./cmd/vrun"], h, dict(env, GOARCH="386", CGO_ENABLED="0"))
                    if rc != 0: r["problems"].append("32-bit harness build: " + o[-300:]); return r
                alt = ["-alt", b3]
            rc, o = sh([b] + alt + ["-prop", i, "-seed", "1", "-tier", "quick", "-verif", w] + (["-race"] if race else []), w, env)
            if rc == 1 and ("VIOLATION property=" + i) in o: r["caught"].append(i)
            elif rc != 0: r["problems"].append("check %s exit %d: %s" % (i, rc, o[-400:]))
            if i == meta["property"]: r["out"] = o[-500:]
        return r
    finally:
        shutil.rmtree(w, ignore_errors=True)

ap = argparse.ArgumentParser(); ap.add_argument("-j", type=int, default=4); ap.add_argument("-a", action="store_true"); ap.add_argument("-v", action="store_true"); ap.add_argument("ids", nargs="*")
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(os.path.join(V, "seeded")))
bad = missed = 0
RES = os.path.join(V, "tools", "seedresults.json")
res = json.load(open(RES)) if os.path.exists(RES) else {}
with ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(lambda s: one(s, a.a), ids):
        c = r.get("caught", [])
        ok = r["property"] in c
        res[r["id"]] = sorted(set(c) | (set() if a.a else set(res.get(r["id"], [])) - {r["property"]}))
        print("%-28s %s %s %s" % (r["id"], r["property"], "caught" if ok else "MISSED", (" ".join(c) if a.a else "")), flush=True)
        if r["problems"]: bad += 1; print("    PROBLEM:", *r["problems"], sep="\n      ", flush=True)
        if not ok: missed += 1
        if a.v or not ok: print("    demo:", r.get("demo", ""), "\n    check:", r.get("out", "")[-300:].replace("\n", "\n      "), flush=True)
print("%d bugs, %d with problems, %d missed" % (len(ids), bad, missed))

res = {k: v for k, v in res.items() if os.path.isdir(os.path.join(V, "seeded", k))}
json.dump(res, open(RES, "w"), indent=0, sort_keys=True)
