#!/usr/bin/env python3
"""Confirms planted bugs: patch applies, only original lines change, builds, stable tests pass, demo fails with it and
passes without.   plant.py ID...      (works in scratch copies of /repo)

With --check, also runs the property's check (VF_REPO) against the copy."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = "/verif/seeded"
BASE = "9fd8aac"


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def confirm(i):
    d = os.path.join(V, i)
    t = tempfile.mkdtemp(prefix="pl-")
    out = []
    try:
        r = os.path.join(t, "repo")
        shutil.copytree("/repo", r, symlinks=True)
        demo = os.path.join(t, "demo")
        shutil.copytree(d, demo)
        a = sh("timeout 300 bash %s/demo.sh" % demo, r)
        if a.returncode != 0:
            out.append("demo fails without: " + a.stdout[-800:])
        # original lines only
        p = sh("git apply --check %s/patch.diff" % d, r)
        if p.returncode:
            return i, ["does not apply " + p.stdout]
        cur, n = None, 0
        blame = {}
        for line in open(d + "/patch.diff"):
            m = re.match(r"--- a/(.*)", line)
            if m:
                cur = m.group(1)
                if cur not in blame:
                    blame[cur] = sh("git blame -s %s" % cur, r).stdout.split("\n")
                continue
            m = re.match(r"@@ -(\d+)", line)
            if m:
                n = int(m.group(1))
                continue
            if cur and line[:1] in " -" and not line.startswith("---"):
                if line[0] == "-" and not blame[cur][n - 1].startswith("^9fd8") and not blame[cur][n - 1].startswith(BASE):
                    out.append("changes a fixed line: " + line.strip())
                n += 1
        sh("git apply %s/patch.diff" % d, r)
        a = sh("timeout 300 bash %s/demo.sh" % demo, r)
        if a.returncode == 0:
            out.append("demo passes with it")
        for s in ("build", "test"):
            x = open("/opt/vp/%s.sh" % s).read().replace("/repo", r).replace("/opt/vp/results.lines", t + "/lines").replace(
                "/opt/vp/build", t + "/build")
            x = x.replace("ln -sfn %s/examples" % r, "ln -sfn /repo/examples")
            with open(os.path.join(t, s + ".sh"), "w") as f:
                f.write(x)
        b = sh("bash %s/build.sh" % t, r)
        if b.returncode:
            out.append("build fails " + b.stdout[-500:])
        b = sh("bash %s/test.sh %s/o.json" % (t, t), r)
        o = open(t + "/o.json").read()
        res = json.loads(o)
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = set(res.get("passed") or [k for k, v in res.get("tests", {}).items() if v in ("pass", "passed", True)])
        miss = [x for x in stable if x not in passed]
        if miss:
            out.append("stable tests fail: %s %s" % (miss, "" if passed else o[:300]))
        if "--check" in sys.argv:
            prop = json.load(open(d + "/meta.json"))["property"]
            with LOCK:
                c = sh("VF_REPO=%s VF_EVIDENCE=%s/ev /verif/bin/check %s" % (r, t, prop), "/verif")
            out.append("CAUGHT" if c.returncode == 1 and "VIOLATION property=" + prop in c.stdout else "MISSED rc=%d %s" % (c.returncode, c.stdout[-600:]))
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return i, out


import threading
LOCK = threading.Lock()
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V))
with ThreadPoolExecutor(3) as ex:
    for i, out in ex.map(confirm, ids):
        print(i, "; ".join(out) or "confirmed", flush=True)
