#!/usr/bin/env python3
"""Development tool: validates planted bugs under /verif/seeded (never used by a check).

  seedtool.py valid ID...   in a scratch copy: applies, builds, passes the stable tests, demo fails (and passes without)
  seedtool.py catch ID...   applies to /repo, runs the property's quick check, undoes
"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"; S = V + "/seeded"; W = "/tmp/seedwt"

def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def prep():
    if not os.path.exists(W):
        shutil.copytree("/repo", W, symlinks=True)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)
    os.makedirs("/tmp/seedvp", exist_ok=True)
    for f in ("build.sh", "test.sh"):
        open("/tmp/seedvp/" + f, "w").write(open("/opt/vp/" + f).read().replace("cd /repo", "cd " + W))

def demo(i):
    d = tempfile.mkdtemp(prefix="seeddemo")
    shutil.copytree(S + "/" + i, d + "/x", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    rc, o = sh("bash %s/x/demo.sh" % d, cwd=W, timeout=300)
    shutil.rmtree(d)
    return rc, o

def valid(i):
    prep()
    sh("bash /tmp/seedvp/build.sh")
    rc, o = demo(i)
    if rc: return "demo fails on the clean tree: " + o[-1500:]
    rc, o = sh("git apply %s/%s/patch.diff" % (S, i), cwd=W)
    if rc: return "patch: " + o
    rc, o = sh("bash /tmp/seedvp/build.sh")
    if rc: return "build: " + o[-2500:]
    rc, o = sh("bash /tmp/seedvp/test.sh /tmp/seedvp/o.json")
    r = json.load(open("/tmp/seedvp/o.json"))
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ps = r.get("passed", r)
    miss = [t for t in st if t not in ps]
    if miss: return "tests fail: %s" % miss
    rc, o = demo(i)
    if rc == 0: return "demo passes with the bug"
    return "ok (demo rc %d: %s)" % (rc, " / ".join(l for l in o.strip().splitlines() if "panicked" not in l)[-200:])

def catch(i, prop=None):
    prop = prop or json.load(open("%s/%s/meta.json" % (S, i)))["property"]
    rc, o = sh("git -C /repo apply %s/%s/patch.diff" % (S, i))
    if rc: return "patch: " + o
    try:
        rc, o = sh("python3 check.py %s" % prop, cwd=V)
    finally:
        sh("git -C /repo checkout -- .")
    return "%s rc %d %s" % (prop, rc, " / ".join(l for l in o.splitlines() if l.startswith(("VIOL", "ERR")) or ": " in l and not l.startswith("# h_"))[:500])

if __name__ == "__main__":
    ids = sys.argv[2:] if sys.argv[2:] and sys.argv[2] != "all" else sorted(os.listdir(S))
    for i in ids:
        x = i.split("@")
        print(i, {"valid": valid, "catch": catch}[sys.argv[1]](*x), flush=True)
