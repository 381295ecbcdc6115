#!/usr/bin/env python3
"""plant.py ID: take the edits of the scratch copy /tmp/plant (made by `plant.py --new`), confirm that they
are a usable planted bug with /verif/seeded/ID/demo.sh, and write patch.diff.

plant.py --new           make /tmp/plant from /repo's HEAD and its build products
plant.py ID              confirm and write seeded/ID/patch.diff
plant.py --verify ID...  apply the committed patch to a new copy and confirm it again
"""
import json, os, re, shutil, subprocess, sys
P = "/tmp/plant"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def new():
    shutil.rmtree(P, ignore_errors=True)
    sh("cp -a /repo " + P)
    for f in ("build.sh", "test.sh", "run_tests.py", "results.py"):
        s = open("/opt/vp/" + f).read().replace("/repo", P).replace("/opt/vp/build.sh", P + "/_vp/build.sh").replace("/opt/vp/run_tests.py", P + "/_vp/run_tests.py")
        os.makedirs(P + "/_vp", exist_ok=True)
        open(P + "/_vp/" + f, "w").write(s)

def demo(i):
    r = sh("timeout 300 bash %s/seeded/%s/demo.sh" % (VERIF, i), cwd=P)
    return r.returncode, r.stdout

def confirm(i):
    d = "%s/seeded/%s" % (VERIF, i)
    diff = sh("git diff", cwd=P).stdout
    if not diff.strip():
        return "no edits"
    bad = [f for f in re.findall(r"^\+\+\+ b/(\S+)", diff, re.M) if not re.match(r"(include|src|rx/)", f) or "test" in f]
    if bad:
        return "touches %s" % bad
    # removed lines must be original
    root = sh("git rev-list --max-parents=0 HEAD", cwd=P).stdout.strip()[:8]
    f = None; n = 0; mine = 0; orig = 0
    for l in diff.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            b = sh("git blame -s HEAD -L %d,%d -- %s" % (n, n, f), cwd=P).stdout
            if b.lstrip("^").startswith(root[:7]): orig += 1
            else: mine += 1
            n += 1
        elif l.startswith(" "): n += 1
    if mine or not orig:
        return "changes %d original lines and %d of ours" % (orig, mine)
    r = sh("bash %s/_vp/test.sh /tmp/plant.json" % P)
    o = json.load(open("/tmp/plant.json")); s = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    if s - set(o["passed"]):
        return "tests fail: %d %s\n%s" % (len(s - set(o["passed"])), sorted(s - set(o["passed"]))[:5], r.stdout[-600:])
    rc, out = demo(i)
    if rc == 0:
        return "demo passes with the bug\n" + out[-800:]
    sh("git stash -q", cwd=P); r = sh("bash %s/_vp/build.sh" % P)
    rc2, out2 = demo(i)
    sh("git stash pop -q", cwd=P)
    if rc2 != 0:
        return "demo fails without the bug\n" + out2[-1500:]
    open(d + "/patch.diff", "w").write(diff)
    print(i, "OK: demo rc %d with the bug: %s" % (rc, out.strip().splitlines()[-1:] ))
    return None

if __name__ == "__main__":
    if sys.argv[1] == "--new":
        new()
    elif sys.argv[1] == "--verify":
        for i in sys.argv[2:]:
            new()
            r = sh("git apply %s/seeded/%s/patch.diff" % (VERIF, i), cwd=P)
            print(i, r.stdout, confirm(i) or "")
    else:
        e = confirm(sys.argv[1])
        if e:
            print(sys.argv[1], "NOT USABLE:", e); sys.exit(1)
