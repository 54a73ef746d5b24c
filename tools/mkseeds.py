"""Builds /verif/seeded/<id> from tools/seeds/*.py and confirms each in a scratch copy of /repo.

    python3 tools/mkseeds.py [id ...]        (no ids: those missing from seeded/)
    python3 tools/mkseeds.py --check [id ..] (runs the property's check against each, in a scratch copy)

A definition: SEEDS = [dict(id, prop, edits=[(file, old, new)...], demo, needs, breaks)].
"""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **k)


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    sh("git worktree prune", "/repo")
    r = sh("git clone -q /repo %s" % W, "/tmp")
    assert r.returncode == 0, r.stderr


def defs():
    out = {}
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/seeds/*.py"))):
        for s in runpy.run_path(f)["SEEDS"]:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passing", "tests", "stable_tests"):
        if k in b:
            return b[k]
    return b


def demo_rc(d):
    # the demo names /repo nowhere: it imports czone from its cwd
    r = sh("bash %s/demo.sh" % d, W, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def apply(s):
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))


def build(s):
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- .", W)
    apply(s)
    diff = sh("git diff", W).stdout
    # removed lines must be the original repository's
    base = sh("git rev-list --max-parents=0 HEAD", W).stdout.split()[0]
    bad = []
    for f in {e[0] for e in s["edits"]}:
        n = 0
        for line in sh("git diff -U0 -- %s" % f, W).stdout.splitlines():
            if line.startswith("@@"):
                a = line.split()[1][1:].split(",")
                start, cnt = int(a[0]), int(a[1]) if len(a) > 1 else 1
                if cnt:
                    bl = sh("git blame -s -l HEAD -L %d,+%d -- %s" % (start, cnt, f), W).stdout
                    bad += [q for q in bl.splitlines() if base[:39] not in q.split()[0]]
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(s.get("pre", "") + s["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        "#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=\"$PWD\"\n"
        "exec timeout 250 /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    msgs = []
    if bad:
        msgs.append("removes lines of later commits: %r" % bad[:3])
    rc, o = demo_rc(d)
    if rc == 0:
        msgs.append("demo passes with the patch")
    t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -x tests 2>&1 | tail -4", W, timeout=600).stdout
    if "20 passed" not in t:
        msgs.append("tests: " + t)
    sh("git checkout -q -- .", W)
    rc, o = demo_rc(d)
    if rc != 0:
        msgs.append("demo fails without the patch: " + o)
    print(s["id"], "OK" if not msgs else "BAD " + "; ".join(msgs), flush=True)
    return not msgs


def check(s):
    sh("git checkout -q -- .", W)
    apply(s)
    r = subprocess.run(["python3", os.path.join(ROOT, "sa/check.py"), s["prop"]], cwd=ROOT,
                       env=dict(ENV, SA_REPO=W), capture_output=True, text=True)
    lines = [q for q in r.stdout.splitlines() if not q.startswith("KNOWN")]
    print("%-38s %s %s" % (s["id"], "CAUGHT" if r.returncode == 1 else "missed rc=%d" % r.returncode,
                           (lines[0] if lines else r.stderr[-300:])[:230]), flush=True)


def main():
    a = sys.argv[1:]
    chk = "--check" in a
    a = [x for x in a if not x.startswith("--")]
    ds = defs()
    fresh()
    for i, s in ds.items():
        if a and i not in a and s["prop"] not in a:
            continue
        if chk:
            check(s)
        elif a or not os.path.exists(os.path.join(ROOT, "seeded", i, "meta.json")):
            try:
                build(s)
            except AssertionError as e:
                print(i, "NOT BUILT", str(e)[:600])
                fresh()
    shutil.rmtree(W, ignore_errors=True)


main()
