#!/usr/bin/env python3
"""tools/camp.py BATCH [index ...]: apply each mutant of tools/mutants/BATCH.py to a scratch copy, run the repository's
tests and the checks of the properties it breaks.  M = [(pids, file, [(old, new), ...], note)]."""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("b", f"{H}/mutants/{sys.argv[1]}.py")
b = importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
sel = [int(a) for a in sys.argv[2:] if a.isdigit()]
notests = "--notests" in sys.argv


def go(a):
    i, (pids, f, eds, note) = a
    d = tempfile.mkdtemp(prefix="camp")
    try:
        for x in ("czone", "tests"):
            shutil.copytree(f"/repo/{x}", f"{d}/{x}")
        p = f"{d}/czone/{f}"
        s = open(p).read()
        for o, n in eds:
            if s.count(o) < 1:
                return f"{i:3d} NOTFOUND {f} {o[:60]!r}"
            s = s.replace(o, n, 1)
        open(p, "w").write(s)
        t = ""
        if not notests:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d,
                               env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
            t = "" if "20 passed" in r.stdout else " [tests: %s]" % r.stdout.strip().splitlines()[-1][:60]
        out = []
        for q in pids.split():
            r = subprocess.run([sys.executable, "/verif/sa/check.py", q], env=dict(os.environ, SA_REPO=d, SA_JOBS="2"),
                               capture_output=True, text=True, cwd="/verif")
            L = [x for x in r.stdout.strip().splitlines() if not x.startswith("KNOWN")]
            out.append("%s %s %s" % (q, "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode,
                                     (L[0][:110] if r.returncode == 1 else (L[-1] if L else r.stderr[-200:])[:110])))
        return f"{i:3d}{t} " + " | ".join(out) + f"   <{note}>"
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(5) as ex:
    for q in ex.map(go, [(i, m) for i, m in enumerate(b.M) if not sel or i in sel]):
        print(q, flush=True)
