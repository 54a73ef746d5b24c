#!/usr/bin/env python3
"""tools/refac.py BATCH [PIDS] [--keep]: apply a batch of behaviour-preserving edits (tools/refac/BATCH.py) to a scratch
copy, run the repository's tests there, then every check; anything but 'all hold' is printed."""
import os, shutil, subprocess, sys, tempfile, importlib.util, glob, re
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("b", f"{H}/refac/{sys.argv[1]}.py")
b = importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
rest = [a for a in sys.argv[2:] if not a.startswith("--")]
pids = rest[0].split(",") if rest else [os.path.basename(f)[:-3].upper() for f in sorted(glob.glob(f"{H}/../sa/props/c[0-9][0-9].py"))]
only = [a for a in sys.argv if a.startswith("--only")]
d = tempfile.mkdtemp(prefix="refac")
try:
    for x in ("czone", "tests"):
        shutil.copytree(f"/repo/{x}", f"{d}/{x}")
    for i, (f, old, new) in enumerate(b.EDITS):
        p = f"{d}/czone/{f}"
        s = open(p).read()
        if s.count(old) < 1:
            sys.exit(f"edit {i} not found in {f}: {old[:80]!r}")
        open(p, "w").write(s.replace(old, new) if old.endswith("#ALL") else s.replace(old, new, 1))
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=d, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
    print(r.stdout.strip().splitlines()[-1])
    env = dict(os.environ, SA_REPO=d, SA_VERBOSE="1")
    def go(q):
        r = subprocess.run([sys.executable, "/verif/sa/check.py", q] + only, env=env, capture_output=True, text=True, cwd="/verif")
        return q, r.returncode, (r.stdout + r.stderr).strip().splitlines()
    with ThreadPoolExecutor(5) as ex:
        for q, rc, L in ex.map(go, pids):
            bad = [x for x in L[:-1] if " holds " not in x and "KNOWN" not in x and re.search("VIOLATION|undecided|violated|Error", x)]
            if rc or "0 undecided" not in (L or [""])[-1]:
                print("==", q, "rc", rc, L[-1][:150] if L else "")
                for x in bad[:int(os.environ.get("L", 8))]:
                    print("   ", x[:int(os.environ.get("W", 230))])
            else:
                print(q, "ok", end="; ", flush=True)
    print()
finally:
    if "--keep" in sys.argv: print(d)
    else: shutil.rmtree(d)
