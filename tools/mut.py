#!/usr/bin/env python3
"""tools/mut.py PIDS FILE OLD NEW [--only=..]: run checks on a scratch copy of /repo with one textual change"""
import os, shutil, subprocess, sys, tempfile
pids, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/czone", d + "/czone")
    p = os.path.join(d, "czone", f)
    s = open(p).read()
    old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
    if s.count(old) < 1:
        sys.exit("not found")
    open(p, "w").write(s.replace(old, new, 1))
    for q in pids.split(","):
        r = subprocess.run([sys.executable, "/verif/sa/check.py", q] + sys.argv[5:], env=dict(os.environ, SA_REPO=d), capture_output=True, text=True, cwd="/verif")
        L = (r.stdout + r.stderr).strip().splitlines()
        print("\n".join(x[:260] for x in L[:2] + L[-1:]), "rc", r.returncode)
finally:
    shutil.rmtree(d)
