#!/usr/bin/env python3
"""Development aid: run checks against one-line mutants of a scratch copy of /repo.

mut.py FILE ...   each FILE: lines  check | path | old | new
"""
import os, shutil, subprocess, sys, tempfile, re

def main():
    rows = []
    for f in sys.argv[1:]:
        for l in open(f):
            l = l.rstrip("\n")
            if l.strip() and not l.startswith("#"):
                rows.append([x.strip() for x in l.split(" || ")])
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/curvlinops", d + "/curvlinops"], check=True)
        for check, path, old, new in rows:
            p = os.path.join(d, path)
            s = open(p).read()
            if s.count(old) < 1:
                print("NOMATCH", check, path, old); continue
            open(p, "w").write(s.replace(old, new, 1))
            try:
                r = subprocess.run(["/opt/venv/bin/python", "run.py", check], cwd="/verif", env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, timeout=1200)
                first = [x for x in r.stdout.splitlines() if x.startswith("  ")][:1]
                print({0: "MISSED", 1: "caught"}.get(r.returncode, f"rc{r.returncode}"), check, "|", old, "->", new, "|", (first or [""])[0][:100], flush=True)
                if r.returncode not in (0, 1): print(r.stdout[-600:], r.stderr[-600:])
            finally:
                open(p, "w").write(s)
    finally:
        shutil.rmtree(d)
main()
