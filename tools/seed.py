#!/usr/bin/env python3
"""Development aid: turn a described edit into /verif/seeded/<id> and validate it.

seed.py SPEC.py [--notest]   SPEC.py defines id, property, needs, what_it_breaks, edits=[(path, old, new)], demo (python source)
"""
import json, os, re, shutil, subprocess, sys, tempfile, runpy, hashlib

ENV = dict(os.environ, HOME="/root", LANG="C.UTF-8", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", CI="1",
           MPLCONFIGDIR="/tmp/mplconfig", MPLBACKEND="Agg", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD="1", CUDA_VISIBLE_DEVICES="")
PY = "/opt/venv/bin/python"

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)

def main():
    S = runpy.run_path(sys.argv[1])
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    w = d + "/repo"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        clean = d + "/clean"
        subprocess.run(["git", "clone", "-q", "/repo", clean], check=True)
        for p, old, new in S["edits"]:
            f = os.path.join(w, p)
            s = open(f).read()
            assert s.count(old) == 1, (p, old, s.count(old))
            open(f, "w").write(s.replace(old, new))
        out = os.path.join(os.environ.get("SEED_OUT", "/tmp/seedout"), S["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True, check=True).stdout
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(S["demo"].lstrip())
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = repository root\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": S["property"], "needs": S["needs"], "what_it_breaks": S["what_it_breaks"]}, open(out + "/meta.json", "w"), indent=1)
        a, b = sh(["bash", out + "/demo.sh"], clean), sh(["bash", out + "/demo.sh"], w)
        print(S["id"], "demo clean", a.returncode, "patched", b.returncode)
        if a.returncode != 0: print(a.stdout[-800:], a.stderr[-1500:])
        if b.returncode == 0: print("NOT DEMONSTRATED")
        if "--notest" not in sys.argv:
            r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "--run-optional-tests=montecarlo", "-n", "8", "--dist", "worksteal", "--doctest-modules", "--deselect", "test/test_inverse.py::test_KFAC_inverse_save_and_load_state_dict", "curvlinops", "test"] + S.get("pytest", []), w)
            fails = [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
            base = json.load(open("/opt/vp/BASELINE.json"))
            print("  tests:", r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:], "| failures", [f[:150] for f in fails[:6]])
        r = sh([PY, "run.py", S["property"]], "/verif", ) if False else subprocess.run([PY, "run.py", S["property"]], cwd="/verif", env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
        print("  check:", {0: "MISSED", 1: "caught"}.get(r.returncode, f"rc{r.returncode}"), [x for x in r.stdout.splitlines() if x.startswith("  ")][:2], flush=True)
    finally:
        shutil.rmtree(d)
main()
