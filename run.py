#!/opt/venv/bin/python
"""Run the checks:  run.py C01 [--tier thorough] | run.py --replay evidence/replay/x.json"""
import importlib
import json
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)


def setup():
    import symtorch  # noqa: F401
    from symtorch import nd

    nd.install()
    sys.path.insert(0, REPO)
    import curvlinops

    assert os.path.realpath(curvlinops.__file__).startswith(os.path.realpath(REPO) + os.sep), curvlinops.__file__


def configs_of(mod, tier):
    out, seen = [], set()
    for c in mod.configs(tier):
        name, sc, kw = c if len(c) == 3 else (*c, {})
        assert name not in seen, name
        seen.add(name)
        out.append((name, sc, kw))
    return out


def main(argv):
    args = [a for a in argv if not a.startswith("--")]
    if "--tier" in argv:
        os.environ["VERIF_TIER"] = argv[argv.index("--tier") + 1]
        args = [a for a in args if a != os.environ["VERIF_TIER"]]
    only = None
    if "--only" in argv:
        only = argv[argv.index("--only") + 1]
        args = [a for a in args if a != only]
    if "--selftest" in argv:
        setup()
        import symtorch.harness  # noqa: F401
        import z3

        print("z3", z3.get_version_string())
        return 0
    if "--replay" in argv:
        return replay(argv[argv.index("--replay") + 1])
    os.environ.setdefault("VERIF_TIER", "quick")
    setup()
    from symtorch import harness

    rc = 0
    for prop in args:
        mod = importlib.import_module(f"checks.{prop.lower()}")
        cfgs = configs_of(mod, harness.tier())
        if only:
            cfgs = [c for c in cfgs if only in c[0]]
        rc = max(
            rc,
            harness.run_check(prop, cfgs, mod.BOUNDS, mod.ASSUMPTIONS),
        )
    return rc


def replay(path):
    """Re-run a recorded counterexample on the real code."""
    rec = json.load(open(path))
    setup()
    from fractions import Fraction

    from symtorch import harness

    mod = importlib.import_module(f"checks.{rec['property'].lower()}")
    for name, sc, kw in configs_of(mod, "thorough") + configs_of(mod, "quick"):
        if name == rec["config"]:
            val = {}
            for k, v in rec["valuation"].items():
                try:
                    val[k] = Fraction(v)
                except ValueError:
                    val[k] = float(v)
            forced = {k: v for k, v in val.items() if k.startswith("draw")}
            env, exc = harness.run_real(sc, val, rec["choices"], rec["salt"], forced)
            bad = harness.check_real_claims(env, exc)
            for b in bad:
                print("violated:", *b)
            if exc is not None:
                print(exc._tb)
            return 1 if bad else 0
    print("configuration not found", file=sys.stderr)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
