#!/opt/venv/bin/python
"""check.py C05 [--replay FILE]: run the check of one property against /repo."""
import os
import sys
import time

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/tmp/pyvc-mpl")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("NUMBA_NUM_THREADS", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)


def replay(pid, units, path):
    """Evaluate the violated contract again on the failing input of a replay file, on the current source."""
    import json
    d = json.load(open(path))
    if "failing" not in d:
        print("no failing input in the replay file; failed obligations:")
        for o in d.get("failed_obligations", []):
            print(f"  [{o['status']}] {o['name']}: {o['detail']}")
        return 1
    u = [x for x in units if x.name == d["unit"]][0]
    m = u._concrete.check(d["failing"]["input"])
    print(f"{pid} {u.name}\n  input    {json.dumps(d['failing']['input'])[:2000]}\n  recorded {d['failing']['observed']}\n  now      {m or 'contract holds'}")
    return 1 if m else 0


def main():
    import importlib
    import json
    import warnings
    warnings.filterwarnings("ignore")
    t0 = time.time()
    pid = sys.argv[1]
    from pyvc import core
    mod = importlib.import_module("contracts." + pid.lower())
    units = mod.units()
    if "--replay" in sys.argv:
        return replay(pid, units, sys.argv[sys.argv.index("--replay") + 1])
    if "--unit" in sys.argv:
        want = sys.argv[sys.argv.index("--unit") + 1]
        units = [u for u in units if want in u.name]
    if "--serial" in sys.argv:
        results = [json.loads(json.dumps(u.run(), default=str)) for u in units]
    else:
        results = core.run_units(units)
    rc = core.finish(pid, results, t0, f"/opt/venv/bin/python /verif/check.py {pid}", getattr(mod, "ASSUMPTIONS", ()))
    if "-v" in sys.argv:
        for r in results:
            print(r["name"], round(r["wall"], 2), len(r["obls"]), r["evaluations"], r["paths"])
    return rc


if __name__ == "__main__":
    sys.exit(main())
