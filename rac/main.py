"""Run-time contract checker: python rac/main.py PROP --seconds S --seed N

Prints one JSON document.  ``--case`` re-runs a single case (replay).
"""

import argparse
import faulthandler
import hashlib
import json
import os
import sys
import time
import traceback
import warnings

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("PYTSPL_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")

import contracts.complex, contracts.filters, contracts.gp, contracts.io, contracts.plot, contracts.trend  # noqa: E402,E401,F401
from rac import gen  # noqa: E402
from rac.native import Abandon, Context, Violation  # noqa: E402


def pick(scens, i):
    """deterministic weighted round robin"""
    order = []
    for k in range(60):
        for fn, w in scens:
            if int((k + 1) * w) > int(k * w):
                order.append(fn)
    return order[i % len(order)]


def run_case(prop, seed, i, lits, scens):
    rng = np.random.default_rng([seed, i, int(prop[1:])])
    ctx = Context(rng, lits, prop)
    fn = pick(scens, i)
    np.random.seed(int(rng.integers(1 << 31)))
    import io
    import contextlib
    err = None
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            fn(ctx)
    except Violation as e:
        err = str(e)
    except Abandon:
        pass
    except Exception as e:  # noqa
        tb = traceback.extract_tb(sys.exc_info()[2])
        inside = [f for f in tb if f.filename.startswith(REPO + "/pytspl")]
        if not inside:
            raise
        err = f"unexpected exception in {inside[-1].filename}:{inside[-1].lineno}: {type(e).__name__}: {e}"
    return ctx, fn.__name__, err


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seconds", type=float, default=20)
    ap.add_argument("--cases", type=int, default=10**9)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--case", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--dataset", help="C19: check one shipped dataset completely")
    ap.add_argument("--step", type=int, default=1)
    ap.add_argument("--mark", default=os.devnull, help="file holding the number of the running case")
    ap.add_argument("--alone", action="store_true", help="one pickled call from stdin; exit 3 if it breaks its contract")
    a = ap.parse_args()
    if a.alone:
        from rac.native import run_alone
        import contextlib
        with contextlib.redirect_stdout(sys.stderr):
            ok = run_alone(sys.stdin.buffer.read())
        sys.exit(0 if ok else 3)
    from rac import scen_core, scen_gp, scen_io  # noqa: F401
    scens = scen_core.SCENARIOS.get(a.prop, [])
    lits = gen.literals(REPO)
    if a.dataset:
        scen_core.SCENARIOS["C19"] = [(lambda ctx: scen_io.check_dataset(ctx, a.dataset), 1)]
        scens = scen_core.SCENARIOS["C19"]
        a.case = 0
    t0 = time.time()
    res = dict(prop=a.prop, seed=a.seed, evaluations=0, skips=0, cases=0, distinct=0, samples=[], violation=None)
    sigs = set()
    i = a.start if a.case is None else a.case
    while True:
        if not a.dataset:
            with open(a.mark, "w") as f:
                f.write(str(i))
            faulthandler.dump_traceback_later(90 if a.prop == 'C23' else 60, exit=True)
        ctx, name, err = run_case(a.prop, a.seed, i, lits, scens)
        faulthandler.cancel_dump_traceback_later()
        res["cases"] += 1
        res["evaluations"] += ctx.calls
        res["skips"] += ctx.skips
        sigs.add(hashlib.sha1(repr((name, ctx.sig)).encode()).hexdigest())
        if len(res["samples"]) < 4 and ctx.log:
            res["samples"].append(f"[{name} case {i}] " + " ; ".join(ctx.log)[:700])
        if err:
            res["violation"] = dict(case=i, scenario=name, what=err, history=ctx.log[-25:])
            break
        i += a.step
        if a.case is not None or res["cases"] >= a.cases or time.time() - t0 > a.seconds:
            break
    res["distinct"] = len(sigs)
    res["seconds"] = round(time.time() - t0, 2)
    print(json.dumps(res))


if __name__ == "__main__":
    main()
