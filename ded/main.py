"""python3-vt ded/main.py PROP [--tier T] [--only substring] [-v]"""

import argparse
import importlib
import json
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def contracts_of(prop):
    """contract table without importing numpy code: names only"""
    import ast
    out = []
    for fn in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        if not fn.endswith(".py"):
            continue
        tree = ast.parse(open(os.path.join(HERE, "contracts", fn)).read())
        consts = {}
        for st in tree.body:
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant) and isinstance(st.targets[0], ast.Name):
                consts[st.targets[0].id] = st.value.value
            if isinstance(st, ast.FunctionDef):
                for d in st.decorator_list:
                    if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "lemma":
                        ps = ast.literal_eval(d.args[0])
                        if prop in ps or prop == "all":
                            out.append(Con("lemma", st.name, ps, "contracts." + fn[:-3], st.name))
                    if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "contract":
                        m, q, ps = d.args
                        mod = eval(compile(ast.Expression(m), "c", "eval"), dict(consts))
                        ps = ast.literal_eval(ps)
                        if prop in ps or prop == "all":
                            out.append(Con(mod, q.value, ps, "contracts." + fn[:-3], st.name))
    return out


class Con:
    def __init__(self, module, qualname, props, cmod, cname):
        self.module, self.qualname, self.props = module, qualname, props
        self.cmod, self.cname = cmod, cname

    @property
    def target(self):
        return f"{self.module}:{self.qualname}"


class TimeUp(BaseException):
    pass


def time_up(*_):
    # again a moment later, in case a clean-up handler swallowed this one
    signal.setitimer(signal.ITIMER_REAL, 2)
    raise TimeUp


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--baseline", action="store_true", help="print the baseline entry of the property")
    a = ap.parse_args()
    t0 = time.time()
    from ded import solver, theory, vc
    v = vc.VC()
    obl, outside, functions, vac, base = [], [], [], {}, {}
    try:
        known = json.load(open(os.path.join(HERE, "ded", "baseline.json"))).get(a.prop, {})
    except FileNotFoundError:
        known = {}
    signal.signal(signal.SIGALRM, time_up)
    end = t0 + (540 if a.tier == "quick" else 700)
    for con in contracts_of(a.prop):
        if a.only not in con.target:
            continue
        try:
            signal.setitimer(signal.ITIMER_REAL, max(min(end - time.time(), 240 if a.tier == "quick" else 400), 1))
            if con.module == "lemma":
                o, cov, sec = v.prove_lemma(con, 150 if a.tier == "quick" else 400)
            else:
                o, cov, sec = v.prove(con, 150 if a.tier == "quick" else 400, frame_only=a.prop == "C23")
        except vc.Unsupported as e:
            o, cov, sec = {"supported subset": ["outside", str(e)]}, {}, 0
        except TimeUp:
            o, cov, sec = {"supported subset": ["outside", "out of time"]}, {}, 0
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if "supported subset" in o:
            outside.append(f"{con.target}: {o['supported subset'][1][:300]}")
        functions.append(con.target)
        vac[con.target] = cov
        base[con.target] = {k: st for k, (st, d) in o.items() if st != "discharged"}
        for k, (st, d) in o.items():
            if st == "outside":
                continue
            if st == "undecided" and con.target in known and k not in known[con.target] and "supported subset" not in known[con.target]:
                # every obligation of this function is discharged on the
                # unchanged code: the code no longer meets the contract
                st = "failed"
            obl.append(dict(id=f"{con.qualname}/{k}", status=st, detail=d[:1500]))
        if a.v:
            print(f"{con.target}  {sec:.1f}s {cov}")
            for k, (st, d) in o.items():
                print(f"    {st:11} {k}" + (f"  -- {d[:1800]}" if st != "discharged" else ""))
    out = dict(
        obligations=obl, functions=functions, outside=outside,
        expected_outside=sum("supported subset" in x for x in known.values()), vacuity=vac,
        seconds=round(time.time() - t0, 1),
        backends={"normal forms + z3 " + solver.z3.get_version_string(): solver.STATS},
        assumptions=sorted(theory.USED) + sorted(v.I.used_lib),
    )
    if a.baseline:
        print(json.dumps({a.prop: base}))
    elif not a.v:
        print(json.dumps(out))
    else:
        from collections import Counter
        print(Counter(x["status"] for x in obl), "outside", len(outside), out["seconds"], solver.STATS)


if __name__ == "__main__":
    main()
