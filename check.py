#!/usr/bin/env python3
"""Entry point of every check:  python3 check.py <property>

1. the deductive verifier (/verif/ded) generates the obligations of the
   contracts of the property from /repo's current source and discharges them;
2. the run-time contract checker (/verif/rac) evaluates the same contracts on
   the real functions: it looks for a failing input for every obligation that
   was not discharged, and is the (bounded) stand-in for contracts or clauses
   outside the verifier's reach.

Exit 0 / 1 (with a VIOLATION line) / 2 (error of the check).
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYTSPL_REPO", "/repo")
PY_RAC = "/opt/venv/bin/python"
PY_DED = "/opt/veriftools/pyvenv/bin/python"
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
QUICK_SECONDS = {"C15": 45, "C24": 45, "C22": 45, "C19": 50}
SECONDS = float(os.environ.get("RAC_SECONDS") or (QUICK_SECONDS.get(PROP, 35) if TIER == "quick" else 420))
SHARDS = 6
DATASETS = {"quick": [], "thorough": ["goldcoast", "winnipeg", "barcelona", "chicago-regional"]}
T0 = time.time()
EVID = os.path.join(HERE, "evidence")
os.makedirs(EVID, exist_ok=True)
ENV = dict(os.environ, PYTSPL_REPO=REPO, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def rac_cmd(*extra):
    return [PY_RAC, os.path.join(HERE, "rac", "main.py"), PROP, "--seed", str(SEED), *map(str, extra)]


def start(cmd):
    return subprocess.Popen(cmd, env=ENV, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def finish(p, timeout):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "timeout"
    try:
        return json.loads(out.strip().splitlines()[-1]), ""
    except (IndexError, ValueError):
        return None, (err or out)[-3000:]


def findings():
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            if line.startswith("finding: property=" + PROP + " "):
                key, what = line.split("key=", 1)[1].split("::", 1)
                out.append((key.strip(), what.strip()))
    return out


def rac_round(seconds, first=0):
    """run the shards; returns (results, first violation + its replay command, errors)"""
    tmp = tempfile.mkdtemp()
    procs = [(k, start(rac_cmd("--seconds", seconds, "--start", first + k, "--step", SHARDS, "--mark", f"{tmp}/{k}")))
             for k in range(SHARDS)]
    results, errors, bad, stuck = [], [], [], []
    for k, p in procs:
        r, e = finish(p, seconds + 120)
        if r is None:
            if e == "timeout" or "Timeout (0:01:" in e:
                try:
                    stuck.append((k, int(open(f"{tmp}/{k}").read()), e))
                except (OSError, ValueError):
                    errors.append(e)
            else:
                errors.append(e)
            continue
        results.append(r)
        if r["violation"]:
            bad.append((k, r))
    confirmed, flaky = None, []
    for k, r in sorted(bad, key=lambda t: t[1]["violation"]["case"]):
        v = r["violation"]
        for extra in (["--case", v["case"]],
                      ["--start", first + k, "--step", SHARDS, "--cases", r["cases"], "--seconds", seconds * 4 + 100]):
            again, e = finish(start(rac_cmd(*extra)), 600)
            if again and again["violation"]:
                confirmed = (v, rac_cmd(*extra), again["violation"])
                break
        if confirmed:
            break
        flaky.append(v)
    for k, case, e in stuck:
        # a case that did not come to an end: does it hang again on its own?
        again, e2 = finish(start(rac_cmd("--case", case)), 90)
        v = dict(case=case, what=f"case {case} does not terminate:\n" + e[-1500:])
        if again is None and ("Timeout (0:01:" in e2 or e2 == "timeout"):
            confirmed = confirmed or (v, rac_cmd("--case", case), v)
        elif again is None:
            errors.append(e2)
        else:
            flaky.append(v)
            if again["violation"]:
                confirmed = confirmed or (again["violation"], rac_cmd("--case", case), again["violation"])
    shutil.rmtree(tmp)
    return results, confirmed, errors, flaky


def datasets():
    """C19: complete check of shipped datasets, one process each"""
    if PROP != "C19":
        return [], None, []
    known = dict(findings())
    todo = ["lastfm-1k-artist"] + DATASETS[TIER]
    lines, confirmed, errs = [], None, []
    for name in todo:
        r, e = finish(start(rac_cmd("--dataset", name)), 800)
        if r is None:
            errs.append(e)
            continue
        v = r["violation"]
        key = "dataset:" + name
        if v and key in known and "FileNotFoundError" in v["what"] and v["what"].endswith("lastfm-dataset-1K/B2t-artist.csv'"):
            lines.append(f"KNOWN-FINDING: property={PROP} {known[key]}")
        elif v:
            confirmed = confirmed or (v, rac_cmd("--dataset", name), v)
    return lines, confirmed, errs


def deductive():
    main = os.path.join(HERE, "ded", "main.py")
    if not os.path.exists(main):
        return None, None
    return start([PY_DED, main, PROP, "--tier", TIER]), None


def main():
    ded_p, _ = deductive()
    results, bad, errors, flaky = rac_round(SECONDS)
    lines, ds_bad, ds_err = datasets()
    errors += ds_err
    bad = bad or ds_bad
    ded, ded_err = finish(ded_p, 620 if TIER == "quick" else 780) if ded_p is not None else (dict(obligations=[], functions=[], assumptions=[]), "")
    if ded is None:
        # the verifier gave no answer: nothing is proved on this run
        print("note: the verifier stopped:", ded_err[-600:])
        ded = dict(obligations=[], functions=[], assumptions=[], crashed=ded_err[-600:])
    obs = ded["obligations"]
    by = lambda s: [o for o in obs if o["status"] == s]
    refuted, undecided = by("failed"), by("undecided") + by("unknown")
    if not bad and (refuted or len(ded.get("outside", [])) > ded.get("expected_outside", 0)):
        # look harder for a failing input of the obligations that fail now
        r2, bad, e2, f2 = rac_round(SECONDS * 1.5, first=1_000_000)
        results += r2
        errors += e2
        flaky += f2

    evals = sum(r["evaluations"] for r in results)
    distinct = sum(r["distinct"] for r in results)
    status = 0
    for l in lines:
        print(l)
    replay = os.path.join(EVID, f"replay-{PROP}.json")
    if os.path.exists(replay):
        os.remove(replay)
    if bad:
        v, cmd, again = bad
        with open(replay, "w") as f:
            json.dump(dict(property=PROP, replay_cmd=" ".join(cmd), violation=v, failed_obligations=refuted + undecided), f, indent=1)
        print("failing input:", again["what"][:1500])
        for o in (refuted + undecided)[:6]:
            print("failed obligation:", o["id"], "-", o.get("detail", "")[:300])
        print(f"VIOLATION property={PROP} replay={replay}")
        status = 1
    elif refuted:
        with open(replay, "w") as f:
            json.dump(dict(property=PROP, failed_obligations=refuted, note="no failing input found by the run-time checker"), f, indent=1)
        for o in refuted[:6]:
            print("failed obligation:", o["id"], "-", o.get("detail", "")[:600])
        print(f"VIOLATION property={PROP} replay={replay} no-failing-input-found")
        status = 1
    elif not results or evals == 0 or (errors and len(errors) >= SHARDS):
        print("ERROR: the run-time checker gave no answer:", (errors or ["no evaluation"])[0][-3000:])
        status = 2
    elif errors:
        print("ERROR: a shard of the run-time checker crashed:", errors[0][-3000:])
        status = 2
    write_evidence(results, ded, evals, distinct, errors, flaky, 1 if status == 1 else 0)
    disc = len(by("discharged"))
    print(f"{PROP}: {disc}/{len(obs)} obligations discharged, {evals} contract evaluations on "
          f"{sum(r['cases'] for r in results)} cases, {time.time() - T0:.1f} s, exit {status}")
    return status


def write_evidence(results, ded, evals, distinct, errors, flaky, violations):
    obs = ded["obligations"]
    level = level_of(PROP)
    samples = [s for r in results for s in r["samples"][:1]][:4] or ["none"]
    cov = dict(
        evaluations=evals,
        distinct_nontrivial=distinct,
        rule="seeded scenarios call the real functions under their contracts; a case counts once per distinct "
             "(scenario, generated structure) and only if it was run to a verdict; boundary values are taken from "
             "literals of the source",
        samples=samples,
        cases=sum(r["cases"] for r in results),
        calls_outside_contract=sum(r["skips"] for r in results),
        bounded_stand_in="run-time evaluation of the contracts: complexes up to about 9 nodes, sizes as generated; never counted as proved",
    )
    if obs:
        cov.update(
            obligations=len(obs),
            discharged=sum(o["status"] == "discharged" for o in obs),
            not_discharged=[dict(id=o["id"], status=o["status"], why=o.get("detail", "")[:400]) for o in obs if o["status"] != "discharged"],
            checker_cmd=f"{PY_DED} {HERE}/ded/main.py {PROP}",
            trusted_base=ded.get("assumptions", []),
            functions=ded.get("functions", []),
            backends=ded.get("backends", {}),
            solver_seconds=ded.get("seconds", 0),
            obligation_list=[o["id"] for o in obs],
            outside_reach=ded.get("outside", []),
            vacuity=ded.get("vacuity", {}),
        )
    else:
        cov.update(obligations=0, discharged=0, checker_cmd="none", trusted_base=[])
    if level == "other":
        cov["explanation"] = "see DESIGN.md"
    if flaky:
        cov["unreproduced"] = [v["what"][:300] for v in flaky]
    ev = dict(
        property=PROP, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
        assumptions=ded.get("assumptions", []) + [
            "floating point arithmetic is compared with tolerances by the run-time checker and treated as real arithmetic by the verifier"],
        wall_s=round(time.time() - T0, 2), violations=violations,
    )
    with open(os.path.join(EVID, f"{PROP}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def level_of(prop):
    with open(os.path.join(HERE, "MANIFEST.json")) as f:
        for c in json.load(f)["checks"]:
            if c["property"] == prop:
                return c["level"]
    return "exploration"


sys.exit(main())
