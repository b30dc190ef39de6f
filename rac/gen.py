"""Input generators for the run-time contract checker."""

import ast
import glob
import itertools

import numpy as np


def literals(repo="/repo"):
    """ints, floats and strings occurring in the current sources: narrow
    triggers compare against literals, so inputs are biased towards them"""
    ints, floats, strs = set(), set(), set()
    for fn in glob.glob(repo + "/pytspl/**/*.py", recursive=True):
        try:
            tree = ast.parse(open(fn, encoding="utf-8").read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    for d in (-1, 0, 1):
                        ints.add(v + d)
                elif isinstance(v, float):
                    floats.add(v)
                elif isinstance(v, str) and len(v) < 20 and "\n" not in v:
                    strs.add(v)
    return dict(
        ints=sorted(i for i in ints if -5 <= i <= 60),
        floats=sorted(f for f in floats if abs(f) < 1e4),
        strs=sorted(strs),
    )


def small_int(rng, lits, lo, hi, p=0.3):
    pool = [i for i in lits["ints"] if lo <= i <= hi]
    if pool and rng.random() < p:
        return int(pool[rng.integers(len(pool))])
    return int(rng.integers(lo, hi + 1))


def pick_float(rng, lits, lo, hi, p=0.35):
    pool = [f for f in lits["floats"] + [float(i) for i in lits["ints"]] if lo <= f <= hi]
    if pool and rng.random() < p:
        return float(pool[rng.integers(len(pool))])
    return float(rng.uniform(lo, hi))


def pick_str(rng, lits, valid, p_bad=0.15):
    if rng.random() < p_bad:
        bad = [s for s in lits["strs"] + ["", "Gradient", "l1", "HARMONIC", "grad", "unknown"] if s not in valid]
        return bad[rng.integers(len(bad))]
    return valid[rng.integers(len(valid))]


SHAPES = ("random", "random", "random", "dense", "tree", "forest", "cycle",
          "triangle", "complete", "single", "bipartite", "two", "fan", "paper",
          "grid", "big")


def graph(rng, lits, shape=None, nmax=8):
    """undirected edge list (pairs u<v) on n nodes"""
    shape = shape or SHAPES[rng.integers(len(SHAPES))]
    n = small_int(rng, lits, 3, nmax)
    if shape == "single":
        return 2, [(0, 1)]
    if shape == "triangle":
        return 3, [(0, 1), (0, 2), (1, 2)]
    if shape == "paper":
        return 7, [(0, 1), (0, 2), (0, 3), (1, 2), (2, 3), (1, 4), (3, 5), (4, 5), (4, 6), (5, 6)]
    if shape == "complete":
        n = min(n, 7)
        return n, list(itertools.combinations(range(n), 2))
    if shape == "cycle":
        return n, [tuple(sorted((i, (i + 1) % n))) for i in range(n)]
    if shape == "tree":
        return n, [(int(rng.integers(0, i)), i) for i in range(1, n)]
    if shape == "forest":
        return n + 1, [(int(rng.integers(0, i)), i) for i in range(1, n) if rng.random() < 0.7] or [(0, 1)]
    if shape == "fan":
        return n, [(0, i) for i in range(1, n)] + [(i, i + 1) for i in range(1, n - 1)]
    if shape == "bipartite":
        k = n // 2
        return n, [(i, j) for i in range(k) for j in range(k, n) if rng.random() < 0.8] or [(0, n - 1)]
    if shape == "two":
        return 6, [(0, 1), (0, 2), (1, 2), (3, 4), (3, 5), (4, 5)]
    if shape == "grid":
        w = int(rng.integers(2, 5))
        es = []
        for x in range(w):
            for y in range(w):
                if x + 1 < w:
                    es.append((x * w + y, (x + 1) * w + y))
                if y + 1 < w:
                    es.append((x * w + y, x * w + y + 1))
                if x + 1 < w and y + 1 < w and rng.random() < 0.6:
                    es.append((x * w + y, (x + 1) * w + y + 1))
        return w * w, es
    if shape == "big":
        n = int(rng.integers(10, 22))
        p = 0.3
    else:
        p = 0.75 if shape == "dense" else float(rng.uniform(0.25, 0.7))
    es = [e for e in itertools.combinations(range(n), 2) if rng.random() < p]
    return n, es or [(0, n - 1)]


def cliques(edges):
    und = {frozenset(e) for e in edges}
    vs = sorted({x for e in edges for x in e})
    return [t for t in itertools.combinations(vs, 3)
            if all(frozenset(p) in und for p in itertools.combinations(t, 2))]


def parts(rng, lits, shape=None, nmax=8, orient=None, order=None, tri=None, want=None):
    """(nodes, edges, triangles) of a random valid complex"""
    n, es = graph(rng, lits, shape, nmax)
    if want is not None:
        n, es = want
    orient = orient or ("low", "mixed", "mixed", "high")[rng.integers(4)]
    order = order or ("sorted", "shuffled")[rng.integers(2)]
    tri = tri or ("all", "all", "some", "none")[rng.integers(4)]
    es = [tuple(map(int, e)) for e in es]
    if orient == "high":
        es = [(b, a) for a, b in es]
    elif orient == "mixed":
        es = [e if rng.random() < 0.5 else (e[1], e[0]) for e in es]
    if order == "shuffled":
        es = [es[i] for i in rng.permutation(len(es))]
    ts = cliques(es)
    if tri == "none":
        ts = []
    elif tri == "some":
        ts = [t for t in ts if rng.random() < 0.5]
    vo = rng.integers(3)
    if vo == 1:
        ts = [tuple(int(x) for x in rng.permutation(t)) for t in ts]
        ts = [ts[i] for i in rng.permutation(len(ts))]
    if rng.random() < 0.5:
        ts = [list(t) for t in ts]
    return list(range(n)), es, ts


def build(rng, lits, **kw):
    from pytspl.simplicial_complex import SimplicialComplex

    nodes, es, ts = parts(rng, lits, **kw)
    nf = {v: {"name": f"v{v}"} for v in nodes} if rng.random() < 0.5 else {}
    ef = {e: {"distance": float(rng.uniform(0, 3)), "w": float(k)} for k, e in enumerate(es)} if rng.random() < 0.5 else {}
    return SimplicialComplex(nodes=nodes, edges=es, triangles=ts, node_features=nf, edge_features=ef)


def flow(rng, n, kind=None):
    kind = kind or ("normal", "normal", "int", "sparse", "big", "small", "ones", "neg")[rng.integers(8)]
    if kind == "int":
        return rng.integers(-5, 6, n).astype(float)
    if kind == "sparse":
        return rng.standard_normal(n) * (rng.random(n) < 0.5)
    if kind == "big":
        return rng.standard_normal(n) * 1e3
    if kind == "small":
        return rng.standard_normal(n) * 1e-2
    if kind == "ones":
        return np.ones(n)
    if kind == "neg":
        return -np.abs(rng.standard_normal(n)) - 0.1
    return rng.standard_normal(n)
