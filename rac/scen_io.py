"""Scenarios for readers, loaders, builder, generator, trend filter, plots."""

import contextlib
import io
import os
import shutil
import tempfile

import numpy as np

from contracts import spec
from rac import gen
from rac.native import Violation, eq, freeze, plain, same_frozen
from rac.scen_core import cx, fl, pair_of_complexes, scenario


@contextlib.contextmanager
def tmpdir():
    d = tempfile.mkdtemp(prefix="rac-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def silent():
    return contextlib.redirect_stdout(io.StringIO())


# ------------------------------------------------------------------ C15
@scenario("C15")
def c15_linear(ctx):
    from pytspl.filters.simplicial_trend_filter import SimplicialTrendFilter
    R = ctx.rng
    for sc in pair_of_complexes(ctx):
        d = SimplicialTrendFilter(sc)
        for _ in range(4):
            comp = ("divergence", "curl")[R.integers(2)]
            if comp == "curl" and not len(sc.triangles):
                comp = "divergence"
            ctx.call(d.get_shift_operator, comp, int(R.integers(0, 8)))
        ctx.call(d.get_shift_operator, "divergence", -int(R.integers(1, 4)))
        f = fl(ctx, sc)
        snr = np.array([gen.pick_float(R, ctx.lits, -20, 30) for _ in range(int(R.integers(1, 4)))])
        ctx.call(d.get_power_noise, f, snr)
        if len(sc.edges) < 2:
            continue
        comp = gen.pick_str(R, ctx.lits, ("divergence", "curl"), 0.1)
        if comp == "curl" and not len(sc.triangles):
            comp = "divergence"
        kw = {} if R.random() < 0.3 else dict(mu=gen.pick_float(R, ctx.lits, 0.0, 4.0))
        with silent(), np.errstate(all="ignore"):
            ctx.call(d.denoising_l2_regularizer, f, comp, int(R.integers(1, 4)), snr, **kw)


@scenario("C15")
def c15_l1(ctx):
    from pytspl.filters.simplicial_trend_filter import SimplicialTrendFilter
    R = ctx.rng
    sc = cx(ctx, nmax=5, shape=("dense", "triangle", "complete", "fan", "paper")[R.integers(5)])
    if len(sc.edges) < 2:
        ctx.skips += 1
        return
    d = SimplicialTrendFilter(sc)
    f = fl(ctx, sc, ("normal", "int", "neg")[R.integers(3)])
    comp = ("divergence", "curl")[R.integers(2)] if len(sc.triangles) else "divergence"
    order = int(R.integers(0, 4))
    kw = dict(order=order, regularization=float(np.round(R.uniform(0, 1.5), 2)))
    with silent(), np.errstate(all="ignore"):
        if R.random() < 0.5:
            ctx.call(d.denoising_l1_regularizer, f, comp, int(R.integers(1, 3)), np.array([float(R.uniform(-10, 10)) for _ in range(int(R.integers(1, 3)))]), **kw)
        else:
            ctx.call(d.interpolation_l1_regularizer, f, comp, [float(R.uniform(0.1, 0.9)) for _ in range(int(R.integers(1, 3)))], int(R.integers(1, 3)), **kw)
        for bad in ("div", "gradient"):
            ctx.call(d.denoising_l1_regularizer, f, bad, 1, np.array([1.0]))
            ctx.call(d.interpolation_l1_regularizer, f, bad, [0.5], 1)


# ------------------------------------------------------------------ C16
def table(ctx, dup=True, base=None):
    """edge rows of a table: (rows, zero_based); endpoints as written"""
    R = ctx.rng
    n, es = gen.graph(R, ctx.lits)
    rows = [e if R.random() < 0.5 else (e[1], e[0]) for e in es]
    if dup:
        for e in list(rows):
            q = R.random()
            if q < 0.35:
                rows.append((e[1], e[0]))
            elif q < 0.5:
                rows.append(e)
    rows = [rows[i] for i in R.permutation(len(rows))]
    off = 0 if R.random() < 0.5 else 1
    if base is not None:
        off = base
    extra = 0 if R.random() < 0.6 else int(R.integers(1, 6))
    rows = [(int(a) + off + extra, int(b) + off + extra) for a, b in rows]
    return rows, off == 0


def expected_edges(rows, zero):
    o = 0 if zero else 1
    seen, edges, first = set(), [], {}
    for i, (a, b) in enumerate(rows):
        e = (a - o, b - o)
        first.setdefault(e, i)
        if frozenset(e) in seen:
            continue
        seen.add(frozenset(e))
        edges.append(e)
    edges.sort()
    nodes = list(range(max(max(e) for e in edges) + 1))
    return nodes, edges, first


def value(ctx, k):
    R = ctx.rng
    return [lambda: int(R.integers(-5, 50)), lambda: round(float(R.uniform(-3, 30)), 3), lambda: "t" + str(int(R.integers(9)))][k]()


def same_features(got, want):
    if not isinstance(got, dict) or set(got) != set(want):
        return False
    return all(set(got[e]) == set(want[e]) and all(got[e][k] == want[e][k] for k in want[e]) for e in want)


@scenario("C16")
def c16(ctx):
    from pytspl.io import network_reader as nr
    R = ctx.rng
    rows, zero = table(ctx)
    nodes, edges, first = expected_edges(rows, zero)
    ctx.sig.append(tuple(rows))
    cols = [f"c{i}" for i in range(int(R.integers(0, 4)))]
    kinds = [int(R.integers(3)) for _ in cols]
    data = [[value(ctx, k) for k in kinds] for _ in rows]
    src, dst = ("Source", "Target") if R.random() < 0.5 else ("init_node", "term_node")
    order = [int(x) for x in R.permutation(len(cols) + 2)]
    names = [src, dst] + cols
    full = [[a, b] + d for (a, b), d in zip(rows, data)]
    delim = (",", " ", "\t", ";")[R.integers(4)]
    with tmpdir() as d:
        fn = os.path.join(d, "edges.csv")
        with open(fn, "w") as f:
            f.write(delim.join(names[i] for i in order) + "\n")
            for r in full:
                f.write(delim.join(str(r[i]) for i in order) + "\n")
        kw = {}
        sel = [c for c in cols if R.random() < 0.7]
        if R.random() < 0.75:
            kw["feature_cols"] = list(sel)
        else:
            sel = []
        if not (zero and R.random() < 0.5):
            kw["start_index_zero"] = zero
        ctx.log.append(f"read_csv of {open(fn).read()!r} with {kw}")
        try:
            b = nr.read_csv(fn, delim, src, dst, **kw)
        except Exception as e:  # noqa
            ctx.fail("read_csv: unexpected exception", repr(e))
        ctx.check("read_csv: nodes", [int(x) for x in b.nodes] == nodes, f"{b.nodes} expected {nodes}")
        ctx.check("read_csv: edges", [tuple(map(int, e)) for e in b.edges] == edges, f"{b.edges} expected {edges}")
        want = {e: {c: data[first[e]][cols.index(c)] for c in sel} for e in edges} if sel else {}
        ctx.check("read_csv: features of the row describing the edge", same_features(b.edge_features, want), f"{b.edge_features} expected {want}")
        ctx.check("read_csv: node features", b.node_features == {}, f"{b.node_features}")
        small = len(rows) <= 12
        if small:
            # under contract
            ctx.call(nr.read_csv, fn, delim, src, dst, **kw)
        # the builder is usable
        with silent():
            sc = b.to_simplicial_complex()
        ctx.check("complex has the edges", [tuple(map(int, e)) for e in sc.edges] == edges, "")
        # TNTP
        fn = os.path.join(d, "net.tntp")
        skip = int(R.integers(0, 10))
        with open(fn, "w") as f:
            for i in range(skip):
                f.write(f"<META {i}> x\n")
            pad = " " if R.random() < 0.5 else ""
            f.write("\t".join(["~" + pad] + [names[i] + pad for i in order] + [";"]) + "\n")
            for r in full:
                f.write("\t".join([""] + [str(r[i]) for i in order] + [";"]) + "\n")
        ctx.log.append(f"read_tntp of {open(fn).read()!r} start_index_zero={zero}")
        try:
            b = nr.read_tntp(fn, src, dst, skip, "\t", start_index_zero=zero)
        except Exception as e:  # noqa
            ctx.fail("read_tntp: unexpected exception", repr(e))
        ctx.check("read_tntp: nodes", [int(x) for x in b.nodes] == nodes, f"{b.nodes} expected {nodes}")
        ctx.check("read_tntp: edges", [tuple(map(int, e)) for e in b.edges] == edges, f"{b.edges} expected {edges}")
        if small:
            ctx.call(nr.read_tntp, fn, src, dst, skip, "\t", start_index_zero=zero)
        want = {e: {c: data[first[e]][cols.index(c)] for c in cols} for e in edges} if cols else {}
        ctx.check("read_tntp: features of the row describing the edge", same_features(b.edge_features, want), f"{b.edge_features} expected {want}")
    ctx.calls += 2


@scenario("C16")
def c16_coordinates(ctx):
    from pytspl.io import network_reader as nr
    R = ctx.rng
    n = int(R.integers(1, 12))
    zero = bool(R.random() < 0.5)
    ids = [int(x) for x in R.permutation(n)]
    pts = {i: (round(float(R.uniform(-100, 100)), 4), round(float(R.uniform(-100, 100)), 4)) for i in ids}
    delim = ("\t", ",", " ")[R.integers(3)]
    cols = ["node", "X", "Y", "z"]
    order = [int(x) for x in R.permutation(4)]
    pad = " " if (R.random() < 0.3 and delim != " ") else ""
    with tmpdir() as d:
        fn = os.path.join(d, "n.tntp")
        with open(fn, "w") as f:
            f.write(delim.join(cols[i] + pad for i in order) + "\n")
            for k in ids:
                r = [k + (0 if zero else 1), pts[k][0], pts[k][1], 7]
                f.write(delim.join(str(r[i]) for i in order) + "\n")
        ctx.sig.append((n, zero, delim, tuple(order)))
        ctx.log.append(f"read_coordinates of {open(fn).read()!r} start_index_zero={zero}")
        try:
            got = nr.read_coordinates(fn, "node", "X", "Y", delim, start_index_zero=zero)
        except Exception as e:  # noqa
            ctx.fail("read_coordinates: unexpected exception", repr(e))
        ok = set(map(int, got)) == set(pts) and all(eq(list(got[k]), list(pts[k]), 1e-9) for k in pts)
        ctx.check("coordinates: every node its own point", ok, f"{got} expected {pts}")
        ctx.call(nr.read_coordinates, fn, "node", "X", "Y", delim, start_index_zero=zero)
        ctx.call(nr.read_coordinates, fn + "x", "node", "X", "Y", delim)
        ctx.check("coordinates: missing file", nr.read_coordinates(fn + "x", "node", "X", "Y", delim) is None)
        # flows
        fn = os.path.join(d, "flow.tntp")
        rows = [(int(R.integers(1, 9)), int(R.integers(1, 9)), round(float(R.uniform(-5, 900)), 3)) for _ in range(int(R.integers(1, 8)))]
        sep = ("\t", ",")[R.integers(2)]
        with open(fn, "w") as f:
            f.write(sep.join(["From ", "To ", "Volume "]) + "\n")
            for r in rows:
                f.write(sep.join(map(str, r)) + "\n")
        with silent():
            df = nr.read_flow(fn, sep=sep) if sep != "\t" or R.random() < 0.5 else nr.read_flow(fn)
            empty = nr.read_flow(fn + ".none")
            ctx.call(nr.read_flow, fn, sep=sep, header=("infer", None)[R.integers(2)])
            ctx.call(nr.read_flow, fn + ".none")
        ctx.check("flow table as stored", [tuple(x) for x in df.values.tolist()] == rows, f"{df.values.tolist()} expected {rows}")
        ctx.check("flow columns as stored", list(df.columns) == ["From ", "To ", "Volume "], f"{list(df.columns)}")
        ctx.check("missing flow table is empty", len(empty) == 0 and empty.empty)
        with silent():
            df = nr.read_flow(fn, sep=sep, header=None)
        ctx.check("flow table without header", len(df) == len(rows) + 1)
    ctx.calls += 2


# ------------------------------------------------------------------ C17
@scenario("C17")
def c17(ctx):
    from pytspl.io import network_reader as nr
    R = ctx.rng
    sc = cx(ctx, tri=("all", "some")[R.integers(2)], shape=("random", "dense", "triangle", "complete", "two", "fan", "paper", "grid", "big")[R.integers(9)])
    b1, b2 = spec.B1(sc), spec.oriented(sc)
    if b2.shape[1] == 0:
        ctx.skips += 1
        return
    # any orientation per triangle column, any row order
    b2 = b2 * np.where(R.random(b2.shape[1]) < 0.5, 1, -1)
    fmt = "%d" if R.random() < 0.6 else "%.1f"
    with tmpdir() as d:
        f1, f2 = os.path.join(d, "B1.csv"), os.path.join(d, "B2t.csv")
        np.savetxt(f1, b1, delimiter=",", fmt=fmt)
        np.savetxt(f2, b2.T, delimiter=",", fmt=fmt)
        ctx.log.append(f"read_B1_B2 of B1={b1.tolist()} B2t={b2.T.tolist()}")
        try:
            sb, tri = nr.read_B1_B2(f1, f2)
            tri2 = nr.read_B2(f2, np.array([tuple(e) for e in sc.edges]))
            r = sb.to_simplicial_complex(triangles=tri)
            if len(sc.edges) <= 40:
                ctx.call(nr.read_B1_B2, f1, f2)
                ctx.call(nr.read_B2, f2, np.array([tuple(e) for e in sc.edges]))
        except Violation:
            raise
        except Exception as e:  # noqa
            ctx.fail("read_B1_B2: unexpected exception", repr(e))
    edges = [tuple(map(int, e)) for e in sc.edges]
    want = [tuple(sorted(map(int, t))) for t in sc.triangles]
    ctx.check("edges in column order and direction", [tuple(map(int, e)) for e in sb.edges] == edges, f"{sb.edges} expected {edges}")
    ctx.check("triangles in file order", [tuple(map(int, t)) for t in tri] == want, f"{tri} expected {want}")
    ctx.check("read_B2 alone", [tuple(map(int, t)) for t in tri2] == want, f"{tri2} expected {want}")
    ctx.check("nodes are the rows", [int(x) for x in sb.nodes] == list(range(b1.shape[0])), f"{sb.nodes} for {b1.shape[0]} rows")
    ctx.check("node-edge matrix equals the file", eq(r.incidence_matrix(1), b1), f"{r.incidence_matrix(1).toarray().tolist()}")
    g = r.incidence_matrix(2).toarray()
    ctx.check("edge-triangle matrix equals the file up to sign per triangle",
              g.shape == b2.shape and all(np.array_equal(g[:, j], b2[:, j]) or np.array_equal(g[:, j], -b2[:, j]) for j in range(g.shape[1])),
              f"{g.tolist()} vs {b2.tolist()}")
    ctx.calls += 3


# ------------------------------------------------------------------ C18
@scenario("C18")
def c18(ctx):
    from pytspl.simplicial_complex.scbuilder import SCBuilder
    R = ctx.rng
    nodes, es, _ = gen.parts(R, ctx.lits)
    ctx.sig.append(tuple(es))
    eps = gen.pick_float(R, ctx.lits, 0.0, 3.0)
    col = ("distance", "Distance", "len")[R.integers(3)]
    def dist():
        q = R.random()
        if q < 0.08:
            return None
        if q < 0.16:
            return 0.0
        if q < 0.3:
            return float(eps)
        if q < 0.36:
            return 0
        return float(R.uniform(0, 2 * eps + 0.5))
    ef = {e: {col: dist(), "other": float(R.uniform(0, 9))} for e in es}
    if R.random() < 0.3:
        ef = {e: ef[e] for e in [es[i] for i in R.permutation(len(es))]}
    b = ctx.new(SCBuilder, nodes, es, {v: {"q": v} for v in nodes}, ef)
    ctx.call(b.triangles)
    ctx.call(b.triangles_dist_based, col, eps)
    with silent():
        ctx.call(b.to_simplicial_complex)
        ctx.call(b.to_simplicial_complex, condition="distance", dist_col_name=col, dist_threshold=eps)
        if col == "distance":
            ctx.call(b.to_simplicial_complex, "distance")
        cl = gen.cliques(es)
        given = [list(t) for t in cl if R.random() < 0.5]
        ctx.call(b.to_simplicial_complex, triangles=given)
        ctx.call(b.to_simplicial_complex, "distance", col, eps, given)
    b2 = ctx.new(SCBuilder, nodes, es)
    ctx.call(b2.triangles)


# ------------------------------------------------------------------ C19
@scenario("C19")
def c19_flow(ctx):
    from pytspl.io.data_loaders import transportation_loader as tl
    if not hasattr(tl, "DATA_FOLDER"):
        ctx.skips += 1
        return
    R = ctx.rng
    nodes, es, _ = gen.parts(R, ctx.lits)
    ctx.sig.append(tuple(es))
    rows = []
    for (u, v) in es:
        rows.append((u + 1, v + 1, round(float(R.uniform(0, 5000)), 4)))
        if R.random() < 0.6:
            rows.append((v + 1, u + 1, round(float(R.uniform(0, 5000)), 4)))
    rows = [rows[i] for i in R.permutation(len(rows))]
    vol = {(a, b): x for a, b, x in rows}
    old = tl.DATA_FOLDER
    with tmpdir() as d:
        os.mkdir(os.path.join(d, "net"))
        with open(os.path.join(d, "net", "net_flow.tntp"), "w") as f:
            f.write("From \tTo \tVolume \tCost \n")
            for i, r in enumerate(rows):
                f.write("\t".join(map(str, r)) + f"\t{i}\n")
        ctx.log.append(f"load_flow_transportation('net', {es}) with table {rows}")
        tl.DATA_FOLDER = d
        try:
            with silent():
                got = tl.load_flow_transportation("net", es)
                none = tl.load_flow_transportation("absent", es)
                ctx.call(tl.load_flow_transportation, "net", es)
                ctx.call(tl.load_flow_transportation, "absent", es)
        except Violation:
            raise
        except Exception as e:  # noqa
            ctx.fail("load_flow_transportation: unexpected exception", repr(e))
        finally:
            tl.DATA_FOLDER = old
    want = {(u, v): vol[(u + 1, v + 1)] - vol.get((v + 1, u + 1), 0) for u, v in es}
    ok = set(got) == set(want) and all(abs(float(got[e]) - want[e]) < 1e-6 for e in want)
    ctx.check("net flow of every edge", ok, f"{got} expected {want}")
    ctx.check("missing flow table", none == {}, f"{none}")


@scenario("C19", weight=0.02)
def c19_unknown(ctx):
    from pytspl.io import dataset_loader as dl
    names = dl.list_datasets()
    for bad in ("", "Paper", "unknown", "siouxfall", "README.md", ".DS_Store", gen.pick_str(ctx.rng, ctx.lits, ("zzz",), 1.0)):
        if bad in names:
            continue
        ctx.sig.append(bad)
        ctx.log.append(f"load_dataset({bad!r})")
        try:
            with silent():
                dl.load_dataset(bad)
        except ValueError:
            ctx.calls += 1
            continue
        except Exception as e:  # noqa
            ctx.fail("unknown dataset: expected ValueError", repr(e))
        ctx.fail("unknown dataset: expected ValueError", f"{bad!r} was accepted")


def check_dataset(ctx, name):
    """one shipped dataset against an independent reading of its files"""
    import pandas as pd
    from pytspl.io import dataset_loader as dl
    ctx.log.append(f"load_dataset({name!r})")
    ctx.sig.append(name)
    try:
        with silent():
            sc, coords, flow = dl.load_dataset(name)
    except Exception as e:  # noqa
        ctx.fail(f"dataset {name} does not load", f"{type(e).__name__}: {e}")
    ctx.check(f"{name}: nodes have coordinates", set(map(int, sc.nodes)) <= set(map(int, coords)) and len(coords) == len(sc.nodes))
    ctx.check(f"{name}: nodes 0..n-1", [int(x) for x in sc.nodes] == list(range(len(sc.nodes))))
    import importlib
    import pytspl
    from pytspl.io.data_loaders import transportation_loader as tl
    loader = {"paper": ("paper_loader", "load_paper_data"), "forex": ("forex_loader", "load_forex_data"), "chicago-sketch": ("transportation_loader", "load_chicago_sketch")}.get(name)
    with silent():
        if loader is not None:
            ctx.call(getattr(importlib.import_module("pytspl.io.data_loaders." + loader[0]), loader[1]))
        elif name in ("siouxfalls", "test_dataset"):
            ctx.call(tl.load_transportation_dataset, name)
    base = os.path.join(os.path.dirname(pytspl.__file__), "data")
    vec = {"forex": "foreign_exchange/flow_FX_1538755200.csv", "paper": "paper_data/flow.csv",
           "chicago-sketch": "transportation_networks/chicago-sketch/flow_chicago_sketch.csv"}
    if name in vec:
        y = pd.read_csv(os.path.join(base, vec[name]), header=None).to_numpy().flatten() if name == "chicago-sketch" else \
            pd.read_csv(os.path.join(base, vec[name]), header=None).values[:, 0]
        ctx.check(f"{name}: flow keyed by the edges", len(flow) == len(sc.edges) and all((int(e[0]), int(e[1])) in {(int(a), int(b)) for a, b in flow} for e in sc.edges))
        ctx.check(f"{name}: flow in stored edge order", all(abs(float(flow[tuple(e)]) - float(y[i])) < 1e-9 for i, e in enumerate(sc.edges)))
        if name == "forex":
            B1 = pd.read_csv(os.path.join(base, "foreign_exchange/B1.csv"), header=None).to_numpy()
            ctx.check("forex: B1 equals the file", eq(sc.incidence_matrix(1), B1))
        if name == "chicago-sketch":
            B1 = pd.read_csv(os.path.join(base, "transportation_networks/chicago-sketch/B1_chicago_sketch.csv"), header=None).to_numpy()
            ctx.check("chicago-sketch: B1 equals the file", eq(sc.incidence_matrix(1), B1))
        if name in ("chicago-sketch", "paper"):
            cf, sep = {"chicago-sketch": ("transportation_networks/chicago-sketch/coordinates_chicago_sketch.csv", ","), "paper": ("paper_data/coordinates.csv", " ")}[name]
            t = pd.read_csv(os.path.join(base, cf), sep=sep)
            ctx.check(f"{name}: own coordinates", all(eq(list(coords[int(r["Id"])]), [r["X"], r["Y"]], 1e-9) for _, r in t.iterrows()))
    elif name != "wsn":
        p = os.path.join(base, "transportation_networks", name, f"{name}_flow.tntp")
        q = os.path.join(base, "transportation_networks", name, f"{name}_node.tntp")
        if os.path.exists(p):
            t = pd.read_csv(p, sep="\t")
            c = {k.strip(): k for k in t.columns}
            vol = {}
            for a, b, x in zip(t[c["From"]], t[c["To"]], t[c["Volume"]]):
                vol.setdefault((int(a), int(b)), float(x))
            for (u, v) in sc.edges:
                ctx.check(f"{name}: flow of every edge", (u, v) in flow and abs(float(flow[(u, v)]) - (vol[(u + 1, v + 1)] - vol.get((v + 1, u + 1), 0.0))) < 1e-6, f"edge {(u, v)}")
            ctx.check(f"{name}: only edges have a flow", len(flow) == len(sc.edges))
        else:
            ctx.check(f"{name}: no flow table", flow == {})
        if os.path.exists(q):
            t = pd.read_csv(q, sep="\t")
            t.columns = [s.strip() for s in t.columns]
            ctx.check(f"{name}: own coordinates", all(eq(list(coords[int(i) - 1]), [x, y], 1e-9) for i, x, y in zip(t["node"], t["X"], t["Y"])))


@scenario("C19", weight=0.3)
def c19_datasets(ctx):
    names = ["paper", "forex", "siouxfalls", "test_dataset", "anaheim", "chicago-sketch", "wsn"]
    from pytspl.io import dataset_loader as dl
    have = dl.list_datasets()
    for n in names:
        ctx.check("shipped dataset is listed", n in have, n)
    check_dataset(ctx, names[ctx.rng.integers(len(names))])


# ------------------------------------------------------------------ C20
@scenario("C20")
def c20(ctx):
    import random as pyrandom
    from pytspl.io.sc_generator import generate_random_simplicial_complex as g
    R = ctx.rng
    n = gen.small_int(R, ctx.lits, 1, 14)
    p = float([0.0, 1.0, 0.3, 0.6, R.random()][R.integers(5)])
    thr = gen.pick_float(R, ctx.lits, 0.0, 1.2)
    seed = gen.small_int(R, ctx.lits, 0, 60)
    ctx.sig.append((n, p, thr, seed))
    ctx.log.append(f"generate_random_simplicial_complex({n}, {p}, {thr}, {seed}) twice, global generators perturbed in between")
    outs = []
    for k in range(3):
        pyrandom.seed(int(R.integers(1 << 30)))
        np.random.seed(int(R.integers(1 << 30)))
        for _ in range(int(R.integers(0, 4))):
            pyrandom.random()
            np.random.rand()
        try:
            with silent():
                outs.append(g(num_of_nodes=n, p=p, dist_threshold=thr, seed=seed))
                if k == 0:
                    g(n, p, thr, seed + 1)
        except Exception as e:  # noqa
            ctx.fail("unexpected exception", repr(e))
    with silent():
        outs.append(ctx.call(g, n, p, thr, seed))
    sc, co = outs[0]
    for s2, c2 in outs[1:]:
        ctx.check("equal arguments give equal complexes", same_frozen(freeze(sc), freeze(s2)), "")
        ctx.check("equal arguments give equal coordinates", set(co) == set(c2) and all(np.array_equal(co[k], c2[k]) for k in co), "")
    ctx.check("exactly the requested nodes", [int(x) for x in sc.nodes] == list(range(n)), f"{sc.nodes}")
    ctx.check("coordinates for every node", set(map(int, co)) == set(range(n)) and all(len(v) == 2 and np.all(np.isfinite(v)) for v in co.values()))
    ctx.check("edges are simple", len({frozenset(e) for e in sc.edges}) == len(sc.edges) and all(0 <= a < n and 0 <= b < n and a != b for a, b in sc.edges))
    if p == 0.0:
        ctx.check("no edges for p=0", len(sc.edges) == 0)
    if p == 1.0:
        ctx.check("all edges for p=1", len(sc.edges) == n * (n - 1) // 2)
    d = {}
    for (u, v) in sc.edges:
        f = sc.edge_features.get((u, v), sc.edge_features.get((v, u), {}))
        ctx.check("distance in [0,1) for every edge", "distance" in f and 0 <= f["distance"] < 1, f"{(u, v)}: {f}")
        d[frozenset((u, v))] = f["distance"]
    want = [t for t in gen.cliques(sc.edges) if all(d[frozenset(q)] < thr for q in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2])))]
    ctx.check("triangles are the close 3-cliques", sorted(tuple(sorted(map(int, t))) for t in sc.triangles) == want, f"{sc.triangles} expected {want}")
    if len(sc.edges) > 3:
        vals = list(d.values())
        ctx.check("distances differ between edges", len(set(vals)) > 1, f"{vals}")
    ctx.calls += 3


# ------------------------------------------------------------------ C24
def _mpl():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.show = lambda *a, **k: None
    plt.close("all")
    return plt


def _setup(ctx):
    from pytspl.plot.plot import SCPlot
    R = ctx.rng
    sc = cx(ctx)
    co = {int(v): (float(R.uniform(-5, 5)), float(R.uniform(-5, 5))) for v in [sc.nodes[i] for i in R.permutation(len(sc.nodes))]}
    if R.random() < 0.3:
        co = {v: (float(round(x)), float(round(y))) for v, (x, y) in co.items()}
    co = {v: (x + 0.01 * v, y) for v, (x, y) in co.items()}
    ctx.log.append(f"coordinates = {co}")
    return sc, co, SCPlot(sc, co)


def edge_artists(ax):
    """[(p, q, rgba)] of the drawn edges"""
    from matplotlib.collections import LineCollection
    from matplotlib.patches import FancyArrowPatch
    out = []
    for a in ax.patches:
        if isinstance(a, FancyArrowPatch):
            p, q = a._posA_posB
            out.append((tuple(map(float, p)), tuple(map(float, q)), tuple(a.get_edgecolor())))
    for c in ax.collections:
        if isinstance(c, LineCollection):
            segs = c.get_segments()
            c.update_scalarmappable()
            cols = c.get_colors()
            for i, s in enumerate(segs):
                out.append((tuple(map(float, s[0])), tuple(map(float, s[-1])), tuple(cols[i % len(cols)])))
    return out


def near(p, q, tol=1e-9):
    return abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol


def check_edges(ctx, ax, co, flowmap, edges, cmap, directed):
    """the drawn edges are exactly ``edges`` between their own end points, and
    the colours are a monotone function of the own values"""
    art = edge_artists(ax)
    ctx.check("number of drawn edges", len(art) == len(edges), f"{len(art)} drawn, {len(edges)} expected")
    left = list(art)
    cols = {}
    for (u, v) in edges:
        hit = None
        for a in left:
            if (near(a[0], co[u]) and near(a[1], co[v])) or (not directed and near(a[0], co[v]) and near(a[1], co[u])):
                hit = a
                break
        ctx.check("edge is drawn between its own end nodes", hit is not None, f"edge {(u, v)} between {co[u]} and {co[v]}; drawn {art}")
        left.remove(hit)
        cols[(u, v)] = hit[2]
    if flowmap is not None:
        vals = np.array([flowmap[e] for e in edges], dtype=float)
        tab = np.array([cmap(i)[:3] for i in range(cmap.N)])
        idx = np.array([int(np.argmin(np.abs(tab - np.array(cols[e][:3])).sum(1))) for e in edges])
        dist = np.array([np.abs(tab[i] - np.array(cols[e][:3])).sum() for i, e in zip(idx, edges)])
        ctx.check("edge colours come from the colour map", bool(np.all(dist < 1e-6)), f"{dist}")
        o = np.argsort(vals, kind="stable")
        ctx.check("edge colours increase with the value", bool(np.all(np.diff(idx[o]) >= 0)), f"values {vals[o]} colours {idx[o]}")
        ctx.check("different values get different colours", not (np.ptp(vals) > 1e-6 and np.ptp(idx) == 0), f"{vals} {idx}")


def check_triangles(ctx, ax, sc, co):
    from matplotlib.patches import Polygon
    polys = [frozenset(tuple(np.round(p, 9)) for p in a.get_xy()) for a in ax.patches if isinstance(a, Polygon)]
    want = [frozenset(tuple(np.round(co[int(v)], 9)) for v in t) for t in sc.triangles]
    ctx.check("exactly the triangles are filled", sorted(map(sorted, polys)) == sorted(map(sorted, want)), f"{polys} expected {want}")


def check_nodes(ctx, ax, sc, co, values=None, cmap=None):
    from matplotlib.collections import PathCollection
    pcs = [c for c in ax.collections if isinstance(c, PathCollection)]
    ctx.check("one node collection", len(pcs) == 1, f"{len(pcs)}")
    off = np.asarray(pcs[0].get_offsets())
    ctx.check("number of drawn nodes", len(off) == len(sc.nodes), f"{len(off)}")
    arr = pcs[0].get_array()
    if cmap is not None:
        ctx.check("node colours come from the given colour map", pcs[0].get_cmap().name == cmap.name, f"{pcs[0].get_cmap().name} for {cmap.name}")
    left = list(range(len(off)))
    for i, v in enumerate(sc.nodes):
        hit = [k for k in left if near(off[k], co[v])]
        ctx.check("node at its own coordinates", bool(hit), f"node {v} at {co[v]}, drawn {off.tolist()}")
        if values is not None:
            ctx.check("node has its own value", arr is not None and any(abs(float(arr[k]) - float(values[i])) < 1e-9 for k in hit), f"node {v} value {values[i]}, drawn {arr}")
        left.remove(hit[0])


def check_labels(ctx, ax, co, flowmap, offset):
    texts = [(t.get_position(), t.get_text()) for t in ax.texts if t.get_zorder() == 1 or True]
    for (u, v), x in flowmap.items():
        mid = ((co[u][0] + co[v][0]) / 2, (co[u][1] + co[v][1]) / 2)
        hits = [s for p, s in texts if abs(p[0] - mid[0]) <= abs(offset) * 1.01 + 1e-9 and abs(p[1] - mid[1]) <= abs(offset) * 1.01 + 1e-9]
        ctx.check("edge label shows the own value at its edge", str(x) in hits, f"edge {(u, v)} value {x}, texts near its middle {hits}")


@scenario("C24")
def c24(ctx):
    plt = _mpl()
    import matplotlib as mpl
    R = ctx.rng
    sc, co, sp = _setup(ctx)
    f = fl(ctx, sc, ("normal", "int", "neg")[R.integers(3)])
    before = freeze(sc)
    fm = ctx.call(sp.create_edge_flow, f)
    es = list(sc.edges)
    mode = int(R.integers(3))
    if mode == 1 and len(es) > 1:
        keep = [es[i] for i in R.permutation(len(es))[: int(R.integers(1, len(es)))]]
        fm = {e: float(x) for e, x in zip(keep, gen.flow(R, len(keep), "normal"))}
    elif mode == 2:
        fm = {es[i]: fm[es[i]] for i in R.permutation(len(es))}
    cmap = (plt.cm.viridis, plt.cm.plasma, plt.cm.Blues)[R.integers(3)]
    directed = bool(R.random() < 0.6)
    ctx.log.append(f"draw_sc_edges(edge_flow={fm}, directed={directed})")
    try:
        fig, ax = plt.subplots()
        kw = {}
        if R.random() < 0.4:
            v = list(fm.values())
            kw = dict(edge_vmin=min(v) - 1, edge_vmax=max(v) + 1)
        sp.draw_sc_edges(edge_flow=fm, edge_cmap=cmap, directed=directed, ax=ax, **kw)
        check_edges(ctx, ax, co, fm, list(fm), cmap, directed)
        if kw:
            art = edge_artists(ax)
            for e, x in fm.items():
                want = cmap((float(x) - kw["edge_vmin"]) / (kw["edge_vmax"] - kw["edge_vmin"]))
                ctx.check("edge colour within the given limits", any((near(a[0], co[e[0]]) and near(a[1], co[e[1]]) or near(a[1], co[e[0]]) and near(a[0], co[e[1]]))
                          and np.abs(np.array(a[2][:3]) - np.array(want[:3])).max() < 0.02 for a in art), f"edge {e} value {x} limits {kw}")
        check_triangles(ctx, ax, sc, co)
        fig, ax = plt.subplots()
        sp.draw_sc_edges(directed=directed, ax=ax)
        check_edges(ctx, ax, co, None, es, cmap, directed)
        check_triangles(ctx, ax, sc, co)
        fig, ax = plt.subplots()
        vals = [float(x) for x in gen.flow(R, len(sc.nodes), "normal")]
        ctx.log.append(f"draw_sc_nodes(node_color={vals})")
        kw = dict(cmap=cmap) if R.random() < 0.7 else {}
        if R.random() < 0.4:
            kw.update(vmin=min(vals) - 1, vmax=max(vals) + 1)
        sp.draw_sc_nodes(node_color=vals, ax=ax, with_labels=bool(R.random() < 0.5), **kw)
        check_nodes(ctx, ax, sc, co, vals, kw.get("cmap", plt.cm.Blues))
        fig, ax = plt.subplots()
        if R.random() < 0.5:
            # another axes is the current one while this one is drawn
            plt.subplots()
        sp.draw_sc_nodes(ax=ax, with_labels=True)
        check_nodes(ctx, ax, sc, co)
        for v in sc.nodes:
            ctx.check("node label at its own node", any(t.get_text() == str(v) and near(t.get_position(), co[v]) for t in ax.texts), f"node {v}")
        fig, ax = plt.subplots()
        off = float(R.uniform(0, 0.3))
        r = sp.draw_edge_labels(fm, offset=off, ax=ax)
        ctx.check("one label per edge", set(r) == set(fm) and all(r[e].get_text() == str(fm[e]) for e in fm), f"{r}")
        check_labels(ctx, ax, co, fm, off)
    except Exception as e:  # noqa
        if type(e).__name__ in ("Violation", "Abandon"):
            raise
        ctx.fail("unexpected exception while drawing", repr(e))
    finally:
        plt.close("all")
    ctx.check("complex unchanged by drawing", same_frozen(before, freeze(sc)))
    ctx.calls += 4


@scenario("C24", weight=0.3)
def c24_layout(ctx):
    """no coordinates given: one layout for everything drawn, every node in it"""
    from pytspl.plot.plot import SCPlot
    plt = _mpl()
    R = ctx.rng
    sc = cx(ctx)
    sp = SCPlot(sc) if R.random() < 0.5 else SCPlot(simplicial_complex=sc, coordinates=None)
    vals = [float(x) for x in gen.flow(R, len(sc.nodes), "normal")]
    f = fl(ctx, sc, "normal")
    before = freeze(sc)
    fig, ax = plt.subplots()
    order = [int(x) for x in R.permutation(4)]
    fm = None
    try:
        for k in order:
            fig, ax = plt.subplots()
            ctx.log.append(("draw_sc_nodes", "draw_sc_edges", "draw_edge_labels", "draw_network")[k])
            fm = sp.create_edge_flow(f)
            if k == 0:
                sp.draw_sc_nodes(node_color=vals, ax=ax)
                co = {v: tuple(map(float, sp.pos[v])) for v in sc.nodes}
                check_nodes(ctx, ax, sc, co, vals)
            elif k == 1:
                sp.draw_sc_edges(edge_flow=fm, ax=ax)
                co = {v: tuple(map(float, sp.pos[v])) for v in sc.nodes}
                check_edges(ctx, ax, co, fm, list(fm), plt.cm.Blues, True)
                check_triangles(ctx, ax, sc, co)
            elif k == 2:
                sp.draw_edge_labels(fm, ax=ax)
                co = {v: tuple(map(float, sp.pos[v])) for v in sc.nodes}
                check_labels(ctx, ax, co, fm, 0.15)
            else:
                sp.draw_network(edge_flow=fm, ax=ax)
                co = {v: tuple(map(float, sp.pos[v])) for v in sc.nodes}
                check_edges(ctx, ax, co, fm, list(fm), plt.cm.Blues, True)
                check_nodes(ctx, ax, sc, co)
                for v in sc.nodes:
                    ctx.check("node label at its own node", any(t.get_text() == str(v) and near(t.get_position(), co[v]) for t in ax.texts), f"node {v}")
                if R.random() < 0.3:
                    _, other = plt.subplots()
                    sp.draw_sc_edges(edge_flow={}, ax=other)
                    check_edges(ctx, other, co, None, [], plt.cm.Blues, True)
                    check_triangles(ctx, other, sc, co)
            if k != order[0]:
                ctx.check("the layout stays", co == last, f"{last} became {co}")
            last = co
    except Exception as e:  # noqa
        if type(e).__name__ in ("Violation", "Abandon"):
            raise
        ctx.fail("unexpected exception while drawing", repr(e))
    finally:
        plt.close("all")
    ctx.check("complex unchanged by drawing", same_frozen(before, freeze(sc)))
    ctx.calls += 4


@scenario("C24", weight=0.5)
def c24_network(ctx):
    plt = _mpl()
    R = ctx.rng
    sc, co, sp = _setup(ctx)
    f = fl(ctx, sc, ("normal", "int")[R.integers(2)])
    cm = plt.cm.Blues
    try:
        fm = {e: f[i] for i, e in enumerate(sc.edges)}
        arg = (f, list(f), dict(fm))[R.integers(3)]
        fig, ax = plt.subplots()
        ctx.log.append(f"draw_network({arg})")
        sp.draw_network(edge_flow=arg, ax=ax, directed=True)
        check_edges(ctx, ax, co, fm, sc.edges, cm, True)
        check_nodes(ctx, ax, sc, co)
        check_triangles(ctx, ax, sc, co)
        check_labels(ctx, ax, co, fm, 0.15)
        fig, ax = plt.subplots()
        sp.draw_network(ax=ax)
        check_edges(ctx, ax, co, None, sc.edges, cm, True)
        plt.close("all")
        kind = R.integers(3)
        if kind == 0:
            nd = int(R.integers(0, 5))
            ctx.log.append(f"draw_hodge_decomposition({f}, round_sig_fig={nd})")
            sp.draw_hodge_decomposition(f, round_sig_fig=nd)
            axes = [a for a in plt.gcf().axes if a.get_title()]
            ctx.check("three axes", len(axes) == 3, f"{[a.get_title() for a in axes]}")
            for a in axes:
                letter = [c for c in "GCH" if "{" + c + "}" in a.get_title()]
                ctx.check("axis names a component", len(letter) == 1, a.get_title())
                comp = dict(G="gradient", C="curl", H="harmonic")[letter[0]]
                part = spec.hodge_part(sc, comp, f)
                flow_labels(ctx, sc, co, a, part, nd)
        elif kind == 1:
            comp = spec.COMPONENTS[R.integers(3)]
            ctx.log.append(f"draw_hodge_decomposition({f}, {comp!r}, round_fig=False)")
            sp.draw_hodge_decomposition(f, component=comp, round_fig=False)
            axes = [a for a in plt.gcf().axes if a.get_title()]
            ctx.check("one axis", len(axes) == 1)
            flow_labels(ctx, sc, co, axes[0], spec.hodge_part(sc, comp, f), None)
        else:
            comp = spec.COMPONENTS[R.integers(3)]
            U, lam = sc.get_component_eigenpair(comp)
            if len(lam):
                k = [int(x) for x in R.permutation(len(lam))[:4]]
                ctx.log.append(f"draw_eigenvectors({comp!r}, {k})")
                sp.draw_eigenvectors(comp, k, round_sig_fig=2)
                axes = [a for a in plt.gcf().axes if a.get_title()]
                ctx.check("one axis per eigenvector", len(axes) == len(k), f"{len(axes)}")
                for a, i in zip(axes, k):
                    ctx.check("title shows the eigenvalue", str(round(lam[i], 2)) in a.get_title(), a.get_title())
                    flow_labels(ctx, sc, co, a, U[:, i], 2)
    except Exception as e:  # noqa
        if type(e).__name__ in ("Violation", "Abandon"):
            raise
        ctx.fail("unexpected exception while drawing", repr(e))
    finally:
        plt.close("all")
    ctx.calls += 2


def flow_labels(ctx, sc, co, ax, flow, digits):
    """an axis shows, near the middle of every edge, the edge's own value"""
    texts = [(t.get_position(), t.get_text()) for t in ax.texts]
    tol = 1e-6 * (1 + np.abs(flow).max()) if digits is None else 0.5 * 10.0 ** -digits * 1.0001 + 1e-9
    for (u, v), x in zip(sc.edges, flow):
        mid = ((co[u][0] + co[v][0]) / 2, (co[u][1] + co[v][1]) / 2)
        vals = []
        for p, s in texts:
            if abs(p[0] - mid[0]) <= 0.16 and abs(p[1] - mid[1]) <= 0.16:
                try:
                    vals.append(float(s))
                except ValueError:
                    pass
        ctx.check("edge shows its own value", any(abs(y - x) <= tol for y in vals), f"edge {(u, v)} value {x}, shown {vals}")
