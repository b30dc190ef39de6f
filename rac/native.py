"""Native (run-time) interpretation of the contracts."""

import copy
import inspect

import numpy as np
import scipy.sparse as sp

from contracts import spec
from contracts.api import REGISTRY


class Violation(Exception):
    pass


class Abandon(Exception):
    """a call outside its contract failed: the case ends without a verdict"""


class Skip(Exception):
    """precondition not met: the call is outside the contract"""


class _Raises(Exception):
    def __init__(self, exc):
        self.exc = exc


def plain(x):
    """numpy view of arrays, sparse matrices and tensors"""
    if sp.issparse(x):
        return x.toarray()
    if hasattr(x, "detach"):
        return x.detach().cpu().numpy()
    if hasattr(x, "to_dense") and hasattr(x, "evaluate"):
        return x.to_dense().detach().cpu().numpy()
    return x


def is32(x):
    return hasattr(x, "detach") or getattr(x, "dtype", None) == np.float32


def eq(a, b, tol=None):
    if isinstance(b, dict):
        return (
            isinstance(a, dict)
            and list(map(str, sorted(a.keys(), key=str))) == list(map(str, sorted(b.keys(), key=str)))
            and set(a.keys()) == set(b.keys())
            and all(eq(a[k], b[k], tol) for k in b)
        )
    if isinstance(b, (str, type(None), bool)):
        return type(a) is type(b) and a == b
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        if len(a) and not all(isinstance(x, (int, float, np.number)) for x in b):
            return all(eq(x, y, tol) for x, y in zip(a, b))
    if a is None:
        return False
    lo = is32(a) or is32(b)
    try:
        a, b = np.asarray(plain(a)), np.asarray(plain(b))
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
            return bool(np.all(a == b))
        if np.iscomplexobj(a):
            if np.abs(a.imag).max() > 1e-9:
                return False
            a = a.real
        a, b = a.astype(float), b.astype(float)
    except (ValueError, TypeError):
        return False
    if tol is None:
        tol = 2e-3 if lo else 1e-6
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    a, b = a[~na], b[~nb]
    if a.size == 0:
        return True
    ia = ~np.isfinite(b)
    if (a[ia] != b[ia]).any():
        return False
    a, b = a[~ia], b[~ia]
    if a.size == 0:
        return True
    return bool(np.max(np.abs(a - b)) <= tol * (1 + np.max(np.abs(b))))


# ---------------------------------------------------------------- frames
def _is_model(obj):
    return type(obj).__module__.startswith("pytspl")


def freeze(x, depth=0, seen=None):
    """deep value of everything reachable (public state only)"""
    seen = {} if seen is None else seen
    if depth > 8:
        return None
    if isinstance(x, (str, int, float, bool, type(None), bytes, complex)):
        return x
    if id(x) in seen:
        return ("ref", seen[id(x)])
    seen[id(x)] = len(seen)
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, str(x.dtype), x.copy())
    if isinstance(x, np.generic):
        return x.item()
    if sp.issparse(x):
        return ("sp", x.shape, x.toarray())
    if hasattr(x, "detach"):
        return ("t", x.detach().cpu().numpy().copy())
    if type(x).__name__ == "DataFrame":
        return ("frame", [str(c) for c in x.columns], [[repr(v) for v in x[c]] for c in x.columns])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v, depth + 1, seen) for v in x])
    if isinstance(x, dict):
        return ("dict", [(freeze(k, depth + 1, seen), freeze(v, depth + 1, seen)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    if _is_model(x) and hasattr(x, "__dict__") and not hasattr(x, "parameters"):
        return (
            "obj", type(x).__name__,
            {k: freeze(v, depth + 1, seen) for k, v in vars(x).items() if not k.startswith("_")},
        )
    return None


def same_frozen(a, b, skip=()):
    if a is None and b is None:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple) and a and isinstance(a[0], str):
        if len(a) != len(b) or a[0] != b[0]:
            return False
        if a[0] == "obj":
            if a[1] != b[1]:
                return False
            return all(k in b[2] and same_frozen(v, b[2][k]) for k, v in a[2].items() if k not in skip)
        return all(same_frozen(x, y) for x, y in zip(a[1:], b[1:]))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_frozen(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


# -------------------------------------------------------------- contract
class NativeContract:
    def __init__(self, rng):
        self.rng = rng
        self.post = []
        self.expect = None
        self.has_expect = False
        self.mod = []
        self.fresh = False
        self.np_seed = None

    # structure
    def requires(self, cond, name=""):
        if not cond:
            raise Skip(name)

    def raises(self, exc, cond):
        if cond:
            raise _Raises(exc)

    def may_raise(self, *names):
        pass

    def returns(self, value):
        self.post.append(("result equals its specification", lambda r, v=value: eq(r, v), value))

    def returns_rounded(self, value, digits):
        def ok(r):
            r = np.asarray(r, dtype=float)
            v = np.asarray(value, dtype=float)
            return (
                r.shape == v.shape
                and (r.size == 0 or (
                    np.max(np.abs(r - v)) <= 0.5 * 10.0 ** (-digits) * (1 + 1e-6) + 1e-9 * (1 + np.max(np.abs(v)))
                    and np.allclose(r, np.round(r, digits), rtol=0, atol=1e-12 * (1 + np.max(np.abs(v))))))
            )
        self.post.append(("result is the rounded specification", ok, value))

    def ensures(self, name, fn):
        self.post.append((name, fn, None))

    def modifies(self, obj, *attrs):
        self.mod.append((obj, attrs))

    def fresh_result(self):
        self.fresh = True

    # helpers usable inside contracts
    eq = staticmethod(eq)

    def is_zero(self, m):
        m = np.asarray(plain(m), dtype=float)
        return bool(np.all(np.abs(m) <= 1e-7 * (1 + self.magnitude)))

    magnitude = 0.0

    def check(self, name, cond):
        if not cond:
            raise Violation(f"lemma: {name}")

    def same(self, a, b):
        return a is b or same_frozen(freeze(a), freeze(b))

    def forall(self, n, fn):
        return all(fn(i) for i in range(int(n)))

    def exists(self, n, fn):
        return any(fn(i) for i in range(int(n)))

    def first(self, n, fn):
        return next(i for i in range(int(n)) if fn(i))

    def requires_forall(self, n, fn):
        self.requires(self.forall(n, fn))

    def requires_distinct(self, n, fn):
        xs = [fn(i) for i in range(int(n))]
        self.requires(len(set(xs)) == len(xs), "distinct")

    # tables
    def data_folder(self, module, default):
        import importlib
        return getattr(importlib.import_module(module), "DATA_FOLDER", default)

    def requires_columns(self, df, cols):
        self.requires(all(x in df.columns for x in cols), "columns")

    def requires_edge_table(self, df, src, dst, zero):
        self.requires_columns(df, (src, dst))
        self.requires(len(df) > 0, "rows")
        off = 0 if zero else 1
        self.requires(all(float(x) >= off for col in (src, dst) for x in df[col]), "ids")

    def requires_rows(self, df, src, dst, zero, edges):
        off = 0 if zero else 1
        rows = {(int(a) - off, int(b) - off) for a, b in zip(df[src], df[dst])}
        self.requires(all(tuple(e) in rows for e in edges), "rows")

    def is_record(self, d, row, cols):
        return eq(d, row[list(cols)].to_dict())

    def same_table(self, a, b):
        return type(a) is type(b) and a.equals(b) and list(a.columns) == list(b.columns)

    def requires_triangle_columns(self, B, ends):
        for j in range(B.shape[1]):
            es = [tuple(e) for e in ends[B[:, j] != 0]]
            self.requires(len(es) == 3 and len({x for e in es for x in e}) == 3, "triangles")

    def requires_rows_of(self, B, edges):
        self.requires(B.shape[0] == len(edges))

    def requires_incidence(self, filename):
        import pandas as pd
        B = pd.read_csv(filename, header=None).to_numpy()
        self.requires(all(sorted(B[:, j][B[:, j] != 0]) == [-1, 1] for j in range(B.shape[1])), "incidence")
        ends = [(int(np.argmin(B[:, j])), int(np.argmax(B[:, j]))) for j in range(B.shape[1])]
        return np.array(ends).reshape(-1, 2)

    def is_sorted_set(self, r, n, keep, items):
        return [int(x) for x in r] == sorted({int(x) for s in range(int(n)) if keep(s) for x in items(s)})

    def mean(self, n, fn):
        return np.mean([fn(j) for j in range(int(n))])

    def some_vector(self, name):
        return np.concatenate((np.linspace(-3, 30, 23), self.rng.standard_normal(5) * 0.05))

    def power_iterate(self, P, k):
        v = np.ones(P.shape[0])
        for _ in range(int(k)):
            v = P @ v
            s = np.linalg.norm(v)
            if s > 0:
                v = v / s
        return v

    def chebyshev_sum(self, X, coeffs, terms):
        n = X.shape[0]
        lam, U = np.linalg.eigh((X + X.T) / 2)
        g = np.zeros(n)
        for k in range(int(terms)):
            c = np.zeros(k + 1)
            c[k] = 1
            g = g + coeffs[k] * np.polynomial.chebyshev.chebval(lam, c)
        return U @ np.diag(g) @ U.T

    def close(self, a, b, tol):
        return abs(a - b) <= tol * (1 + abs(b))

    def num(self, x):
        return float(np.asarray(plain(x)).reshape(-1)[0])

    def index(self, x):
        return np.asarray(plain(x)).astype(int).reshape(-1)

    def mean_std(self, y):
        y = np.asarray(plain(y), dtype=float)
        return y.mean(), y.std(ddof=1)

    # preconditions
    def requires_flow(self, sc, f):
        f = plain(f)
        self.requires(isinstance(f, np.ndarray) and f.shape == (len(sc.edges),), "flow")

    def requires_vector(self, f, dim):
        self.requires(isinstance(f, np.ndarray) and f.ndim == 1)

    def requires_matrix(self, B, r, k):
        self.requires(B.ndim == 2)

    def requires_symmetric(self, M):
        self.requires(isinstance(M, np.ndarray) and M.ndim == 2 and M.shape[0] == M.shape[1] and M.shape[0] > 0 and np.array_equal(M, M.T))

    def requires_same_shape(self, a, b):
        self.requires(np.shape(a) == np.shape(b))

    def requires_nonnegative(self, xs):
        self.requires(all(x >= 0 for x in xs))

    def requires_ratios(self, xs, n):
        self.requires(all(0 <= x <= 1 and np.floor(n * x) >= 1 for x in xs))

    def requires_nonzero(self, v):
        """v != 0 (numerically: clearly away from 0)"""
        self.requires(np.linalg.norm(v) > 1e-6, "nonzero")

    def requires_conditioned(self, P):
        """(numerical only) the entrywise ratio estimate is not dominated by
        rounding errors"""
        def estimate(noise):
            v = np.ones(P.shape[0])
            for _ in range(50):
                v = P @ v
                v = v * (1 + noise * rs.standard_normal(len(v)))
                s = np.linalg.norm(v)
                if s > 0:
                    v = v / s
                v = v + noise * rs.standard_normal(len(v))
            v = v + np.finfo(float).eps
            return np.concatenate(((P @ v) / v, v))
        rs = np.random.RandomState(7)
        self.requires(P.shape[0] > 0, "conditioned")
        with np.errstate(all="ignore"):
            a = estimate(0.0)
            ok = bool(np.all(np.isfinite(a))) and all(np.abs(estimate(1e-13) - a).max() <= 1e-8 * (1 + np.abs(a).max()) for _ in range(3))
        self.requires(ok, "conditioned")

    def requires_separated(self, sc):
        for M in (spec.Lhodge(sc), spec.Llow(sc), spec.Lup(sc)):
            lam = np.linalg.eigvalsh(M)
            self.requires(not np.any((np.abs(lam) > 1e-6) & (np.abs(lam) < 1e-2)), "separated")

    def requires_valid_edges(self, edges, n):
        und = {frozenset(e) for e in edges}
        self.requires(len(und) == len(edges) and all(len(u) == 2 for u in und) and all(0 <= x < n for e in edges for x in e))

    def requires_valid_triangles(self, triangles, edges):
        und = {frozenset(e) for e in edges}
        for t in triangles:
            a, b, cc = t
            self.requires(len({a, b, cc}) == 3 and frozenset((a, b)) in und and frozenset((b, cc)) in und and frozenset((a, cc)) in und)

    def requires_valid_complex(self, nodes, edges, triangles):
        self.requires(list(nodes) == list(range(len(nodes))))
        self.requires_valid_edges(edges, len(nodes))
        self.requires_valid_triangles(triangles, edges)

    def requires_simplex(self, s):
        self.requires(len(s) >= 2 and len(set(s)) == len(s))

    def requires_features(self, b, col):
        for (u, v) in b.edges:
            k = (u, v) if (u, v) in b.edge_features else (v, u)
            self.requires(k in b.edge_features and col in b.edge_features[k])

    def requires_splittable(self, tr, ratio, normalise, seed):
        n = len(tr.sc.edges)
        self.requires(n >= 4 and 0.3 < ratio < 0.8 and isinstance(seed, int))
        self.requires(not normalise or len(set(np.asarray(tr.y).tolist())) == n)

    def numbers(self, n):
        return np.arange(n).astype(float)

    def is_split(self, a, b, n, ratio, seed):
        a, b = list(self.index(a)), list(self.index(b))
        return sorted(a + b) == list(range(n)) and abs(len(a) - ratio * n) <= 1.0

    def requires_kernel(self, k):
        pass

    def requires_indices(self, k, x):
        self.requires(x is not None)
        i = self.index(x)
        self.requires(len(i) > 0 and i.min() >= 0 and i.max() < k.harm_eigvects.shape[0])

    # predicates
    def is_boundary1(self, B, nodes, edges):
        return self.is_boundary1_n(B, len(nodes), edges)

    def is_boundary1_n(self, B, n, edges):
        B = plain(B)
        want = np.zeros((n, len(edges)))
        for j, (u, v) in enumerate(edges):
            want[u, j] = -1
            want[v, j] = 1
        return B.shape == want.shape and np.array_equal(B, want)

    def is_boundary2(self, B, edges, triangles):
        class S:
            pass
        s = S()
        s.edges, s.triangles = edges, triangles
        want, B = spec.oriented(s), plain(B)
        return B.shape == want.shape and all(
            np.array_equal(B[:, j], want[:, j]) or np.array_equal(B[:, j], -want[:, j]) for j in range(B.shape[1]))

    def is_adjacency(self, A, sc):
        A = plain(A)
        n = len(sc.nodes)
        want = np.zeros((n, n))
        for u, v in sc.edges:
            want[u, v] = want[v, u] = 1
        return A.shape == want.shape and np.array_equal(A, want)

    def is_eigenpair(self, M, U, lam, tol):
        n = M.shape[0]
        s = 1 + np.abs(M).max()
        return (
            U.shape == (n, n) and lam.shape == (n,)
            and np.allclose(U.T @ U, np.eye(n), atol=1e-8)
            and np.allclose(M @ U, U * lam, atol=1e-8 * s + abs(tol))
            and bool(np.all(np.diff(lam) >= -1e-9 * s - abs(tol)))
            and not np.any((np.abs(lam) < tol) & (lam != 0))
        )

    def is_faces(self, r, simplex):
        want = sorted(tuple(sorted(x for i, x in enumerate(simplex) if i != k)) for k in range(len(simplex)))
        return [tuple(x) for x in r] == want

    def some_missing(self, feats, name):
        return any(name not in v for v in feats.values())

    def cliques(self, edges):
        und = {frozenset(map(int, e)) for e in edges}
        vs = sorted({int(x) for e in edges for x in e})
        return [
            (a, b, d)
            for i, a in enumerate(vs) for j, b in enumerate(vs[i + 1:], i + 1)
            if frozenset((a, b)) in und
            for d in vs[j + 1:]
            if frozenset((a, d)) in und and frozenset((b, d)) in und
        ]

    def determined(self, r):
        return True     # compared across calls by the scenario

    def is_simple(self, edges, n):
        return len({frozenset(e) for e in edges}) == len(edges) and all(0 <= a < n and 0 <= b < n and a != b for a, b in edges)

    def is_triangles(self, r, edges):
        return sorted(tuple(map(int, t)) for t in r) == self.cliques(edges) and all(list(t) == sorted(t) for t in r)

    def is_close_triangles(self, r, b, col, eps):
        def d(u, v):
            e = (u, v) if (u, v) in b.edge_features else (v, u)
            return b.edge_features[e][col]
        want = []
        for (x, y, z) in self.cliques(b.edges):
            ds = (d(x, y), d(y, z), d(x, z))
            if all(q is not None and q < eps for q in ds):
                want.append((x, y, z))
        return sorted(tuple(map(int, t)) for t in r) == want and all(list(t) == sorted(t) for t in r)

    # randomness of the code under test is replayed from a seed
    def _seeded(self):
        if self.np_seed is None:
            self.np_seed = int(self.rng.integers(1, 2**31 - 1))
        return self.np_seed

    def random_stream(self, n, m, size):
        rs = np.random.RandomState(self._seeded())
        draws = rs.randn(int(n), int(m), int(size))
        return lambda i, j: draws[i, j]

    def choice_stream(self, n, m, size, ratio):
        rs = np.random.RandomState(self._seeded())
        out = np.zeros((int(n), int(m), int(size)))
        for i in range(int(n)):
            M = int(np.floor(size * ratio[i]))
            for j in range(int(m)):
                out[i, j, rs.choice(size, M, replace=False)] = 1
        return lambda i, j: out[i, j]

    def is_l1_solution(self, x, f, S, mu, mask):
        import cvxpy as cp
        S = np.asarray(plain(S))
        if x is None or np.any(~np.isfinite(x)):
            return False
        def obj(z):
            return np.linalg.norm(z - f) + mu * np.abs(S @ z).sum()
        v = cp.Variable(len(f))
        cons = [] if mask is None else [cp.multiply(mask, v) == mask * f]
        cp.Problem(cp.Minimize(cp.norm(v - f) + mu * cp.norm(S @ v, 1)), cons).solve()
        scale = 1 + np.linalg.norm(f)
        if mask is not None and np.max(np.abs(mask * (x - f))) > 1e-4 * scale:
            return False
        best = obj(v.value)
        return obj(x) <= best + 2e-3 * scale


def pickle_call(con, own, args, kw):
    """the call on freshly built objects, as bytes (None if not expressible)"""
    import pickle

    def enc(x):
        if _is_model(x) and hasattr(x, "edges") and hasattr(x, "triangles"):
            return ("$sc", list(x.nodes), list(x.edges), list(x.triangles), dict(x.node_features), dict(x.edge_features))
        if _is_model(x) and hasattr(x, "sc"):
            return ("$filter", type(x), enc(x.sc))
        if isinstance(x, type) or _is_model(x):
            raise TypeError
        return x
    try:
        return pickle.dumps((f"{con.module}:{con.qualname}", [enc(x) for x in own], [enc(x) for x in args], {k: enc(v) for k, v in kw.items()}))
    except Exception:  # noqa
        return None


def run_alone(data):
    """True if the pickled call meets its contract on its own"""
    import importlib
    import pickle
    from pytspl.simplicial_complex import SimplicialComplex
    key, own, args, kw = pickle.loads(data)

    def dec(x):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] == "$sc":
            return SimplicialComplex(nodes=x[1], edges=x[2], triangles=x[3], node_features=x[4], edge_features=x[5])
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] == "$filter":
            return x[1](dec(x[2]))
        return x
    own, args, kw = [dec(x) for x in own], [dec(x) for x in args], {k: dec(v) for k, v in kw.items()}
    mod, name = key.split(":")
    con = REGISTRY[key]
    if own:
        a = getattr(type(own[0]), name.split(".")[-1])
        fn = (lambda *p, **k: getattr(own[0], name.split(".")[-1])) if isinstance(a, property) else getattr(own[0], name.split(".")[-1])
    else:
        fn = getattr(importlib.import_module(mod), name)
    ctx = Context(np.random.default_rng(0), {}, "alone")
    try:
        ctx._checked(con, fn, own, args, kw)
    except Violation:
        return False
    return True


def holds_alone(data):
    import os
    import subprocess
    import sys
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run([sys.executable, os.path.join(here, "rac", "main.py"), "C23", "--alone"], input=data,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
    return p.returncode != 3


def describe(x, depth=0):
    p = plain(x)
    if isinstance(p, np.ndarray):
        return np.array2string(p, threshold=80, precision=6).replace("\n", " ") if p.size <= 80 else f"ndarray{p.shape}"
    if _is_model(x) and hasattr(x, "edges") and depth < 2:
        return f"{type(x).__name__}(n={len(x.nodes)}, edges={x.edges}, triangles={getattr(x, 'triangles', None)})"[:1500]
    if _is_model(x) and hasattr(x, "sc"):
        return f"{type(x).__name__}({describe(x.sc, depth + 1)})"
    return repr(x)[:1500]


class Context:
    """one scenario run; records calls for the replay"""

    def __init__(self, rng, lits, prop):
        self.rng = rng
        self.lits = lits
        self.prop = prop
        self.calls = 0
        self.skips = 0
        self.log = []
        self.sig = []

    def fail(self, what, detail=""):
        raise Violation(f"{what}: {detail}" if detail else what)

    def check(self, name, cond, detail=""):
        self.calls += 1
        if not cond:
            self.fail(name, detail)

    def call(self, fn, *args, **kw):
        """Call a function of /repo under its contract."""
        owner = getattr(fn, "__self__", None)
        f = getattr(fn, "__func__", fn)
        key = f"{f.__module__}:{f.__qualname__}"
        con = REGISTRY.get(key)
        if con is None and owner is not None and not inspect.isclass(owner):
            for k in type(owner).__mro__:
                con = REGISTRY.get(f"{k.__module__}:{k.__qualname__}.{f.__name__}")
                if con:
                    break
        self.log.append(f"{f.__qualname__}({', '.join([describe(a) for a in args] + [f'{k}={describe(v)}' for k, v in kw.items()])})"
                        + (f" on {describe(owner)}" if owner is not None else ""))
        if con is None:
            raise Violation(f"no contract for {key}")
        return self._checked(con, fn, ([owner] if owner is not None else []), args, kw)

    def lemma(self, fn, *args):
        """Run a client lemma."""
        self.log.append(f"lemma {fn.__name__}({', '.join(describe(a) for a in args)})")
        c = NativeContract(self.rng)
        c.magnitude = max([float(np.max(np.abs(a), initial=0)) for a in args if isinstance(a, np.ndarray)] + [0.0])
        try:
            fn(c, *args)
        except Skip:
            self.skips += 1
            return
        self.calls += 1

    def get(self, obj, name):
        """Read a property of /repo under its contract."""
        for k in type(obj).__mro__:
            con = REGISTRY.get(f"{k.__module__}:{k.__qualname__}.{name}")
            if con:
                self.log.append(f"{name} of {describe(obj)}")
                return self._checked(con, lambda: getattr(obj, name), [obj], (), {})
        raise Violation(f"no contract for {name}")

    def new(self, cls, *args, **kw):
        con = REGISTRY[f"{cls.__module__}:{cls.__qualname__}.__init__"]
        obj = cls.__new__(cls)
        self.log.append(f"{cls.__qualname__}({', '.join([describe(a) for a in args] + [f'{k}={describe(v)}' for k, v in kw.items()])})")
        self._checked(con, lambda *a, **k: cls.__init__(obj, *a, **k), [obj], args, kw)
        return obj

    def _checked(self, con, fn, own, args, kw):
        c = NativeContract(self.rng)
        before = [freeze(a) for a in own + list(args) + list(kw.values())]
        alone = pickle_call(con, own, args, kw) if self.prop == "C23" else None
        expect_exc = None
        try:
            b = inspect.signature(con.fn).bind(c, *own, *args, **kw)
            b.apply_defaults()
            con.fn(*b.args, **b.kwargs)
        except Skip:
            self.skips += 1
            try:
                return fn(*args, **kw)
            except Exception:  # noqa
                raise Abandon()
        except _Raises as e:
            expect_exc = e.exc
        if c.np_seed is not None:
            np.random.seed(c.np_seed)
        where = con.qualname

        def wrong(what, detail=""):
            if alone is not None and not holds_alone(alone):
                # the call breaks its contract on a fresh complex in a fresh
                # process as well: not an effect of an earlier call
                raise Abandon()
            self.fail(what, detail)
        try:
            result = fn(*args, **kw)
        except Exception as e:  # noqa
            if type(e).__name__ == "SolverError":
                self.skips += 1
                raise Abandon()  # the external solver gave up
            if expect_exc is not None and isinstance(e, expect_exc):
                result, got = None, e
            elif expect_exc is not None:
                wrong(f"{where}: expected {expect_exc.__name__}", f"got {type(e).__name__}: {e}")
            else:
                wrong(f"{where}: unexpected exception", f"{type(e).__name__}: {e}")
        else:
            if expect_exc is not None:
                wrong(f"{where}: expected {expect_exc.__name__}", f"returned {describe(result)}")
        self.calls += 1
        if expect_exc is None:
            for name, pred, want in c.post:
                try:
                    ok = pred(result)
                except Exception as e:  # noqa
                    wrong(f"{where}: {name}", f"cannot be evaluated on the result: {type(e).__name__}: {e}")
                if not ok:
                    wrong(f"{where}: {name}", f"got {describe(result)}" + (f", expected {describe(want)}" if want is not None else ""))
        objs = own + list(args) + list(kw.values())
        for o, old in zip(objs, before):
            skip = [a for m, attrs in c.mod if m is o for a in attrs]
            if expect_exc is not None:
                skip.append("history")
            if not same_frozen(old, freeze(o), skip):
                self.fail(f"{where}: frame", f"{describe(o)} was modified")
        if c.fresh and expect_exc is None and self.prop != "alone":
            keep = copy.deepcopy(result)
            try:
                if sp.issparse(result):
                    result.data[...] = 17.0
                elif isinstance(result, np.ndarray) and result.ndim:
                    result[...] = 17.0
            except (ValueError, TypeError):
                pass
            again = fn(*args, **kw)
            for name, pred, want in c.post:
                if not pred(again):
                    self.fail(f"{where}: {name} after a returned matrix was changed in place", f"got {describe(again)}")
            result = keep
        return result
