"""Contracts of the external libraries (numpy, scipy.sparse, torch, python
builtins) as transformers on the symbolic values.  Everything here is TRUSTED:
it states what the library functions compute over the reals."""

import ast
from fractions import Fraction

from . import terms as T
from . import theory
from . import seqs
from .terms import *
from .terms import atom, t_base
from .values import *

EPS = sym("eps")


def is_arr(v):
    return isinstance(v, Arr)


class CObj:
    """the contract's ``c``"""

    def __init__(self, impl):
        self.impl = impl


class Lib:
    def __init__(self, I):
        self.I = I
        self.axioms_used = set()
        self.ext = {}
        register_builtins(self)
        from . import frames, gplib, graphs, cvx, plots, tables
        cvx.register(self)
        gplib.register(self)
        tables.register(self)
        graphs.register(self)
        frames.register(self)
        plots.register(self)

    # ------------------------------------------------------------ names
    def external(self, mod, name):
        full = f"{mod}.{name}"
        full = ALIASES.get(full, full)
        if full in self.ext:
            v = self.ext[full]
            return v
        if full in MODULES:
            return ModuleVal(full)
        if full in CONSTS:
            return CONSTS[full]
        if full == "enum.Enum":
            return Builtin("Enum", None)
        if mod in ("typing", "collections.abc", "__future__", "warnings", "contracts.api") or full in OPAQUE_NAMES:
            return Opaque(atom("osym", full))
        if mod.split(".")[0] in ("matplotlib", "networkx", "pandas", "gpytorch", "cvxpy", "sklearn", "torch", "scipy", "numpy", "pathlib", "itertools", "abc", "os", "pkg_resources", "pickle", "json", "math", "logging", "copy", "functools", "operator", "collections", "numbers", "inspect"):
            return Opaque(atom("osym", full))
        raise Unsupported(f"import of {full}")

    def builtin(self, name):
        if name in self.ext:
            return self.ext[name]
        if name in EXC_PARENTS:
            return ExcType(name)
        if name in ("__name__", "__file__"):
            return name
        return None

    def reg(self, name, fn):
        self.ext[name] = Builtin(name, fn)

    # --------------------------------------------------------- conversion
    def as_value(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return c

    def key(self, k):
        if isinstance(k, (str, bool)) or k is None:
            return k
        if isinstance(k, Poly):
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        raise Unsupported("dictionary key")

    def scalar(self, v):
        """Poly of a number-like value"""
        v = self.I.deref(v)
        if isinstance(v, Poly):
            return v
        if isinstance(v, bool):
            return num(1 if v else 0)
        if isinstance(v, Cond):
            return ind(v)
        if isinstance(v, Arr) and v.t.ndim == 0:
            return elem(v.t, ())
        if isinstance(v, MaybeNone):
            if self.I.truth(v.isnone):
                raise PyRaise("TypeError", "None where a number is needed")
            return v.value
        raise Unsupported(f"number expected, got {type(v).__name__}")

    def is_scalar(self, v):
        return isinstance(v, (Poly, bool, Cond, MaybeNone))

    def series_array(self, v):
        return v

    def tensor_of(self, v):
        """(Tensor, kind, dtype) of an array-like"""
        v = self.series_array(v)
        o = self.I.deref(v)
        if isinstance(o, Arr):
            self.live(o)
            return o.t, o.kind, o.dtype
        if isinstance(o, BoolArr):
            vs = [T.fresh_index() for _ in o.vs]
            return T.lam(vs, o.shape, ind(o.at([atom_poly(x) for x in vs]))), "nd", "bool"
        if isinstance(o, IndexArr):
            k = T.fresh_index()
            return T.lam([k], (T.index_len(o.f),), T.index_at(o.f, atom_poly(k))), "nd", "int"
        if isinstance(o, (ListObj, SeqVal, tuple)):
            return self.stack(self.iterate(v)), "nd", "any"
        raise Unsupported(f"array expected, got {type(o).__name__}")

    def live(self, o):
        if getattr(o, "dead", False):
            raise Unsupported("view of a modified array")

    def stack(self, it):
        """tensor of a sequence of scalars or equal-shape vectors"""
        k = T.fresh_index()
        kp = atom_poly(k)
        if isinstance(it, tuple):
            if not it:
                return T.t_zeros((ZERO,))
            if all(self.is_scalar(x) for x in it):
                body = ZERO
                for j, x in enumerate(it):
                    body = body + ind(eqc(kp, j)) * self.scalar(x)
                if len(it) == 1:
                    body = self.scalar(it[0])
                return T.lam([k], (num(len(it)),), body)
            ts = [self.tensor_of(x)[0] for x in it]
            sh = ts[0].shape
            for t in ts:
                self.same_shape(t.shape, sh)
            vs = [T.fresh_index() for _ in sh]
            body = ZERO
            for j, t in enumerate(ts):
                body = body + ind(eqc(kp, j)) * elem(t, [atom_poly(v) for v in vs])
            return T.lam([k] + vs, (num(len(it)),) + sh, body)
        e = it.at(kp)
        if self.is_scalar(e):
            return T.lam([k], (it.n,), self.scalar(e))
        if isinstance(e, tuple) and all(self.is_scalar(x) for x in e):
            c = T.fresh_index()
            body = ZERO
            for j, x in enumerate(e):
                body = body + ind(eqc(atom_poly(c), j)) * self.scalar(x)
            return T.lam([k, c], (it.n, num(len(e))), body)
        t = self.tensor_of(e)[0]
        vs = [T.fresh_index() for _ in t.shape]
        return T.lam([k] + vs, (it.n,) + t.shape, elem(t, [atom_poly(v) for v in vs]))

    def same_shape(self, a, b):
        if len(a) != len(b):
            raise Unsupported(f"shapes {a} and {b}")
        for x, y in zip(a, b):
            self.same_dim(x, y)

    def same_dim(self, x, y):
        if x is y or self.I.entails(eqc(x, y)):
            return
        raise Unsupported(f"dimensions {x!r} and {y!r} may differ")

    # ---------------------------------------------------------- sequences
    def iterate(self, v):
        """tuple (concrete) or SeqVal"""
        if isinstance(v, tuple):
            if len(v) and isinstance(v[0], str) and v[0] in ("super", "exc", "slice", "tuple"):
                raise Unsupported("iteration")
            return v
        if isinstance(v, SeqVal):
            return v
        o = self.I.deref(v)
        if isinstance(o, ClassVal):
            # the members of an Enum, in order
            members = tuple(m for m in o.attrs.values() if isinstance(m, EnumMember))
            if members:
                return members
        if isinstance(o, ListObj):
            return o.items if o.items is not None else o.seq
        if isinstance(o, IterObj):
            if o.seq != ():
                self.I.store(v, IterObj(()))
            return o.seq
        if isinstance(o, SetObj):
            if o.base is not None:
                from . import sets
                return sets.elements(self, o)
            return o.items
        if isinstance(o, DictObj):
            if o.items is not None:
                return tuple(o.items)
            return self.dict_iter(o, 0)
        if isinstance(o, (Arr, IndexArr, BoolArr)):
            t, kind, dt = self.tensor_of(v)
            if kind not in ("nd", "torch"):
                raise Unsupported("iteration over a " + kind)
            n = t.shape[0].as_int()
            if n is not None and n <= 8:
                return tuple(self.getitem(v, num(j)) for j in range(n))
            return SeqVal(t.shape[0], lambda k, v=v: self.getitem(v, k, checked=True))
        if isinstance(o, Inst) and o.cls.lookup("__iter__")[1] is not None:
            return self.iterate(self.I.call(self.I.getattr(v, "__iter__"), [], {}))
        if isinstance(o, str):
            return tuple(o)
        raise Unsupported(f"iteration over {type(o).__name__}")

    def dict_keys(self, o):
        raise Unsupported("symbolic dictionary")

    def concrete_items(self, v):
        it = self.iterate(v)
        if not isinstance(it, tuple):
            raise Unsupported("sequence of unknown length")
        return it

    def unpack(self, v, n):
        it = self.iterate(v)
        if isinstance(it, tuple):
            if len(it) != n:
                raise PyRaise("ValueError", "unpack")
            return it
        if self.I.truth(eqc(it.n, n)):
            return tuple(it.at(num(j)) for j in range(n))
        raise PyRaise("ValueError", "unpack")

    def length(self, v):
        o = self.I.deref(v)
        if isinstance(o, str):
            return num(len(o))
        if isinstance(o, tuple):
            return num(len(o))
        if isinstance(o, SeqVal):
            return o.n
        if isinstance(o, ListObj):
            if o.items is None:
                from . import graphs, sets
                if isinstance(o.seq, graphs.FilterSeq) and sets.depends((o.seq.m, o.seq.cond(ZERO))) or isinstance(o.seq, sets.SortedSeq) and o.seq.key is None:
                    raise Unsupported("length of a filtered list inside of a loop")
            return num(len(o.items)) if o.items is not None else o.seq.n
        if isinstance(o, SetObj):
            if o.base is not None:
                raise Unsupported("number of the elements of a set")
            return num(len(o.items))
        if isinstance(o, DictObj):
            if o.items is not None:
                return num(len(o.items))
            if not isinstance(o.base, SymDict):
                from . import tables
                tables.distinct_keys(self, o.base[1])
            return o.base.n if isinstance(o.base, SymDict) else o.base[1].n
        if isinstance(o, (Arr, BoolArr, IndexArr)):
            t, kind, _ = self.tensor_of(v)
            if kind == "csr":
                raise PyRaise("TypeError", "sparse matrix length is ambiguous")
            if not t.shape:
                raise PyRaise("TypeError", "len of scalar")
            return t.shape[0]
        if isinstance(o, Inst) and o.cls.lookup("__len__")[1] is not None:
            return self.I.call(self.I.getattr(v, "__len__"), [], {})
        raise Unsupported(f"len of {type(o).__name__}")

    # ---------------------------------------------------------- indexing
    def dim_index(self, k, n, checked=False):
        """normalised index into an axis of length n"""
        k = self.scalar(k)
        c = k.as_int()
        if c is not None and c < 0:
            k2 = n + k
            if not self.I.entails(le(ZERO, k2)) and not self.I.truth(le(ZERO, k2)):
                raise PyRaise("IndexError")
            return k2
        if checked or self.I.entails(c_and(le(ZERO, k), lt(k, n))):
            return k
        if self.I.entails(lt(k, ZERO)):
            k2 = n + k
            if self.I.entails(le(ZERO, k2)):
                return k2
            raise Unsupported("negative index")
        if not self.I.truth(le(ZERO, k)):
            # python wraps negative indices
            if self.I.truth(le(ZERO, n + k)):
                return n + k
            raise PyRaise("IndexError")
        if not self.I.truth(lt(k, n)):
            raise PyRaise("IndexError")
        return k

    def clip(self, x, n, default):
        """slice bound clipped to [0, n]"""
        if x is None:
            return default
        x = self.scalar(x)
        ent = self.I.entails
        c = x.as_int()
        if c is not None and c < 0 or (c is None and not ent(le(ZERO, x)) and ent(lt(x, ZERO))):
            x = n + x
            if ent(le(ZERO, x)):
                return x
            return ite(lt(x, ZERO), ZERO, x)
        if ent(le(ZERO, x)):
            if ent(le(x, n)):
                return x
            if ent(le(n, x)):
                return n
            return ite(lt(x, n), x, n)
        if self.I.truth(le(ZERO, x)):
            return self.clip(x, n, default)
        return self.clip(x, n, default)

    def slice_bounds(self, s, n):
        _, lo, hi, step = s
        if step is not None:
            st = self.scalar(step)
            k = st.as_int()
            if k == -1 and lo is None and hi is None:
                return ("rev", n)
            if k != 1:
                raise Unsupported("slice step")
        lo, hi = self.clip(lo, n, ZERO), self.clip(hi, n, n)
        d = hi - lo
        if not self.I.entails(le(ZERO, d)):
            if self.I.entails(le(d, ZERO)):
                d = ZERO
            elif not self.I.truth(le(ZERO, d)):
                d = ZERO
        return (lo, d)

    def make_filter(self, v, n, c):
        """ascending indices v < n with c; an explicit list when c says
        v = a or v = b"""
        cand = []

        def walk(x):
            if isinstance(x, Cond) and x.op == "eq0":
                t = T.solve_for(x.args[0], v) if x.args[0].is_int() else None
                if t is not None and t not in cand:
                    cand.append(t)
                    return
            if isinstance(x, Node):
                for y in x.args:
                    walk(y)
            elif isinstance(x, tuple):
                for y in x:
                    walk(y)
        walk(c)
        vp = atom_poly(v)
        ent = lambda g, *h: self.I.entails_under([le(ZERO, vp), lt(vp, n)] + list(h), g)
        if 2 <= len(cand) <= 4:
            cand = [t for t in cand if not self.I.entails(c_not(subst(c, {v: t})))]
        if 1 <= len(cand) <= 2:
            eqs = [eqc(vp, t) for t in cand]
            if (all(self.I.entails(c_and(le(ZERO, t), lt(t, n))) for t in cand) and (len(cand) == 1 or self.I.entails(c_not(eqc(*cand))))
                    and ent(c_or(*eqs), c) and ent(c, c_or(*eqs))):
                k = T.fresh_index()
                if len(cand) == 1:
                    return T.lam([k], (ONE,), cand[0])
                a, b = cand
                i = ind(lt(a, b))
                mn, mx = i * a + (ONE - i) * b, i * b + (ONE - i) * a
                z = ind(eqc(atom_poly(k), ZERO))
                return T.lam([k], (num(2),), z * mn + (ONE - z) * mx)
        return T.filter_ix(v, n, c)

    def as_index(self, x):
        """index list of an array-like used as an index, or None"""
        o = self.I.deref(x)
        if isinstance(o, IndexArr):
            return o.f
        if isinstance(o, BoolArr):
            if len(o.shape) != 1:
                raise Unsupported("mask of several dimensions")
            v = T.fresh_index()
            return self.make_filter(v, o.shape[0], o.at([atom_poly(v)]))
        if isinstance(o, Arr):
            if o.t.ndim == 1 and o.dtype == "int":
                return o.t
            if o.t.ndim == 0:
                return None
            raise Unsupported("array index")
        if isinstance(o, ListObj):
            return self.tensor_of(x)[0]
        return None

    def axes(self, idx, shape):
        """index expression per axis: ('int', k) ('slice', lo, len) ('rev', n)
        ('list', ix) ('new',)"""
        parts = list(idx[1:]) if isinstance(idx, tuple) and len(idx) and idx[0] == "tuple" else [idx]
        if isinstance(idx, tuple) and not (len(idx) and isinstance(idx[0], str)):
            parts = list(idx)
        if any(p is Ellipsis for p in parts):
            k = [i for i, p in enumerate(parts) if p is Ellipsis][0]
            real = sum(1 for p in parts if p is not None and p is not Ellipsis)
            parts[k:k + 1] = [("slice", None, None, None)] * (len(shape) - real)
        out, ax = [], 0
        for p in parts:
            if p is None:
                out.append(("new",))
                continue
            if ax >= len(shape):
                raise PyRaise("IndexError", "too many indices")
            n = shape[ax]
            ax += 1
            if isinstance(p, tuple) and len(p) and p[0] == "slice":
                b = self.slice_bounds(p, n)
                out.append(b if b[0] == "rev" else ("slice",) + b)
                continue
            ix = self.as_index(p) if not self.is_scalar(p) else None
            if ix is not None:
                out.append(("list", ix))
            else:
                out.append(("int", self.dim_index(p, n, self._checked)))
        while ax < len(shape):
            out.append(("slice", ZERO, shape[ax]))
            ax += 1
        return out

    _checked = False

    def getitem(self, obj, idx, checked=False):
        o = self.I.deref(obj)
        if isinstance(o, (Arr, BoolArr, IndexArr)):
            return self.get_array(obj, o, idx, checked)
        if isinstance(idx, tuple) and len(idx) and idx[0] == "tuple":
            idx = tuple(idx[1:])
        if isinstance(o, DictObj):
            return self.dict_get(o, idx)
        if isinstance(o, str):
            raise Unsupported("string index")
        if isinstance(o, (tuple, ListObj, SeqVal)):
            it = self.iterate(obj)
            if isinstance(idx, tuple) and len(idx) and idx[0] == "slice":
                return self.seq_slice(obj, it, idx)
            n = self.length(obj)
            k = self.dim_index(idx, n, checked)
            if isinstance(it, tuple):
                c = k.as_int()
                if c is not None:
                    return it[c]
                if not it:
                    raise PyRaise("IndexError")
                alts = [(eqc(k, j), x) for j, x in enumerate(it)]
                return self.choose(alts)
            return it.at(k)
        if isinstance(o, Inst) and o.cls.lookup("__getitem__")[1] is not None:
            return self.I.call(self.I.getattr(obj, "__getitem__"), [idx], {})
        if isinstance(o, Inst) or isinstance(o, Opaque):
            return self.opaque_item(obj, idx)
        raise Unsupported(f"index into {type(o).__name__}")

    def opaque_item(self, obj, idx):
        raise Unsupported("index into an unknown object")

    def choose(self, alts):
        vals = [v for _, v in alts]
        if all(self.is_scalar(v) for v in vals):
            out = self.scalar(vals[-1])
            for c, v in reversed(alts[:-1]):
                out = ite(c, self.scalar(v), out)
            return out
        for c, v in alts[:-1]:
            if self.I.truth(c):
                return v
        return vals[-1]

    def seq_slice(self, obj, it, idx):
        n = self.length(obj)
        b = self.slice_bounds(idx, n)
        if isinstance(it, tuple):
            if b[0] == "rev":
                r = tuple(reversed(it))
            else:
                lo, d = b[0].as_int(), b[1].as_int()
                if lo is None or d is None:
                    raise Unsupported("slice of a list")
                r = it[lo:lo + d]
            return r if isinstance(obj, tuple) else self.I.new_list(r)
        if b[0] == "rev":
            return self.I.alloc(ListObj(seq=SeqVal(n, lambda k: it.at(n - 1 - num(k)))))
        lo, d = b
        return self.I.alloc(ListObj(seq=SeqVal(d, lambda k: it.at(lo + num(k)))))

    def dict_get(self, o, k, default=None, has_default=False):
        if o.items is None:
            return self.symdict_get(o, k, default, has_default)
        if isinstance(k, SymStr):
            for kk, v in o.items.items():
                if isinstance(kk, str) and self.I.truth(eqc(k.p, code(kk))):
                    return v
            if has_default:
                return default
            raise PyRaise("KeyError")
        k = self.key(k)
        if k in o.items:
            return o.items[k]
        if o.items and (not concrete_key(k) or not all(concrete_key(x) for x in o.items)):
            raise Unsupported("symbolic dictionary key")
        if has_default:
            return default
        raise PyRaise("KeyError")

    def symdict_get(self, o, k, default, has_default):
        b = o.base
        if isinstance(b, SymDict):
            return b.get(self, k, default, has_default)
        from . import tables
        return tables.comp_get(self, b, k, default, has_default)

    def get_array(self, obj, o, idx, checked=False):
        if isinstance(o, BoolArr):
            t, kind, dt = self.tensor_of(obj)
            self._checked = checked
            try:
                ax = self.axes(idx, t.shape)
            finally:
                self._checked = False
            if all(a[0] == "int" for a in ax):
                return self.as_value(o.at([a[1] for a in ax]))
            raise Unsupported("slice of a boolean array")
        if isinstance(o, IndexArr):
            t, kind, dt = self.tensor_of(obj)
        else:
            self.live(o)
            t, kind, dt = o.t, o.kind, o.dtype
        if kind in ("csr", "mat"):
            raise Unsupported("index into a " + kind)
        self._checked = checked
        try:
            ax = self.axes(idx, t.shape)
        finally:
            self._checked = False
        lists = [a for a in ax if a[0] == "list"]
        if len(lists) > 1:
            raise Unsupported("several index arrays")
        # structured forms
        if len(ax) == 2 and t.ndim == 2 and ax[0][0] == "slice" and self.whole(ax[0], t.shape[0]) and ax[1][0] == "list":
            self.check_ix(ax[1][1], t.shape[1])
            return self.I.arr(T.matmul(t, T.selm(t.shape[1], ax[1][1])), kind, dt)
        if len(ax) == 2 and t.ndim == 2 and ax[0][0] == "list" and self.whole(ax[1], t.shape[1]):
            self.check_ix(ax[0][1], t.shape[0])
            return self.I.arr(T.matmul(T.t_transpose(T.selm(t.shape[0], ax[0][1])), t), kind, dt)
        if all(a[0] == "int" for a in ax):
            return elem(t, [a[1] for a in ax])
        shape, vs, src = [], [], []
        k = 0
        for a in ax:
            if a[0] == "new":
                v = T.fresh_index()
                shape.append(ONE)
                vs.append(v)
                continue
            if a[0] == "int":
                src.append(a[1])
                continue
            v = T.fresh_index()
            p = atom_poly(v)
            vs.append(v)
            if a[0] == "slice":
                shape.append(a[2])
                src.append(a[1] + p)
            elif a[0] == "rev":
                shape.append(a[1])
                src.append(a[1] - 1 - p)
            else:
                self.check_ix(a[1], t.shape[k])
                shape.append(T.index_len(a[1]))
                src.append(T.index_at(a[1], p))
            k += 1
        if all(self.whole(a, n) for a, n in zip(ax, t.shape)) and len(ax) == t.ndim:
            r = self.I.arr(t, kind, dt)
        else:
            r = self.I.arr(T.lam(vs, shape, elem(t, src)), kind, dt)
        if not lists and isinstance(obj, Ref):
            self.I.add_view(obj, r)
        return r

    def whole(self, a, n):
        return a[0] == "slice" and a[1] is ZERO and a[2] is n

    def check_ix(self, ix, n):
        """index arrays built by filters over the same axis are in range"""
        if not isinstance(ix, Tensor) and ix.op == "filter":
            if ix.args[1] is n or self.I.entails(eqc(ix.args[1], n)):
                return
        if isinstance(ix, Tensor):
            k = T.fresh_index()
            p = atom_poly(k)
            e = elem(ix, (p,))
            if self.I.entails_under([le(ZERO, p), lt(p, ix.shape[0])], c_and(le(ZERO, e), lt(e, n))):
                return
            for jx, m in self.I.index_facts:
                if jx is ix and (m is n or self.I.entails(le(m, n))):
                    return
        raise Unsupported("index array possibly out of range")

    # ---------------------------------------------------------- stores
    def setitem(self, obj, idx, val):
        o = self.I.deref(obj)
        if isinstance(o, DictObj):
            if o.items is None and isinstance(o.base, tuple):
                # pairs in the order of the stores; the last one of a key counts
                k = tuple(idx[1:]) if isinstance(idx, tuple) and idx and idx[0] == "tuple" else idx
                if o.base[0] != "comp" and not getattr(o.base[1], "is_havoc", False):
                    raise Unsupported("stores and defaults in a dictionary")
                self.I.store(obj, DictObj(base=("comp", concat_seq(self, o.base[1], tuple_seq(self, ((k, val),))))))
                return
            if o.items is None:
                raise Unsupported("store into a symbolic dictionary")
            k = idx if not (isinstance(idx, tuple) and idx and idx[0] == "tuple") else tuple(idx[1:])
            k = self.key(k)
            if not concrete_key(k) and (o.items and any(x is not k for x in o.items)):
                raise Unsupported("symbolic dictionary key")
            d = dict(o.items)
            d[k] = val
            self.I.store(obj, DictObj(items=d))
            return
        if isinstance(o, ListObj):
            n = self.length(obj)
            k = self.dim_index(idx, n)
            if o.items is not None and k.as_int() is not None:
                it = list(o.items)
                it[k.as_int()] = val
                self.I.store(obj, ListObj(items=tuple(it)))
                return
            raise Unsupported("store into a list")
        if isinstance(o, Inst) and o.cls.lookup("__setitem__")[1] is not None:
            idx = tuple(idx[1:]) if isinstance(idx, tuple) and idx and idx[0] == "tuple" else idx
            self.I.call(self.I.getattr(obj, "__setitem__"), [idx, val], {})
            return
        if not isinstance(o, Arr):
            raise Unsupported(f"store into {type(o).__name__}")
        self.live(o)
        if obj.id in self.I.view_of:
            raise Unsupported("store through a view")
        if o.kind in ("csr", "mat"):
            raise Unsupported("store into a " + o.kind)
        t = o.t
        # masks
        io = self.I.deref(idx) if not isinstance(idx, tuple) else None
        if isinstance(io, BoolArr):
            self.same_shape(io.shape, t.shape)
            vt, vdt = self.value_tensor(val)
            if vt.ndim:
                raise Unsupported("masked store of an array")
            vs = [T.fresh_index() for _ in t.shape]
            p = [atom_poly(v) for v in vs]
            nt = T.lam(vs, t.shape, ite(io.at(p), elem(vt, ()), elem(t, p)))
        else:
            ax = self.axes(idx, t.shape)
            ax = [a for a in ax if a[0] != "new"]
            vt, vdt = self.value_tensor(val)
            vs = [T.fresh_index() for _ in t.shape]
            p = [atom_poly(v) for v in vs]
            conds, vidx, vshape = [], [], []
            for a, q, n in zip(ax, p, t.shape):
                if a[0] == "int":
                    conds.append(eqc(q, a[1]))
                elif a[0] == "slice":
                    if not self.whole(a, n):
                        conds.append(c_and(le(a[1], q), lt(q, a[1] + a[2])))
                    vidx.append(q - a[1])
                    vshape.append(a[2])
                elif a[0] == "list":
                    if vt.ndim:
                        raise Unsupported("indexed store of an array")
                    self.check_ix(a[1], n)
                    k = T.fresh_index()
                    conds.append(T.exists(k, T.index_len(a[1]), eqc(q, T.index_at(a[1], atom_poly(k)))))
                    vshape.append(T.index_len(a[1]))
                else:
                    raise Unsupported("store index")
            if vt.ndim > len(vshape):
                # leading axes of length one may be dropped
                extra = vt.ndim - len(vshape)
                if not all(s is ONE for s in vt.shape[:extra]):
                    raise Unsupported("store shape")
                vt2 = [ZERO] * extra
            else:
                vt2 = []
            sub = vshape[len(vshape) - (vt.ndim - len(vt2)):]
            vi = vidx[len(vidx) - (vt.ndim - len(vt2)):] if vt.ndim - len(vt2) else []
            for j, (a, b) in enumerate(zip(vt.shape[len(vt2):], sub)):
                if a is ONE and b is not ONE:
                    vi[j] = ZERO
                elif a is not b:
                    if not self.I.entails(eqc(a, b)):
                        raise Unsupported(f"store shape {a!r} into {b!r}")
            new = elem(vt, vt2 + list(vi))
            nt = T.lam(vs, t.shape, ite(c_and(*conds), new, elem(t, p)))
        self.check_dtype(o.dtype, vdt)
        self.I.store(obj, Arr(nt, o.kind, o.dtype))

    def check_dtype(self, dst, src):
        if dst == "float" or dst == src:
            return
        if dst == "int" and src == "bool":
            return
        raise Unsupported(f"store of {src} values into a {dst} array")

    def value_tensor(self, v):
        o = self.I.deref(v)
        if isinstance(o, (bool, Cond)):
            return T.tensor((), {(): self.scalar(o)}) if False else T.lam([], (), self.scalar(o)), "bool"
        if isinstance(o, Poly):
            return T.lam([], (), o), "int" if o.is_int() else "float"
        t, kind, dt = self.tensor_of(v)
        return t, dt

    # -------------------------------------------------------- arithmetic
    def neg(self, v):
        if self.is_scalar(v):
            return -self.scalar(v)
        t, kind, dt = self.tensor_of(v)
        return self.I.arr(T.t_scale(t, num(-1)), kind, dt)

    def invert(self, v):
        o = self.I.deref(v)
        if isinstance(o, BoolArr):
            return BoolArr(o.vs, o.shape, c_not(o.c))
        raise Unsupported("~")

    def inplace(self, op, old, rhs):
        o = self.I.deref(old)
        if isinstance(o, Arr):
            if old.id in self.I.view_of:
                raise Unsupported("update through a view")
            if o.kind in ("csr",):
                return self.binop(op, old, rhs)
            r = self.binop(op, old, rhs)
            ro = self.I.deref(r)
            self.same_shape(ro.t.shape, o.t.shape)
            self.check_dtype(o.dtype, ro.dtype)
            if ro.kind != o.kind and not (o.kind == "nd" and ro.kind == "mat"):
                raise Unsupported("in-place update changes the kind")
            self.I.store(old, Arr(ro.t, o.kind, o.dtype))
            return old
        if isinstance(o, ListObj) and isinstance(op, ast.Add):
            r = self.binop(op, old, self.I.new_list(self.concrete_items(rhs)) if isinstance(self.iterate(rhs), tuple) else rhs)
            self.I.store(old, self.I.deref(r))
            return old
        if isinstance(o, (SetObj, DictObj)):
            raise Unsupported("in-place operation")
        return self.binop(op, old, rhs)

    def binop(self, op, a, b):
        a, b = self.series_array(a), self.series_array(b)
        ao, bo = self.I.deref(a), self.I.deref(b)
        if isinstance(ao, str) or isinstance(bo, str) or (isinstance(ao, Opaque) and ao.a.args and ao.a.args[0] == "fstring"):
            if isinstance(op, (ast.Add, ast.Mod)):
                if isinstance(op, ast.Add) and isinstance(ao, (str, SymStr)) and isinstance(bo, (str, SymStr)):
                    from . import frames
                    return frames.join([ao, bo])
                return Opaque(atom("osym", "fstring"))
        if isinstance(ao, SetObj) and isinstance(bo, SetObj):
            if ao.base is not None or bo.base is not None or not all(isinstance(x, str) for x in ao.items + bo.items):
                raise Unsupported("set operation")
            if isinstance(op, ast.BitOr):
                r = tuple(dict.fromkeys(ao.items + bo.items))
            elif isinstance(op, (ast.Sub, ast.BitAnd)):
                r = tuple(x for x in ao.items if (x in bo.items) == isinstance(op, ast.BitAnd))
            else:
                raise Unsupported("set operation")
            return self.I.alloc(SetObj(r))
        if isinstance(ao, BoolArr) and isinstance(bo, BoolArr) and isinstance(op, (ast.BitAnd, ast.BitOr)):
            self.same_shape(ao.shape, bo.shape)
            vs = [T.fresh_index() for _ in ao.vs]
            p = [atom_poly(v) for v in vs]
            f = c_and if isinstance(op, ast.BitAnd) else c_or
            return BoolArr(vs, ao.shape, f(ao.at(p), bo.at(p)))
        if isinstance(ao, tuple) and isinstance(bo, tuple) and isinstance(op, ast.Add):
            return ao + bo
        if isinstance(ao, ListObj) and isinstance(bo, ListObj) and isinstance(op, ast.Add):
            return self.list_concat(ao, bo)
        if isinstance(ao, ListObj) and isinstance(op, ast.Mult) and self.is_scalar(bo):
            n = self.scalar(bo)
            if ao.items is not None and len(ao.items) == 1:
                x = ao.items[0]
                return self.I.alloc(ListObj(seq=SeqVal(ite(lt(n, ZERO), ZERO, n) if not self.I.entails(le(ZERO, n)) else n, lambda k: x)))
            raise Unsupported("list repetition")
        if self.is_scalar(ao) and self.is_scalar(bo):
            return self.scalar_op(op, self.scalar(ao), self.scalar(bo))
        from . import cvx
        if cvx.is_expr(self.I, a) or cvx.is_expr(self.I, b):
            return cvx.binop(self, op, a, b)
        if isinstance(ao, Opaque) or isinstance(bo, Opaque):
            raise Unsupported("operator on unknown values")
        sa, sb = self.is_scalar(ao), self.is_scalar(bo)
        ta, ka, da = (self.scalar(ao), None, "int" if self.scalar(ao).is_int() else "float") if sa else self.tensor_of(a)
        tb, kb, db = (self.scalar(bo), None, "int" if self.scalar(bo).is_int() else "float") if sb else self.tensor_of(b)
        kinds = {ka, kb} - {None}
        dt = "float" if "float" in (da, db) else "any" if "any" in (da, db) else "int"
        if dt == "any" and {da, db} <= {"any", "int", "bool"}:
            dt = "any"
        kind = "torch" if "torch" in kinds else "mat" if kinds in ({"csr", "nd"}, {"mat", "nd"}, {"mat", "csr"}, {"mat"}) else kinds.pop()
        arr = self.I.arr
        if isinstance(op, ast.MatMult):
            if sa or sb:
                raise PyRaise("ValueError", "matmul with a scalar")
            return self.matmul(ta, ka, tb, kb, dt)
        if isinstance(op, (ast.Add, ast.Sub)):
            if kind in ("csr",) and (sa or sb):
                raise Unsupported("sparse + scalar")
            if not sa and not sb and ta.ndim == tb.ndim and self.shapes_equal(ta.shape, tb.shape):
                tb = tb if isinstance(op, ast.Add) else T.t_scale(tb, num(-1))
                if tb.shape != ta.shape:
                    tb = T.tensor(ta.shape, dict(tb.args[1]))
                return arr(T.t_add(ta, tb), kind, dt)
            f = (lambda x, y: x + y) if isinstance(op, ast.Add) else (lambda x, y: x - y)
            return arr(self.emap(f, ta, tb), kind, dt)
        if isinstance(op, ast.Mult):
            if sa:
                return arr(T.t_scale(tb, ta), kind, dt)
            if sb:
                return arr(T.t_scale(ta, tb), kind, dt)
            if kinds & {"csr", "mat"} or kind in ("csr", "mat"):
                return self.matmul(ta, ka, tb, kb, dt)
            for p, q in ((ta, tb), (tb, ta)):
                # multiplication by a constant array of the same shape
                vs = [T.fresh_index() for _ in q.shape]
                e = elem(q, [atom_poly(v) for v in vs])
                if not set(vs) & free(e) and q.ndim <= p.ndim and p.ndim == 2:
                    out = T.t_scale(p, e)
                    full_shape = self.emap(lambda x, y: x, ta, tb).shape
                    if self.shapes_equal(full_shape, p.shape):
                        return arr(out, kind, dt)
                # columns scaled by a vector: A diag(v)
                if p.ndim == 2 and q.ndim == 1 and not any(len(w) == 1 and w[0][0].op == "lam" for w, c in p.args[1]) and (
                        p.shape[1] is not ONE and q.shape[0] is not ONE and self.shapes_equal(p.shape[1:], q.shape)):
                    return arr(T.matmul(p, T.diag(q)), kind, dt)
            return arr(self.emap(lambda x, y: x * y, ta, tb), kind, dt)
        if isinstance(op, ast.Div):
            if sb:
                return arr(T.t_scale(ta, T.inv(tb)), kind, "float")
            if kind in ("csr", "mat"):
                raise Unsupported("matrix division")
            return arr(self.emap(lambda x, y: x * T.inv(y), ta, tb), kind, "float")
        if isinstance(op, ast.Pow):
            if kind in ("csr", "mat") and not sa:
                if not sb or not tb.is_int():
                    raise Unsupported("matrix power")
                if not self.I.entails(le(ZERO, tb)):
                    raise Unsupported("matrix power of a possibly negative exponent")
                self.same_dim(ta.shape[0], ta.shape[1])
                return arr(T.mpow(ta, tb), kind, dt)
            f = lambda x, y: T.power(x, y)
            return arr(self.emap(f, ta, tb), kind, "float" if dt == "any" and not sb else dt)
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and kind in ("nd", "torch"):
            if isinstance(op, ast.FloorDiv):
                return arr(self.emap(lambda x, y: fl(x * T.inv(y)), ta, tb), kind, dt)
            return arr(self.emap(lambda x, y: x - y * fl(x * T.inv(y)), ta, tb), kind, dt)
        raise Unsupported(f"operator {type(op).__name__} on arrays")

    def shapes_equal(self, a, b):
        return all(x is y or self.I.entails(eqc(x, y)) for x, y in zip(a, b))

    def emap(self, f, a, b):
        sa = a.shape if isinstance(a, Tensor) else ()
        sb = b.shape if isinstance(b, Tensor) else ()
        n = max(len(sa), len(sb))
        pa, pb = (None,) * (n - len(sa)) + tuple(sa), (None,) * (n - len(sb)) + tuple(sb)
        shape = []
        for x, y in zip(pa, pb):
            if x is None or (x is ONE and y is not None and y is not ONE):
                shape.append(y)
            elif y is None or (y is ONE and x is not ONE):
                shape.append(x)
            else:
                if x is not y and not self.I.entails(eqc(x, y)):
                    raise Unsupported(f"broadcast of {x!r} and {y!r}")
                shape.append(x)
        vs = [T.fresh_index() for _ in shape]
        idx = [atom_poly(v) for v in vs]

        def at(t, p):
            if not isinstance(t, Tensor):
                return t
            return elem(t, [ZERO if (d is ONE and s is not ONE) else i for d, s, i in zip(p, shape, idx) if d is not None])
        return T.lam(vs, shape, f(at(a, pa), at(b, pb)))

    def matmul(self, ta, ka, tb, kb, dt="float"):
        if ta.ndim == 0 or tb.ndim == 0 or ta.ndim > 2 or tb.ndim > 2:
            raise Unsupported("matmul of these dimensions")
        self.same_dim(ta.shape[-1], tb.shape[0])
        r = T.matmul(ta, tb)
        if isinstance(r, Poly):
            return r
        kinds = {ka, kb}
        if "torch" in kinds:
            kind = "torch"
        elif "mat" in kinds:
            kind = "mat"
        elif kinds == {"csr"}:
            kind = "csr"
        else:
            kind = "nd"
        if kind == "mat" and r.ndim == 1:
            v, u = T.fresh_index(), T.fresh_index()
            r = T.lam([u, v], (ONE, r.shape[0]), elem(r, (atom_poly(v),)))
        return self.I.arr(r, kind, dt)

    def scalar_op(self, op, a, b):
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            return a * T.inv(b)
        if isinstance(op, ast.Pow):
            return T.power(a, b)
        if isinstance(op, ast.FloorDiv):
            return floor_div(self, a, b)
        if isinstance(op, ast.Mod):
            k = b.as_int()
            if a.is_int() and k and k > 0:
                return mod(a, b)
            return a - b * fl(a * T.inv(b), a, b)
        raise Unsupported("scalar operator " + type(op).__name__)

    # -------------------------------------------------------- comparison
    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identity(a, b)
            return self.as_value(r if isinstance(op, ast.Is) else c_not(r))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return self.as_value(r if isinstance(op, ast.In) else c_not(r))
        a, b = self.series_array(a), self.series_array(b)
        ao, bo = self.I.deref(a), self.I.deref(b)
        from . import cvx
        if cvx.is_expr(self.I, a) or cvx.is_expr(self.I, b):
            return cvx.compare(self, op, a, b)
        if isinstance(ao, (Arr, IndexArr)) or isinstance(bo, (Arr, IndexArr)):
            ta = self.scalar(ao) if self.is_scalar(ao) else self.tensor_of(a)[0]
            tb = self.scalar(bo) if self.is_scalar(bo) else self.tensor_of(b)[0]
            for x in (ao, bo):
                if isinstance(x, Arr) and x.kind in ("csr", "mat"):
                    raise Unsupported("comparison of matrices")
            cell = []

            def f(x, y):
                cell.append(self.rel(op, x, y))
                return ZERO
            sa = ta.shape if isinstance(ta, Tensor) else ()
            sb = tb.shape if isinstance(tb, Tensor) else ()
            shape = sa if len(sa) >= len(sb) else sb
            if sa and sb:
                self.same_shape(sa, sb)
            vs = [T.fresh_index() for _ in shape]
            p = [atom_poly(v) for v in vs]
            c = self.rel(op, elem(ta, p) if isinstance(ta, Tensor) else ta, elem(tb, p) if isinstance(tb, Tensor) else tb)
            return BoolArr(vs, shape, c)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            return self.as_value(r if isinstance(op, ast.Eq) else c_not(r))
        if isinstance(ao, tuple) and isinstance(bo, tuple) and len(ao) == len(bo):
            from . import sets
            x, y = (sets.key_of(self, z) for z in (ao, bo))
            less, more = sets.lex(x, y), sets.lex(y, x)
            return self.as_value({ast.Lt: less, ast.Gt: more, ast.LtE: c_not(more), ast.GtE: c_not(less)}[type(op)])
        return self.as_value(self.rel(op, self.scalar(a), self.scalar(b)))

    def rel(self, op, x, y):
        if isinstance(op, ast.Lt):
            return lt(x, y)
        if isinstance(op, ast.LtE):
            return le(x, y)
        if isinstance(op, ast.Gt):
            return lt(y, x)
        if isinstance(op, ast.GtE):
            return le(y, x)
        if isinstance(op, ast.Eq):
            return eqc(x, y)
        if isinstance(op, ast.NotEq):
            return c_not(eqc(x, y))
        raise Unsupported("comparison")

    def equal(self, a, b):
        """condition for python ==  (non-arrays)"""
        ao, bo = self.I.deref(a), self.I.deref(b)
        if isinstance(ao, SymStr) or isinstance(bo, SymStr):
            x, y = (ao, bo) if isinstance(ao, SymStr) else (bo, ao)
            if isinstance(y, SymStr):
                return eqc(x.p, y.p)
            if isinstance(y, str):
                return eqc(x.p, code(y))
            return FALSE
        if isinstance(ao, str) or isinstance(bo, str):
            if isinstance(ao, Opaque) or isinstance(bo, Opaque):
                raise Unsupported("comparison of an unknown string")
            return TRUE if isinstance(ao, str) and isinstance(bo, str) and ao == bo else FALSE
        if ao is None or bo is None:
            if isinstance(ao, Opaque) or isinstance(bo, Opaque):
                raise Unsupported("comparison of an unknown value")
            return TRUE if ao is bo else FALSE
        if self.is_scalar(ao) and self.is_scalar(bo):
            return eqc(self.scalar(ao), self.scalar(bo))
        if isinstance(ao, tuple) and isinstance(bo, tuple):
            if len(ao) != len(bo):
                return FALSE
            return c_and(*[self.equal(x, y) for x, y in zip(ao, bo)])
        if isinstance(ao, ListObj) and isinstance(bo, ListObj):
            if ao is bo:
                return TRUE
            if ao.items is not None and bo.items is not None:
                if len(ao.items) != len(bo.items):
                    return FALSE
                return c_and(*[self.equal(x, y) for x, y in zip(ao.items, bo.items)])
            if ao.items == () or bo.items == ():
                return eqc(self.length(a), self.length(b))
        if isinstance(ao, EnumMember) or isinstance(bo, EnumMember):
            return TRUE if ao is bo else FALSE
        if ao is bo:
            return TRUE
        if type(ao) is not type(bo) and not isinstance(ao, Opaque) and not isinstance(bo, Opaque):
            return FALSE
        raise Unsupported("== on these values")

    def identity(self, a, b):
        if a is None or b is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported("is None of an unknown value")
            if isinstance(a, MaybeNone) or isinstance(b, MaybeNone):
                return (a if isinstance(a, MaybeNone) else b).isnone
            return TRUE if a is b else FALSE
        if isinstance(a, bool) or isinstance(b, bool):
            return self.equal(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return TRUE if a == b else FALSE
        if a is b:
            return TRUE
        if isinstance(a, ClassVal) and isinstance(b, ClassVal):
            return FALSE
        raise Unsupported("is")

    def contains(self, cont, x):
        o = self.I.deref(cont)
        from . import graphs, sets, tables
        if isinstance(o, SetObj) and o.base is not None:
            return sets.contains(self, o, x)
        if isinstance(o, DictObj):
            if o.items is None:
                if isinstance(o.base, SymDict):
                    return o.base.has(self, x)
                if getattr(o.base[1], "is_havoc", False):
                    return sets.in_havoc(o.base[1].name, sets.key_of(self, x))
                return tables.comp_index(self, *reversed(o.base))[0](x)
            items = tuple(o.items)
        elif isinstance(o, Inst) and o.cls.lookup("__contains__")[1] is not None:
            return self.I.truth_cond(self.I.call(self.I.getattr(cont, "__contains__"), [x], {}))
        else:
            it = self.iterate(cont)
            if not isinstance(it, tuple):
                if getattr(it, "is_havoc", False):
                    return sets.in_havoc(it.name, sets.key_of(self, x))
                if getattr(it, "parts", None):
                    return c_or(*[self.contains(p, x) for p in it.parts])
                if isinstance(it, (sets.GenSeq, sets.SortedSeq)):
                    return sets.member(it.gens, sets.key_of(self, x))
                if isinstance(it, graphs.FilterSeq):
                    return sets.member(sets.of_seq(self, it), sets.key_of(self, x))
                if it.key is not None and it.key.op == "seq":
                    k = x if isinstance(x, tuple) else (x,)
                    if not all(self.is_scalar(y) for y in k):
                        raise Unsupported("in")
                    if (it.key.args[2] or 1) != len(k):
                        return FALSE
                    return seqs.contains(it.key, tuple(self.scalar(y) for y in k))
                v = T.fresh_index()
                return T.exists(v, it.n, self.equal(it.at(atom_poly(v)), x))
            items = it
        return c_or(*[self.equal(x, y) for y in items])

    # ---------------------------------------------------------- lists
    def list_concat(self, a, b):
        if a.items is not None and b.items is not None:
            return self.I.new_list(a.items + b.items)
        x = a.seq if a.items is None else tuple_seq(self, a.items)
        y = b.seq if b.items is None else tuple_seq(self, b.items)
        return self.I.alloc(ListObj(seq=concat_seq(self, x, y)))

    # ---------------------------------------------------------- getattr
    def getattr(self, obj, name):
        o = self.I.deref(obj)
        if isinstance(o, CObj):
            return o.impl.attr(name)
        if isinstance(o, (Arr, BoolArr, IndexArr)):
            return self.arr_attr(obj, o, name)
        if isinstance(o, ListObj):
            return self.list_attr(obj, o, name)
        if isinstance(o, DictObj):
            return self.dict_attr(obj, o, name)
        if isinstance(o, SetObj) and name == "update":
            def update(*xs):
                for x in xs:
                    for y in self.concrete_items(x):
                        self.I.call(self.I.getattr(obj, "add"), [y], {})
            return Builtin("update", update)
        if isinstance(o, SetObj) and name == "add":
            def add(x):
                s = self.I.deref(obj)
                if s.base is not None:
                    self.I.store(obj, SetObj(s.items + (x,), base=s.base))
                    return
                if any(self.I.truth(self.equal(x, y)) for y in s.items):
                    return None
                self.I.store(obj, SetObj(s.items + (x,)))
            return Builtin("add", add)
        if isinstance(o, tuple) and len(o) and name == "index":
            return Builtin("index", lambda x: self.seq_index(o, x))
        if isinstance(o, str):
            if name == "format":
                return Builtin("format", lambda *a, **k: Opaque(atom("osym", "fstring")))
            if name in ("lower", "upper", "strip"):
                return Builtin(name, lambda: getattr(o, name)())
        if isinstance(o, SymStr) and name == "strip":
            from . import frames
            return Builtin(name, lambda: frames.strip(o))
        if isinstance(o, Opaque):
            if o.a.op == "osym":
                full = f"{o.a.args[0]}.{name}"
                full = ALIASES.get(full, full)
                if full in self.ext:
                    return self.ext[full]
                if full in CONSTS:
                    return CONSTS[full]
            raise Unsupported(f"attribute {name} of {o!r}")
        if isinstance(o, Poly) or isinstance(o, bool) or isinstance(o, Cond):
            if name in ("item", "evaluate"):
                return Builtin(name, lambda: o)
            if name in ("astype",):
                return Builtin(name, lambda d, **k: self.cast_scalar(o, d))
            if name == "shape":
                return ()
            if name in ("detach", "cpu", "numpy", "float", "clone", "squeeze", "flatten", "to"):
                return Builtin(name, lambda *a, **k: o)
        if isinstance(o, Builtin) and o.name == "np.finfo" and name == "eps":
            return EPS
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def cast_scalar(self, o, d):
        d = dtype_name(d)
        if d == "float":
            return o
        if d == "int":
            p = self.scalar(o)
            return p if p.is_int() else fl(p)
        raise Unsupported("scalar cast")

    def list_attr(self, obj, o, name):
        I = self.I
        if name == "append":
            def append(x):
                l = I.deref(obj)
                if l.items is not None:
                    I.store(obj, ListObj(items=l.items + (x,)))
                else:
                    I.store(obj, ListObj(seq=concat_seq(self, l.seq, tuple_seq(self, (x,)))))
            return Builtin("append", append)
        if name == "extend":
            def extend(x):
                l = I.deref(obj)
                it = self.iterate(x)
                other = ListObj(items=it) if isinstance(it, tuple) else ListObj(seq=it)
                I.store(obj, I.deref(self.list_concat(l, other)))
            return Builtin("extend", extend)
        if name == "index":
            return Builtin("index", lambda x: self.seq_index(self.iterate(obj), x))
        if name == "copy":
            return Builtin("copy", lambda: I.alloc(ListObj(items=o.items, seq=o.seq)))
        if name == "sort":
            def sort(key=None, reverse=False):
                I.store(obj, I.deref(self.ext["sorted"].fn(obj, key=key, reverse=reverse)))
            return Builtin("sort", sort)
        raise Unsupported("list." + name)

    def seq_index(self, it, x):
        if isinstance(it, tuple):
            for j, y in enumerate(it):
                if self.I.truth(self.equal(x, y)):
                    return num(j)
            raise PyRaise("ValueError", "not in list")
        if it.key is not None and it.key.op == "seq":
            k = x if isinstance(x, tuple) else (x,)
            k = tuple(self.scalar(y) for y in k)
            if self.I.truth(seqs.contains(it.key, k)):
                return seqs.index_of(it.key, k)
            raise PyRaise("ValueError", "not in list")
        # x is written as the k-th of elements that are pairwise different
        from . import graphs, sets
        if type(it) is SeqVal and not getattr(it, "is_havoc", False) and not getattr(it, "parts", None):
            key = sets.key_of(self, x)
            atoms = [p.single_atom() for p in sets.flat(key) if len(p.args) == 1]
            ks = {a.args[1][0]: None for a in atoms if a is not None and a.op == "iseq"}
            for k in ks:
                if sets.key_of(self, it.at(k)) == key and self.I.entails(c_and(le(ZERO, k), lt(k, it.n))) and sets.distinct(self, it):
                    return k
        raise Unsupported("index in a symbolic sequence")

    def dict_attr(self, obj, o, name):
        if name == "keys":
            return Builtin(name, lambda: self.dict_iter(o, 0))
        if name == "values":
            return Builtin(name, lambda: self.dict_iter(o, 1))
        if name == "items":
            return Builtin(name, lambda: self.dict_iter(o, 2))
        if name == "get":
            return Builtin(name, lambda k, d=None: self.dict_get(self.I.deref(obj), k, d, True))
        if name == "copy":
            return Builtin(name, lambda: self.I.alloc(DictObj(items=dict(o.items)) if o.items is not None else DictObj(base=o.base)))
        if name == "update":
            def update(other=None, **kw):
                d = dict(self.I.deref(obj).items)
                if other is not None:
                    oo = self.I.deref(other)
                    if oo.items is None:
                        raise Unsupported("update")
                    d.update(oo.items)
                d.update(kw)
                self.I.store(obj, DictObj(items=d))
            return Builtin(name, update)
        if name == "setdefault":
            def setdefault(k, d=None):
                o = self.I.deref(obj)
                if o.items is not None and concrete_key(self.key(k)):
                    r = self.dict_get(o, k, UNDEF, True)
                    if r is UNDEF:
                        self.setitem(obj, k, d)
                        r = d
                    return r
                from . import tables
                return tables.set_default(self, obj, k, d)
            return Builtin(name, setdefault)
        raise Unsupported("dict." + name)

    def is_concrete_key(self, k):
        try:
            return concrete_key(self.key(k))
        except Unsupported:
            return False

    def dict_iter(self, o, what):
        if o.items is not None:
            if what == 0:
                return tuple(o.items)
            if what == 1:
                return tuple(o.items.values())
            return tuple(o.items.items())
        if isinstance(o.base, SymDict):
            return o.base.iter(self, what)
        if isinstance(o.base, tuple) and o.base[0] == "comp":
            s = o.base[1]
            from . import graphs, tables
            tables.distinct_keys(self, s)
            if what == 2:
                return s
            if isinstance(s, graphs.FilterSeq):
                return graphs.FilterSeq(s.m, s.cond, lambda k: s.elem(k)[what], s.facts)
            return SeqVal(s.n, lambda k: s.at(k)[what])
        raise Unsupported("iteration over a symbolic dictionary")

    def arr_attr(self, obj, o, name):
        I = self.I
        B = lambda f: Builtin(name, f)
        if isinstance(o, BoolArr):
            if name in ("any", "all"):
                return B(lambda **k: self.ext["numpy." + name].fn(obj, **k))
            if name == "sum":
                return B(lambda **k: self.reduce(obj, "sum", **k))
            if name == "astype":
                def ast_(d, **k):
                    t, _, _ = self.tensor_of(obj)
                    return I.arr(t, "nd", dtype_name(d))
                return B(ast_)
            if name == "shape":
                return tuple(o.shape)
        t, kind, dt = self.tensor_of(obj)
        if name == "shape":
            return tuple(t.shape)
        if name == "ndim":
            return num(t.ndim)
        if name == "size":
            if kind == "torch":
                return B(lambda d=None: tuple(t.shape) if d is None else t.shape[self.scalar(d).as_int()])
            n = ONE
            for s in t.shape:
                n = n * s
            return n
        if name == "dtype":
            return Opaque(atom("osym", "dtype:" + dt))
        if name == "T":
            r = I.arr(T.t_transpose(t) if t.ndim == 2 else t, kind, dt)
            if kind in ("nd", "mat", "torch") and isinstance(obj, Ref):
                I.add_view(obj, r)
            return r
        if name in ("transpose", "t"):
            def tr(*a):
                if a and not (kind == "torch"):
                    raise Unsupported("transpose axes")
                return self.getattr(obj, "T")
            return B(tr)
        if name in ("toarray", "todense", "to_dense", "evaluate"):
            if kind == "csr":
                return B(lambda *a, **k: I.arr(t, "nd" if name == "toarray" else "mat", dt))
            if kind == "torch" and name in ("to_dense", "evaluate"):
                return B(lambda: obj)
            raise PyRaise("AttributeError", name)
        if name in ("tocsr",) and kind == "csr":
            return B(lambda: obj)
        if name == "A" and kind in ("mat", "csr"):
            return I.arr(t, "nd", dt)
        if name in ("copy", "clone"):
            return B(lambda *a, **k: I.arr(t, kind, dt))
        if name == "astype":
            def astype(d, copy=True, **k):
                dn = dtype_name(d)
                if dn == "float" or dn == dt:
                    return I.arr(t, kind, dn)
                if dn == "int":
                    if dt in ("bool", "int"):
                        return I.arr(t, kind, "int")
                    return I.arr(T.emap(lambda x: x if x.is_int() else fl_trunc(self, x), t), kind, "int")
                raise Unsupported("astype")
            return B(astype)
        if name in ("float", "double") and kind == "torch":
            return B(lambda: I.arr(t, kind, "float"))
        if name in ("long", "int") and kind == "torch":
            def lng():
                if dt == "int" or elem(t, [atom_poly(T.fresh_index()) for _ in t.shape]).is_int():
                    return I.arr(t, kind, "int")
                raise Unsupported("cast to integer")
            return B(lng)
        if name == "diag" and kind == "torch":
            return B(lambda: self.ext["torch.diag"].fn(obj))
        if name == "expand" and kind == "torch":
            return B(lambda *a: self.expand(obj, t, dt, a))
        if name in ("detach", "cpu", "contiguous", "requires_grad_"):
            return B(lambda *a, **k: obj)
        if name == "to":
            return B(lambda *a, **k: obj)
        if name == "numpy":
            return B(lambda: I.arr(t, "nd", dt))
        if name == "item":
            def item():
                if all(s is ONE for s in t.shape):
                    return elem(t, [ZERO] * t.ndim)
                raise Unsupported("item of an array")
            return B(item)
        if name in ("flatten", "ravel", "squeeze", "reshape", "view"):
            return B(lambda *a, **k: self.reshape(obj, t, kind, dt, name, a))
        if name in ("sum", "mean", "max", "min", "std", "prod", "var"):
            return B(lambda *a, **k: self.reduce(obj, name, *a, **k))
        if name == "dot" or name == "matmul":
            return B(lambda x: self.binop(ast.MatMult(), obj, x) if not self.is_scalar(self.I.deref(x)) else self.binop(ast.Mult(), obj, x))
        if name == "multiply" and kind == "csr":
            def multiply(x):
                if self.is_scalar(x):
                    return self.binop(ast.Mult(), obj, x)
                tx, kx, _ = self.tensor_of(x)
                return I.arr(self.emap(lambda p, q: p * q, t, tx), "csr", dt)
            return B(multiply)
        if name == "power" and kind == "csr":
            return B(lambda k: I.arr(T.emap(lambda x: T.power(x, self.scalar(k)), t), "csr", dt))
        if name == "diagonal":
            return B(lambda: I.arr(T.diagonal(t), "nd", dt))
        if name == "tolist":
            def tolist():
                it = self.iterate(obj)
                return I.new_list(it) if isinstance(it, tuple) else I.alloc(ListObj(seq=it))
            return B(tolist)
        if name == "pow" and kind == "torch":
            return B(lambda e: self.binop(ast.Pow(), obj, e))
        if name in ("exp", "abs", "sqrt", "log") and kind == "torch":
            return B(lambda: self.ext["numpy." + name].fn(obj))
        if name == "fill":
            def fill(x):
                if obj.id in I.view_of:
                    raise Unsupported("fill of a view")
                I.store(obj, Arr(T.full(t.shape, self.scalar(x)), kind, dt))
            return B(fill)
        if name == "round":
            return B(lambda d=ZERO: self.ext["numpy.round"].fn(obj, d))
        raise Unsupported(f"array attribute {name}")

    def reshape(self, obj, t, kind, dt, name, a):
        I = self.I

        def mk(r):
            out = I.arr(r, kind, dt)
            if name != "flatten" and isinstance(obj, Ref):
                I.add_view(obj, out)
            return out
        if kind == "mat":
            raise Unsupported(name + " of a matrix")
        if name in ("flatten", "ravel"):
            if t.ndim == 1:
                return mk(t)
            if t.ndim == 2:
                v = T.fresh_index()
                p = atom_poly(v)
                if t.shape[1] is ONE:
                    return mk(T.lam([v], (t.shape[0],), elem(t, (p, ZERO))))
                if t.shape[0] is ONE:
                    return mk(T.lam([v], (t.shape[1],), elem(t, (ZERO, p))))
                if I.entails(eqc(t.shape[1], ONE)):
                    return mk(T.lam([v], (t.shape[0],), elem(t, (p, ZERO))))
                from . import sets
                gens = sets.entries(self, t)
                if gens is not None:
                    return sets.GenSeq(gens, kind="entries")
            raise Unsupported(name)
        if name == "squeeze":
            if a:
                j = self.scalar(a[0]).as_int()
                j = j if j >= 0 else j + t.ndim
                one = t.shape[j] is ONE or I.branch(eqc(t.shape[j], 1))
                keep = [i != j or not one for i in range(t.ndim)]
            else:
                keep = [not (s is ONE or I.branch(eqc(s, 1))) for s in t.shape]
            if all(keep):
                return mk(t)
            vs = [T.fresh_index() for k in keep if k]
            it = iter(vs)
            idx = [atom_poly(next(it)) if k else ZERO for k in keep]
            return mk(T.lam(vs, [s for s, k in zip(t.shape, keep) if k], elem(t, idx)))
        # reshape / view
        if len(a) == 1 and isinstance(a[0], tuple):
            a = a[0]
        dims = [self.scalar(x) for x in a]
        if len(dims) == 1 and dims[0].as_int() == -1:
            return self.reshape(obj, t, kind, dt, "ravel", ())
        if t.ndim == 1 and len(dims) == 2:
            v, w = T.fresh_index(), T.fresh_index()
            d0, d1 = dims
            n = t.shape[0]
            if d1 is ONE and (d0.as_int() == -1 or d0 is n):
                return mk(T.lam([v, w], (n, ONE), elem(t, (atom_poly(v),))))
            if d0 is ONE and (d1.as_int() == -1 or d1 is n):
                return mk(T.lam([v, w], (ONE, n), elem(t, (atom_poly(w),))))
        raise Unsupported("reshape")

    def expand(self, obj, t, dt, dims):
        if len(dims) == 1 and isinstance(self.I.deref(dims[0]), (tuple, ListObj)):
            dims = self.concrete_items(dims[0])
        dims = [self.scalar(d) for d in dims]
        old = (ONE,) * (len(dims) - t.ndim) + tuple(t.shape)
        shape = []
        for d, s in zip(dims, old):
            if d.as_int() == -1:
                shape.append(s)
            elif s is ONE:
                shape.append(d)
            else:
                self.same_dim(d, s)
                shape.append(s)
        vs = [T.fresh_index() for _ in shape]
        k = len(dims) - t.ndim
        idx = [ZERO if s is ONE else atom_poly(v) for v, s in list(zip(vs, old))[k:]]
        r = self.I.arr(T.lam(vs, shape, elem(t, idx)), "torch", dt)
        self.I.add_view(obj, r)
        return r

    def reduce(self, v, what, axis=None, ord=None, keepdims=False, dtype=None, **kw):
        if kw:
            ddof = kw.pop("ddof", None)
            unb = kw.pop("unbiased", None)
            dim = kw.pop("dim", None)
            if kw:
                raise Unsupported("reduction options")
            if dim is not None:
                axis = dim
        else:
            ddof = unb = None
        t, kind, dt = self.tensor_of(v)
        if keepdims is not False:
            raise Unsupported("keepdims")
        if axis is None:
            axes = list(range(t.ndim))
        elif isinstance(axis, tuple):
            axes = [self.scalar(x).as_int() % t.ndim for x in axis]
        else:
            axes = [self.scalar(axis).as_int() % t.ndim]
        if kind in ("csr", "mat") and axis is not None:
            raise Unsupported("reduction of a matrix along an axis")
        keep = [j for j in range(t.ndim) if j not in axes]
        if what in ("max", "min", "std", "var", "prod"):
            if keep:
                raise Unsupported(what + " along an axis")
            if what in ("std", "var"):
                n = ONE
                for j in axes:
                    n = n * t.shape[j]
                d = self.scalar(ddof) if ddof is not None else ZERO
                if kind == "torch":
                    d = ONE if unb is None or unb is True else ZERO
                m = self.total(t) * T.inv(n)
                dev = T.emap(lambda x: (x - m) * (x - m), t)
                var = self.total(dev) * T.inv(n - d)
                return var if what == "var" else T.sqrt(var)
            return T.fn(what + "T", t)
        vs = {j: T.fresh_index() for j in range(t.ndim)}
        body = elem(t, [atom_poly(vs[j]) for j in range(t.ndim)])
        n = ONE
        for j in reversed(axes):
            body = T.bigsum(vs[j], t.shape[j], body)
            n = n * t.shape[j]
        if what == "mean":
            body = body * T.inv(n)
        if not keep:
            return body
        return self.I.arr(T.lam([vs[j] for j in keep], [t.shape[j] for j in keep], body), kind, "float")

    def total(self, t):
        vs = [T.fresh_index() for _ in t.shape]
        b = elem(t, [atom_poly(v) for v in vs])
        for v, n in zip(reversed(vs), reversed(t.shape)):
            b = T.bigsum(v, n, b)
        return b

    def opaque_attr(self, obj, o, name):
        raise Unsupported(f"attribute {name} of an external object")


def concrete_key(k):
    if isinstance(k, Poly):
        return k.const() is not None
    if isinstance(k, tuple):
        return all(concrete_key(x) for x in k)
    return True


class MaybeNone:
    def __init__(self, isnone, value):
        self.isnone, self.value = isnone, value


class SymDict:
    """symbolic dictionary: n entries, key/value functions"""

    def __init__(self, n, key, val, has=None, get=None):
        self.n, self.keyf, self.valf, self.hasf, self.getf = num(n), key, val, has, get

    def iter(self, lib, what):
        if what == 0:
            return SeqVal(self.n, self.keyf)
        if what == 1:
            return SeqVal(self.n, self.valf)
        return SeqVal(self.n, lambda k: (self.keyf(k), self.valf(k)))

    def has(self, lib, k):
        if self.hasf is None:
            raise Unsupported("in a symbolic dictionary")
        return self.hasf(k)

    def get(self, lib, k, default, has_default):
        if self.getf is None:
            # the key of entry i
            if isinstance(k, Opaque) and self.keyf is not None:
                for i in [x for x in k.a.args if isinstance(x, Poly)]:
                    same = self.keyf(i)
                    if isinstance(same, Opaque) and same.a is k.a and lib.I.entails(le(ZERO, i)) and lib.I.entails(lt(i, self.n)):
                        return self.valf(i)
            raise Unsupported("symbolic dictionary")
        if not lib.I.truth(self.has(lib, k)):
            if has_default:
                return default
            raise PyRaise("KeyError")
        return self.getf(k)


def fl(p, a=None, b=None):
    p = num(p)
    if p.is_int():
        return p
    c = p.const()
    if c is not None:
        import math
        return num(math.floor(c))
    return T.fn("floor", p)


def floor_div(lib, a, b):
    """a // b; (a + 1) // 2 by the parity of a where it is known"""
    k = b.as_int()
    if k == 2 and a.is_int() and a.const() is None:
        e = T.poly({m: c for m, c in a.args if m})
        c = (a - e).as_int()
        if c is not None and c % 2:
            even = eqc(mod(e, b), ZERO)
            if lib.I.entails(even):
                return fl(e * T.inv(b)) + num((c - 1) // 2)
            if lib.I.entails(c_not(even)):
                return fl(e * T.inv(b)) + num((c + 1) // 2)
    return fl(a * T.inv(b), a, b)


def fl_trunc(lib, x):
    from . import frames
    c = frames.as_int(x)
    if c is not None:
        return c
    if lib.I.entails(le(ZERO, x)):
        return fl(x)
    return T.fn("trunc", x)


def mod(a, b):
    """a mod k for an integer constant k > 0"""
    k = b.as_int()
    c = a.as_int()
    if c is not None:
        return num(c % k)
    # drop multiples of k
    d = {m: (cc % k) for m, cc in a.args}
    a2 = T.poly(d)
    c = a2.as_int()
    if c is not None:
        return num(c % k)
    return T.fn("mod", a2, b)


def tuple_seq(lib, items):
    items = tuple(items)

    def at(k):
        c = num(k).as_int()
        if c is not None:
            return items[c]
        return lib.choose([(eqc(k, j), x) for j, x in enumerate(items)])
    s = SeqVal(len(items), at)
    return s


def concat_seq(lib, x, y):
    if x.n is ZERO:
        return y
    if y.n is ZERO:
        return x

    def at(k):
        k = num(k)
        if lib.I.entails(lt(k, x.n)):
            return x.at(k)
        if lib.I.entails(le(x.n, k)):
            return y.at(k - x.n)
        if lib.I.truth(lt(k, x.n)):
            return x.at(k)
        return y.at(k - x.n)
    s = SeqVal(x.n + y.n, at)
    s.parts = (getattr(x, "parts", None) or (x,)) + (getattr(y, "parts", None) or (y,))
    return s


def dtype_name(d):
    if isinstance(d, Builtin):
        n = d.name.split(".")[-1]
        if n in ("float", "float64", "double"):
            return "float"
        if n in ("int", "int64", "long"):
            return "int"
        if n == "bool":
            return "bool"
    if isinstance(d, str):
        if d in ("float", "float64", "f8"):
            return "float"
        if d in ("int", "int64"):
            return "int"
    if isinstance(d, Opaque) and d.a.op == "osym":
        n = d.a.args[0].split(".")[-1].split(":")[-1]
        if n in ("float64", "double", "float"):
            return "float"
        if n in ("float32",):
            return "float32"
        if n in ("int64", "long", "int"):
            return "int"
    raise Unsupported("dtype")


MODULES = {
    "numpy", "numpy.linalg", "numpy.random", "scipy", "scipy.sparse", "scipy.sparse.linalg", "torch", "math",
    "warnings", "cvxpy", "torch.linalg", "torch.nn", "gpytorch", "gpytorch.kernels", "gpytorch.constraints", "itertools", "scipy.linalg", "networkx",
    "pandas", "os", "os.path", "pkg_resources", "matplotlib", "matplotlib.pyplot", "matplotlib.cm", "matplotlib.colors", "matplotlib.pyplot.cm",
    "matplotlib.patches",
}
OPAQUE_NAMES = {"numpy.ndarray", "torch.Tensor", "numpy.float64", "numpy.float32", "torch.float32", "torch.float64", "torch.long",
                "numpy.int64", "numpy.generic"}
CONSTS = {"numpy.newaxis": None, "numpy.pi": sym("pi"), "math.pi": sym("pi"), "numpy.inf": sym("inf"), "numpy.nan": sym("nan"),
          "numpy.e": T.fn("exp", ONE)}
ALIASES = {
    "numpy.float": "float", "numpy.absolute": "numpy.abs", "numpy.around": "numpy.round",
    "torch.exp": "numpy.exp", "torch.abs": "numpy.abs", "torch.sqrt": "numpy.sqrt", "torch.log": "numpy.log",
    "numpy.matmul": "numpy.dot@", "torch.matmul": "numpy.dot@", "torch.mm": "numpy.dot@",
    "scipy.linalg.norm": "numpy.linalg.norm", "numpy.identity": "numpy.eye", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "scipy.sparse.linalg.norm": "scipy.sparse.norm", "scipy.sparse.csr_array": "scipy.sparse.csr_array?",
    "torch.sum": "numpy.sum", "torch.mean": "numpy.mean", "torch.std": "torch.std", "torch.diag": "torch.diag",
    "numpy.core.fromnumeric": "numpy",
    "math.sqrt": "numpy.sqrt", "math.exp": "numpy.exp", "math.log": "numpy.log", "math.floor": "math.floor",
}


def register_builtins(L):
    I = L.I
    E = L.ext

    def reg(*names):
        def deco(f):
            for n in names:
                L.reg(n, f)
            return f
        return deco

    def shape_of(s):
        if L.is_scalar(s):
            return (L.scalar(s),)
        it = L.concrete_items(s)
        return tuple(L.scalar(x) for x in it)

    def dt_of(dtype, default="float"):
        return default if dtype is None else dtype_name(dtype)

    # ------------------------------------------------------------ python
    @reg("len")
    def _len(x):
        return L.length(x)

    @reg("range")
    def _range(*a):
        a = [L.scalar(x) for x in a]
        lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else a
        s = st.as_int()
        if s is None:
            raise Unsupported("range step")
        l, h = lo.as_int(), hi.as_int()
        if l is not None and h is not None and len(range(l, h, s)) <= 12:
            return tuple(num(j) for j in range(l, h, s))
        if s == 1:
            n = hi - lo
        elif s == -1:
            n = lo - hi
        else:
            raise Unsupported("range step")
        if not I.entails(le(ZERO, n)):
            if not I.truth(le(ZERO, n)):
                return ()
        return SeqVal(n, lambda k: lo + num(k) * s, kind="range")

    def iterator(seq):
        return I.alloc(IterObj(seq))

    @reg("iter")
    def _iter(x):
        return x if isinstance(I.deref(x), IterObj) else iterator(L.iterate(x))

    none = object()

    @reg("next")
    def _next(x, default=none):
        o = I.deref(x)
        if not isinstance(o, IterObj):
            raise Unsupported("next")
        seq = o.seq
        if not isinstance(seq, tuple) and type(seq) is not SeqVal:
            raise Unsupported("next of " + type(seq).__name__)
        if (not seq) if isinstance(seq, tuple) else not I.truth(le(ONE, seq.n)):
            if default is not none:
                return default
            raise PyRaise("StopIteration")
        if isinstance(seq, tuple):
            I.store(x, IterObj(seq[1:]))
            return seq[0]
        I.store(x, IterObj(SeqVal(seq.n - 1, lambda k: seq.at(num(k) + 1))))
        return seq.at(ZERO)

    @reg("divmod")
    def _divmod(a, b):
        return (L.binop(ast.FloorDiv(), a, b), L.binop(ast.Mod(), a, b))

    @reg("enumerate")
    def _enumerate(x, start=ZERO):
        it = L.iterate(x)
        s = L.scalar(start)
        if isinstance(it, tuple):
            return iterator(tuple((s + j, y) for j, y in enumerate(it)))
        return iterator(SeqVal(it.n, lambda k: (s + num(k), it.at(k))))

    @reg("zip")
    def _zip(*xs):
        its = [L.iterate(x) for x in xs]
        if all(isinstance(i, tuple) for i in its):
            return iterator(tuple(zip(*its)))
        n = None
        ns = [num(len(i)) if isinstance(i, tuple) else i.n for i in its]
        n = ns[0]
        for m in ns[1:]:
            if m is n or I.entails(eqc(m, n)) or I.entails(le(n, m)):
                continue
            if I.entails(le(m, n)):
                n = m
                continue
            n = m if I.truth(le(m, n)) else n
        its = [tuple_seq(L, i) if isinstance(i, tuple) else i for i in its]
        return iterator(SeqVal(n, lambda k: tuple(i.at(k) for i in its)))

    @reg("reversed")
    def _reversed(x):
        it = L.iterate(x)
        if isinstance(it, tuple):
            return iterator(tuple(reversed(it)))
        return iterator(SeqVal(it.n, lambda k: it.at(it.n - 1 - num(k))))

    @reg("list")
    def _list(x=()):
        it = L.iterate(x)
        return I.new_list(it) if isinstance(it, tuple) else I.alloc(ListObj(seq=it))

    @reg("tuple")
    def _tuple(x=()):
        it = L.iterate(x)
        if isinstance(it, tuple):
            return it
        n = it.n.as_int()
        if n is not None:
            return tuple(it.at(num(j)) for j in range(n))
        from . import sets
        if isinstance(it, (sets.GenSeq, sets.SortedSeq)):
            return it
        raise Unsupported("tuple of unknown length")

    @reg("set")
    def _set(x=()):
        it = L.iterate(x)
        if isinstance(it, tuple):
            out = []
            for y in it:
                if not any(I.truth(L.equal(y, z)) for z in out):
                    out.append(y)
            return I.alloc(SetObj(tuple(out)))
        from . import sets
        return sets.make_set(L, it)

    @reg("dict")
    def _dict(x=None, **kw):
        d = {}
        if x is not None:
            o = I.deref(x)
            if isinstance(o, DictObj):
                if o.items is None:
                    return I.alloc(DictObj(base=o.base))
                d.update(o.items)
            else:
                if isinstance(o, Inst) and o.cls.lookup("items")[1] is not None:
                    x = I.call(I.getattr(x, "items"), [], {})
                it = L.iterate(x)
                if not isinstance(it, tuple):
                    return I.alloc(DictObj(base=("comp", it)))
                for kv in it:
                    k, v = L.unpack(kv, 2)
                    d[L.key(k)] = v
        d.update(kw)
        return I.alloc(DictObj(items=d))

    @reg("int")
    def _int(x=ZERO):
        p = L.scalar(x)
        if p.is_int():
            return p
        return fl_trunc(L, p)

    @reg("float")
    def _float(x=ZERO):
        if isinstance(x, str):
            raise Unsupported("float of a string")
        return L.scalar(x)

    @reg("bool")
    def _bool(x=False):
        return L.as_value(I.truth_cond(x))

    @reg("str", "repr")
    def _str(x=""):
        if isinstance(x, (str, SymStr)):
            return x
        return Opaque(atom("osym", "fstring"))

    @reg("print")
    def _print(*a, **k):
        return None

    @reg("abs")
    def _abs(x):
        if L.is_scalar(x):
            return absp(L.scalar(x))
        t, kind, dt = L.tensor_of(x)
        return I.arr(T.emap(absp, t), kind, dt)

    def absp(p):
        c = p.const()
        if c is not None:
            return num(abs(c))
        if I.entails(le(ZERO, p)):
            return p
        lead = p.args[0][1]
        if lead < 0:
            p = -p
        return T.fn("abs", p)

    E["numpy.abs"] = E["abs"]

    def varies(it):
        if getattr(it, "parts", None) or getattr(it, "is_havoc", False):
            return False
        v = T.fresh_index()
        x = it.at(atom_poly(v))
        return L.is_scalar(x) and v in free(L.scalar(x))

    def minmax(name):
        def f(*a, key=None, default=None):
            if key is not None:
                raise Unsupported(name + " with a key")
            it = L.iterate(a[0]) if len(a) == 1 else tuple(a)
            if isinstance(it, tuple):
                if not it:
                    raise PyRaise("ValueError", "empty")
                out = L.scalar(it[0])
                for x in it[1:]:
                    y = L.scalar(x)
                    out = ite(lt(y, out) if name == "min" else lt(out, y), y, out)
                return out
            from . import graphs, sets
            if isinstance(it, (sets.GenSeq, sets.SortedSeq, graphs.FilterSeq)) or varies(it):
                return sets.extreme(L, sets.of_seq(L, it), name)
            return L.seq_minmax(it, name)
        return f
    reg("min")(minmax("min"))
    reg("max")(minmax("max"))

    def seq_minmax(it, name):
        parts = getattr(it, "parts", None) or (it,)
        out = None
        for s in parts:
            # constant over the sequence: present iff the sequence is nonempty
            v = T.fresh_index()
            e = L.scalar(s.at(atom_poly(v)))
            if v in free(e):
                raise Unsupported(name + " of a symbolic sequence")
            if not I.truth(lt(ZERO, s.n)):
                continue
            out = e if out is None else ite(lt(e, out) if name == "min" else lt(out, e), e, out)
        if out is None:
            raise PyRaise("ValueError", "empty")
        return out
    L.seq_minmax = seq_minmax

    @reg("sum")
    def _sum(x, start=ZERO):
        it = L.iterate(x)
        if isinstance(it, tuple):
            out = start
            for y in it:
                out = L.binop(ast.Add(), out, y)
            return out
        v = T.fresh_index()
        e = it.at(atom_poly(v))
        if L.is_scalar(e):
            return L.scalar(start) + T.bigsum(v, it.n, L.scalar(e))
        t, kind, dt = L.tensor_of(e)
        if not (L.is_scalar(start) and L.scalar(start) is ZERO) or not I.entails(lt(ZERO, it.n)):
            raise Unsupported("sum of arrays")
        return I.arr(T.sumT(v, it.n, t), kind, dt)

    def quant(isall):
        def f(x):
            it = L.iterate(x)
            if isinstance(it, tuple):
                cs = [I.truth_cond(y) for y in it]
                return L.as_value(c_and(*cs) if isall else c_or(*cs))
            v = T.fresh_index()
            c = I.truth_cond(it.at(atom_poly(v)))
            r = T.exists(v, it.n, c_not(c) if isall else c)
            return L.as_value(c_not(r) if isall else r)
        return f
    reg("all")(quant(True))
    reg("any")(quant(False))

    @reg("sorted")
    def _sorted(x, key=None, reverse=False):
        it = L.iterate(x)
        if isinstance(it, tuple) and len(it) <= 1:
            return I.new_list(it)
        if key is not None or reverse is not False:
            raise Unsupported("sorted")
        from . import graphs
        return graphs.sort_symbolic(L, it)

    @reg("map")
    def _map(f, x):
        it = L.iterate(x)
        if isinstance(it, tuple):
            return iterator(tuple(I.call(f, [y], {}) for y in it))
        return iterator(I.map_seq(it, lambda y: I.call(f, [y], {})))

    def isinstance_(x, ty):
        if isinstance(ty, tuple):
            return any(isinstance_(x, t) for t in ty)
        o = I.deref(x)
        if isinstance(ty, ClassVal) and ty.name == "Colormap":
            return isinstance(o, Builtin) and o.name.startswith("cmap:")
        if isinstance(ty, ClassVal):
            return isinstance(o, Inst) and ty in o.cls.mro()
        name = ty.name if isinstance(ty, (Builtin, ExcType)) else ty.a.args[0] if isinstance(ty, Opaque) and ty.a.op == "osym" else None
        if name == "numpy.ndarray":
            return isinstance(o, (BoolArr, IndexArr)) or (isinstance(o, Arr) and o.kind in ("nd", "mat"))
        if name in ("torch.Tensor",):
            return isinstance(o, Arr) and o.kind == "torch"
        if name == "scipy.sparse.csr_matrix":
            return isinstance(o, Arr) and o.kind == "csr"
        table = {"str": (str, SymStr), "list": ListObj, "dict": DictObj, "tuple": tuple, "set": SetObj}
        if name in table:
            return isinstance(o, table[name])
        if name == "int" and isinstance(o, Poly):
            return o.is_int()
        if name == "numbers.Number":
            if isinstance(o, (Poly, bool)):
                return True
            if isinstance(o, (str, SymStr, tuple, ListObj, DictObj)) or o is None:
                return False
        if name == "collections.abc.Iterable":
            if isinstance(o, Poly) or o is None:
                return False
            if isinstance(o, (str, tuple, ListObj, DictObj)):
                return True
        if name == "float" and isinstance(o, Poly):
            raise Unsupported("isinstance float")
        raise Unsupported("isinstance")

    @reg("isinstance")
    def _isinstance(x, ty):
        return isinstance_(x, ty)

    @reg("hasattr")
    def _hasattr(x, n):
        o = I.deref(x)
        if isinstance(o, Arr):
            return {"toarray": o.kind == "csr"}.get(n, None) if n == "toarray" else unsupported("hasattr")
        if isinstance(o, Inst) and not o.cls.name.startswith("$"):
            return n in o.attrs or o.cls.lookup(n)[1] is not None
        raise Unsupported("hasattr")

    def unsupported(w):
        raise Unsupported(w)

    @reg("type")
    def _type(x):
        o = I.deref(x)
        if isinstance(o, Inst) and not o.cls.name.startswith("$"):
            return o.cls
        raise Unsupported("type")

    @reg("setattr")
    def _setattr(x, n, v):
        if not isinstance(n, str):
            raise Unsupported("setattr of a computed name")
        return I.setattr(x, n, v)

    @reg("getattr")
    def _getattr(x, n, *d):
        return I.getattr(x, n)

    @reg("round")
    def _round(x, d=ZERO):
        return E["numpy.round"].fn(x, d)

    @reg("itertools.combinations")
    def _comb(x, r):
        import itertools
        it = L.concrete_items(x)
        k = L.scalar(r).as_int()
        if k is None:
            raise Unsupported("combinations")
        return iterator(tuple(itertools.combinations(it, k)))

    @reg("itertools.product")
    def _prod(*xs):
        import itertools
        return tuple(itertools.product(*[L.concrete_items(x) for x in xs]))

    @reg("copy.deepcopy", "copy.copy")
    def _deepcopy(x):
        o = I.deref(x)
        if isinstance(o, Arr):
            return I.arr(o.t, o.kind, o.dtype)
        if L.is_scalar(o) or isinstance(o, (str, SymStr)) or o is None:
            return x
        raise Unsupported("copy")

    # ------------------------------------------------------------ numpy
    def creator(name, value):
        def f(shape, dtype=None, order=None, device=None):
            sh = shape_of(shape)
            for s in sh:
                if not I.entails(le(ZERO, s)):
                    if not I.truth(le(ZERO, s)):
                        raise PyRaise("ValueError", "negative dimensions")
            return I.arr(T.full(sh, value) if value is not ZERO else T.t_zeros(sh), "nd", dt_of(dtype))
        return f
    reg("numpy.zeros", "numpy.empty?")(creator("zeros", ZERO))
    reg("numpy.ones")(creator("ones", ONE))

    @reg("numpy.full")
    def _full(shape, v, dtype=None):
        return I.arr(T.full(shape_of(shape), L.scalar(v)), "nd", dt_of(dtype, "int" if L.scalar(v).is_int() else "float"))

    def like(value):
        def f(x, dtype=None):
            t, kind, dt = L.tensor_of(x)
            if kind not in ("nd", "torch"):
                raise Unsupported("zeros_like of a matrix")
            return I.arr(T.full(t.shape, value) if value is not ZERO else T.t_zeros(t.shape), kind, dt_of(dtype, dt))
        return f
    reg("numpy.zeros_like", "torch.zeros_like")(like(ZERO))
    reg("numpy.ones_like", "torch.ones_like")(like(ONE))

    @reg("numpy.eye")
    def _eye(n, m=None, k=None, dtype=None):
        n = L.scalar(n)
        m = n if m is None else L.scalar(m)
        if k is not None and L.scalar(k) is not ZERO:
            raise Unsupported("eye offset")
        if m is n or I.entails(eqc(m, n)):
            return I.arr(T.t_eye(n), "nd", dt_of(dtype))
        v, w = T.fresh_index(), T.fresh_index()
        return I.arr(T.lam([v, w], (n, m), ind(eqc(atom_poly(v), atom_poly(w)))), "nd", dt_of(dtype))

    @reg("torch.eye")
    def _teye(n, **k):
        return I.arr(T.t_eye(L.scalar(n)), "torch", "float")

    @reg("numpy.arange")
    def _arange(*a, dtype=None):
        a = [L.scalar(x) for x in a]
        if len(a) == 3 and a[2] is not ONE:
            raise Unsupported("arange step")
        lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
        if not (lo.is_int() and hi.is_int()):
            raise Unsupported("arange of reals")
        n = hi - lo
        if not I.entails(le(ZERO, n)) and not I.truth(le(ZERO, n)):
            n = ZERO
        v = T.fresh_index()
        return I.arr(T.lam([v], (n,), lo + atom_poly(v)), "nd", dt_of(dtype, "int"))

    @reg("numpy.linspace")
    def _linspace(a, b, n=num(50), **k):
        if k:
            raise Unsupported("linspace options")
        a, b, n = L.scalar(a), L.scalar(b), L.scalar(n)
        v = T.fresh_index()
        p = atom_poly(v)
        return I.arr(T.lam([v], (n,), a + p * (b - a) * T.inv(n - 1)), "nd", "float")

    @reg("numpy.asarray", "numpy.array", "torch.tensor", "torch.from_numpy", "torch.as_tensor", "numpy.asanyarray", "numpy.ascontiguousarray")
    def _asarray(x, dtype=None, copy=None, device=None):
        o = I.deref(x)
        if o is None:
            return I.alloc(Inst(NONE_ARRAY, {}))
        if L.is_scalar(o):
            return o
        if isinstance(o, Arr) and o.kind == "csr":
            raise Unsupported("asarray of a sparse matrix")
        t, kind, dt = L.tensor_of(x)
        d = dt_of(dtype, dt)
        if d not in ("float", dt):
            raise Unsupported("asarray dtype")
        return I.arr(t, "nd" if kind == "mat" else kind, d)

    def asarray_alias(x, dtype=None):
        o = I.deref(x)
        if isinstance(o, Arr) and o.kind == "nd" and (dtype is None or dtype_name(dtype) == o.dtype):
            return x
        if isinstance(o, Arr) and o.kind == "nd" and o.dtype == "any":
            r = _asarray(x, dtype)
            I.add_view(x, r)
            return r
        if isinstance(o, Arr) and o.kind == "mat":
            r = _asarray(x, dtype)
            I.add_view(x, r)
            return r
        return _asarray(x, dtype)
    L.reg("numpy.asarray", asarray_alias)
    L.reg("numpy.asanyarray", asarray_alias)

    def torch_from(x, dtype=None, device=None):
        r = _asarray(x, None)
        o = I.deref(r)
        if L.is_scalar(r):
            return r
        d = o.dtype
        if dtype is not None:
            d = dtype_name(dtype)
            d = "float" if d == "float32" else d
        return I.arr(o.t, "torch", d)
    for nm in ("torch.tensor", "torch.from_numpy", "torch.as_tensor", "torch.Tensor"):
        L.reg(nm, torch_from)

    def elementwise(name, f, *regs):
        def g(x, **k):
            if k:
                raise Unsupported(name + " options")
            if L.is_scalar(I.deref(x)):
                return f(L.scalar(I.deref(x)))
            t, kind, dt = L.tensor_of(x)
            if kind == "csr":
                raise Unsupported(name + " of a sparse matrix")
            return I.arr(T.emap(f, t), kind, "float")
        reg("numpy." + name, *regs)(g)
    elementwise("exp", lambda p: ONE if p is ZERO else expp(p))
    elementwise("log", lambda p: T.fn("log", p))
    elementwise("log10", lambda p: T.fn("log10", p))
    elementwise("sqrt", lambda p: T.sqrt(p))
    elementwise("floor", lambda p: fl(p))
    elementwise("square", lambda p: p * p)
    elementwise("sign", lambda p: ind(lt(ZERO, p)) - ind(lt(p, ZERO)))
    elementwise("ceil", lambda p: -fl(-p))
    L.reg("math.floor", lambda x: fl(L.scalar(x)))
    L.reg("math.ceil", lambda x: -fl(-L.scalar(x)))

    def expp(p):
        return T.fn("exp", p)

    @reg("numpy.round")
    def _npround(x, decimals=ZERO):
        d = L.scalar(decimals)
        f = lambda p: T.fn("round", p, d) if p.const() is None else T.fn("round", p, d)
        if L.is_scalar(I.deref(x)):
            return f(L.scalar(I.deref(x)))
        t, kind, dt = L.tensor_of(x)
        return I.arr(T.emap(f, t), kind, dt)

    def arith2(name, op):
        @reg("numpy." + name, "torch." + name)
        def g(a, b):
            return L.binop(op, a, b)
    for nm, op in (("add", ast.Add()), ("subtract", ast.Sub()), ("multiply", ast.Mult()), ("divide", ast.Div()), ("true_divide", ast.Div()),
                   ("power", ast.Pow()), ("mod", ast.Mod())):
        def mk(op=op):
            def g(a, b):
                for x in (a, b):
                    o = I.deref(x)
                    if isinstance(o, Arr) and o.kind in ("csr", "mat"):
                        raise Unsupported("ufunc on a matrix")
                return L.binop(op, a, b)
            return g
        reg("numpy." + nm, "torch." + nm)(mk())
    reg("torch.pow")(E["torch.power"].fn)
    reg("torch.mul")(E["torch.multiply"].fn)

    @reg("numpy.dot@", "numpy.dot")
    def _dot(a, b):
        for x in (a, b):
            o = I.deref(x)
            if L.is_scalar(o):
                return L.binop(ast.Mult(), a, b)
            if isinstance(o, Arr) and o.kind == "csr":
                raise Unsupported("np.dot of a sparse matrix")
        return L.binop(ast.MatMult(), a, b)

    @reg("numpy.outer")
    def _outer(a, b):
        ta, tb = L.tensor_of(a)[0], L.tensor_of(b)[0]
        v, w = T.fresh_index(), T.fresh_index()
        return I.arr(T.lam([v, w], (ta.shape[0], tb.shape[0]), elem(ta, (atom_poly(v),)) * elem(tb, (atom_poly(w),))), "nd", "float")

    @reg("numpy.linalg.multi_dot")
    def _multidot(xs):
        it = L.concrete_items(xs)
        r = it[0]
        for x in it[1:]:
            r = L.binop(ast.MatMult(), r, x)
        return r

    @reg("numpy.transpose")
    def _transpose(x):
        return L.getattr(x, "T")

    @reg("numpy.diag", "torch.diag", "numpy.diagonal", "torch.diagonal", "torch.diag_embed")
    def _diag(x, k=None):
        if k is not None and L.scalar(k) is not ZERO:
            raise Unsupported("diag offset")
        t, kind, dt = L.tensor_of(x)
        if kind in ("csr", "mat"):
            raise Unsupported("diag of a matrix")
        if t.ndim == 1:
            return I.arr(T.diag(t), kind, dt)
        if t.ndim == 2:
            r = I.arr(T.diagonal(t), kind, dt)
            if isinstance(x, Ref):
                I.add_view(x, r)
            return r
        raise Unsupported("diag")

    @reg("torch.einsum", "numpy.einsum")
    def _einsum(*a):
        raise Unsupported("einsum")

    @reg("numpy.where")
    def _where(c, a=None, b=None):
        co = I.deref(c)
        if a is None:
            if isinstance(co, Arr):
                co = L.compare(ast.NotEq(), c, ZERO)
            if not isinstance(co, BoolArr) or len(co.shape) != 1:
                raise Unsupported("np.where of several dimensions")
            v = T.fresh_index()
            return (IndexArr(L.make_filter(v, co.shape[0], co.at([atom_poly(v)]))),)
        if isinstance(co, (bool, Cond)):
            cc = I.truth_cond(co)
            return ite(cc, L.scalar(a), L.scalar(b))
        if not isinstance(co, BoolArr):
            raise Unsupported("np.where")
        dts = []

        def get(x):
            if L.is_scalar(I.deref(x)):
                dts.append("int" if L.scalar(I.deref(x)).is_int() else "float")
                return lambda p: L.scalar(I.deref(x))
            t, kind, dt = L.tensor_of(x)
            L.same_shape(t.shape, co.shape)
            dts.append(dt)
            return lambda p: elem(t, p)
        fa, fb = get(a), get(b)
        vs = [T.fresh_index() for _ in co.shape]
        p = [atom_poly(v) for v in vs]
        dt = "float" if "float" in dts else "any" if "any" in dts else "int"
        return I.arr(T.lam(vs, co.shape, ite(co.at(p), fa(p), fb(p))), "nd", dt)

    @reg("numpy.nonzero", "numpy.flatnonzero")
    def _nonzero(x):
        return _where(x)
    L.reg("numpy.flatnonzero", lambda x: _where(x)[0])

    @reg("numpy.count_nonzero")
    def _cnz(x):
        r = _where(x)[0]
        return L.length(r)

    @reg("numpy.logical_and", "numpy.logical_or")
    def _land(a, b):
        return L.binop(ast.BitAnd(), a, b)
    L.reg("numpy.logical_or", lambda a, b: L.binop(ast.BitOr(), a, b))
    L.reg("numpy.logical_not", lambda a: L.invert(a))

    @reg("numpy.minimum", "numpy.maximum")
    def _minimum(a, b):
        return pairwise(a, b, lambda x, y: ite(lt(x, y), x, y))
    L.reg("numpy.maximum", lambda a, b: pairwise(a, b, lambda x, y: ite(lt(x, y), y, x)))

    @reg("numpy.clip")
    def _clip(x, lo=None, hi=None):
        r = x
        if lo is not None:
            r = E["numpy.maximum"].fn(r, lo)
        if hi is not None:
            r = E["numpy.minimum"].fn(r, hi)
        return r

    def pairwise(a, b, f):
        sa, sb = L.is_scalar(I.deref(a)), L.is_scalar(I.deref(b))
        if sa and sb:
            return f(L.scalar(a), L.scalar(b))
        ta = L.scalar(a) if sa else L.tensor_of(a)[0]
        tb = L.scalar(b) if sb else L.tensor_of(b)[0]
        return I.arr(L.emap(f, ta, tb), "nd", "float")

    @reg("numpy.unique")
    def _unique(x, **k):
        if k:
            raise Unsupported("unique options")
        from . import sets
        o = I.deref(x)
        if isinstance(o, ListObj) and o.seq is not None and getattr(o.seq, "rows", None) is not None:
            return sets.sorted_seq(L, o.seq.rows)
        t, kind, dt = L.tensor_of(x)
        if t.ndim == 2:
            gens = sets.entries(L, t)
            if gens is not None:
                return sets.sorted_seq(L, gens)
        return I.arr(theory.unique(t), "nd", dt)

    @reg("numpy.sort")
    def _sort(x):
        t, kind, dt = L.tensor_of(x)
        return I.arr(t_base(atom("tfn", "sort", t.shape, t)), "nd", dt)

    @reg("numpy.argsort")
    def _argsort(x, kind=None):
        t, _, dt = L.tensor_of(x)
        name = "argsort" if kind is None else "argsort:" + kind
        r = t_base(atom("tfn", name, t.shape, t))
        I.index_facts.add((r, t.shape[0]))
        return I.arr(r, "nd", "int")

    @reg("numpy.corrcoef")
    def _corr(a, b):
        ta, tb = L.tensor_of(a)[0], L.tensor_of(b)[0]
        if ta.ndim != 1 or tb.ndim != 1:
            raise Unsupported("corrcoef of matrices")
        L.same_dim(ta.shape[0], tb.shape[0])
        r = fn("corr", *sorted((ta, tb), key=lambda t: t.id))
        v, w = T.fresh_index(), T.fresh_index()
        same = ind(eqc(atom_poly(v), atom_poly(w)))
        return I.arr(T.lam([v, w], (num(2), num(2)), same + (ONE - same) * r), "nd", "float")

    @reg("numpy.concatenate", "torch.cat", "numpy.hstack", "torch.concat")
    def _concat(xs, axis=ZERO, dim=None):
        ts = [L.tensor_of(x) for x in L.concrete_items(xs)]
        ax = L.scalar(axis if dim is None else dim).as_int()
        t0 = ts[0][0]
        ax %= t0.ndim
        vs = [T.fresh_index() for _ in t0.shape]
        p = [atom_poly(v) for v in vs]
        off, body = ZERO, ZERO
        for t, kind, dt in ts:
            if t.ndim != t0.ndim or kind not in ("nd", "torch"):
                raise Unsupported("concatenate")
            for j in range(t.ndim):
                if j != ax:
                    L.same_dim(t.shape[j], t0.shape[j])
            q = list(p)
            q[ax] = p[ax] - off
            n = t.shape[ax]
            cs = c_and(le(off, p[ax]), lt(p[ax], off + n))
            body = body + ind(cs) * elem(t, q)
            off = off + n
        shape = list(t0.shape)
        shape[ax] = off
        dts = {d for _, _, d in ts}
        return I.arr(T.lam(vs, shape, body), ts[0][1], "float" if "float" in dts else "any")

    @reg("numpy.vstack", "numpy.stack", "torch.stack", "numpy.column_stack")
    def _vstack(xs, **k):
        if k:
            raise Unsupported("stack options")
        it = L.iterate(xs)
        return I.arr(L.stack(it), "nd", "float")

    def colstack(xs):
        t = L.stack(L.iterate(xs))
        return I.arr(T.t_transpose(t), "nd", "float")
    L.reg("numpy.column_stack", colstack)

    @reg("numpy.vander")
    def _vander(x, N=None, increasing=False):
        t, _, _ = L.tensor_of(x)
        n = t.shape[0] if N is None else L.scalar(N)
        v, w = T.fresh_index(), T.fresh_index()
        e = atom_poly(w) if I.truth(I.truth_cond(increasing)) else n - 1 - atom_poly(w)
        return I.arr(T.lam([v, w], (t.shape[0], n), T.power(elem(t, (atom_poly(v),)), e)), "nd", "float")

    for nm in ("sum", "mean", "max", "min", "std", "prod", "var"):
        def mk(nm=nm):
            def g(x, axis=None, **k):
                return L.reduce(x, nm, axis, **k)
            return g
        reg("numpy." + nm, "torch." + nm)(mk())

    def npquant(isall):
        def f(x, axis=None, **k):
            o = I.deref(x)
            if isinstance(o, Arr):
                o = L.compare(ast.NotEq(), x, ZERO)
            if isinstance(o, (bool, Cond)):
                return o
            if isinstance(o, ListObj) and axis is None and not k:
                return I.call(E["all" if isall else "any"], [x], {})
            if not isinstance(o, BoolArr):
                raise Unsupported("np.any")
            if axis is not None:
                a = L.scalar(axis).as_int() % len(o.shape)
                vs = [T.fresh_index() for _ in o.shape]
                c = o.at([atom_poly(v) for v in vs])
                c = T.exists(vs[a], o.shape[a], c_not(c) if isall else c)
                if isall:
                    c = c_not(c)
                return BoolArr([v for j, v in enumerate(vs) if j != a], tuple(s for j, s in enumerate(o.shape) if j != a), c)
            vs = [T.fresh_index() for _ in o.shape]
            c = o.at([atom_poly(v) for v in vs])
            if isall:
                c = c_not(c)
            for v, n in zip(reversed(vs), reversed(o.shape)):
                c = T.exists(v, n, c)
            return L.as_value(c_not(c) if isall else c)
        return f
    reg("numpy.any")(npquant(False))
    reg("numpy.all")(npquant(True))

    @reg("numpy.isnan", "numpy.isinf")
    def _isnan(x):
        raise Unsupported("isnan")

    @reg("numpy.allclose", "numpy.isclose", "numpy.array_equal")
    def _allclose(*a, **k):
        if len(a) == 2 and not k and all(L.is_scalar(I.deref(x)) for x in a):
            x, y = (L.scalar(v) for v in a)
            return le(fn("abs", x - y), num(Fraction(1, 10**8)) + num(Fraction(1, 10**5)) * fn("abs", y))
        raise Unsupported("allclose")

    @reg("numpy.finfo")
    def _finfo(x=None):
        return Builtin("np.finfo", None)

    @reg("numpy.linalg.norm")
    def _norm(x, ord=None, axis=None):
        if axis is not None:
            raise Unsupported("norm axis")
        t, kind, dt = L.tensor_of(x)
        if kind == "csr":
            raise Unsupported("norm of a sparse matrix")
        o = None if ord is None else (ord if isinstance(ord, str) else L.scalar(ord))
        if t.ndim == 1 and (o is None or o is num(2)):
            return T.sqrt(T.dot(t, t))
        if t.ndim == 2 and (o is None or o == "fro"):
            vs = [T.fresh_index(), T.fresh_index()]
            e = elem(t, [atom_poly(v) for v in vs])
            if t.shape[0] is ONE and kind == "mat":
                e = e
            return T.sqrt(T.bigsum(vs[0], t.shape[0], T.bigsum(vs[1], t.shape[1], e * e)))
        if t.ndim == 2 and o is num(2):
            return T.fn("spectral", t)
        return T.fn("norm", t, o if isinstance(o, Poly) else num(0), str(o) if not isinstance(o, Poly) else "")

    @reg("numpy.linalg.lstsq")
    def _lstsq(A, b, rcond="warn"):
        ta, ka, _ = L.tensor_of(A)
        tb, kb, _ = L.tensor_of(b)
        if ka == "csr" or kb == "csr":
            raise Unsupported("lstsq of a sparse matrix")
        if ta.ndim != 2:
            raise PyRaise("LinAlgError")
        L.same_dim(ta.shape[0], tb.shape[0])
        if rcond is None:
            x = theory.lstsq(ta, tb)
        else:
            rc = L.scalar(rcond) if L.is_scalar(rcond) else num(0)
            x = t_base(atom("lstsq", T.tensor(ta.shape, dict(ta.args[1])), tb, rc if L.is_scalar(rcond) else str(rcond)))
        return (I.arr(x, "nd", "float"), Opaque(atom("osym", "residuals")), Opaque(atom("osym", "rank")), Opaque(atom("osym", "singular")))

    @reg("numpy.linalg.pinv", "scipy.linalg.pinv")
    def _pinv(A, **k):
        t, kind, _ = L.tensor_of(A)
        return I.arr(t_base(atom("tfn", "pinv" + "".join(sorted(k)), (t.shape[1], t.shape[0]), t)), kind, "float")

    @reg("numpy.linalg.solve", "scipy.linalg.solve")
    def _solve(A, b):
        ta, ka, _ = L.tensor_of(A)
        tb, kb, _ = L.tensor_of(b)
        if "csr" in (ka, kb) or "mat" in (ka, kb):
            raise Unsupported("solve of matrices")
        L.same_dim(ta.shape[0], ta.shape[1])
        return L.matmul(T.minv(ta), "nd", tb, "nd")

    @reg("numpy.linalg.inv", "scipy.linalg.inv", "torch.linalg.inv", "torch.inverse")
    def _inv(A):
        t, kind, _ = L.tensor_of(A)
        if kind == "csr":
            raise Unsupported("inverse of a sparse matrix")
        L.same_dim(t.shape[0], t.shape[1])
        return I.arr(T.minv(t), kind, "float")

    @reg("numpy.linalg.matrix_power")
    def _mpow(A, k):
        t, kind, _ = L.tensor_of(A)
        if kind == "csr":
            raise Unsupported("matrix_power of a sparse matrix")
        k = L.scalar(k)
        if not I.entails(le(ZERO, k)):
            raise Unsupported("negative matrix power")
        return I.arr(T.mpow(t, k), kind, "float")

    @reg("scipy.sparse.linalg.eigsh")
    def _eigsh(M, k=num(6), **kw):
        if kw:
            raise Unsupported("eigsh options")
        t, kind, _ = L.tensor_of(M)
        if not (L.scalar(k) is t.shape[0] or I.entails(eqc(k, t.shape[0]))):
            raise Unsupported("eigsh with fewer eigenpairs")
        return eig_pair(t)

    @reg("numpy.linalg.eigh", "scipy.linalg.eigh")
    def _eigh(M):
        t, kind, _ = L.tensor_of(M)
        return eig_pair(t)

    def eig_pair(t):
        if not T.is_symmetric(t):
            raise Unsupported("eigsh of a matrix not known to be symmetric")
        return (I.arr(t_base(atom("eigval", t)), "nd", "float"), I.arr(t_base(atom("eigvec", t)), "nd", "float"))

    @reg("scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix")
    def _csr(x, dtype=None, shape=None):
        if isinstance(x, tuple):
            raise Unsupported("csr_matrix constructor")
        t, kind, dt = L.tensor_of(x)
        if t.ndim != 2:
            raise Unsupported("csr_matrix of a vector")
        return I.arr(t, "csr", dt_of(dtype, dt))

    @reg("scipy.sparse.eye", "scipy.sparse.identity")
    def _speye(n, m=None, **k):
        return I.arr(T.t_eye(L.scalar(n)), "csr", "float")

    @reg("scipy.sparse.issparse")
    def _issparse(x):
        o = I.deref(x)
        return isinstance(o, Arr) and o.kind == "csr"

    # random numbers: one stream, consumed in order
    @reg("numpy.random.randn")
    def _randn(*dims):
        dims = [L.scalar(d) for d in dims]
        return stream("normal", dims)

    @reg("numpy.random.choice")
    def _choice(a, size=None, replace=True, p=None):
        """size distinct indices below a, a function of the generator state"""
        if replace is not False or p is not None or not L.is_scalar(I.deref(a)) or size is None:
            raise Unsupported("random choice")
        n, m = L.scalar(a), L.scalar(size)
        pos = I.st.rand if isinstance(I.st.rand, Poly) else ZERO
        I.st.rand = pos + n
        for lg in I.logs:
            lg.rand = True
        r = t_base(atom("tfn", "choice", (m,), n, pos, "int"))
        I.index_facts.add((r, n))
        return I.arr(r, "nd", "int")

    @reg("numpy.random.normal", "numpy.random.standard_normal")
    def _normal(*a, **k):
        raise Unsupported("random normal")

    def stream(name, dims):
        pos = I.st.rand if isinstance(I.st.rand, Poly) else ZERO
        vs = [T.fresh_index() for _ in dims]
        off = ZERO
        for v, n in zip(vs, dims):
            off = off * n + atom_poly(v)
        size = ONE
        for n in dims:
            size = size * n
        I.st.rand = pos + size
        for lg in I.logs:
            lg.rand = True
        b = atom("vsym", "$stream:" + name, (sym("streamlen", "int"),), "real")
        e = atom_poly(atom("elem", ((b, False),), (pos + off,)))
        if not dims:
            return e
        return I.arr(T.lam(vs, dims, e), "nd", "float")
    L.stream = stream

    @reg("numpy.random.seed")
    def _seed(*a):
        raise Unsupported("random seed")

    @reg("warnings.catch_warnings")
    def _cw(**k):
        return Opaque(atom("ctxmgr", "warnings"))

    @reg("warnings.simplefilter", "warnings.filterwarnings", "warnings.warn")
    def _wf(*a, **k):
        return None

    @reg("torch.no_grad")
    def _nograd():
        return Opaque(atom("ctxmgr", "no_grad"))

    @reg("numpy.errstate")
    def _errstate(**k):
        return Opaque(atom("ctxmgr", "errstate"))

    @reg("typing.TypeVar")
    def _tv(*a, **k):
        return Opaque(atom("osym", "typevar"))


NONE_ARRAY = ClassVal("$none_array", "numpy", [], {})
