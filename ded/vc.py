"""Verification conditions: one function against its contract."""

import ast
from fractions import Fraction
import os
import time

from . import solver
from . import terms as T
from . import theory
from .interp import Interp, ReturnSig
from .solver import entails, zero
from .terms import *
from .terms import atom, t_base
from .values import *
from . import seqs
from . import graphs, tables
from .lib import CObj, MaybeNone, SymDict

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOP = None


class Stop(Exception):
    """contract text finished early (the call must raise)"""

    def __init__(self, exc):
        self.exc = exc


class NotProved(Exception):
    pass


# ---------------------------------------------------------------- equality
class Eq:
    """equality of symbolic values on the current state"""

    def __init__(self, I):
        self.I = I
        self.why = None
        self.pair = None

    def fail(self, msg, a=None, b=None):
        if self.why is None:
            self.why = msg
            self.pair = (a, b)
        return False

    def scalar(self, a, b, facts=()):
        r = zero(a - b, self.I.st.pc + list(facts))
        if r is not True:
            return self.fail(f"{T.show(a)}  ==  {T.show(b)}", a, b)
        return True

    def tensors(self, a, b):
        if len(a.shape) != len(b.shape):
            return self.fail(f"shape {a.shape} vs {b.shape}", a, b)
        for x, y in zip(a.shape, b.shape):
            if x is not y and zero(x - y, self.I.st.pc) is not True:
                return self.fail(f"shape {a.shape} vs {b.shape}", a, b)
        if a is b:
            return True
        b2 = T.tensor(a.shape, dict(b.args[1]))
        d = T.t_add(a, T.t_scale(b2, num(-1)))
        if not d.args[1]:
            return True
        # coefficients of the words
        facts = [lt(ZERO, n) for n in a.shape]
        rest = {w: c for w, c in d.args[1] if zero(c, self.I.st.pc + facts) is not True}
        if not rest:
            return True
        vs = [T.fresh_index() for _ in a.shape]
        p = [atom_poly(v) for v in vs]
        facts = [le(ZERO, q) for q in p] + [lt(q, n) for q, n in zip(p, a.shape)]
        e = elem(T.tensor(a.shape, rest), p)
        if zero(e, self.I.st.pc + facts) is True:
            return True
        if any(len(w) > 1 and all(b.op == "lam" for b, f in w) for w in rest):
            e = T.expand_elem(T.tensor(a.shape, rest), p)
            if zero(e, self.I.st.pc + facts) is True:
                return True
        for whole in (False, True):
            x = T.deep_expand(e, whole)
            if x is not e and zero(x, self.I.st.pc + facts) is True:
                return True
        x = theory.unfold_inverse(T.tensor(a.shape, rest))
        if x is not None and not x.args[1]:
            return True
        m = known_symbols(self.I.st.pc)
        if m:
            x, y = subst(a, m), subst(b, m)
            if (x is not a or y is not b) and self.tensors(x, y) is True:
                return True
        return self.fail(f"{T.show(a)}  ==  {T.show(b)}", a, b)

    def __call__(self, a, b):
        I = self.I
        oa, ob = I.deref(a), I.deref(b)
        if oa is ob and not isinstance(oa, (DeadView, Undef)):
            return True
        if isinstance(oa, (Arr, BoolArr, IndexArr)) or isinstance(ob, (Arr, BoolArr, IndexArr)):
            try:
                ta, tb = self.tens(a), self.tens(b)
            except Unsupported as e:
                return self.fail(f"not comparable: {e}")
            if ta.ndim == 2 and tb.ndim == 1 and ta.shape[0] is ONE and self.kind(a) == "mat":
                ta = T.lam([v := T.fresh_index()], (ta.shape[1],), elem(ta, (ZERO, atom_poly(v))))
            return self.tensors(ta, tb)
        if isinstance(oa, (Cond, bool)) or isinstance(ob, (Cond, bool)):
            if isinstance(oa, (Cond, bool)) and isinstance(ob, (Cond, bool)):
                x, y = I.truth_cond(oa), I.truth_cond(ob)
                if x is y:
                    return True
                if entails(I.st.pc + [x], y) and entails(I.st.pc + [y], x):
                    return True
            return self.fail(f"{oa!r} vs {ob!r}")
        if isinstance(oa, Poly) and isinstance(ob, Poly):
            return self.scalar(oa, ob)
        if oa is None or ob is None:
            return True if oa is ob else self.fail(f"{oa!r} vs {ob!r}")
        if isinstance(oa, str) and isinstance(ob, str):
            return True if oa == ob else self.fail(f"{oa} vs {ob}")
        seq = (tuple, ListObj, SeqVal)
        if isinstance(oa, seq) and isinstance(ob, seq):
            x, y = I.lib.iterate(a), I.lib.iterate(b)
            if isinstance(x, SeqVal) and isinstance(y, SeqVal) and x.key is not None and x.key is y.key:
                return True
            if isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return self.fail(f"lengths {len(x)} and {len(y)}")
                return all(self(p, q) for p, q in zip(x, y))
            nx, ny = I.lib.length(a), I.lib.length(b)
            if not self.scalar(nx, ny):
                return False
            if x == () or y == ():
                return True
            k = atom_poly(T.fresh_index())
            at = lambda s, k: s.at(k) if isinstance(s, SeqVal) else I.lib.getitem(tuple(s), k)
            return self.for_all_paths(lambda: self(at(x, k), at(y, k)), [le(ZERO, k), lt(k, nx)])
        if isinstance(oa, DictObj) and isinstance(ob, DictObj):
            if oa.items is not None and ob.items is not None:
                if list(oa.items) != list(ob.items) and set(oa.items) != set(ob.items):
                    return self.fail("keys differ")
                return all(self(oa.items[k], ob.items[k]) for k in ob.items)
            if oa.base is ob.base and oa.base is not None:
                return True
            return self.dicts(oa, ob)
        if isinstance(oa, Opaque) and isinstance(ob, Opaque) and oa == ob:
            return True
        if isinstance(oa, SymStr) and isinstance(ob, (SymStr, str)) or isinstance(ob, SymStr) and isinstance(oa, str):
            p = oa.p if isinstance(oa, SymStr) else code(oa)
            q = ob.p if isinstance(ob, SymStr) else code(ob)
            return self.scalar(p, q)
        return self.fail(f"{type(oa).__name__} vs {type(ob).__name__}")

    def dicts(self, a, b):
        def pairs(o):
            if o.base is None:
                return None
            return self.I.lib.dict_iter(o, 2)
        x, y = pairs(a), pairs(b)
        if x is None or y is None:
            return self.fail("dictionaries")
        return self(x, y)

    def for_all_paths(self, f, facts):
        I = self.I

        def body():
            for c in facts:
                I.assume(c)
            return f()
        return all(kind == "value" and v is True for kind, v, st, conds in I.explore(body))

    def kind(self, v):
        o = self.I.deref(v)
        return o.kind if isinstance(o, Arr) else "nd"

    def tens(self, v):
        return self.I.lib.tensor_of(v)[0]


def known_symbols(pc):
    """symbols that the path condition sets to a number"""
    m = {}
    for c in pc:
        if c.op == "eq0":
            fr = [a for mm, k in c.args[0].args for a, e in mm]
            if len(fr) == 1 and fr[0].op == "sym":
                t = T.solve_for(c.args[0], fr[0])
                if t is not None and t.const() is not None:
                    m[fr[0]] = t
    return m


# ------------------------------------------------------------ contract "c"
class Impl:
    def __init__(self, vc, mode, base=None):
        self.vc, self.I, self.mode = vc, vc.I, mode
        self.raises_ = []
        self.value = UNDEF
        self.checks = []          # (name, callable on result)
        self.frame = {}           # ref id -> set of attributes
        self.fresh_ = False
        self.dims = {}

    def attr(self, name):
        m = getattr(self, "c_" + name, None)
        if m is None:
            raise Unsupported(f"contract clause {name}")
        return Builtin("c." + name, m)

    # --- clauses
    def c_requires(self, cond):
        c = self.I.truth_cond(cond)
        if self.mode == "prove":
            self.I.assume(c)
            if c is FALSE or entails(self.I.st.pc, FALSE):
                raise Stop(None)
        else:
            self.need("requires", c)

    def need(self, what, c):
        if not self.I.entails(c):
            raise Unsupported(f"precondition not shown: {what} {T.show(c)}")

    def c_raises(self, exc, cond):
        if self.I.truth(cond):
            raise Stop(exc)

    def c_may_raise(self, *names):
        self.allowed = getattr(self, "allowed", ()) + names

    def c_returns(self, value):
        self.value = value

    def c_returns_rounded(self, value, digits):
        t, kind, dt = self.I.lib.tensor_of(value)
        self.value = self.I.arr(T.emap(lambda x: fn("round", x, num(digits)), t))

    def c_ensures(self, name, f):
        self.checks.append((name, f))

    def c_modifies(self, obj, *attrs):
        self.frame.setdefault(obj.id, set()).update(attrs)

    def c_fresh_result(self):
        self.fresh_ = True

    # --- typed preconditions: the argument builder makes the most general
    # value of the type, so there is nothing to assume beyond dimensions
    def shape_fact(self, v, dims):
        t, _, _ = self.I.lib.tensor_of(v)
        if len(t.shape) != len(dims):
            raise Unsupported("argument of a different rank")
        for n, d in zip(t.shape, dims):
            if isinstance(d, str):
                d = self.dims.setdefault(d, n)
            if n is not d:
                if self.mode == "prove":
                    self.I.assume(eqc(n, d))
                else:
                    self.need("shape", eqc(n, d))

    def c_requires_flow(self, sc, f):
        o = self.I.deref(sc)
        self.shape_fact(f, [self.I.lib.length(o.attrs["edges"])])

    def c_requires_matrix(self, m, a, b):
        self.shape_fact(m, [a, b])

    def c_requires_vector(self, v, a):
        self.shape_fact(v, [a])

    def c_requires_symmetric(self, m):
        t, _, _ = self.I.lib.tensor_of(m)
        self.shape_fact(m, ["sq", "sq"])
        if not T.is_symmetric(t):
            raise Unsupported("symmetric matrix expected")

    def c_requires_same_shape(self, a, b):
        ta, tb = self.I.lib.tensor_of(a)[0], self.I.lib.tensor_of(b)[0]
        for x, y in zip(ta.shape, tb.shape):
            (self.I.assume if self.mode == "prove" else lambda c: self.need("shape", c))(eqc(x, y))

    def c_requires_separated(self, sc):
        """the eigenvalue threshold separates zero from nonzero: the
        harmonic, curl and gradient eigenvectors found number n1"""
        pair = self.I.import_name("contracts.spec", "component_pair")
        total = ZERO
        for comp in ("harmonic", "curl", "gradient"):
            r = self.I.call(pair, [sc, comp, num(Fraction(1, 1000))], {})
            total = total + self.I.lib.tensor_of(self.I.lib.iterate(r)[1])[0].shape[0]
        o = self.I.deref(sc)
        c = eqc(total, self.I.lib.length(o.attrs["edges"]))
        self.I.assume(c) if self.mode == "prove" else None

    def c_requires_valid_complex(self, nodes, edges, triangles):
        self.c_requires_valid_edges(edges, self.I.lib.length(nodes))
        self.c_requires_valid_triangles(triangles, edges)

    def c_requires_valid_edges(self, edges, n):
        s = self.I.lib.iterate(edges)
        if self.mode == "prove" and isinstance(s, SeqVal):
            self.vc.edge_facts(s.key.args[0], num(n), s.n)

    def c_requires_valid_triangles(self, triangles, edges):
        s, e = self.I.lib.iterate(triangles), self.I.lib.iterate(edges)
        if self.mode == "prove" and isinstance(s, SeqVal):
            # (the edges of a valid complex are pairwise different)
            if e.key.args[0] not in solver.SEQ_FACTS:
                self.vc.edge_facts(e.key.args[0], sym("bound:nodes", "int"), e.n)
            self.vc.triangle_facts(s.key.args[0], e, s.n)

    # --- boundary operators
    def entries(self, B, rows, cols, spec):
        t, _, _ = self.I.lib.tensor_of(B)
        if len(t.shape) != 2:
            return False
        e = Eq(self.I)
        for x, y in zip(t.shape, (rows, cols)):
            if not e.scalar(x, y):
                self.vc.note(e)
                return False
        i, j = T.fresh_index(), T.fresh_index()
        ip, jp = atom_poly(i), atom_poly(j)
        facts = [le(ZERO, ip), lt(ip, rows), le(ZERO, jp), lt(jp, cols)]
        r = spec(elem(t, (ip, jp)), ip, jp, self.I.st.pc + facts)
        if r is not True:
            self.vc.note_text(f"entry ({T.show(ip)},{T.show(jp)}) of the boundary: {T.show(elem(t, (ip, jp)))}")
            return T.cond("bsym", f"unproved:{len(self.vc.notes)}")
        return True

    def c_is_boundary1(self, B, nodes, edges):
        return self.c_is_boundary1_n(B, self.I.lib.length(nodes), edges)

    def c_is_boundary1_n(self, B, n, edges):
        s = self.I.lib.iterate(edges)

        def spec(x, i, j, facts):
            u, v = s.at(j)
            return zero(x - ind(eqc(v, i)) + ind(eqc(u, i)), facts)
        return self.entries(B, num(n), s.n, spec)

    def c_is_adjacency(self, A, sc):
        o = self.I.deref(sc)
        es = self.I.lib.iterate(o.attrs["edges"])
        n = self.I.lib.length(o.attrs["nodes"])

        def spec(x, i, j, facts):
            has = c_or(seqs.contains(es.key, (i, j)), seqs.contains(es.key, (j, i)))
            return zero(x - ind(has), facts)
        return self.entries(A, n, n, spec)

    def c_is_boundary2(self, B, edges, triangles):
        s, es = self.I.lib.iterate(triangles), self.I.lib.iterate(edges)

        def spec(x, i, j, facts):
            a, b, c = s.at(j)
            u, v = es.at(i)
            has = seqs.contains(es.key, (a, b))
            o = ZERO
            for p, q in ((a, b), (b, c), (c, a)):
                o = o + ind(c_and(eqc(u, p), eqc(v, q))) - ind(c_and(eqc(u, q), eqc(v, p)))
            sg = ind(has) * num(2) - ONE
            for want in (sg * o, o, -o):
                if zero(x - want, facts) is True:
                    return True
            return False
        return self.entries(B, es.n, s.n, spec)

    def noop(self, *a):
        return None

    c_requires_conditioned = c_requires_nonzero = noop
    c_requires_splittable = noop
    c_requires_nonnegative = c_requires_kernel = c_requires_indices = c_requires_features = c_requires_ratios = noop

    # --- plots: what is on the axes
    def c_axes(self, ax):
        return self.I.lib.current_axes if ax is None else ax

    def c_networks(self):
        """flows of the networks of the figure that was made last, one per axes"""
        return self.I.deref(self.I.lib.current_figure).attrs["networks"]

    def c_requires_positions(self, plot):
        self.c_requires(self.I.deref(plot).attrs["pos"] is not None)

    def c_modifies_drawing(self, ax):
        self.c_modifies(ax, "texts", "points", "drawings", "areas", "title")

    def on_axes(self, ax, what):
        return self.I.deref(ax).attrs[what]

    def c_texts(self, ax):
        return self.on_axes(ax, "texts")

    def c_areas(self, ax):
        return self.on_axes(ax, "areas")

    def c_within(self, a, b, tol):
        d = self.I.lib.scalar(a) - self.I.lib.scalar(b)
        tol = self.I.lib.scalar(tol)
        return c_and(le(d, tol), le(-d, tol))

    def c_is_text(self, t, pos, text):
        L = self.I.lib
        x, y, s = L.unpack(t, 3)
        p, q = L.unpack(pos, 2)
        return c_and(eqc(x, L.scalar(p)), eqc(y, L.scalar(q)), self.I.truth_cond(self.c_eq(s, text)))

    def c_is_area(self, corners, want):
        return self.c_eq(corners, want)

    def one(self, ax, what):
        o = self.I.deref(self.on_axes(ax, what))
        if o.items is None or len(o.items) != 1:
            raise Unsupported(f"{what} of the axes")
        return o.items[0]

    def c_point_count(self, ax):
        xs, ys = self.one(ax, "points")[:2]
        L = self.I.lib
        if not self.I.entails(eqc(L.length(xs), L.length(ys))):
            raise PyRaise("ValueError", "scatter")
        return L.length(xs)

    def c_is_point(self, ax, k, pos):
        L = self.I.lib
        xs, ys = self.one(ax, "points")[:2]
        p, q = L.unpack(pos, 2)
        return c_and(eqc(L.scalar(L.getitem(xs, k)), L.scalar(p)), eqc(L.scalar(L.getitem(ys, k)), L.scalar(q)))

    def c_point_values(self, ax, color):
        return self.c_eq(self.one(ax, "points")[2], color)

    def c_point_colours(self, ax, color, cmap, vmin, vmax):
        if isinstance(self.I.deref(color), str):
            return True
        got = self.one(ax, "points")[3:]
        return self.limits(got, cmap, vmin, vmax)

    def limits(self, got, cmap, vmin, vmax):
        I = self.I
        if not isinstance(got[0], Builtin) or cmap is not None and got[0].name != cmap.name:
            return False
        return c_and(*[TRUE if want is None else FALSE if x is None else eqc(I.lib.scalar(x), I.lib.scalar(want)) for x, want in zip(got[1:], (vmin, vmax))])

    def c_drawn(self, ax, edges):
        L = self.I.lib
        n = L.length(edges)
        got = self.one(ax, "drawings")[0]
        of = self.I.deref(got).seq
        if of is None:
            return eqc(n, ZERO)
        of = getattr(of, "permutes", None)
        if of is None or not self.I.entails(eqc(of.n, n)):
            return False
        whole = self.I.alloc(ListObj(seq=of))
        return self.c_eq(whole, edges)

    def c_drawn_at(self, ax, pos):
        return self.c_same(self.one(ax, "drawings")[1], pos)

    def c_drawn_values(self, ax, n, f):
        L, I = self.I.lib, self.I
        edges, _, color = self.one(ax, "drawings")[:3]
        it = L.iterate(color)
        if it == ():
            return eqc(num(n), ZERO)
        if not I.entails(eqc(L.length(color), num(n))):
            return False
        return self.c_forall(n, Builtin("own value", lambda k: eqc(L.scalar(L.getitem(color, k)), L.scalar(I.call(f, [L.getitem(edges, k)], {})))))

    def c_drawn_colours(self, ax, cmap, vmin, vmax):
        return self.limits(self.one(ax, "drawings")[3:], cmap, vmin, vmax)

    def c_requires_simplex(self, simplex):
        xs = [self.I.lib.scalar(x) for x in self.I.lib.concrete_items(simplex)]
        for i, x in enumerate(xs):
            for y in xs[:i]:
                self.I.assume(c_not(eqc(x, y)))

    def c_is_faces(self, r, simplex):
        xs = graphs.sort_items(self.I.lib, self.I.lib.concrete_items(simplex))
        want = tuple(tuple(x for j, x in enumerate(xs) if j != k) for k in reversed(range(len(xs))))
        got = tuple(tuple(self.I.lib.concrete_items(f)) for f in self.I.lib.concrete_items(r))
        return self.c_eq(got, want)

    # --- values
    def c_is_zero(self, m):
        if isinstance(m, T.Poly):
            return self.c_eq(m, ZERO)
        t, kind, _ = self.I.lib.tensor_of(m)
        z = T.tensor(t.shape, {})
        e = Eq(self.I)
        if e.tensors(t, z) is not True:
            self.vc.note(e)
            return T.cond("bsym", f"unproved:{len(self.vc.notes)}")
        return True

    def c_check(self, name, cond):
        self.put(name, self.I.entails(self.I.truth_cond(cond)), "; ".join(str(x[0])[:600] for x in self.vc.notes[-2:]))

    def c_eq(self, a, b):
        e = Eq(self.I)
        r = e(a, b)
        if r is not True:
            self.vc.note(e)
            return T.cond("bsym", f"unproved:{len(self.vc.notes)}")
        return True

    def c_same(self, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return True
        return self.c_eq(a, b)

    def c_forall(self, n, pred):
        I = self.I
        k = atom_poly(T.fresh_index())

        def body():
            I.assume(le(ZERO, k))
            I.assume(lt(k, num(n)))
            return I.truth_cond(I.call(pred, [k], {}))
        for kind, v, st, conds in I.explore(body):
            if kind == "raise":
                if not entails(st.pc, FALSE):
                    self.vc.note_text(f"raises {v}")
                    return T.cond("bsym", f"unproved:raise{len(self.vc.notes)}")
            elif not entails(st.pc, v):
                return T.cond("bsym", f"unproved:forall{len(self.vc.notes)}")
        return True

    def on_index(self, n, pred):
        """(index, condition that pred holds there)"""
        I = self.I
        v = T.fresh_index()
        k = atom_poly(v)
        out = []

        def body():
            I.assume(le(ZERO, k))
            I.assume(lt(k, num(n)))
            return I.truth_cond(I.call(pred, [k], {}))
        for kind, r, st, conds in I.explore(body):
            if kind == "raise":
                if not entails(st.pc, FALSE):
                    raise Unsupported(f"specification raises {r}")
            else:
                out.append(c_and(*conds, r))
        return v, c_or(*out)

    def c_exists(self, n, pred):
        v, c = self.on_index(n, pred)
        return T.exists(v, num(n), c)

    def c_first(self, n, pred):
        v, c = self.on_index(n, pred)
        return T.first_ix(v, num(n), c)

    def c_requires_forall(self, n, pred):
        v, c = self.on_index(n, pred)
        self.c_requires(c_not(T.exists(v, num(n), c_not(c))))

    def c_requires_distinct(self, n, f):
        from . import sets
        L = self.I.lib
        i, j = T.fresh_index(), T.fresh_index()
        x, y = (sets.key_of(L, self.under(n, v, f)) for v in (i, j))
        self.c_requires(c_not(T.exists(i, num(n), T.exists(j, atom_poly(i), sets.same(x, y)))))

    def under(self, n, v, f):
        """f(v) for a v < n"""
        I = self.I
        k = atom_poly(v)

        def body():
            I.assume(le(ZERO, k))
            I.assume(lt(k, num(n)))
            return I.call(f, [k], {})
        ps = [p for p in I.explore(body) if not (p[0] == "raise" and entails(p[2].pc, FALSE))]
        if len(ps) != 1 or ps[0][0] != "value":
            raise Unsupported("specification with cases")
        for q, o in ps[0][2].heap.items():
            I.st.heap.setdefault(q, o)
        return ps[0][1]

    # --- tables
    def table(self, df):
        return self.I.deref(df).attrs["table"]

    def c_data_folder(self, module, default):
        return default

    def c_requires_columns(self, df, cols):
        it = self.I.lib.iterate(cols)
        has, t = self.I.lib.has_column, self.table(df)
        if isinstance(it, tuple):
            for x in it:
                self.c_requires(has(t, name_code(x)))
            return
        v = T.fresh_index()
        self.c_requires(c_not(T.exists(v, it.n, c_not(has(t, name_code(it.at(atom_poly(v))))))))

    def c_requires_edge_table(self, df, src, dst, zero):
        t = self.table(df)
        self.c_requires_columns(df, (src, dst))
        self.c_requires(lt(ZERO, t.n))
        off = ONE if self.I.truth_cond(zero) is FALSE else ZERO
        for x in (src, dst):
            v = T.fresh_index()
            self.c_requires(c_not(T.exists(v, t.n, lt(self.endpoint(t, v, x), off))))

    def endpoint(self, t, v, col):
        from . import frames
        return frames.as_int(elem(t.cells(), (atom_poly(v), name_code(col))))

    def c_requires_rows(self, df, src, dst, zero, edges):
        t = self.table(df)
        s = self.I.lib.iterate(edges)
        off = ONE if self.I.truth_cond(zero) is FALSE else ZERO
        name = s.key.args[0]
        n, per, pair = solver.SEQ_FACTS[name]

        def more(k):
            v = T.fresh_index()
            u, w = (seqs.field(s.key, j, k) for j in (0, 1))
            return T.exists(v, t.n, c_and(eqc(self.endpoint(t, v, src) - off, u), eqc(self.endpoint(t, v, dst) - off, w)))
        solver.SEQ_FACTS[name] = (n, more, pair)

    def c_is_record(self, d, row, cols):
        from . import frames
        I = self.I
        o = I.deref(row)
        want = I.call(I.getattr(I.lib.getitem(row, cols), "to_dict"), [], {})
        return True if frames.same_pairs(self.vc, d, want) else T.cond("bsym", f"unproved:{len(self.vc.notes)}")

    def c_same_table(self, a, b):
        x, y = self.I.deref(a), self.I.deref(b)
        if not isinstance(x, Inst) or not isinstance(y, Inst) or x.cls is not y.cls:
            return False
        if "t" in x.attrs:
            return x.attrs["t"] is y.attrs["t"]
        return x.attrs["table"].key() == y.attrs["table"].key()

    def c_requires_triangle_columns(self, B, ends):
        """(of a file) the edges of every column form a triangle: what
        SimplicialComplex.__init__ requires of the triangles"""

    def c_requires_rows_of(self, B, edges):
        t = self.I.lib.tensor_of(B)[0]
        self.c_requires(eqc(t.shape[0], self.I.lib.length(edges)))

    def c_requires_incidence(self, filename):
        """the file holds a node-edge incidence matrix: every column has one
        -1 (start) and one 1 (end) at different rows and is 0 elsewhere"""
        I = self.I
        E = I.lib.ext
        f = I.call(E["pandas.read_csv"], [filename], {"header": None})
        t = I.deref(f).attrs["t"]
        key = t_key(t)
        n, m = t.shape
        name = "ends:" + key
        g = lambda j, k: fn("iseq", atom("seqf", name, j), (num(k),))
        solver.SEQ_FACTS[name] = (m, lambda k: c_and(*[c_and(le(ZERO, g(j, k)), lt(g(j, k), n)) for j in (0, 1)], c_not(eqc(g(0, k), g(1, k)))), None)
        i, j = T.fresh_index(), T.fresh_index()
        ip, jp = atom_poly(i), atom_poly(j)
        I.incidence[key] = T.lam([i, j], (n, m), ind(eqc(g(1, jp), ip)) - ind(eqc(g(0, jp), ip)))
        v, w = T.fresh_index(), T.fresh_index()
        vp, wp = atom_poly(v), atom_poly(w)
        return I.arr(T.lam([v, w], (m, num(2)), ind(eqc(wp, ZERO)) * g(0, vp) + ind(eqc(wp, ONE)) * g(1, vp)), "nd", "int")

    def c_is_sorted_set(self, r, n, keep, items):
        from . import sets
        I, L = self.I, self.I.lib
        s = L.iterate(r)
        if not isinstance(s, sets.SortedSeq):
            raise Unsupported("a sequence that is not a sorted set")
        v, c = self.on_index(n, keep)
        its = tuple(sets.key_of(L, x) for x in self.under(n, v, items))
        want = sets.GenSet([(num(n), lambda k: subst(c, {v: k}), lambda k: tuple(subst(x, {v: k}) for x in its))])

        def inside(a, b):
            k = atom_poly(T.fresh_index())
            return all(I.entails_under([le(ZERO, k), lt(k, m), c(k)], sets.member(b, x)) for m, c, g in a.gens for x in g(k))
        if inside(s.gens, want) and inside(want, s.gens):
            return True
        self.vc.note_text("members of the sorted set")
        return T.cond("bsym", f"unproved:{len(self.vc.notes)}")

    def c_random_stream(self, n, m, size):
        """numpy.random.randn draws of realisation (i, j), in order"""
        L = self.I.lib

        def draw(i, j):
            old = self.I.st.rand
            self.I.st.rand = (L.scalar(i) * num(m) + L.scalar(j)) * num(size)
            r = L.stream("normal", [num(size)])
            self.I.st.rand = old
            return r
        return Builtin("c.random_stream", draw)

    def c_choice_stream(self, n, m, size, ratio):
        L = self.I.lib

        def draw(i, j):
            old = self.I.st.rand
            self.I.st.rand = (L.scalar(i) * num(m) + L.scalar(j)) * num(size)
            M = L.cast_scalar(L.ext["numpy.floor"].fn(num(size) * L.scalar(L.getitem(ratio, L.scalar(i), checked=True))), "int")
            ix = L.ext["numpy.random.choice"].fn(num(size), M, replace=False)
            self.I.st.rand = old
            z = L.ext["numpy.zeros"].fn(num(size))
            L.setitem(z, ix, ONE)
            return z
        return Builtin("c.choice_stream", draw)

    def c_is_l1_solution(self, x, f, S, mu, mask):
        from . import cvx
        L = self.I.lib
        t = L.tensor_of(x)[0]
        var = self.I.instantiate(L.ext["cvxpy.Variable"], [t.shape[0]], {})
        fit = cvx.Norms(var, [(ONE, 2, cvx.binop(L, ast.Sub(), var, f)), (L.scalar(mu), 1, cvx.binop(L, ast.MatMult(), S, var))])
        cons = []
        if mask is not None:
            D = L.ext["numpy.diag"].fn(mask)
            D = L.getitem(D, (L.ext["numpy.any"].fn(D, axis=ONE), ("slice", None, None, None)))
            left, right = L.binop(ast.MatMult(), D, f), cvx.binop(L, ast.MatMult(), D, var)
            cons.append(cvx.compare(L, ast.Eq(), right, left))
        return self.c_eq(x, self.I.arr(cvx.argmin(t.shape[0], fit, cons)))

    def c_some_missing(self, feats, name):
        s = self.I.lib.dict_iter(self.I.deref(feats), 1)
        v = T.fresh_index()
        return T.exists(v, s.n, c_not(self.I.lib.contains(s.at(atom_poly(v)), name)))

    def c_is_triangles(self, r, edges):
        return self.clique_clause(r, edges, lambda a, b, c: TRUE)

    def c_is_close_triangles(self, r, b, col, eps):
        eps = self.I.lib.scalar(eps)
        edges = self.I.deref(b).attrs["edges"]
        features = self.I.deref(b).attrs["edge_features"]
        ek = self.I.lib.iterate(edges).key

        def d(x, y):
            known, value = ZERO, ZERO
            if self.I.deref(features).items == {}:
                return FALSE
            i = ind(seqs.contains(ek, (x, y)))
            for w, (p, q) in ((i, (x, y)), (ONE - i, (y, x))):
                m = self.I.lib.getitem(tables.value_at(self.I.lib, features, (p, q)), col)
                known = known + w * (ind(c_not(m.isnone)) if isinstance(m, MaybeNone) else ONE)
                value = value + w * (m.value if isinstance(m, MaybeNone) else self.I.lib.scalar(m))
            return c_and(eqc(known, ONE), lt(value, eps))
        return self.clique_clause(r, edges, lambda x, y, z: c_and(d(x, y), d(y, z), d(x, z)))

    def clique_clause(self, r, edges, keep):
        """r is the list of the sorted 3-cliques with `keep`, each once"""
        I = self.I
        e = I.lib.iterate(edges)
        s = I.lib.iterate(r)
        if s == ():
            s = graphs.cliques(I, e.key)
            s = graphs.FilterSeq(s.n, lambda k: FALSE, s.at, s.facts)
        if not isinstance(s, graphs.FilterSeq) or s.facts is None or getattr(s.facts, "cliques_of", None) is not e.key:
            raise Unsupported("a list that is not built from the cliques of the edges")
        name = e.key.args[0]
        kp = atom_poly(T.fresh_index())
        abc = [graphs.node_of(name, kp, j, True) for j in range(3)]

        def body():
            I.assume(le(ZERO, kp))
            I.assume(lt(kp, s.m))
            I.assume(s.facts(kp))
            want = c_and(eqc(graphs.size_of(name, kp), num(3)), keep(*abc))
            same = I.entails_under([want], s.cond(kp)) and I.entails_under([s.cond(kp)], want)
            if not same:
                self.vc.note_text(f"kept cliques: {T.show(s.cond(kp))[:300]}  expected: {T.show(want)[:300]}")
                return False
            I.assume(s.cond(kp))
            x = I.lib.unpack(s.elem(kp), 3)
            ok = all(I.entails(eqc(I.lib.scalar(p), q)) for p, q in zip(x, abc))
            if not ok:
                self.vc.note_text(f"elements {[T.show(I.lib.scalar(p)) for p in x]}")
            return ok
        good = all(kind == "value" and (v is True) or entails(st.pc, FALSE) for kind, v, st, conds in I.explore(body))
        return True if good else T.cond("bsym", f"unproved:{len(self.vc.notes)}")

    def c_determined(self, r):
        """no draw from a global generator"""
        return self.I.st.rand == () or self.I.st.rand is ZERO

    def c_is_simple(self, edges, n):
        I = self.I
        s = I.lib.iterate(edges)
        n = I.lib.scalar(n)
        if not isinstance(s, SeqVal) or s.key is None or s.key.op != "seq":
            raise Unsupported("edges of unknown origin")
        k, q = atom_poly(T.fresh_index()), atom_poly(T.fresh_index())
        rng = lambda x: c_and(le(ZERO, x), lt(x, s.n))
        (a, b), (x, y) = s.at(k), s.at(q)
        one = c_and(le(ZERO, a), lt(a, n), le(ZERO, b), lt(b, n), c_not(eqc(a, b)))
        two = c_and(c_not(c_and(eqc(a, x), eqc(b, y))), c_not(c_and(eqc(a, y), eqc(b, x))))
        return I.entails_under([rng(k)], one) and I.entails_under([rng(k), rng(q), lt(k, q)], two)

    def c_mean(self, m, f):
        I = self.I
        k = T.fresh_index()
        kp = atom_poly(k)

        def body():
            I.assume(le(ZERO, kp))
            I.assume(lt(kp, num(m)))
            return I.call(f, [kp], {})
        paths = I.explore(body)
        good = [p for p in paths if p[0] == "value"]
        v, heap = I.merge_values([(c_and(*p[3]), p[1], p[2]) for p in good])
        for q, o in heap.items():
            I.st.heap.setdefault(q, o)
        return T.bigsum(k, num(m), I.lib.scalar(v)) * T.inv(num(m))

    def c_some_vector(self, name):
        return self.I.arr(T.vsym("arg:" + name, sym("len:" + name, "int")))

    def c_num(self, v):
        t, k, d = self.I.lib.tensor_of(v)
        if t.ndim == 0:
            return elem(t, ())
        if all(s is ONE for s in t.shape):
            return elem(t, [ZERO] * t.ndim)
        raise Unsupported("c.num")

    def c_mean_std(self, y):
        L = self.I.lib
        m = L.reduce(y, "mean")
        t, kind, dt = L.tensor_of(y)
        return (m, L.reduce(self.I.arr(t, "torch", dt), "std"))

    def c_numbers(self, n):
        return self.I.lib.ext["numpy.arange"].fn(n)

    def c_is_split(self, train, test, n, ratio, seed):
        """the two index arrays that sklearn's train_test_split makes"""
        L = self.I.lib
        e = Eq(self.I)
        a, b = L.split_indices(num(n), L.scalar(ratio), L.scalar(seed))
        r = e.tensors(L.tensor_of(train)[0], a) and e.tensors(L.tensor_of(test)[0], b)
        if r is not True:
            self.vc.note(e)
            return T.cond("bsym", f"unproved:{len(self.vc.notes)}")
        return True

    def c_close(self, a, b, tol):
        return self.c_eq(a, b)

    def c_index(self, v):
        t, k, d = self.I.lib.tensor_of(v)
        if t.ndim == 1:
            return self.I.arr(t, "nd", "int")
        i = T.fresh_index()
        return self.I.arr(T.lam([i], (t.shape[0],), elem(t, (atom_poly(i), ZERO))), "nd", "int")

    def c_power_iterate(self, P, k):
        return self.I.call(self.I.import_name("contracts.loops", "power_iterate"), [P, k], {})

    def c_chebyshev_sum(self, M, coeffs, terms):
        return self.I.call(self.I.import_name("contracts.loops", "chebyshev_sum"), [M, coeffs, terms], {})

    def c_is_eigenpair(self, M, U, lam, tol):
        """U, lam are the eigenpairs of M named by the library contract"""
        t, _, _ = self.I.lib.tensor_of(M)
        ev, el = eig_of(self.I, t)
        e = Eq(self.I)
        tol = num(self.I.lib.scalar(tol))
        clamp = self.I.arr(T.emap(lambda x: ite(lt(fn("abs", x), tol), ZERO, x), self.I.lib.tensor_of(el)[0]))
        r = e(U, ev) and e(lam, clamp)
        if not r:
            self.vc.note(e)
            return T.cond("bsym", f"unproved:{len(self.vc.notes)}")
        return True


def t_key(t):
    (w, c), = t.args[1]
    return w[0][0].args[0]


def name_code(x):
    if isinstance(x, SymStr):
        return x.p
    if isinstance(x, str):
        return code(x)
    raise Unsupported("feature name")


def mutated_attributes(cls):
    """names of the attributes of self assigned outside of __init__"""
    out = set()
    for k in cls.mro():
        for name, v in k.attrs.items():
            f = v.fn if isinstance(v, (PropertyVal, StaticVal)) else v
            if name == "__init__" or not isinstance(f, Func) or not isinstance(f.node, ast.FunctionDef) or not f.node.args.args:
                continue
            me = f.node.args.args[0].arg
            for n in ast.walk(f.node):
                ctx = getattr(n, "ctx", None)
                if isinstance(ctx, (ast.Store, ast.Del)) and isinstance(n, (ast.Attribute, ast.Subscript)):
                    while isinstance(n, (ast.Attribute, ast.Subscript)):
                        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                            out.add(n.attr)
                        n = n.value
    return out


def owner_is(key, cls, names):
    return key.split(":")[1] in {cls + "." + n for n in names}


def eig_of(I, t):
    return I.arr(t_base(atom("eigvec", t))), I.arr(t_base(atom("eigval", t)))


# ------------------------------------------------------------------ driver
class VC:
    def __init__(self):
        self.I = Interp({"pytspl": REPO, "contracts": HERE})
        self.notes = []
        self.results = []
        I = self.I
        env = self.I.module_env("contracts.api")
        I.envdict(env.id)["contract"] = Builtin("contract", lambda *a, **k: Builtin("deco", lambda f: f))
        I.envdict(env.id)["lemma"] = Builtin("lemma", lambda *a, **k: Builtin("deco", lambda f: f))
        self.preload()
        self.install()

    def preload(self):
        """load every module once, so that module level objects are shared"""
        for pref, d in self.I.roots.items():
            for dp, dn, fn in sorted(os.walk(os.path.join(d, pref))):
                for f in sorted(fn):
                    if f.endswith(".py"):
                        rel = os.path.relpath(os.path.join(dp, f), d)[:-3].replace(os.sep, ".")
                        try:
                            self.I.module_env(rel[:-9] if rel.endswith(".__init__") else rel)
                        except (Unsupported, PyRaise, SyntaxError):
                            pass

    def note(self, e):
        self.notes.append((e.why, e.pair))

    def note_text(self, s):
        self.notes.append((s, None))

    def install(self):
        I = self.I

        def eig(lap_mat, tolerance=None):
            t, kind, dt = I.lib.tensor_of(lap_mat)
            if kind == "csr":
                raise Unsupported("eigendecomposition of a sparse matrix")
            if not T.is_symmetric(t):
                raise Unsupported(f"eigendecomposition of a matrix not known to be symmetric: {T.show(t)}")
            I.used_contracts.add("pytspl.decomposition.eigendecomposition:get_eigendecomposition")
            return eig_of(I, t)
        self.eig = eig
        I.overrides["contracts.spec:eig"] = eig
        I.overrides["contracts.spec:B1"] = lambda sc: self.boundary(sc, "B1")
        I.overrides["contracts.spec:B2"] = lambda sc: self.boundary(sc, "B2")
        I.overrides["contracts.spec:mpow"] = self.mpow

    def mpow(self, M, k):
        t, _, _ = self.I.lib.tensor_of(M)
        return self.I.arr(T.mpow(t, num(k)))

    def boundary(self, sc, which):
        o = self.I.deref(sc)
        t = o.attrs["$" + which]
        return self.I.arr(t)

    # ------------------------------------------------------- arguments
    def sc(self, exact=False):
        I = self.I
        n0, n1, n2 = sym("n0", "int"), sym("n1", "int"), sym("n2", "int")
        for n in (n0, n1, n2):
            I.assume(le(ZERO, n))
        cls = I.import_name("pytspl.simplicial_complex.simplicial_complex", "SimplicialComplex")
        nodes = I.alloc(ListObj(seq=SeqVal(n0, lambda k: num(k), key=atom("seq", "nodes", n0, 0))))
        edges = I.alloc(ListObj(seq=seqs.named_seq("edges", n1, 2)))
        tris = I.alloc(ListObj(seq=seqs.named_seq("triangles", n2, 3)))
        self.edge_facts("edges", n0, n1)
        self.triangle_facts("triangles", I.deref(edges).seq, n2)
        b1, b2 = T.msym("sc.B1", n0, n1), T.msym("sc.B2", n1, n2)
        if exact:
            # the entries given by the class invariant (C01) instead of a name
            i, j = T.fresh_index(), T.fresh_index()
            u, v = I.deref(edges).seq.at(atom_poly(j))
            b1 = T.lam([i, j], (n0, n1), ind(eqc(v, atom_poly(i))) - ind(eqc(u, atom_poly(i))))
        attrs = {
            "nodes": nodes, "edges": edges, "triangles": tris,
            "node_features": self.features("node_features", n0),
            "edge_features": self.features("edge_features", n1),
            "B1": I.arr(b1, "nd"), "B2": I.arr(b2, "nd"),
            "$B1": b1, "$B2": b2,
        }
        return I.alloc(Inst(cls, attrs, "sc"))

    def edge_facts(self, name, n0, n1):
        f = lambda j, k: fn("iseq", atom("seqf", name, j), (num(k),))

        def per(k):
            u, v = f(0, k), f(1, k)
            return c_and(le(ZERO, u), lt(u, n0), le(ZERO, v), lt(v, n0), c_not(eqc(u, v)))

        def pair(k, q):
            a, b, x, y = f(0, k), f(1, k), f(0, q), f(1, q)
            return c_and(c_not(c_and(eqc(a, x), eqc(b, y))), c_not(c_and(eqc(a, y), eqc(b, x))))
        solver.SEQ_FACTS[name] = (n1, per, pair)

    def triangle_facts(self, name, edges, n2):
        f = lambda j, k: fn("iseq", atom("seqf", name, j), (num(k),))
        en = edges.key

        def per(k):
            a, b, c = f(0, k), f(1, k), f(2, k)
            out = [c_not(eqc(a, b)), c_not(eqc(b, c)), c_not(eqc(a, c))]
            for x, y in ((a, b), (b, c), (a, c)):
                out.append(c_or(seqs.contains(en, (x, y)), seqs.contains(en, (y, x))))
            return c_and(*out)
        solver.SEQ_FACTS[name] = (n2, per, None)

    def features(self, name, n):
        I = self.I
        m = sym("len:" + name, "int")
        I.assume(le(ZERO, m))
        names = ("keys:" + name)

        def key(k):
            return Opaque(atom("ofn", name + ":key", num(k)))

        def val(k):
            k = num(k)

            def has(x):
                return eqc(fn("feature-has", atom("osym", name), k, name_code(x)), ONE)

            def get(x):
                return Opaque(atom("ofn", name + ":val", k, name_code(x)))
            inner = SymDict(fn("iseq", atom("seqf", name + ":inner-len", 0), (k,)), lambda j: Opaque(atom("ofn", name + ":inner-key", k, num(j))),
                            lambda j: Opaque(atom("ofn", name + ":inner-val", k, num(j))), has, get)
            return I.alloc(DictObj(base=inner))
        return I.alloc(DictObj(base=SymDict(m, key, val)))

    def vector(self, name, n, dtype="any"):
        return self.I.arr(T.vsym("arg:" + name, n), "nd", dtype)

    INTS = {"steps", "L", "L1", "L2", "order", "rank", "iterations", "num_of_samples", "num_samples", "round_sig_fig", "samples", "num_realizations"}
    REALS = {"tolerance", "mu", "cut_off_frequency", "steep", "alpha", "eigenvalue", "snr_db", "regularization", "lambda_max", "noise_level"}
    STRS = {"component", "p_choice", "kernel_type", "data_name"}
    FLOWS = {"flow", "f", "f_true", "noisy_flow", "component_coeffs", "f_estimated"}
    BOOLS = {"round_fig", "diag", "harmonic_inclusion"}

    def argument(self, key, name, node):
        I = self.I
        n1 = sym("n1", "int")
        if key.endswith("calculate_error_NRMSE"):
            m = sym("len:f", "int")
            I.assume(le(ZERO, m))
            return self.vector(name, m)
        if key.endswith(":generate_random_simplicial_complex"):
            return sym("arg:" + name, "int" if name in ("num_of_nodes", "seed") else "real")
        if key.startswith("pytspl.io.network_reader:") or key.startswith("pytspl.io.data_loaders."):
            v = self.reader_argument(key, name)
            if v is not UNDEF:
                return v
        if ":SCPlot." in key:
            v = self.plot_argument(key, name)
            if v is not UNDEF:
                return v
        if ":SCBuilder." in key:
            v = self.builder_argument(key, name)
            if v is not UNDEF:
                return v
        if owner_is(key, "SimplicialComplex", ("__init__", "edges_to_B1", "triangles_to_B2")):
            pre = key.split(".")[-1] + ":"
            n0, n1, n2 = sym(pre + "n0", "int"), sym(pre + "n1", "int"), sym(pre + "n2", "int")
            for n in (n0, n1, n2):
                I.assume(le(ZERO, n))
            if name == "nodes":
                return I.alloc(ListObj(seq=SeqVal(n0, lambda k: num(k), key=atom("seq", pre + "nodes", n0, 0))))
            if name == "edges":
                return I.alloc(ListObj(seq=seqs.named_seq(pre + "edges", n1, 2)))
            if name == "triangles":
                return I.alloc(ListObj(seq=seqs.named_seq(pre + "triangles", n2, 3)))
            if name == "num_nodes":
                return n0
            if name.endswith("_features"):
                return self.features(pre + name, n0)
        if name in ("snr_db", "ratio") and key.endswith("_regularizer"):
            m = sym("len:" + name, "int")
            I.assume(le(ZERO, m))
            return self.vector(name, m, "float")
        if name in self.INTS:
            return sym("arg:" + name, "int")
        if name in self.REALS:
            return sym("arg:" + name, "real")
        if name in self.STRS:
            return SymStr(sym("arg:" + name, "int"))
        if name in self.FLOWS:
            I.assume(le(ZERO, n1))
            return self.vector(name, n1)
        if name in self.BOOLS:
            return T.cond("bsym", "arg:" + name)
        if name in ("lap_mat", "lower_lap_mat", "upper_lap_mat", "hodge_lap_mat", "laplacian_matrix", "P"):
            n = sym("dim:" + name, "int")
            I.assume(le(ZERO, n))
            kind = "csr" if "_chebyshev" in key else "nd"
            return I.arr(T.msym("sym:" + name, n, n), kind)
        if name in ("B1", "B2"):
            d = {"B1": ("m0", "m1"), "B2": ("m1", "m2")}[name]
            for x in d:
                I.assume(le(ZERO, sym(x, "int")))
            return I.arr(T.msym("arg:" + name, sym(d[0], "int"), sym(d[1], "int")), "csr")
        if name in ("mu_vals",):
            m = sym("len:" + name, "int")
            I.assume(le(ZERO, m))
            b = T.vsym("arg:" + name, m)
            return I.alloc(ListObj(seq=SeqVal(m, lambda k: elem(b, (num(k),)))))
        if name in ("coeffs", "coefficients"):
            m = sym("len:" + name, "int")
            I.assume(le(ZERO, m))
            return self.vector(name, m, "float")
        if name == "name":
            return None if I.branch(T.cond("bsym", "no name")) else SymStr(sym("arg:name", "int"))
        if key.split(":")[1].startswith("HodgeGPTrainer."):
            if name == "sc":
                return self.sc()
            if name == "y" and key.endswith("__init__"):
                return self.vector(name, n1, "float")
            if name in ("y_train", "y_test", "y"):
                m = sym("len:" + name, "int")
                I.assume(le(ZERO, m))
                return I.arr(T.vsym("arg:" + name, m), "torch", "float")
            if name == "output_device":
                return Opaque(atom("osym", "arg:device"))
            if name == "train_ratio":
                return sym("arg:train_ratio", "real")
            if name == "seed":
                return sym("arg:seed", "int")
            if name == "data_normalization":
                return T.cond("bsym", "arg:" + name)
        if name in ("x1", "x2"):
            m = sym("len:" + name, "int")
            I.assume(le(ZERO, m))
            b = T.vsym("arg:" + name, m, "int")
            I.index_facts.add((b, n1))
            v, w = T.fresh_index(), T.fresh_index()
            return I.arr(T.lam([v, w], (m, ONE), elem(b, (atom_poly(v),))), "torch", "float")
        if name == "eigenpairs":
            return self.eigenpairs()
        if name == "values":
            out = [sym(f"arg:value{i}", "real") for i in range(9)]
            for x in out:
                I.assume(lt(ZERO, x))
            return I.new_list(out)
        if name == "value":
            return sym("arg:value", "real")
        if name == "simplex":
            # vertices, edges, triangles and tetrahedra with any vertices
            out = [sym(f"arg:vertex{j}", "int") for j in range(4)]
            for j in range(4):
                if j >= 2 and I.branch(T.cond("bsym", f"simplex of {j} vertices")):
                    out = out[:j]
                    break
            return tuple(out) if I.branch(T.cond("bsym", "simplex is a tuple")) else I.new_list(tuple(out))
        raise Unsupported(f"no symbolic argument for {name}")

    def args(self, key, fnode, owner):
        a = fnode.args
        out = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            n = x.arg
            if n == "self":
                out[n] = self.self_arg(key, owner)
            else:
                out[n] = self.argument(key, n, x)
        # vectors over the edges of a stand-alone pair of boundary matrices
        if "B1" in out or "B2" in out:
            if "flow" in out:
                out["flow"] = self.vector("flow", sym("m1", "int"))
        return out

    def pick(self, what):
        """both values of an option are considered"""
        return self.I.branch(T.cond("bsym", what))

    def plot_argument(self, key, name):
        I = self.I
        n0, n1 = sym("n0", "int"), sym("n1", "int")
        if name == "ax":
            if not key.endswith("_init_axes") and self.pick("no axes given"):
                return None
            return I.lib.new_axes()
        if name in ("src", "dest"):
            v = sym("arg:" + name, "int")
            I.assume(c_and(le(ZERO, v), lt(v, n0)))
            return v
        if name == "offset":
            return sym("arg:offset", "real")
        if name in ("edge_labels", "edge_flow"):
            if name == "edge_flow" and self.pick("no flow given"):
                return None
            if key.endswith(".draw_network") and self.pick("flow vector"):
                return self.vector("edge_flow", sym("n1", "int"))
            m = sym("len:" + name, "int")
            I.assume(le(ZERO, m))
            self.edge_facts(name, n0, m)
            s = seqs.named_seq(name, m, 2)
            b = T.vsym("arg:" + name, m)
            return I.alloc(DictObj(base=("comp", SeqVal(m, lambda k: (s.at(k), elem(b, (num(k),)))))))
        if name == "node_color":
            if self.pick("a colour name"):
                return "#ff7f0e"
            b = T.vsym("arg:node_color", n0)
            return I.alloc(ListObj(seq=SeqVal(n0, lambda k: elem(b, (num(k),)))))
        plain = any(I.entails(T.cond("bsym", x)) for x in ("no flow given", "a colour name"))
        if name in ("cmap", "edge_cmap"):
            from .plots import named_cmap
            return None if not plain and self.pick("no colour map") else named_cmap("given")
        if name in ("vmin", "vmax", "edge_vmin", "edge_vmax"):
            return None if plain or self.pick("no " + name) else sym("arg:" + name, "real")
        if name == "margins":
            return None if self.pick("no margins") else sym("arg:margins", "real")
        if name in ("with_labels", "directed", "round_fig"):
            return T.cond("bsym", name)
        if name == "component" and key.endswith("draw_hodge_decomposition") and self.pick("all components"):
            return None
        if name == "eigenvector_indices":
            m = sym("len:" + name, "int")
            I.assume(le(ZERO, m))
            s = seqs.named_seq("arg:" + name, m, 0)
            solver.SEQ_FACTS["arg:" + name] = (m, lambda k: le(ZERO, fn("iseq", atom("seqf", "arg:" + name, 0), (num(k),))), None)
            return I.alloc(ListObj(seq=s))
        if name == "round_sig_fig":
            return sym("arg:" + name, "int")
        if name == "figsize":
            return (sym("arg:figwidth", "real"), sym("arg:figheight", "real"))
        if name == "font_dict":
            return I.alloc(DictObj(items={}))
        if name in ("edge_color", "node_edge_colors", "font_color", "font_weight"):
            return "black"
        if name in ("node_size", "font_size", "edge_width", "arrowsize", "alpha"):
            return sym("arg:" + name, "real")
        return UNDEF

    def plot(self, owner, key):
        """a plot of any complex with any coordinates, or none"""
        I = self.I
        sc = self.sc()
        n0 = sym("n0", "int")
        # the corners of the triangles are nodes: ends of edges (C01)
        n2, per, pair = solver.SEQ_FACTS["triangles"]
        corner = lambda k: [fn("iseq", atom("seqf", "triangles", j), (num(k),)) for j in range(3)]
        solver.SEQ_FACTS["triangles"] = (n2, lambda k: c_and(per(k), *[c_and(le(ZERO, x), lt(x, n0)) for x in corner(k)]), pair)
        I.lib.current_axes = I.lib.new_axes()
        pos = None
        needed = key.endswith(("_calculate_edge_label_position", "_draw_node_labels"))     # they run after _init_axes
        if needed or not self.pick("no coordinates"):
            bs = [T.vsym(f"arg:coordinate{j}", n0) for j in range(2)]
            pos = I.alloc(DictObj(base=("comp", SeqVal(n0, lambda k: (num(k), tuple(elem(b, (num(k),)) for b in bs))))))
        return I.instantiate(owner, [sc, pos], {})

    def builder_argument(self, key, name):
        I = self.I
        n0, n1 = sym("n0", "int"), sym("n1", "int")
        for n in (n0, n1):
            I.assume(le(ZERO, n))
        if name == "nodes":
            return I.alloc(ListObj(seq=SeqVal(n0, lambda k: num(k), key=atom("seq", "nodes", n0, 0))))
        if name == "edges":
            self.edge_facts("edges", n0, n1)
            return I.alloc(ListObj(seq=seqs.named_seq("edges", n1, 2)))
        if name == "node_features":
            return self.features("node_features", n0)
        if name == "edge_features":
            return graphs.edge_features(I, seqs.named_seq("edges", n1, 2), "edge_features")
        if name in ("dist_col_name", "condition"):
            return SymStr(sym("arg:" + name, "int"))
        if name in ("dist_threshold", "epsilon"):
            return sym("arg:" + name, "real")
        if name == "triangles":
            if I.branch(T.cond("bsym", "no triangles given")):
                return None
            n2 = sym("n2", "int")
            I.assume(le(ZERO, n2))
            self.triangle_facts("given", seqs.named_seq("edges", n1, 2), n2)
            return I.alloc(ListObj(seq=seqs.named_seq("given", n2, 3)))
        return UNDEF

    def reader_argument(self, key, name):
        I = self.I
        if name == "df":
            return I.lib.new_table("table:arg")
        if name in ("src_col", "dest_col", "filename", "delimiter", "node_id_col", "x_col", "y_col", "sep", "B1_filename", "B2_filename", "dataset"):
            return SymStr(sym("arg:" + name, "int"))
        if name == "header":
            return None if I.branch(T.cond("bsym", "no header")) else SymStr(sym("arg:header", "int"))
        if name == "skip_rows":
            return sym("arg:skip_rows", "int")
        if name == "start_index_zero":
            return True if I.branch(T.cond("bsym", "zero-based")) else False
        if name == "feature_cols":
            if key.endswith(":read_csv") and I.branch(T.cond("bsym", "no columns given")):
                return None
            m = sym("len:feature_cols", "int")
            I.assume(le(ZERO, m))
            s = seqs.named_seq("feature_cols", m, 0)
            return I.alloc(ListObj(seq=SeqVal(m, lambda k: SymStr(s.at(num(k))))))
        if name == "edges":
            n1 = sym("n1", "int")
            I.assume(le(ZERO, n1))
            if key.endswith(":read_B2"):
                m = T.msym("arg:edges", n1, num(2))
                v, w = T.fresh_index(), T.fresh_index()
                f = fn("iseq", atom("seqf", "arg:edges", 0), (atom_poly(v), atom_poly(w)))
                return I.arr(T.lam([v, w], (n1, num(2)), f), "nd", "int")
            self.edge_facts("edges", sym("n0", "int"), n1)
            return I.alloc(ListObj(seq=seqs.named_seq("edges", n1, 2)))
        return UNDEF

    def init_by_contract(self, me, nodes=UNDEF, edges=UNDEF, triangles=UNDEF, node_features=UNDEF, edge_features=UNDEF):
        """SimplicialComplex.__init__ by its contract (C01): the arguments are
        stored and B1, B2 are the boundary operators"""
        I = self.I
        given = dict(nodes=nodes, edges=edges, triangles=triangles, node_features=node_features, edge_features=edge_features)
        attrs = dict(I.deref(me).attrs)
        for k, v in given.items():
            if v is UNDEF:
                raise Unsupported("default arguments of SimplicialComplex")
            attrs[k] = v
        t = I.lib.iterate(triangles)
        if isinstance(t, graphs.FilterSeq) and getattr(t.facts, "cliques_of", None) is not I.lib.iterate(edges).key:
            raise Unsupported("triangles of unknown origin")
        I.used_contracts.add("pytspl.simplicial_complex.simplicial_complex:SimplicialComplex.__init__")
        I.store(me, Inst(I.deref(me).cls, attrs, "built"))

    def self_arg(self, key, owner):
        I = self.I
        if owner.name == "SCBuilder":
            names = ("nodes", "edges", "node_features", "edge_features")
            return I.instantiate(owner, [self.builder_argument(key, n) for n in names], {})
        if owner.name == "SCPlot":
            return self.plot(owner, key)
        if owner.name == "SimplicialComplex":
            return self.sc(exact=key.endswith(".adjacency_matrix"))
        if any(k.name == "Kernel" and k.module == "gpytorch.kernels" for k in owner.mro()):
            return self.kernel(owner)
        sc = self.sc()
        if owner.name == "HodgeGPTrainer":
            return self.trainer(owner, sc)
        ref = I.instantiate(owner, [sc] if owner.lookup("__init__")[1] is not None else [], {})
        o = I.deref(ref)
        if "history" in o.attrs:
            h = I.deref(o.attrs["history"])
            items = {k: Opaque(atom("osym", f"old:{k}")) for k in h.items}
            I.st.heap[o.attrs["history"].id] = DictObj(items=items)
        # attributes that methods change (other than the history) have a
        # value the class invariant does not describe
        vague = mutated_attributes(owner) - {"history"}
        if vague:
            attrs = {k: UNDEF if k in vague else v for k, v in o.attrs.items()}
            I.st.heap[ref.id] = Inst(o.cls, attrs, o.name)
        return ref

    def kernel(self, owner, name="arg"):
        """a kernel over any eigenpairs with any parameter values"""
        I = self.I
        ref = I.instantiate(owner, [self.eigenpairs()], {})
        o = I.deref(ref)
        attrs = dict(o.attrs)
        for k in attrs:
            if k + "_constraint" in attrs:
                attrs[k] = I.arr(T.msym("value:" + k, ONE, ONE), "torch", "float")
        I.st.heap[ref.id] = Inst(o.cls, attrs, name)
        return ref

    def trainer(self, owner, sc):
        """a trainer, untrained or with any model over a Matern kernel"""
        I = self.I
        ref = I.instantiate(owner, [sc, self.vector("y", sym("n1", "int"), "float")], {})
        o = I.deref(ref)
        attrs = {k: UNDEF if k in mutated_attributes(owner) - {"model"} else v for k, v in o.attrs.items()}
        if not I.branch(T.cond("bsym", "untrained")):
            thing = lambda **a: I.alloc(Inst(ClassVal("$" + "model", "gpytorch", [], {}), a, "model"))
            kernel = self.kernel(I.import_name("pytspl.hogde_gp.forex", "MaternKernelForex"))
            noise = I.arr(T.vsym("value:noise", ONE), "torch", "float")
            scale = I.arr(T.full((), fn("positive", sym("value:outputscale", "real"))), "torch", "float")
            attrs["model"] = thing(likelihood=thing(noise_covar=thing(noise=noise)),
                                   covar_module=thing(base_kernel=kernel, outputscale=scale))
        else:
            attrs["model"] = None
        I.st.heap[ref.id] = Inst(o.cls, attrs, "arg")
        return ref

    def eigenpairs(self):
        I = self.I
        n1 = sym("n1", "int")
        I.assume(le(ZERO, n1))
        U, lam = [], []
        for c in ("harm", "grad", "curl"):
            d = sym("d_" + c, "int")
            I.assume(le(ZERO, d))
            U.append(I.arr(T.msym("U_" + c, n1, d), "torch", "float"))
            lam.append(I.arr(T.vsym("lambda_" + c, d), "torch", "float"))
        return I.new_list(U + lam)

    # ------------------------------------------------------------- target
    def target(self, module, qualname):
        I = self.I
        parts = qualname.split(".")
        v = I.import_name(module, parts[0])
        owner = None
        for p in parts[1:]:
            owner = v
            _, v = owner.lookup(p)
        static = False
        if isinstance(v, StaticVal):
            v, static = v.fn, True
        if isinstance(v, PropertyVal):
            v = v.fn
        if not isinstance(v, Func):
            raise Unsupported(f"{qualname} is not a function of the supported subset")
        return v, owner, static

    def contract_func(self, con):
        mod = con.cmod
        return self.I.import_name(mod, con.cname)

    def prove(self, con, limit=120, frame_only=False):
        """obligations of one contract: [(clause, status, detail)]"""
        I = self.I
        key = con.target
        t0 = time.time()
        solver.DEADLINE[0] = t0 + limit
        theory.BOUNDARY[0] = True
        self.notes = []
        oblig = {}   # clause -> [status, detail]

        def put(clause, ok, detail=""):
            if frame_only and clause not in ("frame", "results share no memory", "no random input"):
                return
            cur = oblig.setdefault(clause, ["discharged", ""])
            if not ok and cur[0] == "discharged":
                cur[0], cur[1] = "undecided", detail
        base = I.st
        I.st = base.copy()
        covered = {"value": 0, "raise": 0}
        timeouts = solver.STATS["timeouts"]
        I.overrides.pop("pytspl.decomposition.eigendecomposition:get_eigendecomposition", None)
        build = "pytspl.simplicial_complex.simplicial_complex:SimplicialComplex.__init__"
        I.overrides.pop(build, None)
        if key.endswith(":SCBuilder.to_simplicial_complex") or key.endswith(":generate_random_simplicial_complex") or key.startswith("pytspl.io."):
            I.overrides[build] = self.init_by_contract
        net = "pytspl.plot.plot:SCPlot.draw_network"
        I.overrides.pop(net, None)
        if ":SCPlot." in key and key != net:
            I.overrides[net] = I.lib.draw_network
        if not key.endswith(":get_eigendecomposition"):
            I.overrides["pytspl.decomposition.eigendecomposition:get_eigendecomposition"] = self.eig
        try:
            f, owner, static = self.target(con.module, con.qualname)
            cf = self.contract_func(con)

            def run():
                args = self.args(key, f.node, owner)
                snapshot = dict(I.st.heap)
                impl = Impl(self, "prove")
                cobj = CObj(impl)
                cargs = {k: v for k, v in args.items()}
                expected = None
                try:
                    I.call_func(cf, [cobj], cargs, modular=False)
                except Stop as s:
                    if s.exc is None:
                        return ("vacuous",)
                    expected = s.exc
                if expected is None and entails(I.st.pc, FALSE):
                    return ("vacuous",)
                mid = dict(I.st.heap)
                try:
                    r = I.call_func(f, [], args, modular=False)
                except PyRaise as e:
                    if expected is None:
                        if entails(I.st.pc, FALSE):
                            return ("vacuous",)
                        if e.etype in getattr(impl, "allowed", ()):
                            return ("raise",)
                        put("does not raise outside the declared exceptions", False, f"{e} when {pcs(I)}")
                        return ("raise",)
                    from .values import exc_matches
                    put(f"raises {expected.name}", exc_matches(e.etype, expected.name), f"raises {e}")
                    return ("raise",)
                if expected is not None:
                    if entails(I.st.pc, FALSE):
                        return ("vacuous",)
                    put(f"raises {expected.name}", False, f"returns normally when {pcs(I)}")
                    return ("value",)
                put("does not raise outside the declared exceptions", True)
                if frame_only:
                    shared = [x for x in reachable(I.st.heap, r) if isinstance(I.st.heap.get(x), (Arr, BoolArr)) and (x in snapshot or I.view_of.get(x) in snapshot)]
                    put("results share no memory", not shared, "a returned array shares memory with an existing object")
                    if "simplicial_trend_filter" not in key:
                        put("no random input", I.st.rand == () or I.st.rand is ZERO, "the result depends on the global random stream")
                    self.check_frame(impl, snapshot, mid, put)
                    return ("value",)
                if not isinstance(impl.value, Undef):
                    e = Eq(I)
                    ok = e(r, impl.value) is True
                    put("result", ok, e.why or "")
                    if not ok:
                        self.note(e)
                for name, fnc in impl.checks:
                    k0 = len(self.notes)
                    try:
                        v = I.truth_cond(I.call(fnc, [r], {}))
                        ok = entails(I.st.pc, v)
                        put(name, ok, "; ".join(str(x[0])[:600] for x in self.notes[k0:k0 + 2]) or T.show(v)[:600])
                    except PyRaise as e:
                        put(name, False, f"raises {e}")
                if impl.fresh_:
                    put("result is fresh", not isinstance(r, Ref) or r.id not in snapshot and I.view_of.get(r.id) not in snapshot, "result shares memory with the argument state")
                self.check_frame(impl, snapshot, mid, put)
                return ("value",)
            for kind, v, st, conds in I.explore(run):
                if kind == "raise":
                    put("contract evaluation", False, f"contract raises {v}")
                elif kind == "value":
                    covered[v[0]] = covered.get(v[0], 0) + 1
                else:
                    put("contract evaluation", False, kind)
        except Unsupported as e:
            oblig.setdefault("supported subset", ["outside", str(e)])
        except solver.Timeout:
            oblig.setdefault("supported subset", ["outside", "time limit"])
        except RecursionError if not os.environ.get("DED_DEBUG") else ZeroDivisionError:
            oblig.setdefault("supported subset", ["outside", "recursion limit"])
        finally:
            I.st = base
            I.explorers, I.logs, I.callstack = [], [], []
            solver.DEADLINE[0] = None
        if solver.STATS["timeouts"] > timeouts:
            for o in oblig.values():
                if o[0] == "undecided":
                    o[0], o[1] = "unknown", "solver time limit; " + o[1]
        if not covered.get("value") and not covered.get("raise") and "supported subset" not in oblig:
            oblig["precondition satisfiable"] = ["undecided", "no path satisfies the precondition"]
        return oblig, covered, time.time() - t0

    def prove_lemma(self, con, limit=120):
        I = self.I
        t0 = time.time()
        solver.DEADLINE[0] = t0 + limit
        self.notes = []
        oblig, covered = {}, {"value": 0, "raise": 0}
        timeouts = solver.STATS["timeouts"]

        def put(clause, ok, detail=""):
            cur = oblig.setdefault(clause, ["discharged", ""])
            if not ok and cur[0] == "discharged":
                cur[0], cur[1] = "undecided", detail
        base = I.st
        I.st = base.copy()
        I.overrides["pytspl.decomposition.eigendecomposition:get_eigendecomposition"] = self.eig
        try:
            f = I.import_name(con.cmod, con.cname)
            names = [a.arg for a in f.node.args.args]
            theory.BOUNDARY[0] = "sc" in names

            def run():
                impl = Impl(self, "prove")
                impl.put = put
                args = {n: self.lemma_argument(n) for n in names[1:]}
                try:
                    I.call_func(f, [CObj(impl)], args, modular=False)
                except Stop as s:
                    return ("vacuous",)
                except PyRaise as e:
                    if entails(I.st.pc, FALSE):
                        return ("vacuous",)
                    put("does not raise", False, f"{e} when {pcs(I)}")
                    return ("raise",)
                put("does not raise", True)
                return ("value",)
            for kind, v, st, conds in I.explore(run):
                if kind == "value":
                    covered[v[0]] = covered.get(v[0], 0) + 1
                else:
                    put("evaluation", False, f"{kind} {v}")
        except Unsupported as e:
            oblig.setdefault("supported subset", ["outside", str(e)])
        except solver.Timeout:
            oblig.setdefault("supported subset", ["outside", "time limit"])
        except RecursionError if not os.environ.get("DED_DEBUG") else ZeroDivisionError:
            oblig.setdefault("supported subset", ["outside", "recursion limit"])
        finally:
            I.st = base
            I.explorers, I.logs, I.callstack = [], [], []
            solver.DEADLINE[0] = None
        if solver.STATS["timeouts"] > timeouts:
            for o in oblig.values():
                if o[0] == "undecided":
                    o[0], o[1] = "unknown", "solver time limit; " + o[1]
        return oblig, covered, time.time() - t0

    def lemma_argument(self, name):
        I = self.I
        if name == "sc":
            return self.sc()
        if name == "potential":
            n = sym("len:potential", "int")
            I.assume(le(ZERO, n))
            return self.vector(name, n)
        if name in ("nodes", "edges", "triangles", "node_features", "edge_features"):
            return self.argument("x:SimplicialComplex.__init__", name, None)
        if name == "scale":
            return sym("arg:scale", "real")
        if name in ("j", "k"):
            return sym("arg:" + name, "int")
        if name == "other":
            return self.vector(name, sym("n1", "int"))
        if name in LEMMA_OBJECTS:
            mod, cls = LEMMA_OBJECTS[name]
            return self.self_arg(f"{mod}:{cls}.lemma", I.import_name(mod, cls))
        return self.argument("lemma:lemma", name, None)

    def check_frame(self, impl, pre, mid, put):
        """objects that exist before the call are unchanged, except c.modifies"""
        I = self.I
        exempt = set()
        for rid, attrs in impl.frame.items():
            o = pre.get(rid)
            if isinstance(o, Inst):
                for a in attrs:
                    collect(pre, o.attrs.get(a), exempt)
        # objects reachable from elsewhere stay protected
        for i, o in pre.items():
            n = I.st.heap.get(i)
            if n is o or i in exempt:
                continue
            if isinstance(n, DeadView):
                continue
            if isinstance(o, Inst) and isinstance(n, Inst):
                allowed = impl.frame.get(i, set())
                for a in set(o.attrs) | set(n.attrs):
                    if a in allowed:
                        continue
                    x, y = o.attrs.get(a, UNDEF), n.attrs.get(a, UNDEF)
                    if x is y or (isinstance(x, Ref) and isinstance(y, Ref) and x == y):
                        continue
                    put("frame", False, f"attribute {a} of {o.cls.name} changes")
                continue
            if isinstance(o, Arr) and isinstance(n, Arr) and o.t is n.t:
                continue
            put("frame", False, f"an existing {type(o).__name__} changes")
        put("frame", True)


LEMMA_OBJECTS = {
    "flt": ("pytspl.filters.base_filter", "BaseFilter"),
    "ls": ("pytspl.filters.ls_filter_design", "LSFilterDesign"),
    "grid": ("pytspl.filters.grid_based_filter_design", "GridBasedFilterDesign"),
    "denoiser": ("pytspl.filters.edge_flow_denoising", "EdgeFlowDenoising"),
}


def reachable(heap, v):
    """identities of the containers and arrays reachable from a result"""
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += list(x)
        if isinstance(x, Ref) and x.id not in out:
            out.append(x.id)
            o = heap.get(x.id)
            if isinstance(o, DictObj) and o.items is not None:
                todo += list(o.items.values())
            if isinstance(o, ListObj) and o.items is not None:
                todo += list(o.items)
    return out


def collect(heap, v, out):
    if isinstance(v, Ref):
        if v.id in out:
            return
        out.add(v.id)
        o = heap.get(v.id)
        if isinstance(o, DictObj) and o.items is not None:
            for x in o.items.values():
                collect(heap, x, out)
        if isinstance(o, ListObj) and o.items is not None:
            for x in o.items:
                collect(heap, x, out)


def pcs(I):
    return " and ".join(T.show(c) for c in I.st.pc[-4:])


def call_by_contract(I, key, f, args, kw):
    return False, None
