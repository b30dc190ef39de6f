"""Rewrite rules of the linear algebra theory (each is a statement about
matrices over the reals; DESIGN.md lists them, lemmas/ proves the ones that
are not contracts of numpy/scipy)."""

from fractions import Fraction

from .terms import *
from .terms import t_base, normal_word
from . import terms as T

USED = set()


def rule(name):
    def deco(f):
        def g(w):
            r = f(w)
            if r is not None:
                USED.add(name)
            return r
        T.WORD_RULES.append(g)
        return f
    return deco


@rule("diag(u) diag(v) = diag(u*v)")
def _diagdiag(w):
    for i in range(len(w) - 1):
        (a, f), (b, g) = w[i], w[i + 1]
        if a.op == "diag" and b.op == "diag":
            d = diag(emap(lambda x, y: x * y, a.args[0], b.args[0]))
            return [(w[:i] + x + w[i + 2:], c) for x, c in d.args[1]]
    return None


@rule("eigenvector matrices are orthogonal (contract of eigsh)")
def _orth(w):
    for i in range(len(w) - 1):
        (a, f), (b, g) = w[i], w[i + 1]
        if a is b and a.op == "eigvec" and f != g:
            return [(w[:i] + w[i + 2:], ONE)]
    return None


def single_word(t):
    if len(t.args[1]) == 1 and t.args[1][0][1] is ONE:
        return t.args[1][0][0]
    return None


@rule("M U = U diag(lambda) (contract of eigsh)")
def _eig(w):
    for i, (b, f) in enumerate(w):
        if b.op == "eigvec":
            mw = single_word(b.args[0])
            rest = ()
            if not mw:
                # M = A + R with a word A: A U = U diag(lambda) - R U
                ws = [x for x, c in b.args[0].args[1] if c is ONE and x]
                if len(b.args[0].args[1]) < 2 or not ws:
                    continue
                mw = min(ws, key=lambda x: (len(x), [(y.id, g) for y, g in x]))
                rest = [(x, c) for x, c in b.args[0].args[1] if x != mw]
            k = len(mw)
            d = t_base(T.atom("diag", t_base(T.atom("eigval", b.args[0]))))
            (dw, _), = d.args[1]
            if not f and i >= k and w[i - k:i] == mw:
                return [(w[:i - k] + ((b, f),) + dw + w[i + 1:], ONE)] + [(w[:i - k] + x + w[i:], -c) for x, c in rest]
            if f and w[i + 1:i + 1 + k] == mw:
                return [(w[:i] + dw + ((b, f),) + w[i + 1 + k:], ONE)] + [(w[:i + 1] + x + w[i + 1 + k:], -c) for x, c in rest]
    return None


@rule("least squares normal equations A^T A x = A^T b (contract of lstsq)")
def _normal(w):
    if not w or w[-1][0].op != "lstsq":
        return None
    b = w[-1][0]
    aw = single_word(b.args[0])
    if not aw or b.args[1].ndim != 1:
        return None
    at = normal_word(tuple((x, not f) for x, f in reversed(aw)))
    k = len(aw)
    pre = w[:-1]
    if len(pre) >= 2 * k and pre[-k:] == aw and pre[-2 * k:-k] == at:
        return [(pre[:-k] + x, c) for x, c in b.args[1].args[1]]
    return None


@rule("M^-1 M = I")
def _inv(w):
    for i, (b, f) in enumerate(w):
        if b.op == "inv_m":
            mw = single_word(b.args[0])
            if mw and not f:
                k = len(mw)
                if w[i + 1:i + 1 + k] == mw:
                    return [(w[:i] + w[i + 1 + k:], ONE)]
                if i >= k and w[i - k:i] == mw:
                    return [(w[:i - k] + w[i + 1:], ONE)]
    return None


def unfold_inverse(t):
    """c inv(M) + sum R_i inv(M) = I for M = c I + sum R_i: each word in which
    inv(M) does not follow a word of M is replaced once; None if there is none"""
    out, hit = {}, False

    def add(w, c):
        out[w] = out.get(w, ZERO) + c
    for w, c in t.args[1]:
        for i, (b, f) in enumerate(w):
            if b.op != "inv_m" or f:
                continue
            parts = b.args[0].args[1]
            own = [k for x, k in parts if x == ()]
            if not own or any(x and w[max(0, i - len(x)):i] == x for x, k in parts):
                continue
            if own[0].as_int() is None or own[0].as_int() == 0:
                continue
            hit = True
            k0 = num(Fraction(1, own[0].as_int()))
            for nw, nc in T.simplify_word(normal_word(w[:i] + w[i + 1:])):
                add(nw, c * k0 * nc)
            for x, k in parts:
                if x != ():
                    for nw, nc in T.simplify_word(normal_word(w[:i] + x + w[i:])):
                        add(nw, -c * k0 * k * nc)
            break
        else:
            add(w, c)
    if not hit:
        return None
    USED.add("M M^-1 = I")
    return T.tensor(t.shape, out)


BOUNDARY = [False]


@rule("B1 B2 = 0 (C02)")
def _bb(w):
    if not BOUNDARY[0]:
        return None
    for i in range(len(w) - 1):
        (a, f), (b, g) = w[i], w[i + 1]
        if a.op == "msym" and b.op == "msym":
            x, y = a.args[0], b.args[0]
            if f is False and g is False and x.endswith(".B1") and y == x[:-1] + "2":
                return []
            if f is True and g is True and x.endswith(".B2") and y == x[:-1] + "1":
                return []
    return None


def kills(x, y):
    """the product of two letters is zero (C02)"""
    return _bb((x, y)) == []


@rule("powers of a matrix commute with it and add their exponents; M X = 0 gives M M^k X = 0")
def _powers(w):
    for i, (b, f) in enumerate(w):
        if b.op != "pow_m" or f:
            continue
        if i + 1 < len(w) and w[i + 1][0].op == "pow_m" and not w[i + 1][1] and w[i + 1][0].args[0] is b.args[0]:
            m = T.mpow(b.args[0], b.args[1] + w[i + 1][0].args[1])
            return [(w[:i] + x + w[i + 2:], c) for x, c in m.args[1]]
        mw = single_word(b.args[0])
        if not mw:
            continue
        k = len(mw)
        if w[i + 1:i + 1 + k] == mw:
            return [(w[:i] + mw + (w[i],) + w[i + 1 + k:], ONE)]
        if i >= k and w[i - k:i] == mw and i + 1 < len(w) and BOUNDARY[0] and kills(mw[-1], w[i + 1]):
            return []
    return None


def column_bound(A):
    """A = lam(r,c: [c<k] * ...), k < ncols: (k, tensor with k columns)"""
    if A.ndim != 2 or len(A.args[1]) != 1:
        return None
    w, co = A.args[1][0]
    if co is not ONE or len(w) != 1 or w[0][0].op != "lam" or w[0][1]:
        return None
    bvs, sh, body = w[0][0].args
    cand = None
    for m, c in body.args:
        ks = set()
        for a, e in m:
            if a.op == "ind" and a.args[0].op == "lt0":
                p = a.args[0].args[0]
                rest = p - atom_poly(bvs[1])
                if not (set(bvs) & free(rest)):
                    ks.add((a, -rest))
        cand = ks if cand is None else {x for x in cand if x in ks}
    if not cand:
        return None
    a, k = sorted(cand, key=lambda t: t[0].id)[0]
    vs = [fresh_index() for _ in bvs]
    body2 = poly({tuple(x for x in m if x[0] is not a): c for m, c in body.args})
    body2 = subst(body2, {b: atom_poly(v) for b, v in zip(bvs, vs)})
    return k, lam(vs, (sh[0], k), body2)


def lstsq(A, b):
    cb = column_bound(A)
    if cb is not None:
        k, A2 = cb
        USED.add("minimum-norm least squares ignores zero columns (contract of lstsq)")
        x = t_base(T.atom("lstsq", A2, b))
        v = fresh_index()
        i = atom_poly(v)
        return lam([v], (A.shape[1],), ind(lt(i, k)) * elem(x, (i,)))
    return t_base(T.atom("lstsq", A, b))


def unique(v):
    return t_base(T.atom("unique", v))


def rebuild_base(op, args):
    if op == "lstsq":
        return lstsq(*args)
    return t_base(T.atom(op, *args))


# ------------------------------------------------------- iteration terms
def iterate(n, index, carries, bodies, inits, j):
    """component j after n rounds of (carries) := bodies(index, carries)"""
    shapes = [b.shape if isinstance(b, Tensor) else None for b in bodies]
    k = 1 + max(height(x) for x in list(bodies) + list(inits))
    ren, names = {}, []
    for q, (c, s) in enumerate(zip(carries, shapes)):
        names.append(f"$c{k}_{q}")
        if s is None:
            ren[c] = atom_poly(T.atom("sym", f"$c{k}_{q}", "real"))
        else:
            ren[c] = t_base(T.atom("vsym" if len(s) == 1 else "msym", f"$c{k}_{q}", s) if len(s) == 2 else T.atom("vsym", f"$c{k}_{q}", s, "real"))
    bodies = tuple(subst(b, ren) for b in bodies)
    vs, (bodies,) = bind((index,), bodies)
    out = T.atom("iter", vs, tuple(names), bodies, tuple(inits), num(n), j, shapes[j] or ())
    return atom_poly(out) if shapes[j] is None else t_base(out)


@T.rebuilder("iter")
def _rb_iter(x, s, se):
    bvs, names, bodies, inits, n, j, shape = x.args
    ov = T.open_vars(bvs)
    bodies = se(bodies, {bvs[0]: atom_poly(ov[0])})
    inits, n = s(inits), s(n)
    vs, (bodies,) = bind((ov[0],), bodies)
    out = T.atom("iter", vs, names, bodies, inits, n, j, s(shape))
    return atom_poly(out) if shape == () else t_base(out)


# ------------------------------------------------------ recurrence terms
def recur(kv, r1, r2, body, index, shape):
    """x(index) of the sequence x(k) = body(k, r1 = x(k-1), r2 = x(k-2)); the
    body does not depend on r1 at k = 0 nor on r2 at k <= 1"""
    index = num(index)
    c = index.as_int()
    if c is not None and 0 <= c <= 2:
        m = {kv: num(c)}
        if c >= 1:
            m[r1] = recur(kv, r1, r2, body, num(c - 1), shape)
        if c >= 2:
            m[r2] = recur(kv, r1, r2, body, num(c - 2), shape)
        return subst(body, m)
    h = 1 + height(body)
    ren, names = {}, (f"$r{h}_1", f"$r{h}_2")
    for r, nm in zip((r1, r2), names):
        if shape == ():
            ren[r] = atom_poly(T.atom("sym", nm, "real"))
        else:
            ren[r] = t_base(T.atom("vsym" if len(shape) == 1 else "msym", nm, shape))
    body = subst(body, ren)
    vs, (body,) = bind((kv,), body)
    out = T.atom("rec", vs, names, body, index, shape)
    return atom_poly(out) if shape == () else t_base(out)


@T.rebuilder("rec")
def _rb_rec(x, s, se):
    bvs, names, body, index, shape = x.args
    ov = T.open_vars(bvs)
    body = se(body, {bvs[0]: atom_poly(ov[0])})
    shape = s(shape)
    if shape == ():
        rs = [T.atom("sym", nm, "real") for nm in names]
    else:
        op = "vsym" if len(shape) == 1 else "msym"
        rs = [T.atom(op, nm, x.args[4]) for nm in names]
    if len(shape) and shape != x.args[4]:
        # the placeholders change their shape with the sequence
        new = [t_base(T.atom(r.op, r.args[0], shape)) for r in rs]
        body = subst(body, dict(zip(rs, new)))
        rs = [T.atom(r.op, r.args[0], shape) for r in rs]
    return recur(ov[0], rs[0], rs[1], body, s(index), shape)
