"""Canonical terms of the verifier.

Scalars are polynomials (rational coefficients) over interned atoms; case
distinctions are indicator atoms ([c] in {0,1}).  Tensors are linear
combinations of words of matrix/vector factors; everything elementwise is a
``lam`` factor (an index function).  All objects are interned, so equality of
normal forms is identity.
"""

from fractions import Fraction

_TAB = {}
_CNT = [0]


class Node:
    __slots__ = ("op", "args", "id", "_int", "_fv", "extra", "ht")

    def __repr__(self):
        return show(self)


def _intern(cls, op, args):
    key = (cls.__name__, op, args)
    n = _TAB.get(key)
    if n is None:
        n = object.__new__(cls)
        n.op, n.args = op, args
        _CNT[0] += 1
        n.id = _CNT[0]
        n._int = None
        n._fv = None
        n.extra = None
        n.ht = None
        _TAB[key] = n
    return n


class Atom(Node):
    """scalar atom, tensor base or opaque thing"""
    __slots__ = ()


class Poly(Node):
    """op 'poly'; args = ((mono, coeff), ...), mono = ((atom, exp), ...)"""
    __slots__ = ()

    def __add__(self, o):
        o = num(o)
        d = dict(self.args)
        for m, c in o.args:
            d[m] = d.get(m, 0) + c
        return poly(d)

    __radd__ = __add__

    def __neg__(self):
        return poly({m: -c for m, c in self.args})

    def __sub__(self, o):
        return self + (-num(o))

    def __rsub__(self, o):
        return num(o) + (-self)

    def __mul__(self, o):
        o = num(o)
        if not self.args or not o.args:
            return ZERO
        if o is ONE:
            return self
        if self is ONE:
            return o
        d = {}
        for m1, c1 in self.args:
            for m2, c2 in o.args:
                m = mono_mul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        return poly(d)

    __rmul__ = __mul__

    def const(self):
        """Fraction if constant, else None"""
        if not self.args:
            return Fraction(0)
        if len(self.args) == 1 and self.args[0][0] == ():
            return self.args[0][1]
        return None

    def as_int(self):
        c = self.const()
        return int(c) if c is not None and c.denominator == 1 else None

    def is_int(self):
        if self._int is None:
            self._int = all(
                c.denominator == 1 and all(e > 0 and atom_int(a) for a, e in m) for m, c in self.args
            )
        return self._int

    def single_atom(self):
        if len(self.args) == 1:
            m, c = self.args[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        e2 = d.get(a, 0) + e
        if a.op == "ind":
            e2 = 1
        if e2 == 0:
            d.pop(a, None)
        else:
            d[a] = e2
    return tuple(sorted(d.items(), key=lambda t: t[0].id))


def poly(d):
    items = tuple(sorted(((m, Fraction(c)) for m, c in d.items() if c != 0), key=lambda t: tuple((a.id, e) for a, e in t[0])))
    return _intern(Poly, "poly", items)


ZERO = poly({})
ONE = poly({(): 1})


def num(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return atom_poly(x)
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return poly({(): x})
    if isinstance(x, float):
        return poly({(): Fraction(repr(x))})
    if isinstance(x, Fraction):
        return poly({(): x})
    raise TypeError(f"not a number: {x!r}")


def atom_poly(a):
    return poly({((a, 1),): 1})


INT_OPS = {"ilen", "ind", "floor", "iof", "nth", "iseq", "count", "first", "mod", "bvi"}


def atom_int(a):
    if a.op == "sym":
        return a.args[1] == "int"
    if a.op == "elem":
        return bool(base_is_int(a))
    return a.op in INT_OPS


def base_is_int(a):
    w = a.args[0]
    return len(w) == 1 and w[0][0].op in ("vsym", "tfn") and w[0][0].args[-1] == "int"


def sym(name, sort="real"):
    return atom_poly(_intern(Atom, "sym", (name, sort)))


_FRESH = [0]


def fresh(name, sort="real"):
    _FRESH[0] += 1
    return sym(f"{name}!{_FRESH[0]}", sort)


def atom(op, *args):
    return _intern(Atom, op, tuple(args))


def fn(op, *args):
    """scalar function application"""
    return atom_poly(atom(op, *args))


def inv(p):
    p = num(p)
    c = p.const()
    if c is not None:
        if c == 0:
            return fn("inv", ZERO)
        return num(1 / c)
    if len(p.args) == 1:
        m, c = p.args[0]
        if all(a.op != "ind" for a, _ in m):
            return poly({tuple((a, -e) for a, e in m): 1 / c})
    # normalise by the leading coefficient
    lead = p.args[0][1]
    q = p * num(1 / lead)
    if len(q.args) == 1:
        pass
    return poly({((atom("pinv", q), 1),): 1 / lead})


def power(p, e):
    """p ** e for scalars"""
    e = num(e)
    k = e.as_int()
    if k is not None and abs(k) <= 8:
        if k >= 0:
            out = ONE
            for _ in range(k):
                out = out * p
            return out
        return inv(power(p, -k))
    # integer constant part of the exponent splits off
    c0 = dict(e.args).get((), 0)
    if c0 and Fraction(c0).denominator == 1 and 0 < c0 <= 4:
        return power(p, e - num(c0)) * power(p, num(c0))
    if p is ONE:
        return ONE
    return fn("pow", p, e)


def half(p):
    return p * num(Fraction(1, 2))


def sqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        import math
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return num(Fraction(a, b))
    return fn("sqrt", p)


# ------------------------------------------------------------- conditions
class Cond(Node):
    """op in lt0, eq0, and, or, not, true, false, streq, exists, bsym, ..."""
    __slots__ = ()


TRUE = _intern(Cond, "true", ())
FALSE = _intern(Cond, "false", ())


def cond(op, *args):
    return _intern(Cond, op, tuple(args))


def c_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return cond("not", c)


def c_and(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        for x in c.args if c.op == "and" else (c,):
            if x not in out:
                out.append(x)
    for x in out:
        if c_not(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return cond("and", *sorted(out, key=lambda n: n.id))


def c_or(*cs):
    return c_not(c_and(*[c_not(c) for c in cs]))


def _lead(p):
    """leading coefficient (of a non-constant monomial)"""
    for m, c in p.args:
        if m:
            return c
    return None


def lt0(p):
    """p < 0"""
    k = p.const()
    if k is not None:
        return TRUE if k < 0 else FALSE
    lead = _lead(p)
    if p.is_int():
        some = some_of(p)
        if some is not None:
            return some
        if lead < 0:
            # p < 0  <=>  not (-p - 1 < 0)
            return c_not(cond("lt0", -p - 1)) if True else None
        return cond("lt0", p)
    p = p * num(1 / abs(lead))
    if lead < 0:
        q = -p
        return c_and(c_not(cond("lt0", q)), c_not(cond("eq0", q)))
    return cond("lt0", p)


def eq0(p):
    k = p.const()
    if k is not None:
        return TRUE if k == 0 else FALSE
    lead = _lead(p)
    if len(p.args) == 1:
        some = some_of(-p if lead > 0 else p)
        if some is not None:
            return c_not(some)
    return cond("eq0", p * num(1 / lead))


def some_of(p):
    """for a number N of selected elements: -N < 0 is that there is one, and
    N - 1 < 0 that there is none"""
    a = None
    for m, c in p.args:
        if m:
            if a is not None or len(m) != 1 or m[0][1] != 1:
                return None
            a, k = m[0][0], c
    if a is None or a.op not in ("count", "ilen") or not isinstance(a.args[0], Node) or a.args[0].op != "filter":
        return None
    const = (p - atom_poly(a) * num(k)).const()
    if not (k == -1 and const == 0 or k == 1 and const == -1):
        return None
    bvs, n, c = a.args[0].args
    v = open_vars(bvs)[0]
    some = exists(v, n, subst(c, {bvs[0]: atom_poly(v)}))
    return some if k == -1 else c_not(some)


def lt(a, b):
    return lt0(num(a) - num(b))


def le(a, b):
    p = num(a) - num(b)
    if p.is_int():
        return lt0(p - 1)
    return c_or(lt0(p), eq0(p))


def eqc(a, b):
    return eq0(num(a) - num(b))


def ind(c):
    """indicator polynomial of a condition"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == "not":
        return ONE - ind(c.args[0])
    if c.op == "and":
        out = ONE
        for x in c.args:
            out = out * ind(x)
        return out
    return atom_poly(atom("ind", c))


def ite(c, a, b):
    if a is b:
        return a
    i = ind(c)
    return i * a + (ONE - i) * b


# ----------------------------------------------------------- free symbols
def children(x):
    if isinstance(x, (Node,)):
        return x.args
    if isinstance(x, tuple):
        return x
    return ()


def free(x):
    """set of sym atoms occurring in x (bound variables are syms too, but
    canonical ones (name starting with '$') count as bound)"""
    if isinstance(x, Node):
        if x._fv is None:
            if x.op == "sym":
                x._fv = frozenset((x,))
            else:
                s = frozenset()
                for y in x.args:
                    s |= free(y)
                if x.op in BINDERS:
                    s -= frozenset(v for v in s if v in x.args[0])
                x._fv = s
        return x._fv
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s |= free(y)
        return s
    return frozenset()


# binders: args[0] is the tuple of bound variable atoms (canonical names)
BINDERS = {"lam", "sum", "exists", "first", "sumT", "filter", "iter", "rec"}


def height(x):
    if isinstance(x, Node):
        if x.ht is None:
            h = max([0] + [height(y) for y in x.args])
            if x.op in BINDERS:
                h = max(h, x.args[0][0].args[2] if x.args[0] else 0)
            x.ht = h
        return x.ht
    if isinstance(x, tuple):
        return max([0] + [height(y) for y in x])
    return 0


def bv(k, j, sort="int"):
    return _intern(Atom, "sym", (f"$b{k}_{j}" if sort == "int" else f"$r{k}_{j}", sort, k))


def bind(vars_, *bodies):
    """rename the given sym atoms to canonical bound variables; returns
    (bound vars, bodies)"""
    k = 1 + max([height(b) for b in bodies] + [0])
    # stay clear of canonical variables that occur free in the bodies
    for b in bodies:
        for v in free(b):
            if v.args[0].startswith("$") and len(v.args) == 3:
                k = max(k, v.args[2] + 1) if v not in vars_ else k
    new = tuple(bv(k, j, v.args[1]) for j, v in enumerate(vars_))
    m = {v: atom_poly(n) for v, n in zip(vars_, new)}
    return new, tuple(subst(b, m) for b in bodies)


_OPEN = [0]


def open_vars(bvs):
    out = []
    for v in bvs:
        _OPEN[0] += 1
        out.append(_intern(Atom, "sym", (f"%o{_OPEN[0]}", v.args[1])))
    return out


REBUILD = {}


def rebuilder(*ops):
    def deco(f):
        for o in ops:
            REBUILD[o] = f
        return f
    return deco


def subst(x, m, memo=None):
    """capture-avoiding substitution of sym atoms (m: atom -> Poly, or
    atom -> Tensor for tensor symbols)"""
    if not m:
        return x
    memo = {} if memo is None else memo
    return _subst(x, m, memo, frozenset(m))


def _occurs(x, keys):
    if isinstance(x, Node):
        return not keys.isdisjoint(symbols(x))
    if isinstance(x, tuple):
        return any(_occurs(y, keys) for y in x)
    return False


_SYMS = {}


def symbols(x):
    """all sym and base-symbol atoms below x (bound or not)"""
    if isinstance(x, Node):
        s = _SYMS.get(x.id)
        if s is None:
            s = frozenset((x,)) if x.op in ("sym", "vsym", "msym", "osym", "bsym", "inhv") else frozenset()
            for y in x.args:
                s |= symbols(y)
            _SYMS[x.id] = s
        return s
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s |= symbols(y)
        return s
    return frozenset()


def _subst(x, m, memo, keys):
    if isinstance(x, tuple):
        return tuple(_subst(y, m, memo, keys) for y in x)
    if not isinstance(x, Node):
        return x
    if not _occurs(x, keys):
        return x
    if x in memo:
        return memo[x]
    if isinstance(x, Poly):
        out = ZERO
        for mo, c in x.args:
            t = num(c)
            for a, e in mo:
                v = _subst(a, m, memo, keys)
                if isinstance(v, Atom):
                    v = atom_poly(v)
                t = t * (power(v, num(e)) if e > 0 else inv(power(v, num(-e))))
            out = out + t
    elif x.op == "sym":
        out = m.get(x, x)
    elif isinstance(x, Cond):
        out = m[x] if x in m else rebuild_cond(x, m, memo, keys)
    elif x.op in ("vsym", "msym") and x in m:
        out = m[x]
    elif x.op == "osym" and x in m:
        out = m[x]
    elif x.op in REBUILD:
        out = REBUILD[x.op](x, lambda y: _subst(y, m, memo, keys), lambda y, extra: _subst_ext(y, m, extra))
    else:
        out = atom(x.op, *[_subst(y, m, memo, keys) for y in x.args]) if isinstance(x, Atom) else None
        if out is None:
            raise NotImplementedError(x.op)
    memo[x] = out
    return out


def _subst_ext(y, m, extra):
    mm = dict(m)
    mm.update(extra)
    return subst(y, mm)


def rebuild_cond(x, m, memo, keys):
    s = lambda y: _subst(y, m, memo, keys)
    if x.op == "lt0":
        return lt0(s(x.args[0]))
    if x.op == "eq0":
        return eq0(s(x.args[0]))
    if x.op == "and":
        return c_and(*[s(y) for y in x.args])
    if x.op == "not":
        return c_not(s(x.args[0]))
    if x.op == "exists":
        bvs, n, body = x.args
        ov = open_vars(bvs)
        body = _subst_ext(body, m, {b: atom_poly(o) for b, o in zip(bvs, ov)})
        return exists(ov[0], s(n), body)
    return cond(x.op, *[s(y) for y in x.args])


def linear_in(p, v):
    """(c, rest) with p = c*v + rest and rest free of v; (None, None) if not"""
    c = subst(p, {v: ONE}) - subst(p, {v: ZERO})
    c = c.const()
    if c is None:
        return None, None
    rest = p - atom_poly(v) * c
    return (None, None) if v in free(rest) else (c, rest)


def exists(v, n, body):
    """exists v in [0, n): body"""
    if body is FALSE or n is ZERO:
        return FALSE
    if v not in free(body):
        return c_and(body, lt(ZERO, n))
    if body.op == "lt0":
        # p < 0 with p = c*v + rest, c constant: true somewhere iff true at an end
        c, rest = linear_in(body.args[0], v)
        if c:
            end = num(n) - 1 if c < 0 else ZERO
            return c_and(lt(ZERO, n), lt0(rest + end * c))
    vs, (b, nn) = bind((v,), body, n)
    return cond("exists", vs, nn, b)


@rebuilder("ind")
def _rb_ind(x, s, se):
    return ind(s(x.args[0]))


@rebuilder("pinv")
def _rb_pinv(x, s, se):
    return inv(s(x.args[0]))


@rebuilder("pow")
def _rb_pow(x, s, se):
    return power(s(x.args[0]), s(x.args[1]))


@rebuilder("floor")
def _rb_floor(x, s, se):
    p = s(x.args[0])
    c = p.const()
    if p.is_int():
        return p
    return fn("floor", p) if c is None else num(c.__floor__())


@rebuilder("sqrt")
def _rb_sqrt(x, s, se):
    return sqrt(s(x.args[0]))


# ------------------------------------------------------------------ sums
HOLDS = [None]    # hook: a condition holds on the current path


def shrink(v, n, dep):
    """sum_{v<n} [v<k] F = sum_{v<k} F for 0 <= k <= n: (k, rest of dep)"""
    if HOLDS[0] is None:
        return None
    for a, e in dep:
        if a.op == "ind" and a.args[0].op == "lt0":
            p = a.args[0].args[0]
            rest = tuple(x for x in dep if x[0] is not a)
            for k, upper in ((atom_poly(v) - p, True), (p + atom_poly(v) + 1, False)):
                if p.is_int() and v not in free(k) and not any(len(x.args) == 3 for x in free(k) | free(n)):
                    if HOLDS[0](le(k, n)) and HOLDS[0](le(ZERO, k)):
                        # [v<k] F, or [k<=v] F = F - [v<k] F
                        return [(k, rest, ONE)] if upper else [(n, rest, ONE), (k, rest, num(-1))]
    return None


def bigsum(v, n, body):
    """sum_{v<n} body (scalar)"""
    out = ZERO
    for m, c in body.args:
        dep = tuple((a, e) for a, e in m if v in free(a))
        ind_ = poly({tuple((a, e) for a, e in m if v not in free(a)): c})
        if not dep:
            out = out + ind_ * n
            continue
        out = out + ind_ * _sum1(v, n, dep)
    return out


def _sum1(v, n, dep):
    vp = atom_poly(v)
    # [v = t] * rest  ->  rest at t (if t is in range)
    for a, e in dep:
        if a.op == "ind" and a.args[0].op == "eq0":
            t = solve_for(a.args[0].args[0], v)
            if t is not None:
                rest = poly({tuple(x for x in dep if x[0] is not a): 1})
                return ind(c_and(le(ZERO, t), lt(t, n))) * subst(rest, {v: t})
    sh = shrink(v, n, dep)
    if sh is not None:
        out = ZERO
        for k2, rest, sg in sh:
            out = out + sg * bigsum(v, k2, poly({rest: 1}))
        return out
    o = orthonormal(v, n, dep)
    if o is not None:
        return o
    k = n.as_int()
    if k is not None and k <= 3:
        body = poly({dep: 1})
        out = ZERO
        for j in range(k):
            out = out + subst(body, {v: num(j)})
        return out
    vs, (b,) = bind((v,), poly({dep: 1}))
    return atom_poly(atom("sum", vs, n, b))


def orthonormal(v, n, dep):
    """sum_v U[v,i] U[v,j] = [i = j] for orthonormal eigenvectors U, and the
    same for its rows"""
    fs = [a for a, e in dep for _ in range(int(e))] if all(e in (1, 2) for _, e in dep) else []
    if len(fs) != 2 or any(a.op != "elem" or len(a.args[0]) != 1 or len(a.args[1]) != 2 for a in fs):
        return None
    (w1, i1), (w2, i2) = fs[0].args, fs[1].args
    if w1 is not w2 and w1 != w2 or w1[0][0].op != "eigvec":
        return None
    vp = atom_poly(v)
    if w1[0][0].args[0].shape[0] is not n:
        return None
    for pos in (0, 1):
        if i1[pos] is vp and i2[pos] is vp and v not in free(i1[1 - pos]) and v not in free(i2[1 - pos]):
            return ind(eq0(i1[1 - pos] - i2[1 - pos]))
    return None


def solve_for(p, v):
    """p == 0 solved for v if linear with a unit coefficient"""
    co, rest = None, ZERO
    for m, c in p.args:
        if m == ((v, 1),):
            co = c
        elif any(v in free(a) for a, _ in m):
            return None
        else:
            rest = rest + poly({m: c})
    if co is None or abs(co) != 1:
        return None
    return rest * num(-1 / co)


@rebuilder("sum")
def _rb_sum(x, s, se):
    bvs, n, body = x.args
    ov = open_vars(bvs)
    return bigsum(ov[0], s(n), se(body, {bvs[0]: atom_poly(ov[0])}))


# ------------------------------------------------------------------ show
def show(x, d=0):
    if isinstance(x, tuple):
        return "(" + ", ".join(show(y, d) for y in x) + ")"
    if not isinstance(x, Node):
        return str(x)
    if d > 12:
        return "..."
    if isinstance(x, Poly):
        if not x.args:
            return "0"
        parts = []
        for m, c in x.args:
            f = [show(a, d + 1) + (f"^{e}" if e != 1 else "") for a, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            parts.append("*".join(f))
        return "(" + " + ".join(parts) + ")" if len(parts) > 1 else parts[0]
    if isinstance(x, Tensor):
        parts = []
        for w, c in x.args[1]:
            ws = ".".join(show(b, d + 1) + ("'" if t else "") for b, t in w) or "I"
            parts.append(ws if c is ONE else f"{show(c, d + 1)}*{ws}")
        return "<" + " + ".join(parts) + ">" if parts else "<0>"
    if x.op == "sym":
        return x.args[0]
    if x.op in ("vsym", "msym"):
        return str(x.args[0])
    if x.op == "ind":
        return f"[{show(x.args[0], d + 1)}]"
    if x.op == "lt0":
        return show(x.args[0], d + 1) + "<0"
    if x.op == "eq0":
        return show(x.args[0], d + 1) + "=0"
    return x.op + "(" + ", ".join(show(y, d + 1) for y in x.args) + ")"


# =============================================================== tensors
class Tensor(Node):
    """op 'T'; args = (shape, ((word, coeff), ...)).
    word: tuple of (base, transposed)."""
    __slots__ = ()

    @property
    def shape(self):
        return self.args[0]

    @property
    def ndim(self):
        return len(self.args[0])


def tensor(shape, d):
    items = tuple(sorted(((w, c) for w, c in d.items() if c is not ZERO), key=lambda t: tuple((b.id, f) for b, f in t[0])))
    return _intern(Tensor, "T", (tuple(shape), items))


def t_zeros(shape):
    return tensor(shape, {})


def t_eye(n):
    return tensor((n, n), {(): ONE})


def base_shape(b):
    """shape of a tensor base"""
    op, a = b.op, b.args
    if op in ("vsym", "msym"):
        return a[1]
    if op == "pow_m" or op == "inv_m":
        return a[0].shape
    if op == "diag":
        return (a[0].shape[0], a[0].shape[0])
    if op == "lam":
        return a[1]
    if op == "sumT":
        return a[2].shape
    if op == "eigvec":
        return a[0].shape
    if op == "eigval":
        return (a[0].shape[0],)
    if op == "selm":  # n x len(idx): column k is e_{idx[k]}
        return (a[0], index_len(a[1]))
    if op == "lstsq":
        return (a[0].shape[1],) + tuple(a[1].shape[1:])
    if op == "iter":
        return a[-1]
    if op == "rec":
        return a[-1]
    if op == "unique":
        return (atom_poly(atom("ilen", b)),)
    if op == "tfn":
        return a[1]
    raise NotImplementedError(op)


def t_base(b, transposed=False):
    s = base_shape(b)
    if len(s) == 2 and transposed:
        s = (s[1], s[0])
    return tensor(s, {normal_word(((b, transposed),)): ONE})


def msym(name, r, c):
    return t_base(atom("msym", name, (num(r), num(c))))


def vsym(name, n, sort="real"):
    return t_base(atom("vsym", name, (num(n),), sort))


def symmetric_base(b):
    if b.op in ("pow_m", "inv_m"):
        return is_symmetric(b.args[0])
    if b.op == "sumT" and len(b.args[2].shape) == 2:
        return t_transpose(b.args[2]) is b.args[2]
    if b.op == "msym":
        return b.args[0].startswith("sym:")
    return b.op == "diag"


def is_symmetric(t):
    return t.ndim == 2 and t_transpose(t) is t


def normal_word(w):
    return tuple((b, False) if t and symmetric_base(b) else (b, t) for b, t in w)


def t_transpose(t):
    if t.ndim < 2:
        return t
    if t.ndim > 2:
        raise NotImplementedError("transpose of ndim > 2")
    out = {}
    for w, c in t.args[1]:
        if len(w) == 1 and w[0][0].op == "lam":
            tt = lam_transpose(w[0][0])
            for w2, c2 in tt.args[1]:
                out[w2] = out.get(w2, ZERO) + c * c2
            continue
        w2 = normal_word(tuple((b, not f) for b, f in reversed(w)))
        out[w2] = out.get(w2, ZERO) + c
    return tensor((t.shape[1], t.shape[0]), out)


def t_add(a, b):
    d = dict(a.args[1])
    for w, c in b.args[1]:
        d[w] = d.get(w, ZERO) + c
    return merge_lams(a.shape, d)


def t_scale(a, p):
    if p is ONE:
        return a
    return merge_lams(a.shape, {w: c * p for w, c in a.args[1]})


def merge_lams(shape, d):
    """at most one lam word per tensor, coefficient inside the body"""
    d = {w: c for w, c in d.items() if c is not ZERO}
    lams = [w for w in d if len(w) == 1 and w[0][0].op == "lam"]
    if len(lams) == 0 or (len(lams) == 1 and d[lams[0]] is ONE):
        return tensor(shape, d)
    vs = [fresh_index() for _ in shape]
    body = ZERO
    rest = {}
    for w, c in d.items():
        if w in lams:
            body = body + c * lam_at(w[0][0], [atom_poly(v) for v in vs], w[0][1])
        else:
            rest[w] = c
    out = dict(lam_terms(vs, shape, body))
    for w, c in rest.items():
        out[w] = out.get(w, ZERO) + c
    return tensor(shape, out)


def fresh_index():
    _OPEN[0] += 1
    return _intern(Atom, "sym", (f"%i{_OPEN[0]}", "int"))


def lam_at(b, idx, transposed=False):
    bvs, shape, body = b.args
    if transposed:
        idx = list(reversed(idx))
    return subst(body, dict(zip(bvs, idx)))


def lam_transpose(b):
    bvs, shape, body = b.args
    vs = [fresh_index() for _ in shape]
    body = subst(body, {x: atom_poly(v) for x, v in zip(bvs, vs)})
    return lam([vs[1], vs[0]], (shape[1], shape[0]), body)


SIMPLIFY_RANGE = [None]  # hook: simplify indicators under 0<=v<dim


def lam(vs, shape, body):
    """tensor with entries body(vs)"""
    shape = tuple(shape)
    if SIMPLIFY_RANGE[0]:
        body = SIMPLIFY_RANGE[0](vs, shape, body)
    return tensor(shape, lam_terms(vs, shape, body))


def lam_terms(vs, shape, body):
    """canonical words of the index function vs -> body"""
    words, rest = {}, ZERO
    vset = set(vs)
    idx = tuple(atom_poly(v) for v in vs)
    for m, c in body.args:
        hit = None
        for a, e in m:
            if a.op == "elem" and e == 1 and (a.args[1] == idx or (len(idx) == 2 and a.args[1] == (idx[1], idx[0]))):
                others = tuple(x for x in m if x[0] is not a)
                if not any(vset & free(y) for y, _ in others):
                    hit = (a, others)
                    break
        if hit is None and len(idx) == 2:
            # [i = j] * rest(without i, j) -> identity
            for a, e in m:
                if a.op == "ind" and a.args[0].op == "eq0" and a.args[0] is eqc(idx[0], idx[1]) and shape[0] is shape[1]:
                    others = tuple(x for x in m if x[0] is not a)
                    if not any(vset & free(y) for y, _ in others):
                        words[()] = words.get((), ZERO) + poly({others: c})
                        hit = "eye"
                        break
        if hit == "eye":
            continue
        if hit is None:
            hit = _summed(vs, vset, shape, m)
            if hit is not None:
                for w, c2 in hit.items():
                    words[w] = words.get(w, ZERO) + c2 * c
                continue
        if hit is not None:
            a, others = hit
            w = a.args[0]
            if a.args[1] != idx:
                w = normal_word(tuple((b, not f) for b, f in reversed(w)))
            words[w] = words.get(w, ZERO) + poly({others: c})
        else:
            rest = rest + poly({m: c})
    if rest is not ZERO:
        bvs, (b, sh) = bind(tuple(vs), rest, shape)
        w = ((atom("lam", bvs, sh, b), False),)
        words[w] = words.get(w, ZERO) + ONE
    return words


def _summed(vs, vset, shape, m):
    """words of vs -> others * sum_k X_k[vs] when every X_k is a tensor term"""
    dep = [(a, e) for a, e in m if vset & free(a)]
    if len(dep) != 1 or dep[0][1] != 1 or dep[0][0].op != "sum":
        return None
    bvs, n, body = dep[0][0].args
    if vset & free(n):
        return None
    ov = open_vars(bvs)
    words = lam_terms(vs, shape, subst(body, {b: atom_poly(o) for b, o in zip(bvs, ov)}))
    if any(w == () or any(b.op == "lam" for b, _ in w) for w in words) or len(ov) != 1:
        return None
    others = poly({tuple(x for x in m if x[0] is not dep[0][0]): 1})
    t = sumT(ov[0], n, tensor(shape, words))
    return {w: c * others for w, c in t.args[1]}


@rebuilder("lam")
def _rb_lam(x, s, se):
    bvs, shape, body = x.args
    ov = open_vars(bvs)
    return lam(ov, s(shape), se(body, {b: atom_poly(o) for b, o in zip(bvs, ov)}))


def elem(t, idx):
    """scalar entry of a tensor"""
    idx = tuple(num(i) for i in idx)
    out = ZERO
    for w, c in t.args[1]:
        out = out + c * word_elem(w, idx)
    return out


def word_elem(w, idx):
    if w == ():
        return ind(eqc(idx[0], idx[1]))
    if len(w) == 1:
        b, f = w[0]
        if b.op == "lam":
            return lam_at(b, idx, f)
        if b.op == "diag":
            return ind(eqc(idx[0], idx[1])) * elem(b.args[0], (idx[0],))
        if b.op == "selm" and len(idx) == 2:
            i, j = (idx[1], idx[0]) if f else idx
            return ind(eqc(i, index_at(b.args[1], j)))
    # leading selection rows / trailing selection columns
    b, f = w[0]
    if b.op == "selm" and f and len(w) > 1:
        return word_elem(w[1:], (index_at(b.args[1], idx[0]),) + tuple(idx[1:]))
    if len(idx) == 2:
        b, f = w[-1]
        if b.op == "selm" and not f and len(w) > 1:
            return word_elem(w[:-1], (idx[0], index_at(b.args[1], idx[1])))
        if b.op == "diag" and len(w) > 1:
            return word_elem(w[:-1], idx) * elem(b.args[0], (idx[1],))
        b, f = w[0]
        if b.op == "diag" and len(w) > 1:
            return elem(b.args[0], (idx[0],)) * word_elem(w[1:], idx)
        r = normal_word(tuple((b, not f) for b, f in reversed(w)))
        if tuple((b.id, f) for b, f in r) < tuple((b.id, f) for b, f in w):
            return atom_poly(atom("elem", r, (idx[1], idx[0])))
        if r == w and idx[1].id < idx[0].id:
            idx = (idx[1], idx[0])
    return atom_poly(atom("elem", w, tuple(idx)))


def expand_elem(t, idx):
    """entry of a tensor, products of index functions multiplied out"""
    out = ZERO
    for w, c in t.args[1]:
        out = out + c * _expand_word(w, tuple(num(i) for i in idx))
    return out


def _expand_word(w, idx):
    if len(w) < 2 or not all(b.op == "lam" for b, f in w):
        return word_elem(w, idx)
    v = fresh_index()
    k = atom_poly(v)
    b, f = w[0]
    sh = base_shape(b)
    n = sh[0] if f else sh[1]
    return bigsum(v, n, word_elem(w[:1], (idx[0], k)) * _expand_word(w[1:], (k,) + idx[1:]))


def deep_expand(p, all_words=False):
    """entries of products that contain index functions, multiplied out"""
    out = ZERO
    for m, c in p.args:
        q = num(c)
        for a, e in m:
            x = atom_poly(a)
            if a.op == "elem" and len(a.args[0]) > 1 and e > 0 and (all_words or any(b.op in ("lam", "diag") for b, f in a.args[0])):
                x = deep_expand(_expand_all(*a.args), all_words)
            elif e < 0:
                x, e = poly({((a, e),): 1}), 1
            for _ in range(e):
                q = q * x
        out = out + q
    return out


def _expand_all(w, idx):
    if len(w) < 2:
        return word_elem(w, idx)
    v = fresh_index()
    k = atom_poly(v)
    b, f = w[0]
    sh = base_shape(b)
    return bigsum(v, sh[0] if f else sh[1], word_elem(w[:1], (idx[0], k)) * _expand_all(w[1:], (k,) + tuple(idx[1:])))


@rebuilder("elem")
def _rb_elem(x, s, se):
    w, idx = x.args
    return elem(subst_word(w, s), s(idx))


def subst_word(w, s):
    """word -> tensor after substitution"""
    out = None
    for b, f in w:
        v = s(b)
        if isinstance(v, Atom):
            v = t_base(v)
        if f:
            v = t_transpose(v)
        out = v if out is None else matmul(out, v)
    return out


def word_tensor(w, n=None):
    """tensor of a word"""
    if w == ():
        return t_eye(n)
    return tensor(word_shape(w), {w: ONE})


def word_shape(w):
    b, f = w[0]
    s = base_shape(b)
    first = s[1] if f and len(s) == 2 else s[0]
    b, f = w[-1]
    s = base_shape(b)
    if len(s) == 1 and not f:
        return (first,) if len(w) > 1 or True else s
    if len(w) == 1 and not f:
        return s
    return (first, s[0] if f else s[1])


@rebuilder("T_dummy")
def _rb_dummy(x, s, se):
    raise NotImplementedError


def _rb_T(x, s, se):
    shape = s(x.args[0])
    out = t_zeros(shape)
    for w, c in x.args[1]:
        t = t_eye(shape[0]) if w == () else subst_word(w, s)
        out = t_add(out, t_scale(t, s(c)))
    if out.shape != shape:
        out = tensor(shape, dict(out.args[1]))
    return out


REBUILD["T"] = _rb_T

# simplification rules on adjacent factors: f(word) -> None or list of (word, Poly)
WORD_RULES = []


def simplify_word(w):
    """apply the adjacency rules; returns [(word, coeff)]"""
    todo, out = [(w, ONE)], []
    while todo:
        w, c = todo.pop()
        for rule in WORD_RULES:
            r = rule(w)
            if r is not None:
                todo.extend((w2, c * c2) for w2, c2 in r)
                break
        else:
            out.append((w, c))
    return out


def matmul(a, b):
    """matrix/vector products; a 1-D left operand is a row"""
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    if a.ndim == 1:
        return matmul(t_transpose(b), a)
    shape = (a.shape[0],) + tuple(b.shape[1:])
    out = {}
    post = []
    for w1, c1 in a.args[1]:
        for w2, c2 in b.args[1]:
            w = normal_word(w1 + w2)
            c = c1 * c2
            for w3, c3 in simplify_word(w):
                # diag * vector -> elementwise
                t = None
                if len(shape) == 1 and len(w3) >= 2 and w3[0][0].op == "diag":
                    t = elementwise_diag(w3, shape)
                elif len(w3) == 1 and w3[0][0].op == "lam":
                    t = word_tensor(w3)
                if t is not None:
                    post.append(t_scale(t, c * c3))
                else:
                    out[w3] = out.get(w3, ZERO) + c * c3
    t = merge_lams(shape, out)
    for p in post:
        t = t_add(t, p)
    return t


def elementwise_diag(w, shape):
    v = fresh_index()
    i = atom_poly(v)
    return lam([v], shape, elem(w[0][0].args[0], (i,)) * word_elem(w[1:], (i,)))


def dot(a, b):
    out = ZERO
    for w1, c1 in a.args[1]:
        for w2, c2 in b.args[1]:
            w = tuple((x, not f if len(base_shape(x)) == 2 else "r") for x, f in reversed(w1))
            w = ((w[0][0], "r"),) + tuple((x, f) for x, f in w[1:]) if w else w
            out = out + c1 * c2 * scalar_word(w1, w2)
    return out


def scalar_word(w1, w2):
    """w1^T w2 for vector words, canonical under transposition"""
    # move everything to one side: (head vector, matrix word, tail vector)
    h, t = w1[-1][0], w2[-1][0]
    mid = tuple((b, not f) for b, f in reversed(w1[:-1])) + w2[:-1]
    mid = normal_word(mid)
    out = ZERO
    for m, c in simplify_word(mid):
        r = normal_word(tuple((b, not f) for b, f in reversed(m)))
        again = None
        for end, word, other in ((t, m, h), (h, r, t)):
            full = word + ((end, False),)
            sw = list(simplify_word(full))
            if not (len(sw) == 1 and sw[0][0] == full):
                again = sum((c2 * scalar_word(((other, False),), w2) for w2, c2 in sw), ZERO)
                break
        if again is not None:
            out = out + c * again
            continue
        k1 = (h.id, tuple((b.id, f) for b, f in m), t.id)
        k2 = (t.id, tuple((b.id, f) for b, f in r), h.id)
        if k2 < k1:
            out = out + c * atom_poly(atom("dot", t, r, h))
        else:
            out = out + c * atom_poly(atom("dot", h, m, t))
    return out


@rebuilder("dot")
def _rb_dot(x, s, se):
    h, m, t = x.args
    v = s(t)
    v = t_base(v) if isinstance(v, Atom) else v
    if m:
        v = matmul(subst_word(m, s), v)
    u = s(h)
    u = t_base(u) if isinstance(u, Atom) else u
    return dot(u, v)


def mpow(t, e):
    """matrix power"""
    e = num(e)
    k = e.as_int()
    if k is not None and 0 <= k <= 6:
        out = t_eye(t.shape[0])
        for _ in range(k):
            out = matmul(out, t)
        return out
    c0 = dict(e.args).get((), 0)
    if c0 and Fraction(c0).denominator == 1 and 0 < c0 <= 4:
        return matmul(mpow(t, num(c0)), mpow(t, e - num(c0)))
    return t_base(atom("pow_m", t, e))


@rebuilder("pow_m")
def _rb_powm(x, s, se):
    return mpow(s(x.args[0]), s(x.args[1]))


def minv(t):
    if len(t.args[1]) == 1 and t.args[1][0][0] == ():
        return tensor(t.shape, {(): inv(t.args[1][0][1])})
    return t_base(atom("inv_m", t))


@rebuilder("inv_m")
def _rb_invm(x, s, se):
    return minv(s(x.args[0]))


def diag(v):
    """diagonal matrix of a vector"""
    body = const_vec(v)
    if body is not None:
        return t_scale(t_eye(v.shape[0]), body)
    return t_base(atom("diag", v))


def const_vec(v):
    """the constant c if v = (c, ..., c)"""
    if not v.args[1]:
        return ZERO
    if len(v.args[1]) == 1:
        w, c = v.args[1][0]
        if len(w) == 1 and w[0][0].op == "lam":
            bvs, sh, body = w[0][0].args
            if not any(b in free(body) for b in bvs):
                return c * body
    return None


@rebuilder("diag")
def _rb_diag(x, s, se):
    return diag(s(x.args[0]))


def diagonal(m):
    v = fresh_index()
    i = atom_poly(v)
    return lam([v], (m.shape[0],), elem(m, (i, i)))


def emap(f, *ts):
    """elementwise application of f on tensors/scalars (broadcast scalars)"""
    shape = None
    for t in ts:
        if isinstance(t, Tensor):
            shape = t.shape if shape is None or t.ndim > len(shape) else shape
    vs = [fresh_index() for _ in shape]
    idx = [atom_poly(v) for v in vs]
    args = []
    for t in ts:
        if isinstance(t, Tensor):
            k = len(shape) - t.ndim
            sub = []
            for j in range(t.ndim):
                sub.append(ZERO if t.shape[j] is ONE and shape[k + j] is not ONE else idx[k + j])
            args.append(elem(t, sub))
        else:
            args.append(t)
    return lam(vs, shape, f(*args))


def full(shape, p):
    vs = [fresh_index() for _ in shape]
    return lam(vs, shape, num(p))


def sumT(v, n, t):
    """sum_{v<n} t (tensor)"""
    out = t_zeros(t.shape)
    for w, c in t.args[1]:
        # split coefficient monomials
        for m, k in c.args:
            ci = poly({tuple(x for x in m if v not in free(x[0])): k})
            cd = poly({tuple(x for x in m if v in free(x[0])): 1})
            sh = shrink(v, n, cd.args[0][0])
            if sh is not None:
                for k2, rest, sg in sh:
                    out = t_add(out, t_scale(sumT(v, k2, tensor(t.shape, {w: poly({rest: 1})})), ci * sg))
                continue
            if v not in free(w) and cd is ONE:
                out = t_add(out, t_scale(word_tensor(w, t.shape[0]), ci * n))
                continue
            if v not in free(w):
                out = t_add(out, t_scale(word_tensor(w, t.shape[0]), ci * bigsum(v, n, cd)))
                continue
            if len(w) == 1 and w[0][0].op == "lam":
                vs = [fresh_index() for _ in t.shape]
                b = lam_at(w[0][0], [atom_poly(x) for x in vs], w[0][1])
                out = t_add(out, t_scale(lam(vs, t.shape, bigsum(v, n, cd * b)), ci))
                continue
            # pull out factors that do not depend on v
            lo = 0
            while v not in free(w[lo]):
                lo += 1
            hi = len(w)
            while v not in free(w[hi - 1]):
                hi -= 1
            mid = w[lo:hi]
            vs, (b,) = bind((v,), t_scale(word_tensor(mid), cd))
            core = t_base(atom("sumT", vs, n, b))
            if lo:
                core = matmul(word_tensor(w[:lo]), core)
            if hi < len(w):
                core = matmul(core, word_tensor(w[hi:]))
            out = t_add(out, t_scale(core, ci))
    return out


@rebuilder("sumT")
def _rb_sumT(x, s, se):
    bvs, n, t = x.args
    ov = open_vars(bvs)
    return sumT(ov[0], s(n), se(t, {bvs[0]: atom_poly(ov[0])}))


# index lists: ('filter', bvs, n, cond): ascending indices v<n with cond;
# a Tensor of integers otherwise
def index_len(ix):
    if isinstance(ix, Tensor):
        return ix.shape[0]
    return atom_poly(atom("count", ix))


def index_at(ix, k):
    if isinstance(ix, Tensor):
        return elem(ix, (k,))
    return atom_poly(atom("nth", ix, num(k)))


def filter_ix(v, n, c):
    bvs, (b, nn) = bind((v,), c, n)
    return atom("filter", bvs, nn, b)


def first_ix(v, n, c):
    """the smallest v < n with c (unspecified if there is none)"""
    bvs, (b, nn) = bind((v,), c, n)
    return atom_poly(atom("first", bvs, nn, b))


@rebuilder("first")
def _rb_first(x, s, se):
    bvs, n, c = x.args
    ov = open_vars(bvs)
    return first_ix(ov[0], s(n), se(c, {bvs[0]: atom_poly(ov[0])}))


@rebuilder("filter")
def _rb_filter(x, s, se):
    bvs, n, c = x.args
    ov = open_vars(bvs)
    return filter_ix(ov[0], s(n), se(c, {bvs[0]: atom_poly(ov[0])}))


@rebuilder("selm")
def _rb_selm(x, s, se):
    return selm(s(x.args[0]), s(x.args[1]))


def selm(n, ix):
    """n x len(ix) selection matrix"""
    if isinstance(ix, Tensor) and len(ix.args[1]) == 1:
        w, c = ix.args[1][0]
        if len(w) == 1 and w[0][0].op == "lam" and c is ONE:
            bvs, sh, body = w[0][0].args
            if body is atom_poly(bvs[0]) and sh[0] is n:
                return t_eye(n)
    return t_base(atom("selm", n, ix))


@rebuilder("lstsq", "eigvec", "eigval", "unique", "tfn")
def _rb_plain_base(x, s, se):
    from . import theory
    return theory.rebuild_base(x.op, [s(a) if not isinstance(a, (str, int)) else a for a in x.args])


def iter_term(n, j, carries, index, bodies, inits, shape):
    """component j of iterating bodies n times from inits.
    carries: list of symbol atoms standing for the state, index: loop var"""
    syms = [index] + list(carries)
    return syms
