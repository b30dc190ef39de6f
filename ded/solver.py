"""z3 back end: conditions, entailment, equality of normal forms."""

import time

import z3

from .terms import *
from .terms import Atom, Cond, Poly, Tensor
from . import terms as T

# name -> (length, fact(k), fact(k, l) for k != l or None)
SEQ_FACTS = {}

STATS = {"queries": 0, "seconds": 0.0, "unknown": 0, "timeouts": 0}
TIMEOUT = 20000
RLIMIT = 12_000_000
DEADLINE = [None]


def slot(j):
    return T.atom("sym", f"$slot{j}", "int")


class Timeout(Exception):
    pass



class Enc:
    def __init__(self, quant=True):
        self.quant = quant
        self.used_quant = False
        self.cache = {}
        self.axioms = []
        self.depth = 0
        self.scope = []     # variables of the enclosing quantifiers

    def var(self, base, a, sort, idx=()):
        """the z3 term of an uninterpreted node: a constant, or a function of
        the quantified variables it depends on (and of the indices)"""
        fr = free(a)
        deps = [v for v in self.scope if v in fr]
        if not deps and not idx:
            return z3.Const(f"{base}_{a.id}", sort)
        name = f"{base}_{a.id}"
        if deps:
            t = subst(a, {v: atom_poly(slot(j)) for j, v in enumerate(deps)})
            name = f"{base}_s{t.id}"
        args = [self.toint(self.atom(v)) for v in deps] + list(idx)
        return z3.Function(name, *([z3.IntSort()] * len(args)), sort)(*args)

    def poly(self, p):
        k = ("p", p.id)
        if k in self.cache:
            return self.cache[k]
        is_int = p.is_int()
        out = None
        for m, c in p.args:
            if is_int:
                t = z3.IntVal(int(c))
            else:
                t = z3.RealVal(str(c))
            first = c == 1 and m
            guard = [self.cond(a.args[0]) for a, e in m if a.op == "ind"]
            for a, e in m:
                if a.op == "ind":
                    continue
                v = self.atom(a)
                if not is_int and z3.is_int(v):
                    v = z3.ToReal(v)
                if e < 0:
                    v, e = self.recip(a, v), -e
                for _ in range(e):
                    t = v if first else t * v
                    first = False
            if guard:
                t = z3.If(z3.And(*guard), t, z3.IntVal(0) if z3.is_int(t) else z3.RealVal(0))
            out = t if out is None else out + t
        if out is None:
            out = z3.IntVal(0)
        self.cache[k] = out
        return out

    def recip(self, a, v):
        k = ("r", a.id)
        if k not in self.cache:
            r = self.var("recip", a, z3.RealSort())
            if z3.is_int(v):
                v = z3.ToReal(v)
            if not bound_inside(a):
                self.axioms.append(z3.Implies(v != 0, r * v == 1))
            self.cache[k] = r
        return self.cache[k]

    def atom(self, a):
        k = ("a", a.id)
        if k in self.cache:
            return self.cache[k]
        out = self._atom(a)
        self.cache[k] = out
        return out

    def _atom(self, a):
        op = a.op
        isint = T.atom_int(a)
        sort = z3.IntSort() if isint else z3.RealSort()
        if op == "sym":
            return z3.Int(f"{a.args[0]}") if isint else z3.Real(a.args[0])
        if op == "ind":
            return z3.If(self.cond(a.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op == "elem" or op == "iseq":
            # uninterpreted function of the base word and the indices
            name = f"{op}_{a.args[0].id if isinstance(a.args[0], Node) else '_'.join(f'{b.id}{f}' for b, f in a.args[0])}"
            if op == "elem" and (_word_has_bound(a.args[0]) or self.in_scope(a.args[0])):
                return self.var("at", a, sort)
            idx = [self.toint(self.poly(i)) for i in a.args[1]]
            f = z3.Function(name, *([z3.IntSort()] * len(idx)), sort)
            if op == "iseq" and not bound_inside(a) and not LIGHT[0]:
                self.seq_facts(a.args[0].args[0], a.args[1][0])
            return f(*idx)
        if op == "nth":
            self.filter_axioms(a.args[0])
            k = self.toint(self.poly(a.args[1]))
            v = self.var("nth", a.args[0], z3.IntSort(), [k])
            self.cache[("a", a.id)] = v
            if not bound_inside(a):
                fl = a.args[0]
                n = self.poly(fl.args[1])
                cnt = self.atom(T.atom("count", fl))
                c = self.cond(subst(fl.args[2], {fl.args[0][0]: atom_poly(a)}), allow_bound=True) if self.depth < 3 else None
                ax = [0 <= v, v < n]
                if c is not None:
                    ax.append(c)
                self.axioms.append(z3.Implies(z3.And(0 <= k, k < cnt), z3.And(*ax)))
            return v
        if op == "count":
            v = self.var("count", a.args[0], z3.IntSort())
            if not bound_inside(a):
                self.axioms.append(v >= 0)
                self.cache[("a", a.id)] = v
                self.axioms.append(v <= self.poly(a.args[0].args[1]))
            return v
        if op == "ilen":
            v = self.var("len", a, z3.IntSort())
            if not bound_inside(a):
                self.axioms.append(v >= 0)
                f = a.args[0]
                if f.op == "filter":
                    j = fresh_index()
                    some = T.exists(j, f.args[1], subst(f.args[2], {f.args[0][0]: atom_poly(j)}))
                    self.cache[("a", a.id)] = v
                    self.axioms.append(v <= z3.If(self.poly(f.args[1]) > 0, self.poly(f.args[1]), 0))
                    if not LIGHT[0]:
                        self.axioms.append((v > 0) == self.cond(some))
            return v
        if op == "iof":
            # index of a key in a sequence: ('iof', seq atom, key polys)
            seq, key = a.args
            idx = [self.toint(self.poly(x)) for x in key]
            v = self.var(f"iof{len(key)}", seq, z3.IntSort(), idx)
            if not bound_inside(a) and not LIGHT[0]:
                from . import seqs
                self.cache[("a", a.id)] = v
                self.axioms.append(self.cond(seqs.index_axiom(a)))
            return v
        if op == "floor":
            p = self.poly(a.args[0])
            return p if z3.is_int(p) else z3.ToInt(p)
        if op == "sqrt":
            v = self.var("at", a, sort)
            if not bound_inside(a):
                self.axioms.append(v >= 0)
            return v
        if op in ("exp",):
            v = self.var("at", a, sort)
            if not bound_inside(a):
                self.axioms.append(v > 0)
            return v
        if op == "pyrand":
            v = self.var("at", a, sort)
            if not bound_inside(a):
                self.axioms.append(z3.And(0 <= v, v < 1))
            return v
        if op == "abs":
            p = self.poly(a.args[0])
            return z3.If(p >= 0, p, -p)
        if op == "first":
            v = self.var("at", a, sort)
            if not bound_inside(a) and not LIGHT[0]:
                self.cache[("a", a.id)] = v
                bvs, n, body = a.args
                here = lambda q: subst(body, {bvs[0]: q})
                j = fresh_index()
                i = atom_poly(a)
                ok = c_and(le(ZERO, i), lt(i, n), here(i), c_not(T.exists(j, i, here(atom_poly(j)))))
                self.axioms.append(self.cond(c_or(ok, c_not(T.exists(j, n, here(atom_poly(j)))))))
            return v
        if op == "mod":
            return self.toint(self.poly(a.args[0])) % self.toint(self.poly(a.args[1]))
        return self.var("at", a, sort)

    def seq_facts(self, name, k):
        """what the preconditions say about the elements of a sequence"""
        if name not in SEQ_FACTS:
            return
        key = ("sf", name, k.id)
        if key in self.cache:
            return
        self.cache[key] = True
        n, per, pair = SEQ_FACTS[name]
        rng = lambda q: c_and(le(ZERO, q), lt(q, n))
        self.axioms.append(self.cond(c_or(c_not(rng(k)), per(k))))
        seen = self.cache.setdefault(("sfk", name), [])
        if pair is not None:
            for q in seen:
                self.axioms.append(self.cond(c_or(c_not(c_and(rng(k), rng(q))), eqc(k, q), pair(k, q))))
        seen.append(k)

    def toint(self, e):
        return e if z3.is_int(e) else z3.ToInt(e)

    def in_scope(self, x):
        fr = free(x)
        return any(v in fr for v in self.scope)

    def filter_axioms(self, fl):
        """ascending, complete enumeration of {v<n : c(v)}"""
        k = ("f", fl.id)
        if k in self.cache or bound_inside(fl):
            return
        self.used_quant = True
        if not self.quant:
            return
        self.cache[k] = True
        f = z3.Function(f"nth_{fl.id}", z3.IntSort(), z3.IntSort())
        inv = z3.Function(f"pos_{fl.id}", z3.IntSort(), z3.IntSort())
        cnt = self.atom(T.atom("count", fl))
        n = self.poly(fl.args[1])
        i, j = z3.Ints(f"fi_{fl.id} fj_{fl.id}")
        self.axioms.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < cnt), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
        # completeness
        if self.in_scope(fl):
            return
        v = fresh_index()
        zv = self.atom(v)
        self.scope.append(v)
        c = self.cond(subst(fl.args[2], {fl.args[0][0]: atom_poly(v)}), allow_bound=True)
        self.scope.pop()
        body = z3.Implies(z3.And(0 <= zv, zv < n, c), z3.And(0 <= inv(zv), inv(zv) < cnt, f(inv(zv)) == zv))
        q = z3.Int(f"fq_{fl.id}")
        self.axioms.append(z3.ForAll([q], z3.substitute(body, (zv, q))))
        q2 = z3.Int(f"fr_{fl.id}")
        c2 = z3.substitute(z3.And(0 <= zv, zv < n, c), (zv, f(q2)))
        self.axioms.append(z3.ForAll([q2], z3.Implies(z3.And(0 <= q2, q2 < cnt), c2), patterns=[f(q2)]))

    def cond(self, c, allow_bound=False):
        k = ("c", c.id)
        if k in self.cache:
            return self.cache[k]
        op = c.op
        if op == "true":
            out = z3.BoolVal(True)
        elif op == "false":
            out = z3.BoolVal(False)
        elif op == "lt0":
            out = self.poly(c.args[0]) < 0
        elif op == "eq0":
            out = self.poly(c.args[0]) == 0
        elif op == "and":
            out = z3.And(*[self.cond(x) for x in c.args])
        elif op == "not":
            out = z3.Not(self.cond(c.args[0]))
        elif op == "exists":
            bvs, n, body = c.args
            ov = T.open_vars(bvs)
            b = subst(body, {x: atom_poly(o) for x, o in zip(bvs, ov)})
            zv = self.atom(ov[0])
            lim = self.poly(n)
            self.scope.append(ov[0])
            inner = z3.And(0 <= zv, zv < lim, self.cond(b))
            self.scope.pop()
            q = z3.Int(f"ex_{c.id}")
            out = z3.Exists([q], z3.substitute(inner, (zv, q)))
        else:
            out = self.var("cond", c, z3.BoolSort())
        self.cache[k] = out
        return out


def _word_has_bound(w):
    return any(has_bound(b) for b, f in w)


def has_bound(x):
    return any(len(v.args) == 3 for v in free(x))


bound_inside = has_bound


def check(assumed, goal):
    """True if assumed |= goal, False if refuted (model found), None otherwise"""
    if goal is T.TRUE:
        return True
    t = time.time()
    if DEADLINE[0] is not None and t > DEADLINE[0]:
        raise Timeout()
    plain = [c for c in assumed if c not in LEMMAS]
    more = len(plain) < len(assumed) and has_exists(goal) and not LIGHT[0]
    r, used = run_check(plain, goal, False, 4 if more else 1)
    if r is not True and more:
        r, used = run_check(assumed, goal, False, 3)
    if r is not True and used and not LIGHT[0]:
        r, used = run_check(plain, goal, True)
    STATS["queries"] += 1
    STATS["seconds"] += time.time() - t
    if r is None:
        STATS["unknown"] += 1
    return r


def run_check(assumed, goal, quant, part=1):
    enc = Enc(quant)
    s = z3.Solver()
    # a resource limit, so that the answer does not depend on the load
    s.set("rlimit", (RLIMIT if not quant else RLIMIT // 3) // part)
    s.set("timeout", TIMEOUT)
    g = enc.cond(goal)
    hyp = [enc.cond(c) for c in assumed]
    done = 0
    while done < len(enc.axioms) and done < 400:
        done += 1
    for a in enc.axioms:
        s.add(a)
    for h in hyp:
        s.add(h)
    s.add(z3.Not(g))
    r = s.check()
    if r == z3.unsat:
        return True, enc.used_quant
    if r == z3.sat:
        return False, enc.used_quant
    if any(w in s.reason_unknown() for w in ("time", "cancel", "resource")):
        STATS["timeouts"] += 1
    return None, enc.used_quant


_MEMO = {}


def has_exists(c):
    k = ("ex", c.id)
    if k not in _K:
        _K[k] = c.op == "exists" or any(isinstance(x, Node) and has_exists(x) for x in c.args)
    return _K[k]


LIGHT = [False]
# quantified facts that are used only for goals with a quantifier
LEMMAS = set()


def entails_light(pc, goal):
    """entails by quantifier free facts only"""
    if has_exists(goal):
        return goal in pc
    LIGHT[0] = True
    try:
        return entails([c for c in pc if not has_exists(c)], goal)
    finally:
        LIGHT[0] = False


def entails(pc, goal):
    """pc |= goal (memoised; unknown counts as no)"""
    if goal is T.TRUE:
        return True
    if goal in pc:
        return True
    if goal is T.FALSE and not pc:
        return False
    key = (tuple(sorted({c.id for c in relevant(pc, goal)})), goal.id, LIGHT[0])
    if key not in _MEMO:
        _MEMO[key] = check(relevant(pc, goal), goal) is True
    return _MEMO[key]


def relevant(pc, goal):
    """conditions connected to the goal through shared symbols/atoms"""
    syms = set(keys(goal))
    out, rest = [], [c for c in pc]
    changed = True
    while changed:
        changed = False
        for c in list(rest):
            if goal is T.FALSE or keys(c) & syms or not keys(c):
                out.append(c)
                rest.remove(c)
                syms |= keys(c)
                changed = True
    return out


_K = {}


def keys(x):
    """symbols occurring in x that can relate conditions"""
    if isinstance(x, Node):
        k = _K.get(x.id)
        if k is None:
            k = frozenset((x,)) if x.op in ("sym", "vsym", "msym", "osym", "ilen", "bsym") else frozenset()
            if x.op not in ("vsym", "msym", "osym"):
                for y in x.args:
                    k |= keys(y)
            _K[x.id] = k
        return k
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s |= keys(y)
        return s
    return frozenset()


def inds(p, acc=None):
    """indicator conditions at the top level of a polynomial"""
    acc = [] if acc is None else acc
    for m, c in p.args:
        for a, e in m:
            if a.op == "ind" and a.args[0] not in acc:
                acc.append(a.args[0])
    return acc


def nested_inds(p):
    """closed indicators below the terms of a polynomial"""
    out, seen = [], set()

    def walk(x):
        if isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, T.Node) and x.id not in seen:
            seen.add(x.id)
            if getattr(x, "op", None) == "ind" and not has_bound(x):
                out.append(x.args[0])
            for y in x.args:
                walk(y)
    for m, c in p.args:
        for a, e in m:
            if a.op not in ("ind", "sym"):
                walk(a)
    return out[:4]


def replace_ind(p, c, val):
    a = T.atom("ind", c)
    keys = T.symbols(a)
    if not keys:
        return p
    return T._subst(p, {}, {a: T.ONE if val else ZERO}, keys)


def assume_cond(p, c, val):
    """p with [c] := val, using c as an equation if possible"""
    a = T.atom("ind", c)
    d = {}
    for m, k in p.args:
        if any(x is a for x, _ in m):
            if val:
                m = tuple(x for x in m if x[0] is not a)
            else:
                continue
        d[m] = d.get(m, 0) + k
    return poly(d)


def eq_by_subst(p, eqs):
    """use integer/real equations 'q == 0' to eliminate a symbol"""
    for q in eqs:
        for m, c in q.args:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sym" and abs(c) == 1:
                v = m[0][0]
                t = T.solve_for(q, v)
                if t is not None and v not in free(t):
                    p2 = subst(p, {v: t})
                    if p2 is not p:
                        return p2, v, t
    return None


def zero(p, pc, depth=0, budget=None):
    """p == 0 under pc: True / False (refuted) / None"""
    budget = budget if budget is not None else [200]
    if p is ZERO:
        return True
    budget[0] -= 1
    if budget[0] < 0:
        return None
    if p.is_int() and depth % 3 == 0 and len(p.args) > 3:
        # a case distinction over integers only: z3 decides it directly
        g = eq0(p)
        if check(relevant(pc, g), g) is True:
            return True
    # decided indicators
    for c in inds(p):
        if entails(pc, c):
            return zero(assume_cond(p, c, True), pc, depth, budget)
        if entails(pc, c_not(c)):
            return zero(assume_cond(p, c, False), pc, depth, budget)
    cs = inds(p)
    if cs and depth < 14:
        c = min(cs, key=lambda x: ({"exists": 0, "eq0": 1}.get(x.op, 2), x.id))
        pt = assume_cond(p, c, True)
        r1 = True
        if not entails(pc + [c], T.FALSE):
            r1 = zero(_use(pt, pc, c), pc + [c], depth + 1, budget)
            if r1 is not True:
                return r1
        r2 = True
        nc = c_not(c)
        if not entails(pc + [nc], T.FALSE):
            r2 = zero(assume_cond(p, c, False), pc + [nc], depth + 1, budget)
        return r2
    # equations in the path condition
    eqs = [c.args[0] for c in pc if c.op == "eq0"]
    e = eq_by_subst(p, eqs)
    if e is not None:
        p2, v, t = e
        pc2 = [subst(c, {v: t}) for c in pc]
        return zero(p2, pc2, depth + 1, budget)
    if entails(pc, T.FALSE):
        return True
    # case distinctions inside the terms (bounds of sums, indices)
    for c in nested_inds(p):
        yes, no = entails(pc, c), entails(pc, c_not(c))
        if yes and no:
            return True
        if yes or no:
            return zero(replace_ind(p, c, yes), pc, depth + 1, budget)
        if depth < 8:
            for d in (c, c_not(c)):
                r = zero(replace_ind(p, c, d is c), pc + [d], depth + 1, budget)
                if r is not True:
                    return None
            return True
    r = check(relevant(pc, eq0(p)), eq0(p))
    if r is True:
        return True
    return False if r is False and not any(T.atom_int(a) is False and a.op not in ("sym",) for m, c in p.args for a, _ in m) else None


def _use(p, pc, c):
    return p
