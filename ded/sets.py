"""Finite sets of numbers and of tuples, built from symbolic sequences, and
lists that are filtered by a membership test on what they already hold.

A set is given by generators (m, cond, items): it holds items(k)[j] for every
k < m with cond(k).  ``sorted`` of a set is a strictly increasing sequence of
exactly its members.

Membership tests on a container that the loop builds (``if x in seen``) are
resolved by the schema *representatives*: the iterations that append are

    keep(k) = A(k) and not exists j < k. A(j) and R(j, k)

where A is the part of the condition free of the container and R(j, k) says
that what iteration j appends is what iteration k looks up.  The schema needs
R to be transitive on A (checked), because then an element related to a
skipped one is related to the one kept before it.
"""

import ast

from . import seqs, solver
from . import terms as T
from .terms import *
from .terms import atom
from .values import *


class GenSet:
    def __init__(self, gens):
        self.gens = tuple(gens)

    def map(self, f):
        """generators with every condition and item mapped"""
        return GenSet([(f(m), (lambda k, c=c: f(c(k))), (lambda k, it=it: tuple(f(x) for x in it(k)))) for m, c, it in self.gens])


class HavocSet:
    """what a set holds at the start of a generic iteration"""

    def __init__(self, name):
        self.name = name


class GenSeq(SeqVal):
    """the elements of a set, in an unspecified order"""

    def __init__(self, gens, kind="set"):
        SeqVal.__init__(self, T.fresh("size", "int"), self.no_item, kind=kind)
        self.gens = gens

    def no_item(self, k):
        raise Unsupported("order of the elements of a set")


class SortedSeq(SeqVal):
    """the elements of a set, ascending"""


def key_of(lib, x):
    """a scalar or a tuple of scalars"""
    if isinstance(x, tuple):
        x = x[1:] if x and x[0] == "tuple" else x
        return tuple(key_of(lib, y) for y in x)
    x = lib.I.deref(x)
    if lib.is_scalar(x):
        return lib.scalar(x)
    if isinstance(x, SymStr):
        return x.p
    if isinstance(x, str):
        return code(x)
    raise Unsupported("elements of a set")


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return FALSE
        return c_and(*[same(x, y) for x, y in zip(a, b)])
    return eqc(a, b)


def flat(key):
    return tuple(y for x in key for y in flat(x)) if isinstance(key, tuple) else (key,)


def in_havoc(name, key):
    return T.cond("inhv", name, flat(key))


def member(gs, key):
    out = []
    for m, c, items in gs.gens:
        v = T.fresh_index()
        k = atom_poly(v)
        out.append(T.exists(v, m, c_and(c(k), c_or(*[same(x, key) for x in items(k)]))))
    return c_or(*out)


def contains(lib, o, x):
    """x in a SetObj with symbolic content"""
    key = key_of(lib, x)
    out = [same(key_of(lib, y), key) for y in o.items]
    if isinstance(o.base, HavocSet):
        out.append(in_havoc(o.base.name, key))
    elif o.base is not None:
        out.append(member(o.base, key))
    return c_or(*out)


def of_seq(lib, it):
    """generators of the elements of a sequence"""
    from . import graphs
    if isinstance(it, tuple):
        return GenSet([(ONE, lambda k: TRUE, lambda k: tuple(key_of(lib, x) for x in it))] if it else [])
    if isinstance(it, (GenSeq, SortedSeq)):
        return it.gens
    if getattr(it, "is_havoc", False):
        raise Unsupported("elements of a list that is being built")
    if getattr(it, "parts", None):
        return GenSet([g for p in it.parts for g in of_seq(lib, p).gens])
    if getattr(it, "rows", None) is not None:
        return it.rows
    if isinstance(it, graphs.FilterSeq):
        def cond(k):
            c = it.cond(k)
            return c if it.facts is None else c_and(c, it.facts(k))
        return GenSet([(it.m, cond, lambda k: (key_of(lib, it.elem(k)),))])
    return GenSet([(it.n, lambda k: TRUE, lambda k: (key_of(lib, it.at(k)),))])


def entries(lib, t):
    """generators of the entries of a matrix with a few columns, read rows
    chosen by a mask as the rows with the condition"""
    q = t.shape[1].as_int()
    if q is None or q > 8:
        return None
    m, cond, src = t.shape[0], (lambda k: TRUE), t
    if len(t.args[1]) == 1:
        w, c = t.args[1][0]
        if c is ONE and len(w) == 2 and w[0][0].op == "selm" and w[0][1]:
            n, ix = w[0][0].args
            if not isinstance(ix, Tensor) and ix.op == "filter":
                bvs, m, body = ix.args
                cond = lambda k: subst(body, {bvs[0]: num(k)})
                src = T.tensor((n, t.shape[1]), {w[1:]: ONE})
    return GenSet([(m, cond, lambda k: tuple(elem(src, (num(k), num(j))) for j in range(q)))])


def make_set(lib, it):
    return lib.I.alloc(SetObj((), base=of_seq(lib, it)))


def elements(lib, o):
    if isinstance(o.base, HavocSet):
        raise Unsupported("elements of a set that is being built")
    gens = list(o.base.gens)
    if o.items:
        gens += of_seq(lib, o.items).gens
    return GenSeq(GenSet(gens))


def lex(a, b):
    """a < b"""
    if not isinstance(a, tuple):
        return lt(a, b)
    out = FALSE
    for x, y in reversed(list(zip(a, b))):
        out = c_or(lt(x, y), c_and(eqc(x, y), out))
    return out


def distinct(lib, it):
    """the elements of the sequence are pairwise different"""
    from . import graphs
    if isinstance(it, GenSeq):
        return True
    I = lib.I
    m, cond, elem_, facts = graphs.domain(it)
    j, k = atom_poly(T.fresh_index()), atom_poly(T.fresh_index())
    hyp = [le(ZERO, j), lt(j, k), lt(k, m)]
    if cond is not None:
        hyp += [cond(j), cond(k)]
    return I.entails_under(hyp, c_not(same(key_of(lib, elem_(j)), key_of(lib, elem_(k)))))


def sort(lib, it):
    """sorted(it)"""
    gens = of_seq(lib, it)
    if not distinct(lib, it):
        raise Unsupported("sorted list with repeated elements")
    return sorted_seq(lib, gens)


_N = [0]


def sorted_seq(lib, gens):
    I = lib.I
    shapes = set()
    v = T.fresh_index()
    for m, c, items in gens.gens:
        for x in items(atom_poly(v)):
            shapes.add(len(x) if isinstance(x, tuple) else 0)
            if any(isinstance(y, tuple) for y in (x if isinstance(x, tuple) else ())):
                raise Unsupported("sorted nested tuples")
            if not all(y.is_int() for y in flat(x)):
                shapes.add("real")
    if len(shapes) != 1 or "real" in shapes:
        raise Unsupported("sorted of these values")
    arity = shapes.pop()
    if local(gens):
        def no(k):
            raise Unsupported("element of a sorted set inside of a loop")
        s = SortedSeq(T.fresh("size", "int"), no)
        s.gens = gens
        return I.alloc(ListObj(seq=s))
    _N[0] += 1
    name = f"sorted!{_N[0]}"
    n = sym(f"size:{name}", "int")
    I.assume(le(ZERO, n))
    base = seqs.named_seq(name, n, arity)
    s = SortedSeq(n, base.at, key=base.key)
    s.gens = gens
    at = base.at
    solver.SEQ_FACTS[name] = (n, lambda k: member(gens, at(k)), lambda j, k: c_or(c_and(lt(j, k), lex(at(j), at(k))), c_and(lt(k, j), lex(at(k), at(j)))))
    return I.alloc(ListObj(seq=s))


def local(gens):
    """the set depends on the iteration that is being executed"""
    v = T.fresh_index()
    k = atom_poly(v)
    return any(depends((num(m), c(k), flat(items(k))), v) for m, c, items in gens.gens)


def depends(x, *bound):
    """x mentions a generic index, or something a loop carries"""
    return any(a.op == "inhv" or str(a.args[0]).startswith("hv!") or a in fv and str(a.args[0]).startswith("%i") for fv in (free(x),) for a in T.symbols(x) if a not in bound)


def extreme(lib, gens, name):
    """max / min of a set of integers"""
    I = lib.I
    if local(gens):
        raise Unsupported(name + " of a set inside of a loop")
    some = []
    for m, c, items in gens.gens:
        v = T.fresh_index()
        some.append(T.exists(v, m, c(atom_poly(v))))
    if not I.truth(c_or(*some)):
        raise PyRaise("ValueError", "empty")
    v = T.fresh_index()
    whole = all(x.is_int() for m, c, items in gens.gens for x in items(atom_poly(v)))
    out = T.fresh(name, "int" if whole else "real")
    I.assume(member(gens, out))
    for m, c, items in gens.gens:
        v = T.fresh_index()
        k = atom_poly(v)
        beyond = c_or(*[lt(out, x) if name == "max" else lt(x, out) for x in items(k)])
        I.assume(c_not(T.exists(v, m, c_and(c(k), beyond))))
    return out


# ------------------------------------------------------------------ loops
def havoc_atoms(x, out=None):
    out = {} if out is None else out
    if isinstance(x, Node):
        if x.op == "inhv":
            out[x] = True
        elif any(s.op == "inhv" for s in T.symbols(x)):
            for y in x.args:
                havoc_atoms(y, out)
    elif isinstance(x, tuple):
        for y in x:
            havoc_atoms(y, out)
    return list(out)


def added(obj):
    """what one path adds to a container: list of values"""
    if isinstance(obj, SetObj):
        if not isinstance(obj.base, HavocSet):
            raise Unsupported("set replaced in a loop")
        return list(obj.items)
    s = obj.base[1] if isinstance(obj, DictObj) else obj.seq
    if s is None:
        raise Unsupported("list replaced in a loop")
    parts = getattr(s, "parts", None) or (s,)
    if not getattr(parts[0], "is_havoc", False):
        raise Unsupported("list replaced in a loop")
    out = []
    for p in parts[1:]:
        q = p.n.as_int()
        if q is None:
            raise Unsupported("extend by a symbolic number")
        out += [p.at(num(j)) for j in range(q)]
    return out


def resolve(I, carried, steps, conds, others, names, kv, n, only):
    """conditions on the containers that the loop builds, in closed form.
    names: container name -> location.  Returns (map atom -> condition at kv,
    the path conditions)"""
    atoms = {}
    for c in list(conds) + others:
        havoc_atoms(c, atoms)
    for loc, st in steps.items():
        if st[0] in ("arr", "scalar", "cond"):
            havoc_atoms(st[1], atoms)
    if not atoms:
        return {}, conds
    lib = I.lib
    kp = atom_poly(kv)
    used = {a.args[0] for a in atoms}
    syms_ = {c[1] for c in carried.values() if c[1] is not None}
    if any(set(T.symbols(a.args[1])) & syms_ for a in atoms):
        raise Unsupported("membership of carried values")
    dom = TRUE if only is None else only
    adds = {}
    for nm in used:
        if nm not in names:
            raise Unsupported("membership in a container of an outer loop")
        loc = names[nm]
        kind, _, x0 = carried[loc]
        if kind == "set" and (x0.items or x0.base is not None) or kind != "set" and not empty(x0):
            raise Unsupported("membership in a container that is not empty at first")
        if steps[loc][0] not in ("list", "set"):
            raise Unsupported("container replaced in a loop")
        per = []
        for c, o in zip(conds, steps[loc][1]):
            its = [key_of(lib, x[0] if kind == "dict" else x) for x in added(o)]
            for it in its:
                if set(T.symbols(flat(it))) & syms_:
                    raise Unsupported("carried values in a container")
            if its:
                per.append((c, its))
        adds[nm] = per

    def at(x, k):
        return tuple(at(y, k) for y in x) if isinstance(x, tuple) else subst(x, {kv: k})

    def eq_items(items, key, j):
        return c_or(*[same(flat(at(it, j)), key) for it in items])

    known = {}      # container -> members added before iteration k

    def close(c):
        m = {}
        for a in havoc_atoms(c):
            if a.args[0] in known:
                m[a] = known[a.args[0]](kp, a.args[1])
        return subst(c, m) if m else c
    while True:
        todo = [nm for nm in used if nm not in known]
        done = False
        for nm in todo:
            cs = [close(c) for c, _ in adds[nm]]
            if any(havoc_atoms(c) for c in cs):
                continue

            def members(k, key, nm=nm, cs=cs):
                j = T.fresh_index()
                jp = atom_poly(j)
                return T.exists(j, k, c_and(subst(dom, {kv: jp}), c_or(*[c_and(subst(c, {kv: jp}), eq_items(its, key, jp)) for c, (_, its) in zip(cs, adds[nm])])))
            known[nm] = members
            done = True
        if not done:
            break
    rest = [nm for nm in used if nm not in known]
    conds = [close(c) for c in conds]
    if rest:
        total = {}
        for nm in rest:
            if len({tuple(map(flat, its)) for _, its in adds[nm]}) > 1:
                raise Unsupported("different elements on different paths")
            total[nm] = c_or(*[close(c) for c, _ in adds[nm]])
        c0 = total[rest[0]]
        for nm in rest[1:]:
            if total[nm] is not c0 and not (I.entails_under([c0], total[nm]) and I.entails_under([total[nm]], c0)):
                raise Unsupported("containers that are filled at different times")
        ats = havoc_atoms(c0)
        if any(a.args[0] not in rest for a in ats):
            raise Unsupported("membership conditions")
        off = {a: FALSE for a in ats}
        rng = [le(ZERO, kp), lt(kp, n)]
        A = c_and(dom, subst(c0, off))
        for a in ats:
            hit = subst(c0, {a: TRUE})
            if hit is not FALSE and not I.entails_under(rng + [hit], FALSE):
                raise Unsupported("membership conditions")
        items = {nm: adds[nm][0][1] for nm in rest}

        def A_(k):
            return subst(A, {kv: k})

        def R(j, k):
            return c_or(*[eq_items(items[a.args[0]], at(a.args[1], k), j) for a in ats])
        x, y, z = (atom_poly(T.fresh_index()) for _ in range(3))
        if I.entails_under([le(ZERO, x), lt(x, y), lt(y, n), A_(x), A_(y)], c_not(R(x, y))):
            keep = A
        else:
            if not I.entails_under([le(ZERO, x), lt(x, y), lt(y, z), lt(z, n), A_(x), A_(y), A_(z), R(x, y), R(y, z)], R(x, z)):
                raise Unsupported("membership relation that is not transitive")
            j = T.fresh_index()
            jp = atom_poly(j)
            keep = c_and(A, c_not(T.exists(j, kp, c_and(A_(jp), R(jp, kp)))))
            # every iteration with A is kept, or related to an earlier one
            # that is (the first one that is related to it)
            have = T.exists(j, kp + ONE, c_and(subst(keep, {kv: jp}), c_or(eqc(jp, kp), R(jp, kp))))
            fact = c_not(T.exists(kv, n, c_and(A, c_not(have))))
            solver.LEMMAS.add(fact)
            I.assume(fact)
        for nm in rest:
            def members(k, key, nm=nm):
                j = T.fresh_index()
                jp = atom_poly(j)
                return T.exists(j, k, c_and(subst(keep, {kv: jp}), eq_items(items[nm], key, jp)))
            known[nm] = members
        out = []
        for c in conds:
            ca = havoc_atoms(c)
            if ca and set(ca) == set(ats) and all(subst(c, {a: TRUE}) is FALSE for a in ats):
                c = c_and(subst(c, off), keep)
            else:
                if set(ca) == set(ats) and subst(c_not(c), {a: TRUE for a in ats}) is FALSE and all(subst(c_not(c), {a: TRUE}) is FALSE for a in ats):
                    c = c_not(c_and(subst(c_not(c), off), keep))
                c = close(c)
            out.append(c)
        conds = out
    m = {a: known[a.args[0]](kp, a.args[1]) for a in atoms}
    return m, conds


def empty(x0):
    return x0.items == () or x0.seq is not None and x0.seq.n is ZERO


def close_set(I, objs, conds, x0, kv, n, mks, only):
    """the set after the loop"""
    lib = I.lib
    gens = list(x0.base.gens) if x0.base is not None else []
    keys = [tuple(key_of(lib, x) for x in added(o)) for o in objs]
    if all(k == keys[0] for k in keys):
        objs, conds = objs[:1], [TRUE]
    sub = lambda x: tuple(sub(y) for y in x) if isinstance(x, tuple) else subst(x, mks) if mks else x
    put = lambda x, k: tuple(put(y, k) for y in x) if isinstance(x, tuple) else subst(x, {kv: num(k)})
    for o, c in zip(objs, conds):
        its = tuple(sub(key_of(lib, x)) for x in added(o))
        if not its:
            continue
        c = sub(c)
        if only is not None:
            c = c_and(only, c)
        gens.append((n, (lambda k, c=c: put(c, k)), (lambda k, its=its: tuple(put(x, k) for x in its))))
    # the same items on all paths
    if len(gens) > 1:
        v = atom_poly(T.fresh_index())
        groups = {}
        for g in gens:
            groups.setdefault((g[0], g[2](v)), []).append(g)
        gens = [(gs[0][0], (lambda k, gs=gs: c_or(*[g[1](k) for g in gs])), gs[0][2]) for gs in groups.values()]
    return SetObj(x0.items, base=GenSet(gens))
