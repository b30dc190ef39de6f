"""Loops: inductive closed forms.

A loop over a sequence of symbolic length is executed once for a generic
iteration k from a state in which everything the loop may change is replaced
by a fresh symbol.  This gives the step X(k+1) = F(X(k), k) of every carried
location.  The step is then matched against induction schemata; each schema
gives the closed form X(k) for every k (the loop invariant ``X = X(k)``):

  constant      F = X                               X(k) = X0
  overwrite     F free of X                         X(k) = [k=0] X0 + [k>0] F(k-1)
  accumulate    F = X + G(k)                        X(k) = X0 + sum_{i<k} G(i)
  store         F[v] = [v = t(k)] val(v,k) + [else] X[v],  t injective
                                                    X(k)[v] = [0<=t^-1(v)<k] val + [else] X0[v]
  mark          F[v] = [c(v,k)] val(v) + [else] X[v]  X(k)[v] = [exists i<k. c(v,i)] val + [else] X0[v]
  linear        F = M X (M constant)                X(k) = M^k X0
  append        F = X + [e(k)]                      X(k) = X0 + [e(0), ..., e(k-1)]
  recurrence    row k of F = V(k, X[k-1], X[k-2])   X(k)[v] = [0<=v<k] rec(V)(v) + [else] X0[v]
  last store    F[v] = [c(v,k)] val(v,k) + [else] X[v]
                                                    X(k)[v] = [c(v,k-1)] val(v,k-1) + [else] iterate(k-1)[v]
  iterate       anything else with a fixed shape    X(k) = iterate(k; F; X0)

The side conditions of the schema are checked on the normal forms; a loop
that matches none is outside the supported subset (undecided, not an alarm).
"""

import ast

from . import terms as T
from .terms import *
from .terms import atom, t_base
from .values import *


import os
DEBUG = os.environ.get("DED_DEBUG")


class Log:
    def __init__(self):
        self.touched = set()
        self.rand = False
        self.streams = set()


def assigned_names(body):
    out = set()
    for st in body:
        for n in walk_scope(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


def walk_scope(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        if isinstance(n, ast.FunctionDef):
            yield ast.Name(n.name, ast.Store())
        return
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        return
    for c in ast.iter_child_nodes(n):
        yield from walk_scope(c)


def run_for(I, s, env):
    v = I.eval(s.iter, env)
    if isinstance(I.deref(v), IterObj) and not isinstance(s.iter, ast.Call) \
            and any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(s)):
        raise Unsupported("a loop that leaves an iterator half way")
    it = I.lib.iterate(v)
    if isinstance(it, SeqVal):
        k = it.n.as_int()
        if k is not None and k <= 4:
            it = tuple(it.at(num(j)) for j in range(k))
    if isinstance(it, tuple):
        unroll(I, s, env, it)
    else:
        symbolic(I, s, env, it)


def unroll(I, s, env, items):
    from .interp import BreakSig, ContinueSig
    for x in items:
        I.assign(s.target, x, env)
        try:
            I.exec_block(s.body, env)
        except ContinueSig:
            continue
        except BreakSig:
            return
    I.exec_block(s.orelse, env)


class HavocSeq(SeqVal):
    pass


def symbolic(I, s, env, it):
    from . import graphs, sets
    filtered = isinstance(it, graphs.FilterSeq) or getattr(it, "facts", None) is not None
    n = graphs.domain(it)[0]
    d = I.envdict(env.id)
    tnames = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    names = assigned_names(s.body) | tnames
    if not filtered and not I.branch(lt(ZERO, n)):
        I.exec_block(s.orelse, env)
        return
    pre_env = dict(d)
    pre_heap = dict(I.st.heap)
    pre_rand = I.st.rand
    kv = T.fresh_index()
    kp = atom_poly(kv)
    hn, ho = set(), set()   # havocked names, heap ids
    hr = False              # random numbers are drawn
    hs = set()              # from seeded generators
    pre_streams = dict(I.st.streams)
    counters = {}           # name -> value in iteration k, for constant steps
    reals = set()           # integers that do not stay integers
    while True:
        _HV[0] += 1
        rid = _HV[0]
        hv = {}
        fresh_refs = {}

        def body():
            from .interp import ContinueSig
            I.assume(le(ZERO, kp))
            I.assume(lt(kp, n))
            RID.append(rid)
            e = I.envdict(env.id)
            for nm in names - set(pre_env):
                e.pop(nm, None)
            for i in sorted(ho):
                I.st.heap[i] = havoc_obj(I, i, pre_heap[i], hv)
                for v in I.views.get(i, ()):
                    if v in I.st.heap:
                        I.st.heap[v] = DeadView()
            for nm in sorted(hn):
                e[nm] = havoc_name(I, nm, pre_env[nm], pre_heap, hv, fresh_refs)
                if nm in counters:
                    e[nm] = counters[nm]
            if hr:
                p = sym(hv_name((RID[-1], ("rand",))), "int")
                hv[("rand",)] = ("scalar", p.single_atom(), pre_rand if isinstance(pre_rand, Poly) else ZERO)
                I.st.rand = p
            for q in sorted(hs, key=lambda a: a.id):
                p = sym(hv_name((RID[-1], ("stream", q))), "int")
                hv[("stream", q)] = ("scalar", p.single_atom(), pre_streams[q])
                I.st.streams[q] = p
            RID.pop()
            I.assign(s.target, graphs.generic(I, it, kp) if filtered else it.at(kp), env)
            try:
                I.exec_block(s.body, env)
            except ContinueSig:
                pass
        log = Log()
        I.logs.append(log)
        REALS.append(reals)
        try:
            paths = I.explore(body)
        finally:
            I.logs.pop()
            REALS.pop()
        new_real = set()
        for loc, h in hv.items():
            if h[0] == "scalar" and loc[0] == "name" and loc[1] not in counters and T.atom_poly(h[1]).is_int():
                for p in paths:
                    if p[0] not in ("raise", "break", "return"):
                        try:
                            v = read(I, env, loc, p[2])
                        except KeyError:
                            continue
                        if isinstance(v, Poly) and not v.is_int():
                            new_real.add(loc)
        if new_real:
            reals |= new_real
            continue
        new_r = log.rand and not hr
        new_s = {q for q in log.streams if q in pre_streams} - hs
        new_o = {i for i in log.touched if i in pre_heap} - ho
        new_n = set()
        for kind, val, st, conds in paths:
            if kind == "break" or kind == "return":
                raise Unsupported(f"{kind} in a loop of symbolic length")
            if kind == "raise":
                continue
            e = st.envs[env.id] if env.id in st.envs else I.envdict(env.id)
            for nm in names & set(pre_env):
                if nm not in hn and (nm not in e or not same_binding(e[nm], pre_env[nm])):
                    new_n.add(nm)
        if not new_o and not new_n and not new_r and not new_s:
            new_c = {} if counters or filtered else find_counters(I, env, hv, paths, pre_env, kp)
            if not new_c:
                break
            # once more, with the values of the counters in iteration k
            counters = new_c
            continue
        hr = hr or new_r
        hs |= new_s
        ho |= new_o
        hn |= new_n
    if log.touched & {r.id for r in fresh_refs.values()}:
        raise Unsupported("in-place write to a rebound name")

    # ---------------------------------------------------------- raises
    good, bad = [], []
    for p in paths:
        (bad if p[0] == "raise" else good).append(p)
    if not good:
        raise Unsupported("loop without a normal iteration")
    # ---------------------------------------------------------- steps
    conds = [c_and(*p[3]) for p in good]
    steps = {}
    carried = dict(hv)  # loc -> (kind, symbol, initial)
    for loc in carried:
        steps[loc] = merged(I, env, loc, good, conds)
    only = graphs.domain(it)[1]
    if only is not None:
        only = only(kp)
    elif filtered:
        only = TRUE
    where = {hv_name((rid, loc)): loc for loc in carried if carried[loc][0] in ("seq", "dict", "set")}
    inm, conds = sets.resolve(I, carried, steps, conds, [c_and(*p[3]) for p in bad], where, kv, n, only)
    if inm:
        for loc in carried:
            steps[loc] = merged(I, env, loc, good, conds)
            if steps[loc][0] in ("arr", "scalar", "cond"):
                steps[loc] = (steps[loc][0], subst(steps[loc][1], inm)) + steps[loc][2:]
    known = {("name", nm): v for nm, v in counters.items()}
    extremes(I, carried, steps, it, kv, n, known)
    closed = solve(I, carried, steps, kv, n, conds, known)

    if DEBUG:
        print("LOOP", getattr(s, "lineno", 0), {l: (c[0], c[1]) for l, c in carried.items()})
        for l in closed:
            print("   ", l, T.show(steps[l][1])[:300] if steps[l][0] != "list" else "list", "  =>  ", T.show(closed[l])[:500] if isinstance(closed[l], Node) else closed[l])
    # state substitution: havoc symbol -> closed form at k
    def close(k):
        m = {}
        for loc, (kind, symb, x0) in carried.items():
            if symb is not None and loc in closed:
                m[symb] = subst(closed[loc], {kv: k})
        for a, c in inm.items():
            m[a] = subst(c, {kv: k})
        return m
    mk = close(kp)
    if bad:
        ets = {p[1].etype for p in bad}
        cs = [subst(c_and(*p[3]), mk) for p in bad]
        any_bad = T.exists(kv, n, c_or(*cs))
        if any_bad is not FALSE and I.branch(any_bad):
            if len(ets) > 1:
                raise Unsupported("different exceptions in a loop")
            raise PyRaise(bad[0][1].etype, bad[0][1].msg)
    # the iterations that take place are not a range: only appends
    if filtered and any(c[0] not in ("seq", "dict", "set") for c in carried.values()):
        raise Unsupported("loop over a filtered sequence")
    # ------------------------------------------------------- exit state
    last = n - ONE
    m_last = dict(close(last))
    m_last[kv] = last
    m_exit = close(n)
    I.st.rand = pre_rand
    if hr:
        if ("rand",) not in closed:
            raise Unsupported("random numbers drawn in a loop")
        I.st.rand = subst(closed[("rand",)], {kv: n})
    I.st.streams = dict(pre_streams)
    for q in hs:
        if ("stream", q) not in closed:
            raise Unsupported("random numbers drawn in a loop")
        I.st.streams[q] = subst(closed[("stream", q)], {kv: n})
    d = I.envdict(env.id)
    seen = {}
    # temporaries: value of the last iteration
    temps = {}
    for nm in names:
        if nm in hn and ("name", nm) in closed:
            continue
        vals = []
        for p in good:
            e = p[2].envs.get(env.id, None)
            e = I.envdict(env.id) if e is None else e
            vals.append(e.get(nm, UNDEF))
        if nm in pre_env and nm not in hn:
            continue
        temps[nm] = vals
    alts = []
    tn = sorted(temps)
    if filtered:
        for nm in tn:
            d[nm] = UNDEF
        tn = []
    for j, p in enumerate(good):
        alts.append((conds[j], tuple(temps[nm][j] for nm in tn), p[2]))
    for i in range(len(tn)):
        try:
            v, heap = I.merge_values([(c, vs[i], st) for c, vs, st in alts])
        except Unsupported:
            d[tn[i]] = UNDEF
            continue
        if isinstance(v, Undef):
            d[tn[i]] = UNDEF
            continue
        # bring the needed heap objects over, then substitute
        for k, o in heap.items():
            if k not in I.st.heap and k not in pre_heap:
                I.st.heap[k] = o
        d[tn[i]] = late_subst(I, v, m_last, seen, carried)
    # carried locations
    for loc, (kind, symb, x0) in carried.items():
        val = closed.get(loc)
        if loc[0] == "name":
            if val is None:
                continue
            final = subst(val, {kv: n}) if not isinstance(val, SeqVal) else close_seq(I, val, kv, n, mk, carried, only, it)
            d[loc[1]] = rewrap(I, kind, final, pre_env[loc[1]], pre_heap)
        elif loc[0] == "obj":
            o = pre_heap[loc[1]]
            if kind == "seq":
                final = close_seq(I, val, kv, n, mk, carried, only, it)
                I.store(Ref(loc[1]), ListObj(seq=final))
            elif kind == "dict":
                final = close_seq(I, val, kv, n, mk, carried, only, it)
                I.store(Ref(loc[1]), DictObj(base=(steps[loc][3], final)))
            elif kind == "set":
                I.store(Ref(loc[1]), sets.close_set(I, steps[loc][1], conds, x0, kv, n, mk, only))
            else:
                final = subst(val, {kv: n})
                I.store(Ref(loc[1]), Arr(final, o.kind, o.dtype))
        elif loc[0] in ("attr", "item"):
            if loc[0] == "attr":
                o = I.st.heap[loc[1]]
                attrs = dict(o.attrs)
                attrs[loc[2]] = exit_value(I, env, loc, kind, val, good, conds, m_last, seen, kv, n, mk, carried, pre_heap, x0)
                I.store(Ref(loc[1]), Inst(o.cls, attrs, o.name))
            else:
                o = I.st.heap[loc[1]]
                items = dict(o.items)
                items[loc[2]] = exit_value(I, env, loc, kind, val, good, conds, m_last, seen, kv, n, mk, carried, pre_heap, x0)
                I.store(Ref(loc[1]), DictObj(items=items))
    I.loop_obligations.append((getattr(s, "lineno", 0), sorted(str(x) for x in closed)))
    I.exec_block(s.orelse, env)


def late_subst(I, v, m, seen, carried):
    return I.subst_value(v, m, seen)


def exit_value(I, env, loc, kind, val, good, conds, m_last, seen, kv, n, mk, carried, pre_heap, x0):
    if val is not None and not isinstance(val, SeqVal):
        return rewrap(I, kind, subst(val, {kv: n}), x0, pre_heap)
    if kind == "temp":
        v, heap = I.merge_values([(c, read(I, env, loc, p[2]), p[2]) for c, p in zip(conds, good)])
        for k, o in heap.items():
            if k not in I.st.heap and k not in pre_heap:
                I.st.heap[k] = o
        return I.subst_value(v, m_last, seen)
    raise Unsupported("carried attribute")


def rewrap(I, kind, final, old, heap):
    if kind == "scalar":
        return final
    if kind == "cond":
        return I.lib.as_value(final)
    if kind == "arr":
        o = heap[old.id]
        return I.arr(final, o.kind, "float" if o.dtype == "int" else o.dtype)
    if kind == "seq":
        return I.alloc(ListObj(seq=final))
    raise Unsupported("carried " + kind)


def same_binding(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    return False


_HV = [0]
_NAMES = {}
RID = []


def hv_name(key):
    """one symbol per location and round (all paths of a round share it)"""
    if key not in _NAMES:
        _HV[0] += 1
        _NAMES[key] = f"hv!{_HV[0]}"
    return _NAMES[key]


REALS = [()]   # carried scalars that are integers before the loop only


def fresh_like(I, loc, v, heap, hv):
    """(value standing for v at the start of a generic iteration)"""
    nm = hv_name((RID[-1], loc))
    if isinstance(v, bool) or isinstance(v, Cond):
        c = T.cond("bsym", nm)
        hv[loc] = ("cond", c, T.TRUE if v is True else T.FALSE if v is False else v)
        return c
    if isinstance(v, Poly):
        s = sym(nm, "int" if v.is_int() and loc not in REALS[-1] else "real")
        hv[loc] = ("scalar", s.single_atom(), v)
        return s
    if isinstance(v, Ref):
        o = heap[v.id]
        if isinstance(o, Arr):
            hv[loc] = ("arr", None, o.t)
            t = arr_sym(nm, o, loc, hv)
            return I.alloc(Arr(t, o.kind, o.dtype))
        if isinstance(o, ListObj):
            hv[loc] = ("seq", None, o)
            return I.alloc(ListObj(seq=havoc_seq(nm)))
    if v is None or isinstance(v, (Undef, str, Opaque, tuple, Ref)):
        hv[loc] = ("temp", None, v)
        return UNDEF
    raise Unsupported(f"loop carries {type(v).__name__}")


def arr_sym(nm, o, loc, hv):
    t = o.t
    if t.ndim == 0 or t.ndim > 2:
        b = atom("vsym" if t.ndim != 2 else "msym", nm, t.shape, "real")
    elif t.ndim == 1:
        b = atom("vsym", nm, t.shape, "int" if o.dtype == "int" else "real")
    else:
        b = atom("msym", nm, t.shape)
    hv[loc] = ("arr", b, t)
    return t_base(b)


def havoc_seq(nm):
    def at(k):
        raise Unsupported("list read while it is being built")
    s = HavocSeq(sym(nm + ":len", "int"), at)
    s.is_havoc = True
    s.name = nm
    return s


def havoc_name(I, nm, v, heap, hv, refs):
    r = fresh_like(I, ("name", nm), v, heap, hv)
    if isinstance(r, Ref):
        refs[nm] = r
    return r


def havoc_obj(I, i, o, hv):
    from . import sets
    nm = hv_name((RID[-1], ("obj", i)))
    if isinstance(o, Arr):
        return Arr(arr_sym(nm, o, ("obj", i), hv), o.kind, o.dtype)
    if isinstance(o, ListObj):
        hv[("obj", i)] = ("seq", None, o)
        return ListObj(seq=havoc_seq(nm))
    if isinstance(o, Inst):
        attrs = {}
        for k, v in o.attrs.items():
            if isinstance(v, Ref):
                attrs[k] = v      # checked below: rebinding an attribute is unsupported
            else:
                attrs[k] = v
        raise Unsupported("object attributes assigned in a loop")
    if isinstance(o, DictObj):
        if o.items or o.items is None and not isinstance(o.base, tuple):
            raise Unsupported("dictionary updated in a loop of symbolic length")
        hv[("obj", i)] = ("dict", None, ListObj(items=()) if o.items is not None else ListObj(seq=o.base[1]))
        return DictObj(base=("comp" if o.items is not None else o.base[0], havoc_seq(nm)))
    if isinstance(o, SetObj):
        if isinstance(o.base, sets.HavocSet):
            raise Unsupported("set built in nested loops")
        hv[("obj", i)] = ("set", None, o)
        return SetObj((), base=sets.HavocSet(nm))
    raise Unsupported(f"loop changes {type(o).__name__}")


def read(I, env, loc, st):
    if loc[0] == "rand":
        return st.rand
    if loc[0] == "stream":
        return st.streams[loc[1]]
    if loc[0] == "name":
        e = st.envs[env.id] if env.id in st.envs else I.envdict(env.id)
        return e.get(loc[1], UNDEF)
    if loc[0] == "obj":
        return st.heap[loc[1]]
    raise Unsupported("location")


def merged(I, env, loc, good, conds):
    vals = [read(I, env, loc, p[2]) for p in good]
    if loc[0] == "obj" or any(isinstance(v, Ref) for v in vals):
        objs = [v if loc[0] == "obj" else p[2].heap.get(v.id) if isinstance(v, Ref) else None for v, p in zip(vals, good)]
        if all(isinstance(o, Arr) for o in objs):
            if any(o.t.shape != objs[0].t.shape for o in objs):
                return ("shape", None)
            return ("arr", I.mix_t(conds, [o.t for o in objs]), objs)
        if all(isinstance(o, DictObj) and isinstance(o.base, tuple) for o in objs):
            tags = {o.base[0] for o in objs if not getattr(o.base[1], "is_havoc", False)}
            if len(tags) > 1:
                raise Unsupported("stores and defaults in a dictionary")
            return ("list", [ListObj(seq=o.base[1]) for o in objs], [p[2] for p in good], tags.pop() if tags else "comp")
        if all(isinstance(o, SetObj) for o in objs):
            return ("set", objs, [p[2] for p in good])
        if all(isinstance(o, ListObj) for o in objs):
            return ("list", objs, [p[2] for p in good])
        return ("other", vals)
    if all(isinstance(v, (bool, Cond)) for v in vals):
        return ("cond", c_or(*[c_and(c, T.TRUE if v is True else T.FALSE if v is False else v) for c, v in zip(conds, vals)]))
    if all(isinstance(v, Poly) for v in vals):
        return ("scalar", I.mix(conds, vals))
    return ("other", vals)


# --------------------------------------------------------------- solving
def find_counters(I, env, hv, paths, pre_env, kp):
    """integer names every iteration adds the same constant to"""
    out = {}
    for loc, (kind, symb, x0) in hv.items():
        if loc[0] != "name" or kind != "scalar" or not isinstance(x0, Poly) or not x0.is_int():
            continue
        cs = set()
        for p in paths:
            if p[0] == "raise":
                continue
            v = p[2].envs[env.id].get(loc[1]) if env.id in p[2].envs else None
            cs.add(v - atom_poly(symb) if isinstance(v, Poly) else None)
        c = cs.pop() if len(cs) == 1 else None
        if c is not None and c is not ZERO and c.const() is not None:
            out[loc[1]] = x0 + c * kp
    return out


def solve(I, carried, steps, kv, n, conds=(), known=None):
    closed = dict(known or {})
    todo = [l for l, (kind, symb, x0) in carried.items() if symb is not None and l not in closed]
    for loc, (kind, symb, x0) in carried.items():
        if kind in ("seq", "dict"):
            closed[loc] = append_form(I, carried, steps[loc], x0, kv, conds)
    symof = {l: carried[l][1] for l in todo}
    while todo:
        m = {symof[l]: closed[l] for l in closed if l in symof}
        progress = False
        for l in list(todo):
            kind, symb, x0 = carried[l]
            st = steps[l]
            if st[0] in ("shape", "other"):
                todo.remove(l)      # overwritten by something else: a temporary
                continue
            m = {symof[x]: closed[x] for x in closed if x in symof}
            F = subst(st[1], m)
            others = {symof[x] for x in todo if x != l}
            if mentions(F, others):
                continue
            r = closed_form(I, kind, symb, x0, F, kv, n)
            if r is None:
                continue
            closed[l] = r
            todo.remove(l)
            progress = True
        if not progress and todo:
            m = {symof[l]: closed[l] for l in closed if l in symof}
            group = list(todo)
            kinds = [carried[l][0] for l in group]
            if any(k not in ("scalar", "arr") for k in kinds):
                raise Unsupported("loop recursion")
            bodies = [subst(steps[l][1], m) for l in group]
            if any(k == "arr" and b.shape != carried[l][2].shape for k, b, l in zip(kinds, bodies, group)):
                raise Unsupported("loop changes shapes")
            from . import theory
            for j, l in enumerate(group):
                closed[l] = theory.iterate(atom_poly(kv), kv, [symof[x] for x in group], bodies, [carried[x][2] for x in group], j)
                closed[l] = bound_index(closed[l], kv)
            todo = []
    return closed


def extremes(I, carried, steps, it, kv, n, known):
    """running maxima and minima: acc = max(acc, e(k)), in whatever form; the
    closed form is a fresh sequence, given by what characterises it"""
    from . import sets
    for loc, (kind, symb, x0) in carried.items():
        if loc in known or kind != "scalar" or loc[0] != "name" or steps[loc][0] != "scalar":
            continue
        F = steps[loc][1]
        for name, low in (("max", True), ("min", False)):
            e = at_infinity(F, symb, low)
            if e is None or symb in T.symbols(e) or e is ZERO:
                continue
            if any(c[1] is not None and c[1] in T.symbols(e) for c in carried.values()):
                continue
            X = atom_poly(symb)
            better = lt(X, e) if low else lt(e, X)
            inside = [le(ZERO, atom_poly(kv)), lt(atom_poly(kv), n)]
            if not I.entails_under(inside + [better], eqc(F, e)) or not I.entails_under(inside + [c_not(better)], eqc(F, X)):
                continue
            if sets.depends((num(x0), num(n)) + (e,), kv):
                raise Unsupported("running " + name + " inside of a loop")
            nm = T.fresh(name, "int").single_atom()
            whole = e.is_int() and x0.is_int()
            f = (lambda k: T.fn("iseq", atom("seqf", nm, 0), (num(k),))) if whole else (lambda k: T.fn("rseq", nm, num(k)))
            known[loc] = f(atom_poly(kv))
            worse = (lambda a, b: lt(a, b)) if low else (lambda a, b: lt(b, a))
            at = lambda j: subst(e, {kv: num(j)})
            end = f(n)
            j = T.fresh_index()
            I.assume(c_not(worse(end, x0)))
            I.assume(c_not(T.exists(j, n, worse(end, at(atom_poly(j))))))
            j = T.fresh_index()
            I.assume(c_or(eqc(end, x0), T.exists(j, n, eqc(end, at(atom_poly(j))))))
            start = ZERO
            for part in getattr(it, "parts", None) or (it,):
                I.assume(c_or(c_not(lt(start, n)), c_not(worse(end, at(start)))))
                start = start + part.n
            if any(l != loc and symb in T.symbols(st[1]) for l, st in steps.items() if len(st) > 1 and isinstance(st[1], (Node, tuple))) or steps_mention(steps, loc, symb):
                k, j = T.fresh_index(), T.fresh_index()
                kp, jp = atom_poly(k), atom_poly(j)
                I.assume(c_not(T.exists(k, n, c_or(worse(f(kp), x0), T.exists(j, kp, worse(f(kp), at(jp)))))))
                I.assume(c_not(T.exists(k, n, c_not(c_or(eqc(f(kp), x0), T.exists(j, kp, eqc(f(kp), at(jp))))))))
            break


def steps_mention(steps, loc, symb):
    for l, st in steps.items():
        if l != loc:
            for x in st[1:]:
                try:
                    if symb in T.symbols(x):
                        return True
                except Exception:
                    return True
    return False


def at_infinity(F, symb, low):
    """F for a very small (large) value of the symbol, in its conditions"""
    from .solver import assume_cond

    def val(c):
        if not mentions(c, {symb}):
            return c
        if c.op in ("and", "or"):
            xs = [val(x) for x in c.args]
            return None if None in xs else (c_and if c.op == "and" else c_or)(*xs)
        if c.op == "not":
            x = val(c.args[0])
            return None if x is None else c_not(x)
        if c.op in ("lt0", "eq0"):
            p = at_infinity(c.args[0], symb, low)
            if p is None:
                return None
            if symb not in T.symbols(p):
                return lt0(p) if c.op == "lt0" else T.eq0(p)
            q = coefficient(p, symb)
            if q is None or q[0].const() is None or q[0] is ZERO:
                return None
            if c.op == "eq0":
                return T.FALSE
            return T.TRUE if (q[0].const() > 0) == low else T.FALSE
        return None

    for _ in range(40):
        found = None
        for m, k in F.args:
            for a, p in m:
                if a.op == "ind" and mentions(a, {symb}):
                    found = a.args[0]
        if found is None:
            return F
        v = val(found)
        if v is None:
            return None
        one, zero = assume_cond(F, found, True), assume_cond(F, found, False)
        i = T.ind(v)
        F = i * one + (ONE - i) * zero
    return None


def bound_index(t, kv):
    return t


def mentions(x, syms_):
    if not syms_:
        return False
    if not hasattr(mentions, "b"):
        pass
    s = T.symbols(x)
    return any(y in s or (isinstance(y, Cond) and occurs_cond(x, y)) for y in syms_)


def occurs_cond(x, c):
    if x is c:
        return True
    if isinstance(x, Node):
        return any(occurs_cond(y, c) for y in x.args)
    if isinstance(x, tuple):
        return any(occurs_cond(y, c) for y in x)
    return False


def closed_form(I, kind, symb, x0, F, kv, n):
    kp = atom_poly(kv)
    if kind == "cond":
        return cond_form(symb, x0, F, kv)
    X = atom_poly(symb) if kind == "scalar" else t_base(symb)
    if F is X:
        return x0
    if kind == "scalar":
        return scalar_form(symb, X, x0, F, kv)
    if F.shape != x0.shape:
        return None
    if symb not in T.symbols(F):
        # overwritten: the value of the previous iteration
        prev = subst(F, {kv: kp - 1})
        i = ind(lt(ZERO, kp))
        return T.t_add(T.t_scale(prev, i), T.t_scale(x0, ONE - i))
    G = T.t_add(F, T.t_scale(X, num(-1)))
    if symb not in T.symbols(G):
        j = T.fresh_index()
        return T.t_add(x0, T.sumT(j, kp, subst(G, {kv: atom_poly(j)})))
    r = linear_form(symb, x0, F, kv)
    if r is not None:
        return r
    return store_form(I, symb, X, x0, F, kv, n)


def scalar_form(symb, X, x0, F, kv):
    kp = atom_poly(kv)
    if symb not in T.symbols(F):
        i = ind(lt(ZERO, kp))
        return i * subst(F, {kv: kp - 1}) + (ONE - i) * x0
    G = F - X
    if symb not in T.symbols(G):
        j = T.fresh_index()
        return x0 + T.bigsum(j, kp, subst(G, {kv: atom_poly(j)}))
    # X * a with a constant: power
    a = coefficient(F, symb)
    if a is not None and a[1] is ZERO and kv not in free(a[0]):
        return x0 * T.power(a[0], kp)
    # [c(k)] v + [not c(k)] X with v constant: set once
    if a is not None:
        c = indicator(ONE - a[0])
        if c is not None and a[1].args and kv not in free(strip(a[1], c)):
            v = strip(a[1], c)
            j = T.fresh_index()
            e = ind(T.exists(j, kp, subst(c, {kv: atom_poly(j)})))
            return e * v + (ONE - e) * x0
    return None


def cond_form(symb, x0, F, kv):
    kp = atom_poly(kv)
    if F is symb:
        return x0
    if not occurs_cond(F, symb):
        return None
    f0 = set_cond(F, symb, FALSE)
    f1 = set_cond(F, symb, TRUE)
    j = T.fresh_index()
    if f1 is TRUE:
        return c_or(x0, T.exists(j, kp, subst(f0, {kv: atom_poly(j)})))
    if f0 is FALSE:
        return c_and(x0, c_not(T.exists(j, kp, subst(c_not(f1), {kv: atom_poly(j)}))))
    return None


def set_cond(c, b, v):
    if c is b:
        return v
    if c.op == "and":
        return c_and(*[set_cond(x, b, v) for x in c.args])
    if c.op == "not":
        return c_not(set_cond(c.args[0], b, v))
    return c


def coefficient(F, a):
    """F = A*a + B with A, B free of a"""
    A = B = ZERO
    for m, c in F.args:
        e = dict(m).get(a, 0)
        rest = poly({tuple(x for x in m if x[0] is not a): c})
        if a in T.symbols(rest):
            return None
        if e == 1:
            A = A + rest
        elif e == 0:
            B = B + poly({m: c})
        else:
            return None
    return A, B


def indicator(p):
    """condition c with ind(c) = p, if p is a product of (negated) indicators"""
    if p is ONE:
        return TRUE
    if p is ZERO:
        return FALSE
    if len(p.args) == 1:
        m, c = p.args[0]
        if c == 1 and all(a.op == "ind" and e == 1 for a, e in m):
            return c_and(*[a.args[0] for a, _ in m])
    inds_ = []
    for m, c in p.args:
        for a, e in m:
            if a.op == "ind" and a not in inds_:
                inds_.append(a)
    if not inds_ or len(inds_) > 6:
        return None
    # factor: every indicator occurs as [c] or 1-[c]
    from .solver import assume_cond
    a = inds_[0]
    p1, p0 = assume_cond(p, a.args[0], True), assume_cond(p, a.args[0], False)
    c1, c0 = indicator(p1), indicator(p0)
    if c1 is None or c0 is None:
        return None
    return c_or(c_and(a.args[0], c1), c_and(c_not(a.args[0]), c0))


def strip(p, c):
    """p under the assumption c"""
    from .solver import assume_cond
    for x in c.args if c.op == "and" else (c,):
        if x.op == "not":
            p = assume_cond(p, x.args[0], False)
        else:
            p = assume_cond(p, x, True)
    return p


def linear_form(symb, x0, F, kv):
    """F = M X with constant M"""
    kp = atom_poly(kv)
    M = None
    acc = {}
    n = F.shape[0]
    for w, c in F.args[1]:
        if not w or w[-1] != (symb, False) or symb in T.symbols(w[:-1]) or kv in free(w) or kv in free(c) or symb in T.symbols(c):
            return None
        acc[w[:-1]] = acc.get(w[:-1], ZERO) + c
    M = T.tensor((n, n), acc)
    return T.matmul(T.mpow(M, kp), x0)


def store_form(I, symb, X, x0, F, kv, n):
    kp = atom_poly(kv)
    vs = [T.fresh_index() for _ in F.shape]
    p = [atom_poly(v) for v in vs]
    e = elem(F, p)
    x = elem(X, p).single_atom()
    ab = affine(e, x)
    if ab is None:
        return None
    A, B = ab
    if symb in T.symbols(A):
        return None
    if symb in T.symbols(B):
        return recurrence_form(I, symb, x0, F, kv, vs, p, A, B)
    # F = (1 - [q] R) X + [q] B with q: k = t(v), so every entry is stored to
    # in at most one iteration
    from .solver import assume_cond, inds
    P = ONE - A
    for q in inds(P):
        if q.op != "eq0":
            continue
        t = T.solve_for(q.args[0], kv)
        if t is None or assume_cond(P, q, False) is not ZERO or assume_cond(B, q, False) is not ZERO:
            continue
        i = ind(c_and(le(ZERO, t), lt(t, kp)))
        R, V = subst(assume_cond(P, q, True), {kv: t}), subst(assume_cond(B, q, True), {kv: t})
        x = elem(x0, p)
        return T.lam(vs, F.shape, i * V + x - i * R * x)
    c = indicator(P)
    if c is None:
        return None
    if A is ONE:
        j = T.fresh_index()
        return T.t_add(x0, T.lam(vs, F.shape, T.bigsum(j, kp, subst(B, {kv: atom_poly(j)}))))
    # B must vanish where X is kept
    from .solver import zero
    facts = [le(ZERO, q) for q in p] + [lt(q, s) for q, s in zip(p, F.shape)] + [le(ZERO, kp), lt(kp, n)]
    if zero(B, I.st.pc + facts + [c_not(c)]) is not True:
        return None
    # c holds for at most one k: solvable equation among the conjuncts
    parts = list(c.args) if c.op == "and" else [c]
    for q in parts:
        if q.op == "eq0":
            t = T.solve_for(q.args[0], kv)
            if t is None:
                continue
            rest = c_and(*[x for x in parts if x is not q])
            cc = c_and(le(ZERO, t), lt(t, kp), subst(rest, {kv: t}))
            val = subst(strip(B, c) if False else strip_inds(B, q), {kv: t})
            i = ind(cc)
            return T.lam(vs, F.shape, i * val + (ONE - i) * elem(x0, p))
    val = ONE if B is P else num(-1) if B is -P else strip(B, c)
    if kv not in free(val):
        j = T.fresh_index()
        i = ind(T.exists(j, kp, subst(c, {kv: atom_poly(j)})))
        return T.lam(vs, F.shape, i * val + (ONE - i) * elem(x0, p))
    if c.op == "bsym":
        return None
    # unfold the last iteration
    from . import theory
    old = elem(theory.iterate(kp - 1, kv, [symb], [F], [x0], 0), p)
    one = ind(lt(ZERO, kp))
    cl, vl = ind(subst(c, {kv: kp - 1})), subst(val, {kv: kp - 1})
    return T.lam(vs, F.shape, one * (cl * vl + (ONE - cl) * old) + (ONE - one) * elem(x0, p))


def affine(F, a):
    """F = A*a + B with A free of a (B may mention its base elsewhere)"""
    A = B = ZERO
    for m, c in F.args:
        e = dict(m).get(a, 0)
        if e == 1:
            A = A + poly({tuple(x for x in m if x[0] is not a): c})
        elif e == 0:
            B = B + poly({m: c})
        else:
            return None
    return A, B


def recurrence_form(I, symb, x0, F, kv, vs, p, A, B):
    """row k is computed from the rows k-1 and k-2"""
    from . import theory
    from .solver import assume_cond, inds
    kp = atom_poly(kv)
    P = ONE - A
    q = eqc(p[0], kp)
    if q not in inds(P) or indicator(P) is not q or assume_cond(B, q, False) is not ZERO:
        return None
    V = subst(assume_cond(B, q, True), {vs[0]: kp})
    shape = F.shape[1:]
    _HV[0] += 1
    nm = f"row!{_HV[0]}"
    if shape == ():
        rows = [T.atom("sym", f"{nm}:{j}", "real") for j in (1, 2, 0)]
        at = lambda r, idx: atom_poly(r)
    else:
        op = "vsym" if len(shape) == 1 else "msym"
        rows = [T.atom(op, f"{nm}:{j}", shape) for j in (1, 2, 0)]
        at = lambda r, idx: elem(t_base(r), idx)
    ws = [T.fresh_index() for _ in F.shape]
    w = [atom_poly(v) for v in ws]
    i1, i2 = ind(eqc(w[0], kp - 1)), ind(eqc(w[0], kp - 2))
    read_ = T.lam(ws, F.shape, i1 * at(rows[0], w[1:]) + i2 * at(rows[1], w[1:]) + (ONE - i1) * (ONE - i2) * at(rows[2], w[1:]))
    V = subst(V, {symb: read_})
    V = V if shape == () else T.lam(vs[1:], shape, V)
    if rows[2] in T.symbols(V) or symb in T.symbols(V):
        return None
    # rows before the first are not read
    if {rows[0], rows[1]} & T.symbols(subst(V, {kv: ZERO})) or rows[1] in T.symbols(subst(V, {kv: ONE})):
        return None
    r = theory.recur(kv, rows[0], rows[1], V, p[0], shape)
    i = ind(c_and(le(ZERO, p[0]), lt(p[0], kp)))
    val = r if shape == () else elem(r, p[1:])
    return T.lam(vs, F.shape, i * val + (ONE - i) * elem(x0, p))


def strip_inds(B, q):
    from .solver import assume_cond
    return assume_cond(B, q, True)


# ----------------------------------------------------------------- lists
class AppendForm(SeqVal):
    pass


def append_form(I, carried, step, x0, kv, conds):
    """what every path of the body appends: items (all paths), or
    alternatives [(condition, item)] with at most one item each"""
    if step[0] != "list":
        raise Unsupported("list rebinding in a loop")
    _, objs, states = step[:3]
    tails = []
    for o in objs:
        if o.seq is None:
            raise Unsupported("list replaced in a loop")
        parts = getattr(o.seq, "parts", None) or (o.seq,)
        if not getattr(parts[0], "is_havoc", False):
            raise Unsupported("list replaced in a loop")
        items = []
        for s in parts[1:]:
            k = s.n.as_int()
            if k is None:
                raise Unsupported("extend by a symbolic number")
            items += [s.at(num(j)) for j in range(k)]
        tails.append(items)
    r = AppendForm(ZERO, None)
    r.x0 = x0
    if len(objs) == 1:
        r.items, r.state, r.alts = tails[0], states[0], None
        return r
    if any(len(t) > 1 for t in tails):
        raise Unsupported("conditional append of several items")
    r.items, r.state = None, None
    r.alts = [(c, t[0], st) for c, t, st in zip(conds, tails, states) if t]
    return r


def close_seq(I, form, kv, n, mk, carried, only=None, it=None):
    from . import graphs
    from .lib import concat_seq, tuple_seq
    x0 = form.x0
    base = x0.seq if x0.seq is not None else tuple_seq(I.lib, x0.items)
    alts = form.alts
    if alts is None and len(form.items) == 0 or alts is not None and not alts:
        return base
    if alts is None and only is not None:
        if len(form.items) != 1:
            raise Unsupported("several appends per iteration")
        alts = [(TRUE, form.items[0], form.state)]
    mks = dict(mk)

    def val(item, k):
        v = I.subst_value(item, mks) if mks else item
        return I.subst_value(v, {kv: num(k)})
    if alts is not None:
        item, heap = I.merge_values(alts)
        for k, o in heap.items():
            if k not in I.st.heap:
                I.st.heap[k] = o
        c = c_or(*[c for c, _, _ in alts])
        c = subst(c, mks) if mks else c
        if only is not None:
            c = c_and(only, c)
        elif I.entails_under([le(ZERO, atom_poly(kv)), lt(atom_poly(kv), n)], c):
            tail = SeqVal(n, lambda k: val(item, k))
            return tail if base.n is ZERO else concat_seq(I.lib, base, tail)
        if base.n is not ZERO:
            raise Unsupported("conditional append to a list that is not empty")
        return graphs.FilterSeq(n, lambda k: subst(c, {kv: num(k)}), lambda k: val(item, k), graphs.domain(it)[3])
    q = len(form.items)
    for k, o in form.state.heap.items():
        if k not in I.st.heap:
            I.st.heap[k] = o
    items = form.items

    def at(k):
        k = num(k)
        if q == 1:
            return val(items[0], k)
        raise Unsupported("several appends per iteration")
    tail = SeqVal(n * num(q), at)
    return tail if base.n is ZERO else concat_seq(I.lib, base, tail)
