"""Canonical form of the case distinctions in an index function."""

from .terms import *
from . import terms as T


def ind_conds(m):
    return [a.args[0] for a, e in m if a.op == "ind"]


def split_const(p):
    """p = q + c with q free of a constant term"""
    c = dict(p.args).get((), 0)
    return p - num(c), c


def unify(vs, body):
    """[v = t] F(t) -> [v = t] F(v): inside an equality the free symbols of t
    are replaced by the index variable"""
    vset = set(vs)
    out = ZERO
    for m, c in body.args:
        term = poly({m: c})
        done = set()
        for a, e in m:
            if a.op != "ind" or a.args[0].op != "eq0" or a in done:
                continue
            p = a.args[0].args[0]
            if not (vset & free(p)):
                continue
            cand = []
            for mm, cc in p.args:
                if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op == "sym" and abs(cc) == 1:
                    cand.append(mm[0][0])
            # prefer a symbol that is not an index of this function; among
            # the indices replace the later one
            outer = [x for x in cand if x not in vset]
            if outer:
                s = max(outer, key=lambda x: x.id)
            else:
                inner = [x for x in vs if x in cand]
                if len(inner) < 2:
                    continue
                s = inner[-1]
            t = T.solve_for(p, s)
            if t is None or s in free(t):
                continue
            rest = poly({tuple(x for x in m if x[0] is not a): c})
            if s in free(rest):
                term = subst(rest, {s: t}) * T.atom_poly(a)
            done.add(a)
            break
        out = out + term
    return out


def order_products(body):
    """[q+c<0][q+d<0] = [q+max(c,d)<0] for integer q; [q=c] decides [q+d<0]"""
    out = ZERO
    changed = False
    for m, c in body.args:
        lts = {}
        eqs = {}
        for a, e in m:
            if a.op == "ind" and a.args[0].op in ("lt0", "eq0"):
                p = a.args[0].args[0]
                if not p.is_int():
                    continue
                q, k = split_const(p)
                if a.args[0].op == "lt0":
                    lts.setdefault(q, []).append((k, a))
                else:
                    eqs.setdefault(q, []).append((k, a))
        drop, zero = set(), False
        for q, l in lts.items():
            if len(l) > 1:
                l = sorted(l, key=lambda t: t[0])
                drop |= {a for _, a in l[:-1]}
            for sgn in (1, -1):
                for k, a in eqs.get(q if sgn == 1 else q * num(-1), ()):
                    val = -k * sgn      # q = val
                    for kk, b in l:
                        if val + kk < 0:
                            drop.add(b)
                        else:
                            zero = True
        for q, l in eqs.items():
            if len(l) > 1:
                zero = True
        if zero:
            changed = True
            continue
        if drop:
            changed = True
            m = tuple(x for x in m if x[0] not in drop)
        out = out + poly({m: c})
    return out if changed else body


def merge_eq(body):
    """[q<0]F + [q=0]F -> [q-1<0]F when that shortens the body"""
    eqs, lts = {}, set()
    for m, c in body.args:
        for x in ind_conds(m):
            p = x.args[0] if x.op in ("lt0", "eq0") else None
            if p is None or not p.is_int():
                continue
            q, k = split_const(p)
            if x.op == "eq0":
                eqs[x] = (q, k, p)
            else:
                lts.add(q)
    for x, (q, k, p) in eqs.items():
        for s in (1, -1):
            qq = q * num(s)
            if qq not in lts:
                continue
            pp = p * num(s)
            rep = ind(lt0(pp - 1)) - ind(lt0(pp))
            new = ZERO
            a = T.atom("ind", x)
            for m, c in body.args:
                if any(y is a for y, _ in m):
                    new = new + poly({tuple(t for t in m if t[0] is not a): c}) * rep
                else:
                    new = new + poly({m: c})
            new = order_products(new)
            if len(new.args) < len(body.args) or (len(new.args) == len(body.args) and n_eq(new) < n_eq(body)):
                return merge_eq(new)
    return body


def n_eq(b):
    return sum(1 for m, c in b.args for x in ind_conds(m) if x.op == "eq0")


def normalise(vs, body):
    if not any(a.op == "ind" for m, c in body.args for a, e in m):
        return body
    body = unify(vs, body)
    body = order_products(body)
    return merge_eq(body)
