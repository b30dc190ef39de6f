"""Contract of cvxpy as far as the trend filter uses it.  TRUSTED, like lib.py.

  Variable(n)                 a vector of n unknowns
  affine expressions          A @ x, x + b, x - b, c * x ...
  norm(e), norm(e, p), norm1  convex norms of affine expressions (p = 1 or 2)
  Minimize(sum of c_i * norm) with constraints  e == b
  Problem(...).solve()        the variable takes the value argmin(problem): a
                              function of the objective and the constraints
                              that minimises the objective subject to them
"""

import ast

from . import terms as T
from .terms import *
from .terms import atom, t_base
from .values import *


class Affine:
    """M x + off"""

    def __init__(self, var, M, off):
        self.var, self.M, self.off = var, M, off


class Norms:
    """sum of coef * norm_p(affine) + const"""

    def __init__(self, var, parts, const=ZERO):
        self.var, self.parts, self.const = var, tuple(parts), const


class Constraint:
    def __init__(self, e):
        self.e = e


class Minimize:
    def __init__(self, e):
        self.e = e


def is_var(I, v):
    o = I.deref(v)
    return isinstance(o, Inst) and o.cls.module == "cvxpy" and o.cls.name == "Variable"


def is_expr(I, v):
    return isinstance(v, (Affine, Norms)) or is_var(I, v)


def affine(I, v):
    if is_var(I, v):
        n = I.deref(v).attrs["$n"]
        return Affine(v, T.t_eye(n), T.tensor((n,), {}))
    if isinstance(v, Affine):
        return v
    raise Unsupported("cvxpy expression")


def vector(L, v, n):
    t = L.tensor_of(v)[0]
    if t.ndim != 1:
        raise Unsupported("cvxpy vector")
    L.same_dim(t.shape[0], n)
    return t


def neg(t):
    return T.t_scale(t, num(-1))


def binop(L, op, a, b):
    I = L.I
    scal = lambda x: L.is_scalar(I.deref(x))
    if isinstance(op, ast.MatMult):
        if is_expr(I, b) and not is_expr(I, a):
            e = affine(I, b)
            A = L.tensor_of(a)[0]
            L.same_dim(A.shape[1], e.M.shape[0])
            return Affine(e.var, T.matmul(A, e.M), T.matmul(A, e.off))
        raise Unsupported("cvxpy product")
    if isinstance(op, (ast.Mult, ast.Div)) and (scal(a) or scal(b)):
        if scal(a) and isinstance(op, ast.Div):
            raise Unsupported("cvxpy quotient")
        c, e = (a, b) if scal(a) else (b, a)
        c = L.scalar(I.deref(c))
        if isinstance(op, ast.Div):
            c = T.inv(c)
        if isinstance(e, Norms):
            return Norms(e.var, [(c * k, p, x) for k, p, x in e.parts], c * e.const)
        e = affine(I, e)
        return Affine(e.var, T.t_scale(e.M, c), T.t_scale(e.off, c))
    if isinstance(op, (ast.Add, ast.Sub)):
        s = -1 if isinstance(op, ast.Sub) else 1
        if isinstance(a, Norms) or isinstance(b, Norms):
            parts, const, var = [], ZERO, None
            for x, k in ((a, 1), (b, s)):
                if isinstance(x, Norms):
                    if var is not None and var != x.var:
                        raise Unsupported("several variables")
                    var = x.var
                    parts += [(c * num(k), p, e) for c, p, e in x.parts]
                    const = const + x.const * num(k)
                else:
                    const = const + L.scalar(I.deref(x)) * num(k)
            return Norms(var, parts, const)
        ea = affine(I, a) if is_expr(I, a) else None
        eb = affine(I, b) if is_expr(I, b) else None
        base = ea or eb
        n = base.M.shape[0]
        M, off = T.tensor(base.M.shape, {}), T.tensor((n,), {})
        for x, e, k in ((a, ea, 1), (b, eb, s)):
            if e is not None:
                if e.var != base.var:
                    raise Unsupported("several variables")
                L.same_dim(e.M.shape[0], n)
                M, off = T.t_add(M, T.t_scale(e.M, num(k))), T.t_add(off, T.t_scale(e.off, num(k)))
            else:
                off = T.t_add(off, T.t_scale(vector(L, x, n), num(k)))
        return Affine(base.var, M, off)
    raise Unsupported("cvxpy operator")


def compare(L, op, a, b):
    if not isinstance(op, ast.Eq):
        raise Unsupported("cvxpy comparison")
    return Constraint(binop(L, ast.Sub(), a, b))


def oriented(e):
    """the sign of an expression inside a norm or an equation does not matter"""
    M2, o2 = neg(e.M), neg(e.off)
    return (e.M, e.off) if (e.M.id, e.off.id) < (M2.id, o2.id) else (M2, o2)


def argmin(n, objective, constraints):
    parts = []
    for c, p, e in objective.parts:
        M, off = oriented(e)
        if c is ZERO:
            continue
        parts.append((p, M, off, c))
    parts.sort(key=lambda q: (q[0], q[1].id, q[2].id, q[3].id))
    cons = sorted((oriented(x.e) for x in constraints), key=lambda q: (q[0].id, q[1].id))
    name = "argmin:" + ",".join(str(p[0]) for p in parts) + "|" + str(len(cons))
    flat = []
    for p, M, off, c in parts:
        flat += [M, off, c]
    for M, off in cons:
        flat += [M, off]
    return t_base(atom("tfn", name, (n,), *flat, "argmin"))


def register(L):
    I, E = L.I, L.ext
    variable = ClassVal("Variable", "cvxpy", [], {})

    def v_init(me, shape=ONE, **k):
        if isinstance(shape, tuple):
            if len(shape) != 1:
                raise Unsupported("cvxpy variable")
            shape = shape[0]
        I.store(me, Inst(variable, {"$n": L.scalar(shape), "value": None}, "cvx"))
    variable.attrs["__init__"] = Method(v_init)
    E["cvxpy.Variable"] = variable

    def norm(e, p=None, axis=None):
        q = 2 if p is None else L.scalar(p).as_int()
        if axis is not None or q not in (1, 2):
            raise Unsupported("cvxpy norm")
        e = affine(I, e)
        return Norms(e.var, [(ONE, q, e)])
    E["cvxpy.norm"] = Builtin("cvxpy.norm", norm)
    E["cvxpy.norm1"] = Builtin("cvxpy.norm1", lambda e: norm(e, ONE))
    E["cvxpy.norm2"] = Builtin("cvxpy.norm2", lambda e: norm(e))

    def minimize(e):
        if not isinstance(e, Norms):
            raise Unsupported("cvxpy objective")
        return Minimize(e)
    E["cvxpy.Minimize"] = Builtin("cvxpy.Minimize", minimize)
    problem = ClassVal("Problem", "cvxpy", [], {})

    def p_init(me, objective, constraints=None):
        if not isinstance(objective, Minimize):
            raise Unsupported("cvxpy objective")
        cons = () if constraints is None else L.concrete_items(constraints)
        if not all(isinstance(c, Constraint) for c in cons):
            raise Unsupported("cvxpy constraint")
        I.store(me, Inst(problem, {"$o": objective.e, "$c": tuple(cons)}, "cvx"))

    def p_solve(me, **k):
        if k:
            raise Unsupported("cvxpy solver options")
        o = I.deref(me)
        e = o.attrs["$o"]
        v = I.deref(e.var)
        n = v.attrs["$n"]
        I.store(e.var, Inst(variable, {"$n": n, "value": I.arr(argmin(n, e, o.attrs["$c"]), "nd", "float")}, "cvx"))
        return T.fresh("optimum", "real")
    problem.attrs.update({"__init__": Method(p_init), "solve": Method(p_solve)})
    E["cvxpy.Problem"] = problem
