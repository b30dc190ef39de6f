"""Symbolic executor for the Python subset used by pytspl and the contracts."""

import ast
import os
from fractions import Fraction

from . import terms as T
from . import theory  # noqa: F401  (registers the rewrite rules)
from .solver import entails as z_entails, entails_light as z_light
from .terms import *
from .terms import atom, t_base
from .values import *
from . import graphs, loops

MAX_PATHS = 400


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class SideEffects(Unsupported):
    pass


class State:
    def __init__(self):
        self.heap = {}
        self.envs = {}
        self.pc = []
        self.rand = ()
        self.streams = {}   # positions of seeded generators

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.pc = list(self.pc)
        s.rand = self.rand
        s.streams = dict(self.streams)
        return s


class Env:
    __slots__ = ("id", "parent", "module")

    def __init__(self, i, parent, module):
        self.id, self.parent, self.module = i, parent, module


class Interp:
    def __init__(self, roots, contracts=None):
        self.roots = roots          # package prefix -> directory
        self.st = State()
        self.ids = 0
        self.modules = {}
        self.explorers = []
        self.logs = []              # write logs of loop bodies
        self.contracts = contracts or {}
        self.inline_only = set()
        self.callstack = []
        self.used_contracts = set()
        self.used_lib = set()
        self.pre_obligations = []   # (callee, clause, ok, detail)
        self.loop_obligations = []
        self.loop_ctx = ()
        self.overrides = {}
        self.view_of = {}
        self.views = {}
        self.index_facts = set()
        T.SIMPLIFY_RANGE[0] = self.simplify_range
        T.HOLDS[0] = self.entails_hook
        from . import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------- heap
    def new_id(self):
        self.ids += 1
        return self.ids

    def alloc(self, obj):
        r = Ref(self.new_id())
        self.st.heap[r.id] = obj
        return r

    def deref(self, v):
        return self.st.heap[v.id] if isinstance(v, Ref) else v

    def add_view(self, base, view):
        """view shares memory with base: it dies when base is written"""
        b = base.id if isinstance(base, Ref) else base
        b = self.view_of.get(b, b)
        self.view_of[view.id] = b
        self.views.setdefault(b, set()).add(view.id)

    def entails_under(self, facts, c):
        return z_entails(self.st.pc + list(facts), c)

    def store(self, ref, obj):
        if ref.id in self.view_of:
            raise Unsupported("store through a view")
        for v in self.views.get(ref.id, ()):
            if v in self.st.heap:
                self.st.heap[v] = DeadView()
        self.st.heap[ref.id] = obj
        for lg in self.logs:
            lg.touched.add(ref.id)

    def arr(self, t, kind="nd", dtype="float"):
        return self.alloc(Arr(t, kind, dtype))

    def new_list(self, items):
        return self.alloc(ListObj(items=tuple(items)))

    def new_env(self, parent, module):
        e = Env(self.new_id(), parent, module)
        self.st.envs[e.id] = {}
        return e

    # ------------------------------------------------------------ paths
    def entails(self, c):
        return z_entails(self.st.pc, c)

    def assume(self, c):
        if c is TRUE:
            return
        if c not in self.st.pc:
            for x in c.args if c.op == "and" else (c,):
                if x not in self.st.pc:
                    self.st.pc.append(x)

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if self.entails(c):
            return True
        if self.entails(c_not(c)):
            return False
        if not self.explorers:
            raise Unsupported("branch outside exploration")
        ex = self.explorers[-1]
        k = len(ex["taken"])
        d = ex["plan"][k] if k < len(ex["plan"]) else True
        ex["taken"].append(d)
        ex["conds"].append(c if d else c_not(c))
        self.assume(c if d else c_not(c))
        return d

    def explore(self, thunk):
        """all paths of thunk from the current state:
        [(outcome, value, state, branch conditions)]"""
        snap = self.st
        out, todo = [], [[]]
        while todo:
            plan = todo.pop()
            self.st = snap.copy()
            ex = dict(plan=plan, taken=[], conds=[])
            self.explorers.append(ex)
            try:
                try:
                    r = ("value", thunk())
                except PyRaise as e:
                    r = ("raise", e)
                except ReturnSig as e:
                    r = ("return", e.v)
                except BreakSig:
                    r = ("break", None)
                except ContinueSig:
                    r = ("continue", None)
            finally:
                self.explorers.pop()
            for k in range(len(plan), len(ex["taken"])):
                todo.append(ex["taken"][:k] + [not ex["taken"][k]])
            out.append((r[0], r[1], self.st, ex["conds"]))
            if len(out) > MAX_PATHS:
                raise Unsupported("too many paths")
        self.st = snap
        return out

    def simplify_range(self, vs, shape, body):
        """indicators decided by 0 <= v < dim"""
        from .solver import inds, assume_cond
        from .norm import normalise
        body = normalise(vs, body)
        vset = set(vs)
        cs = [c for c in inds(body) if vset & free(c)]
        if not cs:
            return body
        facts = []
        for v, n in zip(vs, shape):
            p = atom_poly(v)
            facts += [le(ZERO, p), lt(p, n)]
        pc = self.st.pc + facts
        for c in cs:
            if z_light(pc, c):
                body = assume_cond(body, c, True)
            elif z_light(pc, c_not(c)):
                body = assume_cond(body, c, False)
            elif c.op == "lt0" and c.args[0].is_int():
                # the last (first) point of the range: an equation
                p = c.args[0]
                new = None
                if z_light(pc, le(num(-1), p)):
                    new = ind(eq0(p + 1))
                elif z_light(pc, le(p, ZERO)):
                    new = ONE - ind(eq0(p))
                if new is not None:
                    body = assume_cond(body, c, False) + (assume_cond(body, c, True) - assume_cond(body, c, False)) * new
        return body

    def entails_hook(self, c):
        return z_entails(self.st.pc, c)

    # ---------------------------------------------------------- modules
    def module_env(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.find(name)
        if path is None:
            return None
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        env = Env(self.new_id(), None, name)
        # module environments are permanent: keep them outside the state copies
        self.modules[name] = env
        self.permanent(env)
        self.exec_module(tree, env)
        return env

    def permanent(self, env):
        if not hasattr(self, "perm"):
            self.perm = {}
        self.perm[env.id] = {}

    def envdict(self, i):
        return self.perm[i] if i in getattr(self, "perm", {}) else self.st.envs[i]

    def find(self, name):
        for pref, d in self.roots.items():
            if name == pref or name.startswith(pref + "."):
                p = os.path.join(d, *name.split("."))
                if os.path.isfile(p + ".py"):
                    return p + ".py"
                if os.path.isfile(os.path.join(p, "__init__.py")):
                    return os.path.join(p, "__init__.py")
        return None

    def exec_module(self, tree, env):
        for st in tree.body:
            try:
                self.exec_stmt(st, env)
            except (Unsupported, PyRaise) as e:
                # a module level statement we cannot run: names stay undefined
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.envdict(env.id)[n.id] = Undef()
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    self.envdict(env.id)[st.name] = Undef()
                self.module_errors = getattr(self, "module_errors", []) + [str(e)]

    def import_name(self, mod, name):
        env = self.module_env(mod)
        if env is not None:
            d = self.envdict(env.id)
            if name in d:
                return d[name]
            if self.find(mod + "." + name):
                return ModuleVal(mod + "." + name)
            raise Unsupported(f"import {name} from {mod}")
        return self.lib.external(mod, name)

    # -------------------------------------------------------- functions
    def call(self, f, args, kw, node=None):
        if isinstance(f, (Builtin, Method)):
            return f.fn(*args, **kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + list(args), kw, node)
        if isinstance(f, StaticVal):
            return self.call(f.fn, args, kw, node)
        if isinstance(f, Func):
            return self.call_func(f, list(args), dict(kw))
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExcType):
            return ("exc", f.name, "")
        o = self.deref(f)
        if isinstance(o, Inst) and o.cls.lookup("__call__")[1] is not None:
            return self.call(self.getattr(f, "__call__"), args, kw, node)
        raise Unsupported(f"call of {type(f).__name__}")

    def instantiate(self, cls, args, kw):
        if any(isinstance(b, ClassVal) and b.name == "Enum" or getattr(b, "name", "") == "Enum" for b in cls.bases):
            raise Unsupported("enum call")
        ext = [b for k in cls.mro() for b in k.bases if not isinstance(b, ClassVal)]
        if any(isinstance(b, (Opaque, Builtin, Undef, ModuleVal)) for b in ext):
            raise Unsupported(f"instance of a class with an external base ({cls.name})")
        ref = self.alloc(Inst(cls, {}))
        _, init = cls.lookup("__init__")
        if init is not None:
            self.call(init, [ref] + list(args), kw)
        return ref

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise("TypeError", "too many arguments")
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    raise PyRaise("TypeError", "multiple values")
                out[k] = v
            else:
                extra[k] = v
        if extra:
            if a.kwarg is None:
                raise PyRaise("TypeError", f"unexpected keyword {list(extra)}")
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.alloc(DictObj(items=extra))
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            out.setdefault(n, d)
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg not in f.kwdefaults:
                    raise PyRaise("TypeError", "missing argument " + x.arg)
                out[x.arg] = f.kwdefaults[x.arg]
        for n in names:
            if n not in out:
                raise PyRaise("TypeError", "missing argument " + n)
        return out

    def call_func(self, f, args, kw, modular=True):
        key = f"{f.module}:{f.qualname}"
        if key in self.overrides:
            return self.overrides[key](*args, **kw)
        if modular and key in self.contracts and key not in self.inline_only:
            done, r = self.apply_contract(key, f, args, kw)
            if done:
                return r
        if len(self.callstack) > 40:
            raise Unsupported("recursion")
        bound = self.bind_args(f, args, kw)
        env = self.new_env(f.env, f.module)
        self.st.envs[env.id].update(bound)
        self.callstack.append(f)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(f.node)):
                raise Unsupported("generator function")
            try:
                self.exec_block(f.node.body, env)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            self.callstack.pop()

    def apply_contract(self, key, f, args, kw):
        from .vc import call_by_contract
        return call_by_contract(self, key, f, args, kw)

    # ------------------------------------------------------- statements
    def exec_block(self, body, env):
        for st in body:
            self.exec_stmt(st, env)

    def exec_stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "print":
            return
        self.eval(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        for a in s.names:
            if a.asname:
                self.set_name(a.asname, ModuleVal(a.name), env)
            else:
                self.set_name(a.name.split(".")[0], ModuleVal(a.name.split(".")[0]), env)

    def s_ImportFrom(self, s, env):
        mod = s.module or ""
        if s.level:
            base = env.module.split(".")
            up = s.level - ((self.find(env.module) or "").endswith("__init__.py"))
            mod = ".".join(base[: len(base) - up] + ([s.module] if s.module else []))
        for a in s.names:
            if mod == "__future__" or mod == "typing":
                self.set_name(a.asname or a.name, Opaque(atom("osym", a.name)), env)
                continue
            self.set_name(a.asname or a.name, self.import_name(mod, a.name), env)

    def s_FunctionDef(self, s, env, cls=None, prefix=""):
        f = self.make_func(s, env, cls, prefix)
        for d in reversed(s.decorator_list):
            n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if n == "property":
                f = PropertyVal(f)
            elif n == "staticmethod":
                f = StaticVal(f)
            elif isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("contract", "lemma"):
                pass
            elif n == "classmethod":
                f = ClassMethodVal(f)
            elif n == "setter" and isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name):
                old = self.lookup(d.value.id, env)
                if not isinstance(old, PropertyVal):
                    raise Unsupported("setter of a non-property")
                f = PropertyVal(old.fn, f)
            elif n in ("wraps", "abstractmethod"):
                return
            elif n in ("lru_cache", "cache"):
                raise Unsupported("decorator " + n)
            else:
                raise Unsupported("decorator " + ast.unparse(d))
        self.set_name(s.name, f, env)

    def make_func(self, node, env, cls, prefix=""):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {x.arg: self.eval(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(node, "name", "<lambda>")
        return Func(node, env, env.module, prefix + name, cls, tuple(defaults), kwd)

    def s_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        cenv = self.new_env(env, env.module) if env.id not in getattr(self, "perm", {}) else Env(self.new_id(), env, env.module)
        if env.id in getattr(self, "perm", {}):
            self.perm[cenv.id] = {}
        cls = ClassVal(s.name, env.module, bases, {})
        enum = any(isinstance(b, Builtin) and b.name == "Enum" for b in bases)
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                try:
                    self.s_FunctionDef(st, cenv, cls, s.name + ".")
                except Unsupported:
                    self.envdict(cenv.id)[st.name] = Undef()
                    continue
                continue
            self.exec_stmt(st, cenv)
        attrs = dict(self.envdict(cenv.id))
        if enum:
            attrs = {k: EnumMember(k, v) if not isinstance(v, (Func, PropertyVal, StaticVal, ClassMethodVal)) else v for k, v in attrs.items()}
        cls.attrs = attrs
        # functions of a class do not see the class scope
        for v in attrs.values():
            for g in (v, getattr(v, "fn", None)):
                if isinstance(g, Func):
                    g.env = env
        self.set_name(s.name, cls, env)

    def s_Return(self, s, env):
        raise ReturnSig(self.eval(s.value, env) if s.value is not None else None)

    def s_Raise(self, s, env):
        if s.exc is None:
            raise PyRaise(getattr(self, "current_exc", "Exception"))
        v = self.eval_exc(s.exc, env)
        raise PyRaise(v)

    def eval_exc(self, e, env):
        if isinstance(e, ast.Call):
            v = self.eval(e.func, env)
        else:
            v = self.eval(e, env)
        if isinstance(v, ExcType):
            return v.name
        if isinstance(v, tuple) and v and v[0] == "exc":
            return v[1]
        raise Unsupported("raise of " + ast.unparse(e))

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise PyRaise("AssertionError")

    def default_store(self, s, env):
        """'if K not in D: D[K] = V' on a dictionary that a loop builds is
        D.setdefault(K, V), V being a name or a constant"""
        t = s.test
        if s.orelse or len(s.body) != 1 or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.NotIn)):
            return False
        b = s.body[0]
        if not (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Subscript) and isinstance(b.value, (ast.Name, ast.Constant))):
            return False
        x = b.targets[0]
        if not isinstance(x.value, ast.Name) or ast.dump(x.value) != ast.dump(t.comparators[0]).replace("Store()", "Load()") or ast.dump(x.slice) != ast.dump(t.left):
            return False
        d = self.eval(x.value, env)
        o = self.deref(d)
        if not isinstance(o, DictObj) or o.items or o.items is None and not (isinstance(o.base, tuple) and (o.base[0] == "first" or getattr(o.base[1], "is_havoc", False))):
            return False
        k = self.eval(t.left, env)
        if o.items is not None and self.lib.is_concrete_key(k):
            return False
        self.call(self.getattr(d, "setdefault"), [k, self.eval(b.value, env)], {})
        return True

    def s_If(self, s, env):
        if self.default_store(s, env):
            return
        if self.truth(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def s_With(self, s, env):
        for it in s.items:
            v = self.eval(it.context_expr, env)
            if not (isinstance(v, Opaque) and v.a.op == "ctxmgr"):
                raise Unsupported("with " + ast.unparse(it.context_expr))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_block(s.body, env)

    def s_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    names = []
                    if h.type is None:
                        names = ["Exception"]
                    else:
                        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        for t in ts:
                            v = self.eval(t, env)
                            if not isinstance(v, ExcType):
                                raise Unsupported("except " + ast.unparse(t))
                            names.append(v.name)
                    if any(exc_matches(e.etype, n) for n in names):
                        if h.name:
                            self.set_name(h.name, Opaque(atom("osym", "exc")), env)
                        old = getattr(self, "current_exc", "Exception")
                        self.current_exc = e.etype
                        self.exec_block(h.body, env)
                        self.current_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, env)

    def s_Delete(self, s, env):
        raise Unsupported("del")

    def s_Break(self, s, env):
        raise BreakSig()

    def s_Continue(self, s, env):
        raise ContinueSig()

    def s_Global(self, s, env):
        raise Unsupported("global")

    def s_Nonlocal(self, s, env):
        raise Unsupported("nonlocal")

    def counted(self, s, env):
        """'while i < n: ...; i += 1' (or downwards) as the loop over a range"""
        t, last = s.test, s.body[-1]
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)):
            return False
        nm, op = t.left.id, t.ops[0]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == nm
                and isinstance(last.op, (ast.Add, ast.Sub)) and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return False
        up = isinstance(last.op, ast.Add)
        if not isinstance(op, (ast.Lt, ast.LtE) if up else (ast.Gt, ast.GtE)):
            return False
        body = s.body[:-1]
        if any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in body for x in ast.walk(b)):
            return False
        names = loops.assigned_names(body)
        bound = t.comparators[0]
        if nm in names or not body or any(isinstance(x, ast.Name) and x.id in names | {nm} for x in ast.walk(bound)) \
                or any(not isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.operator, ast.expr_context)) for x in ast.walk(bound)):
            return False
        i, b = self.eval(t.left, env), self.eval(bound, env)
        if not (isinstance(i, Poly) and isinstance(b, Poly) and i.is_int() and b.is_int()):
            return False
        if isinstance(op, (ast.LtE, ast.GtE)):
            b = b + 1 if up else b - 1
        d = self.envdict(env.id)
        if not self.truth(lt(i, b) if up else lt(b, i)):
            return True
        d["$from"], d["$to"] = i, b
        load = lambda n: ast.Name(n, ast.Load())
        step = [] if up else [ast.UnaryOp(ast.USub(), ast.Constant(1))]
        loop = ast.For(ast.Name(nm, ast.Store()), ast.Call(load("range"), [load("$from"), load("$to")] + step, []), body, [])
        for x in ast.walk(loop):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, s)
        loops.run_for(self, loop, env)
        self.envdict(env.id)[nm] = b
        return True

    def s_While(self, s, env):
        c = self.truth_cond(self.eval(s.test, env))
        if c is not TRUE and c is not FALSE and self.counted(s, env):
            return
        for _ in range(64):
            t = self.eval(s.test, env)
            c = self.truth_cond(t)
            if c is FALSE:
                return
            if c is not TRUE:
                raise Unsupported("while with a symbolic condition")
            try:
                self.exec_block(s.body, env)
            except BreakSig:
                return
            except ContinueSig:
                pass
        raise Unsupported("while loop")

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        rhs = None
        if isinstance(t, ast.Name):
            old = self.eval(ast.Name(t.id, ast.Load()), env)
            rhs = self.eval(s.value, env)
            new = self.lib.inplace(s.op, old, rhs)
            self.set_name(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, env)
            old = self.getattr(obj, t.attr)
            rhs = self.eval(s.value, env)
            self.setattr(obj, t.attr, self.lib.inplace(s.op, old, rhs))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env)
            idx = self.eval_index(t.slice, env)
            old = self.lib.getitem(obj, idx)
            rhs = self.eval(s.value, env)
            self.lib.setitem(obj, idx, self.lib.binop(s.op, old, rhs))
        else:
            raise Unsupported("augmented assignment")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [j for j, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                j, rest = stars[0], len(t.elts) - 1
                it = self.lib.iterate(v)
                if not isinstance(it, tuple):
                    raise Unsupported("starred assignment")
                if len(it) < rest:
                    raise PyRaise("ValueError", "unpack")
                end = len(it) - (rest - j)
                for x, y in zip(t.elts, it[:j] + (self.new_list(it[j:end]),) + it[end:]):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
                return
            vals = self.lib.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env)
            self.lib.setitem(obj, self.eval_index(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def set_name(self, n, v, env):
        self.envdict(env.id)[n] = v

    def lookup(self, n, env):
        e = env
        while e is not None:
            d = self.envdict(e.id)
            if n in d:
                v = d[n]
                if isinstance(v, Undef):
                    raise Unsupported(f"name {n} has no known value")
                return v
            e = e.parent
        b = self.lib.builtin(n)
        if b is None:
            import builtins
            if hasattr(builtins, n):
                raise Unsupported(f"builtin {n}")
            raise PyRaise("NameError", n)
        return b

    # ------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at line {getattr(e, 'lineno', '?')}")
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            return num(v)
        if v is Ellipsis:
            return Ellipsis
        raise Unsupported("constant")

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += list(self.lib.concrete_items(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_List(self, e, env):
        return self.new_list(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return self.alloc(SetObj(tuple(self.elts(e.elts, env))))

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            d[self.lib.key(self.eval(k, env))] = self.eval(v, env)
        return self.alloc(DictObj(items=d))

    def e_Lambda(self, e, env):
        return self.make_func(e, env, None)

    def e_IfExp(self, e, env):
        c = self.truth_cond(self.eval(e.test, env))
        if c is TRUE:
            return self.eval(e.body, env)
        if c is FALSE:
            return self.eval(e.orelse, env)
        if self.truth(c):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, env)
            if k == len(e.values) - 1:
                return v
            t = self.truth_cond(v)
            rest = e.values[k + 1:]
            if t not in (TRUE, FALSE) and isinstance(v, (bool, Cond)) and all(pure(y) for y in rest):
                # pure conditions: combine without forking
                r = [self.eval_guard(y, env, t if isand else c_not(t)) for y in rest]
                if all(isinstance(y, (bool, Cond)) for y in r):
                    r = [t] + [self.truth_cond(y) for y in r]
                    return c_and(*r) if isand else c_or(*r)
            if self.truth(t) != isand:
                return v
        return v

    def eval_guard(self, e, env, g):
        """evaluate under the extra assumption g (restored afterwards)"""
        n = len(self.st.pc)
        self.assume(g)
        try:
            return self.eval(e, env)
        finally:
            del self.st.pc[n:]

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return self.lib.as_value(c_not(self.truth_cond(v)))
        if isinstance(e.op, ast.USub):
            return self.lib.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.lib.invert(v)
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env):
        return self.lib.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        cs = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            v = self.lib.compare(op, left, right)
            if len(e.ops) == 1:
                return v
            cs.append(self.truth_cond(v))
            left = right
        return self.lib.as_value(c_and(*cs))

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = self.callstack[-1]
            obj = self.lookup(f.node.args.args[0].arg, env)
            return ("super", f.cls, obj)
        f = self.eval(e.func, env)
        if isinstance(f, Builtin) and f.name == "lazy":
            return f.fn(e, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.lib.concrete_items(self.eval(a.value, env)))
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.e_GeneratorExp(a, env))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.deref(self.eval(k.value, env))
                if not isinstance(d, DictObj) or d.items is None:
                    raise Unsupported("**kwargs")
                for kk, vv in d.items.items():
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw, e)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        obj = self.eval(e.value, env)
        return self.lib.getitem(obj, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, env)
            return ("slice", g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return ("tuple",) + tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Slice(self, e, env):
        return self.eval_index(e, env)

    def e_JoinedStr(self, e, env):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            elif isinstance(x, ast.FormattedValue) and x.conversion == -1 and x.format_spec is None and isinstance(x.value, ast.Name):
                try:
                    v = self.eval(x.value, env)
                except (PyRaise, Unsupported):
                    v = None
                parts.append(v if isinstance(v, (str, SymStr)) else None)
            else:
                parts.append(None)
        if not any(p is None for p in parts):
            from . import frames
            return frames.join(parts)
        return Opaque(atom("osym", "fstring"))

    def e_ListComp(self, e, env):
        s = self.comprehension(e, env)
        if isinstance(s, tuple):
            return self.new_list(s)
        return self.alloc(ListObj(seq=s))

    def e_GeneratorExp(self, e, env):
        return self.alloc(IterObj(self.comprehension(e, env)))

    def e_SetComp(self, e, env):
        s = self.comprehension(e, env)
        if isinstance(s, tuple):
            return self.alloc(SetObj(s))
        from . import sets
        return sets.make_set(self.lib, s)

    def e_DictComp(self, e, env):
        pair = ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e)
        g = ast.copy_location(ast.GeneratorExp(pair, e.generators), e)
        s = self.comprehension(g, env)
        if isinstance(s, tuple):
            return self.alloc(DictObj(items={self.lib.key(k): v for k, v in s}))
        return self.alloc(DictObj(base=("comp", s)))

    def comprehension(self, e, env):
        """tuple of values, or SeqVal for a symbolic length"""
        if len(e.generators) != 1:
            return self.nested_comprehension(e, env)
        g = e.generators[0]
        it = self.lib.iterate(self.eval(g.iter, env))
        if isinstance(it, tuple):
            out = []
            for x in it:
                sub = self.new_env(env, env.module)
                self.assign(g.target, x, sub)
                if all(self.truth(self.eval(c, sub)) for c in g.ifs):
                    out.append(self.eval(e.elt, sub))
            return tuple(out)
        if not getattr(it, "parts", None) and type(it) is SeqVal and self.entails(eqc(it.n, ZERO)):
            return ()
        if g.ifs or isinstance(it, graphs.FilterSeq) or getattr(it, "facts", None):
            def one(x):
                sub = self.new_env(env, env.module)
                self.assign(g.target, x, sub)
                if all(self.truth(self.eval(c, sub)) for c in g.ifs):
                    return True, self.eval(e.elt, sub)
                return False, None
            return graphs.filtered_map(self, it, one)
        try:
            return self.map_seq(it, lambda x: self.comp_elem(e, g, env, x))
        except SideEffects:
            return self.comp_loop(e, g, env, it)

    def comp_loop(self, e, g, env, it):
        """a comprehension whose elements change the state, as the loop it is"""
        sub = self.new_env(env, env.module)
        d = self.envdict(sub.id)
        d["$seq"], d["$out"] = it, self.new_list(())
        load = lambda n: ast.Name(n, ast.Load())
        add = ast.Expr(ast.Call(ast.Attribute(load("$out"), "append", ast.Load()), [e.elt], []))
        loop = ast.For(g.target, load("$seq"), [add], [])
        for x in ast.walk(loop):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, e)
        loops.run_for(self, loop, sub)
        o = self.deref(self.envdict(sub.id)["$out"])
        return o.items if o.items is not None else o.seq

    def comp_elem(self, e, g, env, x):
        sub = self.new_env(env, env.module)
        self.assign(g.target, x, sub)
        return self.eval(e.elt, sub)

    def nested_comprehension(self, e, env):
        g = e.generators[0]
        it = self.lib.iterate(self.eval(g.iter, env))
        if not isinstance(it, tuple):
            raise Unsupported("nested comprehension")
        out = []
        inner = ast.copy_location(ast.GeneratorExp(e.elt, e.generators[1:]), e)
        for x in it:
            sub = self.new_env(env, env.module)
            self.assign(g.target, x, sub)
            if all(self.truth(self.eval(c, sub)) for c in g.ifs):
                r = self.comprehension(inner, sub)
                if not isinstance(r, tuple):
                    raise Unsupported("nested comprehension")
                out += list(r)
        return tuple(out)

    def map_seq(self, it, f):
        """SeqVal of f(element); the element function is evaluated once on a
        generic index (all paths merged), then instantiated"""
        parts = getattr(it, "parts", None)
        if parts:
            from .lib import concat_seq
            out = None
            for q in parts:
                m = self.map_seq(q, f)
                out = m if out is None else concat_seq(self.lib, out, m)
            return out
        if self.entails(eqc(it.n, ZERO)):
            return SeqVal(ZERO, it.at, kind="comp")
        v = fresh_index()
        iv = atom_poly(v)

        def body():
            self.assume(le(ZERO, iv))
            self.assume(lt(iv, it.n))
            return f(it.at(iv))
        base = len(self.st.pc)
        paths = self.explore(body)
        for kind, val, st, conds in paths:
            if kind == "raise":
                bad = c_and(*conds)
                # does any element raise?
                ex = T.exists(v, it.n, bad)
                if self.branch(ex):
                    raise PyRaise(val.etype, val.msg)
        good = [p for p in paths if p[0] == "value"]
        if not good:
            raise Unsupported("comprehension without a value")
        for kind, val, st, conds in good:
            if st.rand != self.st.rand or st.streams != self.st.streams:
                raise SideEffects("comprehension with side effects")
            for k, o in st.heap.items():
                if k in self.st.heap and self.st.heap[k] is not o:
                    raise SideEffects("comprehension with side effects")
        val, heap = self.merge_values([(c_and(*conds), val, st) for _, val, st, conds in good])
        self.st.heap.update({k: o for k, o in heap.items() if k not in self.st.heap})
        del base
        return SeqVal(it.n, lambda k: self.subst_value(val, {v: num(k)}), kind="comp")

    # ------------------------------------------------------ value merge
    def merge_values(self, alts):
        """alts: [(cond, value, state)] exclusive and exhaustive; returns the
        merged value and heap objects it needs"""
        heap = {}
        for _, _, st in alts:
            for k, o in st.heap.items():
                heap.setdefault(k, o)
        if len(alts) == 1:
            return alts[0][1], alts[0][2].heap
        memo = {}

        def mg(vals):
            v0 = vals[0]
            if all(v is v0 for v in vals) or (not isinstance(v0, (Ref, Poly, tuple)) and all(type(v) is type(v0) and v == v0 for v in vals)):
                return v0
            if all(isinstance(v, Ref) and v == v0 for v in vals):
                objs = [a[2].heap[v0.id] for a in alts]
                if all(o is objs[0] for o in objs):
                    return v0
                raise Unsupported("merge of a shared object with different contents")
            if all(isinstance(v, bool) or isinstance(v, Cond) for v in vals):
                out = FALSE
                cs = []
                for (c, _, _), v in zip(alts, vals):
                    v = TRUE if v is True else FALSE if v is False else v
                    cs.append(c_and(c, v))
                return self.lib.as_value(c_or(*cs))
            if all(isinstance(v, (Poly, bool)) for v in vals):
                return self.mix([c for c, _, _ in alts], [num(v) for v in vals])
            if all(isinstance(v, tuple) and len(v) == len(v0) for v in vals):
                return tuple(mg([v[k] for v in vals]) for k in range(len(v0)))
            if all(isinstance(v, Ref) for v in vals):
                key = tuple(v.id for v in vals)
                if key in memo:
                    return memo[key]
                objs = [a[2].heap[v.id] for a, v in zip(alts, vals)]
                if all(isinstance(o, Arr) for o in objs):
                    a0 = objs[0]
                    if any(len(o.t.shape) != len(a0.t.shape) or o.kind != a0.kind for o in objs):
                        raise Unsupported("merge of arrays of different kinds")
                    if any(o.t.shape != a0.t.shape for o in objs):
                        raise Unsupported("merge of arrays of different shapes")
                    r = Ref(self.new_id())
                    heap[r.id] = Arr(self.mix_t([c for c, _, _ in alts], [o.t for o in objs]), a0.kind, a0.dtype)
                    memo[key] = r
                    return r
                if all(isinstance(o, ListObj) and o.items is not None and len(o.items) == len(objs[0].items or ()) for o in objs):
                    r = Ref(self.new_id())
                    heap[r.id] = ListObj(items=tuple(mg([o.items[k] for o in objs]) for k in range(len(objs[0].items))))
                    return r
                if all(isinstance(o, DictObj) and o.items is not None and set(o.items) == set(objs[0].items or ()) for o in objs):
                    r = Ref(self.new_id())
                    heap[r.id] = DictObj(items={k: mg([o.items[k] for o in objs]) for k in objs[0].items})
                    return r
            raise Unsupported(f"merge of {[type(v).__name__ for v in vals]}")
        return mg([v for _, v, _ in alts]), heap

    def mix(self, conds, vals):
        if all(v is vals[0] for v in vals):
            return vals[0]
        out = vals[-1]
        for c, v in zip(conds[:-1], vals[:-1]):
            out = ite(c, v, out)
        return out

    def mix_t(self, conds, vals):
        if all(v is vals[0] for v in vals):
            return vals[0]
        out = vals[-1]
        for c, v in zip(conds[:-1], vals[:-1]):
            i = ind(c)
            out = T.t_add(T.t_scale(v, i), T.t_scale(out, ONE - i))
        return out

    def subst_value(self, v, m, seen=None):
        """copy of a value with symbols substituted; heap objects that change
        are allocated anew"""
        seen = {} if seen is None else seen
        if isinstance(v, (Poly, Cond)):
            r = subst(v, m)
            return self.lib.as_value(r) if isinstance(r, Cond) else r
        if isinstance(v, tuple):
            return tuple(self.subst_value(x, m, seen) for x in v)
        if isinstance(v, Opaque):
            r = subst(v.a, m)
            return Opaque(r) if isinstance(r, Atom) else r
        if isinstance(v, SymStr):
            return SymStr(subst(v.p, m))
        if isinstance(v, BoolArr):
            vs = [fresh_index() for _ in v.vs]
            c = v.at([atom_poly(x) for x in vs])
            return BoolArr(vs, subst(v.shape, m), subst(c, m))
        if isinstance(v, IndexArr):
            return IndexArr(subst(v.f, m))
        if isinstance(v, graphs.FilterSeq):
            return graphs.FilterSeq(subst(v.m, m), lambda k: subst(v.cond(k), m), lambda k: self.subst_value(v.elem(k), m), v.facts)
        if getattr(v, "gens", None) is not None:
            from . import sets
            g = v.gens.map(lambda x: subst(x, m))
            if isinstance(v, sets.GenSeq):
                return sets.GenSeq(g, v.kind)
            if v.key is None:
                s = sets.SortedSeq(v.n, v.at)
                s.gens = g
                return s
        if isinstance(v, SeqVal):
            return SeqVal(subst(v.n, m), lambda k, v=v: self.subst_value(v.at(k), m), key=subst(v.key, m) if v.key is not None else None, kind=v.kind)
        if isinstance(v, Ref):
            if v.id in seen:
                return seen[v.id]
            o = self.st.heap[v.id]
            n = self.subst_obj(o, m, seen)
            if n is o:
                return v
            r = self.alloc(n)
            seen[v.id] = r
            return r
        return v

    def subst_obj(self, o, m, seen):
        if isinstance(o, Arr):
            t = subst(o.t, m)
            return o if t is o.t else Arr(t, o.kind, o.dtype)
        if isinstance(o, ListObj):
            if o.items is not None:
                it = tuple(self.subst_value(x, m, seen) for x in o.items)
                return o if all(a is b for a, b in zip(it, o.items)) else ListObj(items=it)
            if o.seq.key is not None and subst(o.seq.key, m) is o.seq.key:
                return o
            return ListObj(seq=self.subst_value(o.seq, m, seen))
        if isinstance(o, DictObj) and o.items is not None:
            it = {k: self.subst_value(x, m, seen) for k, x in o.items.items()}
            return o if all(it[k] is o.items[k] for k in it) else DictObj(items=it)
        if isinstance(o, SetObj) and o.base is not None:
            return SetObj(tuple(self.subst_value(x, m, seen) for x in o.items), base=o.base.map(lambda x: subst(x, m)))
        if isinstance(o, DictObj) and isinstance(o.base, tuple):
            return DictObj(base=(o.base[0], self.subst_value(o.base[1], m, seen)))
        return o

    # ------------------------------------------------------------ truth
    def truth_cond(self, v):
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, Cond):
            return v
        if v is None:
            return FALSE
        if isinstance(v, str):
            return TRUE if v else FALSE
        if isinstance(v, Poly):
            return c_not(eq0(v))
        if isinstance(v, tuple):
            return TRUE if len(v) else FALSE
        if isinstance(v, SymStr):
            return c_not(eqc(v.p, code("")))
        if isinstance(v, (Func, ClassVal, Bound, Builtin)):
            return TRUE
        if isinstance(v, Ref):
            o = self.deref(v)
            if isinstance(o, Inst):
                return TRUE
            if isinstance(o, (ListObj, DictObj, SetObj)):
                return c_not(eqc(self.lib.length(v), 0))
        raise Unsupported(f"truth of {type(v).__name__}")

    def truth(self, v):
        c = v if isinstance(v, Cond) else self.truth_cond(v)
        return self.branch(c)

    # ------------------------------------------------------- attributes
    def getattr(self, obj, name):
        if isinstance(obj, ModuleVal):
            env = self.module_env(obj.name)
            if env is not None:
                return self.import_name(obj.name, name)
            return self.lib.external(obj.name, name)
        if isinstance(obj, tuple) and len(obj) == 3 and obj[0] == "super":
            _, cls, inst = obj
            for k in cls.mro()[1:]:
                if name in k.attrs:
                    return self.bind_attr(k.attrs[name], inst)
            raise Unsupported("super()." + name)
        if isinstance(obj, ClassVal):
            _, v = obj.lookup(name)
            if v is None:
                if name == "__name__":
                    return obj.name
                raise PyRaise("AttributeError", name)
            if isinstance(v, ClassMethodVal):
                return Bound(v.fn, obj)
            return v.fn if isinstance(v, StaticVal) else v
        if isinstance(obj, EnumMember):
            if name == "value":
                return obj.value
            if name == "name":
                return obj.name
        if isinstance(obj, Ref):
            o = self.deref(obj)
            if isinstance(o, Inst):
                if name in o.attrs:
                    v = o.attrs[name]
                    if isinstance(v, Undef):
                        raise Unsupported("attribute " + name)
                    return v
                _, v = o.cls.lookup(name)
                if v is None:
                    if o.cls.name.startswith("$"):
                        return self.lib.opaque_attr(obj, o, name)
                    if o.name in ("sc", "arg"):
                        # an object built from its class invariant: the
                        # invariant says nothing about further attributes
                        raise Unsupported(f"attribute {name} is not part of the class invariant of {o.cls.name}")
                    raise PyRaise("AttributeError", name)
                return self.bind_attr(v, obj)
        return self.lib.getattr(obj, name)

    def bind_attr(self, v, obj):
        if isinstance(v, PropertyVal):
            return self.call(v.fn, [obj], {})
        if isinstance(v, StaticVal):
            return v.fn
        if isinstance(v, Func):
            return Bound(v, obj)
        if isinstance(v, ClassMethodVal):
            return Bound(v.fn, self.deref(obj).cls)
        if isinstance(v, Method):
            return Builtin("method", lambda *a, **k: v.fn(obj, *a, **k))
        if isinstance(v, Undef):
            raise Unsupported("attribute without a known value")
        return v

    def setattr(self, obj, name, v):
        o = self.deref(obj)
        if not isinstance(o, Inst):
            raise Unsupported("attribute assignment")
        _, cv = o.cls.lookup(name)
        if isinstance(cv, PropertyVal):
            if cv.setter is None:
                raise PyRaise("AttributeError", name)
            return self.call(cv.setter, [obj, v], {})
        attrs = dict(o.attrs)
        attrs[name] = v
        self.store(obj, Inst(o.cls, attrs, o.name))

    # ------------------------------------------------------------ loops
    def s_For(self, s, env):
        from .loops import run_for
        run_for(self, s, env)


def pure(e):
    return all(isinstance(n, (ast.Compare, ast.Name, ast.Constant, ast.Attribute, ast.BoolOp, ast.UnaryOp, ast.BinOp, ast.Load, ast.operator, ast.cmpop, ast.boolop, ast.unaryop, ast.Call))
               and (not isinstance(n, ast.Call) or (isinstance(n.func, ast.Name) and n.func.id in ("len", "abs")))
               for n in ast.walk(e))
