"""Contracts of torch / gpytorch as far as pytspl's kernels and trainer use
them.  TRUSTED, like lib.py.

  Positive().transform(x)            softplus(x), elementwise
  Positive().inverse_transform(v)    softplusinv(v); softplus(softplusinv(v)) = v for v > 0
  Kernel.register_parameter(n, p)    self.n = p
  Kernel.register_constraint(n, c)   self.n_constraint = c
  Kernel.initialize(n=v)             self.n = v broadcast to the shape of the parameter
"""

from . import terms as T
from . import theory
from .terms import *
from .values import *


def register(L):
    I = L.I

    def shaped(shape, value):
        return T.full(shape, value)

    def k_init(me, *a, **k):
        return None

    def put(me, name, v):
        o = I.deref(me)
        attrs = dict(o.attrs)
        attrs[name] = v
        I.store(me, Inst(o.cls, attrs, o.name))

    def k_param(me, name, parameter):
        put(me, name, parameter)

    def k_constraint(me, param_name, constraint, replace=True):
        if param_name not in I.deref(me).attrs:
            raise PyRaise("RuntimeError", "constraint of an unknown parameter")
        put(me, param_name + "_constraint", constraint)

    def k_initialize(me, **kw):
        for name, v in kw.items():
            o = I.deref(me)
            if name not in o.attrs:
                raise PyRaise("AttributeError", name)
            old = L.tensor_of(o.attrs[name])[0]
            new = I.deref(v)
            if L.is_scalar(new):
                t = shaped(old.shape, L.scalar(new))
            else:
                t, _, _ = L.tensor_of(v)
                if t.ndim == 0 or all(s is ONE for s in t.shape):
                    t = shaped(old.shape, elem(t, [ZERO] * t.ndim))
                elif len(t.shape) != len(old.shape):
                    raise Unsupported("initialize with another shape")
            put(me, name, I.arr(t, "torch", "float"))
        return me

    L.ext["gpytorch.kernels.Kernel"] = ClassVal("Kernel", "gpytorch.kernels", [], {
        "__init__": Method(k_init), "register_parameter": Method(k_param),
        "register_constraint": Method(k_constraint), "initialize": Method(k_initialize),
    })

    def apply(name, p):
        a = p.single_atom()
        if name == "softplus" and a is not None and a.op == "softplusinv":
            return num(a.args[0])
        return fn(name, p)

    def elementwise(name):
        def f(me, x):
            theory.USED.add("gpytorch Positive: transform = softplus, inverse_transform its inverse on positive values")
            o = I.deref(x)
            if L.is_scalar(o):
                return apply(name, L.scalar(o))
            t, kind, dt = L.tensor_of(x)
            return I.arr(T.emap(lambda v: apply(name, v), t), kind, "float")
        return Method(f)
    L.ext["gpytorch.constraints.Positive"] = ClassVal("Positive", "gpytorch.constraints", [], {
        "__init__": Method(lambda me: None),
        "transform": elementwise("softplus"), "inverse_transform": elementwise("softplusinv"),
    })

    L.reg("torch.nn.Parameter", lambda x, requires_grad=True: x)
    L.reg("torch.is_tensor", lambda x: isinstance(I.deref(x), Arr) and I.deref(x).kind == "torch")

    def as_tensor(x, dtype=None, device=None):
        o = I.deref(x)
        if L.is_scalar(o):
            return I.arr(T.full((), L.scalar(o)), "torch", "float")
        t, kind, dt = L.tensor_of(x)
        return I.arr(t, "torch", dt)
    L.reg("torch.as_tensor", as_tensor)

    def filled(value):
        def f(*dims, **k):
            if len(dims) == 1 and isinstance(I.deref(dims[0]), (tuple, ListObj)):
                dims = L.concrete_items(dims[0])
            if set(k) - {"dtype", "device", "requires_grad"}:
                raise Unsupported("torch options")
            return I.arr(T.full(tuple(L.scalar(d) for d in dims), value), "torch", "float")
        return f
    L.reg("torch.zeros", filled(ZERO))
    L.reg("torch.ones", filled(ONE))

    L.reg("torch.device", lambda x="cpu", *a: x if isinstance(x, Opaque) else Opaque(T.atom("osym", f"device:{x}")))
    L.reg("torch.std", lambda x, **k: L.reduce(x, "std", **k))

    def split_indices(n, ratio, seed):
        """index arrays (train, test) of sklearn's train_test_split: by its
        contract disjoint, covering 0..n-1, determined by (n, ratio, seed)"""
        theory.USED.add("sklearn train_test_split: disjoint covering index arrays determined by the length, train_size and random_state")
        k = fn("floor", fn("trainsize", n, ratio))
        out = []
        for nm, m in (("train", k), ("test", n - k)):
            v = t_base(T.atom("tfn", "split_" + nm, (m,), n, ratio, seed, "int"))
            I.index_facts.add((v, n))
            out.append(v)
        return out
    L.split_indices = split_indices

    def train_test_split(*arrays, train_size=None, random_state=None, **k):
        if k or train_size is None or random_state is None:
            raise Unsupported("train_test_split options")
        n = L.length(arrays[0])
        for a in arrays[1:]:
            L.same_dim(L.length(a), n)
        idx = [I.arr(v, "nd", "int") for v in split_indices(n, L.scalar(train_size), L.scalar(random_state))]
        out = []
        for a in arrays:
            for i in idx:
                out.append(L.getitem(a, i))
        return I.new_list(out)
    L.reg("sklearn.model_selection.train_test_split", train_test_split)
