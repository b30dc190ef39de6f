"""Values of the symbolic executor."""

from .terms import *
from .terms import atom, Node


class Unsupported(Exception):
    """outside the supported subset of the language / libraries"""


class PyRaise(Exception):
    def __init__(self, etype, msg=""):
        self.etype = etype
        self.msg = msg
        super().__init__(f"{etype}: {msg}")


class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return f"Ref({self.id})"

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))


class Arr:
    """array content (immutable; heap cells are replaced)"""
    __slots__ = ("t", "kind", "dtype")

    def __init__(self, t, kind="nd", dtype="float"):
        self.t, self.kind, self.dtype = t, kind, dtype

    def __repr__(self):
        return f"Arr[{self.kind}]({self.t!r}, shape={self.t.shape})"


class BoolArr:
    """elementwise condition"""

    def __init__(self, vs, shape, c):
        self.vs, self.shape, self.c = vs, shape, c

    def at(self, idx):
        return subst(self.c, dict(zip(self.vs, idx)))


class IndexArr:
    """ascending indices selected by a condition (np.where(c)[0])"""

    def __init__(self, f):
        self.f = f  # atom 'filter'


class ListObj:
    __slots__ = ("items", "seq")

    def __init__(self, items=None, seq=None):
        self.items = items  # tuple of values (concrete length) or None
        self.seq = seq      # SeqVal


class DictObj:
    """items: dict concrete key -> value, or base: symbolic"""
    __slots__ = ("items", "base")

    def __init__(self, items=None, base=None):
        self.items, self.base = items, base


class IterObj:
    """a one-shot iterator (zip, map, a generator, ...): seq is what is left"""
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq


class SetObj:
    """concrete items, and symbolic ones (sets.GenSet) in base"""
    __slots__ = ("items", "base")

    def __init__(self, items, base=None):
        self.items, self.base = items, base


class Inst:
    __slots__ = ("cls", "attrs", "name")

    def __init__(self, cls, attrs, name=None):
        self.cls, self.attrs, self.name = cls, attrs, name


class SeqVal:
    """immutable symbolic sequence: length, element function; key identifies
    the content canonically (atom) if known"""

    def __init__(self, n, at, key=None, kind="list"):
        self.n, self.at, self.key, self.kind = num(n), at, key, kind


class Opaque:
    """a value known only by name"""
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.a is self.a

    def __hash__(self):
        return hash(("opaque", self.a.id))

    def __repr__(self):
        return f"Opaque({self.a!r})"


class SymStr:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


_CODES = {}


def code(s):
    return num(_CODES.setdefault(s, len(_CODES) + 1))


class Undef:
    pass


class DeadView:
    """a view whose base was written afterwards"""


UNDEF = Undef()


class Func:
    def __init__(self, node, env, module, qualname, cls=None, defaults=(), kwdefaults=None):
        self.node, self.env, self.module, self.qualname, self.cls = node, env, module, qualname, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}


class Bound:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<{self.name}>"


class ClassVal:
    def __init__(self, name, module, bases, attrs):
        self.name, self.module, self.bases, self.attrs = name, module, bases, attrs

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                out += [x for x in b.mro() if x not in out]
        return out

    def lookup(self, name):
        for k in self.mro():
            if name in k.attrs:
                return k, k.attrs[name]
        return None, None


class PropertyVal:
    def __init__(self, fn, setter=None):
        self.fn, self.setter = fn, setter


class ClassMethodVal:
    def __init__(self, fn):
        self.fn = fn


class Method:
    """method of a library class: fn(self reference, ...)"""

    def __init__(self, fn):
        self.fn = fn


class StaticVal:
    def __init__(self, fn):
        self.fn = fn


class EnumMember:
    def __init__(self, name, value):
        self.name, self.value = name, value


class ModuleVal:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<module {self.name}>"


class ExcType:
    def __init__(self, name):
        self.name = name


EXC_PARENTS = {
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "ValueError": "Exception", "TypeError": "Exception", "AttributeError": "Exception",
    "AssertionError": "Exception", "FileNotFoundError": "OSError", "OSError": "Exception",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception", "NameError": "Exception", "UnboundLocalError": "NameError", "StopIteration": "Exception",
    "Exception": None, "UserWarning": "Exception",
}


def exc_matches(name, handler):
    while name:
        if name == handler:
            return True
        name = EXC_PARENTS.get(name)
    return False
