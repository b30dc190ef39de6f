"""Symbolic sequences with scalar or scalar-tuple elements."""

from .terms import *
from .terms import atom
from .values import SeqVal, Unsupported, SymStr
from . import terms as T


def seq_node(name, n, arity):
    return atom("seq", name, num(n), arity)


def named_seq(name, n, arity, sort="int", kind="list", elem_kind="tuple"):
    """sequence of integers (arity 0) or of tuples of integers"""
    node = seq_node(name, n, arity)

    def at(k):
        k = num(k)
        if arity == 0:
            return fn("iseq", atom("seqf", name, 0), (k,))
        return tuple(fn("iseq", atom("seqf", name, j), (k,)) for j in range(arity))

    s = SeqVal(n, at, key=node, kind=kind)
    return s


def field(node, j, k):
    return fn("iseq", atom("seqf", node.args[0], j), (k,))


def matches(node, k, key):
    return c_and(*[eqc(field(node, j, k), x) for j, x in enumerate(key)])


def contains(node, key):
    v = fresh_index()
    return exists(v, node.args[1], matches(node, atom_poly(v), key))


def index_of(node, key):
    return fn("iof", node, tuple(key))


def index_axiom(a):
    node, key = a.args
    i = atom_poly(a)
    return c_or(c_not(contains(node, key)), c_and(le(0, i), lt(i, node.args[1]), matches(node, i, key)))


def own_index(node, key):
    """k if key is the k-th element, written as such, of a sequence of
    distinct elements"""
    from . import solver
    if solver.SEQ_FACTS.get(node.args[0], (0, 0, None))[2] is None:
        return None
    ks = set()
    for j, x in enumerate(key):
        if len(x.args) != 1:
            return None
        a = x.single_atom()
        if a is None or atom_poly(a) is not x or a.op != "iseq" or a.args[0] is not atom("seqf", node.args[0], j):
            return None
        ks.add(a.args[1])
    return ks.pop()[0] if len(ks) == 1 else None
