"""Dictionaries built from symbolic sequences of pairs, seeded generators and
tables read from files.

TRUSTED library contracts (like lib.py):

  random.Random(seed).random()   number k of a stream determined by the seed,
                                 in [0, 1)
  nx.erdos_renyi_graph(n, p, seed) (gnp_random_graph, fast_gnp_random_graph)
                                 a graph with the nodes 0..n-1 and distinct
                                 undirected edges without loops, determined by
                                 (n, p, seed)
  nx.spring_layout(G, seed)      one position per node, determined by G and seed
"""

from . import graphs, seqs, sets, solver
from . import terms as T
from .terms import *
from .terms import atom
from .values import *


# ------------------------------------------------- dictionaries from pairs
def distinct_keys(lib, s):
    """the pairs of s have pairwise different keys"""
    if getattr(s, "is_havoc", False) or getattr(s, "parts", None):
        raise Unsupported("dictionary of an irregular sequence")
    I = lib.I
    v = T.fresh_index()
    if isinstance(s, graphs.FilterSeq):
        key = None
    else:
        try:
            key = s.at(atom_poly(v))[0]
        except Unsupported:
            key = None
    if isinstance(key, Opaque) and key.a.op == "ofn" and key.a.args[1:] == (atom_poly(v),):
        return      # the keys of another dictionary
    if key is not None and key is atom_poly(v):
        return
    m, cond, el, facts = graphs.domain(s)
    j, k = atom_poly(T.fresh_index()), atom_poly(T.fresh_index())
    hyp = [le(ZERO, j), lt(j, k), lt(k, m)]
    if cond is not None:
        hyp += [cond(j), cond(k)]
    same = sets.same(sets.key_of(lib, el(j)[0]), sets.key_of(lib, el(k)[0]))
    if not I.entails_under(hyp, c_not(same)):
        raise Unsupported("dictionary keys that may coincide")


def comp_index(lib, s, tag="comp"):
    """(has(key), index(key)) of the dictionary with the pairs of s.  The last
    pair of a key counts (the first one for tag 'first')"""
    if getattr(s, "is_havoc", False) or getattr(s, "parts", None):
        raise Unsupported("dictionary of an irregular sequence")
    if tag == "first" or isinstance(s, graphs.FilterSeq):
        return any_index(lib, s, tag)
    I = lib.I
    v = T.fresh_index()
    kp = atom_poly(v)
    n0 = len(I.st.pc)
    I.assume(le(ZERO, kp))
    I.assume(lt(kp, s.n))
    try:
        key = s.at(kp)[0]
    finally:
        del I.st.pc[n0:]
    if isinstance(key, Opaque) and key.a.op == "ofn" and key.a.args[1:] == (kp,):
        # the keys of another dictionary, in its order
        def unknown(k):
            raise Unsupported("lookup in a dictionary with unknown keys")
        return unknown, unknown
    fields = key if isinstance(key, tuple) else (key,)
    if not fields or not all(isinstance(x, Poly) for x in fields):
        return any_index(lib, s, tag)
    if len(fields) == 1 and fields[0] is kp:
        def has1(k):
            k = lib.scalar(k)
            return c_and(le(ZERO, k), lt(k, s.n))
        return has1, lib.scalar
    names = set()
    for j, x in enumerate(fields):
        a = x.single_atom() if x.args and len(x.args) == 1 else None
        if a is None or atom_poly(a) is not x or a.op != "iseq" or a.args[0].op != "seqf" or a.args[1] != (kp,) or a.args[0].args[1] != j:
            return any_index(lib, s, tag)
        names.add(a.args[0].args[0])
    name = names.pop()
    if names or solver.SEQ_FACTS.get(name, (0, 0, None))[2] is None:
        return any_index(lib, s, tag)
    node = seqs.seq_node(name, s.n, len(fields) if isinstance(key, tuple) else 0)

    def tup(k):
        k = k[1:] if isinstance(k, tuple) and k and k[0] == "tuple" else k if isinstance(k, tuple) else (k,)
        return tuple(lib.scalar(x) for x in k)

    def index(k):
        own = seqs.own_index(node, tup(k))
        return seqs.index_of(node, tup(k)) if own is None else own
    return (lambda k: seqs.contains(node, tup(k)) if len(tup(k)) == len(fields) else FALSE), index


def any_index(lib, s, tag):
    """the same for any keys that can be compared"""
    m, cond, el, facts = graphs.domain(s)

    def hit(k, key):
        c = sets.same(sets.key_of(lib, el(k)[0]), key)
        return c if cond is None else c_and(cond(k), c)

    def has(k):
        v = T.fresh_index()
        return T.exists(v, m, hit(atom_poly(v), sets.key_of(lib, k)))

    def own(key):
        """the index i of a key that is, as written, the key of pair i, if
        the keys are pairwise different"""
        cands = {}

        def walk(x):
            if isinstance(x, tuple):
                for y in x:
                    walk(y)
            elif isinstance(x, T.Node):
                if x.op in ("iseq", "elem"):
                    for q in x.args[1]:
                        if q.is_int():
                            cands[q] = True
                elif x.op == "poly":
                    walk(x.args)
        walk(key)
        rng = lambda q: c_and(le(ZERO, q), lt(q, m))
        for q in cands:
            if sets.key_of(lib, el(q)[0]) == key and lib.I.entails(rng(q)) and (cond is None or lib.I.entails(cond(q))):
                try:
                    distinct_keys(lib, s)
                except Unsupported:
                    return None
                return q
        return None

    def index(k):
        key = sets.key_of(lib, k)
        i = own(key)
        if i is not None:
            return i
        v = T.fresh_index()
        kp = atom_poly(v)
        if tag == "first":
            return T.first_ix(v, m, hit(kp, key))
        last = m - ONE
        return last - T.first_ix(v, m, hit(last - kp, key))
    return has, index


def comp_get(lib, base, k, default, has_default):
    tag, s = base
    has, index = comp_index(lib, s, tag)
    if not lib.I.truth(has(k)):
        if has_default:
            return default
        raise PyRaise("KeyError")
    return comp_at(lib, s, index(k))


def comp_at(lib, s, i):
    return graphs.domain(s)[2](i)[1]


def set_default(lib, obj, k, v):
    """obj.setdefault(k, v) on a dictionary that a loop builds"""
    o = lib.I.deref(obj)
    from .lib import concat_seq, tuple_seq
    k = tuple(k[1:]) if isinstance(k, tuple) and k and k[0] == "tuple" else k
    if o.items is not None:
        if o.items:
            raise Unsupported("setdefault")
        lib.I.store(obj, DictObj(base=("first", tuple_seq(lib, ((k, v),)))))
        return v
    tag, s = o.base
    if tag != "first" and not getattr(s, "is_havoc", False):
        raise Unsupported("stores and defaults in a dictionary")
    lib.I.store(obj, DictObj(base=("first", concat_seq(lib, s, tuple_seq(lib, ((k, v),))))))
    return UNDEF


def value_at(lib, d, key):
    """d[key] of a dictionary with symbolic content, known to hold the key"""
    o = lib.I.deref(d)
    if o.items is None and isinstance(o.base, tuple):
        tag, s = o.base
        return comp_at(lib, s, comp_index(lib, s, tag)[1](key))
    if o.items is None and o.base.getf is not None:
        return o.base.getf(key)
    raise Unsupported("dictionary")


# --------------------------------------------------------------- generators
def edge_facts(name, n0, n1, ordered=False):
    """n1 pairwise different undirected edges without loops over 0..n0-1"""
    f = lambda j, k: fn("iseq", atom("seqf", name, j), (num(k),))

    def per(k):
        u, v = f(0, k), f(1, k)
        out = c_and(le(ZERO, u), lt(u, n0), le(ZERO, v), lt(v, n0), c_not(eqc(u, v)))
        return c_and(out, lt(u, v)) if ordered else out

    def pair(k, q):
        a, b, x, y = f(0, k), f(1, k), f(0, q), f(1, q)
        return c_and(c_not(c_and(eqc(a, x), eqc(b, y))), c_not(c_and(eqc(a, y), eqc(b, x))))
    solver.SEQ_FACTS[name] = (n1, per, pair)


def register(L):
    I, E = L.I, L.ext
    L.edge_facts = edge_facts
    # a seed taken from the state of the global generators
    L.unseeded = lambda: L.stream("unseeded", [])
    rng = ClassVal("Random", "random", [], {})

    def init(me, seed=None):
        seed = L.unseeded() if I.deref(seed) is None else L.scalar(seed)
        key = atom("pyrandom", seed)
        I.store(me, Inst(rng, dict(key=key, seed=seed), "Random"))
        # a generator of its own, whatever other generators have that seed
        k = key
        while k in I.st.streams:
            k = atom("pyrandom", k)
        I.deref(me).attrs["key"] = k
        I.st.streams[k] = ZERO

    def random(me):
        o = I.deref(me)
        k, seed = o.attrs["key"], o.attrs["seed"]
        pos = I.st.streams[k]
        I.st.streams[k] = pos + ONE
        for lg in I.logs:
            lg.streams.add(k)
        x = fn("pyrand", seed, pos)
        I.assume(le(ZERO, x))
        I.assume(lt(x, ONE))
        return x

    def uniform(me, a, b):
        a = L.scalar(a)
        return a + (L.scalar(b) - a) * random(me)

    def global_random():
        return L.stream("python", [])
    rng.attrs.update({"__init__": Method(init), "random": Method(random), "uniform": Method(uniform)})
    E["random.Random"] = rng
    E["random.random"] = Builtin("random.random", global_random)
