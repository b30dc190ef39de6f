"""Filtered sequences and the networkx contract used by SCBuilder.

TRUSTED contract of networkx, like lib.py:

  g = Graph(); g.add_edges_from(E); enumerate_all_cliques(g)
      a sequence in which every clique of the undirected graph with the edges
      E occurs exactly once (in an unspecified order), each as a list of
      distinct nodes
  sorted(clique)
      its nodes in ascending order
"""

from . import seqs
from . import terms as T
from .terms import *
from .terms import atom
from .values import *


class FilterSeq(SeqVal):
    """[elem(k) for k in range(m) if cond(k)], with facts(k) known for every k"""

    def __init__(self, m, cond, elem, facts=None):
        v = T.fresh_index()
        n = atom_poly(atom("ilen", T.filter_ix(v, num(m), cond(atom_poly(v)))))
        SeqVal.__init__(self, n, self.no_item, kind="filtered")
        self.m, self.cond, self.elem, self.facts = num(m), cond, elem, facts

    def no_item(self, k):
        raise Unsupported("item of a filtered sequence")


def domain(it):
    """(m, cond, elem, facts) of a sequence that is iterated over"""
    if isinstance(it, FilterSeq):
        return it.m, it.cond, it.elem, it.facts
    return it.n, None, it.at, getattr(it, "facts", None)


def generic(I, it, kp):
    """assume 0 <= kp < m, the condition and the facts; the element at kp"""
    m, cond, elem, facts = domain(it)
    I.assume(le(ZERO, kp))
    I.assume(lt(kp, m))
    if facts is not None:
        I.assume(facts(kp))
    if cond is not None:
        I.assume(cond(kp))
    return elem(kp)


SKIP = object()
UNKNOWN = object()


def filtered_map(I, it, f):
    """f(x) -> (keep?, value) on a generic element, all paths merged"""
    m, cond, elem, facts = domain(it)
    v = T.fresh_index()
    kp = atom_poly(v)

    def body():
        keep, val = f(generic(I, it, kp))
        return val if keep else SKIP
    good = []
    for kind, val, st, conds in I.explore(body):
        c = c_and(*conds)
        if kind == "raise":
            ex = T.exists(v, m, c if cond is None else c_and(cond(kp), c))
            if I.branch(ex):
                raise PyRaise(val.etype, val.msg)
        elif kind != "value":
            raise Unsupported("comprehension")
        else:
            if st.rand != I.st.rand or st.streams != I.st.streams:
                raise Unsupported("comprehension with side effects")
            for k, o in st.heap.items():
                if k in I.st.heap and I.st.heap[k] is not o:
                    raise Unsupported("comprehension with side effects")
            if val is not SKIP:
                good.append((c, val, st))
    if not good:
        return ()
    keep = c_or(*[c for c, _, _ in good])
    if cond is not None:
        keep = c_and(cond(kp), keep)
    val, heap = I.merge_values(good)
    I.st.heap.update({k: o for k, o in heap.items() if k not in I.st.heap})
    return FilterSeq(m, lambda k: subst(keep, {v: num(k)}), lambda k: I.subst_value(val, {v: num(k)}), facts)


# ---------------------------------------------------------------- cliques
def size_of(name, k):
    return fn("iseq", atom("seqf", "clique-size:" + name, 0), (num(k),))


def node_of(name, k, j, ordered=False):
    return fn("iseq", atom("seqf", ("sorted-" if ordered else "") + "clique:" + name, 0), (num(k), num(j)))


def joined(edges, a, b):
    return c_or(seqs.contains(edges, (a, b)), seqs.contains(edges, (b, a)))


def cliques(I, edges):
    """edges: atom 'seq' of an edge list"""
    name = edges.args[0]
    n = sym("cliques:" + name, "int")
    I.assume(le(ZERO, n))

    def at(k):
        k = num(k)
        return I.alloc(ListObj(seq=SeqVal(size_of(name, k), lambda j: node_of(name, k, j), key=atom("clique", name, k))))

    def facts(k):
        a, b, c = (node_of(name, k, j, True) for j in range(3))
        s = size_of(name, k)
        return c_and(le(ONE, s), c_or(c_not(eqc(s, num(3))), c_and(lt(a, b), lt(b, c), joined(edges, a, b), joined(edges, a, c), joined(edges, b, c))))
    facts.cliques_of = edges
    s = SeqVal(n, at, key=atom("seqof", "cliques", edges), kind="cliques")
    s.facts = facts
    return s


def register(L):
    I, E = L.I, L.ext
    graph = ClassVal("Graph", "networkx", [], {})

    def edges_of(me):
        e = I.deref(me).attrs["$edges"]
        if e is UNKNOWN:
            raise Unsupported("edges of this graph")
        return e

    def add(me, ebunch):
        o = I.deref(me)
        it = L.iterate(ebunch)
        if o.attrs["$edges"] is not None:
            raise Unsupported("edges of a graph")
        known = isinstance(it, SeqVal) and it.key is not None and it.key.op == "seq" and it.key.args[2] == 2
        # of a graph with other edges nothing is known
        I.store(me, Inst(o.cls, {**o.attrs, "$edges": it.key if known else UNKNOWN}, o.name))

    def init(me, data=None):
        I.store(me, Inst(I.deref(me).cls, {"$edges": None, "$nodes": None}, "graph"))
        if data is not None:
            add(me, data)

    def add_nodes(me, ns):
        o = I.deref(me)
        it = L.iterate(ns)
        if o.attrs["$nodes"] is None and o.attrs.get("$drawn") is None and isinstance(it, SeqVal) and it.key is not None and it.key.args[0] == "nodes":
            I.store(me, Inst(o.cls, {**o.attrs, "$drawn": it}, o.name))
    graph.attrs.update({"__init__": Method(init), "add_edges_from": Method(add), "add_nodes_from": Method(add_nodes)})
    E["networkx.Graph"] = graph
    generated(L, graph)

    def enum(g):
        e = edges_of(g)
        if e is None:
            return I.alloc(IterObj(()))
        return I.alloc(IterObj(cliques(I, e)))
    E["networkx.enumerate_all_cliques"] = Builtin("networkx.enumerate_all_cliques", enum)


NAMES = {}     # attribute names ever stored on the edges of a graph


def generated(L, graph):
    """seeded random graphs, their nodes, edges and edge attributes"""
    I, E = L.I, L.ext
    M = sym("attribute-names", "int")

    def make(kind, n, p, seed=None, directed=False):
        if I.truth_cond(directed) is not FALSE:
            raise Unsupported("directed graph")
        if L.I.deref(seed) is None:
            seed = L.unseeded()
        n, p, seed = L.scalar(n), L.scalar(p), L.scalar(seed)
        name = f"gnp{atom('gnp', n, p, seed).id}"
        m = fn("iseq", atom("seqf", "gnp-edges", 0), (n, p, seed))
        I.assume(le(ZERO, m))
        n0 = fn("maxz", n) if not I.entails(le(ZERO, n)) else n
        L.edge_facts(name, n0, m, ordered=True)
        node = seqs.seq_node(name, m, 2)
        # a fixed table per graph: whether edge k has attribute c, and its value
        table = lambda: I.arr(T.tensor((m, M), {}))
        return I.alloc(Inst(graph, {"$edges": node, "$nodes": n0, "table": table(), "has": table(), "name": name}, "graph"))
    for nm in ("erdos_renyi_graph", "gnp_random_graph", "fast_gnp_random_graph", "binomial_graph"):
        kind = "fast" if nm.startswith("fast") else "gnp"
        E["networkx." + nm] = Builtin("networkx." + nm, lambda n, p, seed=None, directed=False, kind=kind: make(kind, n, p, seed, directed))

    def at(me, a):
        v = I.deref(me).attrs.get(a)
        if v is None or v is UNKNOWN:
            raise Unsupported("nodes or edges of this graph")
        return v

    def nodes(me):
        n = at(me, "$nodes")
        return I.alloc(ListObj(seq=SeqVal(n, lambda k: num(k), key=atom("seq", "nodes", n, 0))))

    def edge_seq(me):
        e = at(me, "$edges")
        if I.deref(me).attrs["$nodes"] is None:
            raise Unsupported("edges of this graph")
        return seqs.named_seq(e.args[0], e.args[1], 2)

    def edges(me, nbunch=None, data=False):
        s = edge_seq(me)
        if nbunch is not None:
            raise Unsupported("edges of some nodes")
        if data is False:
            return I.alloc(ListObj(seq=s))
        if data is True:
            return I.alloc(ListObj(seq=SeqVal(s.n, lambda k: s.at(k) + (attributes(me, num(k)),))))
        raise Unsupported("edge data")

    def position(me, u, v):
        """index of the edge between u and v (KeyError without one)"""
        e = at(me, "$edges")
        u, v = L.scalar(u), L.scalar(v)
        k = seqs.own_index(e, (u, v))
        if k is not None:
            return k
        if I.truth(seqs.contains(e, (u, v))):
            return seqs.index_of(e, (u, v))
        if I.truth(seqs.contains(e, (v, u))):
            return seqs.index_of(e, (v, u))
        raise PyRaise("KeyError")

    adj = ClassVal("$adjacency", "networkx", [], {})
    view = ClassVal("$edges", "networkx", [], {})
    attr = ClassVal("$attributes", "networkx", [], {})
    own = lambda me, a: I.deref(me).attrs[a]

    def attributes(me, k):
        return I.alloc(Inst(attr, dict(graph=me, at=k), "attributes"))
    adj.attrs["__getitem__"] = Method(lambda me, v: attributes(own(me, "graph"), position(own(me, "graph"), own(me, "node"), v)))
    view.attrs["__getitem__"] = Method(lambda me, e: attributes(own(me, "graph"), position(own(me, "graph"), *L.unpack(e, 2))))
    view.attrs["__call__"] = Method(lambda me, nbunch=None, data=False: edges(own(me, "graph"), nbunch, data))
    view.attrs["__iter__"] = Method(lambda me: edges(own(me, "graph")))
    view.attrs["__len__"] = Method(lambda me: edge_seq(own(me, "graph")).n)
    nview = ClassVal("$nodes", "networkx", [], {})
    nview.attrs["__call__"] = Method(lambda me: nodes(own(me, "graph")))
    nview.attrs["__iter__"] = Method(lambda me: nodes(own(me, "graph")))
    nview.attrs["__len__"] = Method(lambda me: at(own(me, "graph"), "$nodes"))

    def cell(me, what):
        return I.deref(at(me, what)).t

    def put(g, name, cond, value):
        """set the attribute on the edges k with cond(k)"""
        if not isinstance(name, str) or not L.is_scalar(value(ZERO)):
            raise Unsupported("edge attribute")
        NAMES.setdefault(at(g, "name"), set()).add(name)
        c = code(name)
        for what, val in (("table", lambda k: L.scalar(value(k))), ("has", lambda k: ONE)):
            old = cell(g, what)
            vs = [T.fresh_index(), T.fresh_index()]
            p = [atom_poly(v) for v in vs]
            i = ind(c_and(cond(p[0]), eqc(p[1], c)))
            I.store(at(g, what), Arr(T.lam(vs, old.shape, i * val(p[0]) + (ONE - i) * elem(old, p)), "nd"))

    def set_item(me, name, value):
        k = own(me, "at")
        put(own(me, "graph"), name, lambda q: eqc(q, k), lambda q: value)

    def known(me):
        """[(name, value)] of the attributes an edge has"""
        g, k = own(me, "graph"), own(me, "at")
        out = []
        for name in sorted(NAMES.get(at(g, "name"), ())):
            h = elem(cell(g, "has"), (k, code(name)))
            if I.entails(eqc(h, ONE)):
                out.append((name, elem(cell(g, "table"), (k, code(name)))))
            elif not I.entails(eqc(h, ZERO)):
                raise Unsupported("attributes of an edge")
        return out

    def get_item(me, name):
        for n, v in known(me):
            if n == name:
                return v
        if isinstance(name, str):
            raise PyRaise("KeyError")
        raise Unsupported("edge attribute")

    def get(me, name, default=None):
        return dict(known(me)).get(name, default)

    def update(me, other=None, **kw):
        d = I.deref(other).items if other is not None else {}
        for n, v in list(d.items()) + list(kw.items()):
            set_item(me, n, v)
    attr.attrs.update({
        "__setitem__": Method(set_item), "__getitem__": Method(get_item), "get": Method(get), "update": Method(update),
        "items": Method(lambda me: tuple(known(me))), "keys": Method(lambda me: tuple(n for n, _ in known(me))),
        "values": Method(lambda me: tuple(v for _, v in known(me))), "copy": Method(lambda me: I.alloc(DictObj(items=dict(known(me))))),
        "__iter__": Method(lambda me: tuple(n for n, _ in known(me))), "__contains__": Method(lambda me, n: any(x == n for x, _ in known(me))),
        "__len__": Method(lambda me: num(len(known(me)))),
    })

    def set_all(g, values, name=None):
        from . import tables
        o = I.deref(values)
        if L.is_scalar(o):
            return put(g, name, lambda q: TRUE, lambda q: values)
        if not isinstance(o, DictObj) or o.items is not None or not isinstance(o.base, tuple) or name is None:
            raise Unsupported("set_edge_attributes")
        s = o.base[1]
        e = at(g, "$edges")
        v = T.fresh_index()
        key, val = s.at(atom_poly(v))
        if tuple(key) != tuple(seqs.field(e, j, atom_poly(v)) for j in range(2)) or not I.entails(eqc(s.n, e.args[1])):
            raise Unsupported("set_edge_attributes")
        put(g, name, lambda q: TRUE, lambda q: s.at(q)[1])
    E["networkx.set_edge_attributes"] = Builtin("networkx.set_edge_attributes", set_all)

    graph.attrs.update({
        "number_of_edges": Method(lambda me: edge_seq(me).n), "number_of_nodes": Method(lambda me: at(me, "$nodes")),
        "size": Method(lambda me: edge_seq(me).n), "order": Method(lambda me: at(me, "$nodes")),
        "__len__": Method(lambda me: at(me, "$nodes")), "__iter__": Method(nodes),
        "__getitem__": Method(lambda me, u: I.alloc(Inst(adj, dict(graph=me, node=u), "adjacency"))),
        "get_edge_data": Method(lambda me, u, v: attributes(me, position(me, u, v))),
        "has_edge": Method(lambda me, u, v: joined(at(me, "$edges"), L.scalar(u), L.scalar(v))),
        "edges": PropertyVal(Method(lambda me: I.alloc(Inst(view, dict(graph=me), "edges")))),
        "nodes": PropertyVal(Method(lambda me: I.alloc(Inst(nview, dict(graph=me), "nodes")))),
    })

    def layout(kind, g, seed=None, **kw):
        if kw:
            raise Unsupported("layout options")
        if I.deref(seed) is None:
            seed = L.unseeded()
        seed = L.scalar(seed)
        drawn = I.deref(g).attrs.get("$drawn")
        if drawn is not None:      # some position for each of them
            nm = f"{kind}:graph{T.fresh_index().id}"
            val = lambda k: tuple(fn("coordinate", atom("osym", f"{nm}:{j}"), num(k), seed) for j in range(2))
            return I.alloc(DictObj(base=("comp", SeqVal(drawn.n, lambda k: (drawn.at(k), val(k))))))
        if I.deref(g).attrs["$nodes"] is None:      # some positions
            return Opaque(atom("ofn", f"{kind}:graph{T.fresh_index().id}", seed))
        e, n = at(g, "$edges"), at(g, "$nodes")
        if "weight" in NAMES.get(at(g, "name"), ()):
            raise Unsupported("layout of a graph with edge weights")
        val = lambda k: Opaque(atom("ofn", f"{kind}:{e.args[0]}", num(k), seed))
        return I.alloc(DictObj(base=("comp", SeqVal(n, lambda k: (num(k), val(k))))))
    for nm in ("spring_layout", "fruchterman_reingold_layout", "random_layout"):
        E["networkx." + nm] = Builtin("networkx." + nm, lambda G, seed=None, nm=nm, **kw: layout(nm, G, seed, **kw))


def sort_symbolic(L, it):
    """sorted(clique)"""
    if isinstance(it, SeqVal) and it.key is not None and it.key.op == "clique":
        name, k = it.key.args
        return L.I.alloc(ListObj(seq=SeqVal(it.n, lambda j: node_of(name, num(k), num(j), True), key=atom("sorted-clique", name, k))))
    if isinstance(it, SeqVal) and it.key is not None and it.key.op == "sorted-clique":
        return L.I.alloc(ListObj(seq=it))
    if isinstance(it, tuple):
        return L.I.new_list(sort_items(L, it))
    from . import sets
    if isinstance(it, sets.GenSeq) and it.kind == "entries":
        raise Unsupported("sorted list with repeated elements")
    return sets.sort(L, it)


def less(L, a, b):
    """a < b for numbers and for tuples of them (lexicographic)"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if L.I.truth(less(L, x, y)):
                return TRUE
            if not L.I.truth(L.equal(x, y)):
                return FALSE
        return TRUE if len(a) < len(b) else FALSE
    if L.is_scalar(a) and L.is_scalar(b):
        return lt(L.scalar(a), L.scalar(b))
    raise Unsupported("order of these values")


def sort_items(L, items):
    """stable insertion sort; the order is decided by the path"""
    out = []
    for x in items:
        j = len(out)
        while j > 0 and L.I.truth(less(L, x, out[j - 1])):
            j -= 1
        out.insert(j, x)
    return tuple(out)


# ---------------------------------------------------------------- features
def distance(a, b, col):
    return MaybeNone_(eqc(fn("feature-none", a, b, col), ONE), fn("feature", a, b, col))


def MaybeNone_(c, v):
    from .lib import MaybeNone
    return MaybeNone(c, v)


def edge_features(I, edges, name):
    """features of exactly the edges of the list; every edge has every
    feature that is asked for (c.requires_features), some with value None"""
    from .lib import SymDict

    def has(k):
        k = tuple(I.lib.scalar(x) for x in k)
        if len(k) != 2:
            return FALSE
        return seqs.contains(edges.key, k)

    def inner(a, b):
        def get(col):
            p = col.p if isinstance(col, SymStr) else code(col) if isinstance(col, str) else None
            if p is None:
                raise Unsupported("feature name")
            return distance(a, b, p)
        return I.alloc(DictObj(base=SymDict(sym("len:inner", "int"), None, None, lambda c: TRUE, get)))

    def get(k):
        return inner(*(I.lib.scalar(x) for x in k))
    return I.alloc(DictObj(base=SymDict(edges.n, lambda k: edges.at(k), lambda k: inner(*edges.at(k)), has, get)))
