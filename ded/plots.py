"""Contracts of matplotlib and of networkx' drawing as far as pytspl.plot uses
them.  TRUSTED, like lib.py.

An axes is a record of what is drawn on it:

  ax.text(x, y, s)                     one text (x, y, s) more
  ax.scatter(xs, ys, c=c, ...)         points (xs[k], ys[k]) with the value c[k]
  ax.add_patch(Polygon(corners))       one filled area more
  draw_networkx_edges(G, pos, edge_color, ax)
                                       the k-th edge of G.edges() between the
                                       positions of its nodes, with the k-th
                                       of the edge colours
  DiGraph.add_edges_from(E).edges()    the edges of E, each once, in an order
                                       of which nothing is known
  plt.gca()                            the current axes (one per call history)
  spring_layout(G)                     some position for every node of G

Limits, ticks, titles, colour bars, margins and line widths draw nothing.
"""

from . import seqs
from . import terms as T
from .terms import *
from .values import *


def named_cmap(name):
    return Builtin("cmap:" + name, lambda x, *a, **k: Opaque(atom("osym", "colour of " + name)))


def register(L):
    I, E = L.I, L.ext

    def cls(name, module, **methods):
        return ClassVal(name, module, [], {k: m if isinstance(m, (PropertyVal, Method)) else Method(m) for k, m in methods.items()})

    nothing = lambda me, *a, **k: None
    ticks = cls("$ticks", "matplotlib", set_ticks=nothing, set_visible=nothing, tick_params=nothing)
    bar = cls("$colorbar", "matplotlib")
    E["matplotlib.colors.Colormap"] = ClassVal("Colormap", "matplotlib.colors", [], {})
    mappable = cls("ScalarMappable", "matplotlib.cm", set_clim=nothing, set_array=nothing)
    mappable.attrs["__init__"] = Method(nothing)
    E["matplotlib.cm.ScalarMappable"] = mappable

    def iterable(x):
        x = I.deref(x)
        return not (x is None or L.is_scalar(x) or isinstance(x, (bool, Builtin)))
    E["numpy.iterable"] = Builtin("numpy.iterable", iterable)

    for nm in ("Blues", "Reds", "viridis", "plasma", "Greys", "coolwarm"):
        E["matplotlib.pyplot.cm." + nm] = E["matplotlib.cm." + nm] = named_cmap(nm)
    E["matplotlib.pyplot.get_cmap"] = Builtin("matplotlib.pyplot.get_cmap", lambda name=None: named_cmap("current"))
    marks = cls("$collection", "matplotlib", set_zorder=nothing, set_alpha=nothing)
    figure = cls("$figure", "matplotlib", tight_layout=nothing, suptitle=nothing)

    def new_figure(num=None, figsize=None, **k):
        L.current_figure = I.alloc(Inst(figure, dict(networks=I.new_list(())), "figure"))
        return L.current_figure
    L.current_figure = L.last_axes = None

    def add_subplot(me, *place, **k):
        ax = new_axes(me)
        L.current_axes = L.last_axes = ax
        return ax
    figure.attrs["add_subplot"] = Method(add_subplot)
    for nm in ("show", "tight_layout", "draw", "close"):
        E["matplotlib.pyplot." + nm] = Builtin("matplotlib.pyplot." + nm, lambda *a, **k: None)
    E["matplotlib.pyplot.figure"] = Builtin("matplotlib.pyplot.figure", new_figure)

    def new_axes(fig=None):
        fig = fig if fig is not None else new_figure()
        return I.alloc(Inst(axes, dict(
            figure=fig, texts=I.new_list(()), points=I.new_list(()), drawings=I.new_list(()), areas=I.new_list(()), title=I.new_list(())), "axes"))
    L.new_axes = new_axes

    def gca():
        if L.current_axes is None:
            raise Unsupported("current axes")
        return L.current_axes
    L.current_axes = None
    E["matplotlib.pyplot.gca"] = Builtin("matplotlib.pyplot.gca", gca)

    def add(me, what, x):
        ref = I.deref(me).attrs[what]
        I.call(I.getattr(ref, "append"), [x], {})

    def text(me, x, y, s, **k):
        add(me, "texts", (L.scalar(x), L.scalar(y), s))
        return (L.scalar(x), L.scalar(y), s)

    def scatter(me, x, y, s=None, c=None, marker=None, cmap=None, norm=None, vmin=None, vmax=None, alpha=None, **k):
        if norm is not None:
            raise Unsupported("scatter norm")
        add(me, "points", (x, y, c, cmap, vmin, vmax))
        return I.alloc(Inst(marks, {}, "collection"))

    def add_patch(me, p):
        if not (isinstance(p, tuple) and p and p[0] == "$area"):
            raise Unsupported("patch")
        add(me, "areas", p[1])
        return p
    axis = lambda me: I.alloc(Inst(ticks, {}, "axis"))
    axes = cls("Axes", "matplotlib.axes", text=text, scatter=scatter, add_patch=add_patch, set_xlim=nothing, set_ylim=nothing, axis=nothing,
               margins=nothing, get_xaxis=axis, get_yaxis=axis, get_figure=lambda me: I.deref(me).attrs["figure"],
               set_xticks=nothing, set_yticks=nothing, set_axis_off=nothing, tick_params=nothing,
               set_title=lambda me, s, **k: add(me, "title", s))

    def colorbar(me, mappable=None, ax=None, **k):
        return I.alloc(Inst(bar, dict(ax=axis(None)), "colorbar"))
    figure.attrs["colorbar"] = Method(colorbar)
    figure.attrs["get_size_inches"] = Method(lambda me: (T.fresh("inches", "real"), T.fresh("inches", "real")))

    def polygon(xy, **k):
        pts = L.concrete_items(xy)
        return ("$area", tuple(tuple(L.scalar(c) for c in L.unpack(p, 2)) for p in pts))
    for nm in ("matplotlib.pyplot.Polygon", "matplotlib.patches.Polygon"):
        E[nm] = Builtin(nm, polygon)

    # ------------------------------------------------------------ networkx
    digraph = ClassVal("DiGraph", "networkx", [], {})

    def d_init(me, data=None):
        I.store(me, Inst(digraph, {"$of": None}, "digraph"))
        if data is not None:
            d_add(me, data)

    def d_add(me, ebunch):
        o = I.deref(me)
        if o.attrs["$of"] is not None:
            raise Unsupported("more edges for a graph")
        from . import sets, solver
        it = L.iterate(ebunch)
        if isinstance(it, tuple):
            if it:
                raise Unsupported("edges of a graph")
            I.store(me, Inst(digraph, {"$of": (None,)}, "digraph"))
            return
        if getattr(it, "is_havoc", False) or not sets.distinct(L, it):
            raise Unsupported("edges of a graph")
        # the k-th edge of the graph is edge number order(k)
        nm = f"order:{T.fresh_index().id}"
        order = lambda k: fn("iseq", atom("seqf", nm, 0), (num(k),))
        out = SeqVal(it.n, lambda k: it.at(order(k)))
        out.permutes = it
        solver.SEQ_FACTS[nm] = (it.n, lambda k: c_and(le(ZERO, order(k)), lt(order(k), it.n)), None)
        I.store(me, Inst(digraph, {"$of": (out,)}, "digraph"))

    def d_edges(me, nbunch=None, data=False):
        of = I.deref(me).attrs["$of"]
        if of is None or of[0] is None:
            return I.new_list(())
        return I.alloc(ListObj(seq=of[0]))
    view = ClassVal("$edges", "networkx", [], {
        "__call__": Method(lambda me, nbunch=None, data=False: d_edges(I.deref(me).attrs["graph"])),
        "__iter__": Method(lambda me: d_edges(I.deref(me).attrs["graph"])),
        "__len__": Method(lambda me: I.lib.length(d_edges(I.deref(me).attrs["graph"]))),
    })
    digraph.attrs.update({
        "__init__": Method(d_init), "add_edges_from": Method(d_add), "add_nodes_from": Method(nothing),
        "edges": PropertyVal(Method(lambda me: I.alloc(Inst(view, dict(graph=me), "edges")))),
    })
    E["networkx.DiGraph"] = digraph

    def draw_edges(G, pos, edgelist=None, width=None, edge_color="k", style=None, alpha=None, arrowstyle=None, arrowsize=None,
                   edge_cmap=None, edge_vmin=None, edge_vmax=None, ax=None, arrows=None, **k):
        if edgelist is not None or k:
            raise Unsupported("draw_networkx_edges options")
        if ax is None:
            ax = gca()
        add(ax, "drawings", (d_edges(G), pos, edge_color, edge_cmap, edge_vmin, edge_vmax))
    E["networkx.draw_networkx_edges"] = Builtin("networkx.draw_networkx_edges", draw_edges)

    # --------------------------------------------- SCPlot.draw_network
    def draw_network(me, edge_flow=None, directed=True, with_labels=True, ax=None):
        """a call of draw_network by its contract: one network more, with this
        flow, in the figure, on axes of its own"""
        if ax is None:
            ax = gca()
        if L.last_axes is None or ax.id != L.last_axes.id:
            raise Unsupported("several networks on the same axes")
        L.last_axes = None
        o = I.deref(edge_flow)
        sc = I.deref(me).attrs["sc"]
        if not isinstance(o, Arr) or L.tensor_of(edge_flow)[0].ndim != 1 or not I.entails(eqc(L.length(edge_flow), L.length(I.deref(sc).attrs["edges"]))):
            raise Unsupported("flow of a network")
        fig = I.deref(ax).attrs["figure"]
        I.call(I.getattr(I.deref(fig).attrs["networks"], "append"), [edge_flow], {})
    L.draw_network = draw_network

    # ------------------------------------------------------------ inspect
    sig = ClassVal("Signature", "inspect", [], {})
    names = ClassVal("$parameters", "inspect", [], {"keys": Method(lambda me: I.deref(me).attrs["names"])})

    def signature(f):
        f = I.deref(f)
        bound = isinstance(f, Bound)
        a = (f.fn if bound else f).node.args
        ns = tuple(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)[1 if bound else 0:]
        return I.alloc(Inst(sig, dict(parameters=I.alloc(Inst(names, dict(names=I.alloc(SetObj(ns))), "parameters"))), "signature"))
    E["inspect.signature"] = Builtin("inspect.signature", signature)
