"""Contracts on the plotting functions (C24): what is drawn on the axes.

``c.axes(ax)`` is the axes drawn on; ``c.texts``, ``c.points``, ``c.areas`` and
``c.drawn_edges`` are the texts (x, y, text), points (x, y, value), filled
areas (corners) and edges (edge, colour value) on it.
"""

import numpy as np

from contracts import spec
from contracts.api import contract

PL = "pytspl.plot.plot"


def middle(self, edge, i):
    return (self.pos[edge[0]][i] + self.pos[edge[1]][i]) / 2


# ------------------------------------------------------------------ C24
@contract(PL, "SCPlot.create_edge_flow", ["C24"])
def create_edge_flow(c, self, flow):
    c.requires_flow(self.sc, flow)
    c.returns({edge: flow[i] for i, edge in enumerate(self.sc.edges)})


@contract(PL, "SCPlot._calculate_edge_label_position", ["C24"])
def label_position(c, self, src, dest, offset):
    c.requires_positions(self)
    c.ensures("x at the middle of the own edge", lambda r: c.within(r[0], middle(self, (src, dest), 0), abs(offset)))
    c.ensures("y at the middle of the own edge", lambda r: c.within(r[1], middle(self, (src, dest), 1), abs(offset)))


@contract(PL, "SCPlot._init_axes", ["C24"])
def init_axes(c, self, ax):
    c.requires(self.pos is None or len(self.pos) >= 1)
    given = self.pos is not None
    old = self.pos
    c.modifies(self, "pos")
    c.modifies_drawing(ax)
    c.ensures("the positions are the given ones", lambda r: not given or c.same(self.pos, old))
    c.ensures("the layout is used from now on", lambda r: c.same(r, self.pos))
    c.ensures("a position for every node", lambda r: c.forall(len(self.sc.nodes), lambda k: self.sc.nodes[k] in self.pos))


@contract(PL, "SCPlot._draw_node_labels", ["C24"])
def node_labels(c, self, font_size=12, font_color="k", font_weight="normal", alpha=None, ax=None):
    c.requires_positions(self)
    A = c.axes(ax)
    n = len(self.sc.nodes)
    c.modifies_drawing(A)
    c.ensures("one label per node", lambda r: len(c.texts(A)) == n)
    c.ensures("label at its own node", lambda r: c.forall(n, lambda k: c.is_text(c.texts(A)[k], self.pos[self.sc.nodes[k]], self.sc.nodes[k])))


@contract(PL, "SCPlot.draw_edge_labels", ["C24"])
def edge_labels(c, self, edge_labels, font_size=10, font_color="k", font_weight="normal", offset=0.15, alpha=None, ax=None):
    c.requires(self.pos is None or len(self.pos) >= 1)
    A = c.axes(ax)
    keys = list(edge_labels)
    n = len(keys)
    c.modifies(self, "pos")
    c.modifies_drawing(A)
    c.ensures("one text per edge", lambda r: len(c.texts(A)) == n)
    c.ensures("a text per edge is returned", lambda r: c.eq(list(r), keys))
    c.ensures("the own value", lambda r: c.forall(n, lambda k: c.eq(r[keys[k]][2], edge_labels[keys[k]])))
    c.ensures("it is drawn", lambda r: c.forall(n, lambda k: c.eq(c.texts(A)[k], r[keys[k]])))
    c.ensures("x at its own edge", lambda r: c.forall(n, lambda k: c.within(r[keys[k]][0], middle(self, keys[k], 0), abs(offset))))
    c.ensures("y at its own edge", lambda r: c.forall(n, lambda k: c.within(r[keys[k]][1], middle(self, keys[k], 1), abs(offset))))


@contract(PL, "SCPlot.draw_sc_nodes", ["C24"])
def sc_nodes(c, self, node_size=300, node_color="#ff7f0e", node_edge_colors="black", font_size=12, font_color="k", font_weight="normal",
             cmap=None, vmin=None, vmax=None, alpha=0.8, margins=None, with_labels=False, ax=None):
    c.requires(len(self.sc.nodes) >= 1 and (self.pos is None or len(self.pos) >= 1))
    A = c.axes(ax)
    n = len(self.sc.nodes)
    c.modifies(self, "pos")
    c.modifies_drawing(A)
    c.ensures("one point per node", lambda r: c.point_count(A) == n)
    c.ensures("node at its own coordinates", lambda r: c.forall(n, lambda k: c.is_point(A, k, self.pos[self.sc.nodes[k]])))
    c.ensures("node with its own value", lambda r: c.point_values(A, node_color))
    c.ensures("in the given colour map", lambda r: c.point_colours(A, node_color, cmap, vmin, vmax))
    c.ensures("labels", lambda r: len(c.texts(A)) == (n if with_labels else 0))
    c.ensures("label at its own node", lambda r: not with_labels or c.forall(n, lambda k: c.is_text(c.texts(A)[k], self.pos[self.sc.nodes[k]], self.sc.nodes[k])))


@contract(PL, "SCPlot.draw_sc_edges", ["C24"])
def sc_edges(c, self, edge_flow=None, edge_color="lightblue", edge_width=1.0, arrowsize=10, edge_cmap=None, edge_vmin=None, edge_vmax=None,
             directed=True, alpha=0.8, ax=None):
    c.requires(len(self.sc.nodes) >= 1 and (self.pos is None or len(self.pos) >= 1))
    A = c.axes(ax)
    edges = self.sc.edges if edge_flow is None else list(edge_flow)
    m = len(self.sc.triangles)
    c.modifies(self, "pos")
    c.modifies_drawing(A)
    c.ensures("exactly these edges", lambda r: c.drawn(A, edges))
    c.ensures("between their own end nodes", lambda r: c.drawn_at(A, self.pos))
    c.ensures("each with its own value", lambda r: edge_flow is None or c.drawn_values(A, len(edges), lambda e: edge_flow[e]))
    c.ensures("in the given colour map", lambda r: edge_flow is None or len(edges) == 0 or c.drawn_colours(A, edge_cmap, edge_vmin, edge_vmax))
    c.ensures("one area per triangle", lambda r: len(c.areas(A)) == m)
    c.ensures("exactly the triangles are filled", lambda r: c.forall(m, lambda k: c.is_area(c.areas(A)[k], [self.pos[v] for v in self.sc.triangles[k]])))


@contract(PL, "SCPlot.draw_network", ["C24"])
def network(c, self, edge_flow=None, directed=True, with_labels=True, ax=None):
    c.requires(len(self.sc.nodes) >= 1 and (self.pos is None or len(self.pos) >= 1))
    A = c.axes(ax)
    if edge_flow is None or isinstance(edge_flow, dict):
        flow = edge_flow
    else:
        flow = dict(zip(self.sc.edges, edge_flow))
    edges = self.sc.edges if flow is None else list(flow)
    n, m = len(self.sc.nodes), len(self.sc.triangles)
    labels = 0 if flow is None else len(edges)
    c.modifies(self, "pos")
    c.modifies_drawing(A)
    c.ensures("one point per node", lambda r: c.point_count(A) == n)
    c.ensures("node at its own coordinates", lambda r: c.forall(n, lambda k: c.is_point(A, k, self.pos[self.sc.nodes[k]])))
    c.ensures("exactly these edges", lambda r: c.drawn(A, edges))
    c.ensures("between their own end nodes", lambda r: c.drawn_at(A, self.pos))
    c.ensures("each with its own value", lambda r: flow is None or c.drawn_values(A, len(edges), lambda e: flow[e]))
    c.ensures("one area per triangle", lambda r: len(c.areas(A)) == m)
    c.ensures("exactly the triangles are filled", lambda r: c.forall(m, lambda k: c.is_area(c.areas(A)[k], [self.pos[v] for v in self.sc.triangles[k]])))
    c.ensures("one label per node and edge", lambda r: len(c.texts(A)) == (n + labels if with_labels else 0))
    c.ensures("node label at its own node", lambda r: not with_labels or c.forall(n, lambda k: c.is_text(c.texts(A)[k], self.pos[self.sc.nodes[k]], self.sc.nodes[k])))
    c.ensures("edge label with its own value", lambda r: not with_labels or flow is None or c.forall(labels, lambda k: c.eq(c.texts(A)[n + k][2], flow[edges[k]])))
    c.ensures("edge label x at its own edge", lambda r: not with_labels or flow is None or c.forall(labels, lambda k: c.within(c.texts(A)[n + k][0], middle(self, edges[k], 0), 0.15)))
    c.ensures("edge label y at its own edge", lambda r: not with_labels or flow is None or c.forall(labels, lambda k: c.within(c.texts(A)[n + k][1], middle(self, edges[k], 1), 0.15)))


@contract(PL, "SCPlot.draw_hodge_decomposition", ["C24"])
def hodge(c, self, flow, component=None, round_fig=True, round_sig_fig=2, figsize=(15, 5), font_dict={"fontsize": 20}):
    c.requires_flow(self.sc, flow)
    parts = ["gradient", "curl", "harmonic"] if component is None else [component]
    c.raises(ValueError, component is not None and component not in spec.COMPONENTS)
    c.modifies(self, "pos")
    c.ensures("one network per component", lambda r: len(c.networks()) == len(parts))
    for i in range(len(parts)):
        want = self.sc.get_component_flow(flow, parts[i], round_fig, round_sig_fig)
        c.ensures(["first", "second", "third"][i] + " network shows its own component", lambda r, i=i, want=want: c.eq(c.networks()[i], want))


@contract(PL, "SCPlot.draw_eigenvectors", ["C24"])
def eigenvectors(c, self, component, eigenvector_indices=[], round_fig=True, round_sig_fig=2, with_labels=True, figsize=(15, 5), font_dict={"fontsize": 20}):
    c.raises(ValueError, component not in spec.COMPONENTS)
    U, vals = self.sc.get_component_eigenpair(component)
    given = len(eigenvector_indices)
    c.requires(len(vals) >= 1)
    c.requires_forall(given, lambda k: 0 <= eigenvector_indices[k] and eigenvector_indices[k] < len(vals))
    c.modifies(self, "pos")
    n = given if given > 0 else len(vals)
    shown = (lambda x: np.round(x, round_sig_fig)) if round_fig else (lambda x: x)
    c.ensures("one network per eigenvector", lambda r: len(c.networks()) == n)
    c.ensures("its own eigenvector", lambda r: c.forall(n, lambda k: c.eq(
        c.networks()[k], shown(U[:, eigenvector_indices[k] if given > 0 else k]))))
