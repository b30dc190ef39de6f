"""Contracts on SimplicialComplex, decomposition/* (C01-C07, C25)."""

import numpy as np

from contracts import spec
from contracts.api import contract

SC = "pytspl.simplicial_complex.simplicial_complex"
EIG = "pytspl.decomposition.eigendecomposition"
HD = "pytspl.decomposition.hodge_decomposition"


# ------------------------------------------------------------------ C01
@contract(SC, "SimplicialComplex.__init__", ["C01", "C23"])
def init(c, self, nodes=[], edges=[], triangles=[], node_features={}, edge_features={}):
    c.requires_valid_complex(nodes, edges, triangles)
    c.modifies(self, "nodes", "edges", "triangles", "node_features", "edge_features", "B1", "B2")
    c.ensures("nodes stored", lambda r: c.same(self.nodes, nodes))
    c.ensures("edges stored", lambda r: c.same(self.edges, edges))
    c.ensures("triangles stored", lambda r: c.same(self.triangles, triangles))
    c.ensures("node features stored", lambda r: c.same(self.node_features, node_features))
    c.ensures("edge features stored", lambda r: c.same(self.edge_features, edge_features))
    c.ensures("B1 is the boundary of the edges", lambda r: c.is_boundary1(self.B1, nodes, edges))
    c.ensures("B2 is the boundary of the triangles", lambda r: c.is_boundary2(self.B2, edges, triangles))


@contract(SC, "SimplicialComplex.edges_to_B1", ["C01"])
def edges_to_B1(c, self, edges, num_nodes):
    c.requires_valid_edges(edges, num_nodes)
    c.ensures("boundary of the edges", lambda r: c.is_boundary1_n(r, num_nodes, edges))


@contract(SC, "SimplicialComplex.triangles_to_B2", ["C01"])
def triangles_to_B2(c, self, triangles, edges):
    c.requires_valid_triangles(triangles, edges)
    c.ensures("boundary of the triangles", lambda r: c.is_boundary2(r, edges, triangles))


@contract(SC, "SimplicialComplex.incidence_matrix", ["C01", "C23"])
def incidence_matrix(c, self, rank):
    c.raises(ValueError, rank != 0 and rank != 1 and rank != 2)
    if rank == 0:
        c.returns(np.ones(len(self.nodes)))
    elif rank == 1:
        c.returns(spec.B1(self))
    elif rank == 2:
        c.returns(spec.B2(self))
    c.fresh_result()


@contract(SC, "SimplicialComplex.identity_matrix", ["C01"])
def identity_matrix(c, self):
    c.returns(np.eye(len(self.nodes)))


@contract(SC, "SimplicialComplex.shape", ["C01"])
def shape(c, self):
    c.returns((len(self.nodes), len(self.edges), len(self.triangles)))


@contract(SC, "SimplicialComplex.simplices", ["C01"])
def simplices(c, self):
    c.returns([(v,) for v in self.nodes] + self.edges + self.triangles)


@contract(SC, "SimplicialComplex.max_dim", ["C01"])
def max_dim(c, self):
    c.requires(len(self.nodes) > 0)
    if len(self.triangles) > 0:
        c.returns(2)
    elif len(self.edges) > 0:
        c.returns(1)
    else:
        c.returns(0)


# ------------------------------------------------------------------ C03
@contract(SC, "SimplicialComplex.laplacian_matrix", ["C03", "C23"])
def laplacian_matrix(c, self):
    c.returns(spec.L0(self))
    c.fresh_result()


@contract(SC, "SimplicialComplex.lower_laplacian_matrix", ["C03", "C23"])
def lower_laplacian_matrix(c, self, rank=1):
    c.raises(ValueError, rank != 1 and rank != 2)
    if rank == 1:
        c.returns(spec.Llow(self))
    elif rank == 2:
        c.returns(spec.Ldown2(self))
    c.fresh_result()


@contract(SC, "SimplicialComplex.upper_laplacian_matrix", ["C03", "C23"])
def upper_laplacian_matrix(c, self, rank=1):
    c.raises(ValueError, rank != 0 and rank != 1)
    if rank == 0:
        c.returns(spec.L0(self))
    elif rank == 1:
        c.returns(spec.Lup(self))
    c.fresh_result()


@contract(SC, "SimplicialComplex.hodge_laplacian_matrix", ["C03", "C23"])
def hodge_laplacian_matrix(c, self, rank=1):
    c.raises(ValueError, rank != 0 and rank != 1 and rank != 2)
    if rank == 0:
        c.returns(spec.L0(self))
    elif rank == 1:
        c.returns(spec.Lhodge(self))
    elif rank == 2:
        c.returns(spec.Ldown2(self))
    c.fresh_result()


@contract(SC, "SimplicialComplex.adjacency_matrix", ["C03", "C23"])
def adjacency_matrix(c, self):
    c.ensures("1 exactly at joined pairs", lambda r: c.is_adjacency(r, self))
    c.fresh_result()


# ------------------------------------------------------------------ C04
@contract(SC, "SimplicialComplex.apply_lower_shifting", ["C04", "C23"])
def apply_lower_shifting(c, self, flow, steps=1):
    c.requires_flow(self, flow)
    c.requires(steps >= 1)
    c.returns(spec.mpow(spec.Llow(self), steps) @ flow)


@contract(SC, "SimplicialComplex.apply_upper_shifting", ["C04", "C23"])
def apply_upper_shifting(c, self, flow, steps=1):
    c.requires_flow(self, flow)
    c.requires(steps >= 1)
    c.returns(spec.mpow(spec.Lup(self), steps) @ flow)


@contract(SC, "SimplicialComplex.apply_k_step_shifting", ["C04", "C23"])
def apply_k_step_shifting(c, self, flow, steps=2):
    c.requires_flow(self, flow)
    c.requires(steps >= 1)
    c.returns(
        spec.mpow(spec.Llow(self), steps) @ flow
        + spec.mpow(spec.Lup(self), steps) @ flow
    )


# ------------------------------------------------------------------ C05
@contract(HD, "get_gradient_flow", ["C05", "C23"])
def get_gradient_flow(c, B1, flow, round_fig=True, round_sig_fig=2):
    c.requires_matrix(B1, "n0", "n1")
    c.requires_vector(flow, "n1")
    A = B1.toarray().T
    g = A @ np.linalg.lstsq(A, flow, rcond=None)[0]
    if round_fig:
        c.returns_rounded(g, round_sig_fig)
    else:
        c.returns(g)


@contract(HD, "get_curl_flow", ["C05", "C23"])
def get_curl_flow(c, B2, flow, round_fig=True, round_sig_fig=2):
    c.requires_matrix(B2, "n1", "n2")
    c.requires_vector(flow, "n1")
    A = B2.toarray()
    g = A @ np.linalg.lstsq(A, flow, rcond=None)[0]
    if round_fig:
        c.returns_rounded(g, round_sig_fig)
    else:
        c.returns(g)


@contract(HD, "get_harmonic_flow", ["C05", "C23"])
def get_harmonic_flow(c, B1, B2, flow, round_fig=True, round_sig_fig=2):
    c.requires_matrix(B1, "n0", "n1")
    c.requires_matrix(B2, "n1", "n2")
    c.requires_vector(flow, "n1")
    A = B1.toarray().T
    C = B2.toarray()
    h = (
        flow
        - A @ np.linalg.lstsq(A, flow, rcond=None)[0]
        - C @ np.linalg.lstsq(C, flow, rcond=None)[0]
    )
    if round_fig:
        c.returns_rounded(h, round_sig_fig)
    else:
        c.returns(h)


@contract(SC, "SimplicialComplex.get_component_flow", ["C05", "C23"])
def get_component_flow(
    c, self, flow, component="gradient", round_fig=True, round_sig_fig=2
):
    c.requires_flow(self, flow)
    c.raises(ValueError, component not in spec.COMPONENTS)
    part = spec.hodge_part(self, component, flow)
    if round_fig:
        c.returns_rounded(part, round_sig_fig)
    else:
        c.returns(part)


# ------------------------------------------------------------------ C06
@contract(EIG, "get_eigendecomposition", ["C06", "C23"])
def get_eigendecomposition(c, lap_mat, tolerance=np.finfo(float).eps):
    c.requires_symmetric(lap_mat)
    c.ensures("orthonormal eigenpairs, ascending", lambda r: c.is_eigenpair(lap_mat, r[0], r[1], tolerance))


@contract(EIG, "get_gradient_eigenpair", ["C06", "C23"])
def get_gradient_eigenpair(c, lower_lap_mat, tolerance=np.finfo(float).eps):
    c.requires_symmetric(lower_lap_mat)
    c.returns(spec.above(lower_lap_mat, tolerance))


@contract(EIG, "get_curl_eigenpair", ["C06", "C23"])
def get_curl_eigenpair(c, upper_lap_mat, tolerance=np.finfo(float).eps):
    c.requires_symmetric(upper_lap_mat)
    c.returns(spec.above(upper_lap_mat, tolerance))


@contract(EIG, "get_harmonic_eigenpair", ["C06", "C23"])
def get_harmonic_eigenpair(c, hodge_lap_mat, tolerance=np.finfo(float).eps):
    c.requires_symmetric(hodge_lap_mat)
    c.returns(spec.upto(hodge_lap_mat, tolerance))


@contract(SC, "SimplicialComplex.get_component_eigenpair", ["C06", "C23"])
def get_component_eigenpair(c, self, component="harmonic", tolerance=1e-3):
    c.raises(ValueError, component not in spec.COMPONENTS)
    c.returns(spec.component_pair(self, component, tolerance))


# ------------------------------------------------------------------ C07
@contract(EIG, "get_divergence", ["C07", "C23"])
def get_divergence_fn(c, B1, flow):
    c.requires_matrix(B1, "n0", "n1")
    c.requires_vector(flow, "n1")
    c.returns(B1 @ flow)


@contract(EIG, "get_curl", ["C07", "C23"])
def get_curl_fn(c, B2, flow):
    c.requires_matrix(B2, "n1", "n2")
    c.requires_vector(flow, "n1")
    c.returns(B2.T @ flow)


@contract(EIG, "get_total_variance", ["C07", "C23"])
def get_total_variance_fn(c, laplacian_matrix):
    c.requires_symmetric(laplacian_matrix)
    U, lam = spec.eig(laplacian_matrix)
    c.returns(lam)


@contract(SC, "SimplicialComplex.get_divergence", ["C07", "C23"])
def get_divergence(c, self, flow):
    c.requires_flow(self, flow)
    c.returns(spec.B1(self) @ flow)


@contract(SC, "SimplicialComplex.get_curl", ["C07", "C23"])
def get_curl(c, self, flow):
    c.requires_flow(self, flow)
    c.returns(spec.B2(self).T @ flow)


@contract(SC, "SimplicialComplex.get_total_variance", ["C07", "C23"])
def get_total_variance(c, self):
    U, lam = spec.eig(spec.L0(self))
    c.returns(lam)


@contract(SC, "SimplicialComplex.get_simplicial_embeddings", ["C07", "C23"])
def get_simplicial_embeddings(c, self, flow):
    c.requires_flow(self, flow)
    uh, lh = spec.component_pair(self, "harmonic", 1e-3)
    uc, lc = spec.component_pair(self, "curl", 1e-3)
    ug, lg = spec.component_pair(self, "gradient", 1e-3)
    c.returns((uh.T @ flow, uc.T @ flow, ug.T @ flow))


# ------------------------------------------------------------------ C25
@contract(SC, "SimplicialComplex.get_faces", ["C25", "C23"])
def get_faces(c, self, simplex):
    c.requires_simplex(simplex)
    c.ensures("faces leave out one vertex each", lambda r: c.is_faces(r, simplex))


@contract(SC, "SimplicialComplex.get_edge_features", ["C25", "C23"])
def get_edge_features(c, self, name=None):
    if name is None:
        c.returns(self.edge_features)
    else:
        c.raises(KeyError, c.some_missing(self.edge_features, name))
        c.returns({key: value[name] for key, value in self.edge_features.items()})


@contract(SC, "SimplicialComplex.edge_feature_names", ["C25", "C23"])
def edge_feature_names(c, self):
    if len(self.edge_features) == 0:
        c.returns([])
    else:
        c.returns(list(list(self.edge_features.values())[0].keys()))


@contract(SC, "SimplicialComplex.get_node_features", ["C25", "C23"])
def get_node_features(c, self):
    c.returns(self.node_features)
