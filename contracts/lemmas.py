"""Client lemmas: short programs over the real functions whose assertions
follow from the code (interpreted like contracts: symbolically for all
inputs by the verifier, natively by the run-time checker)."""

import numpy as np

from contracts.api import lemma
from contracts.gp import kernel_classes
from pytspl.decomposition.eigendecomposition import get_eigendecomposition
from pytspl.simplicial_complex.simplicial_complex import SimplicialComplex


@lemma(["C02"])
def boundary_of_boundary(c, nodes, edges, triangles, node_features, edge_features):
    c.requires_valid_complex(nodes, edges, triangles)
    sc = SimplicialComplex(nodes, edges, triangles, node_features, edge_features)
    c.check("B1 B2 = 0", c.is_zero(sc.B1 @ sc.B2))
    c.check("incidence_matrix returns these matrices",
            c.eq(sc.incidence_matrix(1), sc.B1) and c.eq(sc.incidence_matrix(2), sc.B2))


@lemma(["C02"])
def curl_of_gradient(c, sc, potential):
    c.requires_vector(potential, len(sc.nodes))
    flow = sc.incidence_matrix(1).T @ potential
    c.check("curl of a gradient flow", c.is_zero(sc.get_curl(flow)))


@lemma(["C02"])
def divergence_of_curl_flow(c, sc, potential):
    c.requires_vector(potential, len(sc.triangles))
    flow = sc.incidence_matrix(2) @ potential
    c.check("divergence of a curl flow", c.is_zero(sc.get_divergence(flow)))


@lemma(["C02"])
def laplacian_products(c, sc):
    low = sc.lower_laplacian_matrix(1)
    up = sc.upper_laplacian_matrix(1)
    c.check("lower times upper", c.is_zero(low @ up))
    c.check("upper times lower", c.is_zero(up @ low))


@lemma(["C02"])
def divergence_of_component(c, sc, flow):
    c.requires_flow(sc, flow)
    c.check("divergence of the curl component", c.is_zero(sc.get_divergence(sc.get_component_flow(flow, "curl", False))))
    c.check("curl of the gradient component", c.is_zero(sc.get_curl(sc.get_component_flow(flow, "gradient", False))))


PARAMETERS = {
    "diffusion": ("kappa_down", "kappa_up", "h", "h_down", "h_up"),
    "diffusion_non_hc": ("kappa_down", "kappa_up", "h", "h_down", "h_up"),
    "matern": ("kappa", "kappa_down", "kappa_up", "mu", "mu_down", "mu_up", "h", "h_down", "h_up"),
    "matern_non_hc": ("kappa", "kappa_down", "kappa_up", "mu", "mu_down", "mu_up", "h", "h_down", "h_up"),
    "laplacian": ("mu", "kappa_down", "kappa_up"),
}


@lemma(["C21"])
def kernel_parameters(c, eigenpairs, values):
    """each parameter of a kernel takes the value it is given, and setting
    one leaves the others alone"""
    for name, cls in kernel_classes().items():
        k = cls(eigenpairs)
        names = PARAMETERS[name]
        for i, p in enumerate(names):
            setattr(k, p, values[i])
        for i, p in enumerate(names):
            c.check(name + "." + p, c.close(c.num(getattr(k, p)), values[i], 1e-3))


# ------------------------------------------------- consequences of contracts
@lemma(["C03"])
def laplacians_symmetric(c, sc):
    for name, M in (
        ("graph", sc.laplacian_matrix()), ("lower", sc.lower_laplacian_matrix(1)), ("upper", sc.upper_laplacian_matrix(1)),
        ("hodge", sc.hodge_laplacian_matrix(1)), ("hodge 0", sc.hodge_laplacian_matrix(0)), ("hodge 2", sc.hodge_laplacian_matrix(2)),
    ):
        c.check(name, c.is_zero(M - M.T))


@lemma(["C04"])
def shifting_composes(c, sc, flow, j, k):
    """shifting by j and then by k steps is shifting by j + k steps"""
    c.requires_flow(sc, flow)
    c.requires(0 <= j and 0 <= k)
    j, k = 1 + j, 1 + k
    c.check("lower", c.is_zero(sc.apply_lower_shifting(sc.apply_lower_shifting(flow, steps=j), steps=k) - sc.apply_lower_shifting(flow, steps=j + k)))
    c.check("upper", c.is_zero(sc.apply_upper_shifting(sc.apply_upper_shifting(flow, steps=j), steps=k) - sc.apply_upper_shifting(flow, steps=j + k)))
    c.check("both", c.is_zero(
        sc.apply_k_step_shifting(sc.apply_k_step_shifting(flow, steps=j), steps=k) - sc.apply_k_step_shifting(flow, steps=j + k)))


@lemma(["C04"])
def shifting_is_linear(c, sc, flow, other, scale, k):
    c.requires_flow(sc, flow)
    c.requires_flow(sc, other)
    c.requires(1 <= k)
    both = scale * flow + other
    for name, fn in (("lower", sc.apply_lower_shifting), ("upper", sc.apply_upper_shifting), ("both", sc.apply_k_step_shifting)):
        c.check(name, c.is_zero(fn(both, steps=k) - scale * fn(flow, steps=k) - fn(other, steps=k)))


@lemma(["C05"])
def orthogonal_split(c, sc, flow):
    """the three parts sum to the flow and are orthogonal"""
    c.requires_flow(sc, flow)
    g = sc.get_component_flow(flow, "gradient", False)
    u = sc.get_component_flow(flow, "curl", False)
    h = sc.get_component_flow(flow, "harmonic", False)
    c.check("sum", c.is_zero(g + u + h - flow))
    c.check("gradient and curl", c.is_zero(g @ u))
    c.check("gradient and harmonic", c.is_zero(g @ h))
    c.check("curl and harmonic", c.is_zero(u @ h))
    c.check("divergence of the harmonic part", c.is_zero(sc.get_divergence(h)))
    c.check("curl of the harmonic part", c.is_zero(sc.get_curl(h)))
    c.check("residual orthogonal to gradients", c.is_zero(sc.get_divergence(flow - g)))
    c.check("residual orthogonal to boundaries", c.is_zero(sc.get_curl(flow - u)))


@lemma(["C06"])
def component_eigenpairs(c, sc):
    for name, M in (
        ("gradient", sc.lower_laplacian_matrix(1)), ("curl", sc.upper_laplacian_matrix(1)), ("harmonic", sc.hodge_laplacian_matrix(1)),
    ):
        U, lam = sc.get_component_eigenpair(name)
        c.check(name + " orthonormal", c.is_zero(U.T @ U - np.eye(len(lam))))
        c.check(name + " eigenpairs", c.is_zero(M @ U - U @ np.diag(lam)))


@lemma(["C07"])
def queries_are_linear(c, sc, flow, other, scale):
    c.requires_flow(sc, flow)
    c.requires_flow(sc, other)
    both = scale * flow + other
    c.check("divergence", c.is_zero(sc.get_divergence(both) - scale * sc.get_divergence(flow) - sc.get_divergence(other)))
    c.check("curl", c.is_zero(sc.get_curl(both) - scale * sc.get_curl(flow) - sc.get_curl(other)))
    for name, x, y, z in zip(
        ("harmonic", "curl", "gradient"), sc.get_simplicial_embeddings(both), sc.get_simplicial_embeddings(flow), sc.get_simplicial_embeddings(other)
    ):
        c.check(name + " embedding", c.is_zero(x - scale * y - z))


@lemma(["C07"])
def total_variation_is_the_quadratic_form(c, sc):
    L = sc.laplacian_matrix()
    U, lam = get_eigendecomposition(L.toarray() if hasattr(L, "toarray") else L)
    c.check("quadratic form", c.is_zero(sc.get_total_variance() - np.diag(U.T @ L @ U)))


@lemma(["C08"])
def masks_partition(c, flt):
    c.requires_separated(flt.sc)
    h = flt.get_component_coefficients("harmonic")
    u = flt.get_component_coefficients("curl")
    g = flt.get_component_coefficients("gradient")
    c.check("sum", c.is_zero(h + u + g - np.ones(len(flt.sc.edges))))
    c.check("harmonic and curl", c.is_zero(h * u))
    c.check("harmonic and gradient", c.is_zero(h * g))
    c.check("curl and gradient", c.is_zero(u * g))


@lemma(["C13"])
def denoised_flow_solves_the_system(c, denoiser, noisy_flow, f_true, mu):
    """(I + mu P) x = f for the recorded estimate x"""
    sc = denoiser.sc
    c.requires_flow(sc, noisy_flow)
    c.requires_flow(sc, f_true)
    c.requires(0 <= mu)
    c.requires_nonzero(f_true)
    for name, P in (("L1", sc.hodge_laplacian_matrix(1)), ("L1L", sc.lower_laplacian_matrix(1)), ("L1U", sc.upper_laplacian_matrix(1))):
        denoiser.denoise(noisy_flow, f_true, name, [mu])
        x = denoiser.history["f_estimated"]
        c.check(name, c.is_zero(x + mu * (P @ x) - noisy_flow))


@lemma(["C14"])
def parts_add_up(c, ls, flow, L1, L2):
    c.requires_flow(ls.sc, flow)
    c.requires(0 <= L1 and 0 <= L2)
    c.requires_separated(ls.sc)
    h, u, g = ls.general_filter(flow, L1, L2)
    c.check("sum", c.is_zero(h + u + g - flow))


@lemma(["C21"])
def kernels_symmetric(c, eigenpairs, values, x1, x2):
    for name, cls in kernel_classes().items():
        k = cls(eigenpairs)
        for i, p in enumerate(PARAMETERS[name]):
            setattr(k, p, values[i])
        c.requires_indices(k, x1)
        c.requires_indices(k, x2)
        c.check(name, c.eq(k.forward(x1, x2).T, k.forward(x2, x1)))
