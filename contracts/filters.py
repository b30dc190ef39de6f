"""Contracts on pytspl.filters (C08-C14)."""

import numpy as np

from contracts import spec
from contracts.api import contract

BF = "pytspl.filters.base_filter"
LS = "pytspl.filters.ls_filter_design"
GR = "pytspl.filters.grid_based_filter_design"
CH = "pytspl.filters.chebyshev_filter_design"
EF = "pytspl.filters.edge_flow_denoising"


# ------------------------------------------------------------------ C08
@contract(BF, "BaseFilter.get_component_coefficients", ["C08", "C23"])
def get_component_coefficients(c, self, component):
    c.raises(ValueError, component not in spec.COMPONENTS)
    c.requires_separated(self.sc)
    c.returns(spec.mask(self.sc, component))


# ------------------------------------------------------------------ C09
@contract(BF, "BaseFilter.get_p_matrix", ["C09", "C23"])
def get_p_matrix(c, self, p_choice="L1"):
    c.raises(ValueError, p_choice not in ("L1", "L1L", "L1U"))
    c.returns(spec.operator(self.sc, p_choice))
    c.fresh_result()


@contract(BF, "BaseFilter.get_true_signal", ["C09", "C23"])
def get_true_signal(c, self, f, component):
    c.requires_flow(self.sc, f)
    c.raises(ValueError, component not in spec.COMPONENTS)
    c.returns(spec.hodge_part(self.sc, component, f))


@contract(BF, "BaseFilter.calculate_error_NRMSE", ["C09", "C23"])
def calculate_error_NRMSE(c, f_estimated, f_true):
    c.requires_same_shape(f_estimated, f_true)
    c.requires_nonzero(f_true)
    c.returns(spec.nrmse(f_estimated, f_true))


@contract(BF, "BaseFilter.logistic_function", ["C09", "C23"])
def logistic_function(c, cut_off_frequency=0.01, steep=100):
    x = c.some_vector("x")
    c.ensures("logistic", lambda g: c.eq(g(x), 1 / (1 + np.exp(-steep * (x - cut_off_frequency)))))


@contract(BF, "BaseFilter.power_iteration", ["C09", "C23"])
def power_iteration(c, P, iterations=50):
    c.requires_symmetric(P)
    c.requires(iterations >= 0)
    c.returns(power_vector(c, P, iterations))


def power_vector(c, P, iterations):
    """normalised power iterate moved off zero by machine epsilon"""
    w = c.power_iterate(P, iterations) + np.finfo(float).eps
    return np.where(w == 0, np.finfo(float).eps, w)


# ------------------------------------------------------------------ C10
def ls_clauses(c, self, f, M, points, target, true, U, L):
    H = spec.poly_filter(points, target, M, L)
    c.ensures("filter", lambda r: c.eq(self.history["filter"], H))
    c.ensures("estimate", lambda r: c.eq(self.history["f_estimated"], H @ f))
    c.ensures(
        "error per size",
        lambda r: c.forall(
            L,
            lambda l: c.eq(
                self.history["extracted_component_error"][l],
                spec.nrmse(
                    spec.poly_filter(points, target, M, l + 1) @ f, true
                ),
            ),
        ),
    )
    c.ensures(
        "frequency response per size",
        lambda r: c.forall(
            L,
            lambda l: c.eq(
                self.history["frequency_responses"][l],
                np.diag(
                    U.T @ spec.poly_filter(points, target, M, l + 1) @ U
                ),
            ),
        ),
    )
    c.ensures("one row per size", lambda r: len(self.history["extracted_component_error"]) == L)
    c.ensures("one response row per size", lambda r: len(self.history["frequency_responses"]) == L)


@contract(LS, "LSFilterDesign.subcomponent_extraction_type_one", ["C10", "C23"])
def ls_type_one(c, self, f, component, L):
    c.requires_flow(self.sc, f)
    c.raises(ValueError, component not in spec.COMPONENTS)
    c.requires(L >= 1)
    c.requires_separated(self.sc)
    c.modifies(self, "history")
    M = spec.Lhodge(self.sc)
    U, lam = spec.eig(M)
    target = spec.mask(self.sc, component)
    true = spec.hodge_part(self.sc, component, f)
    c.requires_nonzero(true)
    ls_clauses(c, self, f, M, lam, target, true, U, L)


@contract(LS, "LSFilterDesign.subcomponent_extraction_type_two", ["C10", "C23"])
def ls_type_two(c, self, f, component, L, tolerance=1e-6):
    c.requires_flow(self.sc, f)
    c.raises(ValueError, component != "gradient" and component != "curl")
    c.requires(L >= 1)
    c.modifies(self, "history")
    if component == "gradient":
        M = spec.Llow(self.sc)
    else:
        M = spec.Lup(self.sc)
    U, lam = spec.eig(M)
    points = np.unique(np.where(np.abs(lam) < tolerance, 0, lam))
    target = [0 if p == 0 else 1 for p in points]
    true = spec.hodge_part(self.sc, component, f)
    c.requires_nonzero(true)
    ls_clauses(c, self, f, M, points, target, true, U, L)


# ------------------------------------------------------------------ C11
def grid(c, P, samples):
    v = power_vector(c, P, 50)
    return np.linspace(0, np.mean(P @ v / v), samples)


@contract(GR, "GridBasedFilterDesign.denoise", ["C11", "C23"])
def grid_denoise(c, self, f, f_true, p_choice, L, mu=0.5):
    c.requires_flow(self.sc, f)
    c.requires_flow(self.sc, f_true)
    c.raises(ValueError, p_choice not in ("L1", "L1L", "L1U"))
    c.requires(L >= 1)
    c.requires(mu >= 0)
    c.requires_nonzero(f_true)
    c.modifies(self, "history")
    P = spec.operator(self.sc, p_choice)
    U, lam = spec.eig(P)
    c.requires_conditioned(P)
    points = grid(c, P, len(f_true))
    ls_clauses(c, self, f, P, points, 1 / (1 + mu * points), f_true, U, L)


@contract(GR, "GridBasedFilterDesign.subcomponent_extraction", ["C11", "C23"])
def grid_extract(
    c, self, f, component, p_choice, L, num_of_samples=10, mu=0.5,
    cut_off_frequency=0.01, steep=100,
):
    c.requires_flow(self.sc, f)
    c.raises(
        ValueError,
        p_choice not in ("L1", "L1L", "L1U")
        or component not in spec.COMPONENTS,
    )
    c.requires(L >= 1)
    c.requires(num_of_samples >= 1)
    c.modifies(self, "history")
    P = spec.operator(self.sc, p_choice)
    U, lam = spec.eig(P)
    c.requires_conditioned(P)
    points = grid(c, P, num_of_samples)
    target = 1 / (1 + np.exp(-steep * (points - cut_off_frequency)))
    true = spec.hodge_part(self.sc, component, f)
    c.requires_nonzero(true)
    ls_clauses(c, self, f, P, points, target, true, U, L)


# ------------------------------------------------------------------ C12
def chebyshev(c, P, coeffs, alpha, terms):
    """sum_{k<terms} coeffs[k] T_k((P - alpha I)/alpha)"""
    return c.chebyshev_sum((P - alpha * np.eye(P.shape[0])) / alpha, coeffs, terms)


@contract(CH, "ChebyshevFilterDesign.get_alpha", ["C12", "C23"])
def get_alpha(c, self, p_choice):
    c.raises(ValueError, p_choice not in ("L1", "L1L", "L1U"))
    P = spec.operator(self.sc, p_choice)
    c.requires_conditioned(P)
    v = power_vector(c, P, 50)
    lam_max = np.mean((P @ v) / v)
    c.returns((lam_max / 2, lam_max))


@contract(CH, "ChebyshevFilterDesign.get_ideal_frequency", ["C12", "C23"])
def get_ideal_frequency(c, self, component_coeffs):
    c.requires_flow(self.sc, component_coeffs)
    U, lam = spec.eig(spec.Lhodge(self.sc))
    c.returns(U @ np.diag(component_coeffs) @ U.T)


@contract(CH, "ChebyshevFilterDesign._chebyshev_filter_approximate", ["C12"])
def chebyshev_filter_approximate(c, self, P, coefficients, alpha, order):
    c.requires_symmetric(P)
    c.requires(order >= 1)
    c.requires(len(coefficients) >= 1)
    c.requires(alpha > 0)
    if order <= len(coefficients):
        c.returns(chebyshev(c, P, coefficients, alpha, order))
    else:
        c.returns(chebyshev(c, P, coefficients, alpha, len(coefficients)))


@contract(CH, "ChebyshevFilterDesign.get_chebyshev_frequency_approx", ["C12", "C23"])
def get_chebyshev_frequency_approx(c, self, p_choice, coeffs, alpha, order):
    c.raises(ValueError, p_choice not in ("L1", "L1L", "L1U"))
    c.requires(order >= 1)
    c.requires(len(coeffs) >= 1)
    c.requires(alpha > 0)
    P = spec.operator(self.sc, p_choice)
    if order <= len(coeffs):
        terms = order
    else:
        terms = len(coeffs)
    c.ensures("one filter per size", lambda r: len(r) == order)
    c.ensures("last filter has full order", lambda r: c.eq(r[order - 1], chebyshev(c, P, coeffs, alpha, terms)))


# ------------------------------------------------------------------ C13
@contract(EF, "EdgeFlowDenoising.denoise", ["C13", "C23"])
def edge_flow_denoise(c, self, f, f_true, p_choice, mu_vals=[0.5]):
    c.requires_flow(self.sc, f)
    c.requires_flow(self.sc, f_true)
    c.raises(ValueError, p_choice not in ("L1", "L1L", "L1U"))
    c.requires(len(mu_vals) >= 1)
    c.requires_nonnegative(mu_vals)
    c.requires_nonzero(f_true)
    c.modifies(self, "history")
    P = spec.operator(self.sc, p_choice)
    U, lam = spec.eig(P)
    n = len(mu_vals)

    def H(mu):
        return np.linalg.inv(np.eye(P.shape[0]) + mu * P)

    c.ensures("filter of the last mu", lambda r: c.eq(self.history["filter"], H(mu_vals[n - 1])))
    c.ensures("estimate of the last mu", lambda r: c.eq(self.history["f_estimated"], H(mu_vals[n - 1]) @ f))
    c.ensures(
        "error per mu",
        lambda r: c.forall(
            n,
            lambda i: c.eq(
                self.history["extracted_component_error"][i],
                spec.nrmse(H(mu_vals[i]) @ f, f_true),
            ),
        ),
    )
    c.ensures(
        "frequency response per mu",
        lambda r: c.forall(
            n,
            lambda i: c.eq(
                self.history["frequency_responses"][i],
                np.diag(U.T @ H(mu_vals[i]) @ U),
            ),
        ),
    )
    c.ensures("one row per mu", lambda r: len(self.history["extracted_component_error"]) == n)
    c.ensures("one response row per mu", lambda r: len(self.history["frequency_responses"]) == n)


# ------------------------------------------------------------------ C14
@contract(LS, "LSFilterDesign.general_filter", ["C14", "C23"])
def ls_general(c, self, f, L1, L2, tolerance=1e-3):
    c.requires_flow(self.sc, f)
    c.requires(L1 >= 0)
    c.requires(L2 >= 0)
    c.modifies(self, "history")

    def part(component, M, size):
        U, lam = spec.eig(M)
        points = np.unique(np.where(np.abs(lam) < tolerance, 0, lam))
        target = [0 if p == 0 else 1 for p in points]
        return spec.poly_filter(points, target, M, size) @ f

    general_clauses(c, self, f, L1, L2, part)


@contract(GR, "GridBasedFilterDesign.general_filter", ["C14", "C23"])
def grid_general(c, self, f, L1, L2):
    c.requires_flow(self.sc, f)
    c.requires(L1 >= 0)
    c.requires(L2 >= 0)
    c.modifies(self, "history")

    def part(component, M, size):
        c.requires_conditioned(M)
        points = grid(c, M, 10)
        target = 1 / (1 + np.exp(-100 * (points - 0.01)))
        return spec.poly_filter(points, target, M, size) @ f

    general_clauses(c, self, f, L1, L2, part)


def general_clauses(c, self, f, L1, L2, part):
    if L1 > 0:
        c.requires_nonzero(spec.gradient_part(self.sc, f))
        g = part("gradient", spec.Llow(self.sc), L1)
    else:
        g = np.zeros(len(self.sc.edges))
    if L2 > 0:
        c.requires_nonzero(spec.curl_part(self.sc, f))
        u = part("curl", spec.Lup(self.sc), L2)
    else:
        u = np.zeros(len(self.sc.edges))
    c.ensures("harmonic is the remainder", lambda r: c.eq(r[0], f - g - u))
    c.ensures("curl estimate", lambda r: c.eq(np.zeros(len(self.sc.edges)) + r[1], u))
    c.ensures("gradient estimate", lambda r: c.eq(np.zeros(len(self.sc.edges)) + r[2], g))
    if L1 > 0:
        c.ensures("gradient record", lambda r: c.eq(self.history["L1"]["f_estimated"], g))
        c.ensures("gradient record size", lambda r: len(self.history["L1"]["extracted_component_error"]) == L1)
    else:
        c.ensures("no gradient record", lambda r: self.history["L1"] is None)
    if L2 > 0:
        c.ensures("curl record", lambda r: c.eq(self.history["L2"]["f_estimated"], u))
        c.ensures("curl record size", lambda r: len(self.history["L2"]["extracted_component_error"]) == L2)
    else:
        c.ensures("no curl record", lambda r: self.history["L2"] is None)
