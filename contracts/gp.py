"""Contracts on the Hodge GP package (C21, C22)."""

import numpy as np

from contracts import spec
from contracts.api import contract

TR = "pytspl.hogde_gp.hodge_gp_trainer"
KS = "pytspl.hogde_gp.kernel_serializer"
FX = "pytspl.hogde_gp.forex."


def rows(U, k, x1, x2):
    """(U diag(k) U^T)[x1, x2]"""
    return U[x1, :] @ np.diag(k) @ U[x2, :].T


def kernel_clause(c, self, x1, x2, diag, wh, kh, wg, kg, wc, kc):
    K = (
        wh * rows(self.harm_eigvects, kh, x1, x2)
        + wg * rows(self.grad_eigvects, kg, x1, x2)
        + wc * rows(self.curl_eigvects, kc, x1, x2)
    )
    if diag:
        c.returns(np.diag(K))
    else:
        c.returns(K)


def indices(c, self, x1, x2, diag):
    c.requires_kernel(self)
    c.requires_indices(self, x1)
    c.requires_indices(self, x2)
    if diag:
        c.requires(len(x1) == len(x2))


def diffusion(kappa, lam):
    return np.exp(-kappa * lam)


def matern(mu, kappa, lam):
    return (2 * mu / kappa**2 + lam) ** (-mu)


@contract(FX + "diffusion", "DiffusionKernelForex.forward", ["C21"])
def k_diffusion(c, self, x1, x2=None, diag=False):
    indices(c, self, x1, x2, diag)
    kernel_clause(
        c, self, c.index(x1), c.index(x2), diag,
        c.num(self.h), diffusion(1, self.harm_eigvals),
        c.num(self.h_down), diffusion(c.num(self.kappa_down), self.grad_eigvals),
        c.num(self.h_up), diffusion(c.num(self.kappa_up), self.curl_eigvals),
    )


@contract(FX + "diffusion_non_hc", "DiffusionNonHCKernelForex.forward", ["C21"])
def k_diffusion_non_hc(c, self, x1, x2=None, diag=False):
    indices(c, self, x1, x2, diag)
    kernel_clause(
        c, self, c.index(x1), c.index(x2), diag,
        1, diffusion(1, self.harm_eigvals),
        1, diffusion(c.num(self.kappa_down), self.grad_eigvals),
        1, diffusion(c.num(self.kappa_down), self.curl_eigvals),
    )


@contract(FX + "matern", "MaternKernelForex.forward", ["C21"])
def k_matern(c, self, x1, x2=None, diag=False):
    indices(c, self, x1, x2, diag)
    kernel_clause(
        c, self, c.index(x1), c.index(x2), diag,
        c.num(self.h), c.num(self.mu) * (1 + 0 * self.harm_eigvals),
        c.num(self.h_down), matern(c.num(self.mu_down), c.num(self.kappa_down), self.grad_eigvals),
        c.num(self.h_up), matern(c.num(self.mu_up), c.num(self.kappa_up), self.curl_eigvals),
    )


@contract(FX + "matern_non_hc", "MaternNonHCKernelForex.forward", ["C21"])
def k_matern_non_hc(c, self, x1, x2=None, diag=False):
    indices(c, self, x1, x2, diag)
    mu, kappa = c.num(self.mu_down), c.num(self.kappa_down)
    kernel_clause(
        c, self, c.index(x1), c.index(x2), diag,
        1, matern(mu, kappa, self.harm_eigvals),
        1, matern(mu, kappa, self.grad_eigvals),
        1, matern(mu, kappa, self.curl_eigvals),
    )


@contract(FX + "laplacian", "LaplacianKernelForex.forward", ["C21"])
def k_laplacian(c, self, x1, x2=None, diag=False):
    indices(c, self, x1, x2, diag)
    kernel_clause(
        c, self, c.index(x1), c.index(x2), diag,
        c.num(self.mu), 1 / (1e-3 + self.harm_eigvals),
        c.num(self.kappa_down), 1 / self.grad_eigvals,
        c.num(self.kappa_up), 1 / self.curl_eigvals,
    )


NAMES = ("diffusion", "diffusion_non_hc", "matern", "matern_non_hc", "laplacian")


def kernel_classes():
    from pytspl.hogde_gp import forex

    return {
        "diffusion": forex.DiffusionKernelForex,
        "diffusion_non_hc": forex.DiffusionNonHCKernelForex,
        "matern": forex.MaternKernelForex,
        "matern_non_hc": forex.MaternNonHCKernelForex,
        "laplacian": forex.LaplacianKernelForex,
    }


@contract(KS, "KernelSerializer.serialize", ["C21"])
def serialize(c, self, eigenpairs, kernel_type, data_name):
    c.raises(ValueError, data_name != "forex")
    c.raises(ValueError, kernel_type not in NAMES)
    for name, cls in kernel_classes().items():
        c.ensures("class of " + name, lambda r, name=name, cls=cls: kernel_type != name or type(r) is cls)
    for i, part in enumerate(("harm_eigvects", "grad_eigvects", "curl_eigvects", "harm_eigvals", "grad_eigvals", "curl_eigvals")):
        c.ensures(part, lambda r, i=i, part=part: c.eq(getattr(r, part), eigenpairs[i]))


# ------------------------------------------------------------------ C22
@contract(TR, "HodgeGPTrainer.__init__", ["C22"])
def trainer_init(c, self, sc, y, output_device="cpu"):
    c.modifies(self, "sc", "y", "output_device", "model")
    c.ensures("complex", lambda r: c.same(self.sc, sc))
    c.ensures("targets", lambda r: c.same(self.y, y))
    c.ensures("untrained", lambda r: self.model is None)


@contract(TR, "HodgeGPTrainer.get_laplacians", ["C22"])
def get_laplacians(c, self):
    c.returns([spec.Lhodge(self.sc), spec.Llow(self.sc), spec.Lup(self.sc)])


@contract(TR, "HodgeGPTrainer.get_incidence_matrices", ["C22"])
def get_incidence_matrices(c, self):
    c.returns([spec.B1(self.sc), spec.B2(self.sc)])


@contract(TR, "HodgeGPTrainer.get_eigenpairs", ["C22"])
def get_eigenpairs(c, self, tolerance=1e-3):
    uh, lh = spec.component_pair(self.sc, "harmonic", tolerance)
    ug, lg = spec.component_pair(self.sc, "gradient", tolerance)
    uc, lc = spec.component_pair(self.sc, "curl", tolerance)
    c.returns([uh, ug, uc, lh, lg, lc])


@contract(TR, "HodgeGPTrainer.normalize_data", ["C22"])
def normalize_data(c, self, y_train, y_test, y):
    m, s = c.mean_std(y_train)
    c.requires(s > 0)
    c.returns(((y_train - m) / s, (y_test - m) / s, (y - m) / s))


@contract(TR, "HodgeGPTrainer.train_test_split", ["C22"])
def train_test_split(c, self, train_ratio=0.8, data_normalization=False, seed=4):
    c.modifies(self, "x_train", "y_train", "x_test", "y_test")
    y, n = self.y, len(self.sc.edges)
    c.requires_splittable(self, train_ratio, data_normalization, seed)
    c.ensures("split of the edges", lambda r: c.is_split(r[0], r[2], n, train_ratio, seed))
    c.ensures("inputs are all edges in order", lambda r: c.eq(r[4], c.numbers(n)))

    def target(r, values):
        if data_normalization:
            m, s = c.mean_std(y[c.index(r[0])])
            return (values - m) / s
        return values

    c.ensures("train targets stay with their edges", lambda r: c.eq(r[1], target(r, y[c.index(r[0])])))
    c.ensures("test targets stay with their edges", lambda r: c.eq(r[3], target(r, y[c.index(r[2])])))
    c.ensures("all targets", lambda r: c.eq(r[5], target(r, y)))
    c.ensures("kept on the trainer", lambda r: c.eq(self.x_train, r[0]) and c.eq(self.y_train, r[1])
              and c.eq(self.x_test, r[2]) and c.eq(self.y_test, r[3]))


@contract(TR, "HodgeGPTrainer.get_model_parameters", ["C22"])
def get_model_parameters(c, self):
    c.raises(ValueError, self.model is None)
    if self.model is not None:
        k = self.model.covar_module.base_kernel
        c.returns({
            "raw_noise": c.num(self.model.likelihood.noise_covar.noise),
            "raw_mu": c.num(k.mu),
            "raw_mu_down": c.num(k.mu_down),
            "raw_mu_up": c.num(k.mu_up),
            "raw_kappa": c.num(k.kappa),
            "raw_kappa_down": c.num(k.kappa_down),
            "raw_kappa_up": c.num(k.kappa_up),
            "raw_h": c.num(k.h),
            "raw_h_down": c.num(k.h_down),
            "raw_h_up": c.num(k.h_up),
            "raw_outputscale": c.num(self.model.covar_module.outputscale),
        })


@contract(TR, "HodgeGPTrainer.build_matern_kernel", ["C22"])
def build_matern_kernel(c, self):
    c.raises(ValueError, self.model is None)
    if self.model is not None:
        k = self.model.covar_module.base_kernel
        uh, lh = spec.component_pair(self.sc, "harmonic", 1e-3)
        ug, lg = spec.component_pair(self.sc, "gradient", 1e-3)
        uc, lc = spec.component_pair(self.sc, "curl", 1e-3)
        K = c.num(self.model.covar_module.outputscale) * (
            c.num(k.h) * (uh @ np.diag(c.num(k.mu) * (1 + 0 * lh)) @ uh.T)
            + c.num(k.h_down) * (ug @ np.diag(matern(c.num(k.mu_down), c.num(k.kappa_down), lg)) @ ug.T)
            + c.num(k.h_up) * (uc @ np.diag(matern(c.num(k.mu_up), c.num(k.kappa_up), lc)) @ uc.T)
        )
        c.ensures("kernel", lambda r: c.eq(r[0], K))
