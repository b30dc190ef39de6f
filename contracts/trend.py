"""Contracts on the simplicial trend filter (C15)."""

import numpy as np

from contracts import spec
from contracts.api import contract

ST = "pytspl.filters.simplicial_trend_filter"


@contract(ST, "SimplicialTrendFilter.get_shift_operator", ["C15", "C23"])
def get_shift_operator(c, self, component, order):
    c.raises(ValueError, order < 0)
    c.requires(component == "divergence" or component == "curl")
    if component == "divergence":
        B, M = spec.B1(self.sc), spec.Llow(self.sc)
    else:
        B, M = spec.B2(self.sc).T, spec.Lup(self.sc)
    if order % 2 == 0:
        c.returns(B @ spec.mpow(M, order // 2))
    else:
        c.returns(spec.mpow(M, (order + 1) // 2))


@contract(ST, "SimplicialTrendFilter.get_power_noise", ["C15", "C23"])
def get_power_noise(c, self, flow, snr_db):
    c.requires_flow(self.sc, flow)
    snr = 10 ** (snr_db / 10)
    c.returns((np.linalg.norm(flow) / snr / len(self.sc.edges), snr))


def report_clauses(c, self, flow, component, n, m):
    """errors/correlations/component norms are the means over realisations
    of the quantities of the recorded outputs."""
    if component == "divergence":
        B = spec.B1(self.sc)
    else:
        B = spec.B2(self.sc).T
    out = lambda i, j: self.history["frequency_responses"][:, i, j]
    c.ensures(
        "mean error",
        lambda r: c.forall(n, lambda i: c.eq(
            self.history["errors"][i],
            c.mean(m, lambda j: spec.nrmse(out(i, j), flow)))),
    )
    c.ensures(
        "mean correlation",
        lambda r: c.forall(n, lambda i: c.eq(
            self.history["correlations"][i],
            c.mean(m, lambda j: np.corrcoef(flow, out(i, j))[0, 1]))),
    )
    c.ensures(
        "mean component norm",
        lambda r: c.forall(n, lambda i: c.eq(
            self.history["component_flow"][i],
            c.mean(m, lambda j: np.linalg.norm(B @ out(i, j))))),
    )


@contract(ST, "SimplicialTrendFilter.denoising_l2_regularizer", ["C15", "C23"])
def denoising_l2_regularizer(c, self, flow, component, num_realizations, snr_db, mu=0.5):
    c.requires_flow(self.sc, flow)
    c.raises(ValueError, component != "divergence" and component != "curl")
    c.requires(num_realizations >= 1)
    c.requires(len(snr_db) >= 1)
    c.requires(mu >= 0)
    c.requires_nonzero(flow)
    c.modifies(self, "history")
    ne = len(self.sc.edges)
    if component == "divergence":
        M = spec.Llow(self.sc)
    else:
        M = spec.Lup(self.sc)
    H = np.linalg.inv(np.eye(ne) + mu * M)
    n = len(snr_db)
    m = num_realizations
    level = np.linalg.norm(flow) / 10 ** (snr_db / 10) / ne
    noise = c.random_stream(n, m, ne)
    c.ensures("filter", lambda r: c.eq(self.history["filter"], H))
    c.ensures(
        "every output is the filter applied to the noisy flow",
        lambda r: c.forall(n, lambda i: c.forall(m, lambda j: c.eq(
            self.history["frequency_responses"][:, i, j],
            H @ (flow + level[i] * noise(i, j))))),
    )
    report_clauses(c, self, flow, component, n, m)


@contract(ST, "SimplicialTrendFilter.denoising_l1_regularizer", ["C15", "C23"])
def denoising_l1_regularizer(c, self, flow, component, num_realizations, snr_db, order=0, regularization=0.5):
    c.requires_flow(self.sc, flow)
    c.raises(ValueError, (component != "divergence" and component != "curl") or order < 0)
    c.requires(num_realizations >= 1)
    c.requires(len(snr_db) >= 1)
    c.requires(regularization >= 0)
    c.requires_nonzero(flow)
    c.modifies(self, "history")
    n = len(snr_db)
    m = num_realizations
    ne = len(self.sc.edges)
    level = np.linalg.norm(flow) / 10 ** (snr_db / 10) / ne
    noise = c.random_stream(n, m, ne)
    S = shift(self.sc, component, order)
    c.ensures("no linear filter", lambda r: self.history["filter"] is None)
    c.ensures(
        "every output solves the l1 problem of the noisy flow",
        lambda r: c.forall(n, lambda i: c.forall(m, lambda j: c.is_l1_solution(
            self.history["frequency_responses"][:, i, j],
            flow + level[i] * noise(i, j), S, regularization, None))),
    )
    report_clauses(c, self, flow, component, n, m)


@contract(ST, "SimplicialTrendFilter.interpolation_l1_regularizer", ["C15", "C23"])
def interpolation_l1_regularizer(c, self, flow, component, ratio, num_realizations, order=0, regularization=0.5):
    c.requires_flow(self.sc, flow)
    c.raises(ValueError, (component != "divergence" and component != "curl") or order < 0)
    c.requires(num_realizations >= 1)
    c.requires(len(ratio) >= 1)
    c.requires_ratios(ratio, len(self.sc.edges))
    c.requires(regularization >= 0)
    c.requires_nonzero(flow)
    c.modifies(self, "history")
    n = len(ratio)
    m = num_realizations
    ne = len(self.sc.edges)
    S = shift(self.sc, component, order)
    sample = c.choice_stream(n, m, ne, ratio)
    c.ensures("no linear filter", lambda r: self.history["filter"] is None)
    c.ensures(
        "every output keeps the sampled values and solves the l1 problem",
        lambda r: c.forall(n, lambda i: c.forall(m, lambda j: c.is_l1_solution(
            self.history["frequency_responses"][:, i, j],
            flow * sample(i, j), S, regularization, sample(i, j)))),
    )
    report_clauses(c, self, flow, component, n, m)


def shift(sc, component, order):
    if component == "divergence":
        B, M = spec.B1(sc), spec.Llow(sc)
    else:
        B, M = spec.B2(sc).T, spec.Lup(sc)
    if order % 2 == 0:
        return B @ spec.mpow(M, order // 2)
    else:
        return spec.mpow(M, (order + 1) // 2)
