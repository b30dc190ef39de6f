"""Loop forms of the specification (interpreted by the verifier)."""

import numpy as np


def power_iterate(P, k):
    v = np.ones(P.shape[0])
    for _ in range(k):
        v = P @ v
        s = np.linalg.norm(v)
        if s > 0:
            v = v / s
    return v


def chebyshev_sum(M, coeffs, terms):
    """sum_{k < terms} coeffs[k] T_k(M), T_k by the three-term recurrence"""
    n = M.shape[0]
    T = np.zeros((terms, n, n))
    for k in range(terms):
        if k == 0:
            T[k] = np.eye(n)
        elif k == 1:
            T[k] = M
        else:
            T[k] = 2 * (M @ T[k - 1]) - T[k - 2]
    out = np.zeros((n, n))
    for k in range(terms):
        out = out + coeffs[k] * T[k]
    return out
