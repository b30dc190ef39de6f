"""Mathematical specification functions shared by all contracts.

Executed natively (numpy) by the run-time checker and interpreted by the
deductive verifier.  B1/B2 are the boundary operators given by the class
invariant of SimplicialComplex; everything else is defined from them.
"""

import numpy as np

COMPONENTS = ("harmonic", "curl", "gradient")


# --- boundary operators -------------------------------------------------
# (verifier: the matrices named by the class invariant of SimplicialComplex)
def B1(sc):
    out = np.zeros((len(sc.nodes), len(sc.edges)))
    for j, (u, v) in enumerate(sc.edges):
        out[u, j] = -1.0
        out[v, j] = 1.0
    return out


def oriented(sc):
    """Boundary of every triangle (a,b,c) as a->b->c->a, relative to the
    stored edge directions."""
    pos = {}
    for k, (u, v) in enumerate(sc.edges):
        pos[(int(u), int(v))] = (k, 1.0)
        pos[(int(v), int(u))] = (k, -1.0)
    out = np.zeros((len(sc.edges), len(sc.triangles)))
    for j, (a, b, c) in enumerate(sc.triangles):
        for x, y in ((a, b), (b, c), (c, a)):
            k, s = pos[(int(x), int(y))]
            out[k, j] = s
    return out


def B2(sc):
    """Oriented boundary, with the per-triangle sign the complex uses."""
    out = oriented(sc)
    got = sc.incidence_matrix(rank=2).toarray()
    for j in range(out.shape[1]):
        k = int(np.argmax(np.abs(out[:, j])))
        if got.shape == out.shape and got[k, j] * out[k, j] < 0:
            out[:, j] = -out[:, j]
    return out


# --- Laplacians ---------------------------------------------------------
def L0(sc):
    return B1(sc) @ B1(sc).T


def Llow(sc):
    return B1(sc).T @ B1(sc)


def Lup(sc):
    return B2(sc) @ B2(sc).T


def Lhodge(sc):
    return B1(sc).T @ B1(sc) + B2(sc) @ B2(sc).T


def Ldown2(sc):
    return B2(sc).T @ B2(sc)


def operator(sc, name):
    if name == "L1":
        return Lhodge(sc)
    elif name == "L1L":
        return Llow(sc)
    else:
        return Lup(sc)


# --- Hodge components ---------------------------------------------------
def gradient_part(sc, f):
    A = B1(sc).T
    return A @ np.linalg.lstsq(A, f, rcond=None)[0]


def curl_part(sc, f):
    A = B2(sc)
    return A @ np.linalg.lstsq(A, f, rcond=None)[0]


def hodge_part(sc, component, f):
    if component == "gradient":
        return gradient_part(sc, f)
    elif component == "curl":
        return curl_part(sc, f)
    else:
        return f - gradient_part(sc, f) - curl_part(sc, f)


# --- spectra ------------------------------------------------------------
# (verifier: EIGVEC/EIGVAL of the matrix, see ded/theory.py for the axioms)
def eig(M):
    from pytspl.decomposition.eigendecomposition import (
        get_eigendecomposition,
    )

    U, lam = get_eigendecomposition(np.array(M, dtype=float))
    return U, lam


def above(M, tol):
    U, lam = eig(M)
    keep = np.where(lam > tol)[0]
    return U[:, keep], lam[keep]


def upto(M, tol):
    U, lam = eig(M)
    keep = np.where(lam <= tol)[0]
    return U[:, keep], lam[keep]


def component_pair(sc, component, tol):
    if component == "harmonic":
        return upto(Lhodge(sc), tol)
    elif component == "curl":
        return above(Lup(sc), tol)
    else:
        return above(Llow(sc), tol)


def nrmse(est, true):
    return np.linalg.norm(est - true) / np.linalg.norm(true)


def mpow(M, k):
    return np.linalg.matrix_power(np.asarray(M), k)


def polymat(h, M):
    """sum_i h[i] M^i"""
    out = np.zeros(M.shape)
    for i in range(len(h)):
        out = out + h[i] * mpow(M, i)
    return out


def poly_filter(points, target, M, size):
    """The polynomial of degree < size fitted to target at the points,
    applied to M."""
    V = np.zeros((len(points), size))
    for j in range(size):
        V[:, j] = points**j
    return polymat(np.linalg.lstsq(V, target, rcond=None)[0], M)


def mask(sc, component):
    """0/1 response over the ascending Hodge spectrum."""
    uh, lh = component_pair(sc, "harmonic", 1e-3)
    uc, lc = component_pair(sc, "curl", 1e-3)
    ug, lg = component_pair(sc, "gradient", 1e-3)
    values = np.concatenate((lh, lc, lg))
    nh = uh.shape[1]
    nc = uc.shape[1]
    out = np.zeros(len(sc.edges))
    if component == "harmonic":
        out[:nh] = 1
    elif component == "curl":
        out[nh : nh + nc] = 1
    else:
        out[nh + nc :] = 1
    return out[np.argsort(values)]
