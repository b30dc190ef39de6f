"""Scenarios for the complex, decompositions and filters."""

import warnings

import numpy as np

from contracts import spec
from rac import gen
from rac.native import eq, freeze, plain, same_frozen

SCENARIOS = {}


def scenario(*props, weight=1):
    def deco(fn):
        for p in props:
            SCENARIOS.setdefault(p, []).append((fn, weight))
        return fn
    return deco


def cx(ctx, **kw):
    sc = gen.build(ctx.rng, ctx.lits, **kw)
    ctx.log.append(f"sc = SimplicialComplex(nodes={sc.nodes}, edges={sc.edges}, triangles={sc.triangles})")
    ctx.sig.append((len(sc.nodes), len(sc.edges), len(sc.triangles), tuple(map(tuple, sc.edges))))
    return sc


def fl(ctx, sc, kind=None):
    return gen.flow(ctx.rng, len(sc.edges), kind)


def pair_of_complexes(ctx):
    """two different complexes, often of the same shape"""
    a = cx(ctx)
    if ctx.rng.random() < 0.6:
        from pytspl.simplicial_complex import SimplicialComplex
        es = [e if ctx.rng.random() < 0.5 else (e[1], e[0]) for e in a.edges]
        perm = ctx.rng.permutation(len(es))
        es = [es[i] for i in perm]
        b = SimplicialComplex(nodes=list(a.nodes), edges=es, triangles=[list(t) for t in a.triangles])
        ctx.log.append(f"sc2 = SimplicialComplex(nodes={b.nodes}, edges={b.edges}, triangles={b.triangles})")
    else:
        b = cx(ctx)
    return a, b


# ------------------------------------------------------------------ C01
@scenario("C01")
def c01(ctx):
    from pytspl.simplicial_complex import SimplicialComplex
    nodes, es, ts = gen.parts(ctx.rng, ctx.lits)
    ctx.sig.append((len(nodes), tuple(es), tuple(map(tuple, ts))))
    nf = {v: {"a": 1} for v in nodes}
    ef = {e: {"d": float(i)} for i, e in enumerate(es)}
    sc = ctx.new(SimplicialComplex, nodes, es, ts, nf, ef)
    for r in (1, 2, 0, 1, 2, 3, -1):
        ctx.call(sc.incidence_matrix, r)
    ctx.call(sc.edges_to_B1, es, len(nodes))
    ctx.call(sc.triangles_to_B2, ts, es)
    ctx.call(sc.identity_matrix)
    for name in ("shape", "simplices", "max_dim"):
        ctx.get(sc, name)


@scenario("C01")
def c01_empty(ctx):
    from pytspl.simplicial_complex import SimplicialComplex
    n = int(ctx.rng.integers(1, 6))
    sc = ctx.new(SimplicialComplex, list(range(n)), [], [])
    ctx.get(sc, "shape")
    ctx.get(sc, "max_dim")
    ctx.call(sc.incidence_matrix, 0)
    s2 = SimplicialComplex()
    ctx.check("default complex is empty", s2.shape == (0, 0, 0), f"shape {s2.shape}")


# ------------------------------------------------------------------ C02
@scenario("C02")
def c02(ctx):
    from pytspl.simplicial_complex.scbuilder import SCBuilder
    if ctx.rng.random() < 0.5:
        sc = cx(ctx, tri="all")
    else:
        nodes, es, _ = gen.parts(ctx.rng, ctx.lits)
        ctx.log.append(f"sc = SCBuilder({nodes}, {es}).to_simplicial_complex()")
        ctx.sig.append(tuple(es))
        sc = SCBuilder(nodes, es).to_simplicial_complex()
    from contracts import lemmas
    R = ctx.rng
    ctx.lemma(lemmas.boundary_of_boundary, list(sc.nodes), list(sc.edges), list(sc.triangles), {}, {})
    ctx.check("B1 B2 = 0", not np.any(np.abs(plain(sc.incidence_matrix(1)) @ plain(sc.incidence_matrix(2))) > 1e-9), "B1 B2 is not zero")
    ctx.lemma(lemmas.curl_of_gradient, sc, R.standard_normal(len(sc.nodes)))
    ctx.lemma(lemmas.divergence_of_curl_flow, sc, R.standard_normal(len(sc.triangles)))
    ctx.lemma(lemmas.laplacian_products, sc)
    ctx.lemma(lemmas.divergence_of_component, sc, R.standard_normal(len(sc.edges)))


# ------------------------------------------------------------------ C03
@scenario("C03")
def c03(ctx):
    scs = pair_of_complexes(ctx)
    for _ in range(10):
        sc = scs[ctx.rng.integers(2)]
        k = ctx.rng.integers(5)
        r = [0, 1, 2, 1, 2, 3, -1, gen.small_int(ctx.rng, ctx.lits, -5, 60)][ctx.rng.integers(8)]
        if k == 0:
            ctx.call(sc.laplacian_matrix)
        elif k == 1:
            ctx.call(sc.lower_laplacian_matrix, r)
        elif k == 2:
            ctx.call(sc.upper_laplacian_matrix, rank=r)
        elif k == 3:
            ctx.call(sc.hodge_laplacian_matrix, rank=r)
        else:
            ctx.call(sc.adjacency_matrix)
    ctx.call(scs[0].lower_laplacian_matrix)
    ctx.call(scs[1].upper_laplacian_matrix)
    ctx.call(scs[1].hodge_laplacian_matrix)
    ctx.call(scs[0].adjacency_matrix)


# ------------------------------------------------------------------ C04
@scenario("C04")
def c04(ctx):
    for sc in pair_of_complexes(ctx):
        f = fl(ctx, sc, None)
        k = gen.small_int(ctx.rng, ctx.lits, 1, 7)
        for fn in (sc.apply_lower_shifting, sc.apply_upper_shifting, sc.apply_k_step_shifting):
            ctx.call(fn, f, steps=k)
            ctx.call(fn, f)
        ctx.call(sc.apply_lower_shifting, f, 1)
        ctx.call(sc.apply_upper_shifting, f, 2)
        ctx.call(sc.apply_k_step_shifting, f, gen.small_int(ctx.rng, ctx.lits, 1, 12))


# ------------------------------------------------------------------ C05
@scenario("C05")
def c05(ctx):
    from pytspl.decomposition import hodge_decomposition as hd
    for sc in pair_of_complexes(ctx):
        f = fl(ctx, sc)
        parts = {}
        for c in spec.COMPONENTS:
            parts[c] = ctx.call(sc.get_component_flow, f, component=c, round_fig=False)
        ctx.call(sc.get_component_flow, f, component=gen.pick_str(ctx.rng, ctx.lits, spec.COMPONENTS, 0.5),
                 round_fig=bool(ctx.rng.random() < 0.5), round_sig_fig=int(ctx.rng.integers(0, 6)))
        ctx.call(sc.get_component_flow, f)
        ctx.check("components add up", eq(sum(parts.values()), f), "sum of the components differs from the flow")
        s = 1 + np.linalg.norm(f) ** 2
        for a, b in (("harmonic", "curl"), ("harmonic", "gradient"), ("curl", "gradient")):
            ctx.check(f"{a} orthogonal to {b}", abs(parts[a] @ parts[b]) < 1e-6 * s, f"inner product {parts[a] @ parts[b]}")
        B1, B2 = sc.incidence_matrix(1), sc.incidence_matrix(2)
        d = int(ctx.rng.integers(0, 5))
        rf = bool(ctx.rng.random() < 0.5)
        ctx.call(hd.get_gradient_flow, B1=B1, flow=f, round_fig=rf, round_sig_fig=d)
        ctx.call(hd.get_curl_flow, B2=B2, flow=f, round_fig=rf, round_sig_fig=d)
        ctx.call(hd.get_harmonic_flow, B1=B1, B2=B2, flow=f, round_fig=rf, round_sig_fig=d)
        ctx.call(hd.get_harmonic_flow, B1=B1, B2=B2, flow=f)


# ------------------------------------------------------------------ C06
@scenario("C06")
def c06(ctx):
    from pytspl.decomposition import eigendecomposition as ed
    for sc in pair_of_complexes(ctx):
        tol = gen.pick_float(ctx.rng, ctx.lits, 0.0, 6.0, 0.6)
        L = {"h": spec.Lhodge(sc), "g": spec.Llow(sc), "c": spec.Lup(sc)}
        lam = np.linalg.eigvalsh(L[("h", "g", "c")[ctx.rng.integers(3)]])
        if ctx.rng.random() < 0.3:
            tol = float(max(0.0, np.round(lam[ctx.rng.integers(len(lam))])))
        n = 0
        for comp in spec.COMPONENTS:
            u, v = ctx.call(sc.get_component_eigenpair, component=comp)
            n += len(v)
            ctx.check("as many vectors as values", u.shape == (len(sc.edges), len(v)), f"{u.shape} vs {len(v)}")
            ctx.call(sc.get_component_eigenpair, component=comp, tolerance=tol)
            ctx.call(sc.get_component_eigenpair, comp, 1e-3)
        ctx.call(sc.get_component_eigenpair)
        ctx.call(sc.get_component_eigenpair, gen.pick_str(ctx.rng, ctx.lits, spec.COMPONENTS, 0.7))
        sep = all(not np.any((np.abs(x) > 1e-6) & (np.abs(x) < 1e-2)) for x in (np.linalg.eigvalsh(m) for m in L.values()))
        if sep:
            ctx.check("component counts add up to the number of edges", n == len(sc.edges), f"{n} != {len(sc.edges)}")
        for m in L.values():
            ctx.call(ed.get_eigendecomposition, m.copy())
        ctx.call(ed.get_gradient_eigenpair, L["g"].copy(), tol)
        ctx.call(ed.get_curl_eigenpair, L["c"].copy(), tol)
        ctx.call(ed.get_harmonic_eigenpair, L["h"].copy(), tol)
        ctx.call(ed.get_harmonic_eigenpair, L["h"].copy(), 1e-6)
        k = int(ctx.rng.integers(2, 7))
        A = ctx.rng.standard_normal((k, k))
        ctx.call(ed.get_eigendecomposition, A + A.T)
        ctx.call(ed.get_gradient_eigenpair, A @ A.T, abs(tol))


# ------------------------------------------------------------------ C07
@scenario("C07")
def c07(ctx):
    from pytspl.decomposition import eigendecomposition as ed
    for sc in pair_of_complexes(ctx):
        f = fl(ctx, sc)
        ctx.call(sc.get_divergence, f)
        ctx.call(sc.get_curl, f)
        ctx.call(sc.get_simplicial_embeddings, f)
        ctx.call(sc.get_total_variance)
        ctx.call(ed.get_divergence, spec.B1(sc), f)
        ctx.call(ed.get_curl, spec.B2(sc), f)
        ctx.call(ed.get_total_variance, spec.L0(sc))
        ctx.call(sc.get_divergence, fl(ctx, sc))
        ctx.call(sc.get_simplicial_embeddings, fl(ctx, sc))


# ------------------------------------------------------------------ C08
@scenario("C08")
def c08(ctx):
    from pytspl.filters.base_filter import BaseFilter
    for sc in pair_of_complexes(ctx):
        bf = BaseFilter(sc)
        masks = {}
        for c in ctx.rng.permutation(spec.COMPONENTS):
            masks[str(c)] = ctx.call(bf.get_component_coefficients, str(c))
        ctx.call(bf.get_component_coefficients, component=gen.pick_str(ctx.rng, ctx.lits, spec.COMPONENTS, 0.8))
        L = [spec.Lhodge(sc), spec.Llow(sc), spec.Lup(sc)]
        lams = [np.linalg.eigvalsh(m) for m in L]
        if all(not np.any((np.abs(x) > 1e-6) & (np.abs(x) < 1e-2)) for x in lams):
            ctx.check("masks add up to ones", eq(sum(masks.values()), np.ones(len(sc.edges))), str(masks))
            want = dict(harmonic=np.sum(lams[0] <= 1e-3), gradient=np.sum(lams[1] > 1e-3), curl=np.sum(lams[2] > 1e-3))
            for c, m in masks.items():
                ctx.check(f"{c} mask has one entry per eigenvector", int(m.sum()) == want[c], f"{m}")
                ctx.check(f"{c} mask is 0/1", set(np.unique(m)) <= {0.0, 1.0}, f"{m}")
            # the marked frequencies are the component's frequencies
            ref = dict(harmonic=lams[0][lams[0] <= 1e-3], gradient=lams[1][lams[1] > 1e-3], curl=lams[2][lams[2] > 1e-3])
            for c, m in masks.items():
                got = lams[0][m == 1]
                ctx.check(f"{c} mask marks the {c} eigenvalues", eq(got, np.sort(ref[c])), f"{got} vs {ref[c]}")


# ------------------------------------------------------------------ C09
@scenario("C09")
def c09(ctx):
    from pytspl.filters.base_filter import BaseFilter
    a, b = pair_of_complexes(ctx)
    for sc in (a, b, a):
        bf = BaseFilter(sc)
        f = fl(ctx, sc)
        for p in ("L1", "L1L", "L1U", gen.pick_str(ctx.rng, ctx.lits, ("L1", "L1L", "L1U"), 0.7)):
            ctx.call(bf.get_p_matrix, p)
        ctx.call(bf.get_p_matrix)
        for c in spec.COMPONENTS + (gen.pick_str(ctx.rng, ctx.lits, spec.COMPONENTS, 0.8),):
            ctx.call(bf.get_true_signal, f, c)
        g = fl(ctx, sc)
        ctx.call(bf.calculate_error_NRMSE, f, g)
        ctx.call(BaseFilter.calculate_error_NRMSE, f, f + 1e-3 * g)
        ctx.call(BaseFilter.logistic_function, gen.pick_float(ctx.rng, ctx.lits, 0, 5), gen.small_int(ctx.rng, ctx.lits, 1, 60))
        ctx.call(BaseFilter.logistic_function)
        P = spec.operator(sc, ("L1", "L1L", "L1U")[ctx.rng.integers(3)])
        ctx.call(BaseFilter.power_iteration, P, gen.small_int(ctx.rng, ctx.lits, 0, 60))
        ctx.call(BaseFilter.power_iteration, P)


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


# ------------------------------------------------------------------ C10
@scenario("C10")
def c10(ctx):
    from pytspl.filters.ls_filter_design import LSFilterDesign
    for sc in pair_of_complexes(ctx):
        d = LSFilterDesign(sc)
        for _ in range(3):
            f = fl(ctx, sc)
            L = int(ctx.rng.integers(1, 6))
            if ctx.rng.random() < 0.5:
                ctx.call(d.subcomponent_extraction_type_one, f, gen.pick_str(ctx.rng, ctx.lits, spec.COMPONENTS, 0.1), L)
            else:
                kw = {}
                if ctx.rng.random() < 0.4:
                    kw["tolerance"] = float([1e-6, 1e-3, 1e-4, 1e-2][ctx.rng.integers(4)])
                ctx.call(d.subcomponent_extraction_type_two, f, gen.pick_str(ctx.rng, ctx.lits, ("gradient", "curl"), 0.1), L, **kw)


# ------------------------------------------------------------------ C11
@scenario("C11")
def c11(ctx):
    from pytspl.filters.grid_based_filter_design import GridBasedFilterDesign
    for sc in pair_of_complexes(ctx):
        d = GridBasedFilterDesign(sc)
        for _ in range(3):
            f = fl(ctx, sc)
            L = int(ctx.rng.integers(1, 5))
            p = gen.pick_str(ctx.rng, ctx.lits, ("L1", "L1L", "L1U"), 0.07)
            mu = gen.pick_float(ctx.rng, ctx.lits, 0.0, 3.0)
            if ctx.rng.random() < 0.5:
                ft = f + 0.1 * fl(ctx, sc, "normal")
                kw = {} if ctx.rng.random() < 0.3 else dict(mu=mu)
                ctx.call(d.denoise, f, ft, p, L, **kw)
            else:
                kw = {}
                if ctx.rng.random() < 0.7:
                    kw = dict(num_of_samples=gen.small_int(ctx.rng, ctx.lits, 2, 25), mu=mu,
                              cut_off_frequency=gen.pick_float(ctx.rng, ctx.lits, 0.0, 2.0),
                              steep=gen.small_int(ctx.rng, ctx.lits, 1, 60))
                ctx.call(d.subcomponent_extraction, f, gen.pick_str(ctx.rng, ctx.lits, spec.COMPONENTS, 0.05), p, L, **kw)


# ------------------------------------------------------------------ C12
class FakeCheb:
    """stand-in for the optional dependency chebpy (not installed): the
    first n Chebyshev coefficients of f on the domain"""

    def __init__(self, f, domain, n):
        t = np.cos(np.pi * (np.arange(200) + 0.5) / 200)
        a, b = domain
        self.coeffs = np.polynomial.chebyshev.chebfit(t, f((b - a) / 2 * (t + 1) + a), int(n) - 1) if n > 1 else np.array([float(np.mean(f((b - a) / 2 * (t + 1) + a)))])
        self.funs = [self]
        self.domain = domain

    def __call__(self, x):
        a, b = self.domain
        return np.polynomial.chebyshev.chebval(2 * (x - a) / (b - a) - 1, self.coeffs)


def install_chebpy(record):
    import sys
    import types
    m = types.ModuleType("chebpy")

    def chebfun(f=None, domain=None, n=None):
        record.append((f, list(domain), n))
        return FakeCheb(f, domain, n)
    m.chebfun = chebfun
    sys.modules["chebpy"] = m


@scenario("C12")
def c12(ctx):
    from pytspl.filters.chebyshev_filter_design import ChebyshevFilterDesign
    for sc in pair_of_complexes(ctx):
        d = ChebyshevFilterDesign(sc)
        p = gen.pick_str(ctx.rng, ctx.lits, ("L1", "L1L", "L1U"), 0.1)
        ctx.call(d.get_alpha, p)
        ctx.call(d.get_ideal_frequency, np.round(ctx.rng.random(len(sc.edges))))
        ctx.call(d.get_ideal_frequency, fl(ctx, sc))
        co = ctx.rng.standard_normal(gen.small_int(ctx.rng, ctx.lits, 1, 12))
        al = float(ctx.rng.uniform(1.5, 6))
        ctx.call(d.get_chebyshev_frequency_approx, p, co, al, gen.small_int(ctx.rng, ctx.lits, 1, 10))
        P = spec.operator(sc, ("L1", "L1L", "L1U")[ctx.rng.integers(3)])
        if hasattr(d, "_chebyshev_filter_approximate"):
            try:
                ctx.call(d._chebyshev_filter_approximate, P, co, al, gen.small_int(ctx.rng, ctx.lits, 1, 12))
            except TypeError:
                pass


@scenario("C12")
def c12_apply(ctx):
    from pytspl.filters.chebyshev_filter_design import ChebyshevFilterDesign
    rec = []
    install_chebpy(rec)
    sc = cx(ctx)
    d = ChebyshevFilterDesign(sc)
    for _ in range(2):
        f = fl(ctx, sc)
        p = ("L1", "L1L", "L1U")[ctx.rng.integers(3)]
        comp = spec.COMPONENTS[ctx.rng.integers(3)]
        true = spec.hodge_part(sc, comp, f)
        alpha = d.get_alpha(p)[0]
        if np.linalg.norm(true) < 1e-6 or not alpha > 1e-6:
            ctx.skips += 1
            continue
        L = int(ctx.rng.integers(2, 8))
        kw = dict(cut_off_frequency=gen.pick_float(ctx.rng, ctx.lits, 0, 2), steep=gen.small_int(ctx.rng, ctx.lits, 1, 60))
        if ctx.rng.random() < 0.5:
            kw["n"] = int(ctx.rng.integers(2, 20))
        ctx.log.append(f"ChebyshevFilterDesign(sc).apply(f={f}, p_choice={p!r}, component={comp!r}, L={L}, {kw})")
        del rec[:]
        before = freeze(sc)
        d.apply(f=f, p_choice=p, component=comp, L=L, **kw)
        ctx.check("complex unchanged", same_frozen(before, freeze(sc)))
        h = d.history
        mask = spec.mask(sc, comp)
        ctx.check("one series requested", len(rec) == 1 and rec[0][2] == kw.get("n", L), f"{rec}")
        g, dom, _ = rec[0]
        xs = np.linspace(-0.5, 8, 40)
        want = 1 / (1 + np.exp(-kw["steep"] * (xs - kw["cut_off_frequency"])))
        ctx.check("series of the logistic function", eq(g(xs), want))
        ctx.check("series on [0, lambda_max]", abs(dom[0]) < 1e-12 and abs(dom[1] - 2 * alpha) < 1e-6 * alpha, f"{dom}")
        co = FakeCheb(g, dom, rec[0][2]).coeffs
        P = spec.operator(sc, p)
        from rac.native import NativeContract
        ch = NativeContract(ctx.rng).chebyshev_sum
        full = ch((P - alpha * np.eye(len(P))) / alpha, co, min(L, len(co)))
        H = h["filter"]
        ctx.check("one filter per size", H.shape == (L,) + P.shape, f"{H.shape}")
        ctx.check("last filter has full order", eq(H[L - 1], full), "last recorded filter differs from the truncated expansion")
        U, _ = spec.eig(spec.Lhodge(sc))
        Hid = U @ np.diag(mask) @ U.T
        for k in range(L):
            ctx.check("estimate is the filter applied to the flow", eq(h["f_estimated"][k], H[k] @ f), f"row {k}")
            ctx.check("recorded spectrum", eq(h["frequency_responses"][k], U.T @ (H[k] @ f)), f"row {k}")
            ctx.check("recorded error", eq(h["extracted_component_error"][k], spec.nrmse(H[k] @ f, true)), f"row {k}")
            ctx.check("recorded filter error", eq(h["filter_error"][k], np.linalg.norm(H[k] - Hid, 2)), f"row {k}")
            trunc = [ch((P - alpha * np.eye(len(P))) / alpha, co, min(o, len(co))) for o in range(1, L + 1)]
            ctx.check("every recorded filter is a truncated expansion", any(eq(H[k], t) for t in trunc), f"row {k}")


# ------------------------------------------------------------------ C13
@scenario("C13")
def c13(ctx):
    from pytspl.filters.edge_flow_denoising import EdgeFlowDenoising
    for sc in pair_of_complexes(ctx):
        d = EdgeFlowDenoising(sc)
        for _ in range(3):
            f, ft = fl(ctx, sc), fl(ctx, sc)
            p = gen.pick_str(ctx.rng, ctx.lits, ("L1", "L1L", "L1U"), 0.07)
            if ctx.rng.random() < 0.2:
                ctx.call(d.denoise, f, ft, p)
            else:
                m = [gen.pick_float(ctx.rng, ctx.lits, 0.0, 5.0) for _ in range(int(ctx.rng.integers(1, 6)))]
                if ctx.rng.random() < 0.3:
                    m[ctx.rng.integers(len(m))] = 0.0
                m = np.array(m) if ctx.rng.random() < 0.5 else m
                ctx.call(d.denoise, f, ft, p, mu_vals=m)


# ------------------------------------------------------------------ C14
@scenario("C14")
def c14(ctx):
    from pytspl.filters.grid_based_filter_design import GridBasedFilterDesign
    from pytspl.filters.ls_filter_design import LSFilterDesign
    for sc in pair_of_complexes(ctx):
        for cls in (LSFilterDesign, GridBasedFilterDesign):
            d = cls(sc)
            kept = []
            for _ in range(3):
                f = fl(ctx, sc)
                l1, l2 = int(ctx.rng.integers(0, 5)), int(ctx.rng.integers(0, 5))
                kw = {}
                if cls is LSFilterDesign and ctx.rng.random() < 0.4:
                    kw["tolerance"] = float([1e-6, 1e-3, 1e-2, 1.5, 4.0][ctx.rng.integers(5)])
                if (l1 and np.linalg.norm(spec.gradient_part(sc, f)) < 1e-9) or (l2 and np.linalg.norm(spec.curl_part(sc, f)) < 1e-9):
                    ctx.skips += 1
                    continue
                h, c, g = ctx.call(d.general_filter, f, l1, l2, **kw)
                ctx.check("estimates add up to the flow", eq(h + c + g, f))
                hist = d.history
                # the records are those of separate single extractions
                for key, comp, size in (("L1", "gradient", l1), ("L2", "curl", l2)):
                    if size:
                        e = cls(sc)
                        if cls is LSFilterDesign:
                            e.subcomponent_extraction_type_two(f=f, component=comp, L=size, tolerance=kw.get("tolerance", 1e-3))
                        else:
                            e.subcomponent_extraction(f=f, component=comp, p_choice={"gradient": "L1L", "curl": "L1U"}[comp], L=size)
                        for k in ("filter", "f_estimated", "frequency_responses", "extracted_component_error"):
                            ctx.check(f"{cls.__name__}: record {key} keeps {k} of the {comp} extraction", eq(hist[key][k], e.history[k], 1e-5),
                                      f"{hist[key].get(k)} vs {e.history[k]}")
                for old, fz in kept:
                    ctx.check("earlier records unchanged by a later run", same_frozen(fz, freeze(old)))
                kept.append((hist, freeze(hist)))


# ------------------------------------------------------------------ C25
@scenario("C25")
def c25(ctx):
    sc = cx(ctx)
    pool = [int(x) for x in ctx.rng.permutation(30)[: int(ctx.rng.integers(2, 6))]]
    ctx.call(sc.get_faces, tuple(pool))
    ctx.call(sc.get_faces, list(pool))
    for t in list(sc.triangles)[:3] + list(sc.edges)[:3]:
        ctx.call(sc.get_faces, t)
    names = ["distance", "w", "x", gen.pick_str(ctx.rng, ctx.lits, ("flow",), 0.9) or "q"]
    sc.edge_features = {e: {n: (float(i * 10 + k) if ctx.rng.random() < 0.9 else 0.0) for k, n in enumerate(names)} for i, e in enumerate(sc.edges)}
    for n in names + ["missing", "", None]:
        ctx.call(sc.get_edge_features, n)
    ctx.call(sc.get_edge_features)
    ctx.call(sc.edge_feature_names)
    ctx.call(sc.get_node_features)
    sc.edge_features = {}
    ctx.call(sc.edge_feature_names)
    ctx.call(sc.get_edge_features)


# ------------------------------------------------------------------ C23
@scenario("C23")
def c23(ctx):
    from pytspl.decomposition import eigendecomposition as ed
    from pytspl.decomposition import hodge_decomposition as hd
    from pytspl.filters.base_filter import BaseFilter
    from pytspl.filters.edge_flow_denoising import EdgeFlowDenoising
    from pytspl.filters.grid_based_filter_design import GridBasedFilterDesign
    from pytspl.filters.ls_filter_design import LSFilterDesign
    scs = pair_of_complexes(ctx)
    flows = [fl(ctx, s, "normal") for s in scs]
    base = [freeze(s) for s in scs]
    bf = [BaseFilter(s) for s in scs]
    first = {}
    R = ctx.rng
    L = [[spec.Lhodge(s), spec.Llow(s), spec.Lup(s)] for s in scs]

    def look():
        return [[plain(s.hodge_laplacian_matrix()).copy(), np.array(s.get_component_flow(g, "curl", False)), plain(s.incidence_matrix(1)).copy(),
                 plain(s.adjacency_matrix()).copy()] for s, g in zip(scs, flows)]
    start = look()
    for _ in range(14):
        i = int(R.integers(2))
        sc, f = scs[i], flows[i]
        k = int(R.integers(17))
        comp = spec.COMPONENTS[R.integers(3)]
        p = ("L1", "L1L", "L1U")[R.integers(3)]
        if k == 0:
            r = ctx.call(sc.incidence_matrix, int(R.integers(0, 3)))
        elif k == 1:
            r = ctx.call(sc.hodge_laplacian_matrix, int(R.integers(0, 3)))
        elif k == 2:
            r = ctx.call(sc.lower_laplacian_matrix, int(R.integers(1, 3)))
        elif k == 3:
            r = ctx.call(sc.upper_laplacian_matrix, int(R.integers(0, 2)))
        elif k == 4:
            r = ctx.call(sc.adjacency_matrix)
        elif k == 5:
            r = ctx.call((sc.apply_lower_shifting, sc.apply_upper_shifting, sc.apply_k_step_shifting)[R.integers(3)], f, int(R.integers(1, 5)))
        elif k == 6:
            r = ctx.call(sc.get_component_flow, f, comp, bool(R.random() < 0.5))
        elif k == 7:
            r = ctx.call(sc.get_component_eigenpair, comp)
            for x in r:
                if x.flags.writeable and R.random() < 0.5:
                    x[...] = 3.0
        elif k == 8:
            r = ctx.call(sc.get_simplicial_embeddings, f)
        elif k == 9:
            r = ctx.call(sc.get_total_variance)
        elif k == 10:
            r = ctx.call(bf[i].get_component_coefficients, comp)
            if R.random() < 0.5:
                r[...] = 5.0
        elif k == 11:
            r = ctx.call(bf[i].get_p_matrix, p)
        elif k == 12:
            which = int(R.integers(4))
            if which == 0:
                ctx.call(LSFilterDesign(sc).subcomponent_extraction_type_one, f, comp, 3)
            elif which == 1:
                ctx.call(GridBasedFilterDesign(sc).denoise, f, f + 0.1, p, 2)
            elif which == 2:
                ctx.call(EdgeFlowDenoising(sc).denoise, f, f + 0.1, p, np.array([0.3, 1.0]))
            else:
                ctx.call(LSFilterDesign(sc).subcomponent_extraction_type_two, f, ("gradient", "curl")[R.integers(2)], 3)
        elif k == 13:
            m = L[i][R.integers(3)]
            r = ctx.call((ed.get_eigendecomposition, ed.get_gradient_eigenpair, ed.get_curl_eigenpair, ed.get_harmonic_eigenpair)[R.integers(4)], m)
        elif k == 14:
            B1, B2 = sc.incidence_matrix(1), sc.incidence_matrix(2)
            r = ctx.call(hd.get_harmonic_flow, B1, B2, f, bool(R.random() < 0.5))
        elif k == 15:
            r = ctx.call(bf[i].get_true_signal, f, comp)
        else:
            r = ctx.call(sc.get_divergence, f)
            r = ctx.call(sc.get_curl, f)
        for j in range(2):
            ctx.check("complexes unchanged", same_frozen(base[j], freeze(scs[j])), f"complex {j} changed")
    # repeatability after everything above
    for a, b in zip(look(), start):
        ctx.check("repeated calls agree", all(eq(x, y) for x, y in zip(a, b)))


@scenario("C23")
def c23_returned_containers(ctx):
    """results handed out earlier stay what they were"""
    from pytspl.filters.ls_filter_design import LSFilterDesign
    from pytspl.filters.edge_flow_denoising import EdgeFlowDenoising
    sc = cx(ctx)
    f, g = fl(ctx, sc, "normal"), fl(ctx, sc, "normal")
    for d, run in (
        (LSFilterDesign(sc), lambda d, x: d.subcomponent_extraction_type_two(x, "gradient", 2)),
        (EdgeFlowDenoising(sc), lambda d, x: d.denoise(x, x + 1, "L1")),
    ):
        try:
            run(d, f)
        except Exception as e:  # noqa
            ctx.fail("unexpected exception", repr(e))
        vals = {k: (v, np.array(v)) for k, v in d.history.items() if isinstance(v, np.ndarray)}
        run(d, g)
        for k, (v, old) in vals.items():
            ctx.check(f"array '{k}' of an earlier run unchanged", np.array_equal(v, old, equal_nan=True))


# ------------------------------------------------------- client lemmas
def lemmas_of(*props, weight=0.4):
    def deco(fn):
        for p in props:
            SCENARIOS.setdefault(p, []).append((fn, weight))
        return fn
    return deco


@lemmas_of("C03", "C06", weight=0.3)
def matrix_lemmas(ctx):
    from contracts import lemmas as M
    sc = cx(ctx)
    ctx.lemma(M.laplacians_symmetric, sc)
    ctx.lemma(M.component_eigenpairs, sc)


@lemmas_of("C04", "C05", "C07", weight=0.3)
def flow_lemmas(ctx):
    from contracts import lemmas as M
    sc = cx(ctx)
    n = len(sc.edges)
    f, g = ctx.rng.uniform(-1, 1, n), ctx.rng.uniform(-1, 1, n)
    k = float(ctx.rng.uniform(-2, 2))
    if ctx.prop == "C04":
        ctx.lemma(M.shifting_composes, sc, f, int(ctx.rng.integers(0, 2)), int(ctx.rng.integers(0, 2)))
        ctx.lemma(M.shifting_is_linear, sc, f, g, k, int(ctx.rng.integers(1, 4)))
    elif ctx.prop == "C05":
        ctx.lemma(M.orthogonal_split, sc, f)
    else:
        ctx.lemma(M.queries_are_linear, sc, f, g, k)
        ctx.lemma(M.total_variation_is_the_quadratic_form, sc)


@lemmas_of("C08", "C13", "C14", weight=0.3)
def filter_lemmas(ctx):
    from contracts import lemmas as M
    from pytspl.filters.base_filter import BaseFilter
    from pytspl.filters.edge_flow_denoising import EdgeFlowDenoising
    from pytspl.filters.ls_filter_design import LSFilterDesign
    sc = cx(ctx)
    f = fl(ctx, sc)
    if ctx.prop == "C08":
        ctx.lemma(M.masks_partition, BaseFilter(sc))
    elif ctx.prop == "C13":
        ctx.lemma(M.denoised_flow_solves_the_system, EdgeFlowDenoising(sc), f, fl(ctx, sc), float(ctx.rng.uniform(0, 5)))
    else:
        l1, l2 = int(ctx.rng.integers(0, 4)), int(ctx.rng.integers(0, 4))
        if (l1 and np.linalg.norm(spec.gradient_part(sc, f)) < 1e-9) or (l2 and np.linalg.norm(spec.curl_part(sc, f)) < 1e-9):
            return
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ctx.lemma(M.parts_add_up, LSFilterDesign(sc), f, l1, l2)
