"""Scenarios for the Gaussian-process package (C21, C22)."""

import numpy as np

from contracts import lemmas, spec
from rac import gen
from rac.native import Violation, eq, freeze, plain, same_frozen
from rac.scen_core import cx, fl, scenario
from rac.scen_io import silent

POSITIVE = ("kappa", "kappa_down", "kappa_up", "mu", "mu_down", "mu_up", "h", "h_down", "h_up")


def eigenpairs(ctx, sc):
    """in the documented order, as the trainer hands them over"""
    import torch
    out = []
    for i in (0, 1):
        for c in ("harmonic", "gradient", "curl"):
            out.append(torch.tensor(spec.component_pair(sc, c, 1e-3)[i], dtype=torch.float32))
    return out


def set_params(ctx, k):
    got = {}
    for n in POSITIVE:
        if hasattr(type(k), n):
            v = float(ctx.rng.uniform(0.2, 3.0))
            try:
                setattr(k, n, v)
            except AttributeError:
                continue
            got[n] = v
            ctx.check(f"setting {n}", abs(float(getattr(k, n).reshape(-1)[0]) - v) < 1e-3 * (1 + v), f"{n} = {getattr(k, n)} after setting {v}")
    # setting one parameter must not move another
    for n, v in got.items():
        ctx.check(f"{n} keeps its value", abs(float(getattr(k, n).reshape(-1)[0]) - v) < 1e-3 * (1 + v), f"{getattr(k, n)} expected {v}")
    return got


@scenario("C21")
def c21(ctx):
    import torch
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer
    R = ctx.rng
    sc = cx(ctx)
    n = len(sc.edges)
    ep = eigenpairs(ctx, sc)
    names = ["diffusion", "diffusion_non_hc", "matern", "matern_non_hc", "laplacian"]
    for name in names:
        ctx.log.append(f"KernelSerializer().serialize(eigenpairs(sc), {name!r}, 'forex')")
        try:
            k = ctx.call(KernelSerializer().serialize, ep, name, "forex")
        except Exception as e:  # noqa
            ctx.fail(f"{name} kernel cannot be created", repr(e))
        ctx.log.append(f"parameters {set_params(ctx, k)}")
        m = int(R.integers(2, 7))
        x1 = torch.tensor(R.integers(0, n, m), dtype=torch.float32).reshape(-1, 1)
        x2 = torch.tensor(R.integers(0, n, m if R.random() < 0.5 else int(R.integers(2, 6))), dtype=torch.float32).reshape(-1, 1)
        with torch.no_grad():
            K = ctx.call(k.forward, x1, x2)
            full = torch.arange(n, dtype=torch.float32).reshape(-1, 1)
            if n > 1:
                F = ctx.call(k.forward, full, full)
                ctx.call(k.forward, full, full, diag=True)
                F = plain(F)
                s = 1 + np.abs(F).max()
                ctx.check(f"{name}: symmetric", np.abs(F - F.T).max() < 1e-4 * s)
                ctx.check(f"{name}: positive semidefinite", np.linalg.eigvalsh((F + F.T) / 2).min() > -1e-4 * s)
                i, j = x1.reshape(-1).long().numpy(), x2.reshape(-1).long().numpy()
                ctx.check(f"{name}: block of the full matrix", eq(K, F[np.ix_(i, j)]))
                if m == len(x2):
                    ctx.call(k.forward, x1, x2, diag=True)


@scenario("C21", weight=0.2)
def c21_reject(ctx):
    import torch
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer
    sc = cx(ctx)
    ep = eigenpairs(ctx, sc)
    ctx.lemma(lemmas.kernel_parameters, ep, [float(v) for v in ctx.rng.uniform(0.2, 3.0, 9)])
    n = len(sc.edges)
    x1, x2 = (torch.tensor(ctx.rng.integers(0, n, 4), dtype=torch.float32).reshape(-1, 1) for _ in range(2))
    with torch.no_grad():
        ctx.lemma(lemmas.kernels_symmetric, ep, [float(v) for v in ctx.rng.uniform(0.2, 3.0, 9)], x1, x2)
    for kt, ds in (("laplacian_non_hc", "forex"), ("matern", "wsn"), ("matern", "Forex"), ("matern", ""), ("Matern", "forex"), ("", "forex"), ("rbf", "forex"),
                   (gen.pick_str(ctx.rng, ctx.lits, ("diffusion", "diffusion_non_hc", "matern", "matern_non_hc", "laplacian"), 1.0), "forex"),
                   ("diffusion", gen.pick_str(ctx.rng, ctx.lits, ("forex",), 1.0))):
        ctx.log.append(f"serialize(eigenpairs, {kt!r}, {ds!r})")
        try:
            KernelSerializer().serialize(ep, kt, ds)
        except ValueError:
            ctx.calls += 1
            continue
        except Exception as e:  # noqa
            ctx.fail("unknown kernel or dataset: expected ValueError", f"{type(e).__name__}: {e}")
        ctx.fail("unknown kernel or dataset: expected ValueError", f"{kt!r}, {ds!r} was accepted")


@scenario("C22")
def c22(ctx):
    import torch
    from pytspl.hogde_gp.hodge_gp_trainer import HodgeGPTrainer
    R = ctx.rng
    sc = cx(ctx)
    n = len(sc.edges)
    y = R.permutation(n).astype(float) * 3.0 + 1.0 + R.random(n)
    with silent():
        tr = ctx.new(HodgeGPTrainer, sc, y)
        ctx.call(tr.get_laplacians)
        ctx.call(tr.get_incidence_matrices)
        ctx.call(tr.get_eigenpairs)
        ctx.call(tr.get_eigenpairs, gen.pick_float(R, ctx.lits, 0.0, 5.0))
        ctx.call(tr.get_model_parameters)
        ctx.call(tr.build_matern_kernel)
        m = int(R.integers(2, 6))
        t = [torch.tensor(R.standard_normal(k) * 5 + 2, dtype=torch.float32) for k in (m, 3, 4)]
        ctx.call(tr.normalize_data, *t)
        if n < 4:
            return
        ratio = float(R.uniform(0.35, 0.75))
        seed = gen.small_int(R, ctx.lits, 0, 60)
        outs = []
        for norm in (False, True, False):
            kw = dict(train_ratio=ratio, data_normalization=norm, seed=seed)
            ctx.log.append(f"train_test_split({kw}) with y={y}")
            np.random.seed(int(R.integers(1 << 30)))
            torch.manual_seed(int(R.integers(1 << 30)))
            try:
                outs.append([plain(v).copy() for v in ctx.call(tr.train_test_split, **kw)])
            except Violation:
                raise
            except Exception as e:  # noqa
                ctx.fail("train_test_split: unexpected exception", repr(e))
            for nm, v in zip(("x_train", "y_train", "x_test", "y_test"), outs[-1]):
                ctx.check(f"{nm} is kept on the trainer", eq(getattr(tr, nm), v))
    for a in outs:
        xa, ya, xb, yb, x, yy = a
        ia, ib = xa.astype(int).reshape(-1), xb.astype(int).reshape(-1)
        ctx.check("train and test edges are disjoint and cover all edges", sorted(list(ia) + list(ib)) == list(range(n)), f"{ia} {ib}")
        ctx.check("inputs are all edges in order", list(x.astype(int).reshape(-1)) == list(range(n)))
        ctx.check("sizes match the ratio", abs(len(ia) - ratio * n) <= 1.0, f"{len(ia)} of {n} for ratio {ratio}")
        ctx.check("seed determines the split", np.array_equal(xa, outs[0][0]) and np.array_equal(xb, outs[0][2]))
    for a, norm in zip(outs, (False, True, False)):
        xa, ya, xb, yb, x, yy = a
        ia, ib = xa.astype(int).reshape(-1), xb.astype(int).reshape(-1)
        if norm:
            mu, sd = y[ia].mean(), y[ia].std(ddof=1)
            if sd < 1e-9:
                continue
        else:
            mu, sd = 0.0, 1.0
        for nm, got, want in (("train", ya, y[ia]), ("test", yb, y[ib]), ("all", yy, y)):
            ctx.check(f"{nm} targets stay with their edges" + (" (normalised)" if norm else ""), eq(got.astype(np.float32), (want - mu) / sd), f"{got} expected {(want - mu) / sd}")
    ctx.calls += 3


@scenario("C22", weight=0.1)
def c22_train(ctx):
    import gpytorch
    import torch
    from pytspl.hogde_gp.exact_gp import ExactGPModel
    from pytspl.hogde_gp.hodge_gp_trainer import HodgeGPTrainer
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer
    R = ctx.rng
    sc = cx(ctx, shape=("dense", "paper", "complete", "fan", "two")[R.integers(5)], tri="all")
    n = len(sc.edges)
    if n < 6:
        ctx.skips += 1
        return
    y = R.standard_normal(n) * 2 + 1
    with silent():
        tr = HodgeGPTrainer(sc, y)
        xa, ya, xb, yb, x, yy = tr.train_test_split(0.7, bool(R.random() < 0.5), 3)
        lik = gpytorch.likelihoods.GaussianLikelihood()
        k = KernelSerializer().serialize(eigenpairs(ctx, sc), "matern", "forex")
        model = ExactGPModel(xa, ya, lik, k, mean_function=None)
        set_params(ctx, k)
        ctx.log.append("tr.train(model, lik, x_train, y_train, training_iters=2)")
        try:
            tr.train(model, lik, xa, ya, training_iters=int(R.integers(0, 3)))
        except Exception as e:  # noqa
            ctx.fail("train: unexpected exception", repr(e))
        ctx.call(tr.get_model_parameters)
        ctx.call(tr.build_matern_kernel)
