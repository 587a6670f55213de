"""C34: learning structures of nonlinear data."""

import numpy as np

from . import gen
from .core import digest
from .oracles import canon_rows

SHAPES = {
    "linear": lambda z: z,
    "tanh": lambda z: np.tanh(2 * z),
    "cubic": lambda z: z + z**3 / 3,
    "exponential": lambda z: np.exp(z / 1.5),
    "step": lambda z: np.floor(2 * z),
    "logistic": lambda z: 1 / (1 + np.exp(-3 * z)),
}


def nonlinear_data(rng, b, n, noise, names=None):
    """Every variable is a sum of functions of its latents, each of unit variance, and noise."""
    k, m = b.shape
    z = rng.normal(size=(n, k)) if rng.random() < 0.5 else rng.uniform(-1.7, 1.7, (n, k))
    x = np.zeros((n, m))
    names = list(SHAPES) if names is None else names
    used = {}
    for j in range(m):
        for i in np.flatnonzero(b[:, j]):
            name = str(rng.choice(names))
            y = SHAPES[name](z[:, i])
            x[:, j] += rng.choice([-1, 1]) * (y - y.mean()) / y.std()
            used[f"{i}-{j}"] = name
    x += noise * rng.normal(size=(n, m))
    return used, x * 10.0 ** rng.integers(-3, 4, m) + rng.normal(size=m) * 5


def c34(ctx):
    from medil.ecc_algorithms import find_clique_min_cover, find_heuristic_1pc
    from medil.evaluate import sfd
    from medil.independence_testing import estimate_UDG
    from medil.models import NeuroCausalFactorAnalysis
    from . import neural

    ctx.rule = (
        "nonlinear datasets of 400 to 1500 observations from structures with pure children and at most "
        "two latents per variable (fast distance covariance and t-test) or one (xi correlation, nearly "
        "noiseless); rates of missed and false dependences, structures learned, distances to the true "
        "ones; non-trivial: structure with dependent and independent pairs"
    )

    def shard(ctx, idx):
        rng = ctx.rng("c34", idx)
        for i in range(ctx.pick(26, 330)):
            method = ("dcov_fast", "dcov_fast", "xicor", "dcov_fast", "dcov_big")[i % 5]
            if method == "dcov_fast" and i % 7 == 0:
                m = int(rng.integers(8, 16))
            else:
                m = int(rng.integers(2, 7))
            k = int(rng.integers(1, m + 1))
            b = gen.one_pure_child(rng, m, num_latent=k, p=0.5)
            most = 1 if method == "xicor" else 2
            for j in np.flatnonzero(b.sum(0) > most):
                extra = rng.permutation(np.flatnonzero(b[:, j]))[most:]
                b[extra, j] = False
            noise = 0.03 if method == "xicor" else 0.2
            n = int(rng.integers(400, 1500)) if method != "dcov_big" else int(rng.integers(300, 500))
            alpha = {"dcov_fast": 0.01, "xicor": 0.001, "dcov_big": 0.001}[method]
            used, x = nonlinear_data(rng, b, n, noise)
            dep = gen.induced(b)
            edges = dep[np.triu_indices(m, 1)]
            ctx.case(dict(structure=b, functions=used, n=n, method=method, alpha=alpha, data=digest(x)),
                     edges.any() and not edges.all(), digest(x))
            with ctx.guarded():
                with ctx.lib(f"estimate_UDG({method})", cpu=300):
                    udg = np.asarray(estimate_UDG(x, method=method, significance_level=alpha)[0])
                ctx.need(udg.shape == (m, m) and udg.dtype == bool, "graph", got=udg)
                got = np.triu(udg, 1)
                ctx.count(f"missed dependences: {method}", (np.triu(dep, 1) & ~got).sum())
                ctx.count(f"dependent pairs: {method}", edges.sum())
                ctx.count(f"false dependences: {method}", (got & ~dep).sum())
                ctx.count(f"independent pairs: {method}", (~edges).sum())
                with ctx.lib("find_heuristic_1pc"):
                    learned = np.asarray(find_heuristic_1pc(udg.copy()))
                    d = tuple(int(v) for v in sfd(learned, b))
                right = np.array_equal(got, np.triu(dep, 1))
                ctx.count(f"structures learned: {method}")
                ctx.count(f"structures recovered: {method}", right)
                if right:
                    ctx.expect(canon_rows(learned) == canon_rows(b), "another structure with the same graph",
                               got=learned, expected=b)
                    ctx.expect(d == (0, 0), f"distances of the recovered structure: {d}")
                    if m <= 8:
                        with ctx.lib("find_clique_min_cover"):
                            cover = np.asarray(find_clique_min_cover(udg.copy()))
                        ctx.expect(len(cover) == len(b), "number of latents of the minimum cover", got=cover)
                elif not np.array_equal(gen.induced(learned), dep):
                    ctx.expect(d != (0, 0), "wrong structure has distance zero", got=learned, expected=b)
                # the neural model's own structure learning
                model = NeuroCausalFactorAnalysis(path=neural.fresh_dir(ctx))
                if not hasattr(model, "_compute_biadj"):
                    continue
                # any level, also ones at which many independent variables seem dependent
                level = float(rng.choice([alpha, 0.05, 0.1, 0.3, 0.6, 0.9]))
                model.hyperparams.update(method=method, alpha=level)
                model.dataset = x
                given = i % 3 == 0
                if level != alpha and not given:
                    with ctx.lib(f"estimate_UDG({method})", cpu=300):
                        udg = np.asarray(estimate_UDG(x, method=method, significance_level=level)[0])
                        learned = np.asarray(find_heuristic_1pc(udg.copy()))
                if given:
                    u = gen.er(rng, m, 0.5)
                    model.udg = u.copy()
                with ctx.lib("_compute_biadj", cpu=300):
                    model._compute_biadj()
                    want = np.asarray(find_heuristic_1pc(u.copy())) if given else learned
                ctx.count("structures learned by neural models")
                ctx.expect(np.array_equal(np.asarray(model.udg), u if given else udg),
                           "graph of the neural model", got=model.udg)
                ctx.expect(canon_rows(model.biadj) == canon_rows(want), "structure of the neural model",
                           got=model.biadj, expected=want)
            if ctx.num_violations or ctx.out_of_time(150, 800):
                return

    ctx.shards(shard)
    c = lambda name: ctx.counters.get(name, 0)
    ctx.case_info = dict(note="all datasets of this run")
    for method, alpha in (("dcov_fast", 0.01), ("xicor", 0.001), ("dcov_big", 0.001)):
        pairs, null = c(f"dependent pairs: {method}"), c(f"independent pairs: {method}")
        missed, false = c(f"missed dependences: {method}"), c(f"false dependences: {method}")
        ctx.expect(missed <= max(3, 0.03 * pairs), f"{method} missed {missed} of {pairs} clear dependences")
        ctx.expect(false <= alpha * null + 7 * np.sqrt(2 * alpha * null + 1),
                   f"{method} found {false} false dependences in {null} pairs at level {alpha}")
        total, right = c(f"structures learned: {method}"), c(f"structures recovered: {method}")
        ctx.expect(right >= 0.8 * total, f"only {right} of {total} structures recovered by {method}")
        ctx.require(f"dependent pairs: {method}", 20)
        ctx.require(f"structures recovered: {method}", 10)


CHECKS = dict(C34=c34)
