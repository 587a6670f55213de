"""C42-C44: relations between runs: other orders, other units, parts and wholes."""

import numpy as np

from . import gen, neural
from .core import digest
from .gaussian import bic_rule
from .indep import dcov_ref
from .structure import call_cover


def ix(perm):
    return np.ix_(perm, perm)


def fast_rule(x, alpha):
    """Dependences by the distance covariance rule, and the pairs too close to tell."""
    from scipy.stats import chi2

    cov, bars = dcov_ref(x)
    stat = len(x) * cov / np.outer(bars, bars)
    crit = chi2(1).ppf(1 - alpha)
    dep, close = stat >= crit, np.abs(stat - crit) < 1e-6 * crit
    np.fill_diagonal(dep, False)
    return dep, close


def loss_of_fit(p, s):
    w, d = np.asarray(p.biadj_weights), np.asarray(p.error_variances)
    return ((w.T @ w + np.diag(d) - s) ** 2).sum()


def rows(b):
    """Latents of a structure, in canonical order."""
    return sorted(map(bytes, np.asarray(b).astype(bool)))


def cliques(graph):
    from medil.ecc_algorithms import max_cliques

    return sorted(tuple(sorted(int(v) for v in c)) for c in max_cliques(graph))


def share_allowed(ctx, what, bad, total, share):
    count = ctx.counters.get(bad, 0)
    of = ctx.counters.get(total, 0)
    ctx.expect(count <= max(4, share * of), f"{count} of {of} {what}")


# ---------------------------------------------------------------- C42


def c42(ctx):
    from medil.ecc_algorithms import find_heuristic_1pc
    from medil.evaluate import min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs, sfd
    from medil.independence_testing import dcov, estimate_UDG, xicorr
    from medil.models import DevMedil, GaussianMCM

    ctx.rule = (
        "random datasets, graphs, structures and weights, and the same with observations, variables "
        "or latents in another order; results compared after undoing it; non-trivial: order changed"
    )

    def tests(rng, i):
        n = int(rng.integers(5, 120)) if i % 3 else int(rng.integers(120, 700))
        m = int(rng.integers(2, 8))
        kind, x = gen.dataset(rng, n, m)
        x = x * 10.0 ** rng.integers(-3, 4, m)
        r, c = rng.permutation(n), rng.permutation(m)
        alpha = float(rng.choice([0.01, 0.05, 0.2]))
        ctx.case(dict(what="tests", data=x, observations=r, variables=c, alpha=alpha), True, digest(x))
        with ctx.lib("dcov"):
            cov, bars = dcov(x.copy())
            cov2, bars2 = dcov(x[r][:, c])
        tol = 1e-9 * np.sqrt(np.outer(cov.diagonal(), cov.diagonal())) + 1e-12 * np.outer(bars, bars)
        ctx.expect(np.abs(cov2 - cov[ix(c)]).shape == (m, m)
                   and (np.abs(cov2 - cov[ix(c)]) <= tol[ix(c)]).all(),
                   "distance covariances depend on the order", got=cov2, expected=cov[ix(c)])
        ctx.expect(np.allclose(bars2, bars[c], rtol=1e-9), "mean distances depend on the order")
        with ctx.lib("estimate_UDG"):
            g1, _ = estimate_UDG(x.copy(), method="dcov_fast", significance_level=alpha)
            g2, _ = estimate_UDG(x[r][:, c], method="dcov_fast", significance_level=alpha)
        close = fast_rule(x, alpha)[1]
        ctx.expect((g2 == g1[ix(c)])[~close[ix(c)]].all(), "dcov_fast graph depends on the order",
                   got=g2, expected=g1[ix(c)])
        a, b = 0, 1
        ties = bool(rng.integers(2))
        y = x[:, b] if i % 4 else np.round(x[:, b] / x[:, b].std())
        if np.ptp(y):
            with ctx.lib("xicorr"):
                xi1, xi2 = xicorr(x[:, a], y, ties), xicorr(x[r, a], y[r], ties)
            ctx.expect(np.allclose(xi1, xi2, rtol=1e-9, atol=1e-12),
                       "xi correlation depends on the order of observations", got=xi2, expected=xi1)
        with ctx.lib("GaussianMCM.fit"):
            f1 = GaussianMCM().fit(x.copy())
            f2 = GaussianMCM().fit(x[r][:, c])
        close = bic_rule(x)[1]
        ctx.expect((f2.udg == f1.udg[ix(c)])[~close[ix(c)]].all(),
                   "graph of GaussianMCM depends on the order", got=f2.udg, expected=f1.udg[ix(c)])
        if not close.any():
            ctx.expect(len(f1.biadj) == len(f2.biadj), "number of latents depends on the order",
                       first=f1.biadj, second=f2.biadj)
        ctx.expect(np.allclose(f2.parameters.error_means, f1.parameters.error_means[c], rtol=1e-9,
                               atol=1e-9 * np.abs(x).max()), "means depend on the order")
        ctx.count("datasets reordered")

    def pooled_tests(rng, i):
        n, m = int(rng.integers(10, 60)), int(rng.integers(3, 6))
        x = gen.dataset(rng, n, m)[1]
        r, c = rng.permutation(n), rng.permutation(m)
        if i % 2:
            c = np.sort(c)  # as xi isn't symmetric
        method = "xicor" if i % 2 else "dcov_big"
        ctx.case(dict(what=method, data=x, observations=r, variables=c), True, digest(x, i))
        with ctx.lib("estimate_UDG"):
            _, p1 = estimate_UDG(x.copy(), method=method)
            _, p2 = estimate_UDG(x[r][:, c], method=method)
        off = ~np.eye(m, dtype=bool)
        ctx.expect(p2.shape == (m, m) and np.allclose(p2[off], p1[ix(c)][off], rtol=1e-6, atol=1e-10),
                   f"p-values of {method} depend on the order", got=p2, expected=p1[ix(c)])
        if method == "xicor":  # pairs whose order is kept by a subset in the same order
            keep = np.sort(rng.choice(m, int(rng.integers(2, m + 1)), replace=False))
            with ctx.lib("estimate_UDG"):
                _, p3 = estimate_UDG(x[:, keep], method=method)
            off = ~np.eye(len(keep), dtype=bool)
            ctx.expect(np.allclose(p3[off], p1[ix(keep)][off], rtol=1e-9, atol=1e-12),
                       "p-values of xicor depend on other variables")
        ctx.count("p-values of reordered data")

    def fits(rng, i):
        m = int(rng.integers(2, 8))
        k = int(rng.integers(1, min(m, 4) + 1))
        b = gen.one_pure_child(rng, m, k) if i % 3 else gen.biadj(rng, k, m)
        w = np.where(b, rng.uniform(0.5, 2, b.shape), 0)
        if i % 2:
            w *= rng.choice([-1, 1], b.shape)
        n = int(rng.integers(m + 3, 400))
        x = rng.normal(size=(n, k)) @ w + rng.normal(size=(n, m)) * rng.uniform(0.5, 1.4, m)
        r, c, l = rng.permutation(n), rng.permutation(m), rng.permutation(k)
        ctx.case(dict(what="fits", structure=b, data=x, variables=c, latents=l), True, digest(x))
        with ctx.lib("GaussianMCM.fit", cpu=120):
            f1 = GaussianMCM(biadj=b.copy()).fit(x.copy())
            f2 = GaussianMCM(biadj=b[l][:, c]).fit(x[r][:, c])
        s = np.cov(x, rowvar=False).reshape(m, m)
        one, two = loss_of_fit(f1.parameters, s), loss_of_fit(f2.parameters, s[ix(c)])
        rel = abs(one - two) / (s**2).sum()
        ctx.count("fits compared")
        ctx.count("fits with other distances", rel > 1e-4)
        ctx.high("difference of relative distances", rel)
        ctx.expect(np.array_equal(np.asarray(f2.biadj).astype(bool), b[l][:, c]),
                   "given structure changed")
        ctx.expect(np.allclose(f2.parameters.error_means, f1.parameters.error_means[c], rtol=1e-9,
                               atol=1e-9), "means depend on the order")

    def graphs(rng, i):
        name, adj = gen.graph(rng, 4, 11)
        m = len(adj)
        p = rng.permutation(m)
        e = int(rng.integers(len(gen.ENCODINGS)))
        g1, g2 = gen.encode(adj, e), gen.encode(adj[ix(p)], e)
        ctx.case(dict(what="graphs", graph=adj, variables=p), True, digest(adj, p))
        c1, warned1 = call_cover(ctx, g1)
        c2, warned2 = call_cover(ctx, g2)
        if not warned1 and not warned2:
            ctx.expect(len(c1) == len(c2), "size of minimum covers depends on the order of variables",
                       first=c1, second=c2)
            ctx.count("minimum covers compared")
        with ctx.lib("find_heuristic_1pc"):
            h1, h2 = find_heuristic_1pc(g1.copy()), find_heuristic_1pc(g2.copy())
        ctx.expect(len(h1) == len(h2), "number of pure children depends on the order", first=h1, second=h2)
        with ctx.lib("max_cliques"):
            q1, q2 = cliques(g1.copy()), cliques(g2.copy())
        back = sorted(tuple(sorted(int(p[v]) for v in c)) for c in q2)
        ctx.expect(back == q1, "maximal cliques depend on the order", got=back, expected=q1)
        ctx.count("graphs relabelled")

    def many_sets(rng, i):
        """Graphs with many maximal independent sets of different sizes."""
        m = int(rng.integers(12, 19))
        if i % 3:
            adj = gen.er(rng, m, float(rng.choice([0.1, 0.2, 0.3])))
        else:
            ring = np.zeros((5, 5), bool)
            ring[np.arange(5), (np.arange(5) + 1) % 5] = True
            star = np.zeros((5, 5), bool)
            star[0, 1:] = True
            adj = gen.disjoint(*[(ring, star)[int(rng.integers(2))] for _ in range(3)])
            adj = adj | adj.T
            m = len(adj)
        sizes = set()
        ctx.case(dict(what="many sets", graph=adj), True, digest(adj))
        for _ in range(6):
            p = rng.permutation(m)
            with ctx.lib("find_heuristic_1pc"):
                sizes.add(len(find_heuristic_1pc(gen.encode(adj[ix(p)], i))))
        ctx.expect(len(sizes) == 1, "number of pure children depends on the order", sizes=sizes)
        ctx.count("graphs with many independent sets")

    def sorted_data(rng, i):
        """Many observations, sorted, drifting or shuffled."""
        n, m = int(rng.choice([1000, 2100, 4200, 5300])), int(rng.integers(2, 5))
        r0 = np.sqrt(-np.expm1(-np.log(n) / n))
        z = rng.normal(size=n)
        x = np.stack([z] + [rng.choice([0, 1, 1.4, 3]) * r0 * z + rng.normal(size=n) for _ in range(m - 1)], 1)
        ctx.case(dict(what="sorted", data=x), True, digest(x))
        close = bic_rule(x)[1]
        graphs, means = [], []
        for order in (np.arange(n), np.argsort(x[:, 0]), np.argsort(-x[:, 1])):
            with ctx.lib("GaussianMCM.fit"):
                fitted = GaussianMCM().fit(x[order])
            graphs.append(fitted.udg)
            means.append(fitted.parameters.error_means)
        ctx.expect(all((g == graphs[0])[~close].all() for g in graphs),
                   "graph of GaussianMCM depends on the order of observations", got=graphs)
        ctx.expect(all(np.allclose(mu, means[0], rtol=1e-9, atol=1e-9) for mu in means),
                   "means depend on the order of observations", got=means)
        if n < 2500:
            with ctx.lib("dcov"):
                (a, b), (c, d) = dcov(x.copy()), dcov(x[np.argsort(x[:, 0])])
            ctx.expect(np.allclose(a, c, rtol=1e-6, atol=1e-9) and np.allclose(b, d, rtol=1e-9),
                       "distance covariances depend on the order of observations", got=c, expected=a)
        a, b = (np.argsort(x[:, 0]), np.argsort(x[:, 1]))
        with ctx.lib("xicorr"):
            results = [xicorr(x[o, 0], x[o, 1]) for o in (a, b, np.arange(n))]
        ctx.expect(np.allclose(results[0], results[2], rtol=1e-9, atol=1e-12) and
                   np.allclose(results[1], results[2], rtol=1e-9, atol=1e-12),
                   "xi correlation depends on the order of observations", got=results)
        ctx.count("sorted datasets")

    def distances(rng, i):
        m, k, k2 = int(rng.integers(2, 8)), int(rng.integers(1, 6)), int(rng.integers(1, 6))
        a, b = gen.biadj(rng, k, m), gen.biadj(rng, k2, m)
        c = rng.permutation(m)
        ctx.case(dict(what="distances", first=a, second=b, variables=c), True, digest(a, b, c))
        with ctx.lib("sfd"):
            d1 = sfd(a, b)
            d2 = sfd(a[rng.permutation(k)][:, c], b[rng.permutation(k2)][:, c])
        ctx.expect(tuple(map(int, d1)) == tuple(map(int, d2)),
                   "distances depend on the order of variables or latents", got=d2, expected=d1)
        k, k2 = max(k, k2), min(k, k2)
        w, v = rng.normal(size=(k, m)), rng.normal(size=(k2, m))
        l, l2 = rng.permutation(k), rng.permutation(k2)
        for func, pre in ((min_perm_squared_l2_dist, lambda x: x), (min_perm_squared_l2_dist_abs, np.abs)):
            with ctx.lib("distance of weights"):
                _, e1 = func(w.copy(), v.copy())
                order, e2 = func(w[l][:, c], v[l2][:, c])
            ctx.expect(np.isclose(e1, e2, rtol=1e-9, atol=1e-12), "distance of weights depends on the order",
                       got=e2, expected=e1)
            full = np.zeros((k, m))
            full[:k2] = v[l2][:, c]
            attained = ((pre(w[l][:, c][np.asarray(order)]) - pre(full)) ** 2).sum()
            ctx.expect(np.isclose(attained, e2, rtol=1e-9, atol=1e-12), "reported order attains the distance")
        ctx.count("distances of reordered structures")

    def penalized(rng, i):
        m = int(rng.integers(2, 4))
        n = int(2 ** rng.integers(4, 7))
        x = np.round(gen.dataset(rng, n, m)[1] * 1024) / 1024  # so that rounding errors make no difference
        r = rng.permutation(n)
        seed = int(rng.integers(1 << 30))
        method = ("mle", "lse")[i % 2]
        ctx.case(dict(what="penalized", data=x, observations=r, method=method), True, digest(x, r))
        out = []
        for data in (x.copy(), x[r]):
            with ctx.lib("DevMedil.fit"):
                model = DevMedil(rng=np.random.default_rng(seed)).fit(data, method=method)
            w, d = np.asarray(model.W_hat), np.asarray(model.D_hat)
            out.append(w.T @ w + d)
        ctx.expect(np.allclose(out[0], out[1], rtol=1e-3, atol=1e-3),
                   "penalized fits depend on the order of observations", first=out[0], second=out[1])
        ctx.count("penalized fits compared")

    def training(rng, i):
        cfg = neural.config(rng, i, epochs=(1, 4))
        n = cfg["n"]
        cfg["hyper"]["batch_size"] = max(cfg["hyper"]["batch_size"], 32)
        if cfg["split"] is None:
            perm = rng.permutation(n)
            cfg["split"] = perm[: n * 2 // 3], perm[n * 2 // 3 :]
        r = rng.permutation(n)
        inverse = np.argsort(r)
        ctx.case(dict(what="training", observations=digest(r), **neural.info_of(cfg)), True)
        with ctx.lib("fit"):
            m1, _ = neural.training_result(cfg, neural.fresh_dir(ctx))
            other = dict(cfg, x=cfg["x"][r], split=[inverse[np.asarray(s, int)] for s in cfg["split"]])
            m2, _ = neural.training_result(other, neural.fresh_dir(ctx))
        for key in m1.loss:
            one, two = np.asarray(m1.loss[key], float), np.asarray(m2.loss[key], float)
            size = max(np.abs(one).max(), 1.0)
            ctx.high("relative difference of losses", np.abs(one - two).max() / size)
            ctx.expect(one.shape == two.shape and np.abs(one - two).max() <= 1e-3 * size,
                       f"{key} depends on the order of observations with the same split",
                       got=two, expected=one)
        ctx.count("trainings compared")

    def shard(ctx, idx):
        rng = ctx.rng("c42", idx)
        plan = ((tests, 60, 800), (graphs, 70, 900), (distances, 100, 1500), (fits, 40, 500),
                (many_sets, 12, 200), (sorted_data, 10, 120),
                (penalized, 4, 60), (training, 8, 120), (pooled_tests, 4, 30))
        for func, quick, thorough in plan:
            for i in range(ctx.pick(quick, thorough)):
                with ctx.guarded():
                    func(rng, i + idx)
                if ctx.out_of_time(240, 840):
                    return

    ctx.shards(shard)
    ctx.case_info = dict(note="all fits of this run")
    share_allowed(ctx, "fits reach another distance with reordered data",
                  "fits with other distances", "fits compared", 0.05)
    for name, least in (("datasets reordered", 100), ("minimum covers compared", 100),
                        ("distances of reordered structures", 100), ("fits compared", 60),
                        ("trainings compared", 8), ("p-values of reordered data", 4),
                        ("graphs with many independent sets", 40), ("sorted datasets", 30)):
        ctx.require(name, least)


# ---------------------------------------------------------------- C43


def c43(ctx):
    from medil.evaluate import min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs
    from medil.independence_testing import dcov, estimate_UDG, xicorr
    from medil.models import DevMedil, GaussianMCM
    from medil.sample import mcm

    ctx.rule = (
        "random datasets, weights and models, and the same with variables measured in other units "
        "(factors of 2^-30 to 2^30 per variable, other signs and origins) or transformed "
        "monotonically; results compared after converting them; non-trivial: all"
    )

    def units(rng, m, spread=30):
        return 2.0 ** rng.integers(-spread, spread + 1, m)

    def tests(rng, i):
        n = int(rng.integers(5, 120)) if i % 3 else int(rng.integers(120, 700))
        m = int(rng.integers(2, 8))
        _, x = gen.dataset(rng, n, m)
        x = x - x.mean(0)
        f = units(rng, m)
        sign = rng.choice([-1, 1], m) if i % 2 else np.ones(m)
        origin = rng.normal(size=m) * 10.0 ** rng.integers(-2, 7, m) * (i % 4 > 1)
        y = (x + origin) * f * sign
        alpha = float(rng.choice([0.01, 0.05, 0.2]))
        ctx.case(dict(what="tests", data=x, factors=f * sign, origins=origin, alpha=alpha), True, digest(y))
        exact = 1e-7 if origin.any() else 1e-10
        with ctx.lib("dcov"):
            cov, bars = dcov(x.copy())
            cov2, bars2 = dcov(y.copy())
        size = np.sqrt(np.outer(cov.diagonal(), cov.diagonal()))
        ctx.expect(cov2.shape == (m, m) and
                   (np.abs(cov2 / np.outer(f, f) - cov) <= exact * size + exact / 100 * np.outer(bars, bars)).all(),
                   "distance covariances don't scale with the units", got=cov2, before=cov, factors=f)
        ctx.expect(np.allclose(bars2, bars * f, rtol=exact), "mean distances don't scale with the units")
        with ctx.lib("estimate_UDG"):
            g1, _ = estimate_UDG(x.copy(), method="dcov_fast", significance_level=alpha)
            g2, _ = estimate_UDG(y.copy(), method="dcov_fast", significance_level=alpha)
        close = fast_rule(x, alpha)[1]
        ctx.expect((g1 == g2)[~close].all(), "dcov_fast graph depends on the units", got=g2, expected=g1)
        with ctx.lib("GaussianMCM.fit"):
            f1 = GaussianMCM().fit(x.copy())
            f2 = GaussianMCM().fit(y.copy())
        close = bic_rule(x)[1]
        ctx.expect((f1.udg == f2.udg)[~close].all(), "graph of GaussianMCM depends on the units",
                   got=f2.udg, expected=f1.udg)
        if not close.any():
            ctx.expect(np.array_equal(f1.biadj, f2.biadj), "structure of GaussianMCM depends on the units",
                       got=f2.biadj, expected=f1.biadj)
        ctx.expect(np.allclose(f2.parameters.error_means / f / sign, f1.parameters.error_means + origin,
                               rtol=1e-9, atol=1e-9 * np.abs(x + origin).max()),
                   "means don't follow the units")
        ctx.count("datasets in other units")

    def monotone(rng, v):
        """A strictly increasing function of values, without new ties."""
        kind = int(rng.integers(5))
        z = (v - v.mean()) / v.std()
        out = (lambda: np.exp(z), lambda: z**3 + z, lambda: z * 1e-9 + 5,
               lambda: np.sign(z) * np.sqrt(np.abs(z)), lambda: np.searchsorted(np.unique(v), v) * 1.0)[kind]()
        same = np.array_equal(np.unique(out, return_inverse=True)[1], np.unique(v, return_inverse=True)[1])
        return out if same else np.unique(v, return_inverse=True)[1].ravel() * 7 - 3

    def ranks(rng, i):
        n, m = int(rng.integers(8, 60)) if i % 4 else int(rng.integers(60, 400)), 4
        x = gen.dataset(rng, n, m)[1]
        y = np.stack([monotone(rng, v) for v in x.T], 1)
        if i % 3 == 0:  # outcomes with ties, or in integers
            x[:, 1] = np.round(2 * x[:, 1])
            y[:, 1] = x[:, 1] ** 3
        ctx.case(dict(what="ranks", data=x, transformed=y), True, digest(x, y))
        ties = bool(i % 2)
        if np.ptp(x[:, 1]):
            with ctx.lib("xicorr"):
                one, two = xicorr(x[:, 0], x[:, 1], ties), xicorr(y[:, 0], y[:, 1], ties)
            ctx.expect(np.allclose(one, two, rtol=1e-9, atol=1e-12),
                       "xi correlation depends on more than ranks", got=two, expected=one)
        if i % 20 == 0:
            with ctx.lib("estimate_UDG"):
                g1, p1 = estimate_UDG(x[:, [0, 2, 3]], method="xicor")
                g2, p2 = estimate_UDG(y[:, [0, 2, 3]], method="xicor")
            ctx.expect(np.allclose(p1, p2, rtol=1e-9, atol=1e-12), "p-values depend on more than ranks",
                       got=p2, expected=p1)
            f = units(rng, m, 20)
            with ctx.lib("estimate_UDG"):
                g1, p1 = estimate_UDG(x, method="dcov_big")
                g2, p2 = estimate_UDG(x * f * rng.choice([-1, 1], m) + f * rng.normal(size=m), method="dcov_big")
            ctx.expect(np.allclose(p1, p2, rtol=1e-5, atol=1e-9), "p-values of dcov_big depend on the units",
                       got=p2, expected=p1)
            ctx.count("p-values in other units")
        ctx.count("sequences transformed")

    def fits(rng, i):
        m = int(rng.integers(2, 8))
        k = int(rng.integers(1, min(m, 4) + 1))
        b = gen.one_pure_child(rng, m, k) if i % 3 else gen.biadj(rng, k, m)
        w = np.where(b, rng.uniform(0.5, 2, b.shape), 0)
        if i % 2:
            w *= rng.choice([-1, 1], b.shape)
        n = int(rng.integers(m + 3, 400))
        x = rng.normal(size=(n, k)) @ w + rng.normal(size=(n, m)) * rng.uniform(0.5, 1.4, m)
        kind = i % 3
        f = np.full(m, (10.0 ** rng.integers(-9, 10), 2.0 ** rng.integers(-30, 31), 1.0)[kind])
        sign = rng.choice([-1, 1], m) if i % 4 == 0 else np.ones(m)
        origin = rng.normal(size=m) * (i % 2)
        y = (x + origin) * f * sign
        ctx.case(dict(what="fits", structure=b, data=x, factor=f[0], signs=sign, origins=origin), True,
                 digest(y, b))
        with ctx.lib("GaussianMCM.fit", cpu=120):
            p1 = GaussianMCM(biadj=b.copy()).fit(x.copy()).parameters
            p2 = GaussianMCM(biadj=b.copy()).fit(y.copy()).parameters
        s = np.cov(x, rowvar=False).reshape(m, m)
        s2 = np.cov(y, rowvar=False).reshape(m, m)
        one = loss_of_fit(p1, s) / (s**2).sum()
        two = loss_of_fit(p2, s2) / (s2**2).sum()
        ctx.count("fits compared")
        ctx.count("fits with other distances", abs(one - two) > 1e-4)
        ctx.high("difference of relative distances", abs(one - two))
        ctx.expect(np.allclose(p2.error_means / f / sign, p1.error_means + origin, rtol=1e-9,
                               atol=1e-9 * np.abs(x + origin).max()), "means don't follow the units")
        if kind == 0 and (sign == 1).all():  # powers of ten are what is scaled by
            same = np.allclose(np.asarray(p2.error_variances) / f**2, p1.error_variances, rtol=1e-2, atol=1e-2)
            ctx.count("variances compared")
            ctx.count("variances don't follow the units", not same)

    def distances(rng, i):
        m, k = int(rng.integers(2, 8)), int(rng.integers(1, 6))
        k2 = int(rng.integers(1, k + 1))
        w, v = rng.normal(size=(k, m)), rng.normal(size=(k2, m))
        c = 2.0 ** rng.integers(-40, 41)
        sign = rng.choice([-1, 1], m)
        ctx.case(dict(what="distances", first=w, second=v, factor=c, signs=sign), True, digest(w, v, c))
        for func in (min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs):
            with ctx.lib("distance of weights"):
                o1, e1 = func(w.copy(), v.copy())
                o2, e2 = func(w * c * sign, v * c * sign)
            ctx.expect(np.isclose(e2 / c**2, e1, rtol=1e-9, atol=1e-12),
                       "distance of weights doesn't scale with the units", got=e2, before=e1, factor=c)
        with ctx.lib("distance of weights"):
            _, e1 = min_perm_squared_l2_dist_abs(w.copy(), v.copy())
            _, e2 = min_perm_squared_l2_dist_abs(w * rng.choice([-1, 1], w.shape), v * rng.choice([-1, 1], v.shape))
        ctx.expect(np.isclose(e1, e2, rtol=1e-9, atol=1e-12), "absolute distance of weights depends on signs")
        ctx.count("distances in other units")

    def samples(rng, i):
        m = int(rng.integers(2, 8))
        seed, n = int(rng.integers(1 << 30)), int(rng.integers(1, 50))
        b = gen.biadj(rng, int(rng.integers(1, 5)), m)
        f = np.full(m, 2.0 ** rng.integers(-8, 9))  # overall, as numpy's factor of covariances isn't unique
        origin = rng.normal(size=m) * 3
        ctx.case(dict(what="samples", structure=b, factor=f[0], origins=origin, seed=seed), True,
                 digest(b, f, seed))
        out = []
        for scale, shift in ((1.0, 0.0), (f, origin)):
            with ctx.lib("sample"):
                model = mcm(rng=np.random.default_rng(seed), biadj=b.copy())
                model.rng = np.random.default_rng(seed + 1)
                p = model.parameters
                p.error_means = p.error_means * scale + shift
                p.error_variances = p.error_variances * scale**2
                p.biadj_weights = p.biadj_weights * scale
                out.append(model.sample(n))
        ctx.expect(out[0].shape == (n, m) and np.allclose(out[1], out[0] * f + origin, rtol=1e-6, atol=1e-6 * f[0]),
                   "samples don't follow the units of the parameters", got=out[1], expected=out[0] * f + origin)
        ctx.count("samples in other units")

    def penalized(rng, i):
        m = int(rng.integers(2, 4))
        n = int(2 ** rng.integers(4, 7))
        x = np.round(gen.dataset(rng, n, m)[1] * 1024) / 1024  # so that rounding errors make no difference
        origin = rng.integers(-50, 50, m)
        seed = int(rng.integers(1 << 30))
        method = ("mle", "lse")[i % 2]
        ctx.case(dict(what="penalized", data=x, origins=origin, method=method), True, digest(x, origin))
        out = []
        for data in (x.copy(), x + origin):
            with ctx.lib("DevMedil.fit"):
                model = DevMedil(rng=np.random.default_rng(seed)).fit(data, method=method)
            w, d = np.asarray(model.W_hat), np.asarray(model.D_hat)
            out.append(w.T @ w + d)
        ctx.expect(np.allclose(out[0], out[1], rtol=1e-3, atol=1e-3),
                   "penalized fits depend on the origins", first=out[0], second=out[1])
        ctx.count("penalized fits compared")

    def training(rng, i):
        cfg = neural.config(rng, i, epochs=(1, 4))
        cfg["hyper"]["batch_size"] = max(cfg["hyper"]["batch_size"], 32)
        m = cfg["m"]
        f = units(rng, m)
        origin = rng.normal(size=m) * cfg["x"].std(0) * 10.0 ** rng.integers(0, 7, m) * (i % 2)
        ctx.case(dict(what="training", factors=f, origins=origin, **neural.info_of(cfg)), True)
        with ctx.lib("fit"):
            m1, _ = neural.training_result(cfg, neural.fresh_dir(ctx))
            m2, _ = neural.training_result(dict(cfg, x=(cfg["x"] + origin) * f), neural.fresh_dir(ctx))
        pairs = [(key, np.asarray(m1.loss[key], float), np.asarray(m2.loss[key], float)) for key in m1.loss]
        pairs.append(("weights", np.asarray(m1.parameters.weights, float), np.asarray(m2.parameters.weights, float)))
        for key, one, two in pairs:
            size = max(np.abs(one).max(), 1.0)
            ctx.high("relative difference of trainings", np.abs(one - two).max() / size)
            ctx.expect(one.shape == two.shape and
                       np.abs(one - two).max() <= (1e-3 if origin.any() else 1e-4) * size,
                       f"{key} depends on the units", got=two, expected=one)
        ctx.count("trainings compared")

    def shard(ctx, idx):
        rng = ctx.rng("c43", idx)
        plan = ((tests, 60, 800), (ranks, 60, 800), (distances, 100, 1500), (samples, 60, 900),
                (fits, 40, 500), (penalized, 4, 60), (training, 8, 120))
        for func, quick, thorough in plan:
            for i in range(ctx.pick(quick, thorough)):
                with ctx.guarded():
                    func(rng, i + idx)
                if ctx.out_of_time(240, 840):
                    return

    ctx.shards(shard)
    ctx.case_info = dict(note="all fits of this run")
    share_allowed(ctx, "fits reach another distance in other units",
                  "fits with other distances", "fits compared", 0.05)
    share_allowed(ctx, "fits have other variances in other units",
                  "variances don't follow the units", "variances compared", 0.1)
    for name, least in (("datasets in other units", 200), ("sequences transformed", 200),
                        ("distances in other units", 300), ("samples in other units", 200),
                        ("fits compared", 100), ("trainings compared", 16),
                        ("p-values in other units", 8)):
        ctx.require(name, least)


# ---------------------------------------------------------------- C44


def rng_state(rng):
    return repr(rng.bit_generator.state)


def c44(ctx):
    from medil.ecc_algorithms import find_clique_min_cover, find_heuristic_1pc
    from medil.evaluate import recover_ug, sfd
    from medil.independence_testing import dcor_test, dcov, estimate_UDG, xicor_test, xicorr
    from medil.models import DevMedil, GaussianMCM, NeuroCausalFactorAnalysis
    from medil.sample import biadj, mcm
    from medil.visualize import get_adj_from_incidence, get_dag_from_biadj

    ctx.rule = (
        "operations compared with the steps they consist of, and results for datasets, graphs and "
        "structures with those for their parts; random inputs of all kinds; non-trivial: all"
    )

    def same_parameters(one, two):
        return all(np.array_equal(np.asarray(getattr(one, k)), np.asarray(getattr(two, k)))
                   for k in ("error_means", "error_variances", "biadj_weights"))

    def gaussian_steps(rng, i):
        n, m = int(rng.integers(5, 300)), int(rng.integers(2, 8))
        _, x = gen.dataset(rng, n, m)
        x = x * 10.0 ** rng.integers(-3, 4) if i % 2 else x
        ctx.case(dict(what="GaussianMCM.fit in steps", data=x), True, digest(x))
        with ctx.lib("GaussianMCM.fit"):
            whole = GaussianMCM().fit(x.copy())
            structure = find_heuristic_1pc(whole.udg.copy())
            by_graph = GaussianMCM(udg=whole.udg.copy()).fit(x.copy())
            by_structure = GaussianMCM(biadj=whole.biadj.copy()).fit(x.copy())
        ctx.expect(np.array_equal(structure, whole.biadj), "structure isn't that of the estimated graph",
                   got=whole.biadj, expected=structure)
        ctx.expect(np.array_equal(by_graph.biadj, whole.biadj) and
                   same_parameters(by_graph.parameters, whole.parameters),
                   "fit with the estimated graph differs from the fit that estimates it")
        ctx.expect(np.array_equal(by_structure.biadj, whole.biadj) and
                   same_parameters(by_structure.parameters, whole.parameters),
                   "fit with the learned structure differs from the fit that learns it")
        # pairs by themselves
        close = bic_rule(x)[1]
        for _ in range(3):
            keep = rng.permutation(m)[: int(rng.integers(2, m + 1))]
            with ctx.lib("GaussianMCM.fit"):
                part = GaussianMCM().fit(x[:, keep]).udg
            ctx.expect((part == whole.udg[ix(keep)])[~close[ix(keep)]].all(),
                       "graph of some variables depends on the others", got=part, expected=whole.udg[ix(keep)])
        ctx.count("fits in steps")

    def generation_steps(rng, i):
        seed, m = int(rng.integers(1 << 30)), int(rng.integers(2, 9))
        kw = dict(num_meas=m, density=float(rng.choice([0.0, 0.2, 0.5, 0.9, 1.0])))
        kw["one_pure_child"] = bool(i % 3)
        if i % 3 == 1:
            kw["num_latent"] = int(rng.integers(1, m + 1))
        ctx.case(dict(what="generation in steps", seed=seed, **kw), True)
        with ctx.lib("mcm"):
            one, two, three = (np.random.default_rng(seed) for _ in range(3))
            whole = mcm(rng=one, **kw)
            structure = biadj(rng=two, **kw)
            steps = mcm(rng=two, biadj=structure.copy())
            ints = mcm(rng=three, biadj=biadj(rng=three, **kw).astype(int))
        for got in (steps, ints):
            ctx.expect(np.array_equal(got.biadj, whole.biadj) and
                       same_parameters(got.parameters, whole.parameters),
                       "random model isn't that of its random structure", got=got.biadj, expected=whole.biadj)
        ctx.expect(rng_state(one) == rng_state(two) == rng_state(three), "generators end in other states")
        ctx.expect(np.array_equal(whole.biadj, structure), "structure of model differs from that of its steps",
                   got=whole.biadj, expected=structure)
        if not kw["one_pure_child"]:
            graph = gen.induced(structure)
            with ctx.lib("find_clique_min_cover"):
                cover = find_clique_min_cover(gen.encode(graph, 0))
            ctx.expect(len(cover) == len(structure), "random structure isn't a minimum cover of its graph",
                       got=structure, expected=cover)
        ctx.count("generations in steps")

    def test_parts(rng, i):
        n, m = int(rng.integers(6, 90)), int(rng.integers(3, 8))
        _, x = gen.dataset(rng, n, m)
        x = x * 10.0 ** rng.integers(-3, 4, m)
        alpha = float(rng.choice([0.001, 0.01, 0.05, 0.2, 0.5]))
        keep = rng.permutation(m)[: int(rng.integers(1, m + 1))]
        ctx.case(dict(what="dcov of parts", data=x, variables=keep, alpha=alpha), True, digest(x, keep))
        with ctx.lib("estimate_UDG"):
            cov, bars = dcov(x.copy())
            cov2, bars2 = dcov(x[:, keep])
            whole, none = estimate_UDG(x.copy(), "dcov_fast", alpha)
            part, _ = estimate_UDG(x[:, keep], "dcov_fast", alpha)
            higher, _ = estimate_UDG(x.copy(), "dcov_fast", min(0.99, alpha * 1.5))
        size = np.sqrt(np.outer(cov.diagonal(), cov.diagonal())) + 1e-9 * np.outer(bars, bars)
        ctx.expect(none is None, "p-values of a method without any")
        ctx.expect((np.abs(cov2 - cov[ix(keep)]) <= 1e-9 * size[ix(keep)]).all() and
                   np.allclose(bars2, bars[keep], rtol=1e-9), "distance covariances depend on other variables")
        close = fast_rule(x, alpha)[1][ix(keep)]
        ctx.expect((part == whole[ix(keep)])[~close].all(), "dcov_fast graph of some variables depends on others",
                   got=part, expected=whole[ix(keep)])
        ctx.expect((higher >= whole).all(), "dependences vanish at a higher level", got=higher, expected=whole)
        p = rng.random((m, m))
        p = np.triu(p, 1) + np.triu(p, 1).T
        with ctx.lib("estimate_UDG"):
            graph, back = estimate_UDG(x.copy(), p.copy(), alpha)
        want = p < alpha
        np.fill_diagonal(want, False)
        ctx.expect(np.array_equal(graph, want) and np.array_equal(back, p), "given p-values are compared with the level",
                   got=graph, expected=want)
        a, b = x[:, 0], x[:, 1]
        with ctx.lib("xicor_test"):
            single, pair = xicor_test(x[:, :2].T), xicorr(a, b)
        ctx.expect(single == pair.pvalue == pair[1], "xicor_test isn't the p-value of xicorr", got=single,
                   expected=pair)
        ctx.count("tests of parts")

    def pooled_steps(rng, i):
        n, m = int(rng.integers(10, 60)), int(rng.integers(3, 6))
        _, x = gen.dataset(rng, n, m)
        method, test = (("xicor", xicor_test), ("dcov_big", dcor_test))[i % 2]
        keep = np.sort(rng.choice(m, int(rng.integers(2, m + 1)), replace=False))
        ctx.case(dict(what=f"{method} in steps", data=x, variables=keep), True, digest(x, i))
        with ctx.lib("estimate_UDG"):
            _, p = estimate_UDG(x.copy(), method)
            _, part = estimate_UDG(x[:, keep], method)
            for alpha in (0.001, 0.01, 0.05, 0.2, 0.7, float(p[0, 1]), float(np.nextafter(p[0, 1], 1))):
                direct, q = estimate_UDG(x.copy(), method, alpha)
                given, _ = estimate_UDG(x.copy(), p.copy(), alpha)
                ctx.expect(np.array_equal(p, q), "p-values depend on the level")
                ctx.expect(np.array_equal(direct, given), "graph differs from that of the given p-values",
                           got=direct, expected=given, level=alpha)
            for j, k in ((0, 1), (1, 2), (0, m - 1)):
                one = float(test(x[:, [j, k]].T))
                ctx.expect(np.isclose(one, p[j, k], rtol=1e-9, atol=1e-12) and p[j, k] == p[k, j],
                           f"p-value of {method} isn't that of the pair", got=p[j, k], expected=one)
        off = ~np.eye(len(keep), dtype=bool)
        ctx.expect(np.allclose(part[off], p[ix(keep)][off], rtol=1e-9, atol=1e-12),
                   "p-values depend on other variables", got=part, expected=p[ix(keep)])
        with ctx.lib("NeuroCausalFactorAnalysis"):
            model = NeuroCausalFactorAnalysis(path=neural.fresh_dir(ctx))
            model.hyperparams.update(method=method, alpha=0.3)
            model.dataset = x.copy()
            model._compute_biadj()
            graph, _ = estimate_UDG(x.copy(), method, 0.3)
            structure = find_heuristic_1pc(graph)
        ctx.expect(np.array_equal(model.udg, graph) and np.array_equal(model.biadj, structure),
                   "structure of neural model isn't that of its steps")
        ctx.count("pooled tests in steps")

    def unions(rng, i):
        first, second = gen.graph(rng, 1, 8)[1], gen.graph(rng, 1, 8)[1]
        adj = gen.disjoint(first, second)
        m = len(first)
        e = int(rng.integers(len(gen.ENCODINGS)))
        ctx.case(dict(what="unions", first=first, second=second), True, digest(first, second))
        covers = [call_cover(ctx, gen.encode(a, e)) for a in (first, second, adj)]
        if not any(w for _, w in covers):
            ctx.expect(len(covers[0][0]) + len(covers[1][0]) == len(covers[2][0]),
                       "sizes of minimum covers don't add up", parts=covers[:2], whole=covers[2])
            ctx.count("minimum covers added")
        with ctx.lib("find_heuristic_1pc"):
            sizes = [len(find_heuristic_1pc(gen.encode(a, e))) for a in (first, second, adj)]
        ctx.expect(sizes[0] + sizes[1] == sizes[2], "numbers of pure children don't add up", sizes=sizes)
        with ctx.lib("max_cliques"):
            one, two, both = (cliques(gen.encode(a, e)) for a in (first, second, adj))
        want = sorted(one + [tuple(v + m for v in c) for c in two])
        ctx.expect(both == want, "maximal cliques of a union aren't those of its parts", got=both, expected=want)
        # one more vertex connected to everything is in each clique
        top = np.zeros((m + 1, m + 1), bool)
        top[:m, :m] = first
        top[m, :m] = top[:m, m] = True
        with ctx.lib("max_cliques"):
            more = cliques(gen.encode(top, e))
        ctx.expect(more == sorted(c + (m,) for c in one), "maximal cliques with another vertex in all of them")
        if m > 1:
            iso = gen.disjoint(first, np.zeros((1, 1), bool))
            c1, w1 = call_cover(ctx, gen.encode(first, e))
            c2, w2 = call_cover(ctx, gen.encode(iso, e))
            if not w1 and not w2:
                ctx.expect(len(c2) == len(c1) + 1, "an isolated variable needs one more latent")
        # twins need no more latents
        t = int(rng.integers(m))
        order = np.append(np.arange(m), t)
        twins = first[ix(order)]
        twins[t, m] = twins[m, t] = True
        c1, w1 = call_cover(ctx, gen.encode(first, e))
        c2, w2 = call_cover(ctx, gen.encode(twins, e))
        if not w1 and not w2:
            ctx.expect(len(c2) == len(c1), "a variable with the same neighbours changes the number of latents",
                       first=c1, second=c2)
        ctx.count("unions judged")

    def distances(rng, i):
        m, m2 = int(rng.integers(1, 8)), int(rng.integers(1, 5))
        a, b, c = (gen.biadj(rng, int(rng.integers(1, 6)), m, allow_empty=i % 3 == 0) for _ in range(3))
        d, e = (gen.biadj(rng, int(rng.integers(1, 4)), m2) for _ in range(2))
        block = lambda u, v: np.block([[u, np.zeros((len(u), m2), bool)], [np.zeros((len(v), m), bool), v]])
        ctx.case(dict(what="distances", first=a, second=b, third=c), True, digest(a, b, c))
        num = lambda pair: tuple(map(int, pair))
        with ctx.lib("sfd"):
            ab, ba, aa = num(sfd(a, b)), num(sfd(b, a)), num(sfd(a, a.copy()))
            ac, bc, de = num(sfd(a, c)), num(sfd(b, c)), num(sfd(d, e))
            whole = num(sfd(block(a, d), block(b, e)))
            padded = num(sfd(np.vstack([a, np.zeros((2, m), bool)]), b))
            ga, gb = recover_ug(a), recover_ug(b)
        ctx.expect(ab == ba, "distance isn't symmetric", got=ab, expected=ba)
        ctx.expect(aa == (0, 0), "distance to itself", got=aa)
        ctx.expect(ab[1] <= ac[1] + bc[1] and
                   np.sqrt(ab[0]) <= np.sqrt(ac[0]) + np.sqrt(bc[0]) + 1e-9, "triangle inequality",
                   distances=(ab, ac, bc))
        ctx.expect(whole == (ab[0] + de[0], ab[1] + de[1]), "distances of blocks don't add up",
                   got=whole, parts=(ab, de))
        ctx.expect(padded == ab, "latents without children change distances", got=padded, expected=ab)
        ctx.expect(ab[1] == np.triu(ga != gb, 1).sum(), "hamming distance isn't that of the recovered graphs")
        with ctx.lib("visualize"):
            adj, dag = get_adj_from_incidence(a), get_dag_from_biadj(a)
            off = adj.copy()
            np.fill_diagonal(off, False)
        ctx.expect(np.array_equal(off, ga), "displayed graph isn't the recovered one", got=adj, expected=ga)
        k = len(a)
        ctx.expect(np.array_equal((dag.T @ dag)[k:, k:] > 0, adj), "graph of the DAG isn't the displayed one")
        ctx.count("distances judged")

    def penalized_steps(rng, i):
        m, n = int(rng.integers(2, 4)), int(rng.integers(10, 100))
        x = gen.dataset(rng, n, m)[1]
        seed = int(rng.integers(1 << 30))
        method = ("mle", "lse")[i % 2]
        kw = dict(lambda_reg=float(rng.choice([0, 0.1, 1])), mu_reg=float(rng.choice([0, 0.1, 1])))
        ctx.case(dict(what="penalized", data=x, seed=seed, method=method, **kw), True, digest(x, seed))
        with ctx.lib("DevMedil.fit"):
            one, two = (DevMedil(rng=np.random.default_rng(seed)) for _ in range(2))
            one.fit(x.copy(), method=method, **kw)
            getattr(two, f"fit_penalized_{method}")(x.copy(), **kw)
            v1, v2 = (getattr(mod, f"validation_{method}")(kw["lambda_reg"], kw["mu_reg"], x) for mod in (one, two))
        ctx.expect(np.array_equal(one.W_hat, two.W_hat) and np.array_equal(one.D_hat, two.D_hat) and v1 == v2,
                   "fit by a method isn't the method's fit")
        ctx.expect(np.isclose(v1, one.result.fun, rtol=1e-7, atol=1e-9),
                   "validation loss of the training data isn't the objective", got=v1, expected=one.result.fun)
        # the loss is linear in its penalties
        la, mu = rng.random(2) * 3
        with ctx.lib("validation"):
            v = getattr(one, f"validation_{method}")
            base, full, left, right = v(0, 0, x), v(la, mu, x), v(la, 0, x), v(0, mu, x)
        ctx.expect(np.isclose(full - base, left - base + right - base, rtol=1e-7, atol=1e-9)
                   and left >= base - 1e-9 and right >= base - 1e-9, "penalties don't add up",
                   losses=(base, left, right, full))
        ctx.count("penalized fits in steps")

    def samples_parts(rng, i):
        """Samples of a generator one after the other."""
        seed, n, k = int(rng.integers(1 << 30)), int(rng.integers(1, 30)), int(rng.integers(2, 5))
        m = int(rng.integers(2, 7))
        ctx.case(dict(what="samples", seed=seed, n=n, variables=m), True)
        with ctx.lib("sample"):
            models = [mcm(rng=np.random.default_rng(seed), num_meas=m) for _ in range(2)]
            for model in models:
                model.rng = np.random.default_rng(seed + 1)
            one = [models[0].sample(n) for _ in range(k)]
            two = []
            for j in range(k):  # a new model with the generator and the parameters of the last one
                new = GaussianMCM(biadj=models[1].biadj.copy(), rng=models[1].rng)
                new.parameters = models[1].parameters
                models[1] = new
                two.append(new.sample(n))
        ctx.expect(all(np.array_equal(u, v) for u, v in zip(one, two)),
                   "samples don't continue those of the same generator")
        ctx.expect(not np.array_equal(one[0], one[1]), "samples are repeated")
        ctx.count("samples continued")

    def shard(ctx, idx):
        rng = ctx.rng("c44", idx)
        plan = ((gaussian_steps, 40, 500), (generation_steps, 60, 800), (test_parts, 60, 900),
                (unions, 50, 600), (distances, 100, 1500), (penalized_steps, 6, 90), (samples_parts, 30, 400),
                (pooled_steps, 2, 12))
        for func, quick, thorough in plan:
            for i in range(ctx.pick(quick, thorough)):
                with ctx.guarded():
                    func(rng, i + idx)
                if ctx.out_of_time(240, 840):
                    return

    ctx.shards(shard)
    for name, least in (("fits in steps", 100), ("generations in steps", 200), ("tests of parts", 200),
                        ("minimum covers added", 100), ("unions judged", 150), ("distances judged", 300),
                        ("penalized fits in steps", 20), ("samples continued", 100),
                        ("pooled tests in steps", 4)):
        ctx.require(name, least)


CHECKS = {"C42": c42, "C43": c43, "C44": c44}
