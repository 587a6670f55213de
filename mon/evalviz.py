"""C20, C21, C28: distances between structures and visualizations."""

import re

import numpy as np
from scipy.optimize import linear_sum_assignment

from . import gen, oracles
from .core import Skip, digest

NUMERIC = (bool, int, np.int32, np.uint8, np.int8, float, np.float32)


def weighted_graph(b):
    b = np.asarray(b).astype(bool)
    if len(b) > 40:
        return (b[:, :, None] & b[:, None, :]).sum(0)
    out = np.zeros((b.shape[1], b.shape[1]), int)
    for i in range(b.shape[1]):
        for j in range(b.shape[1]):
            out[i, j] = sum(1 for row in b if row[i] and row[j])
    return out


def c20(ctx):
    from medil.evaluate import recover_ug, sfd

    ctx.rule = (
        "random pairs (and triples) of structures with 1-14 variables and up to 20 (sometimes 128 "
        "to 600) latents in all numeric encodings, near-identical, permuted, relabelled and with childless latents; "
        "non-trivial: the structures induce different weighted graphs"
    )
    rng = ctx.rng("c20")

    def dist(p, t):
        before = digest(p, t)
        with ctx.lib("sfd", cpu=60):
            out = sfd(p, t)
        ctx.count("distances computed")
        ctx.expect(digest(p, t) == before, "sfd changed a structure")
        ctx.need(len(out) == 2, "sfd returns two distances", out=out)
        return float(out[0]), float(out[1])

    def enc(b):
        out = b.astype(NUMERIC[int(rng.integers(len(NUMERIC)))])
        return np.asfortranarray(out) if rng.random() < 0.2 else out

    for i in range(ctx.pick(3000, 40000)):
        m = int(rng.integers(1, 15))
        p = float(rng.choice([0.15, 0.3, 0.5, 0.9]))
        a = gen.biadj(rng, int(rng.integers(1, 21)), m, p, allow_empty=i % 3 == 0)
        if i % 4 == 0:
            b = a.copy()
            flips = rng.integers(0, 3)
            for _ in range(flips):
                r, c = rng.integers(len(b)), rng.integers(m)
                b[r, c] ^= True
        elif i % 4 == 1:
            b = a[rng.permutation(len(a))]
            b = np.vstack((b, np.zeros((int(rng.integers(0, 3)), m), bool)))
        else:
            b = gen.biadj(rng, int(rng.integers(1, 21)), m, p, allow_empty=i % 5 == 0)
        c = gen.biadj(rng, int(rng.integers(1, 21)), m, p)
        if i % 20 == 7:  # more shared latents than small integers can count
            m = int(rng.integers(2, 6))
            num = int(rng.choice([128, 130, 200, 256, 257, 300, 512, 600]))
            a = np.ones((num, m), bool)
            a[:, rng.integers(m)] = rng.random(num) < 0.5
            a = np.vstack((a, gen.biadj(rng, 2, m, 0.5))) if i % 3 else a
            b = a[rng.permutation(num)[: int(rng.integers(1, num + 1))]] if i % 2 else b[:, :1].repeat(m, 1)
            c = gen.biadj(rng, int(rng.integers(1, 300)), m, 0.8)
            ctx.count("structures with hundreds of latents")
        wa, wb = weighted_graph(a), weighted_graph(b)
        ctx.case(dict(predicted=a, true=b), (wa != wb).any(), digest(a, b))
        with ctx.guarded():
            got = dist(enc(a), enc(b))
            want_s = float(((wa - wb) ** 2).sum())
            ga, gb = gen.induced(a), gen.induced(b)
            want_h = float(np.triu(ga ^ gb, 1).sum())
            ctx.expect(got[0] == want_s, f"squared Frobenius distance {got[0]}, not {want_s}")
            ctx.expect(got[1] == want_h, f"structural Hamming distance {got[1]}, not {want_h}")
            ctx.expect(dist(enc(b), enc(a)) == got, "distances aren't symmetric")
            same = a[rng.permutation(len(a))]
            ctx.expect(dist(enc(a), enc(same)) == (0, 0), "distance to itself isn't zero")
            childless = np.vstack((same, np.zeros((1, m), bool)))
            ctx.expect(dist(enc(a), enc(childless)) == (0, 0), "childless latent changes distance")
            perm = rng.permutation(m)
            ctx.expect(dist(enc(a[:, perm]), enc(b[:, perm])) == got, "relabelling changes distances")
            ac, cb = dist(enc(a), enc(c)), dist(enc(c), enc(b))
            ctx.expect(np.sqrt(got[0]) <= np.sqrt(ac[0]) + np.sqrt(cb[0]) + 1e-9,
                       "triangle inequality (Frobenius)", third=c)
            ctx.expect(got[1] <= ac[1] + cb[1], "triangle inequality (Hamming)", third=c)
            arr = enc(a)
            before = digest(arr)
            with ctx.lib("recover_ug", cpu=60):
                ug = np.asarray(recover_ug(arr))
            ctx.expect(digest(arr) == before, "recover_ug changed the structure")
            ctx.expect(ug.shape == (m, m) and np.array_equal(ug.astype(bool), ga),
                       "recovered graph", got=ug, expected=ga)
        if ctx.out_of_time(120, 840):
            break
    ctx.require("distances computed", 1000)
    ctx.require("structures with hundreds of latents", 50)


def c21(ctx):
    from medil.evaluate import min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs

    ctx.rule = (
        "random pairs of weight matrices with up to 6 (sometimes 7 to 9) predicted and at most as many "
        "true latents, of floating point and signed integer types, some nearly permuted copies, "
        "compared with a linear assignment; non-trivial: the identity isn't the best matching"
    )
    rng = ctx.rng("c21")
    types = (float, float, np.float32, int, np.int32)
    for i in range(ctx.pick(900, 12000)):
        k = int(rng.integers(1, 6 if i % 6 else 7)) if i % 50 else 7 + (i % 100 > 0)
        if i == 450 or i % 1500 == 1450:
            k = 9
        t = int(rng.integers(0 if i % 17 == 0 else 1, k + 1))
        m = int(rng.integers(1, 9))
        tp, tt = types[int(rng.integers(5))], types[int(rng.integers(5))]
        true = rng.normal(size=(t, m)) * 2
        true[rng.random((t, m)) < 0.4] = 0
        pred = rng.normal(size=(k, m)) * 2
        if i % 2:
            pred[:t] = true + 0.3 * rng.normal(size=(t, m))
            pred = pred[rng.permutation(k)]
            pred *= rng.choice([-1, 1], (k, m)) if i % 4 == 1 else 1
        if np.issubdtype(tp, np.integer):
            pred = np.round(3 * pred)
        if np.issubdtype(tt, np.integer):
            true = np.round(3 * true)
        pred, true = pred.astype(tp), true.astype(tt)
        if i % 5 == 0:
            pred = np.asfortranarray(pred)
        p64, t64 = pred.astype(float), np.zeros((k, m))
        t64[:t] = true.astype(float)
        for func, pre in ((min_perm_squared_l2_dist, lambda x: x),
                          (min_perm_squared_l2_dist_abs, np.abs)):
            cost = ((pre(p64)[None, :, :] - pre(t64)[:, None, :]) ** 2).sum(2)
            rows, cols = linear_sum_assignment(cost)
            best = cost[rows, cols].sum()
            tol = 1e-5 * (1 + (p64**2).sum() + (t64**2).sum())
            if tp is not np.float32 and tt is not np.float32:
                tol *= 1e-6
            ctx.case(dict(function=func.__name__, predicted=pred, true=true,
                          types=[str(pred.dtype), str(true.dtype)]),
                     np.trace(cost) > best + tol, digest(pred, true, func.__name__))
            with ctx.guarded():
                before = digest(pred, true)
                with ctx.lib(func.__name__, cpu=120):
                    perm, d = func(pred, true)
                ctx.count("matchings judged")
                ctx.expect(digest(pred, true) == before, "an array was changed")
                ctx.expect(abs(float(d) - best) <= tol, f"distance {d}, minimum is {best}")
                perm = np.asarray(perm)
                ctx.need(sorted(perm.tolist()) == list(range(k)), "not a permutation", perm=perm)
                attained = ((pre(p64)[perm] - pre(t64)) ** 2).sum()
                ctx.expect(abs(attained - best) <= tol,
                           f"permutation attains {attained}, minimum is {best}", perm=perm)
                if k <= 5:
                    q = rng.permutation(k)
                    with ctx.lib(func.__name__, cpu=120):
                        _, d2 = func(pred[q], true)
                    ctx.expect(abs(float(d2) - best) <= tol, "depends on the order of latents")
                    if func is min_perm_squared_l2_dist_abs:
                        signs = rng.choice([-1, 1], (k, m)).astype(pred.dtype)
                        with ctx.lib(func.__name__, cpu=120):
                            _, d3 = func(pred * signs, -true)
                        ctx.expect(abs(float(d3) - best) <= tol, "depends on signs")
        if ctx.out_of_time(120, 840):
            break
    ctx.require("matchings judged", 500)


# ---------------------------------------------------------------- C28


def c28(ctx):
    import matplotlib

    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    from matplotlib.patches import FancyArrowPatch
    from medil import visualize

    ctx.rule = (
        "random structures, matrices, samples and options; the artists of the figure at the moment "
        "it's shown are compared with the input; non-trivial: neither empty nor full structure"
    )
    rng = ctx.rng("c28")
    shown = []

    def show(*args, **kwargs):
        shown.append(plt.gcf())

    real_show, plt.show = plt.show, show

    def draw(func, *args, **kwargs):
        shown.clear()
        plt.close("all")
        before = digest(*args)
        with ctx.lib(func.__name__, cpu=120):
            func(*args, **kwargs)
        ctx.expect(digest(*args) == before, f"{func.__name__} changed its input")
        figs = shown or [plt.figure(n) for n in plt.get_fignums()]
        ctx.need(len(figs) >= 1, f"{func.__name__} shows no figure")
        ctx.count("figures inspected")
        return figs[-1]

    def judge_ticks(ax, dim, prefix):
        for axis, which in ((ax.xaxis, "x"), (ax.yaxis, "y")):
            ticks = [round(float(t), 6) for t in axis.get_ticklocs()]
            labels = [t.get_text() for t in axis.get_ticklabels()]
            ctx.expect(ticks == list(range(dim)), f"{which} ticks", got=ticks)
            ctx.expect(labels == [f"{prefix}{i + 1}" for i in range(dim)], f"{which} labels",
                       got=labels)

    def judge_image(fig, want, what):
        axes = [a for a in fig.axes if a.images]
        ctx.need(len(axes) == 1 and len(axes[0].images) == 1, f"{what}: one image")
        ax, im = axes[0], axes[0].images[0]
        got = np.ma.getdata(im.get_array()).astype(float)
        n = len(want)
        ctx.need(got.shape == want.shape, f"{what}: shape of image", got=got.shape)
        ctx.expect(np.allclose(got, want, atol=1e-12), f"{what}: image", got=got, expected=want)
        # which cell is where: row 0 at the top, each cell at its index
        left, right, bottom, top = im.get_extent()
        ctx.expect((left, right) == (-0.5, n - 0.5), f"{what}: columns are misplaced",
                   extent=im.get_extent())
        rows_ok = (bottom, top) == (n - 0.5, -0.5) if im.origin == "upper" else (
            (bottom, top) == (-0.5, n - 0.5))
        ctx.expect(rows_ok, f"{what}: rows are misplaced", extent=im.get_extent())
        return ax

    def adj_plot(b):
        fig = draw(visualize.show_obs_adj_mat, b)
        want = gen.induced(b) | np.diag(np.asarray(b).astype(bool).any(0))
        ax = judge_image(fig, want.astype(float), "observed graph")
        judge_ticks(ax, b.shape[1], "")

    def dcor_plot(mat, thresh, print_val):
        kw = {}
        if thresh is not None:
            kw["thresh"] = thresh
        if print_val:
            kw["print_val"] = True
        fig = draw(visualize.show_obs_dcor_mat, mat, **kw)
        want = mat.astype(float) if thresh is None else (mat > thresh).astype(float)
        ax = judge_image(fig, want, "dependence matrix")
        judge_ticks(ax, len(mat), "X")
        texts = {}
        for t in ax.texts:
            x, y = t.get_position()
            ctx.expect(t.get_visible(), "label is invisible")
            texts.setdefault((round(float(x), 6), round(float(y), 6)), []).append(t.get_text())
        if not print_val:
            ctx.expect(not texts, "labels although not asked for", got=len(texts))
            return
        n = len(mat)
        ctx.need(len(texts) == n * n and all(len(v) == 1 for v in texts.values()),
                 "one label per cell", got=len(texts))
        for i in range(n):
            for j in range(n):
                label = texts.get((j, i), ["nan"])[0]
                if not ctx.expect(abs(float(label) - want[i, j]) <= 0.0051,
                                  f"label of row {i}, column {j} is {label}, value {want[i, j]}"):
                    return
        ctx.count("labels read", n * n)

    def dag_plot(b):
        fig = draw(visualize.show_dag, b)
        k, m = b.shape
        axes = fig.axes
        ctx.need(len(axes) == 1, "one axes")
        ax = axes[0]
        where = {}
        for t in ax.texts:
            name = t.get_text()
            if "$" in name:  # only what's in braces, or else one character, is a subscript
                name = re.sub(r"_([^{\s])(?=[^$])", r"_\1 ", name.strip("$ "))
            name = name.replace("{", "").replace("}", "")
            if not name:
                continue
            where.setdefault(name, []).append(tuple(round(float(c), 9) for c in t.get_position()))
        names = [f"L_{i}" for i in range(k)] + [f"M_{j}" for j in range(m)]
        ctx.need(sorted(where) == sorted(names) and all(len(set(v)) == 1 for v in where.values()),
                 "one label per node", got=where)
        pos = {n_: v[0] for n_, v in where.items()}
        ctx.need(len(set(pos.values())) == k + m, "nodes at the same place", got=pos)
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        ctx.expect(all(x0 <= x <= x1 and y0 <= y <= y1 for x, y in pos.values()),
                   "node outside of the figure", pos=pos)
        at = {v: n_ for n_, v in pos.items()}
        arrows = []
        for p in ax.patches:
            if isinstance(p, FancyArrowPatch):
                (a, b_) = p._posA_posB
                key = [tuple(round(float(c), 9) for c in e) for e in (a, b_)]
                arrows.append(tuple(at.get(e, str(e)) for e in key))
        want = {(f"L_{i}", f"M_{j}") for i, j in np.argwhere(np.asarray(b).astype(bool))}
        ctx.expect(len(arrows) == len(set(arrows)) and set(arrows) == want,
                   "arrows", got=sorted(set(arrows)), expected=sorted(want))
        ctx.count("arrows compared", len(want))
        with ctx.lib("get_dag_from_biadj", cpu=60):
            dag = np.asarray(visualize.get_dag_from_biadj(b))
        full = np.zeros((k + m, k + m))
        full[:k, k:] = b
        ctx.expect(dag.shape == full.shape and np.allclose(dag.astype(float), full),
                   "directed graph", got=dag, expected=full)

    def pair_plot(x, color):
        from matplotlib.colors import to_rgba

        kw = {} if color is None else dict(color=color)
        fig = draw(visualize.show_pairwise_plot, x, **kw)
        n, m = x.shape
        rows = x[:1000]
        by_label = {}
        grid = {}
        for ax in fig.axes:
            spec = ax.get_subplotspec()
            if spec is not None:
                grid[spec.rowspan.start, spec.colspan.start] = ax
        for i in range(m):
            for j in range(i):
                ax = grid.get((i, j))
                ctx.need(ax is not None and len(ax.collections) == 1,
                         f"no scatter plot of variables {i} and {j}")
                off = np.asarray(ax.collections[0].get_offsets(), float)
                want = rows[:, [j, i]]
                ctx.need(off.shape == want.shape, f"{len(off)} points instead of {len(want)}")
                order = np.lexsort(off.T), np.lexsort(want.T)
                ctx.expect(np.allclose(off[order[0]], want[order[1]]),
                           f"points of variables {j} and {i}")
                ctx.expect(np.allclose(ax.collections[0].get_facecolor()[0][:3],
                                       to_rgba(color or "C0")[:3]), "colour of points")
                ctx.count("points compared", len(want))
            ctx.expect((i, i) in grid, f"no plot of variable {i}")
            # labels
            if m > 1:
                ctx.expect(grid[m - 1, i].get_xlabel() == f"X{i + 1}", f"x label of variable {i}",
                           got=grid[m - 1, i].get_xlabel())
                if i > 0:
                    ctx.expect(grid[i, 0].get_ylabel() == f"X{i + 1}", f"y label of variable {i}",
                               got=grid[i, 0].get_ylabel())
        extra = [(i, j) for (i, j), ax in grid.items() if j > i and ax.has_data()]
        ctx.expect(not extra, "unexpected plots", got=extra)

    try:
        for i in range(ctx.pick(80, 700)):
            m, k = int(rng.integers(1, 10)), int(rng.integers(1, 8))
            if i % 20 == 13:  # labels of more than one digit
                m, k = int(rng.integers(10, 25)), int(rng.integers(1, 16))
            b = gen.biadj(rng, k, m, float(rng.choice([0.2, 0.5, 0.8])), allow_empty=i % 4 == 0)
            b = b.astype((bool, int, float)[i % 3])
            ctx.case(dict(plots="adj, dag", structure=b), b.any() and not b.all(), digest(b))
            with ctx.guarded():
                adj_plot(b)
            if i % 2:
                with ctx.guarded():
                    dag_plot(b)
            n = int(rng.integers(2, 9)) if i % 20 != 9 else int(rng.integers(10, 21))
            mat = rng.random((n, n))
            if i % 3:
                mat = (mat + mat.T) / 2
            thresh = [None, 0.0, 0.5, float(rng.random()), float(mat[0, -1])][i % 5]
            ctx.case(dict(plots="dcor", matrix=mat, thresh=thresh, print_val=bool(i % 2)), True,
                     digest(mat))
            with ctx.guarded():
                dcor_plot(mat, thresh, bool(i % 2))
            if ctx.out_of_time(120, 600):
                break
        for i in range(ctx.pick(6, 40)):
            n, m = [(30, 3), (999, 2), (1000, 3), (1001, 2), (1700, 3), (200, 4)][i % 6]
            x = rng.normal(size=(n, m)) * [1, 10, 0.1, 2][:m] + np.arange(m)
            color = [None, "C3", "red"][i % 3]
            ctx.case(dict(plots="pairwise", size=[n, m], color=color), True, digest(x))
            with ctx.guarded():
                pair_plot(x, color)
            if ctx.out_of_time(200, 840):
                break
    finally:
        plt.show = real_show
        plt.close("all")
    ctx.require("figures inspected", 50)
    ctx.require("arrows compared", 50)
    ctx.require("points compared", 1000)


CHECKS = dict(C20=c20, C21=c21, C28=c28)
