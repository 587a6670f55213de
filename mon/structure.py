"""C01-C07, C29, C30: clique covers, the one-pure-child heuristic, random
structures, and the graph data structures underneath."""

import itertools
import os
import warnings

import numpy as np

from . import gen, oracles
from .core import Inconclusive, Skip, digest

# ---------------------------------------------------------------- C01, C02


def call_cover(ctx, matrix, what="find_clique_min_cover"):
    """The cover and whether a warning about an incomplete search was given."""
    from medil.ecc_algorithms import find_clique_min_cover

    before = matrix.tobytes()
    verbose = dict(verbose=True) if matrix.sum() % 5 == 0 and len(matrix) < 12 else {}
    with ctx.lib(what, cpu=120 if len(matrix) < 100 else 400):
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            cover = find_clique_min_cover(matrix, **verbose)
    ctx.count("covers returned")
    warned = any("cut short" in str(w.message) or "minimum" in str(w.message) for w in caught)
    if warned:
        ctx.count("searches cut short")
    if matrix.tobytes() != before:
        ctx.count("input changed")  # judged by C32
    return cover, warned


def judge_cover(ctx, cover, adj):
    m = len(adj)
    ctx.need(
        isinstance(cover, np.ndarray) and cover.ndim == 2 and cover.shape[1] == m,
        "cover has one column per measurement variable",
        cover=cover,
    )
    ctx.expect(cover.dtype == bool, "cover is boolean", dtype=str(cover.dtype))
    b = np.asarray(cover).astype(int)
    ctx.expect(bool(b.any(1).all()), "latent without measurement variables", cover=b)
    ctx.expect(bool(b.any(0).all()), "measurement variable without latent", cover=b)
    got = gen.induced(b)
    extra, missing = got & ~adj, adj & ~got
    ctx.expect(not extra.any(), "cover induces dependences that aren't in the graph",
               cover=b, extra=np.argwhere(np.triu(extra)))
    ctx.expect(not missing.any(), "cover lacks dependences of the graph",
               cover=b, missing=np.argwhere(np.triu(missing)))
    ctx.count("edges compared", np.triu(adj, 1).sum())


def interesting(adj):
    edges = np.triu(adj, 1).sum()
    n = len(adj)
    return 0 < edges < n * (n - 1) // 2


def cover_workload(ctx, idx, shards, n_quick, n_thorough, sizes):
    """Yields (info, adj): the atlas of small graphs, then random larger ones."""
    rng = ctx.rng("graphs", idx)
    small = gen.atlas(7)
    for i in range(idx, len(small), shards):
        yield "atlas", gen.relabel(small[i], rng)
    for _ in range(ctx.pick(n_quick, n_thorough)):
        lo, hi = sizes[int(rng.integers(len(sizes)))]
        yield gen.graph(rng, lo, hi)


def many_vertices(rng):
    """Graphs with more vertices than are counted in a byte, which nevertheless are easy."""
    out = []
    for size in [(256, 0), (127, 129), (128, 30), (255, 2), (129, 128), (257, 0), (200, 1), (100, 90)]:
        adj = gen.induced(np.repeat(np.eye(2, dtype=bool), size, axis=1))
        if size[1] > 1:  # an edge in between
            adj[0, size[0]] = adj[size[0], 0] = True
        out.append((size, gen.relabel(adj, rng)))
    return out


def c01(ctx):
    ctx.rule = (
        "every graph on at most 7 vertices (networkx atlas, randomly relabelled) with a random "
        "encoding, random graphs of 14 families on 7-26 vertices, and graphs on 24-60 vertices induced by "
        "few latents, cliques of up to 257 vertices; non-trivial: neither empty nor complete; key: adjacency matrix and encoding"
    )

    def shard(ctx, idx):
        rng = ctx.rng("encodings", idx)
        sizes = [(7, 10), (8, 12), (10, 14)]
        for name, adj in cover_workload(ctx, idx, 8, 110, 1200, sizes):
            enc = int(rng.integers(len(gen.ENCODINGS)))
            one(ctx, name, adj, enc)
            if ctx.out_of_time(180, 840):
                return
        for i in range(ctx.pick(6, 60)):  # larger, sparser or very dense
            n = int(rng.integers(15, 27))
            kind = i % 3
            if kind == 0:
                adj = gen.er(rng, n, 2.0 / n)
            elif kind == 1:
                adj = gen.induced(gen.biadj(rng, n // 3, n, 0.25))
            else:
                adj = gen.complement(gen.er(rng, n, 1.0 / n))
            one(ctx, f"large{kind}", adj, int(rng.integers(len(gen.ENCODINGS))))
            if ctx.out_of_time(180, 840):
                return
        for i in range(ctx.pick(12, 150)):
            name, b = gen.structured(rng, 24, 60)
            one(ctx, name, gen.induced(b), int(rng.integers(len(gen.ENCODINGS))))
        for size, adj in many_vertices(rng)[idx::8]:
            one(ctx, f"cliques of {size}", adj, int(rng.integers(len(gen.ENCODINGS))))
            if ctx.out_of_time(220, 850):
                return

    def one(ctx, name, adj, enc):
        ctx.case(
            dict(family=name, encoding=str(gen.ENCODINGS[enc % len(gen.ENCODINGS)]), graph=adj),
            interesting(adj), key=digest(adj, enc),
        )
        with ctx.guarded():
            cover, _ = call_cover(ctx, gen.encode(adj, enc))
            judge_cover(ctx, cover, adj)
            ctx.high("vertices", len(adj))

    ctx.shards(shard)
    ctx.require("covers returned", 500)


def c02(ctx):
    ctx.rule = (
        "every graph on at most 7 vertices and random graphs of 14 families on 8-14 vertices, "
        "compared with the minimum set cover of the edges by maximal cliques (integer program); "
        "larger graphs compared between two labellings, graphs on 24-60 vertices with few latents; "
        "non-trivial: neither empty nor complete"
    )

    def shard(ctx, idx):
        rng = ctx.rng("encodings", idx)
        small = gen.atlas(7)
        work = [("atlas", gen.relabel(small[i], rng)) for i in range(idx, len(small), 8)]
        for _ in range(ctx.pick(60, 700)):
            work.append(gen.graph(rng, 8, 8))
            work.append(gen.graph(rng, 9, 12))
        for _ in range(ctx.pick(8, 150)):
            work.append(gen.graph(rng, 13, 14))
        for name, adj in work:
            enc = int(rng.integers(len(gen.ENCODINGS)))
            ctx.case(dict(family=name, encoding=enc, graph=adj), interesting(adj), digest(adj))
            with ctx.guarded():
                cover, warned = call_cover(ctx, gen.encode(adj, enc))
                if len(adj) <= 8:
                    ctx.expect(not warned, "search cut short on at most eight variables")
                if warned:
                    continue
                best = oracles.min_cover_size(adj)
                ctx.count("minima compared")
                ctx.high("minimum number of latents", best)
                ctx.expect(
                    len(cover) <= best,
                    f"{len(cover)} latents, but {best} suffice",
                    cover=cover,
                )
            if ctx.out_of_time(240, 840):
                return
        for _ in range(ctx.pick(4, 40)):
            n = int(rng.integers(15, 19))
            b = gen.biadj(rng, int(rng.integers(3, 7)), n, 0.3)
            adj = gen.induced(b)
            sizes = []
            ctx.case(dict(family="relabelled", graph=adj), True, digest(adj))
            with ctx.guarded():
                for _ in range(2):
                    cover, warned = call_cover(
                        ctx, gen.encode(gen.relabel(adj, rng), int(rng.integers(7)))
                    )
                    if warned:
                        raise Skip
                    sizes.append(len(cover))
                ctx.count("labellings compared")
                ctx.expect(sizes[0] == sizes[1], f"number of latents depends on labels: {sizes}")
                ctx.expect(max(sizes) <= len(b), f"{sizes} latents, but {len(b)} suffice")
            if ctx.out_of_time(240, 840):
                return
        for _ in range(ctx.pick(12, 150)):
            name, b = gen.structured(rng, 24, 60)
            adj = gen.induced(b)
            ctx.case(dict(family=name, graph=adj), interesting(adj), digest(adj))
            with ctx.guarded():
                cover, warned = call_cover(ctx, gen.encode(adj, int(rng.integers(7))))
                # the pure children aren't adjacent, so it can't be less
                ctx.expect(warned or len(cover) == len(b), f"{len(cover)} latents, but {len(b)} suffice")
                ctx.count("minima compared")

    ctx.shards(shard)
    ctx.require("minima compared", 500)


# ---------------------------------------------------------------- C03


def c03(ctx):
    from medil.ecc_algorithms import max_cliques

    ctx.rule = (
        "every graph on at most 7 vertices, and random graphs of 14 families on up to 22 vertices, cliques of up to 257, "
        "in all encodings, consumed at once, interleaved with a second enumeration, or with the "
        "consumer changing what it got; non-trivial: neither empty nor complete"
    )
    rng = ctx.rng("c03")

    def judge(got, adj, how):
        ref = oracles.max_cliques(adj)
        sets = []
        for clique in got:
            members = [int(v) for v in clique]
            ctx.need(
                len(set(members)) == len(members) and all(0 <= v < len(adj) for v in members)
                and all(float(v) == float(w) for v, w in zip(clique, members)),
                f"not a set of distinct vertices: {members} ({how})",
            )
            sets.append(frozenset(members))
        ctx.count("cliques yielded", len(sets))
        ctx.high("cliques of one graph", len(sets))
        ctx.expect(len(set(sets)) == len(sets), f"clique yielded more than once ({how})", got=got)
        ctx.expect(set(sets) <= ref, f"not a maximal clique ({how})",
                   wrong=[sorted(s) for s in set(sets) - ref])
        ctx.expect(ref <= set(sets), f"maximal clique missing ({how})",
                   missing=[sorted(s) for s in ref - set(sets)])

    def bounded(gen_, adj):
        limit = 4 * 3 ** (min(len(adj), 30) // 3 + 1) + 10  # number of maximal cliques is below this
        out = list(itertools.islice(gen_, limit))
        ctx.expect(len(out) < limit, "enumeration doesn't end")
        return out

    work = [("empty", np.zeros((0, 0), bool))]
    work += [("atlas", gen.relabel(a, rng)) for a in gen.atlas(7)]
    work += [gen.graph(rng, 7, 15) for _ in range(ctx.pick(900, 12000))]
    work += [gen.graph(rng, 16, 22) for _ in range(ctx.pick(60, 1000))]
    work[3000:3000] = [(f"cliques of {size}", adj) for size, adj in many_vertices(rng)]
    for i, (name, adj) in enumerate(work):
        enc = int(rng.integers(len(gen.ENCODINGS)))
        mat = gen.encode(adj, enc)
        before = mat.tobytes()
        ctx.case(dict(family=name, encoding=enc, graph=adj), interesting(adj), digest(adj))
        with ctx.guarded():
            with ctx.lib("max_cliques", cpu=60):
                got = bounded(max_cliques(mat), adj)
            judge(got, adj, "at once")
            if len(adj) and i % 3 == 0:
                other = gen.encode(gen.graph(rng, 4, 9)[1], enc)
                with ctx.lib("max_cliques", cpu=60):
                    a, b = max_cliques(mat), max_cliques(other)
                    got = []
                    for c in itertools.islice(a, 100000):
                        got.append(list(c))
                        c.clear() if hasattr(c, "clear") else None
                        next(b, None)
                judge(got, adj, "interleaved")
                ctx.count("interleaved enumerations")
            ctx.expect(mat.tobytes() == before, "matrix was changed")
        if ctx.out_of_time(180, 800):
            break
    # cliques with more vertices than there may be nested calls
    n = 1010
    adj = np.ones((n, n), bool)
    u, v = rng.choice(n, 2, replace=False)
    adj[u, v] = adj[v, u] = False
    ctx.case(dict(family="complete but for one edge", vertices=n, missing=[u, v]), True, "large")
    with ctx.guarded():
        with ctx.lib("max_cliques", cpu=400):
            got = list(itertools.islice(max_cliques(adj.astype(int)), 3))
        ctx.expect(sorted(len(c) for c in got) == [n - 1] * 2
                   and {frozenset(range(n)) - set(map(int, c)) for c in got} == {frozenset([u]), frozenset([v])},
                   "not the two maximal cliques", sizes=[len(c) for c in got])
        ctx.count("large cliques", len(got))
    ctx.require("cliques yielded", 1000)


# ---------------------------------------------------------------- C04, C05


def c04(ctx):
    from medil.ecc_algorithms import find_heuristic_1pc

    ctx.rule = (
        "every graph on at most 7 vertices (all encodings), random graphs of 14 families on up to "
        "20 vertices, graphs on 25-48 vertices with a hidden independent set, cliques of up to 257; non-trivial: neither "
        "empty nor complete; 'grown' counts graphs whose "
        "initial neighbourhoods don't cover all edges"
    )
    rng = ctx.rng("c04")
    work = [("atlas", gen.relabel(a, rng)) for a in gen.atlas(7)]
    work += [("atlas", gen.relabel(a, rng)) for a in gen.atlas(7, 5)]
    work += [gen.graph(rng, 7, 13) for _ in range(ctx.pick(1500, 15000))]
    work += [gen.graph(rng, 14, 20) for _ in range(ctx.pick(150, 2500))]
    # many maximal independent sets, the largest ones among them being rare
    work += [gen.hidden_set(rng, 25, 48) for _ in range(ctx.pick(40, 400))]
    work[3000:3000] = [(f"cliques of {size}", adj) for size, adj in many_vertices(rng)]
    for name, adj in work:
        m = len(adj)
        enc = int(rng.integers(len(gen.ENCODINGS)))
        ctx.case(dict(family=name, encoding=enc, graph=adj), interesting(adj), digest(adj, enc))
        with ctx.guarded():
            with ctx.lib("find_heuristic_1pc", cpu=60):
                cover = find_heuristic_1pc(gen.encode(adj, enc))
            ctx.count("structures returned")
            ctx.need(
                isinstance(cover, np.ndarray) and cover.ndim == 2 and cover.shape[1] == m,
                "structure has one column per measurement variable", cover=cover,
            )
            b = cover.astype(bool)
            ctx.expect(
                not (adj & ~gen.induced(b)).any(), "adjacent variables without common latent",
                cover=b, missing=np.argwhere(np.triu(adj & ~gen.induced(b))),
            )
            ctx.expect(bool(b.any(0).all()), "measurement variable without latent", cover=b)
            ctx.expect(oracles.has_pure_children(b), "latent without pure child", cover=b)
            alpha = oracles.independence_number(adj)
            ctx.expect(len(b) == alpha, f"{len(b)} latents, independence number {alpha}", cover=b)
            pure = b.sum(0) == 1
            reach = set()
            for row in b:
                v = int(np.flatnonzero(row & pure)[0]) if (row & pure).any() else 0
                nb = adj[v].copy()
                nb[v] = True
                reach |= set(oracles.pairs_of(np.flatnonzero(nb)))
            if {tuple(e) for e in np.argwhere(np.triu(adj)).tolist()} - reach:
                ctx.count("grown")
        if ctx.out_of_time(240, 840):
            break
    ctx.require("structures returned", 1000)
    ctx.require("grown", 20)


def c05(ctx):
    from medil import sample
    from medil.ecc_algorithms import find_heuristic_1pc

    ctx.rule = (
        "random structures of up to 18 (sometimes 40) variables in which every latent has a pure child, "
        "from an own generator and from medil's; non-trivial: at least two latents and one measurement variable with several"
    )

    def shard(ctx, idx):
        rng = ctx.rng("c05", idx)
        for i in range(ctx.pick(160, 2500)):
            m = int(rng.integers(1, 19 if i % 4 == 0 else 13))
            if i % 3 == 0 and m > 1:
                with ctx.guarded():
                    with ctx.lib("biadj"):
                        b = sample.biadj(m, density=float(rng.random()), rng=rng)
                    b = np.asarray(b).astype(bool)
                    if not (oracles.has_pure_children(b) and b.any(0).all()):
                        ctx.count("generated structures without pure children")  # see C06
                        raise Skip
            if not (i % 3 == 0 and m > 1) or not oracles.has_pure_children(b):
                b = gen.one_pure_child(rng, m)
            if i % 16 == 5:
                b = gen.structured(rng, 20, 40)[1]
                ctx.count("structures with 20 to 40 variables")
            adj = gen.induced(b)
            ctx.case(dict(structure=b), len(b) > 1 and (b.sum(0) > 1).any(), digest(b))
            enc = int(rng.integers(len(gen.ENCODINGS)))
            with ctx.guarded():
                with ctx.lib("find_heuristic_1pc", cpu=60):
                    got = find_heuristic_1pc(gen.encode(adj, enc))
                ctx.count("structures recovered")
                ctx.expect(
                    oracles.canon_rows(got) == oracles.canon_rows(b),
                    "heuristic doesn't recover the structure", got=np.asarray(got),
                )
            if len(adj) <= 14 or i % 16 == 5:
                with ctx.guarded():
                    cover, warned = call_cover(ctx, gen.encode(adj, enc))
                    if warned:
                        raise Skip
                    ctx.expect(
                        len(cover) == len(b),
                        f"minimum clique cover has {len(cover)} latents instead of {len(b)}",
                        cover=cover,
                    )
            if ctx.out_of_time(200, 840):
                return

    ctx.shards(shard)
    ctx.require("structures recovered", 500)
    ctx.require("covers returned", 300)


# ---------------------------------------------------------------- C06, C07


def half_even_options(x):
    """Values counting as rounded x (both neighbours in case of a tie)."""
    lo, hi = np.floor(x), np.ceil(x)
    if abs(x - lo - 0.5) < 1e-9:
        return {int(lo), int(hi)}
    return {int(lo) if x - lo < 0.5 else int(hi)}


def judge_1pc_spec(ctx, b, m, k, density):
    ctx.need(
        isinstance(b, np.ndarray) and b.ndim == 2 and b.shape[1] == m,
        f"structure has {m} measurement variables", got=np.shape(b),
    )
    k_got = len(b)
    if k:
        ctx.expect(k_got == k, f"{k_got} latents instead of {k}")
    else:
        ctx.expect(1 <= k_got <= max(1, m - 1), f"{k_got} latents for {m} variables")
    b = b.astype(bool)
    ctx.expect(bool(b.any(0).all()), "measurement variable without latent", got=b)
    ctx.expect(bool(b.any(1).all()) and oracles.has_pure_children(b),
               "latent without pure child", got=b)
    extra = int(b.sum()) - m
    room = (m - k_got) * (k_got - 1)
    if density is None:
        ctx.expect(0 <= extra <= room, f"{extra} extra connections, room for {room}", got=b)
    else:
        ctx.expect(
            extra in half_even_options(density * room),
            f"{extra} extra connections instead of {density}*{room}", got=b,
        )
    ctx.count("structures judged")


def c06(ctx):
    from medil.sample import biadj

    ctx.rule = (
        "structures for random sizes, densities (0, 1, random, None) and generators, each judged; "
        "plus repeated draws per configuration for cell frequencies (7 standard deviations); "
        "non-trivial: two or more latents with room for extra connections"
    )
    rng = ctx.rng("c06")
    for i in range(ctx.pick(6000, 80000)):
        m = int(rng.integers(2, 16)) if i % 10 else int(rng.integers(16, 60 if i % 100 else 300))
        k = 0 if i % 3 == 0 else int(rng.integers(1, m + 1))
        d = [None, 0.0, 1.0, 0.2, 0.5, float(rng.random()), float(rng.random())][i % 7]
        seed = int(rng.integers(1 << 30))
        kw = dict(density=d, num_latent=k)
        if i % 11 == 0 and d == 0.2:
            kw.pop("density")  # default
        ctx.case(dict(num_meas=m, **kw, rng=seed), m > k > 1, digest(m, k, d, seed))
        with ctx.guarded():
            with ctx.lib("biadj"):
                b = biadj(m, rng=np.random.default_rng(seed), **kw)
            judge_1pc_spec(ctx, b, m, k, d)

    # the whole distribution
    configs = [(6, 3, 0.5), (5, 2, 0.3), (8, 4, 0.2), (4, 2, 1.0), (7, 5, 0.6), (6, 3, 0.0),
               (9, 3, None), (5, 5, 0.5), (6, 0, 0.5)]
    if ctx.thorough:
        configs += [(10, 4, 0.35), (12, 6, 0.15), (3, 2, 0.5), (20, 5, 0.4)]
    draws = ctx.pick(6000, 60000)
    for m, k, d in configs:
        gen_ = np.random.default_rng([ctx.seed, m, k])
        cells = np.zeros((max(k, 1), m))
        pure = np.zeros(m)
        extra, latents, repeats, last = [], [], 0, None
        squares = []
        overlap, overlap_var = 0.0, 0.0
        pure_rows = np.zeros((max(k, 1), m))
        ctx.case(dict(num_meas=m, num_latent=k, density=d, draws=draws), True, f"{m}-{k}-{d}")
        with ctx.guarded():
            with ctx.lib("biadj"):
                for _ in range(draws):
                    b = np.asarray(biadj(m, density=d, num_latent=k, rng=gen_)).astype(bool)
                    latents.append(len(b))
                    if k and b.shape == (k, m):
                        cells += b
                        alone = b & (b.sum(0) == 1)
                        pure_rows += alone
                        pure += b.sum(0) == 1
                        extra.append(int(b.sum()) - m)
                        squares.append(int(((b.sum(0) - 1) ** 2).sum()))
                    if k and b.shape == (k, m):
                        both = np.flatnonzero(b.sum(0) > 1)
                        sub, size = b[:, both].astype(float), b[:, both].sum(0)
                        a1, a2 = np.triu_indices(len(both), 1)
                        e = size[a1] * size[a2] / k
                        overlap += ((sub.T @ sub)[a1, a2] - e).sum()
                        if k > 1:  # hypergeometric
                            overlap_var += (e * (1 - size[a1] / k) * (k - size[a2]) / (k - 1)).sum()
                    repeats += last is not None and np.array_equal(last, b)
                    last = b
            ctx.count("draws", draws)
            if m > 4 and 1 < k < m:
                ctx.expect(repeats < 0.5 * draws, "successive draws are mostly identical")
            if k == 0:
                counts = np.bincount(latents, minlength=m + 1)[: m + 1]
                ctx.expect((counts[1:m] > 0).all() and counts[1:m].sum() == draws,
                           f"numbers of latents drawn: {counts}")
                continue
            freq = cells / draws
            p = freq.mean()
            sd = np.sqrt(p * (1 - p) / draws)
            for (r, c), f in np.ndenumerate(freq):
                ctx.stat(f"connection frequency of latent {r} and variable {c}", f, p, sd)
            f, p = pure / draws, (pure / draws).mean()
            sd = np.sqrt(max(p * (1 - p), 0) / draws)
            for c in range(m):
                ctx.stat(f"frequency of variable {c} having one latent", f[c], p, sd, slack=1e-9)
            f, p = pure_rows / draws, (pure_rows / draws).mean()
            sd = np.sqrt(p * (1 - p) / draws)
            for (r, c), v in np.ndenumerate(f):
                ctx.stat(f"frequency of variable {c} being pure child of latent {r}", v, p, sd)
            ctx.stat("latents common to two variables with several latents, more than by chance",
                     overlap, 0, np.sqrt(overlap_var), slack=1e-6)
            if d is not None and len(squares) == draws and k > 1:
                # numbers of additional latents are hypergeometric
                total, num = (m - k) * (k - 1), extra[0]
                mean = num / max(m - k, 1)
                var = mean * (1 - num / total) * (total - k + 1) / (total - 1) if total > 1 else 0
                ctx.stat("sum of squared numbers of additional latents of a variable", np.mean(squares),
                         (m - k) * (var + mean**2), np.std(squares) / np.sqrt(draws), slack=1e-6)
            if d is None:
                extra = np.array(extra)
                ctx.expect(len(np.unique(extra)) > 2, "unspecified density isn't random")
    ctx.require("structures judged", 1000)


def c07(ctx):
    from medil.sample import biadj

    ctx.rule = (
        "structures from random graphs for random sizes up to 12 (49 if sparse or complete), densities (0, 1, random) and "
        "generators; repeated draws for the frequencies of pairs; non-trivial: density in (0, 1)"
    )

    def shard(ctx, idx):
        rng = ctx.rng("c07", idx)
        for i in range(ctx.pick(130, 2500)):
            m = int(rng.integers(1, 11 if i % 5 else 13))
            d = [0.0, 1.0, 0.5, 0.2, float(rng.random()), float(rng.random())][i % 6]
            if i % 13 == 12:  # sparse (or complete) and large
                m = int(rng.integers(20, 50))
                d = float(rng.choice([0, 1, 0.5 / m, 1.3 / m]))
            seed = int(rng.integers(1 << 30))
            ctx.case(dict(num_meas=m, density=d, rng=seed), 0 < d < 1 and m > 2, digest(m, d, seed))
            with ctx.guarded():
                with ctx.lib("biadj", cpu=120):
                    with warnings.catch_warnings(record=True) as caught:
                        warnings.simplefilter("always")
                        b = biadj(m, density=d, one_pure_child=False,
                                  rng=np.random.default_rng(seed))
                if caught:
                    ctx.count("searches cut short")
                ctx.need(isinstance(b, np.ndarray) and b.ndim == 2 and b.shape[1] == m,
                         f"structure has {m} measurement variables")
                b = b.astype(bool)
                ctx.count("structures judged")
                ug = gen.induced(b)
                edges = int(np.triu(ug, 1).sum())
                ctx.expect(edges in half_even_options(d * (m * (m - 1) // 2)),
                           f"{edges} dependences instead of {d}*{m * (m - 1) // 2}", got=b)
                ctx.expect(bool(b.any(0).all()), "measurement variable without latent", got=b)
                if not caught:
                    for row in range(len(b)):
                        rest = np.delete(b, row, 0)
                        less = (len(rest) == 0 or (gen.induced(rest) != ug).any()
                                or not rest.any(0).all())
                        if not ctx.expect(less, f"latent {row} is redundant", got=b):
                            break
            for k in (1, 2, m):
                try:
                    biadj(m, density=d, one_pure_child=False, num_latent=k,
                          rng=np.random.default_rng(seed))
                except ValueError:
                    ctx.count("rejections")
                    ctx.expect(True, "")
                    continue
                except Exception as e:
                    ctx.violate(f"num_latent={k} raised {type(e).__name__}, not ValueError")
                    continue
                ctx.violate(f"num_latent={k} isn't rejected with one_pure_child=False")
            if ctx.out_of_time(200, 840):
                return

    ctx.shards(shard)

    def shard2(ctx, idx):
        m, d = [(5, 0.4), (4, 0.5), (6, 0.3), (7, 0.15), (5, 0.7), (3, 0.34), (6, 0.6), (8, 0.1)][idx]
        gen_ = np.random.default_rng([ctx.seed, m, idx])
        draws = ctx.pick(1500, 15000)
        total = np.zeros((m, m))
        ctx.case(dict(num_meas=m, density=d, draws=draws), True, f"{m}-{d}")
        with ctx.guarded():
            with ctx.lib("biadj", cpu=800):
                for _ in range(draws):
                    total += gen.induced(biadj(m, density=d, one_pure_child=False, rng=gen_))
            freq = total[np.triu_indices(m, 1)] / draws
            p = freq.mean()
            sd = np.sqrt(p * (1 - p) / draws)
            for (i, j), f in zip(itertools.combinations(range(m), 2), freq):
                ctx.stat(f"frequency of dependence of {i} and {j}", f, p, sd)
            ctx.count("draws", draws)

    ctx.shards(shard2)
    ctx.require("structures judged", 300)
    ctx.require("rejections", 300)


# ---------------------------------------------------------------- C29


def snapshot(g):
    """Observable state of a graph object."""
    names = ("adj_matrix", "num_vertices", "num_edges", "common_neighbors",
             "nbrhood_edge_counts", "extant_edges_idx", "the_cover", "reduced_away")
    out = {}
    for name in names:
        if hasattr(g, name):
            val = getattr(g, name)
            if name == "extant_edges_idx":
                val = np.sort(np.asarray(val))
            if name == "reduced_away":
                if not np.asarray(val).any():
                    continue
            out[name] = val.copy() if isinstance(val, np.ndarray) else val
    return out


def same_snapshot(a, b):
    return a.keys() == b.keys() and all(
        np.array_equal(a[k], b[k]) if a[k] is not None and b[k] is not None else a[k] is b[k]
        for k in a
    )


def judge_aux(ctx, g, adj):
    """adj: boolean adjacency with zero diagonal that g should describe."""
    n = len(adj)
    closed = adj | np.eye(n, dtype=bool)
    seen = set()
    for u, v in itertools.combinations(range(n), 2):
        i = int(g.get_idx((u, v)))
        ctx.need(0 <= i < n * (n - 1) // 2 and i not in seen, f"edge number {i} isn't unique",
                 edge=[u, v])
        seen.add(i)
        ctx.expect(tuple(int(x) for x in g.get_edge(i)) == (u, v),
                   f"get_edge({i}) isn't the inverse of get_idx", edge=[u, v])
        common = closed[u] & closed[v] if adj[u, v] else np.zeros(n, bool)
        got = np.asarray(g.common_neighbors[i]).astype(bool)
        ctx.expect(np.array_equal(got, common), f"common neighbours of edge {(u, v)}",
                   got=np.flatnonzero(got), expected=np.flatnonzero(common))
        count = int(np.triu(adj[np.ix_(common, common)], 1).sum())
        ctx.expect(int(g.nbrhood_edge_counts[i]) == count,
                   f"{g.nbrhood_edge_counts[i]} edges among common neighbours of {(u, v)}, not {count}")
        ctx.count("edges of auxiliary structures judged", adj[u, v])
    extant = sorted(int(i) for i in g.extant_edges_idx)
    want = sorted(int(g.get_idx((u, v))) for u, v in np.argwhere(np.triu(adj, 1)))
    ctx.expect(extant == want, "list of edges", got=extant, expected=want)


def c29(ctx):
    from medil.graph import UndirectedDependenceGraph

    ctx.rule = (
        "random graphs on 2-10 (sometimes up to 30) vertices, random sequences of additions, removals, rebuilding the "
        "auxiliary structure, reductions of copies (and copies of copies), resets and exports; a "
        "model graph is updated alongside and compared after each operation; non-trivial: "
        "at least three operations on a graph with edges"
    )
    rng = ctx.rng("c29")
    copies_never_interfere, exported = _c29_helpers(ctx, rng)

    def judge_graph(g, adj, what):
        mat = np.asarray(g.adj_matrix)
        ctx.expect(np.array_equal(mat, mat.T), f"adjacency isn't symmetric after {what}")
        off = mat.astype(bool) & ~np.eye(len(adj), dtype=bool)
        ctx.need(np.array_equal(off, adj), f"adjacency after {what}", got=mat, expected=adj)
        ctx.expect(int(g.num_edges) == int(np.triu(adj, 1).sum()),
                   f"num_edges is {g.num_edges} after {what}", adj=adj)
        ctx.expect((np.diag(mat) == 1).all(), f"diagonal changed by {what}")
        ctx.expect(int(g.num_vertices) == len(adj), f"num_vertices is {g.num_vertices} after {what}")
        ctx.count("states of graphs judged")

    def pick_edges(n, k):
        e = np.array([rng.choice(n, 2, replace=False) for _ in range(k)])
        return e

    for i in range(ctx.pick(700, 10000)):
        name, adj = gen.graph(rng, 2, 10)
        if i % 40 == 17:
            name, adj = gen.graph(rng, 11, 16) if i % 80 == 17 else ("structured", gen.induced(
                gen.structured(rng, 18, 30)[1]))
        adj = adj.copy()
        n = len(adj)
        if n < 2:
            continue
        ops = []
        info = dict(family=name, graph=adj.copy(), ops=ops)
        ctx.case(info, adj.any(), digest(adj, i))
        with ctx.guarded(), ctx.lib("graph operation", cpu=60):
            g = UndirectedDependenceGraph((adj | np.eye(n, dtype=bool)).astype(int))
            judge_graph(g, adj, "initialization")
            for _ in range(int(rng.integers(2, 9))):
                op = rng.choice(["add", "rm", "aux", "copy", "export", "both"])
                ops.append(str(op))
                ctx.case_info = info
                if op in ("add", "both"):
                    e = pick_edges(n, int(rng.integers(1, 5)))
                    ops[-1] += str(e.tolist())
                    g.add_edges(e)
                    adj[e[:, 0], e[:, 1]] = adj[e[:, 1], e[:, 0]] = True
                    judge_graph(g, adj, "add_edges")
                if op in ("rm", "both"):
                    e = pick_edges(n, int(rng.integers(1, 5)))
                    ops[-1] += str(e.tolist())
                    g.rm_edges(e)
                    adj[e[:, 0], e[:, 1]] = adj[e[:, 1], e[:, 0]] = False
                    judge_graph(g, adj, "rm_edges")
                if op == "aux" and adj.any():
                    g.make_aux()
                    judge_graph(g, adj, "make_aux")
                    judge_aux(ctx, g, adj)
                if op == "copy" and adj.any():
                    g.make_aux()
                    copies_never_interfere(g, adj)
                    judge_graph(g, adj, "reducing copies")
                if op == "export":
                    exported(g, adj)
        if ctx.out_of_time(180, 840):
            break

    ctx.require("edges of auxiliary structures judged", 500)
    ctx.require("copies checked for interference", 200)
    ctx.require("exports parsed", 100)


def _c29_helpers(ctx, rng):
    def copies_never_interfere(g, adj):
        base = snapshot(g)
        a, b = g.reducible_copy(), g.reducible_copy()
        fresh = snapshot(a)
        judge_aux(ctx, a, adj)
        for _ in range(int(rng.integers(1, 4))):
            what = rng.choice(["reduce", "cover", "rm", "nested", "aux"])
            mutate(a, str(what))
            ctx.expect(same_snapshot(snapshot(g), base), f"{what} on a copy changed the original")
            ctx.expect(same_snapshot(snapshot(b), fresh), f"{what} on a copy changed another copy")
            ctx.count("copies checked for interference")
        # nested copies share nothing with what they are copied from
        mid = snapshot(a)
        c = a.reducible_copy()
        for what in ("reduce", "cover", "aux"):
            mutate(c, what)
        ctx.expect(same_snapshot(snapshot(a), mid), "reducing a copy of a copy changed the latter")
        cover_before = np.eye(len(adj), dtype=int)
        a.reset()
        ctx.expect(same_snapshot(snapshot(a), fresh), "reset doesn't restore the initial state",
                   got=snapshot(a), expected=fresh)
        cover = cover_before.copy()
        out = a.reconstruct_cover(cover)
        ctx.expect(np.array_equal(out, cover_before),
                   "after reset, covers are still reconstructed as after the earlier reduction")
        ctx.count("resets")

    def mutate(a, what):
        if a.num_edges == 0:
            return
        if what == "reduce":
            a.reduzieren(int(rng.integers(1, 12)))
        elif what == "cover":
            edges = np.argwhere(np.triu(a.adj_matrix, 1))
            a.cover_edges(edges[rng.permutation(len(edges))[: int(rng.integers(1, 4))]])
        elif what == "rm":
            edges = np.argwhere(np.triu(a.adj_matrix, 1))
            a.rm_edges(edges[:1])
        elif what == "aux":
            a.common_neighbors[:] = 0
            a.nbrhood_edge_counts[:] = 0
            a.extant_edges_idx[:] = 0
        else:
            c = a.reducible_copy()
            c.reduzieren(20)

    def exported(g, adj):
        # few names, so that most exports are over an earlier one, longer or shorter
        path = os.path.join(ctx.scratch, f"exp{int(rng.integers(4))}")
        if os.path.exists(path + ".nde"):
            ctx.count("exports over an earlier one")
        g.convert_to_nde(path)
        with open(path + ".nde") as f:
            lines = [line.split() for line in f.read().splitlines() if line.strip()]
        n = len(adj)
        ctx.expect([n] == [int(x) for x in lines[0]], "number of vertices in the export")
        nodes = [tuple(map(int, line)) for line in lines[1 : n + 1]]
        edges = [tuple(map(int, line)) for line in lines[n + 1 :]]
        ctx.expect([v for v, _ in nodes] == list(range(n)), "vertices in the export", lines=lines)
        proper = [tuple(sorted(e)) for e in edges if e[0] != e[1]]
        want = [tuple(e) for e in np.argwhere(np.triu(adj, 1)).tolist()]
        ctx.expect(sorted(proper) == want, "edges in the export", got=proper, expected=want)
        for v, deg in nodes:
            ctx.expect(deg == sum(v in e for e in edges), f"degree of {v} in the export",
                       got=deg, lines=lines)
        ctx.count("exports parsed")

    return copies_never_interfere, exported


# ---------------------------------------------------------------- C30


class ReductionMonitor:
    """Checks a reducible graph against the original graph at every step."""

    def __init__(self, ctx, adj, optimum=True):
        self.ctx, self.adj = ctx, adj
        self.cliques = [oracles.pairs_of(c) for c in oracles.max_cliques(adj)]
        self.optimum = optimum
        self.memo = {}

    def need(self, uncovered):
        key = uncovered.tobytes()
        if key not in self.memo:
            edges = [tuple(e) for e in np.argwhere(np.triu(uncovered, 1)).tolist()]
            self.memo[key] = oracles.set_cover(edges, self.cliques)
        return self.memo[key]

    def state(self, g):
        mat = np.asarray(g.adj_matrix).astype(bool)
        uncovered = mat & ~np.eye(len(mat), dtype=bool)
        cover = None if g.the_cover is None else np.asarray(g.the_cover).astype(bool)
        return dict(
            uncovered=uncovered.copy(),
            remaining=mat.diagonal().copy(),
            cover=np.zeros((0, len(mat)), bool) if cover is None else cover.copy(),
            aside=np.asarray(g.reduced_away).any(1).copy()
            if hasattr(g, "reduced_away") else np.zeros(len(mat), bool),
            budget=getattr(g, "k_num_cliques", None),
        )

    def judge(self, g, when):
        ctx, adj = self.ctx, self.adj
        n = len(adj)
        s = self.state(g)
        un, rem, cover = s["uncovered"], s["remaining"], s["cover"]
        ctx.expect(np.array_equal(un, un.T), f"uncovered edges aren't symmetric {when}")
        ctx.expect(not (un & ~adj).any(), f"uncovered non-edges {when}",
                   edges=np.argwhere(np.triu(un & ~adj)))
        for c in cover:
            idx = np.flatnonzero(c)
            sub = adj[np.ix_(idx, idx)] | np.eye(len(idx), dtype=bool)
            ctx.expect(len(idx) > 0 and sub.all(), f"chosen set isn't a clique {when}", chosen=idx)
        lost = adj & ~un & ~gen.induced(cover)
        lost[s["aside"]] = False
        lost[:, s["aside"]] = False
        ctx.expect(not lost.any(), f"edge neither covered nor uncovered {when}",
                   edges=np.argwhere(np.triu(lost)), cover=cover)
        ctx.expect(int(g.num_edges) == int(np.triu(un, 1).sum()),
                   f"num_edges is {g.num_edges} {when}", uncovered=np.argwhere(np.triu(un)))
        ctx.expect(int(g.num_vertices) == int(rem.sum()), f"num_vertices is {g.num_vertices} {when}")
        ctx.expect(not un[~rem].any(), f"removed vertex has uncovered edges {when}")
        extant = {tuple(int(x) for x in g.get_edge(i)) for i in g.extant_edges_idx}
        want = {tuple(e) for e in np.argwhere(np.triu(un, 1)).tolist()}
        ctx.expect(len(g.extant_edges_idx) == len(extant) and extant == want,
                   f"list of uncovered edges {when}", got=sorted(extant), expected=sorted(want))
        closed = (adj | np.eye(n, dtype=bool)) & rem
        for u, v in want:
            i = int(g.get_idx((u, v)))
            common = closed[u] & closed[v]
            got = np.asarray(g.common_neighbors[i]).astype(bool)
            ctx.expect(np.array_equal(got, common), f"common neighbours of {(u, v)} {when}",
                       got=np.flatnonzero(got), expected=np.flatnonzero(common))
            count = int(np.triu(adj[np.ix_(common, common)], 1).sum())
            ctx.expect(int(g.nbrhood_edge_counts[i]) == count,
                       f"edge count of {(u, v)} {when}: {g.nbrhood_edge_counts[i]}, not {count}")
            ctx.count("neighbourhoods judged")
        ctx.count("states of reductions judged")
        return s

    def judge_step(self, before, after, rule):
        ctx = self.ctx
        added = len(after["cover"]) - len(before["cover"])
        spent = 0 if before["budget"] is None else before["budget"] - after["budget"]
        ctx.expect(added == spent, f"{rule} chose {added} cliques, but {spent} of the budget",
                   cover=after["cover"])
        if self.optimum:
            was, now = self.need(before["uncovered"]), self.need(after["uncovered"])
            ctx.expect(now + added == was,
                       f"{rule}: {was} cliques needed before, {added}+{now} with it",
                       uncovered=np.argwhere(np.triu(before["uncovered"])))
        if added or after["aside"].sum() > before["aside"].sum() \
                or after["remaining"].sum() < before["remaining"].sum():
            ctx.count(f"applications of {rule}")


def c30(ctx):
    from medil.graph import ReducibleUndDepGraph, UndirectedDependenceGraph

    ctx.rule = (
        "every graph on at most 7 vertices, random graphs of 14 families on up to 10 and graphs on 15-30 "
        "vertices induced by few latents: complete "
        "reductions, random sequences of single rules and of cliques chosen by the caller, and the "
        "reductions within the cover search, each state and step judged against the original "
        "graph; non-trivial: neither empty nor complete"
    )

    def fresh(adj):
        g = UndirectedDependenceGraph((adj | np.eye(len(adj), dtype=bool)).astype(int))
        g.make_aux()
        return g.reducible_copy()

    def reconstruct(ctx, g, adj, optimum, caller):
        with ctx.lib("reconstruct_cover", cpu=60):
            cover = g.reconstruct_cover(g.the_cover.copy())
        b = np.asarray(cover).astype(bool)
        ctx.expect(np.array_equal(gen.induced(b), adj), "reconstructed cover",
                   got=b, missing=np.argwhere(np.triu(adj & ~gen.induced(b))),
                   extra=np.argwhere(np.triu(gen.induced(b) & ~adj)))
        ctx.count("covers reconstructed")
        if not caller:
            ctx.expect(len(b) == optimum, f"complete reduction chose {len(b)} cliques, "
                       f"minimum is {optimum}")

    def sequences(ctx, adj, rng):
        mon = ReductionMonitor(ctx, adj)
        optimum = mon.need(adj)
        edges = int(np.triu(adj, 1).sum())
        # complete reduction
        with ctx.guarded():
            with ctx.lib("reduzieren", cpu=60):
                g = fresh(adj)
            start = mon.judge(g, "initially")
            with ctx.lib("reduzieren", cpu=60):
                g.reduzieren(edges + 5)
            start["budget"] = edges + 5
            mon.judge_step(start, mon.judge(g, "after reduzieren"), "reduzieren")
            if g.num_edges == 0:
                reconstruct(ctx, g, adj, optimum, caller=False)
            # too small a budget isn't exceeded unnoticed
            with ctx.lib("reduzieren", cpu=60):
                g = fresh(adj)
                small = int(rng.integers(0, max(1, optimum)))
                g.reduzieren(small)
            after = mon.judge(g, "after reduzieren with small budget")
            ctx.expect(len(after["cover"]) == small - g.k_num_cliques, "budget is spent correctly")
            if g.num_edges == 0 and optimum > small:
                ctx.expect(g.k_num_cliques < 0, f"everything covered with {small} cliques, "
                           f"minimum is {optimum}", cover=g.the_cover)
        # random sequence of rules
        with ctx.guarded():
            with ctx.lib("rules", cpu=60):
                g = fresh(adj)
            g.k_num_cliques = edges + 5
            g.reducing = False
            caller = False
            seq = []
            for _ in range(30):
                if g.num_edges == 0:
                    break
                rule = str(rng.choice(["rule_1", "rule_2", "rule_3", "choose"],
                                      p=[0.35, 0.3, 0.3, 0.05]))
                seq.append(rule)
                before = mon.state(g)
                if rule == "choose":
                    caller = True
                    nb = None
                    with ctx.lib("choose_nbrhood", cpu=60):
                        nb = np.asarray(g.choose_nbrhood()).astype(bool)
                    off = nb & ~np.eye(len(nb), dtype=bool)
                    ctx.expect(not (off & ~adj).any(), "chosen neighbourhood has non-edges", nb=nb)
                    ctx.expect((off & before["uncovered"]).any(),
                               "chosen neighbourhood has no uncovered edge", nb=nb)
                    e = np.argwhere(np.triu(off & before["uncovered"]))
                    cand = [c for c in oracles.max_cliques(off) if len(c) > 1
                            and any(set(x) <= c for x in e.tolist())]
                    c = sorted(sorted(x) for x in cand)[int(rng.integers(len(cand)))]
                    row = np.zeros((1, len(adj)), int)
                    row[0, c] = 1
                    with ctx.lib("cover_edges", cpu=60):
                        g.the_cover = row if g.the_cover is None else np.vstack((g.the_cover, row))
                        g.cover_edges()
                    mon.judge(g, f"after {seq}")
                    continue
                with ctx.lib(rule, cpu=60):
                    getattr(g, rule)()
                mon.judge_step(before, mon.judge(g, f"after {seq}"), rule)
            else:
                with ctx.lib("reduzieren", cpu=60):
                    before = mon.state(g)
                    g.reduzieren(g.k_num_cliques)
                mon.judge_step(before, mon.judge(g, f"after {seq}, reduzieren"), "reduzieren")
            if g.num_edges == 0 and g.the_cover is not None:
                reconstruct(ctx, g, adj, optimum, caller)

    def in_search(ctx, adj):
        """Monitors every reduction step the cover search makes."""
        from medil.ecc_algorithms import find_clique_min_cover

        mon = ReductionMonitor(ctx, adj, optimum=len(adj) <= 8)
        originals = {r: getattr(ReducibleUndDepGraph, r) for r in ("rule_1", "rule_2", "rule_3")}
        steps = [0]

        def wrap(rule, original):
            def wrapped(self, *args, **kwargs):
                steps[0] += 1
                if steps[0] > 400:
                    return original(self, *args, **kwargs)
                before = mon.state(self)
                out = original(self, *args, **kwargs)
                mon.judge_step(before, mon.judge(self, f"in search after {rule}"), rule)
                ctx.count("steps of searches judged")
                return out

            return wrapped

        for rule, original in originals.items():
            setattr(ReducibleUndDepGraph, rule, wrap(rule, original))
        try:
            with ctx.lib("find_clique_min_cover", cpu=240):
                find_clique_min_cover((adj | np.eye(len(adj), dtype=bool)).astype(int))
        finally:
            for rule, original in originals.items():
                setattr(ReducibleUndDepGraph, rule, original)

    def shard(ctx, idx):
        rng = ctx.rng("c30", idx)
        small = gen.atlas(7, 2)
        work = [("atlas", gen.relabel(small[i], rng)) for i in range(idx, len(small), 8)]
        work += [gen.graph(rng, 7, 10) for _ in range(ctx.pick(25, 500))]
        work += [(name, gen.induced(b)) for name, b in
                 (gen.structured(rng, 15, 30) for _ in range(ctx.pick(4, 60)))]
        for i, (name, adj) in enumerate(work):
            if not adj.any():
                continue
            ctx.case(dict(family=name, graph=adj), interesting(adj), digest(adj))
            sequences(ctx, adj, rng)
            if i % 3 == 0 or len(adj) > 7 or ctx.thorough:
                with ctx.guarded():
                    in_search(ctx, adj)
            if ctx.out_of_time(200, 840):
                return

    ctx.shards(shard)
    for name, least in [("states of reductions judged", 2000), ("applications of rule_1", 200),
                        ("applications of rule_2", 200), ("applications of rule_3", 50),
                        ("covers reconstructed", 200)]:
        ctx.require(name, least)


CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C29=c29, C30=c30)
