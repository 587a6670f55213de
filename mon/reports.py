"""C41: what is printed and logged for the user."""

import contextlib
import io
import os
import re
import sys
import warnings

import numpy as np

from . import ambient, gen, neural, oracles, programs
from .core import Skip, digest

BOUND = re.compile(r"at most (\d+) cliques")
TESTED = re.compile(r"testing for solutions with (\d+)/(\d+) cliques")
LEFT = re.compile(r"(\d+) uncovered edges remaining")
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?|True|False|nan|inf")


@contextlib.contextmanager
def printed():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


def sections(text, names):
    """{name: what is printed after 'parameters.name:' up to the next one}"""
    found = {}
    for part in re.split(r"(?m)^(?=\s*parameters\.\w+\s*:)", text):
        match = re.match(r"\s*parameters\.(\w+)\s*:", part)
        if match:
            found.setdefault(match[1], part[match.end():])
    return found


def c41(ctx):
    from medil.ecc_algorithms import find_clique_min_cover
    from medil.graph import UndirectedDependenceGraph
    from medil.models import GaussianMCM

    ctx.rule = (
        "every graph on at most 7 vertices and random ones of 14 families on up to 11: progress of the "
        "search with and without verbosity compared with an exact minimum and the result; parameters "
        "of random and fitted models printed and read again; trainings with and without verbosity: "
        "output compared with the log; everything else: no output; non-trivial: all but empty graphs"
    )

    def search(info, adj):
        ctx.case(info, adj.any(), digest(adj))
        results = []
        for verbose in (False, True):
            with ctx.guarded():
                with ctx.lib("find_clique_min_cover", cpu=120):
                    with printed() as (out, err), warnings.catch_warnings(record=True) as caught:
                        warnings.simplefilter("always")
                        cover = np.asarray(find_clique_min_cover(adj.astype(int), verbose=verbose))
                results.append((cover, [str(w.message) for w in caught]))
                text = out.getvalue()
                if not adj.any():
                    continue
                size = int(np.asarray(cover).sum(1).__gt__(1).sum())
                edges = [tuple(e) for e in np.argwhere(np.triu(adj, 1)).tolist()]
                best = oracles.set_cover(edges, [oracles.pairs_of(c) for c in oracles.max_cliques(adj)])
                for bound in map(int, BOUND.findall(text)):
                    ctx.count("bounds judged")
                    ctx.expect(bound >= best, f"'at most {bound} cliques' are reported, but {best} are needed",
                               printed=text[:500])
                tested = [int(k) for k, _ in TESTED.findall(text)]
                if tested and not caught:
                    ctx.count("reported searches judged")
                    ctx.expect(all(a < b for a, b in zip(tested, tested[1:])) and tested[0] >= 1,
                               "numbers of cliques tried", printed=tested)
                    ctx.expect(tested[-1] == size == best,
                               f"the search reports {tested[-1]} cliques last, {size} were found", best=best)
                left = [int(k) for k in LEFT.findall(text)]
                if left:
                    ctx.count("reported numbers of uncovered edges", len(left))
                    ctx.expect(max(left) <= len(edges), "more uncovered edges are reported than there are edges")
                    if not caught:
                        ctx.expect(min(left) == 0, "no solution is reported", printed=left)
                if not verbose:
                    ctx.expect(not left, "progress is reported although it wasn't asked for", printed=text[:500])
        if len(results) == 2:
            ctx.count("searches compared with and without verbosity")
            (a, w1), (b, w2) = results
            ctx.expect(np.array_equal(a, b) and a.dtype == b.dtype and w1 == w2,
                       "verbosity changes the result", quiet=a, verbose=b)

    def reductions(rng):
        """Numbers of uncovered edges printed while reducing, compared with those of the graph."""
        adj = gen.graph(rng, 3, 9)[1]
        if not adj.any():
            return
        full = (adj | np.eye(len(adj), dtype=bool)).astype(int)
        k = int(rng.integers(1, 15))
        ctx.case(dict(reduced=adj, k=k), True, digest(adj, k))
        with ctx.guarded():
            ends = []
            for verbose in (True, False):
                with ctx.lib("reduzieren"):
                    with printed() as (out, err):
                        g = UndirectedDependenceGraph(full.copy(), verbose)
                        g.make_aux()
                        r = g.reducible_copy()
                        r.reduzieren(k)
                left = [int(v) for v in LEFT.findall(out.getvalue())]
                if left:
                    ctx.count("reported reductions judged")
                    ctx.expect(left[-1] == np.triu(r.adj_matrix, 1).sum(), "uncovered edges reported last",
                               printed=left, graph=r.adj_matrix)
                    ctx.expect(left == sorted(left, reverse=True), "uncovered edges reported", printed=left)
                if not verbose:
                    ctx.expect(not out.getvalue(), "reductions print something", printed=out.getvalue()[:500])
                ends.append((np.array(r.adj_matrix), r.k_num_cliques,
                             None if r.the_cover is None else np.array(r.the_cover)))
            ctx.expect(np.array_equal(ends[0][0], ends[1][0]) and ends[0][1] == ends[1][1]
                       and np.array_equal(ends[0][2], ends[1][2]), "verbosity changes the reduction")

    def parameters(rng, i):
        m = int(rng.integers(2, 9))
        b = gen.biadj(rng, int(rng.integers(1, 6)), m, 0.5)
        kind = i % 3
        from medil.sample import mcm

        x = gen.dataset(rng, 60, m)[1] * 10.0 ** rng.integers(-3, 4)
        ctx.case(dict(structure=b, kind=kind, data=digest(x)), True, digest(b, x))
        with ctx.guarded():
            with ctx.lib("model"):
                if kind == 0:
                    model = mcm(biadj=b, rng=np.random.default_rng(int(rng.integers(1 << 30))))
                else:
                    model = GaussianMCM(**(dict(biadj=b) if kind == 1 else {})).fit(x)
            p = model.parameters
            held = {name: np.array(getattr(p, name)) for name in
                    ("error_means", "error_variances", "biadj_weights")}
            with ctx.lib("print(parameters)", quiet=False):
                with np.printoptions(precision=17, threshold=10**6, floatmode="unique", suppress=False):
                    text = str(p)
                short = str(p)
                with printed() as (out, err):
                    print(p)
            ctx.expect(out.getvalue().strip() == short.strip(), "printing isn't the string")
            found = sections(text, held)
            ctx.expect("Gaussian" in found.get("parameterization", ""), "parameterization printed", text=text)
            for name, val in held.items():
                got = [float({"True": 1, "False": 0}.get(s, s)) for s in NUMBER.findall(found.get(name, ""))]
                ctx.count("printed parameters judged")
                ctx.expect(len(got) == val.size and np.array_equal(np.array(got).reshape(val.shape), val),
                           f"{name} printed", text=found.get(name), expected=val)
            ctx.expect(set(sections(short, held)) == set(found), "parameters printed", text=short)

    def training(rng, i, idx):
        cfg = neural.config(rng, 8 * i + idx, epochs=(1, 4))
        path = neural.fresh_dir(ctx)
        log = os.path.join(path, "training.log")
        ctx.case(neural.info_of(cfg), True)
        with ctx.guarded():
            outcomes = []
            for verbose in (True, False, True):
                old = 0
                if os.path.exists(log):
                    old = os.path.getsize(log)
                with ctx.lib("fit", cpu=300):
                    with printed() as (out, err):
                        model = neural.new_model(cfg, path, verbose=verbose)
                        model.fit(cfg["x"], *(() if cfg["split"] is None else (cfg["split"],)))
                with open(log) as f:
                    f.seek(old)
                    lines = f.read().splitlines()
                shown = out.getvalue().splitlines()
                ctx.count("trainings judged")
                ctx.count("log entries compared with what is printed", len(lines) if verbose else 0)
                ctx.expect(len(lines) > cfg["hyper"]["num_epochs"], "too few log entries", log=lines[:20])
                ctx.expect(shown == (lines if verbose else []), "what is printed isn't what is logged"
                           if verbose else "something is printed", printed=shown[:10], log=lines[:10])
                logged = [re.search(r"parameters\D*(\d+)$", line) for line in lines]
                held = sum(p.numel() for p in model.parameters.vae.parameters() if p.requires_grad)
                for match in filter(None, logged):
                    ctx.count("logged numbers of parameters")
                    ctx.expect(int(match[1]) == held, "number of parameters logged", got=match[0], expected=held)
                found = [re.search(r"training epoch (\d+) with loss (\S+)$", line) for line in lines]
                for match in filter(None, found):
                    k, losses = int(match[1]), model.loss["elbo_train"]
                    ctx.count("logged losses")
                    ctx.expect(k < len(losses) and np.isclose(float(match[2]), losses[k], rtol=1e-4),
                               "training loss logged", got=match[0], expected=losses)
                found = [re.search(r"validation with loss (\S+)$", line) for line in lines]
                found = [float(match[1]) for match in found if match]
                ctx.expect(not found or np.shape(found) == np.shape(model.loss["elbo_valid"])
                           and np.allclose(found, model.loss["elbo_valid"], rtol=1e-4),
                           "validation losses logged", got=found, expected=model.loss["elbo_valid"])
                ctx.expect(not err.getvalue(), "training prints errors", printed=err.getvalue()[:500])
                outcomes.append(neural.fitted_state(model))
            with ctx.lib("print(parameters)", quiet=False):
                with np.printoptions(precision=9, threshold=10**6, floatmode="unique", suppress=False):
                    text = str(model.parameters)
            found = sections(text, ())
            weights = np.asarray(model.parameters.weights)
            got = [float(s) for s in NUMBER.findall(found.get("weights", ""))]
            ctx.count("printed parameters judged")
            ctx.expect("VAE" in found.get("parameterization", "") and "Encoder" in found.get("vae", "")
                       and "Decoder" in found.get("vae", ""), "parameters printed", text=text)
            ctx.expect(len(got) == weights.size and np.allclose(np.reshape(got, weights.shape), weights, rtol=1e-6),
                       "weights printed", text=found.get("weights"), expected=weights)
            ctx.expect(outcomes[0] == outcomes[1] == outcomes[2], "verbosity changes the training")

    def shard(ctx, idx):
        rng = ctx.rng("c41", idx)
        small = gen.atlas(7)
        for i in range(idx, len(small), 8):
            if i % 4 == idx % 4 or ctx.thorough or len(small[i]) < 6:
                search(dict(graph=small[i]), gen.relabel(small[i], rng))
        for _ in range(ctx.pick(25, 300)):
            name, adj = gen.graph(rng, 8, 11)
            search(dict(family=name, graph=adj), adj)
            if ctx.out_of_time(100, 500):
                break
        for i in range(ctx.pick(40, 600)):
            reductions(rng)
            parameters(rng, i)
        for i in range(ctx.pick(5, 60)):
            training(rng, i, idx)
        calls = ambient.NewCalls(rng)
        calls.names = [n for n in calls.names if n != "find_clique_min_cover"]
        for i in range(ctx.pick(60, 900)):
            spec = calls()
            ctx.case(programs.show(spec), True, digest(repr(spec), i, idx))
            with ctx.guarded():
                with ctx.lib(spec[0], cpu=300):
                    with printed() as (out, err):
                        programs.call(*spec)
                if spec[0] in ("biadj", "mcm") and "one_pure_child" in spec[2]:
                    continue  # searches for a minimum cover
                ctx.count("silent operations judged")
                ctx.expect(not out.getvalue() and not err.getvalue(), f"{spec[0]} prints something",
                           printed=(out.getvalue() + err.getvalue())[:500])
            if ctx.num_violations or ctx.out_of_time(150, 800):
                return

    ctx.shards(shard)
    ctx.require("searches compared with and without verbosity", 200)
    ctx.require("printed parameters judged", 300)
    ctx.require("trainings judged", 30)
    ctx.require("silent operations judged", 200)


CHECKS = dict(C41=c41)
