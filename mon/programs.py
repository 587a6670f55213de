"""C33, C35, C36, C37: refusals, concurrent threads, copies, and independence of history."""

import copy
import gc
import io
import os
import pickle
import random
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings

import numpy as np
from scipy.stats import chi2

from . import gen, neural
from .core import REPO, VERIF, Inconclusive, Skip, cpu_limit, digest

# ---------------------------------------------------------------- specifications of calls


def plain(obj):
    """Results as nested tuples of plain values and arrays, comparable across processes."""
    if isinstance(obj, np.ndarray):
        return np.array(obj)
    if isinstance(obj, (list, tuple)):
        return tuple(plain(o) for o in obj)
    if isinstance(obj, dict):
        return tuple((k, plain(v)) for k, v in sorted(obj.items()))
    if isinstance(obj, np.generic):
        return obj.item()
    if hasattr(obj, "detach"):
        return obj.detach().cpu().numpy().copy()
    return obj


def same(a, b, rtol=1e-7):
    """Equal, up to rounding errors of floats."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind != "f":
            return bool(np.array_equal(a, b))
        tol = rtol * (np.abs(a[np.isfinite(a)]).max(initial=0) + 1e-300)
        return bool(np.allclose(a, b, rtol=rtol, atol=tol, equal_nan=True))
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float):
        return isinstance(b, float) and (
            a == b or (a != a and b != b) or abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-13)
    return type(a) is type(b) and a == b


def parameters_of(model):
    p = model.parameters
    return (np.asarray(model.biadj), np.asarray(p.biadj_weights), np.asarray(p.error_means),
            np.asarray(p.error_variances))


def call(name, args, kw):
    """One operation; generators are given by their seeds, so that it's determined by the
    arguments."""
    from medil import ecc_algorithms as ecc, evaluate, independence_testing as it
    from medil import sample as sa, visualize as vis
    from medil.graph import UndirectedDependenceGraph
    from medil.models import DevMedil, GaussianMCM

    kw = dict(kw)
    seed = kw.pop("seed", None)
    rng = np.random.default_rng(seed)
    if name == "find_clique_min_cover":
        return plain(ecc.find_clique_min_cover(*args))
    if name == "find_heuristic_1pc":
        return plain(ecc.find_heuristic_1pc(*args))
    if name == "max_cliques":
        return tuple(sorted(tuple(sorted(int(v) for v in c)) for c in ecc.max_cliques(*args)))
    if name == "graph":
        g = UndirectedDependenceGraph(np.array(args[0]))
        g.make_aux()
        r = g.reducible_copy()
        r.reduzieren(kw["k"])
        left = np.array(r.adj_matrix)
        return plain((g.num_edges, g.num_vertices, g.common_neighbors, g.nbrhood_edge_counts, left,
                      r.k_num_cliques, np.zeros(0) if r.the_cover is None else np.array(r.the_cover)))
    if name == "biadj":
        return plain(sa.biadj(*args, rng=rng, **kw)), plain(sa.biadj(*args, rng=rng, **kw))
    if name == "mcm":
        model = sa.mcm(*args, rng=rng, **kw)
        model.rng = rng
        return plain(parameters_of(model)), plain(model.sample(5))
    if name == "gaussian":
        n = kw.pop("n")
        model = GaussianMCM(rng=rng, **kw).fit(*args)
        return plain(parameters_of(model)), plain(np.asarray(model.udg)), plain(model.sample(n))
    if name == "sample":
        b, w, mu, var, n = args
        model = GaussianMCM(biadj=b, rng=rng)
        model.parameters.biadj_weights, model.parameters.error_means = w, mu
        model.parameters.error_variances = var
        return plain(model.sample(n)), plain(model.sample(n))
    if name == "penalized":
        method = kw.pop("method")
        model = DevMedil(rng=rng, **{k: kw.pop(k) for k in ("one_pure_child",) if k in kw})
        model.fit(*args, method=method, **kw)
        return plain((model.W_hat, model.D_hat, getattr(model, "validation_" + method)(0.3, 0.2, *args),
                      model.sample(4, method=method)))
    if name == "dcov":
        return plain(it.dcov(*args))
    if name == "estimate_UDG":
        return plain(it.estimate_UDG(*args, **kw))
    if name == "xicorr":
        return plain(tuple(it.xicorr(*args, **kw)))
    if name == "sfd":
        return plain(evaluate.sfd(*args))
    if name == "recover_ug":
        return plain(evaluate.recover_ug(*args))
    if name == "min_perm":
        return plain(evaluate.min_perm_squared_l2_dist(*args))
    if name == "min_perm_abs":
        return plain(evaluate.min_perm_squared_l2_dist_abs(*args))
    if name == "dag":
        return plain(vis.get_dag_from_biadj(*args)), plain(vis.get_adj_from_incidence(*args))
    raise ValueError(name)


class Calls:
    """Random operations whose arguments resemble those of earlier ones: the same object, an equal
    one, one changed in place, one of the same shape and sum, or of the same bytes."""

    NAMES = ("find_clique_min_cover", "find_heuristic_1pc", "max_cliques", "graph", "biadj", "mcm",
             "gaussian", "gaussian", "sample", "dcov", "estimate_UDG", "estimate_UDG", "xicorr",
             "xicorr", "sfd", "sfd", "recover_ug", "min_perm", "min_perm_abs", "dag")

    def __init__(self, rng, pools=True, penalized=True):
        self.rng = rng
        self.pools = pools
        self.names = self.NAMES + (("penalized",) if penalized else ())
        self.old = {}
        self.last = None

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def graph(self):
        return self.resembling("graph", lambda: gen.encode(
            gen.graph(self.rng, 1, 9)[1], int(self.rng.integers(7))), symmetric=True)

    def data(self, m_max=5):
        def new():
            m = int(self.rng.integers(2, m_max + 1))
            n = int(self.rng.choice([12, 24, 36, 60]))
            x = gen.dataset(self.rng, n, m)[1]
            return np.round(x, 1) if self.rng.random() < 0.2 else x

        return self.resembling("data", new)

    def structure(self, m=None):
        def new():
            k = int(self.rng.integers(1, 6))
            b = gen.biadj(self.rng, k, m or int(self.rng.integers(2, 6)), 0.5)
            return b.astype((bool, int, np.uint8, float)[int(self.rng.integers(4))])

        return self.resembling(f"structure {m}", new)

    def weights(self, k, m):
        return self.resembling(f"weights {k} {m}", lambda: self.rng.normal(size=(k, m)))

    def resembling(self, kind, new, symmetric=False):
        rng = self.rng
        old = self.old.setdefault(kind, [])
        how = rng.random() if old else 1
        a = self.pick(old) if old else None
        if how < 0.15:
            out = a
        elif how < 0.25:
            out = a.copy()
        elif how < 0.4 and a.size:  # the same object with another content
            p = rng.permutation(a.shape[1])
            a[...] = a[np.ix_(p, p)] if symmetric else (a[:, p] if rng.random() < 0.5 else
                                                        a[rng.permutation(len(a))])
            if not symmetric and a.dtype.kind == "f" and kind == "data":
                a[int(rng.integers(len(a)))] += rng.normal(size=a.shape[1]) * 3
            return a
        elif how < 0.55 and a.size:  # same shape and sums
            p = rng.permutation(a.shape[1])
            out = a[np.ix_(p, p)] if symmetric else np.array(
                [rng.permutation(r) for r in a]) if rng.random() < 0.5 else a[:, p]
        elif how < 0.65 and not symmetric and kind == "data":
            out = a.copy()  # same beginning and end
            mid = slice(len(a) // 3, 2 * len(a) // 3)
            out[mid] = out[mid][:, rng.permutation(a.shape[1])] + 0.5
        elif how < 0.72 and kind == "data" and a.shape[0] % 2 == 0 and a.shape[1] == 2:
            out = np.ascontiguousarray(a).reshape(a.shape[0] // 2, 4)  # same bytes
        elif how < 0.78 and not kind.startswith("weights"):
            out = np.asfortranarray(a)
        else:
            out = new()
        old.append(out)
        if len(old) > 12:
            old.pop(int(rng.integers(len(old))))
        return out

    LEVELS = (0.05, 0.5, 0.01, 0.0455, 0.0545, 0.496, 0.004, 1e-6, 0.0149)

    def __call__(self):
        """(name, args, kwargs)"""
        spec = self.last
        if spec is None or self.rng.random() > (0.6 if spec[0] == "estimate_UDG" else 0.25):
            spec = self.new()
        else:
            spec = self.again(spec)
        self.last = spec
        return spec

    def again(self, spec):
        """The operation before, with the same array, now with other numbers, or other options."""
        rng = self.rng
        name, args, kw = spec
        if "significance_level" in kw and rng.random() < 0.5:
            return name, args, dict(kw, significance_level=self.level(args[0], kw))
        if "ties" in kw and rng.random() < 0.2:
            return name, args, dict(kw, ties=not kw["ties"])
        arrays = [a for a in args if isinstance(a, np.ndarray) and a.ndim == 2 and a.size > 1]
        if not arrays or name == "sample":
            return name, args, kw
        a = self.pick(arrays)
        if name in ("find_clique_min_cover", "find_heuristic_1pc", "max_cliques", "graph"):
            u, v = rng.choice(len(a), 2, replace=False)
            if name == "graph" and np.triu(a, 1).astype(bool).sum() == 1 and a[u, v]:
                return name, args, kw
            a[u, v] = a[v, u] = not a[u, v]
        elif a.dtype.kind == "f" and name in ("dcov", "estimate_UDG", "xicorr", "gaussian", "penalized"):
            i, j = rng.choice(a.shape[1], 2, replace=False)
            a[:, i] = a[:, j] if rng.random() < 0.5 else rng.permutation(a[:, i])
            if name in ("gaussian", "penalized"):
                a[:, i] += rng.normal(size=len(a))
        else:
            a[...] = a[rng.permutation(len(a))]
        return name, args, kw

    def level(self, x, kw):
        """Often a level at which a decision is a close one, so that similar levels differ."""
        rng = self.rng
        x = np.asarray(x, float)
        i, j = rng.choice(x.shape[1], 2, replace=False)
        if isinstance(kw["method"], str):
            a, b = (np.abs(x[:, [k]] - x[:, k]) for k in (i, j))
            center = lambda d: d - d.mean(0) - d.mean(1)[:, None] + d.mean()
            with np.errstate(all="ignore"):
                p = chi2.sf(len(x) * (center(a) * center(b)).mean() / (a.mean() * b.mean()), 1)
        else:
            p = kw["method"][i, j]
        if not 1e-12 < p < 0.8 or rng.random() < 0.2:
            return self.pick(self.LEVELS)
        return float(p * self.pick((0.9, 0.97, 0.995, 1.005, 1.03, 1.1)))

    def new(self):
        rng = self.rng
        name = self.pick(self.names)
        seed = dict(seed=int(rng.integers(5)))  # few, so that they recur
        if name in ("find_clique_min_cover", "find_heuristic_1pc", "max_cliques"):
            return name, (self.graph(),), {}
        if name == "graph":
            while True:
                g = np.array(self.graph(), dtype=int)
                np.fill_diagonal(g, 1)
                if np.triu(g, 1).any():
                    return name, (g,), dict(k=int(rng.integers(1, 30)))
                self.old.get("graph", []).clear()
        if name == "biadj":
            m = int(rng.integers(2, 7))
            if rng.random() < 0.4:
                return name, (m,), dict(seed, one_pure_child=False, density=float(rng.choice([0.3, 0.6])))
            kw = dict(num_latent=int(rng.integers(1, m + 1))) if rng.random() < 0.5 else {}
            return name, (m,), dict(seed, density=self.pick((None, 0.2, 0.7)), **kw)
        if name == "mcm":
            if rng.random() < 0.5:
                return name, (), dict(seed, biadj=self.structure(int(rng.integers(2, 6))))
            return name, (), dict(seed, num_meas=int(rng.integers(2, 7)), density=self.pick((0.2, 0.7)))
        if name == "gaussian":
            x = self.data()
            m = x.shape[1]
            kw = dict(seed, n=int(rng.integers(1, 5)))
            which = rng.random()
            if which < 0.35:
                kw["biadj"] = self.structure(m)
            elif which < 0.55:
                kw["udg"] = gen.encode(gen.er(rng, m, 0.5), int(rng.integers(7)))
            return name, (x,), kw
        if name == "sample":
            m = int(rng.integers(1, 4))
            b = np.asarray(self.structure(m)).astype(bool)
            w = np.where(b, self.weights(*b.shape), 0)
            mu, var = self.weights(1, m)[0], np.abs(self.weights(1, m)[0])
            return name, (b, w, mu, var, int(rng.integers(1, 6))), seed
        if name == "penalized":
            x = self.data()[:, :2]
            return name, (x,), dict(seed, method=self.pick(("mle", "lse")), lambda_reg=self.pick((0.1, 1.0)),
                                    mu_reg=self.pick((0.1, 0.5)), one_pure_child=bool(rng.integers(2)))
        if name == "dcov":
            return name, (self.data(),), {}
        if name == "estimate_UDG":
            x = self.data()
            method = self.pick(("dcov_fast", "dcov_fast", "p") + (("xicor", "dcov_big") if self.pools else ()))
            if method == "p":
                p = rng.random((x.shape[1],) * 2)
                method = p + p.T
            return name, (x,), dict(method=method, significance_level=self.pick(self.LEVELS))
        if name == "xicorr":
            x = self.data()
            return name, (x[:, 0], x[:, -1]), dict(ties=bool(rng.integers(2)))
        if name == "sfd":
            m = int(rng.integers(2, 6))
            return name, (self.structure(m), self.structure(m)), {}
        if name in ("recover_ug", "dag"):
            return name, (self.structure(int(rng.integers(2, 6))),), {}
        k, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        return name, (self.weights(k, m), self.weights(int(rng.integers(1, k + 1)), m)), {}


class Pristine:
    """Computes calls in processes in which nothing has been computed before."""

    def __init__(self):
        down_r, self.down = os.pipe()
        self.up, up_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.down)
                os.close(self.up)
                self.serve(down_r, up_w)
            finally:
                os._exit(0)
        os.close(down_r)
        os.close(up_w)

    @staticmethod
    def read(fd, num):
        out = b""
        while len(out) < num:
            part = os.read(fd, num - len(out))
            if not part:
                raise EOFError
            out += part
        return out

    @staticmethod
    def write(fd, data):
        data = struct.pack("<Q", len(data)) + data
        while data:
            data = data[os.write(fd, data):]

    def serve(self, down, up):
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        while True:
            try:
                spec = self.read(down, struct.unpack("<Q", self.read(down, 8))[0])
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    self.write(up, pickle.dumps(outcome(*pickle.loads(spec))))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def __call__(self, spec):
        self.write(self.down, pickle.dumps(spec))
        try:
            return pickle.loads(self.read(self.up, struct.unpack("<Q", self.read(self.up, 8))[0]))
        except EOFError:
            raise Inconclusive("the process for reference results died")

    def close(self):
        os.close(self.down)
        os.close(self.up)
        os.waitpid(self.pid, 0)


def import_all():
    """Imports only, before processes are forked."""
    import medil.ecc_algorithms, medil.evaluate, medil.graph, medil.independence_testing  # noqa
    import medil.models, medil.sample, medil.visualize  # noqa
    import multiprocessing.pool, scipy.optimize, scipy.stats, dcor  # noqa


def outcome(name, args, kw):
    """('ok', result) or ('raised', type and text)."""
    try:
        with cpu_limit(200):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return "ok", call(name, args, kw)
    except Exception as e:
        return "raised", f"{type(e).__name__}: {e}"


def show(spec):
    name, args, kw = spec
    return dict(operation=name, arguments=list(args), options=kw)


# ---------------------------------------------------------------- C37


def fresh_process(ctx, specs, flags, env):
    """Outcomes of calls in another interpreter, one after the other."""
    with tempfile.NamedTemporaryFile(dir=ctx.scratch, delete=False) as f:
        pickle.dump(specs, f)
    code = (
        "import sys, pickle; sys.path[:0] = [%r, %r]\n"
        "from mon import programs, core; core.load_medil(); import os, io\n"
        "specs = pickle.load(open(sys.argv[1], 'rb')); sys.stdout = io.StringIO()\n"
        "res = [programs.outcome(*s) for s in specs]\n"
        "pickle.dump(res, open(sys.argv[1] + '.out', 'wb'))"
    ) % (str(REPO), str(VERIF))
    proc = subprocess.run([sys.executable, *flags, "-c", code, f.name], capture_output=True, text=True,
                          env=dict(os.environ, **env), timeout=800, cwd=ctx.scratch)
    if proc.returncode:
        raise Inconclusive("other process: " + proc.stderr[-2000:])
    with open(f.name + ".out", "rb") as g:
        return pickle.load(g)


def c37(ctx):
    ctx.rule = (
        "random programs of 21 operations whose arguments resemble those of earlier ones (the same "
        "object, also with another content, equal ones, ones of the same shape and sums or the same "
        "bytes); every result compared with that of a process forked before the first operation, "
        "part of them with an interpreter with another hash seed and without assertions; "
        "non-trivial: all but the first operation of a program"
    )

    import_all()

    def shard(ctx, idx):
        rng = ctx.rng("c37", idx)
        pristine = Pristine()
        try:
            calls = Calls(rng)
            specs = []
            for i in range(ctx.pick(220, 3000)):
                spec = calls()
                ctx.case(show(spec), i > 0, digest(repr(spec), idx, i))
                with ctx.guarded():
                    sent = pickle.loads(pickle.dumps(spec))
                    old_out, sys.stdout = sys.stdout, io.StringIO()
                    try:
                        got = outcome(*spec)
                    finally:
                        sys.stdout = old_out
                    want = pristine(sent)
                    ctx.count(f"results compared: {spec[0]}")
                    ctx.count("refusals compared", want[0] == "raised")
                    ctx.expect(same(got, want), "another result than in a new process",
                               got=got, expected=want)
                    if i % 3 == 0:
                        specs.append((sent, want))
                    if i % 10 == 0:
                        gc.collect()
                if ctx.num_violations or ctx.out_of_time(150, 800):
                    break
        finally:
            pristine.close()
        if ctx.num_violations or idx > 1 and not ctx.thorough:
            return
        specs = specs[:400]
        flags, env = (([], dict(PYTHONHASHSEED="7")), (["-O"], dict(PYTHONHASHSEED="123")))[idx % 2]
        got = fresh_process(ctx, [s for s, _ in specs], flags, env)
        for (spec, want), res in zip(specs, got):
            ctx.case_info = dict(show(spec), process=dict(flags=flags, environment=env))
            ctx.expect(same(res, want), "another result in another interpreter", got=res, expected=want)
            ctx.count("results compared between interpreters")

    ctx.shards(shard)
    for name in Calls.NAMES + ("penalized",):
        ctx.require(f"results compared: {name}", 10)
    ctx.require("results compared between interpreters", 50)


# ---------------------------------------------------------------- C35


def vary(rng, spec):
    """The same operation on other arrays of the same shapes and types."""
    name, args, kw = pickle.loads(pickle.dumps(spec))
    scale = float(rng.choice([0.01, 3, 1000]))
    out = []
    perm = None
    for a in args:
        if isinstance(a, np.ndarray) and a.ndim == 2:
            if name in ("find_clique_min_cover", "find_heuristic_1pc", "max_cliques", "graph"):
                p = rng.permutation(len(a))
                a = a[np.ix_(p, p)]
            else:
                perm = rng.permutation(a.shape[1]) if perm is None or len(perm) != a.shape[1] else perm
                a = a[:, perm][rng.permutation(len(a))]
                if name in ("dcov", "estimate_UDG", "gaussian", "penalized"):
                    a = a * scale + (rng.normal(size=a.shape) * 0.3 * a.std() if rng.random() < 0.5 else 0)
        elif isinstance(a, np.ndarray) and name == "xicorr":
            a = rng.permutation(a)
        out.append(a)
    if name == "sample":
        out = args
    if "seed" in kw:
        kw["seed"] = int(rng.integers(5))
    return name, tuple(out), kw


def c35(ctx):
    ctx.rule = (
        "2 to 6 threads run random programs of 20 operations on data of their own, switched every "
        "few microseconds and additionally at random lines of medil; results compared with the same "
        "programs run one after the other; non-trivial: at least two threads that overlap"
    )

    def shard(ctx, idx):
        rng = ctx.rng("c35", idx)
        for i in range(ctx.pick(24, 300)):
            num = int(rng.integers(2, 7))
            alike = i % 3 == 0  # all threads do the same kind of things
            twins = i % 3 == 1
            programs = []
            for _ in range(num):
                if twins and programs:  # the same operations on other data of the same shapes
                    programs.append([vary(rng, spec) for spec in programs[0]])
                    continue
                calls = Calls(rng, pools=False, penalized=not alike)
                if alike:
                    calls.names = [Calls.NAMES[(i // 3 + j) % len(Calls.NAMES)] for j in range(2)]
                programs.append([pickle.loads(pickle.dumps(calls())) for _ in range(int(rng.integers(3, 9)))])
            prob = float(rng.choice([0, 0.01, 0.1, 0.4]))
            ctx.case(dict(threads=[[show(s) for s in p] for p in programs][:2], num=num, switch=prob), True,
                     digest(repr(programs), prob))
            shas = digest(repr(programs))
            results = [None] * num
            serial = [None] * num
            switches = [0] * num
            start = threading.Barrier(num)
            active = [0]
            overlap = [0]
            lock = threading.Lock()

            def work(t):
                r = random.Random(i * 1000 + t)

                def tracer(frame, event, arg):
                    name = frame.f_code.co_filename
                    if "/medil/" not in name:
                        return None
                    if event == "line" and r.random() < prob:
                        switches[t] += 1
                        time.sleep(0)
                    return tracer

                start.wait()
                with lock:
                    active[0] += 1
                    overlap[0] = max(overlap[0], active[0])
                if prob:
                    sys.settrace(tracer)
                try:
                    out = []
                    for spec in programs[t]:
                        try:
                            out.append(("ok", call(*spec)))
                        except Exception as e:
                            out.append(("raised", f"{type(e).__name__}: {e}"))
                    results[t] = out
                finally:
                    sys.settrace(None)
                    with lock:
                        active[0] -= 1

            old_out, sys.stdout = sys.stdout, io.StringIO()
            interval = sys.getswitchinterval()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    for t in range(num):
                        serial[t] = [outcome(*pickle.loads(pickle.dumps(s))) for s in programs[t]]
                    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-4])))
                    threads = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(num)]
                    for thread in threads:
                        thread.start()
                    end = time.time() + 240
                    for thread in threads:
                        thread.join(max(0.1, end - time.time()))
                    late = any(thread.is_alive() for thread in threads)
            finally:
                sys.setswitchinterval(interval)
                sys.stdout = old_out
            ctx.count("switches injected", sum(switches))
            ctx.count("programs run concurrently", num)
            ctx.high("threads at the same time", overlap[0])
            if late:
                ctx.violate("threads haven't finished after 240 s")
                return
            for t in range(num):
                for spec, got, want in zip(programs[t], results[t] or [], serial[t]):
                    ctx.case_info = dict(show(spec), threads=num, switch=prob,
                                         others=[[s[0] for s in p] for p in programs])
                    ctx.count("results compared")
                    ctx.count("refusals compared", want[0] == "raised")
                    ctx.expect(same(got, want), "another result than without other threads", got=got,
                               expected=want)
                ctx.expect(results[t] is not None and len(results[t]) == len(programs[t]),
                           "a thread didn't finish its program")
            if ctx.num_violations or ctx.out_of_time(150, 800):
                return

    ctx.shards(shard)
    ctx.require("results compared", 500)
    ctx.require("switches injected", 1000)


# ---------------------------------------------------------------- C36


def reveal(model):
    """Everything a user can read off a model: arrays, settings, losses, network."""
    out = []
    for key, val in sorted(vars(model).items()):
        if key in ("rng", "parameters", "result", "path"):
            continue
        if isinstance(val, (np.ndarray, str, bool, int, float, dict, np.generic)) or val is None:
            out.append((key, plain(val)))
    p = getattr(model, "parameters", None)
    for key, val in sorted(vars(p).items()) if p is not None else ():
        if isinstance(val, np.ndarray):
            out.append((key, plain(val)))
        elif hasattr(val, "state_dict"):
            out.append((key, plain(dict(val.state_dict()))))
    return tuple(out)


def load_elsewhere(ctx, items):
    """Saves models, loads them in a new interpreter and continues with them there."""
    path = os.path.join(ctx.scratch, "models-%d.pkl" % time.time_ns())
    with open(path, "wb") as f:
        pickle.dump(items, f)
    code = (
        "import sys, pickle; sys.path[:0] = [%r, %r]\n"
        "from mon import programs, core; core.load_medil(); import io\n"
        "out = sys.stdout; sys.stdout = io.StringIO()\n"
        "items = pickle.load(open(sys.argv[1], 'rb'))\n"
        "res = [(programs.reveal(m), programs.steps(m, p)) for m, p in items]\n"
        "pickle.dump(res, open(sys.argv[1] + '.out', 'wb'))"
    ) % (str(REPO), str(VERIF))
    proc = subprocess.run([sys.executable, "-c", code, path], capture_output=True, text=True, timeout=800,
                          cwd=ctx.scratch, env=dict(os.environ, PYTHONHASHSEED="99"))
    if proc.returncode:
        return None, proc.stderr[-3000:]
    with open(path + ".out", "rb") as f:
        return pickle.load(f), None


def step(model, op):
    """One operation on a model, by description."""
    kind, arg, kw = op
    if kind == "sample":
        return plain(model.sample(arg, **kw))
    if kind == "fit":
        model.fit(arg, **kw)
        return reveal(model)
    if kind == "validate":
        return plain(getattr(model, "validation_" + kw["method"])(0.2, 0.1, arg))
    if kind == "forward":
        import torch

        model.parameters.vae.eval()
        with torch.no_grad():
            return plain(tuple(model.parameters.vae(torch.tensor(arg, dtype=torch.float32))))
    if kind == "set":
        model.hyperparams[arg] = kw["value"]
        return plain(dict(model.hyperparams))
    raise ValueError(kind)


def steps(model, ops):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return tuple(step(model, op) for op in ops)


def c36(ctx):
    import torch
    from medil.models import DevMedil, GaussianMCM, NeuroCausalFactorAnalysis
    from medil.sample import mcm

    ctx.rule = (
        "linear Gaussian, penalized and neural models, new, generated or fitted, copied (deeply or by "
        "pickling in memory, within containers, or by torch) in the middle of random histories; "
        "original and copy continued and compared with a twin that was never copied; some loaded in "
        "another interpreter; non-trivial: history of at least two operations"
    )

    def history(rng, kind, m, k, method):
        """Random operations after which sampling works."""
        data = lambda: gen.dataset(rng, int(rng.integers(m + 6, 50)), m)[1]
        ops = []
        for _ in range(k):
            if kind == "gaussian":
                ops.append(("fit", data(), {}) if rng.random() < 0.5 else
                           ("sample", int(rng.integers(1, 6)), {}))
            elif kind == "penalized":
                r = rng.random()
                ops.append(("fit", data(), dict(method=method)) if r < 0.3 else
                           ("sample", int(rng.integers(1, 6)), dict(method=method)) if r < 0.7 else
                           ("validate", data(), dict(method=method)))
            else:
                r = rng.random()
                x = data()
                split = {} if rng.random() < 0.5 else dict(split_idcs=[
                    np.arange(0, len(x), 2), np.arange(1, len(x), 2)])
                ops.append(("fit", x, split) if r < 0.5 else ("forward", x.astype(np.float32), {}) if r < 0.8
                           else ("set", "lr", dict(value=float(rng.choice([0.01, 0.02, 0.001])))))
        return ops

    def duplicate(rng, model):
        how = ("deepcopy", "pickle", "pickle in list", "pickle protocol 2", "deepcopy in dict", "torch",
               "pickle twice")[int(rng.integers(7))]
        if how == "deepcopy":
            return how, copy.deepcopy(model)
        if how == "deepcopy in dict":
            return how, copy.deepcopy(dict(a=[model]))["a"][0]
        if how == "pickle in list":
            return how, pickle.loads(pickle.dumps([model, 1]))[0]
        if how == "pickle protocol 2":
            return how, pickle.loads(pickle.dumps(model, protocol=2))
        if how == "torch":
            f = io.BytesIO()
            torch.save(model, f)
            f.seek(0)
            return how, torch.load(f, weights_only=False)
        out = pickle.loads(pickle.dumps(model))
        return how, pickle.loads(pickle.dumps(out)) if how == "pickle twice" else out

    def shard(ctx, idx):
        rng = ctx.rng("c36", idx)
        saved = []
        for i in range(ctx.pick(36, 420)):
            kind = ("gaussian", "gaussian", "penalized", "neural")[i % 4]
            m = int(rng.integers(2, 5)) if kind != "penalized" else 2
            seed = int(rng.integers(1 << 40))
            method = ("mle", "lse")[i // 4 % 2]
            first_data = gen.dataset(rng, int(rng.integers(m + 6, 50)), m)[1]
            given = {}
            if kind == "gaussian":
                how = int(rng.integers(4))
                if how == 1:
                    given["biadj"] = gen.biadj(rng, int(rng.integers(1, 4)), m).astype((bool, int)[i // 2 % 2])
                elif how == 2:
                    given["udg"] = gen.encode(gen.er(rng, m, 0.5), int(rng.integers(7)))
                elif how == 3:
                    given = None

            def create():
                if kind == "gaussian" and given is None:  # a generated one
                    model = mcm(rng=np.random.default_rng(seed), num_meas=m)
                    model.rng = np.random.default_rng(seed)
                    return model, []
                if kind == "gaussian":
                    return GaussianMCM(rng=np.random.default_rng(seed), **{
                        k: v.copy() for k, v in given.items()}), [("fit", first_data, {})]
                if kind == "penalized":
                    return DevMedil(rng=np.random.default_rng(seed)), [
                        ("fit", first_data, dict(method=method, lambda_reg=0.1))]
                model = NeuroCausalFactorAnalysis(seed=seed % 1000, path=neural.fresh_dir(ctx),
                                                  dof=int(seed % 3))
                model.hyperparams.update(num_epochs=2, batch_size=16, width_per_meas=1 + seed % 2)
                return model, [("fit", first_data, {})]

            early = rng.random() < 0.25  # copied before anything has happened
            before = [] if early else history(rng, kind, m, int(rng.integers(0, 3)), method)
            after = history(rng, kind, m, int(rng.integers(1, 4)), method)
            order = [int(v) for v in rng.permutation(3)]
            ctx.case(dict(kind=kind, m=m, seed=seed, given=given, before=[o[0] for o in before],
                          after=[o[0] for o in after], early=early), len(before) + len(after) > 1,
                     digest(kind, seed, repr(after)))
            with ctx.guarded():
                with ctx.lib("history", cpu=200):
                    model, first = create()
                    twin, _ = create()
                    if early:
                        after = first + after
                    else:
                        steps(model, first + before)
                        steps(twin, first + before)
                    state = reveal(model)
                with ctx.lib("copying", cpu=60):
                    how, dup = duplicate(rng, model)
                ctx.count(f"copies: {how}")
                ctx.count(f"copies of {kind} models")
                ctx.expect(type(dup) is type(model), "type of the copy")
                ctx.expect(same(reveal(dup), state), "the copy differs", how=how, got=reveal(dup),
                           expected=state)
                ctx.expect(same(reveal(model), state), "copying changed the model", how=how)
                if ctx.num_violations:
                    return
                if not ctx.thorough and len(saved) < 3 or ctx.thorough and len(saved) < 12:
                    saved.append((pickle.dumps(model), after))
                got = {}
                with ctx.lib("history continued", cpu=200):
                    for who in order:
                        others = [o for j, o in enumerate((model, dup, twin)) if j != who]
                        held = [reveal(o) for o in others]
                        got[who] = steps((model, dup, twin)[who], after)
                        ctx.expect(all(same(reveal(o), h) for o, h in zip(others, held)),
                                   "an operation on one model changed a copy of it", how=how)
                        ctx.count("continuations")
                ctx.expect(same(got[0], got[2]), "having been copied changed what the model does", how=how,
                           got=got[0], expected=got[2])
                ctx.expect(same(got[1], got[2]), "the copy doesn't do what the model does", how=how,
                           got=got[1], expected=got[2])
            if ctx.num_violations or ctx.out_of_time(150, 800):
                return
        res, err = load_elsewhere(ctx, [(pickle.loads(b), ops) for b, ops in saved])
        ctx.case_info = dict(note="models loaded in another interpreter")
        if res is None:
            ctx.violate("saved models can't be used in another interpreter", error=err)
            return
        for (b, ops), (state, out) in zip(saved, res):
            model = pickle.loads(b)
            ctx.case_info = dict(note="model loaded in another interpreter", kind=type(model).__name__,
                                 operations=[o[0] for o in ops])
            ctx.expect(same(state, reveal(model)), "loaded model differs")
            with ctx.lib("history continued", cpu=200):
                want = steps(model, ops)
            ctx.expect(same(out, want), "loaded model doesn't do what the saved one does", got=out, expected=want)
            ctx.count("models loaded in another interpreter")

    ctx.shards(shard)
    for name in ("copies of gaussian models", "copies of penalized models", "copies of neural models",
                 "models loaded in another interpreter"):
        ctx.require(name, 10)


# ---------------------------------------------------------------- C33


def c33(ctx):
    import multiprocessing
    from medil import evaluate, independence_testing as it, sample as sa
    from medil.models import DevMedil, GaussianMCM, MedilCausalModel, NeuroCausalFactorAnalysis

    ctx.rule = (
        "39 kinds of requests that can't be met, on random data, structures and models, new and "
        "fitted ones, and failures of numerical routines and interruptions injected into fits; what "
        "was passed, fitted and saved compared before and after, then used again; non-trivial: all"
    )
    data = lambda rng, m: gen.dataset(rng, int(rng.integers(10, 40)), m)[1]

    def refused(ctx, what, func, kinds, watched, cpu=60):
        """The call has to raise one of the kinds and to leave everything as it was."""
        before = [reveal(o) if not isinstance(o, np.ndarray) else digest(o) for o in watched]
        old_out, sys.stdout = sys.stdout, io.StringIO()
        ctx.count("requests that can't be met")
        ctx.count(f"request: {what}")
        try:
            with cpu_limit(cpu), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = func()
        except kinds:
            ctx.count("oracle judgements")
        except Exception as e:
            ctx.violate(f"{what}: {type(e).__name__}: {e}, not {kinds}")
        else:
            ctx.violate(f"{what}: not refused", got=got)
        finally:
            sys.stdout = old_out
        after = [reveal(o) if not isinstance(o, np.ndarray) else digest(o) for o in watched]
        for o, a, b in zip(watched, before, after):
            ctx.expect(same(a, b), f"{what}: changed a {type(o).__name__}", before=a, after=b)

    def other_shape(rng, m):
        """A number of variables that differs from m, neither of them 1."""
        while True:
            out = int(rng.integers(2, 8))
            if out != m:
                return out

    def shard(ctx, idx):
        rng = ctx.rng("c33", idx)
        for i in range(ctx.pick(60, 800)):
            m = int(rng.integers(2, 6))
            x = data(rng, m)
            k = other_shape(rng, m)
            y = data(rng, k)
            b = gen.biadj(rng, int(rng.integers(1, 4)), m)
            seed = int(rng.integers(1 << 40))
            word = str(rng.choice(["foo", "gaussian", "", "Gauss", "vae", "MLE", "dcov", "xi", "None"]))
            ctx.case(dict(variables=m, others=k, data=x, other=y, structure=b, word=word, seed=seed), True,
                     digest(x, y, seed))
            with ctx.guarded():
                new = lambda: np.random.default_rng(seed)
                # generation
                if word not in ("Gaussian", "VAE"):
                    refused(ctx, "unknown parameterization",
                            lambda: sa.mcm(parameterization=word, biadj=b, rng=new()), ValueError, [b])
                refused(ctx, "random neural model", lambda: sa.mcm(
                    parameterization="VAE", num_meas=m, rng=new()), NotImplementedError, [])
                refused(ctx, "random model of nothing", lambda: sa.mcm(rng=new()), Exception, [])
                refused(ctx, "unknown option of random model", lambda: sa.mcm(
                    rng=new(), num_meas=m, foo=1), TypeError, [])
                refused(ctx, "number of latents without pure children", lambda: sa.biadj(
                    m, one_pure_child=False, num_latent=int(rng.integers(1, m + 1)) * (-1) ** (i // 2), rng=new()),
                    ValueError, [])
                refused(ctx, "number of latents of random model without pure children", lambda: sa.mcm(
                    rng=new(), num_meas=m, one_pure_child=False, num_latent=(1, -1, m + 1)[i % 3]), ValueError, [])
                refused(ctx, "more latents than variables", lambda: sa.biadj(
                    m, num_latent=m + int(rng.integers(1, 4)), rng=new()), Exception, [])
                refused(ctx, "negative number of latents", lambda: sa.biadj(
                    m, num_latent=-int(rng.integers(1, 4)), rng=new()), Exception, [])
                # base class
                base = MedilCausalModel(biadj=b)
                refused(ctx, "fit of base class", lambda: base.fit(x), NotImplementedError, [x, b])
                refused(ctx, "sample of base class", lambda: base.sample(3), NotImplementedError, [b])
                # Gaussian models
                refused(ctx, "unknown option of model", lambda: GaussianMCM(foo=1), TypeError, [])
                for given in ({}, dict(biadj=b)):
                    model = GaussianMCM(rng=new(), **given)
                    refused(ctx, "sample before fitting", lambda: model.sample(int(rng.integers(1, 9))),
                            Exception, [b])
                model = GaussianMCM(biadj=b, rng=new())
                refused(ctx, "dataset of other variables than the structure", lambda: model.fit(y),
                        Exception, [y, b])
                u = gen.encode(gen.er(rng, m, 0.5), int(rng.integers(7)))
                model2 = GaussianMCM(udg=u, rng=new())
                refused(ctx, "dataset of other variables than the graph", lambda: model2.fit(y),
                        Exception, [y, u])
                # refused fits of fitted models
                with ctx.lib("fit"):
                    fitted = GaussianMCM(rng=new(), **[{}, dict(biadj=b), dict(udg=u)][i % 3]).fit(x)
                    twin = pickle.loads(pickle.dumps(fitted))
                params = fitted.parameters
                held = parameters_of(fitted)
                for what, func in (("refit to other variables", lambda: fitted.fit(y)),
                                   ("refit to text", lambda: fitted.fit(np.full((9, m), "a"))),
                                   ("negative size of sample", lambda: fitted.sample(-1))):
                    refused(ctx, what, func, Exception, [x, y, b, u])
                    ctx.expect(fitted.parameters is params or same(parameters_of(fitted), held), f"{what}: identity")
                    ctx.expect(same(parameters_of(fitted), held), f"{what}: changed the fitted parameters",
                               before=held, after=parameters_of(fitted))
                # failures of numerical routines while fitting again
                exc = (KeyboardInterrupt, MemoryError, np.linalg.LinAlgError, FloatingPointError)[i % 4]
                z = data(rng, m)

                def interrupted():
                    """Fitting again, interrupted in the optimizer."""
                    left = [int(rng.integers(1, 40))]

                    def tracer(frame, event, arg):
                        name = frame.f_code.co_filename
                        if event == "call" and ("scipy/optimize" in name or "numpy/linalg" in name):
                            left[0] -= 1
                            if left[0] == 0:
                                raise exc("injected")

                    sys.settrace(tracer)
                    try:
                        fitted.fit(z)
                    finally:
                        sys.settrace(None)
                    if left[0] > 0:  # finished before the failure
                        missed.append(1)
                        raise exc

                missed = []
                refused(ctx, "interruption of the optimizer", interrupted, exc, [x, z, b, u])
                if missed:
                    with ctx.lib("fit"):
                        twin.fit(z)
                else:
                    ctx.count("interruptions of fits")
                    ctx.expect(same(parameters_of(fitted), held), "interruption of the optimizer changed the "
                               "fitted parameters", before=held, after=parameters_of(fitted))
                with ctx.lib("sample"):
                    fitted.rng, twin.rng = new(), new()
                    ctx.expect(same(plain(fitted.sample(5)), plain(twin.sample(5))),
                               "samples after refused requests")
                    fitted.fit(z), twin.fit(z)
                ctx.expect(same(parameters_of(fitted), parameters_of(twin)), "fit after refused requests")
                for o, given in ((model, dict(biadj=b)), (model2, dict(udg=u))):
                    with ctx.lib("fit after a refused one"):
                        o.fit(x)
                        want = GaussianMCM(**given).fit(x)
                    ctx.expect(same(parameters_of(o), parameters_of(want)), "fit after a refused one",
                               got=parameters_of(o), expected=parameters_of(want))
                # penalized estimators
                dev = DevMedil(rng=new())
                if word not in ("mle", "lse"):
                    refused(ctx, "unknown penalized method", lambda: dev.fit(x, method=word), ValueError, [x])
                    refused(ctx, "sample by unknown method", lambda: dev.sample(3, method=word), ValueError, [])
                for method in ("mle", "lse"):
                    refused(ctx, "sample before penalized fit", lambda: dev.sample(3, method=method), ValueError, [])
                    refused(ctx, "validation before penalized fit",
                            lambda: getattr(dev, "validation_" + method)(0.1, 0.1, x), Exception, [x])
                if i % 4 == 0:
                    method = ("mle", "lse")[i // 4 % 2]
                    with ctx.lib("penalized fit"):
                        dev = DevMedil(rng=new()).fit(x[:, :2], method=method)
                    refused(ctx, "sample by another penalized method",
                            lambda: dev.sample(3, method=("lse", "mle")[i // 4 % 2]), ValueError, [dev])
                    refused(ctx, "validation on other variables", lambda: getattr(dev, "validation_" + method)(
                        0.1, 0.1, np.hstack((x, y[: len(x), :1] if len(y) >= len(x) else x[:, :1]))), Exception,
                        [dev, x])
                # independence tests
                for method in (word, "g-test"):
                    if method not in ("dcov_fast", "dcov_big", "xicor"):
                        refused(ctx, "unknown independence test", lambda: it.estimate_UDG(x, method=method),
                                Exception, [x])
                refused(ctx, "sequences of different lengths", lambda: it.xicorr(x[:, 0], y[: len(x) - 1, 0]
                        if len(y) >= len(x) - 1 else y[:, 0]), ValueError, [x, y])
                sizes = int(rng.integers(1, 12)), int(rng.integers(12, 30))
                for a, c in (sizes, sizes[::-1]):
                    refused(ctx, "sequences of different lengths", lambda: it.xicorr(
                        rng.normal(size=a), rng.integers(0, 5, c), ties=bool(i % 2)), ValueError, [])
                refused(ctx, "one-dimensional dataset", lambda: it.dcov(x[:, 0]), Exception, [x])
                refused(ctx, "one-dimensional dataset", lambda: it.estimate_UDG(x[:, 0]), Exception, [x])
                ctx.expect(not multiprocessing.active_children(), "processes left behind")
                # evaluation
                b2 = gen.biadj(rng, int(rng.integers(1, 4)), k)
                refused(ctx, "distance of structures over different variables", lambda: evaluate.sfd(b, b2),
                        Exception, [b, b2])
                r = int(rng.integers(1, 4))
                v, w = rng.normal(size=(r, m)), rng.normal(size=(r + int(rng.integers(1, 3)), m))
                w2 = rng.normal(size=(r, k))
                for f in (evaluate.min_perm_squared_l2_dist, evaluate.min_perm_squared_l2_dist_abs):
                    if r > 1:
                        refused(ctx, "more true than predicted latents", lambda: f(v, w), Exception, [v, w])
                    refused(ctx, "weights of different variables", lambda: f(v, w2), Exception, [v, w2])
                # neural models
                if i % 5 == 0:
                    neural_requests(ctx, rng, x, y, seed, i)
            if ctx.num_violations or ctx.out_of_time(150, 800):
                return

    def neural_requests(ctx, rng, x, y, seed, i):
        root = neural.fresh_dir(ctx)
        os.mkdir(root)
        with open(os.path.join(root, "file"), "w"):
            pass
        n, m = x.shape
        refused(ctx, "directory that can't be made", lambda: NeuroCausalFactorAnalysis(
            path=os.path.join(root, "file")), OSError, [])
        refused(ctx, "directory that can't be made", lambda: NeuroCausalFactorAnalysis(
            path=os.path.join(root, "no", "such", "directory")), OSError, [])
        model = NeuroCausalFactorAnalysis(seed=seed % 1000, path=os.path.join(root, "ncfa"))
        model.hyperparams.update(num_epochs=2, batch_size=16)
        refused(ctx, "sample of neural model", lambda: model.sample(3), NotImplementedError, [])
        with ctx.lib("fit"):
            model.fit(x)
        held = neural.fitted_state(model)

        def files():
            tree = neural.tree(root)
            return {k: v for k, v in tree.items() if not k.endswith(".log")}

        saved = files()
        bad = np.array(x)
        bad[int(rng.integers(n)), int(rng.integers(m))] = np.nan
        def changed(**kw):
            old = dict(model.hyperparams)
            model.hyperparams.update(kw)
            try:
                return model.fit(x)
            finally:
                model.hyperparams.clear()
                model.hyperparams.update(old)

        rows = np.arange(n)
        for what, func in (
            ("split with rows that don't exist", lambda: model.fit(x, split_idcs=[rows[:5], rows[5:] + 2])),
            ("split without validation", lambda: model.fit(x, split_idcs=[rows, rows[:0]])),
            ("split without training", lambda: model.fit(x, split_idcs=[rows[:0], rows])),
            ("split of one part", lambda: model.fit(x, split_idcs=[rows])),
            ("batches of size 0", lambda: changed(batch_size=0)),
            ("negative learning rate", lambda: changed(lr=-1)),
            ("missing values", lambda: model.fit(bad)),
            ("single observation", lambda: model.fit(x[:1])),
            ("one-dimensional dataset for training", lambda: model.fit(x[:, 0])),
            ("text for training", lambda: model.fit(np.full((n, m), "a"))),
        ):
            refused(ctx, what, func, Exception, [x, y], cpu=120)
            ctx.expect(neural.fitted_state(model) == held, f"{what}: changed the fitted model")
            now = files()
            ctx.expect(now == saved, f"{what}: changed saved files", before=list(saved), after=list(now))
            ctx.count("neural requests that can't be met")
        with ctx.lib("fit"):
            model.fit(x)
        ctx.expect(neural.fitted_state(model) == held, "training again after refused requests gives another result")

    ctx.shards(shard)
    ctx.require("requests that can't be met", 3000)
    ctx.require("interruptions of fits", 50)
    ctx.require("neural requests that can't be met", 100)


CHECKS = dict(C33=c33, C35=c35, C36=c36, C37=c37)
