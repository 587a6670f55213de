"""C38, C39, C40: resources, storage of arrays, and process-wide settings."""

import gc
import glob
import io
import json
import os
import pickle
import random
import signal
import subprocess
import sys
import tempfile
import threading
import time
import tracemalloc
import warnings
import weakref

import numpy as np

from . import gen, neural, programs
from .core import REPO, VERIF, Inconclusive, Skip, digest

# ---------------------------------------------------------------- C38


class NewCalls(programs.Calls):
    """Operations with new arguments each time."""

    def resembling(self, kind, new, symmetric=False):
        return new()

    def again(self, spec):
        return self.new()

    def named(self, name):
        self.names = (name,)
        return self.new()


def children():
    out = set()
    for path in glob.glob("/proc/self/task/*/children"):
        try:
            with open(path) as f:
                out |= set(f.read().split())
        except OSError:
            pass
    return out


def handles():
    """Open files, threads, child processes and files in the places for temporary ones."""
    gc.collect()
    fds = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        fds += 1
    return {
        "open files": fds,
        "threads": len(os.listdir("/proc/self/task")),
        "child processes": len(children()),
        "temporary files": sum(len(f) + len(d) for t in {os.getcwd(), tempfile.gettempdir()}
                               for _, d, f in os.walk(t)),
    }


class Nowhere(io.TextIOBase):
    """As what is printed would otherwise be kept."""

    def write(self, text):
        return len(text)


def memory():
    gc.collect()
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def c38(ctx):
    import torch
    from medil import independence_testing as it
    from medil.models import DevMedil, GaussianMCM
    from torch.optim import optimizer as optim

    ctx.rule = (
        "each of 19 operations (and fits of neural models, and tests failing in worker processes) "
        "repeated hundreds of times with new arguments; open files, threads, child processes, "
        "temporary files and allocated memory compared between stretches of calls, sizes of models "
        "between fits, and activations kept for differentiation between batches; non-trivial: all"
    )
    programs.import_all()

    def steady(ctx, what, func, warm, num, slack=20_000):
        """Runs func(i) often and judges the growth of what is in use."""
        i = 0
        sys.stdout = Nowhere()  # ctx.lib restores it
        gc.collect()
        for i in range(warm):
            func(i)
        seen = [(handles(), memory())]
        for _ in range(3):
            for i in range(i + 1, i + 1 + num):
                func(i)
            seen.append((handles(), memory()))
        ctx.count(f"calls: {what}", warm + 3 * num)
        for name in seen[0][0]:
            steps = [b[0][name] - a[0][name] for a, b in zip(seen, seen[1:])]
            ctx.expect(min(steps) <= 0, f"{what}: {name} accumulate", seen=[s[0][name] for s in seen],
                       calls=num)
        growth = [b[1] - a[1] for a, b in zip(seen, seen[1:])]
        ctx.high(f"growth of memory in bytes per call: {what}", min(growth) / num)
        ctx.expect(min(growth) <= slack, f"{what}: memory grows by {min(growth) / num:.0f} bytes per call",
                   growth=growth, calls=num)

    def quietly(spec):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return programs.call(*spec)

    def shard(ctx, idx):
        place = os.path.join(ctx.scratch, f"tmp-{idx}")
        os.mkdir(place)
        os.chdir(place)
        tempfile.tempdir = place
        rng = ctx.rng("c38", idx)
        tracemalloc.start()
        names = sorted(set(NewCalls.NAMES + ("penalized",)))
        for name in names[idx::8]:
            calls = NewCalls(rng, pools=False)
            num = ctx.pick(200, 500) if name not in ("gaussian", "penalized", "find_clique_min_cover") \
                else ctx.pick(60, 150)
            ctx.case(dict(operation=name, calls=num), True, name)
            with ctx.guarded():
                with ctx.lib(name, cpu=600):
                    steady(ctx, name, lambda i: quietly(calls.named(name)), num, num)

        # one and the same object used again and again
        def used_again(what, make, use, warm, num):
            ctx.case(dict(object=what, calls=num), True, digest(what, idx))
            with ctx.guarded():
                with ctx.lib(what, cpu=600):
                    obj = make()
                    sizes = []

                    def one(i):
                        use(obj, i)
                        if i in (warm - 1, warm + num - 1, warm + 2 * num - 1, warm + 3 * num - 1):
                            sizes.append(len(pickle.dumps(obj)))

                    steady(ctx, what, one, warm, num)
                grown = [b - a for a, b in zip(sizes, sizes[1:])]
                ctx.count("sizes of models compared", len(grown))
                ctx.expect(min(grown) <= num * 4, f"{what}: the saved model grows", sizes=sizes)

        x = gen.dataset(rng, 40, 3)[1]
        b = gen.biadj(rng, 2, 3, 0.5)
        n = ctx.pick(40, 120)
        if idx == 0:
            used_again("repeated fits of a Gaussian model", lambda: GaussianMCM(biadj=b),
                       lambda m, i: m.fit(x + i), n, n)
            used_again("repeated fits learning the structure", lambda: GaussianMCM(),
                       lambda m, i: m.fit(x + i), n, n)
        if idx == 1:
            used_again("repeated samples", lambda: GaussianMCM(rng=np.random.default_rng(0)).fit(x),
                       lambda m, i: m.sample(50), 2 * n, 4 * n)
        if idx == 2:
            for method in ("mle", "lse"):
                used_again(f"repeated penalized fits ({method})",
                           lambda: DevMedil(rng=np.random.default_rng(0)),
                           lambda m, i: m.fit(x[:, :2] + i, method=method).sample(20, method=method), 25, 25)
        if idx == 3:
            for method in ("xicor", "dcov_big"):
                ctx.case(dict(operation="estimate_UDG", method=method), True, method)
                with ctx.guarded():
                    with ctx.lib(f"estimate_UDG({method})", cpu=600):
                        steady(ctx, f"parallel tests ({method})",
                               lambda i: it.estimate_UDG(x + i, method=method), 5, ctx.pick(10, 30), 30_000)
        if idx == 4:
            originals = {name: getattr(it, name) for name in ("_xicorr", "xicorr") if hasattr(it, name)}
            marked = x[:, 1].copy()

            def failing(original):
                def func(*args, **kw):
                    if len(args) > 1 and np.array_equal(np.ravel(args[1]), marked):
                        raise MemoryError("injected")
                    return original(*args, **kw)

                return func

            kept = []  # like a debugger or an interactive session does

            def attempt(i):
                before = children()
                try:
                    it.estimate_UDG(x, method="xicor")
                except MemoryError as e:
                    kept[:] = [e]
                    ctx.count("failures in workers")
                end = time.time() + 10
                while children() - before and time.time() < end:
                    time.sleep(0.05)
                ctx.expect(not children() - before, "processes are left after a failed test")
                if i % 2:
                    kept.clear()

            for name, original in originals.items():
                setattr(it, name, failing(original))
            try:
                ctx.case(dict(operation="estimate_UDG", fails=True), True, "failing")
                with ctx.guarded():
                    with ctx.lib("estimate_UDG", cpu=600):
                        steady(ctx, "parallel tests failing", attempt, 6, ctx.pick(10, 30), 30_000)
                        kept.clear()
            finally:
                for name, original in originals.items():
                    setattr(it, name, original)
        tracemalloc.stop()

        # neural training
        held = set()
        marks = []

        class Kept:
            def __init__(self, tensor):
                self.tensor = tensor.detach()  # or else outputs and their nodes would refer to each other
                held.add(id(self))
                weakref.finalize(self, held.discard, id(self))

        def after(optimizer, args, kwargs):
            marks.append((len(held), len(os.listdir("/proc/self/fd"))))

        for i in range(ctx.pick(3, 12)):
            cfg = neural.config(rng, 8 * i + idx)
            cfg["split"] = None
            epochs = int(rng.integers(3, 8))
            cfg["hyper"].update(num_epochs=epochs, batch_size=max(3, cfg["n"] // 12))
            ctx.case(neural.info_of(cfg), True)
            with ctx.guarded():
                with ctx.lib("NeuroCausalFactorAnalysis"):
                    model = neural.new_model(cfg, neural.fresh_dir(ctx))
                held.clear()
                marks.clear()
                handle = optim.register_optimizer_step_post_hook(after)
                try:
                    with torch.autograd.graph.saved_tensors_hooks(Kept, lambda k: k.tensor):
                        neural.fit(ctx, model, cfg)
                finally:
                    handle.remove()
                gc.collect()
                ctx.count("optimizer steps observed", len(marks))
                ctx.need(len(marks) > 2 * epochs, "too few optimizer steps")
                for k, what in enumerate(("activations kept for differentiation", "open files")):
                    v = np.array([m[k] for m in marks], float)
                    # batches may differ in size, but not in the number of operations
                    ctx.high(what, v.max())
                    ctx.expect(v[1:].max() <= v[1] + 3, f"{what} accumulate during training",
                               first=v[:10], largest=v.max())
                left = held.copy()
                ctx.expect(not left, f"{len(left)} activations kept after training")

        if idx >= 5:
            cfg = neural.config(rng, 2)
            cfg.update(split=None, x=gen.dataset(rng, 30, 3)[1], n=30, m=3)
            cfg["hyper"].update(num_epochs=2, batch_size=10)
            count = ctx.pick(12, 30)

            def tensors():
                gc.collect()
                return sum(issubclass(type(o), torch.Tensor) for o in gc.get_objects())

            ctx.case(dict(operation="repeated training", again=idx == 5), True, digest(idx))
            with ctx.guarded():
                path = neural.fresh_dir(ctx)
                with ctx.lib("NeuroCausalFactorAnalysis"):
                    model = neural.new_model(cfg, path)
                seen, sizes, models = [], [], []
                for r in range(3):
                    for _ in range(count):
                        if idx != 5:  # a new model each time
                            with ctx.lib("NeuroCausalFactorAnalysis"):
                                model = neural.new_model(cfg, path)
                        neural.fit(ctx, model, cfg)
                        if idx == 6:  # all models are kept, and keep their parameters, but nothing open
                            models.append(model)
                    seen.append(dict(handles(), tensors=tensors() if idx != 6 else 0))
                    sizes.append(sum(os.path.getsize(os.path.join(path, f)) for f in os.listdir(path)
                                     if f != "training.log"))
                ctx.count("repeated trainings", 3 * count)
                for name in seen[0]:
                    steps = [b[name] - a[name] for a, b in zip(seen, seen[1:])]
                    ctx.expect(min(steps) <= 0, f"repeated training: {name} accumulate",
                               seen=[s[name] for s in seen])
                ctx.expect(min(np.diff(sizes)) <= 64, "repeated training: artifacts grow", sizes=sizes)

    ctx.shards(shard)
    for name in set(NewCalls.NAMES):
        ctx.require(f"calls: {name}", 50)
    ctx.require("failures in workers", 10)
    ctx.require("optimizer steps observed", 200)
    ctx.require("repeated trainings", 20)


# ---------------------------------------------------------------- C39


def storages(rng, a):
    """The same values, stored in other ways: {name: array}."""
    out = {}
    a = np.array(a)
    ro = a.copy()
    ro.flags.writeable = False
    out["read-only"] = ro
    out["other byte order"] = a.astype(a.dtype.newbyteorder())
    raw = np.zeros(a.nbytes + 1, np.uint8)
    odd = raw[1:].view(a.dtype).reshape(a.shape) if a.size else a.copy()
    odd[...] = a
    out["unaligned"] = odd
    out["Fortran order"] = np.asfortranarray(a)
    big = np.zeros([2 * s + 1 for s in a.shape], a.dtype)
    part = big[tuple(slice(1, 2 * s + 1, 2) for s in a.shape)]
    part[...] = a
    out["every other entry"] = part
    back = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])
    out["backwards"] = back[tuple(slice(None, None, -1) for _ in a.shape)]
    if a.ndim == 2 and a.shape[1]:
        wide = np.full((a.shape[0], a.shape[1] + 2), a.ravel()[0] if a.size else 0, a.dtype)
        wide[:, 1:-1] = a
        out["columns of a wider array"] = wide[:, 1:-1]
    return out


def types_of(a, structure):
    """Other types representing exactly the same numbers: {name: array}."""
    out = {}
    kinds = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64,
             np.float32, np.float64]
    if structure:
        kinds.append(bool)
    for t in kinds:
        with np.errstate(all="ignore"):
            b = a.astype(t)
        if t != a.dtype and np.array_equal(b.astype(float), a.astype(float)):
            out[np.dtype(t).name] = b
    return out


def loosely(a, b, rtol):
    """Equal numbers, up to rounding and whatever their types."""
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(
            loosely(p, q, rtol) for p, q in zip(a, b))
    if a is None or isinstance(a, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "biu" and b.dtype.kind in "biu":
        return bool(np.array_equal(a.astype(int), b.astype(int)))
    a, b = a.astype(float), b.astype(float)
    tol = rtol * (np.abs(a[np.isfinite(a)]).max(initial=0) + 1e-300) + 1e-13 * (a.ndim == 0)
    return bool(np.allclose(a, b, rtol=rtol, atol=tol, equal_nan=True))


def c39(ctx):
    from medil.models import GaussianMCM

    ctx.rule = (
        "random operations with arrays stored in 7 ways (read-only, other byte order, unaligned, "
        "column by column, strided, backwards, part of a wider array) and as other types with the "
        "same numbers, compared with ordinary arrays; non-trivial: all"
    )
    programs.import_all()
    # the operations and which of their arguments are structures or graphs, data, or weights
    data_ops = ("gaussian", "penalized", "dcov", "estimate_UDG", "xicorr")
    weight_ops = ("min_perm", "min_perm_abs", "sample")

    def misfit(x, w, d):
        """The least squares criterion, relative to the sample covariance."""
        s = np.cov(np.array(x, float), rowvar=False).reshape(len(d), len(d))
        return ((s - w.T @ w - np.diag(d)) ** 2).sum() / ((s**2).sum() + 1e-300)

    def outcome(spec):
        name, args, kw = spec
        if name != "gaussian":
            return programs.outcome(*spec)
        # the optimizer is too sensitive to rounding errors to compare individual weights
        try:
            kw = dict(kw)
            seed, n = kw.pop("seed"), kw.pop("n")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                model = GaussianMCM(rng=np.random.default_rng(seed), **kw).fit(*args)
            p = model.parameters
            w = np.asarray(p.biadj_weights)
            return "ok", (np.asarray(model.biadj).astype(bool), np.asarray(model.udg).astype(bool),
                          np.asarray(p.error_means), w != 0,
                          [("loose", misfit(args[0], w, p.error_variances), np.shape(model.sample(n)))])
        except Exception as e:
            return "raised", f"{type(e).__name__}: {e}"

    def equal(a, b, rtol):
        if a[0] != b[0]:
            return False
        if a[0] == "raised":
            return a[1].split(":")[0] == b[1].split(":")[0]
        x, y = a[1], b[1]
        if isinstance(x, tuple) and x and isinstance(x[-1], list):
            x, u = x[:-1], x[-1][0]
            y, v = y[:-1], y[-1][0]
            # rounding errors may lead the optimizer to another of equally good minima
            return loosely(x, y, rtol) and abs(u[1] - v[1]) <= max(rtol, 1e-2) and u[2] == v[2]
        return loosely(x, y, rtol)

    def shard(ctx, idx):
        rng = ctx.rng("c39", idx)
        calls = NewCalls(rng)
        names = sorted(set(NewCalls.NAMES + ("penalized",)) - {"biadj"})
        for i in range(ctx.pick(170, 2400)):
            name = names[i % len(names)]
            if name == "penalized" and i % 3:
                continue
            spec = calls.named(name)
            name, args, kw = spec
            method = kw.get("method")
            if isinstance(method, str) and method in ("xicor", "dcov_big") and i % 4:
                kw = dict(kw, method="dcov_fast")
            args = [np.array(a) if isinstance(a, np.ndarray) else a for a in args]
            integral = name in data_ops and name != "penalized" and i % 2
            if integral:  # whole numbers, still without many ties
                lo, hi = ((-100, 100), (0, 250))[i // 2 % 2]
                first = args[0]
                if name == "xicorr":
                    perm = rng.permutation(max(200, len(first)))[: len(first)]
                    args = [(perm + lo).astype(float), np.round(
                        np.clip(args[1] / (np.abs(args[1]).max() + 1e-9), -1, 1) * (hi - lo) / 2 + (hi + lo) / 2)]
                else:
                    span = np.ptp(first, axis=0) + 1e-9
                    args[0] = np.round((first - first.min(0)) / span * (hi - lo)) + lo
                ctx.count("datasets of whole numbers")
            arrays = [("args", k) for k, a in enumerate(args) if isinstance(a, np.ndarray)]
            arrays += [("kw", k) for k, a in kw.items() if isinstance(a, np.ndarray)]
            if not arrays:
                continue
            with ctx.guarded():
                ctx.case(programs.show((name, args, kw)), True, digest(repr((name, args, kw))))
                with ctx.lib(name):
                    want = outcome((name, [np.array(a) if isinstance(a, np.ndarray) else a for a in args],
                                    {k: np.array(a) if isinstance(a, np.ndarray) else a for k, a in kw.items()}))
                variants = []
                for where, k in arrays:
                    a = args[k] if where == "args" else kw[k]
                    structure = not (name in weight_ops and a.dtype.kind == "f") and (
                        where == "kw" and k in ("biadj", "udg") or
                        where == "args" and name not in data_ops + weight_ops)
                    many = storages(rng, a)
                    for form, v in many.items():
                        variants.append((where, k, form, v))
                    if structure or name in data_ops and where == "args":
                        for form, v in types_of(a, structure).items():
                            variants.append((where, k, form, v))
                        if i % 2:
                            for form, v in types_of(np.asfortranarray(a), structure).items():
                                variants.append((where, k, form + ", Fortran order", v))
                keep = rng.permutation(len(variants))[: ctx.pick(9, 14)]
                for where, k, form, v in (variants[q] for q in keep):
                    if name == "penalized" and ("order" in form and "byte" not in form or form in (
                            "every other entry", "backwards", "columns of a wider array")):
                        continue  # other rounding errors, to which the optimizer is sensitive
                    new_args, new_kw = list(args), dict(kw)
                    (new_args if where == "args" else new_kw)[k] = v
                    ctx.case_info = dict(programs.show((name, args, kw)), stored=[where, k, form])
                    before = digest(np.array(v))
                    with ctx.lib(name):
                        got = outcome((name, new_args, new_kw))
                    ctx.expect(digest(np.array(v)) == before, "an array was changed")
                    # single precision numbers may be computed with in single precision
                    rtol = 1e-4 if "float32" in form or v.dtype == np.float32 else 1e-7
                    if name == "penalized":
                        rtol = max(rtol, 1e-6)
                    ctx.count(f"results compared: {name}")
                    ctx.count(f"results compared: {form.split(',')[0]}")
                    ctx.expect(equal(got, want, rtol),
                               f"{name}: another result if argument {k} is stored as {form}",
                               got=got, expected=want)
            if ctx.out_of_time(150, 800):
                return

    ctx.shards(shard)
    for name in ("read-only", "other byte order", "unaligned", "Fortran order", "every other entry",
                 "backwards", "columns of a wider array", "uint8", "int8", "int64", "float32", "bool"):
        ctx.require(f"results compared: {name}", 20)


# ---------------------------------------------------------------- C40


def random_states():
    import torch

    return dict(
        python=digest(random.getstate()),
        numpy=digest(*[np.asarray(p) for p in np.random.get_state()[1:]]),
        torch=digest(torch.get_rng_state()),
    )


def settings():
    import locale
    import logging
    import matplotlib
    import multiprocessing
    import pandas
    import torch

    out = dict(
        numpy_errors=np.geterr(), numpy_errcall=repr(np.geterrcall()),
        numpy_printing=repr(np.get_printoptions()), numpy_bufsize=np.getbufsize(),
        warning_filters=repr(warnings.filters), show_warning=repr(warnings.showwarning),
        torch_dtype=str(torch.get_default_dtype()), torch_grad=torch.is_grad_enabled(),
        torch_inference=torch.is_inference_mode_enabled(), torch_threads=torch.get_num_threads(),
        torch_deterministic=torch.are_deterministic_algorithms_enabled(),
        torch_anomaly=torch.is_anomaly_enabled(), torch_device=str(torch.get_default_device()),
        torch_precision=torch.get_float32_matmul_precision(),
        torch_denormal=float(torch.tensor(1e-40) * 1) != 0,
        torch_cudnn=(torch.backends.cudnn.benchmark, torch.backends.cudnn.deterministic),
        matplotlib={k: repr(v) for k, v in matplotlib.rcParams.items()},
        pandas=[repr(pandas.get_option(o)) for o in ("display.max_rows", "display.precision",
                                                      "mode.chained_assignment", "display.max_columns")],
        recursion=sys.getrecursionlimit(), path=list(sys.path), cwd=os.getcwd(),
        environment=dict(os.environ), locale=locale.setlocale(locale.LC_ALL),
        log_level=logging.getLogger().level, log_handlers=len(logging.getLogger().handlers),
        log_disabled=logging.root.manager.disable,
        stdout=id(sys.stdout), stderr=id(sys.stderr), excepthook=id(sys.excepthook),
        trace=repr(sys.gettrace()), profile=repr(sys.getprofile()), switch=sys.getswitchinterval(),
        gc=(gc.isenabled(), gc.get_threshold()), start_method=multiprocessing.get_start_method(True),
        signals={s: repr(signal.getsignal(s)) for s in (
            signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGCHLD, signal.SIGUSR1,
            signal.SIGPIPE)},
        alarm=signal.getitimer(signal.ITIMER_REAL), threads=threading.active_count(),
        thread_hook=id(threading.excepthook), priority=os.getpriority(os.PRIO_PROCESS, 0),
        affinity=sorted(os.sched_getaffinity(0)),
    )
    mask = os.umask(0o22)
    os.umask(mask)
    out["umask"] = mask
    return out


PREIMPORT = """
import sys, os, json, io
sys.path[:0] = [%r, %r]
import numpy, scipy.stats, scipy.optimize, scipy.linalg, scipy.spatial.distance, torch, pandas
import matplotlib, matplotlib.pyplot, seaborn, networkx, dcor, dcor.independence, multiprocessing.pool
import sklearn.model_selection, sklearn.preprocessing, torch.utils.data, locale, logging, subprocess
import importlib
from mon import ambient
a = [ambient.settings(), ambient.random_states()]
importlib.import_module(sys.argv[1])
b = [ambient.settings(), ambient.random_states()]
diff = [(k, repr(x[k])[:300], repr(y[k])[:300]) for x, y in zip(a, b) for k in x if x[k] != y[k]]
print(json.dumps(dict(diff=diff, files=os.listdir("."))))
"""


def use_torch():
    """Some of torch is imported on first use, which changes the environment."""
    import torch
    from torch.utils.data import DataLoader, TensorDataset

    with torch.random.fork_rng(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lin = torch.nn.Linear(2, 2)
        opt = torch.optim.AdamW(lin.parameters())
        sched = torch.optim.lr_scheduler.StepLR(opt, 1)
        for (v,) in DataLoader(TensorDataset(torch.ones(4, 2)), batch_size=2):
            loss = lin(v).norm("nuc") + torch.logdet(torch.eye(2)) + torch.linalg.norm(v, ord=2)
            opt.zero_grad()
            loss.backward()
            opt.step()
            sched.step()
        torch.save(lin, io.BytesIO())


def c40(ctx):
    import matplotlib

    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    import seaborn  # noqa: so that it isn't imported in between
    import torch
    from medil import visualize
    from medil.ecc_algorithms import find_clique_min_cover, find_heuristic_1pc
    from medil.evaluate import min_perm_squared_l2_dist, sfd
    from medil.independence_testing import estimate_UDG, xicorr
    from medil.models import DevMedil, GaussianMCM, MedilCausalModel
    from medil.sample import biadj, mcm

    ctx.rule = (
        "random operations, operations on inputs that are special cases, plots, trainings, refused requests and trainings interrupted at random "
        "points; about fifty process-wide settings and the states of global random generators (except "
        "in neural training, which seeds them) compared before and after each, also around importing "
        "each module in a new interpreter; non-trivial: all"
    )
    programs.import_all()
    use_torch()
    # settings as a user might have them, so that they can't be restored by accident to defaults
    odd = dict(over="ignore", under="warn")

    def shard(ctx, idx):
        rng = ctx.rng("c40", idx)
        calls = NewCalls(rng)
        unusual = idx % 2
        if unusual:
            np.seterr(**odd)
            np.set_printoptions(precision=3, threshold=17)
            matplotlib.rcParams["lines.linewidth"] = 0.7
            matplotlib.rcParams["font.size"] = 7.5
            sys.setrecursionlimit(3333)
            sys.setswitchinterval(0.004)
            gc.set_threshold(650, 9, 9)
            torch.set_flush_denormal(False)
            os.environ["SOME_SETTING"] = "x"
            for name in ("OMP", "OPENBLAS", "MKL", "NUMEXPR"):
                os.environ[name + "_NUM_THREADS"] = "2"
            os.environ.update(PYTHONWARNINGS="ignore", PYTHONHASHSEED="3", CUDA_VISIBLE_DEVICES="-1")
            signal.signal(signal.SIGUSR1, signal.SIG_IGN)
            for number in (signal.SIGINT, signal.SIGHUP):
                signal.signal(number, lambda *args: None)

        def judged(what, func, neural_=False, refused=()):
            with ctx.lib(what, cpu=300):
                if unusual:
                    warnings.simplefilter("default")
                    warnings.filterwarnings("ignore")
                random.seed(int(rng.integers(1 << 30)))
                np.random.seed(int(rng.integers(1 << 30)))
                torch.manual_seed(int(rng.integers(1 << 30)))
                before, states = settings(), random_states()
                try:
                    func()
                    raised = None
                except refused as e:
                    raised = e
                after, states2 = settings(), random_states()
            ctx.count("operations judged")
            ctx.count("refused or interrupted operations", raised is not None)
            for key in before:
                ctx.expect(before[key] == after[key], f"{what} changed a setting: {key}",
                           before=before[key], after=after[key])
            for key in states:
                if not neural_ or key == "python":
                    ctx.expect(states[key] == states2[key], f"{what} used the global generator of {key}")

        def plots():
            m = int(rng.integers(1, 6)) if rng.random() < 0.7 else int(rng.integers(6, 25))
            b = gen.biadj(rng, int(rng.integers(1, 5)), m, 0.5)
            mine = [plt.figure().number for _ in range(2)]
            drawings = [lambda: visualize.show_dag(b), lambda: visualize.show_obs_adj_mat(b.astype(int)),
                        lambda: visualize.show_obs_dcor_mat(rng.random((m, m)))]
            for k in rng.permutation(3):
                drawings[k]()
                ctx.expect(all(plt.fignum_exists(f) for f in mine), "figures of the user were closed", plot=k)
            visualize.show_dag(b)
            visualize.show_obs_adj_mat(b.astype(int))
            visualize.show_obs_dcor_mat(rng.random((m, m)), *((0.5,) if rng.random() < 0.5 else ()),
                                        print_val=bool(rng.integers(2)))
            if rng.random() < 0.3:
                visualize.show_pairwise_plot(rng.normal(size=(1010 if rng.random() < 0.3 else 20, 2)))

        x = gen.dataset(rng, 30, 3)[1]

        def misfit():
            GaussianMCM(biadj=np.ones((2, 5), bool)).fit(x)

        def failing_worker():
            """Values that can't be compared, which only the worker processes notice."""
            estimate_UDG(np.array([["a", None, 1.5]] * 4, dtype=object), method="xicor")

        def unusual_inputs():
            """Operations on the inputs that their special cases are for."""
            n = int(rng.integers(2, 30))
            m = int(rng.integers(2, 5))
            y = rng.normal(size=(n, m))
            y[:, 0] = 3.0
            flat = np.full(n, 2.0)
            found = gen.structured(rng, 12, 25)[1]
            big = rng.normal(size=(m, 9)) * 10.0 ** rng.integers(100, 200)
            yield "xi correlation with a constant", lambda: xicorr(rng.normal(size=n), flat)
            yield "xi correlation of constants", lambda: xicorr(flat, flat, ties=bool(n % 2))
            yield "xi correlation of two pairs", lambda: xicorr([1, 2], [2, 1])
            yield "xi correlation of nothing", lambda: xicorr([], [])
            yield "dependences with a constant", lambda: estimate_UDG(y)
            yield "dependences with a constant", lambda: estimate_UDG(y, method="xicor")
            yield "fit with a constant", lambda: GaussianMCM().fit(y)
            yield "fit of two observations", lambda: GaussianMCM(biadj=np.ones((1, m), bool)).fit(y[:2])
            yield "fit of huge values", lambda: GaussianMCM(biadj=np.ones((1, 9), bool)).fit(big)
            yield "cover of no edges", lambda: find_clique_min_cover(np.eye(n, dtype=int))
            yield "cover of one vertex", lambda: find_clique_min_cover(np.ones((1, 1), int))
            yield "cover of a complete graph", lambda: find_clique_min_cover(np.ones((n, n), int))
            yield "cover of a bigger graph", lambda: find_clique_min_cover(gen.induced(found).astype(int))
            yield "heuristic for a bigger graph", lambda: find_heuristic_1pc(gen.induced(found))
            yield "distances of bigger structures", lambda: sfd(found, found[1:])
            yield "random structures", lambda: biadj(25, density=0.1, rng=np.random.default_rng(n))
            yield "many observations", lambda: estimate_UDG(rng.normal(size=(1500, 3)))
            yield "many variables", lambda: GaussianMCM().fit(rng.normal(size=(60, 25)))
            yield "matching of seven latents", lambda: min_perm_squared_l2_dist(y[:1].repeat(7, 0), y[:2])

        def hard_graph():
            """Mostly one for which the search for a minimum cover is cut short."""
            adj = np.triu(rng.random((16, 16)) < 0.7, 1)
            find_clique_min_cover((adj | adj.T).astype(int))

        refusals = [
            lambda: xicorr(x[:, 0], x[:-1, 1]), lambda: biadj(4, one_pure_child=False, num_latent=2),
            lambda: mcm(biadj=np.ones((1, 2), bool), parameterization="other"), misfit, failing_worker,
            lambda: mcm(biadj=np.ones((1, 2), bool), parameterization="VAE"),
            lambda: estimate_UDG(x, method="unknown"), lambda: DevMedil().fit(x, method="other"),
            lambda: DevMedil().sample(3), lambda: MedilCausalModel().fit(x),
            lambda: min_perm_squared_l2_dist(x[:2], x[:3]), lambda: GaussianMCM().sample(2),
        ]
        if idx == 7:  # with another way to start processes
            import multiprocessing

            multiprocessing.set_start_method("spawn", force=True)
            for method in ("xicor", "dcov_big"):
                ctx.case(dict(start_method="spawn", method=method), True, digest("spawn", method))
                with ctx.guarded():
                    judged("parallel tests", lambda: estimate_UDG(x, method=method))
            multiprocessing.set_start_method("fork", force=True)
        for i in range(ctx.pick(110, 1500)):
            with ctx.guarded():
                if i % 30 == 4:
                    for what, func in unusual_inputs():
                        ctx.case(dict(unusual=what), True, digest(what, i, idx))
                        judged(what, func, refused=(Exception,))
                        ctx.count("unusual inputs judged")
                elif i % 60 == 11:
                    ctx.case(dict(hard_graph=i), True, digest("hard", i, idx))
                    judged("cover of a hard graph", hard_graph)
                elif i % 10 < 6:
                    spec = calls()
                    ctx.case(programs.show(spec), True, digest(repr(spec), i))
                    judged(spec[0], lambda: programs.call(*spec), refused=(Exception,))
                elif i % 10 == 6:
                    ctx.case(dict(plots=i), True, digest("plots", i, idx))
                    judged("plotting", plots)
                    plt.close("all")
                    ctx.count("plots judged")
                elif i % 10 == 7:
                    k = int(rng.integers(len(refusals)))
                    ctx.case(dict(refusal=k), True, digest("refusal", k))
                    judged("refused request", refusals[k], refused=(Exception,))
                else:
                    cfg = neural.config(rng, i + idx)
                    cfg["hyper"]["num_epochs"] = 2
                    inject = {}
                    if i % 20 > 9:
                        exc = (KeyboardInterrupt, MemoryError, RuntimeError, SystemExit)[int(rng.integers(4))]
                        inject = {(("encode", "step")[i % 2], int(rng.integers(1, 9))): exc("injected")}
                    ctx.case(dict(neural.info_of(cfg), interrupted=repr(inject)), True)

                    def train():
                        model = neural.new_model(cfg, neural.fresh_dir(ctx), verbose=bool(i % 3 == 0))
                        with neural.Trace(inject=inject):
                            model.fit(cfg["x"], *(() if cfg["split"] is None else (cfg["split"],)))

                    judged("neural training", train, neural_=True, refused=(
                        KeyboardInterrupt, MemoryError, RuntimeError, SystemExit) if inject else ())
                    ctx.count("trainings judged")
            if ctx.out_of_time(150, 800):
                return

    ctx.shards(shard)

    # importing modules, each in a new interpreter
    mods = sorted(p.stem for p in (REPO / "medil").glob("*.py"))
    env = dict(os.environ, MPLBACKEND="Agg")
    procs = []
    for mod in mods:
        place = os.path.join(ctx.scratch, "import-" + mod)
        os.mkdir(place)
        name = "medil" if mod == "__init__" else "medil." + mod
        procs.append((name, place, subprocess.Popen(
            [sys.executable, "-c", PREIMPORT % (str(REPO), str(VERIF)), name], cwd=place, env=env,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    for name, place, proc in procs:
        out, err = proc.communicate(timeout=600)
        ctx.case(dict(imported=name), True, name)
        lines = out.strip().splitlines()
        if proc.returncode:
            ctx.expect("Error" not in err or name not in err and "medil" not in err,
                       f"{name} can't be imported", error=err[-1500:])
            if not ctx.num_violations:
                raise Inconclusive("importing: " + err[-1500:])
            continue
        res = json.loads(lines[-1])
        ctx.count("imports judged")
        ctx.expect(len(lines) == 1, f"importing {name} prints something", printed=lines[:-1])
        ctx.expect(not res["diff"], f"importing {name} changes settings", changed=res["diff"])
        ctx.expect(not res["files"], f"importing {name} creates files", files=res["files"])
    ctx.require("imports judged", 5)
    ctx.require("operations judged", 300)
    ctx.require("refused or interrupted operations", 30)
    ctx.require("plots judged", 20)
    ctx.require("unusual inputs judged", 300)
    ctx.require("trainings judged", 50)


CHECKS = dict(C38=c38, C39=c39, C40=c40)
