"""C31, C32: monitors that apply to all operations of the library."""

import contextlib
import inspect
import io
import os
import pkgutil
import sys
import warnings

import numpy as np

from . import gen, neural
from .core import Skip, digest

# ---------------------------------------------------------------- C31


@contextlib.contextmanager
def sanitized(ctx, what, **witness):
    """Floating-point faults of numpy (divide, overflow, invalid) are raised where they happen,
    numerical warnings are errors, backward passes of torch are checked for NaN, and what modules
    of torch compute has to be finite."""
    import torch
    from torch.nn.modules import module

    def finite(mod, args, out):
        for o in out if isinstance(out, tuple) else (out,):
            ctx.count("torch outputs checked")
            if isinstance(o, torch.Tensor) and not bool(torch.isfinite(o).all()):
                raise FloatingPointError(f"non-finite output of {type(mod).__name__}")

    handle = module.register_module_forward_hook(finite)
    old_out = sys.stdout
    try:
        sys.stdout = io.StringIO()
        with np.errstate(divide="raise", over="raise", invalid="raise"):
            with torch.autograd.set_detect_anomaly(True, check_nan=True):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    warnings.filterwarnings("error", category=RuntimeWarning)
                    yield
        ctx.count(f"sanitized: {what}")
        ctx.count("oracle judgements")
    except (Skip, MemoryError):
        raise
    except Exception as e:
        import traceback

        ctx.violate(f"{what}: {type(e).__name__}: {e}", traceback=traceback.format_exc(limit=-5), **witness)
        raise Skip
    finally:
        handle.remove()
        sys.stdout = old_out


def finite(ctx, what, *arrays, **witness):
    for a in arrays:
        a = np.asarray(a)
        ctx.count("arrays checked for finiteness")
        ctx.expect(bool(np.isfinite(a).all()), f"{what} isn't finite", got=a, **witness)


def c31(ctx):
    from medil.ecc_algorithms import find_clique_min_cover, find_heuristic_1pc
    from medil.evaluate import min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs, sfd
    from medil.independence_testing import dcov, estimate_UDG, xicorr
    from medil.models import DevMedil, GaussianMCM
    from medil.sample import biadj, mcm

    ctx.rule = (
        "datasets of 6 to 300 observations of 2 to 8 variables at common scales 1e-6 to 1e6 with "
        "offsets up to some 1e7 standard deviations through all operations, and some of up to 300 variables, floating-point faults trapped; "
        "non-trivial: scale other than 1 or an offset"
    )

    def shard(ctx, idx):
        rng = ctx.rng("c31", idx)
        for i in range(ctx.pick(24, 320)):
            m = int(rng.integers(2, 9))
            n = int(rng.integers(6, 30)) if i % 3 else int(rng.integers(30, 300))
            kind, x = gen.dataset(rng, n, m)
            scale = 10.0 ** rng.integers(-6, 7)
            offset = rng.choice([0, 1, 100, 1e4, 1e7]) * rng.normal(size=m)
            x = (x + offset) * scale
            ctx.case(dict(kind=kind, n=n, m=m, scale=scale, offset=offset, data=x),
                     scale != 1 or offset.any(), digest(x))
            with ctx.guarded():
                with sanitized(ctx, "GaussianMCM.fit"):
                    model = GaussianMCM(rng=np.random.default_rng(i)).fit(x)
                p = model.parameters
                finite(ctx, "parameters", p.biadj_weights, p.error_means, p.error_variances)
                with sanitized(ctx, "GaussianMCM.sample"):
                    y = model.sample(20)
                finite(ctx, "sample", y)
            with ctx.guarded():
                with sanitized(ctx, "GaussianMCM.fit with structure"):
                    b = gen.biadj(rng, int(rng.integers(1, 5)), m)
                    model = GaussianMCM(biadj=b, rng=np.random.default_rng(i)).fit(x)
                p = model.parameters
                finite(ctx, "parameters", p.biadj_weights, p.error_means, p.error_variances)
            with ctx.guarded():
                with sanitized(ctx, "dcov"):
                    cov, d_bars = dcov(x)
                finite(ctx, "distance covariance", cov, d_bars)
                with sanitized(ctx, "estimate_UDG dcov_fast"):
                    estimate_UDG(x, significance_level=float(rng.choice([0.01, 0.05, 0.5])))
            with ctx.guarded():
                with sanitized(ctx, "xicorr"):
                    res = [xicorr(x[:, a], x[:, b], ties=t) for a, b in ((0, 1), (1, 0)) for t in (True, False)]
                finite(ctx, "xi correlation and p-value", np.array([tuple(r) for r in res], float))
                rounded = np.round(x / scale)  # ties
                if len(np.unique(rounded[:, 1])) > 1:
                    with sanitized(ctx, "xicorr with ties"):
                        r = xicorr(rounded[:, 0], rounded[:, 1])
                    finite(ctx, "xi correlation and p-value", np.array(tuple(r), float))
            if i % 6 == 0:
                for method in ("xicor", "dcov_big"):
                    with ctx.guarded():
                        with sanitized(ctx, f"estimate_UDG {method}"):
                            udg, p = estimate_UDG(x[:, :4], method=method)
                        finite(ctx, "p-values", p)
            if i % 3 == 0:
                with ctx.guarded():
                    opts = dict(num_meas=m, density=float(rng.random()))
                    if m > 2 and i % 2:
                        opts["one_pure_child"] = False
                    with sanitized(ctx, "mcm"):
                        model = mcm(rng=np.random.default_rng(i), **opts)
                        y = model.sample(10)
                    p = model.parameters
                    finite(ctx, "random model", p.biadj_weights, p.error_means, p.error_variances, y)
                    with sanitized(ctx, "structure learning"):
                        g = gen.graph(rng, 1, 9)[1]
                        a, b = find_heuristic_1pc(g.copy()), find_clique_min_cover(g.copy())
                        d = sfd(np.asarray(a).astype(bool), np.asarray(b).astype(bool))
                    finite(ctx, "distance", np.array(d, float))
                    with sanitized(ctx, "permutation distances"):
                        k = int(rng.integers(1, 5))
                        v, w = (rng.normal(size=(k, m)) * scale for _ in range(2))
                        d = [min_perm_squared_l2_dist(v, w), min_perm_squared_l2_dist_abs(v, w)]
                    finite(ctx, "distance", np.array([q[1] for q in d]))
            if i % 4 == 1:
                with ctx.guarded():
                    method = ("mle", "lse")[i // 4 % 2]
                    z = x[:, :4] / scale
                    with sanitized(ctx, f"DevMedil {method}"):
                        dev = DevMedil(rng=np.random.default_rng(i)).fit(z, method=method)
                        y = dev.sample(5, method=method)
                        v = getattr(dev, "validation_" + method)(0.1, 0.1, z)
                    finite(ctx, "penalized estimates", dev.W_hat, dev.D_hat, y, v)
            if i % 4 == 2:
                with ctx.guarded():
                    cfg = neural.config(rng, i)
                    cfg.update(x=x, n=n, m=m, split=None)
                    cfg["hyper"]["num_epochs"] = 3
                    ctx.case_info = dict(ctx.case_info, hyperparameters=cfg["hyper"])
                    with sanitized(ctx, "NeuroCausalFactorAnalysis"):
                        model = neural.new_model(cfg, neural.fresh_dir(ctx)).fit(x)
                    finite(ctx, "losses", *model.loss.values())
                    finite(ctx, "parameters", *(v.numpy() for v in model.parameters.vae.state_dict().values()))
                    ctx.count("optimizer runs")
            if ctx.out_of_time(150, 840):
                return
        for i in range(ctx.pick(1, 8)):  # many variables
            m = (60, 100, 130, 200, 260, 300, 40, 150)[(idx + i) % 8]
            n = int(rng.integers(20, 60))
            blocks = int(rng.integers(1, 6))
            x = rng.normal(size=(n, blocks))[:, np.arange(m) % blocks] + rng.normal(size=(n, m)) * 10.0 ** -rng.integers(4)
            x = (x + 100.0 * (i % 2)) * 10.0 ** rng.integers(-3, 4)
            ctx.case(dict(n=n, m=m, blocks=blocks, data=digest(x)), True, digest(x))
            with ctx.guarded():
                with sanitized(ctx, "dcov of many variables"):
                    cov, d_bars = dcov(x)
                    estimate_UDG(x)
                finite(ctx, "distance covariance", cov, d_bars)
                with sanitized(ctx, "mcm of many variables"):
                    model = mcm(num_meas=m, rng=np.random.default_rng(i), num_latent=blocks)
                    y = model.sample(10)
                finite(ctx, "sample", y)
                if m > 150:
                    continue
                cfg = neural.config(rng, i)
                cfg.update(x=x, n=n, m=m, split=None)
                cfg["hyper"].update(num_epochs=ctx.pick(10, 60), width_per_meas=1)
                ctx.case_info = dict(ctx.case_info, hyperparameters=cfg["hyper"])
                with sanitized(ctx, "training with many variables"):
                    model = neural.new_model(cfg, neural.fresh_dir(ctx)).fit(x)
                finite(ctx, "losses", *model.loss.values())

    ctx.shards(shard)
    for name in ("dcov of many variables", "training with many variables"):
        ctx.require(f"sanitized: {name}", 2)
    for name in ("GaussianMCM.fit", "dcov", "xicorr", "estimate_UDG xicor", "mcm", "structure learning",
                 "DevMedil mle", "DevMedil lse", "NeuroCausalFactorAnalysis"):
        ctx.require(f"sanitized: {name}", 5)


# ---------------------------------------------------------------- C32


def default_arrays():
    """Default arguments of everything public in medil that are arrays or containers."""
    import importlib
    import medil

    out = {}

    def add(func, name):
        try:
            sig = inspect.signature(func)
        except (TypeError, ValueError):
            return
        for p in sig.parameters.values():
            if isinstance(p.default, (np.ndarray, list, dict, set)):
                out[f"{name}({p.name})"] = p.default
            elif hasattr(p.default, "detach"):
                out[f"{name}({p.name})"] = p.default

    for info in pkgutil.iter_modules(medil.__path__):
        module = importlib.import_module("medil." + info.name)
        for name, obj in vars(module).items():
            if getattr(obj, "__module__", None) != module.__name__:
                continue
            if inspect.isfunction(obj):
                add(obj, f"{info.name}.{name}")
            elif inspect.isclass(obj):
                for attr, f in vars(obj).items():
                    if inspect.isfunction(f):
                        add(f, f"{info.name}.{name}.{attr}")
    return out


def content(obj):
    """Digest of arrays, tensors, containers and simple values."""
    if isinstance(obj, np.ndarray):
        return digest(obj)
    if isinstance(obj, dict):
        return {k: content(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [content(v) for v in obj]
    if hasattr(obj, "detach"):
        return digest(obj)
    return repr(obj)


def model_content(model):
    out = {}
    for key, val in vars(model).items():
        if isinstance(val, (np.ndarray, dict, list, tuple, str, int, float, bool)):
            out[key] = content(val)
    params = getattr(model, "parameters", None)
    for key, val in (vars(params) if params is not None else {}).items():
        if isinstance(val, np.ndarray):
            out["parameters." + key] = digest(val)
    return out


class Pool:
    """Arrays and models that exist; none of them may change."""

    def __init__(self):
        self.items = []

    def add(self, name, obj, kind="array"):
        self.items.append([name, obj, kind, self.state(obj, kind)])
        if len(self.items) > 60:
            self.items.pop(0)
        return obj

    @staticmethod
    def state(obj, kind):
        return model_content(obj) if kind == "model" else content(obj)

    def changed(self):
        return [item[0] for item in self.items if self.state(item[1], item[2]) != item[3]]

    def refresh(self, obj):
        for item in self.items:
            if item[1] is obj:
                item[3] = self.state(obj, item[2])


def c32(ctx):
    import matplotlib.pyplot as plt
    from medil import visualize as vis
    from medil.ecc_algorithms import find_clique_min_cover, find_heuristic_1pc, max_cliques
    from medil.evaluate import (min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs, recover_ug,
                                sfd)
    from medil.graph import UndirectedDependenceGraph
    from medil.independence_testing import dcov, estimate_UDG, xicorr
    from medil.models import DevMedil, GaussianMCM, NeuroCausalFactorAnalysis
    from medil.sample import biadj, mcm

    ctx.rule = (
        "random programs of 25 public operations on a pool of arrays in several encodings and memory "
        "layouts, where results become arguments of later operations; contents of all arrays, models "
        "and default arguments compared after every operation; non-trivial: all"
    )

    def shard(ctx, idx):
        rng = ctx.rng("c32", idx)
        defaults = default_arrays()
        ctx.count("default arguments watched", len(defaults) if idx == 0 else 0)
        default_state = content(defaults)

        def layout(a):
            """The same array in another memory layout."""
            how = int(rng.integers(4))
            if how == 1:
                return np.asfortranarray(a)
            if how == 2:
                big = np.zeros((a.shape[0], 2 * a.shape[1]), a.dtype)
                big[:, ::2] = a
                return big[:, ::2]
            if how == 3:
                return np.ascontiguousarray(a[::-1])[::-1]
            return a.copy()

        for prog in range(ctx.pick(14, 200)):
            pool = Pool()
            m = int(rng.integers(2, 6))
            data, graphs, structures, weights, models, neurals = [], [], [], [], [], []
            for _ in range(2):
                n = int(rng.integers(8, 60))
                data.append(pool.add("dataset", layout(gen.dataset(rng, n, m)[1])))
                graphs.append(pool.add("graph", layout(gen.encode(gen.er(rng, m, 0.5), int(rng.integers(7))))))
                b = gen.biadj(rng, int(rng.integers(1, 5)), m)
                structures.append(pool.add("structure", layout(b.astype((bool, int, np.uint8)[int(rng.integers(3))]))))
                weights.append(pool.add("weights", layout(rng.normal(size=(4, m)))))
            pick = lambda seq: seq[int(rng.integers(len(seq)))]
            new_rng = lambda: np.random.default_rng(int(rng.integers(1 << 40)))
            trace = []
            ctx.case(dict(program=(idx, prog), variables=m), True, (idx, prog))

            def operation(op):
                if op == "find_clique_min_cover":
                    out = find_clique_min_cover(pick(graphs))
                    structures.append(pool.add("cover", out))
                elif op == "find_heuristic_1pc":
                    out = find_heuristic_1pc(pick(graphs))
                    structures.append(pool.add("1pc structure", out))
                elif op == "max_cliques":
                    g = pick(graphs)
                    gen_ = max_cliques(g)
                    for _ in range(int(rng.integers(1, 9))):
                        next(gen_, None)
                elif op == "UndirectedDependenceGraph":
                    g = pick(graphs)
                    if not np.triu(g, 1).any():  # they are handled before (see C29)
                        return False
                    udg = UndirectedDependenceGraph(g)
                    udg.make_aux()
                elif op == "biadj":
                    kw = dict(one_pure_child=False, density=0.5) if rng.random() < 0.4 else {}
                    structures.append(pool.add("random structure", biadj(m, rng=new_rng(), **kw)))
                elif op == "mcm":
                    kw = dict(biadj=pick(structures)) if rng.random() < 0.5 else dict(num_meas=m)
                    rng_kw = dict(rng=new_rng()) if rng.random() < 0.7 else {}
                    models.append(pool.add("random model", mcm(**kw, **rng_kw), "model"))
                    weights.append(pool.add("model weights", models[-1].parameters.biadj_weights))
                elif op == "GaussianMCM":
                    kw = {}
                    if rng.random() < 0.5:
                        kw["biadj"] = pick(structures)
                    if rng.random() < 0.5:
                        kw["udg"] = pick(graphs)
                    new = GaussianMCM(**kw)
                    models.append(pool.add("new model", new, "model"))
                elif op in ("fit", "refit"):
                    if not models:
                        return False
                    model = pick(models)
                    # arrays of the model before fitting are results of earlier calls
                    for key in ("biadj_weights", "error_means", "error_variances"):
                        pool.add(f"earlier {key}", getattr(model.parameters, key))
                    pool.add("earlier biadj", model.biadj)
                    model.fit(pick(data))
                    pool.refresh(model)
                    weights.append(pool.add("fitted weights", model.parameters.biadj_weights))
                    structures.append(pool.add("fitted structure", model.biadj))
                elif op == "sample":
                    ready = [v for v in models if np.size(v.parameters.biadj_weights)]
                    if not ready:
                        return False
                    data.append(pool.add("sample", pick(ready).sample(int(rng.integers(8, 40)))))
                elif op == "DevMedil":
                    x = pick(data)[:, :2]
                    method = pick(("mle", "lse"))
                    dev = DevMedil(rng=new_rng()).fit(x, method=method)
                    pool.add("penalized weights", dev.W_hat)
                    pool.add("penalized variances", dev.D_hat)
                    getattr(dev, "validation_" + method)(0.1, 0.1, x)
                    pool.add("penalized sample", dev.sample(4, method=method))
                elif op == "dcov":
                    pool.add("distance covariances", dcov(pick(data)))
                elif op == "estimate_UDG":
                    res = estimate_UDG(pick(data), significance_level=0.1)
                    graphs.append(pool.add("estimated graph", res[0]))
                elif op == "estimate_UDG p-values":
                    p = pool.add("p-values", rng.random((m, m)))
                    res = estimate_UDG(pick(data), method=p, significance_level=0.5)
                    graphs.append(pool.add("graph of p-values", np.asarray(res[0])
                                           | np.asarray(res[0]).T))
                    pool.add("graph of p-values, unchanged", res[0])
                elif op == "xicorr":
                    x = pick(data)
                    xicorr(x[:, 0], x[:, -1], ties=bool(rng.integers(2)))
                elif op == "sfd":
                    pool.add("distance", sfd(pick(structures), pick(structures)))
                elif op == "recover_ug":
                    g = recover_ug(pick(structures))
                    pool.add("recovered graph", g)
                elif op == "permutation distance":
                    v, w = (pick([a for a in weights if len(a) <= 5]) for _ in range(2))
                    if len(v) < len(w):
                        v, w = w, v
                    f = pick((min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs))
                    pool.add("permutation", f(v, w))
                elif op == "visualize":
                    what = int(rng.integers(4))
                    if what == 0:
                        vis.show_dag(pick(structures).astype(int))
                    elif what == 1:
                        pool.add("adjacency", vis.get_adj_from_incidence(pick(structures)))
                    elif what == 2:
                        vis.show_obs_dcor_mat(np.abs(np.corrcoef(pick(data).T)), thresh=0.2)
                    else:
                        vis.show_obs_adj_mat(pick(graphs))
                    plt.close("all")
                elif op == "new NCFA":
                    new = NeuroCausalFactorAnalysis(seed=int(rng.integers(3)), path=neural.fresh_dir(ctx),
                                                    dof=int(rng.integers(4)))
                    neurals.append(pool.add("neural model", new, "model"))
                elif op == "hyperparameters":
                    if not neurals:
                        return False
                    model = pick(neurals)
                    key = pick(("lr", "beta", "mu", "lambda", "num_epochs", "batch_size", "alpha"))
                    model.hyperparams[key] = int(rng.integers(1, 9))
                    pool.refresh(model)
                elif op == "NCFA":
                    x = pick(data)
                    cfg = dict(x=x, seed=1, hyper=dict(num_epochs=1, batch_size=16))
                    ncfa = neural.new_model(cfg, neural.fresh_dir(ctx))
                    cut = len(x) // 2
                    split = pool.add("split", [np.arange(cut), np.arange(cut, len(x))])
                    ncfa.fit(x, split_idcs=split) if rng.random() < 0.5 else ncfa.fit(x)
                    pool.add("losses", {k: np.asarray(v) for k, v in ncfa.loss.items()})
                    pool.add("coupling weights", ncfa.parameters.weights)
                return True

            ops = ("find_clique_min_cover", "find_heuristic_1pc", "max_cliques", "biadj", "mcm",
                   "UndirectedDependenceGraph", "GaussianMCM", "fit", "refit", "sample", "DevMedil", "dcov",
                   "estimate_UDG", "estimate_UDG p-values", "xicorr", "sfd", "recover_ug",
                   "permutation distance", "visualize", "fit", "sample", "sfd", "new NCFA",
                   "new NCFA", "hyperparameters")
            with ctx.guarded():
                for step in range(25):
                    op = "NCFA" if step == 12 and prog % 3 == 0 else pick(ops)
                    trace.append(op)
                    ctx.case_info = dict(program=(idx, prog), variables=m, operations=trace)
                    with ctx.lib(op, cpu=120):
                        done = operation(op)
                    ctx.count(f"operation: {op}", done)
                    changed = pool.changed()
                    ctx.count("arrays and models compared", len(pool.items))
                    ctx.need(not changed, f"{op} changed {changed}", operations=trace)
                    now = content(defaults)
                    ctx.need(now == default_state, f"{op} changed default arguments",
                             which=[k for k in now if now[k] != default_state[k]])
            if ctx.out_of_time(150, 840):
                return

    ctx.shards(shard)
    ctx.require("arrays and models compared", 10000)
    ctx.require("operation: fit", 50)
    ctx.require("default arguments watched", 2)


CHECKS = dict(C31=c31, C32=c32)
