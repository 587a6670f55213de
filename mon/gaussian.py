"""C08-C14, C27: linear Gaussian models and penalized estimators."""

import itertools
import os
import subprocess
import sys
import warnings

import numpy as np
from scipy.optimize import minimize
from scipy.stats import kstest

from . import gen, oracles, structure
from .core import REPO, Inconclusive, Skip, digest

# ---------------------------------------------------------------- C08


def ks_uniform(ctx, what, values, lo, hi):
    values = np.asarray(values)
    d = kstest((values - lo) / (hi - lo), "uniform").statistic
    # P(sqrt(n) D > 4) < 3e-14
    ctx.high("Kolmogorov-Smirnov sqrt(n) D", np.sqrt(len(values)) * d)
    ctx.expect(np.sqrt(len(values)) * d <= 4, f"{what} isn't uniform on [{lo}, {hi}] (D={d:.4f}, "
               f"n={len(values)}, mean={values.mean():.4f})")


def c08(ctx):
    from medil.sample import mcm

    ctx.rule = (
        "models with given structures (bool, int and float entries) and with random generation "
        "options; pooled parameters tested for uniformity, signs and correlations (beyond any "
        "doubt: 4 for sqrt(n) D, 7 standard deviations); non-trivial: structure with connections "
        "and gaps"
    )
    rng = ctx.rng("c08")
    pool = {k: [] for k in ("w", "ws", "mu", "mus", "var")}
    pairs = {k: [] for k in ("w", "mu", "var", "ws", "mus", "w-var", "mu-var", "w-mu")}

    def judge(model, b):
        m = b.shape[1]
        got = np.asarray(model.biadj)
        ctx.need(got.shape == b.shape and np.array_equal(got.astype(bool), b), "structure", got=got)
        p = model.parameters
        w = np.asarray(p.biadj_weights)
        mu, var = np.asarray(p.error_means), np.asarray(p.error_variances)
        ctx.need(w.shape == b.shape and mu.shape == (m,) and var.shape == (m,), "shapes of parameters",
                 got=[w.shape, mu.shape, var.shape])
        ctx.expect(np.array_equal(w != 0, b), "weights are nonzero where connections are", got=w,
                   structure=b)
        ws = w[b]
        ctx.expect(((np.abs(ws) >= 0.5) & (np.abs(ws) <= 2)).all(), "range of weights", got=w)
        ctx.expect((np.abs(mu) <= 2).all(), "range of error means", got=mu)
        ctx.expect(((var >= 0.5) & (var <= 2)).all(), "range of error variances", got=var)
        ctx.count("models judged")
        pool["w"] += np.abs(ws).tolist()
        pool["ws"] += np.sign(ws).tolist()
        pool["mu"] += np.abs(mu).tolist()
        pool["mus"] += np.sign(mu).tolist()
        pool["var"] += var.tolist()
        if len(ws) > 1 and m > 1:
            pairs["w"].append(np.abs(ws[:2]))
            pairs["ws"].append(np.sign(ws[:2]))
            pairs["mu"].append(np.abs(mu[:2]))
            pairs["mus"].append(np.sign(mu[:2]))
            pairs["var"].append(var[:2])
            pairs["w-var"].append([abs(ws[0]), var[0]])
            pairs["mu-var"].append([abs(mu[0]), var[0]])
            pairs["w-mu"].append([ws[0], mu[0]])

    for i in range(ctx.pick(4000, 50000)):
        seed = int(rng.integers(1 << 40))
        new = lambda: np.random.default_rng(seed)
        if i % 2:
            m = int(rng.integers(1, 9))
            b = gen.biadj(rng, int(rng.integers(1, 7)), m, 0.45, allow_empty=i % 10 == 1)
            if not b.any():
                continue
            dtype = (bool, int, float, np.uint8)[i // 2 % 4]
            ctx.case(dict(given=b, dtype=dtype.__name__, rng=seed), not b.all(), digest(b, seed))
            with ctx.guarded():
                with ctx.lib("mcm"):
                    model = mcm(rng=new(), biadj=b.astype(dtype))
                judge(model, b)
                if dtype is not bool:
                    with ctx.lib("mcm"):
                        other = mcm(rng=new(), biadj=b)
                    same = all(
                        np.array_equal(getattr(model.parameters, a), getattr(other.parameters, a))
                        for a in ("biadj_weights", "error_means", "error_variances"))
                    ctx.expect(same, "0/1 entries mean something else than booleans")
                    ctx.count("encodings compared")
        else:
            m = int(rng.integers(2, 10))
            opts = dict(num_meas=m)
            d = [None, 0.0, 1.0, float(rng.random()), float(rng.random())][i // 2 % 5]
            opts["density"] = d
            if i % 8 == 0 and d is not None:
                opts["one_pure_child"] = False
            elif i % 8 == 2:
                opts["num_latent"] = int(rng.integers(1, m + 1))
            elif i % 8 == 4:
                opts.pop("density")
                d = 0.2
            ctx.case(dict(options=opts, rng=seed), True, digest(repr(opts), seed))
            with ctx.guarded():
                with ctx.lib("mcm"):
                    model = mcm(rng=new(), **opts)
                b = np.asarray(model.biadj)
                if opts.get("one_pure_child", True):
                    structure.judge_1pc_spec(ctx, b, m, opts.get("num_latent", 0), d)
                else:
                    ctx.need(b.ndim == 2 and b.shape[1] == m, "number of measurement variables")
                    edges = int(np.triu(gen.induced(b), 1).sum())
                    ctx.expect(edges in structure.half_even_options(d * (m * (m - 1) // 2)),
                               f"{edges} dependences, density {d}")
                judge(model, b.astype(bool))
        if ctx.out_of_time(150, 840):
            break
    # large structures, each with enough parameters for statistics of its own
    for i in range(ctx.pick(16, 160)):
        k, m = int(rng.integers(4, 60)), int(rng.integers(30, 150))
        b = gen.biadj(rng, k, m, float(rng.uniform(0.1, 0.9)), allow_empty=True)
        seed = int(rng.integers(1 << 40))
        ctx.case(dict(given=b, rng=seed, large=True), True, digest(b, seed))
        with ctx.guarded():
            with ctx.lib("mcm"):
                model = mcm(rng=np.random.default_rng(seed), biadj=b)
            judge(model, b)
            p = model.parameters
            w = np.asarray(p.biadj_weights)
            n = int(b.sum())
            row, col = np.nonzero(b)
            mag, sign = np.abs(w[b]), np.sign(w[b])
            mag = (mag - 1.25) / np.sqrt(2.25 / 12)  # uniform on [0.5, 2]
            ctx.count("parameters of large models", n + 2 * m)
            ctx.expect(len(np.unique(np.abs(w[b]))) == n, "weights are repeated")
            ctx.expect(len(np.unique(np.abs(p.error_means))) == m, "error means are repeated")
            ctx.expect(len(np.unique(p.error_variances)) == m, "error variances are repeated")
            ks_uniform(ctx, "absolute weights of one model", np.abs(w[b]), 0.5, 2)
            ks_uniform(ctx, "absolute error means of one model", np.abs(p.error_means), 0, 2)
            ks_uniform(ctx, "error variances of one model", p.error_variances, 0.5, 2)

            def uncorrelated(what, u, v):
                u, v = np.asarray(u, float), np.asarray(v, float)
                if u.std() > 0 and v.std() > 0:
                    ctx.stat(f"correlation of {what}", np.corrcoef(u, v)[0, 1], 0, 1 / np.sqrt(len(u)))

            across = np.lexsort((row, col))  # along columns instead of rows
            for what, v in (("weights", mag), ("signs of weights", sign)):
                ctx.stat(f"mean of {what}", v.mean(), 0, 1 / np.sqrt(n))
                uncorrelated(f"{what} and latents", v, row)
                uncorrelated(f"{what} and variables", v, col)
                for lag in (1, 2, 3, 8):
                    uncorrelated(f"{what} in a row, {lag} apart", v[lag:], v[:-lag])
                    uncorrelated(f"{what} in a column, {lag} apart", v[across][lag:], v[across][:-lag])
            uncorrelated("weights and their signs", mag, sign)
            mu, var = np.asarray(p.error_means), np.asarray(p.error_variances)
            place = np.arange(m)
            pairs_ = [("means", mu), ("absolute means", np.abs(mu)), ("variances", var), ("positions", place),
                      ("first weights", mag[:m]), ("first signs", sign[:m])]
            for (wu, u), (wv, v) in itertools.combinations(pairs_, 2):
                if len(u) == len(v):
                    uncorrelated(f"{wu} and {wv}", u, v)
            for what, v in pairs_[:3]:
                uncorrelated(f"adjacent {what}", v[1:], v[:-1])
    ctx.require("parameters of large models", 2000)
    ctx.require("models judged", 1000)
    ctx.case(dict(pooled={k: len(v) for k, v in pool.items()}), True, "pooled")
    ks_uniform(ctx, "absolute weights", pool["w"], 0.5, 2)
    ks_uniform(ctx, "absolute error means", pool["mu"], 0, 2)
    ks_uniform(ctx, "error variances", pool["var"], 0.5, 2)
    for k in ("ws", "mus"):
        v = np.array(pool[k])
        ctx.stat(f"sign of {'weights' if k == 'ws' else 'error means'}", v.mean(), 0,
                 1 / np.sqrt(len(v)))
        mag = np.array(pool[k[:-1]])
        ctx.stat(f"correlation of sign and magnitude ({k})", np.corrcoef(v, mag)[0, 1]
                 if v.std() else 0.0, 0, 1 / np.sqrt(len(v)))
    for k, v in pairs.items():
        v = np.array(v)
        c = np.corrcoef(v.T)[0, 1] if (v.std(0) > 0).all() else 1.0
        ctx.stat(f"dependence within one model: {k}", c, 0, 1 / np.sqrt(len(v)))


# ---------------------------------------------------------------- C09


def params_digest(model):
    p = model.parameters
    return digest(np.asarray(model.biadj).astype(bool), np.asarray(p.biadj_weights, float),
                  np.asarray(p.error_means, float), np.asarray(p.error_variances, float))


def c09_program(spec):
    """Results of one generating operation, by a specification that can be sent
    to another process."""
    from medil.models import GaussianMCM
    from medil.sample import biadj, mcm

    kind, seed, kw = spec
    rng = np.random.default_rng(seed)
    if kind == "biadj":
        outs = [np.asarray(biadj(rng=rng, **kw)).astype(bool) for _ in range(2)]
        return [digest(o) for o in outs]
    if kind == "mcm":
        return [params_digest(mcm(rng=rng, **kw)) for _ in range(2)]
    if kind == "mcm-biadj":
        b = gen.one_pure_child(np.random.default_rng(seed + 1), 6)
        return [params_digest(mcm(rng=rng, biadj=b)) for _ in range(2)]
    if kind == "sample":
        base = mcm(rng=np.random.default_rng(seed + 1), num_meas=5)
        model = GaussianMCM(biadj=base.biadj, rng=rng)
        model.parameters = base.parameters
        return [digest(model.sample(kw["n"])) for _ in range(2)]
    if kind == "all":  # one generator for everything
        model = mcm(rng=rng, num_meas=6, density=0.4)
        model.rng = rng
        return [params_digest(model), digest(model.sample(20)), digest(model.sample(20)),
                digest(np.asarray(biadj(4, rng=rng, one_pure_child=False)).astype(bool))]
    raise ValueError(kind)


def c09(ctx):
    import torch
    from medil.models import GaussianMCM
    from medil.sample import biadj, mcm

    ctx.rule = (
        "each generating operation is run several times from equally seeded generators, with "
        "other operations, default generators and global random states changed in between, and "
        "in a new process with another hash seed; non-trivial: all"
    )
    rng = ctx.rng("c09")

    def disturb():
        """Other things happening in the process."""
        what = int(rng.integers(7))
        with ctx.lib("interleaved operation"):
            if what == 0:
                np.random.seed(int(rng.integers(1 << 30)))
            elif what == 1:
                torch.manual_seed(int(rng.integers(1 << 30)))
            elif what == 2:
                biadj(int(rng.integers(2, 8)))  # default generator
            elif what == 3:
                m = mcm(num_meas=4)  # default generator
                m.sample(int(rng.integers(1, 9)))
            elif what == 4:
                x = rng.normal(size=(40, 3))
                GaussianMCM().fit(x).sample(3)
            elif what == 5:
                np.random.random(int(rng.integers(1, 5)))
            else:
                m = mcm(num_meas=5, rng=np.random.default_rng(1))
                m.sample(4)

    def spec(i):
        seed = int(rng.integers(1 << 40))
        kind = ("biadj", "mcm", "sample", "mcm-biadj", "all", "biadj", "mcm")[i % 7]
        m = int(rng.integers(3, 9))
        kw = {}
        if kind in ("biadj", "mcm"):
            kw = dict(num_meas=m, density=[0.5, None, 0.3][i // 7 % 3])
            if i % 3 == 0:
                kw["one_pure_child"] = False
                kw["density"] = 0.5
            elif i % 3 == 1:
                kw["num_latent"] = int(rng.integers(1, m))
        if kind == "sample":
            kw = dict(n=int(rng.integers(1, 30)))
        return kind, seed, kw

    def states():
        s = np.random.get_state()
        return digest(s[1], s[2:], torch.get_rng_state())

    specs = []
    differ = {}
    for i in range(ctx.pick(500, 6000)):
        sp = spec(i)
        ctx.case(dict(operation=sp[0], seed=sp[1], arguments=sp[2]), True, digest(repr(sp)))
        with ctx.guarded():
            with ctx.lib(sp[0]):
                first = c09_program(sp)
            for _ in range(int(rng.integers(1, 4))):
                disturb()
            before = states()
            with ctx.lib(sp[0]):
                second = c09_program(sp)
            after = states()
            ctx.count("repetitions compared")
            ctx.expect(first == second, "same generator and arguments, different results")
            ctx.expect(before == after, "global random state was changed")
            with ctx.lib(sp[0]):
                other = c09_program((sp[0], sp[1] + 12345, sp[2]))
            key = sp[0]
            d = differ.setdefault(key, [0, 0, 0])
            d[0] += 1
            d[1] += other[0] != first[0]
            d[2] += first[0] != first[1]
            if len(specs) < 60:
                specs.append((sp, first))
    for key, (num, seeds, repeats) in differ.items():
        ctx.case(dict(operation=key, runs=num, differ_by_seed=seeds, repeated_draws_differ=repeats))
        least = 0.99 if key in ("mcm", "mcm-biadj", "sample", "all") else 0.5
        ctx.expect(seeds >= least * num, f"{key}: results are the same for different seeds")
        ctx.expect(repeats >= least * num, f"{key}: repeated draws are the same")
    # samples of several models with one and with separate generators
    for i in range(ctx.pick(40, 400)):
        s = [int(v) for v in rng.integers(1 << 40, size=2)]
        ctx.case(dict(operation="interleaved samples", seeds=s), True, digest(s))
        with ctx.guarded(), ctx.lib("sample"):
            base = mcm(rng=np.random.default_rng(s[0]), num_meas=4, density=0.5)

            def model(seed):
                out = GaussianMCM(biadj=base.biadj, rng=np.random.default_rng(seed))
                out.parameters = base.parameters
                return out

            a, b = model(s[0]), model(s[1])
            alone = [digest(a.sample(7)) for _ in range(3)]
            alone_b = [digest(b.sample(7)) for _ in range(3)]
            a, b = model(s[0]), model(s[1])
            mixed = [(digest(a.sample(7)), digest(b.sample(7))) for _ in range(3)]
            ctx.expect([x for x, _ in mixed] == alone and [y for _, y in mixed] == alone_b,
                       "sampling from one model influences another one")
            ctx.expect(len(set(alone)) == 3, "repeated samples are the same")
            ctx.count("interleavings compared")
    # another process
    code = (
        "import sys, json; sys.path[:0] = [%r, %r]\n"
        "from mon import gaussian, core; core.load_medil()\n"
        "import io, warnings; warnings.simplefilter('ignore'); out = sys.stdout; sys.stdout = io.StringIO()\n"
        "res = [gaussian.c09_program(tuple(s)) for s in json.loads(sys.argv[1])]\n"
        "sys.stdout = out; print(json.dumps(res))"
    ) % (str(REPO), str(structure.__file__).rsplit("/mon/", 1)[0])
    import json

    env = dict(os.environ, PYTHONHASHSEED="4242")
    proc = subprocess.run([sys.executable, "-c", code, json.dumps([s for s, _ in specs])],
                          capture_output=True, text=True, env=env, timeout=600)
    if proc.returncode:
        if ctx.num_violations:
            return
        raise Inconclusive("second process: " + proc.stderr[-2000:])
    for (sp, first), got in zip(specs, json.loads(proc.stdout.splitlines()[-1])):
        ctx.case_info = dict(operation=sp[0], seed=sp[1], arguments=sp[2], process="another one")
        ctx.expect(got == first, "another process gives different results")
        ctx.count("results compared between processes")
    ctx.require("repetitions compared", 200)
    ctx.require("results compared between processes", 30)


# ---------------------------------------------------------------- C10


def make_model(b, w, mu, var, rng):
    from medil.models import GaussianMCM

    model = GaussianMCM(biadj=b, rng=rng)
    model.parameters.biadj_weights = w
    model.parameters.error_means = mu
    model.parameters.error_variances = var
    return model


def c10(ctx):
    ctx.rule = (
        "random structures and parameters (zero weights and variances, scales 1e-3 to 1e3); "
        "large samples: means, covariances, third and fourth moments, normality of whitened "
        "observations, independence of observations and calls (7 standard deviations); small "
        "samples: sizes and, with zero variances, exact linear relations; non-trivial: model with "
        "connections and gaps"
    )

    def random_model(rng, i, singular=False, wide=False):
        k, m = int(rng.integers(1, 6)), int(rng.integers(1, 7))
        if wide:
            k, m = int(rng.integers(5, 25)), int(rng.integers(7, 30))
        b = gen.biadj(rng, k, m, 0.5)
        w = np.where(b, rng.uniform(0.5, 2, b.shape) * rng.choice([-1, 1], b.shape), 0.0)
        mu = rng.normal(size=m) * 3
        var = rng.uniform(0.3, 2, m)
        if singular:
            var[rng.random(m) < 0.5] = 0
            if i % 2:
                w[:, rng.random(m) < 0.3] = 0  # zero weights although connected
        s = 10.0 ** rng.integers(-3, 4) if i % 3 == 0 else 1.0
        return b, w * s, mu * s, var * s**2

    def moments(ctx, idx):
        rng = ctx.rng("c10", idx)
        for i in range(ctx.pick(3, 40)):
            b, w, mu, var = random_model(rng, i, singular=i % 3 == 1, wide=(idx + i) % 6 == 0)
            n = ctx.pick(60000, 200000)
            m = b.shape[1]
            ctx.case(dict(structure=b, weights=w, means=mu, variances=var, n=n), b.any() and not
                     b.all(), digest(w, mu, var))
            with ctx.guarded():
                model = make_model(b, w, mu, var, np.random.default_rng(int(rng.integers(1 << 40))))
                with ctx.lib("sample"):
                    x = np.asarray(model.sample(n))
                    y = np.asarray(model.sample(n))
                ctx.need(x.shape == (n, m), f"shape of sample: {x.shape}")
                ctx.count("observations", 2 * n)
                cov = w.T @ w + np.diag(var)
                sd = np.sqrt(np.diag(cov))
                ok = sd > 0
                const = x[:, ~ok] - mu[~ok]
                size = 1 + np.abs(mu).max()
                ctx.expect(np.abs(const).max(initial=0) <= 1e-9 * size, "variable without variance varies")
                z = (x[:, ok] - mu[ok]) / sd[ok]
                z2 = (y[:, ok] - mu[ok]) / sd[ok]
                corr = cov[np.ix_(ok, ok)] / np.outer(sd[ok], sd[ok])
                for j in range(z.shape[1]):
                    ctx.stat(f"mean of variable {j}", z[:, j].mean(), 0, 1 / np.sqrt(n))
                    ctx.stat(f"third moment of variable {j}", (z[:, j] ** 3).mean(), 0, np.sqrt(15 / n))
                    ctx.stat(f"fourth moment of variable {j}", (z[:, j] ** 4).mean(), 3, np.sqrt(96 / n))
                for a, c in itertools.combinations_with_replacement(range(z.shape[1]), 2):
                    r = corr[a, c]
                    ctx.stat(f"covariance of {a} and {c}", (z[:, a] * z[:, c]).mean(), r,
                             np.sqrt((1 + r**2) / n))
                    # mixed fourth moment E z_a^2 z_c^2 = 1 + 2 r^2 (jointly Gaussian)
                    ctx.stat(f"joint fourth moment of {a} and {c}",
                             (z[:, a] ** 2 * z[:, c] ** 2).mean(), 1 + 2 * r**2, np.sqrt(96 / n))
                # random projections are normal
                for _ in range(3):
                    v = rng.normal(size=z.shape[1])
                    s = np.sqrt(v @ corr @ v) if len(v) else 0
                    if s > 1e-6:
                        d = kstest((z @ v) / s, "norm").statistic
                        ctx.high("Kolmogorov-Smirnov sqrt(n) D", np.sqrt(n) * d)
                        ctx.expect(np.sqrt(n) * d <= 4, f"linear combination isn't normal (D={d:.4f})")
                # independence of observations and calls
                for j in range(z.shape[1]):
                    for lag in (1, 2, n // 2):
                        ctx.stat(f"autocorrelation of variable {j}, lag {lag}",
                                 (z[lag:, j] * z[:-lag, j]).mean(), 0, 1 / np.sqrt(n - lag))
                        ctx.stat(f"autocorrelation of squares of variable {j}, lag {lag}",
                                 ((z[lag:, j] ** 2 - 1) * (z[:-lag, j] ** 2 - 1)).mean(), 0,
                                 2 / np.sqrt(n - lag))
                    ctx.stat(f"correlation between calls, variable {j}", (z[:, j] * z2[:, j]).mean(),
                             0, 1 / np.sqrt(n))
                    ctx.stat(f"mean of variable {j} (second call)", z2[:, j].mean(), 0, 1 / np.sqrt(n))
                    ctx.stat(f"variance of variable {j} (second call)", (z2[:, j] ** 2).mean(), 1,
                             np.sqrt(2 / n))

    ctx.shards(moments)

    # very large samples: nothing repeats, at no distance
    def large(ctx, idx):
        rng = ctx.rng("c10 large", idx)
        for i in range(ctx.pick(1, 6)):
            b, w, mu, var = random_model(rng, 1)
            var = np.where(var > 0, var, 0.7)
            m = b.shape[1]
            n = int([130_000, 270_000, 520_000, 1_100_000][(idx + i) % 4] + rng.integers(10_000))
            ctx.case(dict(structure=b, weights=w, means=mu, variances=var, n=n), True, digest(w, mu, n))
            with ctx.guarded():
                model = make_model(b, w, mu, var, np.random.default_rng(int(rng.integers(1 << 40))))
                with ctx.lib("sample"):
                    x = np.asarray(model.sample(n))
                ctx.need(x.shape == (n, m), f"shape of sample: {x.shape}, not {(n, m)}")
                ctx.count("observations of very large samples", n)
                z = (x - mu) / np.sqrt(np.diag(w.T @ w + np.diag(var)))
                for j in range(m):
                    # a double has 52 bits, so 1e6 observations hardly ever coincide
                    ctx.expect(n - len(np.unique(z[:, j])) <= 3, f"repeated observations of variable {j}")
                    d = kstest(z[:, j], "norm").statistic
                    ctx.expect(np.sqrt(n) * d <= 4, f"observations aren't normal (D={d:.5f})")
                    for part in np.array_split(z[:, j], 8):
                        ctx.stat("mean of a part of a sample", part.mean(), 0, 1 / np.sqrt(len(part)))
                        ctx.stat("variance of a part of a sample", (part**2).mean(), 1,
                                 np.sqrt(2 / len(part)))
                    size = 1 << (2 * n - 1).bit_length()
                    spectrum = np.abs(np.fft.rfft(z[:, j], size)) ** 2
                    acf = np.fft.irfft(spectrum, size)[1 : n - 3000]
                    acf /= np.sqrt(n - np.arange(1, n - 3000))
                    ctx.high("autocorrelation in standard deviations, any lag", np.abs(acf).max())
                    ctx.expect(np.abs(acf).max() <= 9, f"observations of variable {j} with distance "
                               f"{np.abs(acf).argmax() + 1} are dependent")

    ctx.shards(large)

    rng = ctx.rng("c10 exact")
    for i in range(ctx.pick(400, 5000)):
        b, w, mu, var = random_model(rng, i, singular=True, wide=i % 9 == 5)
        n = [0, 1, 2, 3, 7, 30][i % 6]
        m = b.shape[1]
        if i % 2:
            var = np.zeros(m)
        ctx.case(dict(structure=b, weights=w, means=mu, variances=var, n=n), n > 0, digest(w, mu, n))
        with ctx.guarded():
            before = digest(b, w, mu, var)
            model = make_model(b, w, mu, var, np.random.default_rng(i))
            with ctx.lib("sample"):
                x = np.asarray(model.sample(n))
            ctx.count("small samples")
            ctx.need(x.shape == (n, m), f"shape of sample: {x.shape}, not {(n, m)}")
            ctx.expect(digest(b, w, mu, var) == before, "parameters were changed")
            if n == 0:
                continue
            scale = np.abs(w).max() + np.abs(mu).max() + 1e-12
            centred = x - mu
            if not var.any():
                coef = np.linalg.lstsq(w.T, centred.T, rcond=None)[0]
                res = np.abs(w.T @ coef - centred.T).max()
                ctx.expect(res <= 1e-9 * scale, f"observation outside of the span of the weights ({res})",
                           sample=x)
                if n > 2 and w.any():
                    ctx.expect(np.abs(np.diff(centred, axis=0)).max() > 1e-9 * scale,
                               "observations are all the same")
            still = (var == 0) & ~w.any(0)
            ctx.expect((np.abs(centred[:, still]) <= 1e-9 * scale).all(),
                       "variable with neither variance nor weights varies", sample=x)

    # many small samples together follow the same distribution
    def pooled(ctx, idx):
        rng = ctx.rng("c10 pooled", idx)
        for i in range(ctx.pick(2, 12)):
            n = [1, 2, 3, 5, 8, 20, 50, 4][(idx + i) % 8]
            b, w, mu, var = random_model(rng, i + 1, wide=(idx + i) % 5 == 4)
            var = np.maximum(var, 1e-9)
            m = b.shape[1]
            calls = ctx.pick(4000, 20000)
            ctx.case(dict(structure=b, weights=w, means=mu, variances=var, n=n, calls=calls), True,
                     digest(w, mu, n))
            with ctx.guarded():
                model = make_model(b, w, mu, var, np.random.default_rng(int(rng.integers(1 << 40))))
                with ctx.lib("sample"):
                    x = np.array([model.sample(n) for _ in range(calls)])
                ctx.need(x.shape == (calls, n, m), f"shape of samples: {x.shape}")
                ctx.count("pooled observations", calls * n)
                l = np.linalg.cholesky(w.T @ w + np.diag(var))
                z = np.linalg.solve(l, (x - mu).reshape(-1, m).T)  # independent standard normal
                for j in range(m):
                    d = kstest(z[j], "norm").statistic
                    ctx.expect(np.sqrt(calls * n) * d <= 4,
                               f"observations of samples of size {n} aren't normal (D={d:.4f})")
                    for c in range(j):
                        ctx.stat("covariance", (z[j] * z[c]).mean(), 0, 1 / np.sqrt(calls * n))
                    rows = z[j].reshape(calls, n)
                    if n > 1:
                        # mean and variance within one sample vary as they should
                        ctx.stat("variance of means of samples", n * (rows.mean(1) ** 2).mean(), 1,
                                 np.sqrt(2 / calls))
                        v = rows.var(1, ddof=1)
                        ctx.stat("mean of variances of samples", v.mean(), 1,
                                 np.sqrt(2 / (n - 1) / calls))
                        k = 2 / (n - 1)  # variance of v, by its own fourth moment
                        sd4 = np.sqrt((12 * k**2 + 48 * k**3) / calls)
                        ctx.stat("variance of variances of samples", ((v - 1) ** 2).mean(), k, sd4)
                        ctx.stat("products of first and last observations",
                                 (rows[:, 0] * rows[:, -1]).mean(), 0, 1 / np.sqrt(calls))

    ctx.shards(pooled)
    ctx.require("observations", 1000000)
    ctx.require("small samples", 200)
    ctx.require("pooled observations", 10000)


# ---------------------------------------------------------------- C11


def ls_objective(theta, s, mask):
    k = int(mask.sum())
    w = np.zeros(mask.shape)
    w[mask] = theta[:k]
    d = theta[k:]
    r = w.T @ w + np.diag(d) - s
    gw = 4 * w @ r
    return (r**2).sum(), np.concatenate([gw[mask], 2 * np.diag(r)])


def ls_best(s, mask, rng, starts, extra=()):
    """Smallest squared distance found from many starts with exact gradients."""
    k, m = int(mask.sum()), mask.shape[1]
    bounds = [(None, None)] * k + [(0, None)] * m
    best = np.inf
    sd = np.sqrt(np.diag(s))
    for i in range(starts):
        if i < len(extra):
            x0 = extra[i]
        elif i == len(extra):
            x0 = np.ones(k + m) * np.sqrt(np.diag(s).mean())
        else:
            w = rng.normal(size=mask.shape) * sd * 0.7
            x0 = np.concatenate([w[mask], np.diag(s) * rng.random(m)])
        res = minimize(ls_objective, x0, args=(s, mask), jac=True, bounds=bounds, method="L-BFGS-B",
                       options=dict(maxiter=3000, ftol=1e-15, gtol=1e-10))
        best = min(best, res.fun)
    return best


def exact_cov_dataset(rng, n, cov, mean):
    """Dataset whose unbiased sample covariance and mean are exactly the given ones."""
    m = len(cov)
    z = rng.normal(size=(n, m))
    z -= z.mean(0)
    l = np.linalg.cholesky(np.cov(z, rowvar=False).reshape(m, m))
    z = z @ np.linalg.inv(l).T
    val, vec = np.linalg.eigh(cov)
    return z @ (vec * np.sqrt(np.maximum(val, 0))).T + mean


def c11(ctx):
    from medil.models import GaussianMCM

    ctx.rule = (
        "random structures (one-pure-child and others), datasets of 3 to 2000 observations at "
        "scales 1e-6 to 1e6, with sample covariances that the structure can or can't reproduce; "
        "the attained squared distance compared with the best of many starts with exact gradients; "
        "non-trivial: structure with connections and gaps"
    )

    def shard(ctx, idx):
        rng = ctx.rng("c11", idx)
        for i in range(ctx.pick(34, 420)):
            m = int(rng.integers(2, 8)) if i % 17 != 5 else int(rng.integers(8, 13))
            if i % 2:
                b = gen.one_pure_child(rng, m, int(rng.integers(1, min(m, 4) + 1)))
            else:
                b = gen.biadj(rng, int(rng.integers(1, 4)), m, 0.5)
            improper = i % 3 == 1 and i % 2 == 0  # covariance far from what the structure can reproduce
            if improper:
                m = int(rng.integers(3, 7))
                b = gen.biadj(rng, int(rng.integers(1, 3)), m, 0.8)
            scale = 10.0 ** rng.integers(-6, 7) if i % 4 != 3 else 1.0
            w = np.where(b, rng.uniform(0.5, 2, b.shape) * rng.choice([-1, 1], b.shape), 0)
            if i % 6 < 3:  # all positive, one easy basin
                w = np.abs(w)
            d = rng.uniform(0.3, 2, m)
            exact = i % 3 == 0
            n = int(rng.integers(m + 2, m + 12)) if i % 5 else int(rng.integers(200, 2000))
            if exact:
                x = exact_cov_dataset(rng, n, w.T @ w + np.diag(d), rng.normal(size=m) * 5)
            elif improper:
                z = rng.normal(size=(m, m + 1))
                z = z / np.sqrt((z**2).sum(1, keepdims=True))
                x = exact_cov_dataset(rng, max(n, m + 2), z @ z.T, rng.normal(size=m) * 5)
            elif i % 3 == 1:
                x = rng.normal(size=(n, len(b))) @ w + rng.normal(size=(n, m)) * np.sqrt(d) + 1
            else:
                n = max(n, 4 if i % 2 else 3)
                x = gen.dataset(rng, n, m)[1] + rng.normal(size=m) * 5
            x = x * scale
            ctx.case(dict(structure=b, n=n, scale=scale, exact=exact, data=x), b.any() and not b.all(),
                     digest(x, b))
            with ctx.guarded():
                model = GaussianMCM(biadj=b.astype((bool, int)[i % 2]))
                with ctx.lib("fit", cpu=120):
                    model.fit(x)
                ctx.count("fits judged")
                p = model.parameters
                mu = np.asarray(p.error_means)
                ctx.expect(mu.shape == (m,) and np.allclose(mu, x.mean(0), rtol=1e-9, atol=1e-9 * scale),
                           "error means aren't column means", got=mu)
                wf, df = np.asarray(p.biadj_weights), np.asarray(p.error_variances)
                ctx.need(wf.shape == b.shape and df.shape == (m,), "shapes of parameters")
                ctx.need(np.isfinite(wf).all() and np.isfinite(df).all(), "parameters aren't finite")
                ctx.expect((wf[~b] == 0).all(), "weight without connection", got=wf)
                ctx.expect((df >= 0).all(), "negative error variance", got=df)
                s = np.cov(x / scale, rowvar=False).reshape(m, m)
                size = (s**2).sum()
                fit = ((wf.T @ wf / scale**2 + np.diag(df) / scale**2 - s) ** 2).sum()
                if exact:
                    best = 0.0
                else:
                    start = np.concatenate([wf[b] / scale, df / scale**2])
                    best = ls_best(s, b, rng, ctx.pick(6, 12), extra=(start,))
                gap = (fit - best) / size
                ctx.high("relative gap", gap)
                ctx.count("exact fits judged", exact)
                groups = ["all", "exact" if exact else "inexact", "small n" if n < 20 else "large n",
                          "scale < 1" if scale < 1 else "scale > 1" if scale > 1 else "scale 1",
                          "extreme scale" if abs(np.log10(scale)) >= 4 else "moderate scale"]
                for g in groups:
                    ctx.count(f"fits: {g}")
                    for lev in (1e-4, 1e-2):
                        ctx.count(f"fits worse than {lev}: {g}", gap > lev)
                # nothing much better nearby (the optimizer sometimes stops early in flat valleys)
                start = np.concatenate([wf[b] / scale, df / scale**2])
                local = ls_best(s, b, rng, 1, extra=(start,))
                ctx.high("relative gap to the nearby minimum", (fit - local) / size)
                groups += ["improper" if improper else "proper",
                           "zero variances" if (df / scale**2 < 1e-6).any() else "positive variances"]
                for g in groups:
                    ctx.count(f"local fits: {g}")
                    ctx.count(f"local fits worse than 1e-05: {g}", (fit - local) / size > 1e-5)
                ctx.expect((fit - local) / size <= 5e-3,
                           f"not a minimum: squared distance {fit:.6g}, nearby {local:.6g} (total {size:.6g})",
                           weights=wf, variances=df)
            if ctx.out_of_time(200, 840):
                return

    ctx.shards(shard)
    # local minima and early stops occur, but rarely (0.3 % and 4 % of fits of random data)
    ctx.case_info = dict(note="all fits of this run")
    for key, total in sorted(ctx.counters.items()):
        if key.startswith("fits: "):
            for lev, share in ((1e-2, 0.03), (1e-4, 0.15)):
                bad = ctx.counters.get(f"fits worse than {lev}: {key[6:]}", 0)
                ctx.expect(bad <= max(5, share * total),
                           f"{bad} of {total} fits ({key[6:]}) aren't least squares fits (gap > {lev})")
        if key.startswith("local fits: "):
            bad = ctx.counters.get(f"local fits worse than 1e-05: {key[12:]}", 0)
            ctx.expect(bad <= max(5, 0.05 * total),
                       f"{bad} of {total} fits ({key[12:]}) aren't minima of the squared distance "
                       "(gap to the nearby minimum > 1e-05)")
    ctx.require("fits judged", 100)
    ctx.require("exact fits judged", 20)
    ctx.require("local fits: zero variances", 20)


# ---------------------------------------------------------------- C12


def bic_rule(x):
    """Dependences by the BIC rule, and the pairs too close to its threshold to tell."""
    n, m = x.shape
    c = x - x.mean(0)
    c = c / np.abs(c).max(0)
    dep = np.zeros((m, m), bool)
    close = np.zeros((m, m), bool)
    for i, j in itertools.combinations(range(m), 2):
        r2 = (c[:, i] @ c[:, j]) ** 2 / ((c[:, i] @ c[:, i]) * (c[:, j] @ c[:, j]))
        if r2 >= 1 - 1e-4:  # (nearly) collinear
            stat = np.inf if n >= 3 else n * -np.log(1e-4)
        else:
            stat = -n * np.log1p(-r2)
        dep[i, j] = dep[j, i] = stat > np.log(n)
        close[i, j] = close[j, i] = abs(stat - np.log(n)) < 1e-6 * (1 + np.log(n))
    return dep, close


def dataset_near_threshold(rng, n, m):
    """Some correlations close to the threshold of the rule, on either side."""
    z = rng.normal(size=(n, m))
    z -= z.mean(0)
    q = np.linalg.qr(z)[0]  # exactly uncorrelated columns of unit length
    r0 = np.sqrt(-np.expm1(-np.log(n) / n))
    cov = np.eye(m)
    for i in range(0, m - 1, 2):
        r = r0 * rng.choice([0.8, 0.9, 0.97, 0.99, 1.01, 1.03, 1.1, 1.2]) * rng.choice([-1, 1])
        cov[i, i + 1] = cov[i + 1, i] = np.clip(r, -0.99, 0.99)
    return q @ np.linalg.cholesky(cov).T * np.sqrt(n)


def c12(ctx):
    from medil.models import GaussianMCM

    ctx.rule = (
        "datasets of 2 to 3000 observations of 2 to 10 (some up to 35) variables, correlations near the threshold "
        "and elsewhere, scales 1e-8 to 1e8 per variable, offsets; also shifted, rescaled, flipped "
        "and reordered versions; non-trivial: graph with edges and gaps"
    )
    rng = ctx.rng("c12")

    def fit(x):
        with ctx.lib("fit", cpu=120):
            return GaussianMCM().fit(x).udg

    for i in range(ctx.pick(420, 5000)):
        m = int(rng.integers(2, 7 if i % 3 else 10))
        n = int([rng.integers(3, 12), rng.integers(12, 80), rng.integers(80, 3000)][i // 2 % 3])
        if i % 40 == 7:
            n = 2
        if i % 140 == 90:  # many variables
            m, n = int(rng.integers(20, 36)), int(rng.integers(60, 600))
            x = rng.normal(size=(n, 5))[:, np.arange(m) % 5] + 0.8 * rng.normal(size=(n, m))
        elif i % 2 and n > m + 1:
            x = dataset_near_threshold(rng, n, m)
        else:
            x = gen.dataset(rng, n, m)[1]
        if i % 10 == 4 and m > 2:
            x[:, 2] = -3 * x[:, 0]  # collinear
        # parameters can only be fitted at a common scale
        x = x * 10.0 ** rng.integers(-6, 7) * 2.0 ** rng.integers(-2, 3, m)
        x = x + np.abs(x).max(0) * rng.choice([0, 1, -30] if i % 3 else [0, 1e4, -1e6, 1e7], m)
        dep, close = bic_rule(x)
        edges = dep[np.triu_indices(m, 1)]
        ctx.case(dict(n=n, m=m, data=x), edges.any() and not edges.all(), digest(x))
        with ctx.guarded():
            got = fit(x)
            ctx.need(isinstance(got, np.ndarray) and got.dtype == bool and got.shape == (m, m),
                     "graph isn't a boolean matrix", got=got)
            ctx.expect(not got.diagonal().any(), "self-dependence", got=got)
            ctx.expect(np.array_equal(got, got.T), "graph isn't symmetric", got=got)
            ctx.count("pairs judged", (~close[np.triu_indices(m, 1)]).sum())
            ctx.count("dependent pairs", edges.sum())
            ctx.expect(np.array_equal(got[~close], dep[~close]), "not the graph of the BIC rule",
                       got=got, expected=dep)
            if i % 3 or close.any():
                continue
            # invariances (the reference is invariant; judged on the fits themselves)
            perm, rows = rng.permutation(m), rng.permutation(n)
            sign = rng.choice([-1, 1], m)
            variants = dict(
                rows=(x[rows], got), columns=(x[:, perm], got[np.ix_(perm, perm)]),
                flipped=(x * sign, got),
                rescaled=(x * 2.0 ** rng.integers(-3, 4, m) * 10.0 ** rng.integers(-3, 4), got),
                shifted=(x + x.std(0) * rng.normal(size=m) * 20, got),
            )
            for name, (y, want) in variants.items():
                ctx.expect(np.array_equal(fit(y), want), f"graph of {name} data is another one")
                ctx.count("invariances judged")
        if ctx.out_of_time(150, 840):
            break
    # very different units of measurement
    for i in range(ctx.pick(60, 500)):
        m = int(rng.integers(2, 7))
        n = int(rng.integers(20, 300))
        x = dataset_near_threshold(rng, n, m) * 10.0 ** rng.integers(-8, 9, m)
        dep, close = bic_rule(x)
        ctx.case(dict(n=n, m=m, data=x, scales="very different"), dep.any(), digest(x))
        with ctx.guarded():
            got = np.asarray(fit(x))
            ctx.expect(got.dtype == bool and np.array_equal(got[~close], dep[~close]),
                       "not the graph of the BIC rule", got=got, expected=dep)
            ctx.count("pairs judged", (~close[np.triu_indices(m, 1)]).sum())

    # repeated observations
    for i in range(ctx.pick(60, 600)):
        m, k, n = int(rng.integers(2, 6)), int(rng.integers(2, 12)), int(rng.integers(15, 80))
        if i % 3:  # correlations that are clear for k * n, but not for n observations
            z = rng.normal(size=(n, m))
            low, high = (np.sqrt(-np.expm1(-np.log(s) / s)) for s in (k * n, n))
            r = rng.uniform(low, high, m - 1)
            z[:, 1:] = z[:, 1:] * np.sqrt(1 - r**2) + r * z[:, :1]
            x = np.repeat(z, k, axis=0)[rng.permutation(k * n)]
        else:
            x = rng.integers(0, int(rng.integers(2, 4)), (k * n, m)).astype(float)
            x[: k * n // 2, 1] = x[: k * n // 2, 0]
            x[k * n // 2 :, 1] = 1 - x[k * n // 2 :, 0]
            some = rng.integers(0, k * n, int(2 * np.sqrt(k * n)))
            x[some, 1] = x[some, 0]
        if (x.std(0) == 0).any():
            continue
        dep, close = bic_rule(x)
        ctx.case(dict(n=k * n, m=m, repeated=k, first=x[:2]), dep.any(), digest(x))
        with ctx.guarded():
            got = np.asarray(fit(x))
            ctx.expect(got.dtype == bool and np.array_equal(got[~close], dep[~close]),
                       "not the graph of the BIC rule for repeated observations", got=got, expected=dep)
            ctx.count("pairs judged", (~close[np.triu_indices(m, 1)]).sum())

    # many variables, many observations
    def many(ctx, idx):
        rng = ctx.rng("c12 many", idx)
        for i in range(ctx.pick(2, 12)):
            m = int(rng.integers(11, 25))
            n = int(10 ** rng.uniform(1.8, 5.2))
            x = dataset_near_threshold(rng, n, m) if i % 2 else gen.dataset(rng, n, m)[1]
            x = x * 10.0 ** rng.integers(-3, 4) + rng.normal(size=m)
            x = x[:, rng.permutation(m)]
            dep, close = bic_rule(x)
            edges = dep[np.triu_indices(m, 1)]
            ctx.case(dict(n=n, m=m, first=x[:3]), edges.any() and not edges.all(), digest(x))
            with ctx.guarded():
                got = np.asarray(fit(x))
                ctx.expect(got.dtype == bool and got.shape == dep.shape and
                           np.array_equal(got[~close], dep[~close]),
                           "not the graph of the BIC rule", got=got, expected=dep)
                ctx.count("pairs judged", (~close[np.triu_indices(m, 1)]).sum())
                ctx.count("graphs of more than ten variables")
            if ctx.out_of_time(150, 840):
                return

    ctx.shards(many)
    ctx.require("graphs of more than ten variables", 8)
    ctx.require("pairs judged", 500)
    ctx.require("invariances judged", 100)


# ---------------------------------------------------------------- C13


def gaussian_state(model):
    p = model.parameters
    return tuple(np.array(a, copy=True) for a in (
        model.biadj, p.error_means, p.error_variances, p.biadj_weights))


def same_state(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


def c13(ctx):
    from medil.ecc_algorithms import find_heuristic_1pc
    from medil.models import GaussianMCM

    ctx.rule = (
        "random sequences of fits and samples of several models with a given structure (bool, int, "
        "float), a given graph or neither; compared with new models fitted in isolation; "
        "non-trivial: sequence with at least two fits of one model"
    )

    def shard(ctx, idx):
        rng = ctx.rng("c13", idx)
        for i in range(ctx.pick(30, 400)):
            m = int(rng.integers(2, 6)) if i % 9 != 4 else int(rng.integers(6, 10))
            datasets = []
            for _ in range(3):
                n = int(rng.integers(m + 3, 80))
                x = gen.dataset(rng, n, m)[1] * 10.0 ** rng.integers(-2, 3)
                datasets.append(x.astype(np.float32).astype(float) if rng.random() < 0.2 else x)
            models = []
            for _ in range(3):
                kind = ("biadj", "udg", "both", "nothing")[int(rng.integers(4))]
                kw = {}
                if kind in ("biadj", "both"):
                    b = gen.biadj(rng, int(rng.integers(1, 5)), m, 0.5)
                    if rng.random() < 0.15:  # without children
                        b = np.insert(b, int(rng.integers(len(b) + 1)), False, axis=0)
                    kw["biadj"] = b.astype((bool, int, float)[int(rng.integers(3))])
                if kind in ("udg", "both"):
                    u = gen.er(rng, m, 0.5)
                    if rng.random() < 0.5:
                        np.fill_diagonal(u, True)
                    kw["udg"] = u.astype((bool, int)[int(rng.integers(2))])
                models.append(dict(kind=kind, kw=kw, sha={k: digest(v) for k, v in kw.items()},
                                   model=None, state=None, structure=None))
            program = [(int(rng.integers(3)), int(rng.integers(3)), rng.random() < 0.3)
                       for _ in range(7)]
            ctx.case(dict(models=[(o["kind"], o["kw"]) for o in models], program=program,
                          datasets=[digest(x) for x in datasets], m=m), True)
            shas = [digest(x) for x in datasets]
            with ctx.guarded():
                for which, data, sample in program:
                    o = models[which]
                    x = datasets[data]
                    if o["model"] is None:
                        with ctx.lib("GaussianMCM"):
                            o["model"] = GaussianMCM(rng=np.random.default_rng(0), **o["kw"])
                    if sample and o["state"] is not None:
                        with ctx.lib("sample"):
                            o["model"].sample(5)
                        ctx.count("samples")
                    else:
                        with ctx.lib("fit", cpu=120):
                            got = o["model"].fit(x)
                        ctx.count("fits")
                        ctx.expect(got is o["model"], "fit doesn't return the model")
                        state = gaussian_state(o["model"])
                        b = state[0].astype(bool)
                        if o["structure"] is not None:
                            ctx.count("refits")
                            ctx.expect(np.array_equal(b, o["structure"]), "refitting changed the structure",
                                       before=o["structure"], after=b)
                        elif "biadj" in o["kw"]:
                            ctx.count("given structures")
                            ctx.expect(np.array_equal(b, o["kw"]["biadj"].astype(bool)),
                                       "given structure was changed", given=o["kw"]["biadj"], after=b)
                        elif "udg" in o["kw"]:
                            ctx.count("given graphs")
                            with ctx.lib("find_heuristic_1pc"):
                                want = np.asarray(find_heuristic_1pc(o["kw"]["udg"].copy()))
                            ctx.expect(np.array_equal(b, want.astype(bool)), "not the structure of the given graph",
                                       given=o["kw"]["udg"], got=b, expected=want)
                        else:
                            ctx.count("learned structures")
                            dep, close = bic_rule(x)
                            with ctx.lib("find_heuristic_1pc"):
                                want = np.asarray(find_heuristic_1pc(dep.copy()))
                            ctx.expect(close.any() or np.array_equal(b, want.astype(bool)),
                                       "not the structure of the data's graph", got=b, expected=want)
                        o["structure"] = b
                        with ctx.lib("fit of a new model", cpu=120):
                            new = GaussianMCM(biadj=b.copy())
                            new.fit(x.copy())
                        ctx.expect(same_state(state, gaussian_state(new)),
                                   "parameters differ from those of a new model with the same structure",
                                   got=state, expected=gaussian_state(new))
                        o["state"] = state
                    # nothing else has changed
                    for p in models:
                        if p["state"] is not None:
                            ctx.expect(same_state(p["state"], gaussian_state(p["model"])),
                                       "another operation changed a fitted model")
                        ctx.expect({k: digest(v) for k, v in p["kw"].items()} == p["sha"],
                                   "given matrices were changed", given=p["kw"])
                    ctx.expect([digest(v) for v in datasets] == shas, "datasets were changed")
            if ctx.out_of_time(120, 840):
                return

    ctx.shards(shard)
    for name in ("refits", "given structures", "given graphs", "learned structures"):
        ctx.require(name, 20)


# ---------------------------------------------------------------- C14


def canon_rows(b):
    return sorted(map(tuple, np.asarray(b).astype(int).tolist()))


def c14(ctx):
    from scipy.stats import chi2
    from medil.evaluate import sfd
    from medil.models import GaussianMCM
    from medil.sample import mcm

    ctx.rule = (
        "random one-pure-child models generated by the library, all correlations zero or at least "
        "0.08 in size, samples of 20000 to 50000 observations refitted; non-trivial: structure "
        "with connections and gaps"
    )

    def shard(ctx, idx):
        rng = ctx.rng("c14", idx)
        for i in range(ctx.pick(30, 350)):
            while True:
                m = int(rng.integers(2, 8)) if i % 7 != 3 else int(rng.integers(8, 13))
                seed = int(rng.integers(1 << 40))
                kw = [dict(num_meas=m, density=float(rng.random()) * (1 if m < 8 else 0.5)),
                      dict(num_meas=m, num_latent=int(rng.integers(1, m + 1)), density=0.4),
                      dict(biadj=gen.one_pure_child(rng, m))][i % 3]
                with ctx.lib("mcm"):
                    model = mcm(rng=np.random.default_rng(seed), **kw)
                b = np.asarray(model.biadj).astype(bool)
                w = np.asarray(model.parameters.biadj_weights)
                cov = w.T @ w + np.diag(model.parameters.error_variances)
                sd = np.sqrt(np.diag(cov))
                r = cov / np.outer(sd, sd)
                dep = gen.induced(b)
                if (np.abs(r[dep]) >= 0.08).all():
                    break
            n = int(rng.integers(20000, 50001))
            ctx.case(dict(structure=b, weights=w, seed=seed, n=n), b.any() and not b.all(), digest(w, n))
            with ctx.guarded():
                with ctx.lib("sample and fit", cpu=120):
                    model.rng = np.random.default_rng(seed + 1)
                    x = model.sample(n)
                    fitted = GaussianMCM().fit(x)
                ctx.count("models refitted")
                udg = np.asarray(fitted.udg).astype(bool)
                null = np.triu(~dep, 1)
                ctx.count("missed dependences", (np.triu(dep, 1) & ~udg).sum())
                ctx.count("dependent pairs", np.triu(dep, 1).sum())
                ctx.count("false dependences", (null & udg).sum())
                ctx.count("independent pairs", null.sum())
                ctx.count("millions of expected false dependences",
                          round(1e6 * null.sum() * chi2.sf(np.log(n), 1)))
                means = np.asarray(fitted.parameters.error_means)
                z = (means - model.parameters.error_means) / np.sqrt(np.diag(cov) / n)
                ctx.high("z score of means", np.abs(z).max())
                ctx.expect(np.abs(z).max() <= 7, "fitted means are off", got=means,
                           expected=model.parameters.error_means)
                off = ~np.eye(m, dtype=bool)
                if not np.array_equal(udg[off], dep[off]):
                    continue
                ctx.count("graphs recovered")
                got = np.asarray(fitted.biadj)
                ctx.need(canon_rows(got) == canon_rows(b), "another structure with the same graph",
                         got=got, expected=b)
                with ctx.lib("sfd"):
                    d = sfd(got.astype(bool), b)
                ctx.expect(tuple(d) == (0, 0), f"distance of equal structures: {d}")
                wf = np.asarray(fitted.parameters.biadj_weights)
                cf = wf.T @ wf + np.diag(fitted.parameters.error_variances)
                # |fit - true| <= |fit - sample| + |sample - true| <= 2 |sample - true|
                err = np.sqrt((np.outer(np.diag(cov), np.diag(cov)) + cov**2).sum() / n)
                ratio = np.linalg.norm(cf - cov) / err
                ctx.count("covariances judged")
                ctx.count("covariances off", ratio > 10)
                ctx.high("error of covariance / sampling error", min(ratio, 1e6))
            if ctx.out_of_time(120, 840):
                return

    ctx.shards(shard)
    c = lambda name: ctx.counters.get(name, 0)
    ctx.case_info = dict(note="all models of this run")
    expected = c("millions of expected false dependences") / 1e6
    ctx.expect(c("false dependences") <= expected + 7 * np.sqrt(2 * expected + 1),
               f"{c('false dependences')} false dependences, expected {expected:.2f}")
    ctx.expect(c("missed dependences") == 0, f"{c('missed dependences')} clear dependences missed")
    ctx.expect(c("graphs recovered") >= 0.7 * c("models refitted"),
               f"only {c('graphs recovered')} of {c('models refitted')} graphs recovered")
    # the least squares fit sometimes ends in a local minimum (see C11)
    ctx.expect(c("covariances off") <= max(4, 0.05 * c("covariances judged")),
               f"{c('covariances off')} of {c('covariances judged')} fitted covariances are off")
    ctx.require("graphs recovered", 50)


# ---------------------------------------------------------------- C27


def penalized(method, w, d, s, lam, mu):
    pen = lam * np.linalg.svd(w, compute_uv=False).sum() + mu * np.abs(w).sum()
    sigma = w.T @ w + np.diag(d)
    if method == "lse":
        return ((s - sigma) ** 2).sum() + pen
    sign, logdet = np.linalg.slogdet(sigma)
    return np.trace(np.linalg.solve(sigma, s)) + logdet + pen


def c27(ctx):
    import torch
    from medil.models import DevMedil

    ctx.rule = (
        "random datasets (7 to 300 observations of 2 to 5 variables), both methods, with and without "
        "penalties and one-pure-child assumption; own objective compared with reported one and with "
        "perturbed estimates and random starts; samples judged by their moments; non-trivial: all"
    )
    penalties = ((0.1, 0.1), (0, 0), (1, 0.01), (0.01, 1), (2, 2), (0, 0.5), (0.5, 0))

    def shard(ctx, idx):
        rng = ctx.rng("c27", idx)
        for i in range(ctx.pick(16, 220)):
            m = int(rng.integers(2, 6))
            pc = bool(rng.integers(2))
            k = m if pc else m * m // 4
            n = int(rng.integers(m + 5, 300))
            x = gen.dataset(rng, n, m)[1] + rng.normal(size=m)
            other = gen.dataset(rng, n, m)[1]
            seed = int(rng.integers(1 << 40))
            order = [("mle", "lse"), ("lse", "mle")][i % 2]
            pens = {me: penalties[int(rng.integers(len(penalties)))] for me in order}
            ctx.case(dict(data=x, one_pure_child=pc, order=order, penalties=pens, seed=seed), True,
                     digest(x, seed))
            with ctx.guarded():
                new = lambda: DevMedil(one_pure_child=pc, rng=np.random.default_rng(seed))
                with ctx.lib("DevMedil"):
                    model = new()
                for method in ("mle", "lse"):
                    refused(ctx, lambda: model.sample(3, method=method), f"sample by {method} before fit")
                refused(ctx, lambda: model.sample(3, method="map"), "sample by unknown method")
                refused(ctx, lambda: model.fit(x, method="map"), "fit by unknown method")
                with ctx.lib("DevMedil"):
                    model = new()  # a refused call may have used the generator
                est = {}
                sha = digest(x)
                for num, method in enumerate(order):
                    lam, mu = pens[method]
                    with ctx.lib(f"fit by {method}", cpu=120):
                        got = model.fit(x, method=method, lambda_reg=lam, mu_reg=mu)
                    ctx.count(f"fits by {method}")
                    ctx.expect(got is model, "fit doesn't return the model")
                    ctx.expect(digest(x) == sha, "dataset was changed")
                    told = [getattr(model, f"convergence_{a}_{method}", None) for a in ("success", "message")]
                    ctx.expect(told == [model.result.success, model.result.message],
                               "what is told about convergence isn't that of the optimizer", got=told)
                    if i % 4 == num and m < 4:  # penalties by default
                        with ctx.lib(f"fit by {method}", cpu=120):
                            twins = [new().fit(x, method=method), new().fit(x, method=method, lambda_reg=0.1, mu_reg=0.1),
                                     getattr(new(), f"fit_penalized_{method}")(x)]
                        ctx.count("fits with default penalties")
                        ctx.expect(all(np.array_equal(t.W_hat, twins[1].W_hat) and
                                       np.array_equal(t.D_hat, twins[1].D_hat) for t in twins),
                                   "penalties aren't 0.1 by default")
                    w, d = np.array(model.W_hat), np.array(model.D_hat)
                    ctx.need(w.shape == (k, m) and d.shape == (m, m), f"shapes {w.shape}, {d.shape}")
                    ctx.need(np.isfinite(w).all() and np.isfinite(d).all(), "estimates aren't finite")
                    ctx.expect(np.array_equal(d, np.diag(np.diag(d))), "error covariance isn't diagonal", got=d)
                    d = np.diag(d)
                    ctx.expect((d >= 0).all(), "negative error variance", got=d)
                    est[method] = w, d
                    s = np.cov(x, rowvar=False)
                    f = penalized(method, w, d, s, lam, mu)
                    tol = 1e-7 * (1 + abs(f)) * (1 + 1e-6 / max(d.min(), 1e-12)) + 1e-9
                    ctx.expect(abs(model.result.fun - f) <= tol,
                               f"reported objective {model.result.fun}, estimates have {f}", w=w, d=d)
                    validation = getattr(model, "validation_" + method)
                    with ctx.lib("validation"):
                        v = validation(lam, mu, x)
                        v2 = validation(lam, mu, other)
                        v3 = validation(3.0, 0.25, other)
                    ctx.expect(abs(v - f) <= tol, f"validation on training data {v}, objective {f}")
                    so = np.cov(other, rowvar=False)
                    for got, want in ((v2, penalized(method, w, d, so, lam, mu)),
                                      (v3, penalized(method, w, d, so, 3.0, 0.25))):
                        ctx.expect(abs(got - want) <= 1e-6 * (1 + abs(want)) *
                                   (1 + 1e-6 / max(d.min(), 1e-12)),
                                   f"validation on other data {got}, objective {want}")
                    # a minimum
                    starts = [penalized(method, rng.normal(size=w.shape), rng.random(m), s, lam, mu)
                              for _ in range(25)]
                    ctx.expect(f <= np.median(starts) + 1e-9, f"objective {f} is worse than random starts")
                    best = f
                    for sc in (1e-3, 1e-2, 0.1):
                        for _ in range(60):
                            step = rng.normal(size=w.shape) * (rng.random(w.shape) < 0.5)
                            best = min(best, penalized(method, w + sc * step, np.abs(
                                d + sc * rng.normal(size=m) * (rng.random(m) < 0.5)), s, lam, mu))
                    for a, c in itertools.product((0.9, 0.99, 1, 1.01, 1.1), repeat=2):
                        best = min(best, penalized(method, w * a, d * c, s, lam, mu))
                    for j in range(m):  # one variance after the other
                        for a in (0.8, 1.2):
                            e = d.copy()
                            e[j] *= a
                            best = min(best, penalized(method, w, e, s, lam, mu))
                    gain = (f - best) / (1 + abs(f))
                    kind = f"{method}, " + ("smooth" if (lam, mu) == (0, 0) else "penalized")
                    ctx.count(f"minima judged: {kind}")
                    ctx.count(f"not minimal: {kind}", gain > 1e-3)
                    ctx.high(f"possible gain: {kind}", gain)
                    if num == 0 and i % 2:
                        refused(ctx, lambda: model.sample(3, method=order[1]),
                                f"sample by {order[1]} before fitting by it")
                    if num == 0:  # determined by data and generator
                        np.random.seed(int(rng.integers(1 << 30)))
                        torch.manual_seed(int(rng.integers(1 << 30)))
                        with ctx.lib("DevMedil"):
                            noise = DevMedil(rng=np.random.default_rng(1))
                            noise.fit(other[:, :2], method=method)
                            noise.sample(2, method=method)
                            again = new().fit(x.copy(), method=method, lambda_reg=lam, mu_reg=mu)
                        ctx.expect(np.array_equal(again.W_hat, w) and np.array_equal(
                            np.diag(again.D_hat), d), "fitting again gives another result")
                        ctx.count("repetitions")
                # samples
                for method in ("mle", "lse"):
                    w, d = est[method]
                    cov = w.T @ w + np.diag(d)
                    size = 20000
                    with ctx.lib("sample"):
                        model.rng = np.random.default_rng(seed + 1)
                        y = np.asarray(model.sample(size, method=method))
                        tail = np.asarray(model.sample(5, method=method))
                        model.rng = np.random.default_rng(seed + 1)
                        y2 = np.asarray(model.sample(size, method=method))
                        default = np.asarray(model.sample(4)) if i % 3 == 0 else None
                    ctx.need(y.shape == (size, m) and tail.shape == (5, m), f"shape of sample {y.shape}")
                    ctx.expect(default is None or default.shape == (4, m), "shape of sample")
                    ctx.expect(np.array_equal(y, y2), "sample isn't determined by the generator")
                    ctx.expect(not np.array_equal(y[:5], tail) or not cov.any(), "repeated samples are the same")
                    ctx.count("samples judged")
                    sd = np.sqrt(np.diag(cov))
                    for j in range(m):
                        ctx.stat(f"mean of sample by {method}", y[:, j].mean(), 0, sd[j] / np.sqrt(size),
                                 slack=1e-6)
                    cy = np.cov(y, rowvar=False)
                    for a, c in itertools.combinations_with_replacement(range(m), 2):
                        ctx.stat(f"covariance of sample by {method}", cy[a, c], cov[a, c],
                                 np.sqrt((cov[a, a] * cov[c, c] + cov[a, c] ** 2) / size), slack=1e-6,
                                 z_max=7.5)
                    # independent normal observations
                    white = y @ (np.linalg.pinv(np.linalg.cholesky(cov + 1e-9 * np.eye(m))).T)
                    ok = d > 1e-4 * np.diag(cov)
                    if ok.all():
                        ctx.stat("excess kurtosis of sample", (white**4).mean() - 3, 0,
                                 np.sqrt(96 / white.size), slack=0.01)
                        ctx.stat("correlation of consecutive observations",
                                 (white[1:] * white[:-1]).mean(), 0, 1 / np.sqrt(white.size))
            if ctx.out_of_time(150, 840):
                return

    ctx.shards(shard)
    ctx.case_info = dict(note="all fits of this run")
    for key, total in sorted(ctx.counters.items()):
        if key.startswith("minima judged: "):
            kind = key.split(": ")[1]
            bad = ctx.counters[f"not minimal: {kind}"]
            # BFGS can get stuck, more often where the penalties aren't differentiable
            ctx.expect(bad <= max(4, (0.05 if "smooth" in kind else 0.25) * total),
                       f"{bad} of {total} estimates ({kind}) aren't local minima")
    for name in ("fits by mle", "fits by lse", "samples judged", "repetitions"):
        ctx.require(name, 30)


def refused(ctx, call, what):
    """A ValueError is expected."""
    ctx.count("refusals judged")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            call()
    except ValueError:
        ctx.count("oracle judgements")
        return
    except Exception as e:
        ctx.violate(f"{what} raised {type(e).__name__}: {e}, not ValueError")
        return
    ctx.violate(f"{what} isn't refused")


CHECKS = dict(C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C27=c27)
