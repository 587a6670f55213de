"""C15-C19: independence tests and the nonparametric dependence estimation."""

import json
import multiprocessing
import os
import pickle
import signal
import time
import types
import warnings

import numpy as np
from scipy.stats import chi2, kstest, norm
from scipy.stats import t as student

from . import gen, oracles
from .core import Skip, digest


# ---------------------------------------------------------------- references


def dcov_ref(x):
    """Matrix of squared sample distance covariances and mean distances."""
    x = np.asarray(x, float)
    n, m = x.shape
    flat = np.empty((m, n * n))
    bars = np.empty(m)
    for k in range(m):
        d = np.abs(x[:, k][:, None] - x[:, k][None, :])
        bars[k] = d.mean()
        flat[k] = (d - d.mean(0)[None, :] - d.mean(1)[:, None] + d.mean()).ravel()
    return flat @ flat.T / n**2, bars


def xi_ref(x, y, ties=True):
    """Chatterjee's coefficient and p-value, x without ties, by definition."""
    x, y = np.ravel(np.asarray(x)), np.ravel(np.asarray(y))
    n = len(x)
    order = np.argsort(x, kind="stable")
    y = y[order]
    r = (y[None, :] <= y[:, None]).sum(1)  # numbers of values <= y_i
    l = (y[None, :] >= y[:, None]).sum(1)
    denom = int((l * (n - l)).sum())
    xi = 1 - n * int(np.abs(np.diff(r)).sum()) / (2 * denom)
    if not ties:
        tau2 = 2 / 5
    else:
        u = np.sort(r).astype(float)
        i = np.arange(1, n + 1)
        v = np.cumsum(u)
        a = ((2 * n - 2 * i + 1) * u**2).sum() / n**4
        b = ((v + (n - i) * u) ** 2).sum() / n**5
        c = ((2 * n - 2 * i + 1) * u).sum() / n**3
        tau2 = (a - 2 * b + c**2) / (denom / n**3) ** 2
    return xi, float(norm.sf(np.sqrt(n) * xi / np.sqrt(tau2)))


def dcor_t_ref(x, y):
    """p-value of the distance correlation t-test (Szekely and Rizzo 2013)."""

    def u_center(z):
        n = len(z)
        d = np.abs(z[:, None] - z[None, :])
        s = d.sum(0)
        c = d - s[None, :] / (n - 2) - s[:, None] / (n - 2) + d.sum() / ((n - 1) * (n - 2))
        np.fill_diagonal(c, 0)
        return c

    x, y = np.asarray(x, float), np.asarray(y, float)
    n = len(x)
    a, b = u_center(x), u_center(y)
    r = (a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum())
    v = n * (n - 3) / 2
    stat = np.sqrt(v - 1) * r / np.sqrt(1 - r**2)
    return float(student.sf(stat, v - 1))


def sample(rng, n, m):
    """A dataset, without ties so that xi is unambiguous."""
    kind, x = gen.dataset(rng, n, m)
    x = x * 10.0 ** rng.integers(-3, 4) + rng.integers(-5, 6)
    return kind, x


def layout(rng, x):
    which = int(rng.integers(4))
    if which == 0:
        return np.asfortranarray(x)
    if which == 1:
        big = np.zeros((2 * len(x), x.shape[1] + 1), x.dtype)
        big[::2, 1:] = x
        return big[::2, 1:]
    return x


# ---------------------------------------------------------------- C15


def judge_udg(ctx, udg, m, what):
    ctx.need(isinstance(udg, np.ndarray) and udg.shape == (m, m), f"{what}: shape", got=np.shape(udg))
    ctx.expect(udg.dtype == bool, f"{what}: dependence graph isn't boolean", dtype=str(udg.dtype))
    ctx.expect(np.array_equal(udg, udg.T), f"{what}: dependence graph isn't symmetric", got=udg)
    ctx.expect(not np.diag(udg).any(), f"{what}: self-dependence", got=udg)
    ctx.count("dependence graphs judged")


def c15(ctx):
    from medil.independence_testing import estimate_UDG

    ctx.rule = (
        "random datasets with 2-24 variables (so up to 276 pairs), all methods and several "
        "significance levels; each pair compared with reference implementations of the tests; "
        "non-trivial: both dependent and independent pairs occur"
    )
    rng = ctx.rng("c15")
    alphas = (0.05, 0.01, 0.2, 0.5, 0.001)
    sizes = [2, 3, 5, 15, 16, 18, 22]
    for i in range(ctx.pick(26, 260)):
        m = sizes[i % len(sizes)] if i < 14 else int(rng.integers(2, 25))
        n = int(rng.integers(12, 70))
        if i % 13 == 5:  # many observations
            m, n = 4, (1200, 2200, 3300)[i // 13 % 3] + int(rng.integers(100))
        elif i % 13 == 9:  # many variables
            m, n = (50, 70)[i // 13 % 2], 15
        kind, x = sample(rng, n, m)
        if i % 4 == 3:  # far from the origin
            far = x + x.std() * 10.0 ** rng.integers(2, 8) * rng.normal(size=m)
            if all(len(np.unique(far[:, k])) == n for k in range(m)):
                x = far
                ctx.count("datasets far from the origin")
        x = layout(rng, x)
        alpha = alphas[i % len(alphas)]
        iu = np.triu_indices(m, 1)
        for method in ("xicor", "dcov_big") if i % 2 or m > 14 else ("xicor",):
            ctx.case(dict(method=method, n=n, m=m, alpha=alpha, kind=kind, first=x[:2]), True,
                     digest(x, method))
            with ctx.guarded():
                before = digest(x)
                with ctx.lib(f"estimate_UDG({method})", cpu=240):
                    kw = {} if alpha == 0.05 else dict(significance_level=alpha)
                    udg, p = estimate_UDG(x, method=method, **kw)
                ctx.expect(digest(x) == before, "dataset was changed")
                judge_udg(ctx, udg, m, method)
                p = np.asarray(p)
                ctx.need(p.shape == (m, m), f"{method}: shape of p-values", got=p.shape)
                ctx.expect(np.array_equal(p, p.T), f"{method}: p-values aren't symmetric")
                for a, b in zip(*iu):
                    ref = (xi_ref if method == "xicor" else lambda u, v: (0, dcor_t_ref(u, v)))(
                        x[:, a], x[:, b])[1]
                    ctx.count("pairs compared")
                    if not ctx.expect(abs(p[a, b] - ref) <= 1e-7 + 1e-5 * ref,
                                      f"{method}: p-value of {a}, {b} is {p[a, b]}, not {ref}"):
                        break
                    if not ctx.expect(udg[a, b] == (p[a, b] < alpha),
                                      f"{method}: p-value {p[a, b]}, level {alpha}, "
                                      f"dependent: {udg[a, b]}"):
                        break
                ctx.count("dependent pairs", udg[iu].sum())
                ctx.count("independent pairs", (~udg[iu]).sum())
                # given p-values
                for lev in (alpha, 0.3, float(p[0, 1])):
                    given = p.copy()
                    with ctx.lib("estimate_UDG(p-values)"):
                        out, back = estimate_UDG(x, method=given, significance_level=lev)
                    judge_udg(ctx, out, m, "p-values")
                    want = given < lev
                    np.fill_diagonal(want, False)
                    ctx.expect(np.array_equal(out, want), f"given p-values at level {lev}",
                               got=out, p=given)
                    ctx.expect(np.array_equal(given, p) and np.array_equal(back, p),
                               "given p-values were changed")
    for i in range(ctx.pick(150, 2500)):
        m, n = int(rng.integers(2, 26)), int(rng.integers(8, 150))
        if i % 50 == 20:
            m, n = 3, (1200, 2200, 4200)[i // 50 % 3] + int(rng.integers(100))
        elif i % 50 == 40:  # many variables
            m, n = (129, 257, 300)[i // 50 % 3], int(rng.integers(12, 40))
        kind, x = sample(rng, n, m)
        x = layout(rng, x)
        alpha = alphas[i % len(alphas)]
        ctx.case(dict(method="dcov_fast", n=n, m=m, alpha=alpha, kind=kind, first=x[:2]), True,
                 digest(x))
        with ctx.guarded():
            before = digest(x)
            with ctx.lib("estimate_UDG(dcov_fast)", cpu=60):
                kw = {} if i % 7 == 0 else dict(method="dcov_fast")
                udg, p = estimate_UDG(x, significance_level=alpha, **kw)
            ctx.expect(digest(x) == before, "dataset was changed")
            judge_udg(ctx, udg, m, "dcov_fast")
            cov, bars = dcov_ref(x)
            stat = n * cov / np.outer(bars, bars)
            crit = chi2.isf(alpha, 1)
            clear = np.abs(stat / crit - 1) > 1e-9
            np.fill_diagonal(clear, False)
            wrong = (udg != (stat >= crit)) & clear
            ctx.expect(not wrong.any(), "dcov_fast decisions", pairs=np.argwhere(wrong)[:5],
                       stat=stat[wrong][:5], crit=crit)
            ctx.count("pairs compared", m * (m - 1) // 2)
            ctx.count("dependent pairs", udg[iu].sum() if False else np.triu(udg, 1).sum())
            ctx.count("independent pairs", m * (m - 1) // 2 - np.triu(udg, 1).sum())
    # constant variables, for which p-values are undefined
    for i in range(ctx.pick(24, 300)):
        m, n = int(rng.integers(2, 7)), int(rng.integers(12, 60))
        kind, x = sample(rng, n, m)
        method = ("dcov_fast", "xicor", "dcov_big", "dcov_fast")[i % 4]
        # as the first variable of a xi correlation, it's as good as independent noise
        c = m - 1 if method == "xicor" else int(rng.integers(m))
        x[:, c] = rng.choice([0, 1, -2.5, 0.1])
        alpha = (0.05, 0.01, 0.2)[i % 3]
        ctx.case(dict(method=method, n=n, m=m, alpha=alpha, kind=kind, constant=c), True, digest(x, method))
        with ctx.guarded(), np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with ctx.lib(f"estimate_UDG({method})", cpu=240):
                udg, p = estimate_UDG(x, method=method, significance_level=alpha)
            judge_udg(ctx, udg, m, method)
            ctx.expect(not udg[c].any(), "a constant variable is dependent on others", got=udg, p=p)
            ctx.count("constant variables")
            if m > 2:
                with ctx.lib(f"estimate_UDG({method})", cpu=240):
                    rest, _ = estimate_UDG(np.delete(x, c, 1), method=method, significance_level=alpha)
                ctx.expect(np.array_equal(np.delete(np.delete(udg, c, 0), c, 1), rest),
                           "a constant variable changes dependences of others", got=udg, without=rest)
            if p is not None:
                with ctx.lib("estimate_UDG(p-values)"):
                    again, _ = estimate_UDG(x, method=np.array(p), significance_level=alpha)
                ctx.expect(np.array_equal(again, udg), "given p-values, some of them undefined", got=again, p=p)
    ctx.require("pairs compared", 1000)
    ctx.require("dependent pairs", 100)
    ctx.require("independent pairs", 100)


# ---------------------------------------------------------------- C16


class Fault(Exception):
    """Injected into one test."""


FAULTS = (Fault("injected"), MemoryError("injected"), ValueError("injected"), FloatingPointError("injected"),
          ZeroDivisionError("injected"), np.linalg.LinAlgError("injected"), RuntimeError("injected"),
          TypeError("injected"), IndexError("injected"), OverflowError("injected"), OSError("injected"))


def in_subprocess(ctx, func, timeout):
    """Runs func in a forked process group; ('ok', result), ('raised', text),
    ('hung', None) or ('died', None), and the processes it left behind."""
    path = os.path.join(ctx.scratch, f"sub-{time.time_ns()}")
    pid = os.fork()
    if pid == 0:
        os.setsid()
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            try:
                out = ("ok", func())
            except BaseException as e:
                out = ("raised", f"{type(e).__name__}: {e}")
            for _ in range(100):
                left = len(multiprocessing.active_children())
                if left == 0:
                    break
                time.sleep(0.05)
            with open(path + ".tmp", "wb") as f:
                pickle.dump((out, left), f)
            os.rename(path + ".tmp", path)
        finally:
            os._exit(0)
    end = time.time() + timeout
    while time.time() < end:
        done, _ = os.waitpid(pid, os.WNOHANG)
        if done:
            break
        time.sleep(0.02)
    else:
        os.killpg(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return ("hung", None), 0
    # daemonic workers that outlive the call are in the same process group
    left_group = group_members(pid)
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    if not os.path.exists(path):
        return ("died", None), left_group
    with open(path, "rb") as f:
        out, left = pickle.load(f)
    os.remove(path)
    return out, max(left, left_group)


def group_members(pgid):
    num = 0
    for _ in range(40):  # grace for processes just exiting
        num = 0
        for entry in os.listdir("/proc"):
            if entry.isdigit():
                try:
                    with open(f"/proc/{entry}/stat") as f:
                        fields = f.read().rsplit(")", 1)[1].split()
                    if int(fields[2]) == pgid and fields[0] not in "ZX":
                        num += 1
                except (OSError, IndexError):
                    pass
        if num == 0:
            return 0
        time.sleep(0.05)
    return num


def hook_test(func, before):
    """Replaces the code of a function in place, so that it's still the same (picklable) object,
    however it was imported: before(arguments) runs first, in the worker."""
    if not isinstance(func, types.FunctionType) or func.__closure__:
        return None
    name = func.__name__
    original = types.FunctionType(func.__code__, func.__globals__, name, func.__defaults__)
    original.__kwdefaults__ = func.__kwdefaults__
    hook = f"_verif_{name}"

    def run(*args, **kwargs):
        before(args)
        return original(*args, **kwargs)

    func.__globals__[hook] = run
    space = {}
    exec(f"def {name}(*args, **kwargs):\n    return {hook}(*args, **kwargs)\n", space)
    saved = func.__code__, func.__defaults__, func.__kwdefaults__
    func.__code__ = space[name].__code__

    def undo():
        func.__code__, func.__defaults__, func.__kwdefaults__ = saved
        del func.__globals__[hook]

    return undo


def pair_digest(args):
    try:
        pair = np.asarray(args[0] if len(args) == 1 else args[:2])
    except ValueError:
        return ""
    return digest(np.ascontiguousarray(pair))


def rank_digest(args):
    """As above, of the order of the observations: the same if shifted or scaled."""
    try:
        pair = np.asarray(args[0] if len(args) == 1 else args[:2], float).reshape(2, -1)
    except (ValueError, TypeError):
        return ""
    return digest(np.argsort(pair, axis=1, kind="stable"))


def c16(ctx):
    from medil import independence_testing as it

    ctx.rule = (
        "datasets with 2-85 variables tested with 1-16 reported processors and random delays of "
        "individual tests (long ones first, last, or anywhere), compared with testing one after "
        "another; a failure (11 exceptions, in the test or in the computation below it) injected "
        "into a random test of each call; non-trivial: several workers took part, or a failure "
        "was injected; workers also started by spawn and forkserver"
    )
    rng = ctx.rng("c16")
    log = os.path.join(ctx.scratch, "events")

    def event(**kw):
        fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (json.dumps(kw) + "\n").encode())
        os.close(fd)

    def events():
        if not os.path.exists(log):
            return []
        with open(log) as f:
            out = [json.loads(line) for line in f]
        os.remove(log)
        return out

    def call(x, method, cpus, delays=None, fail=None):
        """delays: seconds by index of the pair; fail: the pair that fails, exception and whether
        it's the test itself or the computation below it that fails."""
        if fail is not None:
            ranks = rank_digest((fail[0],))
            fail = (pair_digest((fail[0],)),) + fail[1:]
        iu = zip(*np.triu_indices(x.shape[1], 1))
        index = {digest(np.ascontiguousarray(x[:, [a, b]].T)): k for k, (a, b) in enumerate(iu)}

        def run():
            os.cpu_count = lambda: cpus
            if hasattr(os, "process_cpu_count"):
                os.process_cpu_count = lambda: cpus
            multiprocessing.cpu_count = lambda: cpus
            if hasattr(it, "cpu_count"):
                it.cpu_count = lambda: cpus

            def before(args):
                key = pair_digest(args)
                event(pid=os.getpid(), pair=key, t=time.monotonic())
                if delays is not None:
                    time.sleep(delays(index.get(key, 0), int(key[:6], 16)))
                if fail is not None and key == fail[0] and fail[2] == "test":
                    event(pid=os.getpid(), failed=key)
                    raise fail[1]

            def below(args):
                if rank_digest(args) == ranks:
                    event(pid=os.getpid(), failed=fail[0])
                    raise fail[1]

            for name in ("xicor_test", "dcor_test"):
                hook_test(getattr(it, name, None), before)
            if fail is not None and fail[2] == "computation":
                import dcor.independence

                for func in (getattr(it, "xicorr", None), dcor.independence.distance_correlation_t_test):
                    hook_test(func, below)
            return it.estimate_UDG(x, method=method)

        return in_subprocess(ctx, run, 240)

    # workers that are started in other ways, and so have nothing in common with this process
    for i in range(ctx.pick(3, 12)):
        m, n = [5, 22, 2, 16][i % 4], int(rng.integers(12, 30))
        kind, x = sample(rng, n, m)
        start, method = ("spawn", "forkserver")[i % 2], ("xicor", "dcov_big")[i % 3 % 2]
        ctx.case(dict(method=method, start=start, n=n, m=m, kind=kind), True, digest(x, start))
        test = it.xicor_test if method == "xicor" else it.dcor_test
        iu = np.triu_indices(m, 1)
        with ctx.guarded():
            with ctx.lib(f"{method} test", cpu=120):
                serial = np.array([test(x[:, [a, b]].T) for a, b in zip(*iu)])

            def run():
                multiprocessing.set_start_method(start, force=True)
                return it.estimate_UDG(x, method=method)

            (status, out), _ = in_subprocess(ctx, run, 240)
            ctx.need(status == "ok", f"call with workers started by {start} {status}: {out}")
            ctx.count("calls with workers started in other ways")
            ctx.expect(np.array_equal(np.asarray(out[1])[iu], serial),
                       f"p-values differ if workers are started by {start}")
    cases = ctx.pick(16, 110)
    for i in range(cases):
        m = [32, 85, 17, 6, 46, 15, 75, 25, 32, 2, 17, 6, 46, 15, 3, 25][i % 16]
        n = int(rng.integers(12, 30))
        kind, x = sample(rng, n, m)
        method = "xicor" if i % 3 else "dcov_big"
        iu = np.triu_indices(m, 1)
        test = it.xicor_test if method == "xicor" else it.dcor_test
        with ctx.guarded():
            serial = np.zeros((m, m))
            with ctx.lib(f"{method} test", cpu=120):
                for a, b in zip(*iu):
                    serial[a, b] = serial[b, a] = test(x[:, [a, b]].T)
            pairs = len(iu[0])
            delays_ = [
                lambda k, r: 0.5 * (k == 0),  # the first chunk is finished last
                lambda k, r: 0.1 * (r % 40 == 0),  # anywhere
                lambda k, r: 0.4 * (k % 100 == 99) * (r % 2),  # some chunks
                lambda k, r: 0.3 * max(0, 1 - k / 100) * (k % 20 == 0),  # decreasing
            ]
            configs = [(1, None), (int(rng.integers(8, 17)), delays_[i % 4]),
                       (int(rng.integers(2, 17)), delays_[(i + 1 + i // 4) % 4])]
            if i == 3:  # longer than any sensible patience
                seconds = ctx.pick(20, 70)
                configs[0] = 3, lambda k, r: seconds * (k == pairs // 2)
            for cpus, delays in configs:
                ctx.case(dict(method=method, n=n, m=m, cpus=cpus, delays=bool(delays), kind=kind),
                         cpus > 1, digest(x, cpus))
                with ctx.guarded():
                    (status, out), left = call(x, method, cpus, delays)
                    seen = [e for e in events() if "pair" in e]
                    ctx.count("tests observed in workers", len(seen))
                    ctx.high("worker processes of one call", len({e["pid"] for e in seen}))
                    ctx.count(f"calls with {min(len({e['pid'] for e in seen}), 4)} workers (4: or more)")
                    ctx.need(status == "ok", f"call {status}: {out}", cpus=cpus)
                    udg, p = out
                    ctx.expect(np.array_equal(np.asarray(p)[iu], serial[iu]),
                               "p-values differ from testing one after another",
                               wrong=np.argwhere(np.asarray(p) != serial)[:5])
                    ctx.expect(np.array_equal(np.asarray(p), np.asarray(p).T), "asymmetric p-values")
                    want = serial < 0.05
                    np.fill_diagonal(want, False)
                    ctx.expect(np.array_equal(udg, want), "dependences differ")
                    ctx.expect(left == 0, f"{left} worker processes left behind")
                    order = [e["pair"] for e in sorted(seen, key=lambda e: e["t"])]
                    ctx.distinct.add(digest(order))
            # a failing test
            k = int(rng.integers(pairs)) if i % 3 else (0 if i % 2 else pairs - 1)
            a, b = iu[0][k], iu[1][k]
            exc, where = FAULTS[i % len(FAULTS)], ("computation", "test")[i % 5 % 2]
            cpus = int(rng.integers(1, 13))
            ctx.case(dict(method=method, n=n, m=m, cpus=cpus, fails=[int(a), int(b)],
                          exception=repr(exc), where=where), True, digest(x, "fault", cpus))
            with ctx.guarded():
                (status, out), left = call(x, method, cpus, None, (x[:, [a, b]].T, exc, where))
                failed = [e for e in events() if "failed" in e]
                if not failed:
                    ctx.count("faults not reached")
                    raise Skip
                ctx.count(f"faults injected into the {where}", len(failed))
                ctx.expect(status == "raised", f"test of a pair failed, but the call {status}",
                           result=out if status != "ok" else "result returned")
                ctx.expect(left == 0, f"{left} worker processes left behind after a failure")
        if ctx.out_of_time(240, 800):
            break
    ctx.require("oracle judgements", 50)


# ---------------------------------------------------------------- C17


def c17(ctx):
    from medil.independence_testing import dcov

    ctx.rule = (
        "random datasets with 2-120 and 1100-4300 observations of 1-9 variables: continuous, with ties, binary, "
        "constant, with large offsets and scales, compared with the definition, and transformed "
        "copies compared with each other; non-trivial: some nonconstant variable"
    )
    rng = ctx.rng("c17")

    def run(x):
        before = digest(x)
        with ctx.lib("dcov", cpu=60):
            cov, bars = dcov(x)
        ctx.expect(digest(x) == before, "dataset was changed")
        ctx.count("matrices computed")
        return np.asarray(cov), np.asarray(bars)

    large = (1100, 2300, 4200, 3100)
    for i in range(ctx.pick(900, 15000)):
        n = int(rng.integers(2, 9)) if i % 3 == 0 else int(rng.integers(2, 121))
        m = int(rng.integers(1, 10))
        if i % 225 == 100:
            n, m = large[i // 225 % 4] + int(rng.integers(100)), 2
        x = gen.dataset(rng, n, m)[1]
        for j in range(m):
            what = int(rng.integers(8))
            if what == 0:
                x[:, j] = rng.integers(0, 3, n)
            elif what == 1:
                x[:, j] = rng.random(n) < 0.3
            elif what == 2:
                x[:, j] = rng.normal() * 100
            elif what == 3:
                x[:, j] *= 10.0 ** rng.integers(-8, 9)
            elif what == 4:
                x[:, j] += 10.0 ** rng.integers(0, 5)
            elif what == 5 and j:
                x[:, j] = x[:, 0] ** 2
        if i % 11 == 0:
            x = np.round(3 * np.clip(x, -1e6, 1e6)).astype(int)
        x = layout(rng, x)
        ctx.case(dict(n=n, m=m, data=x), bool((np.ptp(x, 0) > 0).any()), digest(x))
        with ctx.guarded():
            cov, bars = run(x)
            ref, rbars = dcov_ref(x)
            ctx.need(cov.shape == (m, m) and bars.shape == (m,), "shapes", got=[cov.shape, bars.shape])
            off = np.abs(x).max(0) if n else 0
            scale = rbars + 1e-12 * off + 1e-300
            tol = 1e-9 * np.outer(scale, scale) + 1e-12 * np.outer(off, off) * 1e-3
            ctx.expect((np.abs(bars - rbars) <= 1e-9 * scale).all(), "mean distances",
                       got=bars, expected=rbars)
            ctx.expect((np.abs(cov - ref) <= tol).all(), "distance covariances",
                       got=cov, expected=ref)
            ctx.expect((cov >= -tol).all(), "negative distance covariance", got=cov)
            ctx.expect((np.abs(cov - cov.T) <= tol).all(), "not symmetric", got=cov)
            const = np.ptp(x, 0) == 0
            ctx.expect((np.abs(cov[const]) <= tol[const]).all() and (bars[const] == 0).all(),
                       "constant variable", got=cov)
            xf = np.asarray(x, float)
            c = 2.0 ** rng.integers(-9, 10, m) * rng.choice([-1, 1], m)
            shift = rng.integers(-3, 4, m) * np.ptp(xf, 0)
            y = (xf * c + shift * c)[rng.permutation(n)]
            cov2, bars2 = run(y)
            s = np.abs(c)
            off = np.abs(xf).max(0) + np.abs(shift)
            tol = 1e-9 * np.outer(scale, scale) + 1e-13 * np.outer(off, off)
            ctx.expect((np.abs(cov2 / np.outer(s, s) - cov) <= tol).all(),
                       "shift, scaling, reflection, reordering of observations", got=cov2, before=cov)
        if ctx.out_of_time(120, 840):
            break
    ctx.require("matrices computed", 500)


# ---------------------------------------------------------------- C18


def c18(ctx):
    from medil.independence_testing import xicor_test, xicorr

    ctx.rule = (
        "random sequences of length 3-300, 1500-5100 (first one without ties; second one continuous, with "
        "ties, binary, a function of the first), lists, integers and matrices, compared with the "
        "definition; transformed copies; non-trivial: second sequence isn't constant"
    )
    rng = ctx.rng("c18")

    def run(x, y, **kw):
        with ctx.lib("xicorr", cpu=60):
            out = xicorr(x, y, **kw)
        ctx.count("coefficients computed")
        return float(out.correlation), float(out.pvalue)

    for i in range(ctx.pick(2500, 40000)):
        n = int(rng.integers(3, 12)) if i % 3 == 0 else int(rng.integers(3, 301 if i % 10 == 0 else 90))
        if i % 500 == 250:
            n = (1500, 3000, 5000)[i // 500 % 3] + int(rng.integers(100))
        x = rng.normal(size=n) if i % 2 else rng.permutation(n).astype((float, int)[i % 4 // 2])
        kind = int(rng.integers(8))
        if kind <= 1:
            y = rng.normal(size=n)
        elif kind == 2:
            y = rng.integers(0, 4, n)
        elif kind == 3:
            y = (rng.random(n) < 0.3).astype(int)
        elif kind == 4:
            y = np.round(np.asarray(x, float) + rng.normal(size=n), 0)
        elif kind == 5:
            y = np.sin(np.asarray(x, float))
        elif kind == 6:
            y = np.abs(x) * -1.0
        else:
            y = np.where(rng.random(n) < 0.5, 0.0, rng.normal(size=n))
        if np.ptp(y) == 0:
            continue
        ctx.case(dict(x=x, y=y), True, digest(x, y))
        with ctx.guarded():
            for ties in (True, False):
                xi, p = run(x, y) if ties and i % 2 else run(x, y, ties=ties)
                rxi, rp = xi_ref(x, y, ties)
                ctx.expect(abs(xi - rxi) <= 1e-9, f"coefficient {xi}, not {rxi}")
                if np.isnan(rp):
                    continue
                if not ctx.expect(abs(p - rp) <= 1e-9 + 1e-6 * rp,
                                  f"p-value {p}, not {rp} (ties={ties})"):
                    continue
            xi, p = run(x, y)
            before = digest(x, y)
            as_ = i % 4
            if as_ == 0:
                same = run(list(x), list(y))
            elif as_ == 1 and n % 2 == 0:
                same = run(x.reshape(2, -1), y.reshape(2, -1))
            else:
                order = rng.permutation(n)
                same = run(x[order], y[order])
            ctx.expect(np.allclose(same, (xi, p), atol=1e-9, equal_nan=True),
                       "type, shape or order of observations matters", got=same, before=(xi, p))
            xs, ys = np.unique(x, return_inverse=True)[1], np.unique(y, return_inverse=True)[1]
            grow = np.sort(rng.normal(size=n)) * 10
            same = run(grow[xs] if len(np.unique(grow)) == n else xs, ys.astype(float) ** 3 - 7)
            ctx.expect(np.allclose(same, (xi, p), atol=1e-9, equal_nan=True),
                       "increasing transformations matter", got=same, before=(xi, p))
            ctx.expect(digest(x, y) == before, "a sequence was changed")
            with ctx.lib("xicor_test"):
                pv = float(xicor_test(np.array([x, y])))
            ctx.expect(np.isclose(pv, p, atol=1e-9, equal_nan=True), "xicor_test", got=pv)
            if i % 20 == 0:
                rejected = False
                try:
                    xicorr(x, y[:-1])
                except ValueError:
                    rejected = True
                except Exception as e:
                    ctx.violate(f"unequal lengths raise {type(e).__name__}")
                ctx.expect(rejected, "unequal lengths aren't rejected")
                with ctx.lib("xicorr of empty sequences"):
                    out = xicorr([], [])
                ctx.expect(np.isnan(out.correlation) and np.isnan(out.pvalue), "empty sequences",
                           got=list(out))
        if ctx.out_of_time(120, 840):
            break
    ctx.require("coefficients computed", 1000)


# ---------------------------------------------------------------- C19


def c19(ctx):
    from medil.independence_testing import estimate_UDG

    ctx.rule = (
        "datasets of independent variables of seven distributions (rates of false dependences and "
        "of small p-values compared with their levels, 6 standard deviations plus the accuracy "
        "of the asymptotics) and of functionally related pairs of variables; non-trivial: all"
    )
    rng = ctx.rng("c19")

    def variable(kind, n):
        return {
            "normal": lambda: rng.normal(size=n),
            "uniform": lambda: rng.random(n),
            "exponential": lambda: rng.exponential(size=n),
            "t3": lambda: rng.standard_t(3, size=n) * 50 + 7,
            "poisson": lambda: rng.poisson(2.0, n).astype(float),
            "binary": lambda: (rng.random(n) < 0.4).astype(float),
            "bimodal": lambda: rng.normal(size=n) * 0.3 + rng.choice([-2, 2], n),
        }[kind]()

    kinds = ("normal", "uniform", "exponential", "t3", "poisson", "binary", "bimodal")
    continuous = [k for k in kinds if k not in ("poisson", "binary")]
    for method, n, datasets in (("dcov_fast", 200, ctx.pick(40, 500)),
                                ("xicor", 200, ctx.pick(24, 250)),
                                ("dcov_big", 60, ctx.pick(8, 80))):
        for alpha in (0.05, 0.2) if method != "dcov_big" else (0.05,):
            hits = total = small = 0
            pvals = []
            for i in range(datasets):
                m = 16
                x = np.column_stack([variable(kinds[(i + j) % 7] if i % 3 else
                                              kinds[i % 7], n) for j in range(m)])
                if method == "xicor":  # x-ties are broken by position, which is as good as random
                    x = x[rng.permutation(n)]
                ctx.case(dict(method=method, n=n, alpha=alpha, dataset=i, independent=True), True,
                         digest(x, method, alpha))
                with ctx.lib(f"estimate_UDG({method})", cpu=240):
                    udg, p = estimate_UDG(x, method=method, significance_level=alpha)
                iu = np.triu_indices(m, 1)
                hits += int(np.asarray(udg)[iu].sum())
                total += len(iu[0])
                if p is not None:
                    pvals.append(np.asarray(p)[iu])
            ctx.count("independent pairs tested", total)
            # pairs within a dataset are nearly, but not exactly, independent: factor 2
            sd = 2 * np.sqrt(alpha * (1 - alpha) / total)
            rate = hits / total
            ctx.high(f"false dependences {method} {alpha}", rate)
            ctx.expect(rate <= alpha + 6 * sd + 0.012,
                       f"{method} declares {rate:.3f} of independent pairs dependent at level {alpha}")
            if pvals:
                pvals = np.concatenate(pvals)
                for lev in (0.01, 0.1):
                    small = (pvals < lev).mean()
                    sd = 2 * np.sqrt(lev * (1 - lev) / len(pvals))
                    ctx.high(f"p-values below {lev} {method}", small)
                    ctx.expect(small <= lev + 6 * sd + 0.012,
                               f"{method}: {small:.3f} of p-values below {lev}")
                ctx.expect((pvals >= 0).all() and (pvals <= 1).all(), f"{method}: p-values in [0, 1]")

    functions = {
        "linear": lambda x: 3 * x + 1,
        "decreasing": lambda x: -x,
        "square": lambda x: x**2,
        "absolute": np.abs,
        "sine": lambda x: np.sin(2 * x),
        "cosine": lambda x: np.cos(1.5 * x),
        "step": lambda x: np.floor(2 * x),
        "w-shape": lambda x: (x**2 - 1) ** 2,
        "exponential": np.exp,
    }
    n = 400
    power = {}
    for i in range(ctx.pick(10, 150)):
        noise = 0.0 if i % 2 else 0.05
        cols, pairs = [], []
        for name, f in functions.items():
            x = rng.normal(size=n) if i % 3 else rng.uniform(-2, 2, n)
            y = f(x)
            y = y + noise * y.std() * rng.normal(size=n)
            s = 10.0 ** rng.integers(-4, 5, 2)
            pairs.append((name, len(cols), len(cols) + 1))
            cols += [x * s[0], y * s[1]]
        data = np.column_stack(cols)
        for method in ("dcov_fast", "xicor") + (("dcov_big",) if i % 5 == 0 else ()):
            ctx.case(dict(method=method, n=n, noise=noise, functions=list(functions)), True,
                     digest(data, method))
            with ctx.lib(f"estimate_UDG({method})", cpu=240):
                udg, _ = estimate_UDG(data, method=method)
            for name, a, b in pairs:
                hit, num = power.get((method, name), (0, 0))
                power[method, name] = hit + bool(udg[a, b]), num + 1
                ctx.count("functionally related pairs tested")
        if ctx.out_of_time(240, 800):
            break
    for (method, name), (hit, num) in power.items():
        ctx.expect(hit >= 0.9 * num or num - hit <= 1 and num > 3,
                   f"{method} misses {num - hit} of {num} pairs related by '{name}'")
        ctx.high(f"misses of {method}", num - hit)
    ctx.require("independent pairs tested", 1000)


CHECKS = dict(C15=c15, C16=c16, C17=c17, C18=c18, C19=c19)
