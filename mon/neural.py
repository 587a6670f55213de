"""C22-C26: neural causal factor analysis. Forward passes of encoders and decoders and optimizer
steps are recorded by hooks of torch, file accesses by an audit hook of the interpreter."""

import copy
import io
import itertools
import os
import pickle
import re
import subprocess
import sys
import warnings

import numpy as np
from scipy.spatial import cKDTree
from scipy.stats import kstest

from . import gen, structure
from .core import REPO, Inconclusive, Skip, digest

# ---------------------------------------------------------------- recording


class Event:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


def copies(params):
    return [p.detach().clone() for p in params]


class Trace:
    """Records what happens to variational autoencoders within the context.

    inject: {(kind, number): exception} raised right before that event."""

    def __init__(self, gradients=False, keep_params=False, inject=None):
        self.gradients, self.keep_params = gradients, keep_params
        self.inject = inject or {}
        self.events = []
        self.counts = {}
        self.initial = None
        self.ever_changed = None
        self.problems = []

    def tick(self, kind):
        num = self.counts[kind] = self.counts.get(kind, 0) + 1
        exc = self.inject.get((kind, num))
        if exc is not None:
            raise exc

    def __enter__(self):
        import torch
        from torch.nn.modules import module
        from torch.optim import optimizer
        from medil import vae

        self.torch, self.vae = torch, vae
        self.handles = [
            module.register_module_forward_pre_hook(self.before_forward),
            module.register_module_forward_hook(self.after_forward),
            optimizer.register_optimizer_step_pre_hook(self.before_step),
            optimizer.register_optimizer_step_post_hook(self.after_step),
        ]
        self.active = True
        return self

    def __exit__(self, *exc):
        for handle in self.handles:
            handle.remove()
        self.active = False

    def before_forward(self, module, args):
        if self.active and isinstance(module, self.vae.Encoder):
            self.tick("encode")

    def after_forward(self, module, args, out):
        if not self.active:
            return
        if isinstance(module, self.vae.Encoder):
            params = list(module.parameters())
            self.events.append(Event(
                "forward", encoder=module, training=module.training, decoder=None, z=None,
                x=args[0].detach().clone(), mu=out[0].detach().clone(),
                logvar=out[1].detach().clone(), grad=self.torch.is_grad_enabled(),
                enc_sha=digest(*params)))
        elif isinstance(module, self.vae.Decoder):
            last = self.events[-1] if self.events else None
            if last is None or last.kind != "forward" or last.decoder is not None:
                return  # not part of a pass through the whole network
            last.decoder = module
            last.z = args[0].detach().clone()
            last.recon, last.logcov = (o.detach().clone() for o in out)
            last.dec_training = module.training
            last.weight = module.cov_linear_fulcon.weight.detach().clone()
            last.sha = digest(*last.encoder.parameters(), *module.parameters())
            if self.initial is None:
                self.initial = copy.deepcopy((last.encoder, module))
                self.ever_changed = [self.torch.zeros_like(p, dtype=bool) for p in module.parameters()]

    def last_forward(self):
        for event in reversed(self.events):
            if event.kind == "forward" and event.decoder is not None:
                return event

    def before_step(self, optimizer, args, kwargs):
        if not self.active:
            return
        self.tick("step")
        params = [p for g in optimizer.param_groups for p in g["params"]]
        event = Event("step", optimizer=optimizer, lr=[g["lr"] for g in optimizer.param_groups],
                      num_params=sum(p.numel() for p in params), ids={id(p) for p in params})
        last = self.last_forward()
        if last is not None:
            own = list(last.encoder.parameters()) + list(last.decoder.parameters())
            event.covers = event.ids == {id(p) for p in own}
            event.before = digest(*own)
            if self.gradients:
                event.grads = [None if p.grad is None else p.grad.detach().clone() for p in own]
                self.active = False
                try:
                    event.expected = self.expected_gradient(last)
                finally:
                    self.active = True
        self.events.append(event)

    def after_step(self, optimizer, args, kwargs):
        if not self.active:
            return
        last = self.last_forward()
        if last is None or not self.events or self.events[-1].kind != "step":
            return
        own = list(last.encoder.parameters()) + list(last.decoder.parameters())
        self.events[-1].after = digest(*own)
        for mask, p, q in zip(self.ever_changed, last.decoder.parameters(),
                              self.initial[1].parameters()):
            if mask.shape == p.shape:
                mask |= p.detach() != q.detach()

    def expected_gradient(self, event):
        """Own gradient of the documented objective for the batch of the forward pass."""
        torch = self.torch
        hyper = self.hyper
        with torch.enable_grad():
            encoder, decoder = event.encoder, event.decoder
            mu, logvar = encoder(event.x)
            eps = (event.z - event.mu) / torch.exp(event.logvar / 2)
            z = mu + eps * torch.exp(logvar / 2)
            recon, logcov = decoder(z)
            loss = elbo(torch, event.x, recon, logcov, mu, logvar, hyper["beta"])
            w = decoder.cov_linear_fulcon.weight
            loss = loss + hyper["lambda"] * torch.linalg.matrix_norm(w, "nuc")
            loss = loss + hyper["mu"] * w.abs().sum()
            params = list(encoder.parameters()) + list(decoder.parameters())
            grads = torch.autograd.grad(loss, params, allow_unused=True)
        return [None if g is None else g.detach().clone() for g in grads]


def elbo(torch, x, recon, logcov, mu, logvar, beta):
    """Negative evidence lower bound, summed over the batch."""
    var = torch.exp(logcov).mean(0)
    kl = 0.5 * (torch.exp(logvar) + mu**2 - 1 - logvar).sum()
    return 0.5 * (len(x) * torch.log(var).sum() + ((x - recon) ** 2 / var).sum()) + beta * kl


def loss_of(torch, event, hyper, training):
    """Recorded loss and error of one batch, in double precision."""
    d = lambda t: t.double()
    out = elbo(torch, d(event.x), d(event.recon), d(event.logcov), d(event.mu), d(event.logvar),
               hyper["beta"])
    if training:
        w = d(event.weight)
        out = out + hyper["lambda"] * torch.linalg.svdvals(w).sum() + hyper["mu"] * w.abs().sum()
    err = torch.linalg.svdvals(d(event.x) - d(event.recon)).max()
    return float(out) / len(event.x), float(err) / len(event.x)


# ---------------------------------------------------------------- workload


def config(rng, i, epochs=(1, 5), m_max=6):
    m = int(rng.integers(1 if i % 7 == 0 else 2, m_max + 1))
    n = int(rng.integers(8, 260)) if i % 5 else int(rng.integers(260, 600))
    hyper = dict(
        num_epochs=int(rng.integers(*epochs)),
        batch_size=int(rng.choice([1, 3, 7, 16, 32, 50, 128, 1000])) if n < 100
        else int(rng.choice([16, 32, 50, 128, 1000])),
        lr=float(rng.choice([0.005, 0.001, 0.02])),
        beta=float(rng.choice([1, 0.5, 2, 0, 0.1])),
        mu=float(rng.choice([0.01, 0, 0.3, 1])),
        width_per_meas=int(rng.integers(1, 5)),
        num_hidden_layers=int(rng.integers(0, 4)),
    )
    hyper["lambda"] = float(rng.choice([0.01, 0, 0.3, 1]))
    x = gen.dataset(rng, n, m)[1] * 10.0 ** rng.integers(-2, 3, m) + rng.normal(size=m) * 10
    if i % 4 == 1:
        x = x.astype(np.float32).astype(float)
    split = None
    if i % 2:
        perm = rng.permutation(n)
        cut = int(rng.integers(1, n))
        if i % 8 == 3 and n > 12:  # not exhaustive
            split = perm[: n // 3], perm[n // 3 : n // 2]
        else:
            split = perm[:cut], perm[cut:]
        if i % 6 == 1:
            split = [s.tolist() for s in split]
    seed = int(rng.integers(0, 1000))
    if i % 3 == 2:  # the default, and the largest possible ones
        seed = 0 if i % 2 else int(rng.choice([0, 1, 2**31 - 1, 2**31, 2**32 - 1 - 10]))
    return dict(x=x, hyper=hyper, split=split, seed=seed, n=n, m=m)


def new_model(cfg, path, **kw):
    from medil.models import NeuroCausalFactorAnalysis

    model = NeuroCausalFactorAnalysis(**dict(dict(seed=cfg["seed"], path=path), **kw))
    model.hyperparams.update(cfg["hyper"])
    return model


def info_of(cfg):
    return dict(n=cfg["n"], m=cfg["m"], hyperparameters=cfg["hyper"], seed=cfg["seed"],
                split=None if cfg["split"] is None else [len(s) for s in cfg["split"]],
                data=digest(cfg["x"]))


def fit(ctx, model, cfg, cpu=300, x=None):
    x = cfg["x"] if x is None else x
    with ctx.lib("fit", cpu=cpu):
        out = model.fit(x) if cfg["split"] is None else model.fit(x, split_idcs=cfg["split"])
    return out


def fresh_dir(ctx, name=None):
    ctx.num_dirs = getattr(ctx, "num_dirs", 0) + 1
    return os.path.join(ctx.scratch, f"{name or 'ncfa'}-{os.getpid()}-{ctx.num_dirs}")


def epochs_of(ctx, trace):
    """Passes of each epoch: [(training events with their steps, validation events)]."""
    epochs = []
    for event in trace.events:
        if event.kind == "forward":
            ctx.need(event.decoder is not None, "observations encoded but not decoded")
            if event.training:
                if not epochs or epochs[-1][1]:
                    epochs.append(([], []))
                epochs[-1][0].append([event])
            else:
                ctx.need(bool(epochs), "validation before any training")
                epochs[-1][1].append(event)
        else:
            ctx.need(epochs and not epochs[-1][1], "optimizer step after validation")
            epochs[-1][0][-1].append(event)
    return epochs


def judge_gradients(ctx, trace):
    import torch

    for event in trace.events:
        if event.kind != "step" or not hasattr(event, "grads"):
            continue
        total = torch.sqrt(sum((g**2).sum() for g in event.expected if g is not None))
        for got, want in zip(event.grads, event.expected):
            if want is None or not bool((want != 0).any()):
                bad = 0.0 if got is None else float(got.abs().max() if got.numel() else 0)
            elif got is None:
                bad = float("inf")
            else:
                bad = float((got - want).norm())
            tol = 5e-4 * (0 if want is None else float(want.norm())) + 5e-5 * float(total) + 1e-6
            ctx.count("gradients judged")
            ctx.high("deviation of gradient / tolerance", min(bad / tol, 1e9))
            ctx.need(bad <= tol,
                     "gradient of optimizer step isn't that of the documented objective on the "
                     f"current batch (off by {bad:.4g}, norm {0 if want is None else float(want.norm()):.4g})")


# ---------------------------------------------------------------- C22


def row_indices(ctx, rows, table, what):
    """Indices of observations, recognized by their values."""
    best, idx = cKDTree(table).query(rows.astype(float), p=np.inf)
    ctx.need((best <= 1e-4).all(), f"{what}: not a standardized observation (off by {best.max():.3g})")
    return idx


def c22(ctx):
    import torch

    ctx.rule = (
        "training runs of 1 to 4 (sometimes up to 259) epochs with random data (8 to 600, sometimes 9000, observations of 1 to 6, sometimes 19, variables "
        "at different scales), splits, batch sizes and architectures; every forward pass and "
        "optimizer step recorded and compared with the specification; non-trivial: several batches"
    )

    def shard(ctx, idx):
        rng = ctx.rng("c22", idx)
        for i in range(ctx.pick(18, 260)):
            cfg = config(rng, i + idx)
            long = i % 9 == 4
            if long:  # so long that nothing is learned in the end
                cfg["x"], cfg["split"] = cfg["x"][:12], None
                cfg["n"] = len(cfg["x"])
                cfg["hyper"].update(num_epochs=int(rng.integers(90, 260)), lr=float(rng.choice([0.02, 0.1, 0.3])))
            if i % 18 == 8:  # all hyperparameters by default
                cfg["hyper"] = {}
                ctx.count("trainings with default hyperparameters")
            if i % 9 == 6:  # many observations, or many variables
                n, m = (int(rng.integers(3500, 9000)), int(rng.integers(3, 6))) if (idx + i) % 2 else \
                    (int(rng.integers(30, 200)), int(rng.integers(9, 20)))
                cfg.update(x=gen.dataset(rng, n, m)[1] * 3 + 1, n=n, m=m, split=None)
                if rng.random() < 0.5:
                    cfg["split"] = np.array_split(rng.permutation(n), [int(rng.integers(1, n))])
                cfg["hyper"].update(num_epochs=int(rng.integers(1, 3)),
                                    batch_size=int(rng.choice([100, 128, 1000, 5000])))
                ctx.count("trainings with many observations or variables")
            hyper, n = cfg["hyper"], cfg["n"]
            x = cfg["x"]
            table = (x - x.mean(0)) / x.std(0)
            if cfg["m"] == 1:  # observations must be recognizable
                order = np.sort(table[:, 0])
                if len(order) > 1 and np.diff(order).min() < 1e-3:
                    x = cfg["x"] = (rng.permutation(n) + 0.1 * rng.random(n))[:, None]
                    table = (x - x.mean(0)) / x.std(0)
            ctx.case(info_of(cfg), not hyper or hyper["batch_size"] < 0.7 * n)
            with ctx.guarded():
                with ctx.lib("NeuroCausalFactorAnalysis"):
                    model = new_model(cfg, fresh_dir(ctx))
                    hyper = hyper or dict(model.hyperparams)
                with Trace(gradients=not long and hyper["num_epochs"] < 100) as trace:
                    trace.hyper = hyper
                    fit(ctx, model, cfg)
                epochs = epochs_of(ctx, trace)
                ctx.count("events observed", len(trace.events))
                ctx.high("number of epochs", len(epochs))
                ctx.need(len(epochs) == hyper["num_epochs"],
                         f"{len(epochs)} epochs, {hyper['num_epochs']} configured")
                used = None
                state = None
                for num, (train, valid) in enumerate(epochs):
                    ctx.count("epochs judged")
                    sizes, idcs = [], []
                    for entry in train:
                        ctx.need(len(entry) == 2, f"{len(entry) - 1} optimizer steps for a batch")
                        forward, step = entry
                        rate = hyper["lr"] * 0.9 ** (num // 50)
                        ctx.expect(np.allclose(step.lr, rate, rtol=1e-6),
                                   f"learning rate {step.lr} in epoch {num}, expected {rate}")
                        ctx.count("reduced learning rates judged", num >= 50)
                        ctx.expect(forward.dec_training, "decoder isn't in training mode")
                        ctx.need(step.covers, "optimizer doesn't optimize exactly the parameters of the model")
                        ctx.need(state is None or forward.sha == state,
                                 "parameters changed other than by an optimizer step")
                        ctx.expect(step.before == forward.sha, "parameters changed between pass and step")
                        ctx.expect(step.after != step.before, "optimizer step changed nothing")
                        state = step.after
                        sizes.append(len(forward.x))
                        idcs.append(row_indices(ctx, forward.x.numpy(), table, f"epoch {num}"))
                        ctx.count("training batches")
                    ctx.need(valid, f"no validation after epoch {num}")
                    vidcs, vsizes = [], []
                    for forward in valid:
                        ctx.expect(not forward.dec_training, "decoder validated in training mode")
                        ctx.need(forward.sha == state, "validation changed the parameters")
                        vidcs.append(row_indices(ctx, forward.x.numpy(), table, "validation"))
                        vsizes.append(len(forward.x))
                        ctx.count("validation batches")
                    idcs, vidcs = np.concatenate(idcs), np.concatenate(vidcs)
                    ctx.count("observations trained on", len(idcs))
                    for got in (idcs, vidcs):
                        ctx.need(len(set(got.tolist())) == len(got), f"observation used twice in epoch {num}")
                    now = set(idcs.tolist()), set(vidcs.tolist())
                    ctx.need(used is None or used == now, f"split of epoch {num} is another one")
                    used = now
                    for got, total in ((sizes, len(idcs)), (vsizes, len(vidcs))):
                        full, rest = divmod(total, hyper["batch_size"])
                        want = [hyper["batch_size"]] * full + [rest] * (rest > 0)
                        ctx.need(sorted(got) == sorted(want), f"sizes of batches {got}, expected {want}")
                train, valid = used
                ctx.need(not train & valid, "observations are in both splits")
                if cfg["split"] is None:
                    ctx.expect(train | valid == set(range(n)), "observations are in neither split")
                    ctx.expect(abs(len(train) - 0.7 * n) <= 1, f"{len(train)} of {n} observations for training")
                else:
                    want = tuple(set(map(int, s)) for s in cfg["split"])
                    ctx.count("explicit splits")
                    ctx.expect(used == want, "not the given split")
                # the fitted model is the trained one
                final = list(model.parameters.vae.parameters())
                ctx.expect(digest(*final) == state, "fitted model isn't the trained one")
                judge_gradients(ctx, trace)
            if ctx.out_of_time(150, 840):
                return

    ctx.shards(shard)
    ctx.require("epochs judged", 100)
    ctx.require("explicit splits", 30)
    ctx.require("trainings with default hyperparameters", 4)
    ctx.require("reduced learning rates judged", 500)
    ctx.require("trainings with many observations or variables", 4)
    ctx.require("gradients judged", 1000)


# ---------------------------------------------------------------- C23


class Files:
    """Records which files the process opens for writing, creates, renames or removes."""

    installed = None

    def __init__(self):
        self.seen = []
        self.on = False

    @classmethod
    def get(cls):
        if cls.installed is None:
            cls.installed = cls()
            sys.addaudithook(cls.installed.hook)
        return cls.installed

    def hook(self, name, args):
        if not self.on:
            return
        if name == "open":
            path, mode, flags = args
            writing = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            writing = writing or (isinstance(mode, str) and set(mode) & set("wax+"))
            if writing and isinstance(path, (str, bytes, os.PathLike)):
                self.seen.append(os.path.realpath(os.fsdecode(path)))
        elif name in ("os.mkdir", "os.remove", "os.rmdir", "os.truncate"):
            if isinstance(args[0], (str, bytes, os.PathLike)):
                self.seen.append(os.path.realpath(os.fsdecode(args[0])))
        elif name in ("os.rename", "os.link", "os.symlink"):
            self.seen += [os.path.realpath(os.fsdecode(a)) for a in args[:2]
                          if isinstance(a, (str, bytes, os.PathLike))]

    def __enter__(self):
        self.seen = []
        self.on = True
        return self

    def __exit__(self, *exc):
        self.on = False


def tree(root):
    """All files below a directory with their contents' digests."""
    out = {}
    for base, dirs, files in os.walk(root):
        for name in files:
            path = os.path.join(base, name)
            with open(path, "rb") as f:
                out[os.path.relpath(path, root)] = digest(f.read())
        for name in dirs:
            out[os.path.relpath(os.path.join(base, name), root) + "/"] = "directory"
    return out


STAMP = r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d "
ARTIFACTS = ("model_recon.pt", "loss_recon.pkl", "error_recon.pkl", "training.log")


def parse_log(text):
    """(kind, number, value) of every log entry."""
    out = []
    for line in text.splitlines():
        if not re.match(STAMP, line):
            out.append(("line without time", line))
            continue
        line = re.sub("^" + STAMP, "", line)
        for kind, pattern in (
            ("parameters", r"number of parameters\D*(\d+)$"),
            ("start", r"training on epoch\D*(\d+)\D*$"),
            ("train", r"finish training epoch (\d+)\D* (\S+)$"),
            ("valid", r"finish validation\D* (\S+)$"),
        ):
            match = re.match(pattern, line, re.I)
            if match:
                out.append((kind,) + tuple(float(g) for g in match.groups()))
                break
        else:
            out.append(("other", line))
    return out


def close(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(b)) or (np.isnan(a) and np.isnan(b))


def judge_log(ctx, entries, model, trace):
    num = sum(p.numel() for p in model.parameters.vae.parameters())
    entries = [e for e in entries if e[0] != "other"]
    want = [("parameters", num)]
    for i in range(model.hyperparams["num_epochs"]):
        want += [("start", i), ("train", i, model.loss["elbo_train"][i]),
                 ("valid", model.loss["elbo_valid"][i])]
    same = len(want) == len(entries) and all(
        w[0] == e[0] and len(w) == len(e) and all(close(a, b) for a, b in zip(e[1:], w[1:]))
        for w, e in zip(want, entries))
    ctx.expect(same, "entries of the log", got=entries, expected=want)
    ctx.count("log entries judged", len(want))


def fitted_state(model):
    if model.loss is None:
        return None
    return (digest(*(np.asarray(model.loss[k]) for k in sorted(model.loss))),
            digest(np.asarray(model.parameters.weights)),
            {k: digest(v) for k, v in model.parameters.vae.state_dict().items()})


class Crash(Exception):
    pass


def c23(ctx):
    import torch

    ctx.rule = (
        "sequences of trainings into fresh, existing, nested, oddly named and relative directories, "
        "interrupted by exceptions and keyboard interrupts at random forward passes and optimizer "
        "steps; file accesses of the process audited, trees of files compared; non-trivial: all"
    )

    def run_fit(ctx, model, cfg, files):
        with Trace() as trace:
            trace.hyper = cfg["hyper"]
            with files:
                fit(ctx, model, cfg)
        return trace

    def judge_artifacts(ctx, model, path, seen, root, before, after):
        real = os.path.realpath(path)
        outside = [f for f in seen if f != real and os.path.dirname(f) != real
                   and not f.startswith(real + os.sep) and not f.startswith("/dev/")
                   and "torchinductor_" not in f]  # created by torch itself
        ctx.expect(not outside, "files written elsewhere", files=outside)
        rel = os.path.relpath(real, os.path.realpath(root))
        changed = {f for f in set(before) | set(after) if before.get(f) != after.get(f)}
        stray = [f for f in changed if not f.startswith(rel + "/")]
        ctx.expect(not stray, "files changed elsewhere", files=stray)
        for name in ARTIFACTS:
            ctx.need(os.path.isfile(os.path.join(path, name)), f"{name} is missing",
                     files=os.listdir(path))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            saved = torch.load(os.path.join(path, "model_recon.pt"), weights_only=False)
        state, want = saved.state_dict(), model.parameters.vae.state_dict()
        ctx.expect(list(state) == list(want) and all(torch.equal(state[k], want[k]) for k in want),
                   "saved model isn't the fitted one")
        probe = torch.tensor(np.random.default_rng(0).normal(size=(5, model.dataset.shape[1])),
                             dtype=torch.float32)
        with torch.no_grad():
            outs = [copy.deepcopy(m).eval()(probe) for m in (saved, model.parameters.vae)]
        ctx.expect(all(torch.equal(a, b) for a, b in zip(*outs)), "saved model computes something else")
        with open(os.path.join(path, "loss_recon.pkl"), "rb") as f:
            losses = pickle.load(f)
        with open(os.path.join(path, "error_recon.pkl"), "rb") as f:
            errors = pickle.load(f)
        for got, names in ((losses, ("elbo_train", "elbo_valid")), (errors, ("recon_train", "recon_valid"))):
            ctx.need(len(got) == 2, "histories of training and validation")
            for g, name in zip(got, names):
                ctx.expect(np.array_equal(np.asarray(g), np.asarray(model.loss[name])),
                           f"saved history isn't the one in memory ({name})")
                ctx.expect(len(model.loss[name]) == model.hyperparams["num_epochs"], f"length of {name}")
        weights = np.asarray(model.parameters.weights)
        ctx.expect(np.array_equal(weights, model.parameters.vae.decoder.cov_linear_fulcon.weight
                                  .detach().numpy().T), "coupling weights aren't those of the model")
        ctx.count("sets of artifacts judged")

    def shard(ctx, idx):
        rng = ctx.rng("c23", idx)
        files = Files.get()
        for i in range(ctx.pick(9, 130)):
            root = fresh_dir(ctx, "root")
            os.mkdir(root)
            cwd = os.path.join(root, "cwd")
            os.mkdir(cwd)
            os.mkdir(os.path.join(root, "other"))
            with open(os.path.join(root, "other", "keep.txt"), "w") as f:
                f.write("keep")
            os.chdir(cwd)
            kind = int(rng.integers(6))
            path = [os.path.join(root, "run"), os.path.join(root, "run") + "/", "run", "run/",
                    os.path.join(root, "other", "läuft gut.v1"), "../other/x"][kind]
            preexisting = bool(rng.integers(2))
            if preexisting:
                os.mkdir(path)
                with open(os.path.join(path, "notes.txt"), "w") as f:
                    f.write("notes")
            cfg = config(rng, i)
            cfg["hyper"]["batch_size"] = max(cfg["hyper"]["batch_size"], 16)
            info = dict(info_of(cfg), path=path.replace(ctx.scratch, "SCRATCH"), preexisting=preexisting)
            ctx.case(info, True, digest(repr(info)))
            with ctx.guarded():
                before = tree(root)
                with ctx.lib("NeuroCausalFactorAnalysis"):
                    with files:
                        model = new_model(cfg, path, verbose=i % 3 == 0)
                log_file = os.path.join(path, "training.log")
                log = ""
                history = []
                for step in range(3):
                    if step:
                        cfg = dict(config(rng, i + step), seed=cfg["seed"])
                        cfg["hyper"]["batch_size"] = max(cfg["hyper"]["batch_size"], 16)
                        model.hyperparams.update(cfg["hyper"])
                        if rng.random() < 0.3:  # another model with the same directory
                            with ctx.lib("NeuroCausalFactorAnalysis"):
                                model = new_model(cfg, path)
                    num_train = len(cfg["split"][0]) if cfg["split"] else int(cfg["n"] * 0.7)
                    if rng.random() < (0.2, 0.6, 0.3)[step]:
                        # interrupted training
                        exc = [Crash("injected"), KeyboardInterrupt(), MemoryError("injected"),
                               SystemExit(1)][int(rng.integers(4))]
                        bs = cfg["hyper"]["batch_size"]
                        batches = -(-num_train // bs)
                        num_valid = (len(cfg["split"][1]) if cfg["split"] else cfg["n"] - num_train)
                        steps = cfg["hyper"]["num_epochs"] * batches
                        passes = steps + cfg["hyper"]["num_epochs"] * -(-num_valid // bs)
                        what = ("encode", "step")[int(rng.integers(2))]
                        at = int(rng.integers(1, max(2, (passes if what == "encode" else steps))))
                        if rng.random() < 0.2:
                            at = steps if what == "step" else passes - 1
                            at = max(at, 1)
                        state, artifacts = fitted_state(model), tree(path)
                        whole = tree(root)
                        raised = None
                        with Trace(inject={(what, at): exc}) as trace, files:
                            old, sys.stdout = sys.stdout, io.StringIO()
                            try:
                                with warnings.catch_warnings():
                                    warnings.simplefilter("ignore")
                                    args = () if cfg["split"] is None else (cfg["split"],)
                                    model.fit(cfg["x"], *args)
                            except (Crash, KeyboardInterrupt, MemoryError, SystemExit) as e:
                                raised = e
                            except Exception as e:
                                raised = e
                            finally:
                                sys.stdout = old
                        ctx.case(dict(info, interrupted_by=repr(exc), at=(what, at), earlier=history,
                                      hyper=cfg["hyper"]), True, digest(repr(info), repr(exc), what, at))
                        if trace.counts.get(what, 0) < at:
                            ctx.count("interruptions not reached")
                            break
                        ctx.count("interruptions")
                        ctx.count(f"interruptions by {type(exc).__name__}")
                        ctx.expect(raised is exc, f"interruption {exc!r} became {raised!r}")
                        ctx.expect(fitted_state(model) == state, "interrupted training changed fitted results")
                        now = tree(path)
                        for name in set(artifacts) | set(now):
                            if name != "training.log":
                                ctx.expect(artifacts.get(name) == now.get(name),
                                           f"interrupted training changed {name}",
                                           before=artifacts.get(name), after=now.get(name))
                        if state is not None:
                            ctx.count("interruptions of a fitted model")
                        after = tree(root)
                        rel = os.path.relpath(os.path.realpath(path), os.path.realpath(root))
                        stray = [f for f in set(whole) | set(after) if whole.get(f) != after.get(f)
                                 and not f.startswith(rel + "/")]
                        ctx.expect(not stray, "files changed elsewhere", files=stray)
                        new_log = open(log_file).read() if os.path.exists(log_file) else ""
                        ctx.expect(new_log.startswith(log), "earlier log entries are lost")
                        log = new_log
                        history.append("interrupted")
                        continue
                    ctx.case(dict(info, earlier=history, hyper=cfg["hyper"]), True,
                             digest(repr(info), step, repr(cfg["hyper"])))
                    whole = tree(root) if step else before
                    trace = run_fit(ctx, model, cfg, files)
                    judge_artifacts(ctx, model, path, files.seen, root, whole, tree(root))
                    with open(log_file) as f:
                        new_log = f.read()
                    ctx.need(new_log.startswith(log), "earlier log entries are lost", before=log[-500:],
                             after=new_log[:500])
                    judge_log(ctx, parse_log(new_log[len(log):]), model, trace)
                    log = new_log
                    history.append("fitted")
                    if len(history) > 1:
                        ctx.count("repeated trainings")
                if preexisting:
                    ctx.expect(open(os.path.join(path, "notes.txt")).read() == "notes",
                               "other file in the directory was changed")
            os.chdir(ctx.scratch)
            if ctx.out_of_time(150, 840):
                return

    ctx.shards(shard)
    os.chdir(os.path.join(ctx.scratch, "cwd"))
    ctx.require("sets of artifacts judged", 60)
    ctx.require("interruptions of a fitted model", 10)
    ctx.require("repeated trainings", 30)


# ---------------------------------------------------------------- C24


def training_result(cfg, path, model=None, **kw):
    model = new_model(cfg, path, **kw) if model is None else model
    model.fit(cfg["x"]) if cfg["split"] is None else model.fit(cfg["x"], split_idcs=cfg["split"])
    out = {k: digest(np.asarray(v)) for k, v in model.loss.items()}
    out.update({k: digest(v) for k, v in model.parameters.vae.state_dict().items()})
    out["weights"] = digest(np.ascontiguousarray(model.parameters.weights))
    return model, out


def c24(ctx):
    import random
    import torch
    from medil.models import GaussianMCM
    from medil.sample import mcm

    ctx.rule = (
        "each training is repeated after changes to global random states, other trainings and "
        "operations, with another directory and verbosity, with the same object, and in another "
        "process; also with other seeds; non-trivial: all"
    )

    def shard(ctx, idx):
        rng = ctx.rng("c24", idx)
        jobs = []
        for i in range(ctx.pick(12, 170)):
            cfg = config(rng, i + idx, epochs=(1, 4))
            cfg["hyper"]["batch_size"] = max(cfg["hyper"]["batch_size"], 16)
            ctx.case(info_of(cfg), True, digest(repr(info_of(cfg))))
            with ctx.guarded():
                with ctx.lib("fit"):
                    first_model, first = training_result(cfg, fresh_dir(ctx))
                for rep in range(3):
                    # other things happening in the process
                    what = int(rng.integers(8))
                    with ctx.lib("interleaved operation"):
                        np.random.seed(int(rng.integers(1 << 30)))
                        if what == 0:
                            np.random.random(7)
                        elif what == 1:
                            torch.manual_seed(int(rng.integers(1 << 30)))
                            torch.rand(3)
                        elif what == 2:
                            other = config(rng, 2, epochs=(1, 3))
                            training_result(other, fresh_dir(ctx))
                        elif what == 3:
                            random.seed(int(rng.integers(1 << 30)))
                        elif what == 4:
                            mcm(num_meas=4).sample(3)
                        elif what == 5:
                            torch.nn.Linear(3, 3)
                        elif what == 6:
                            GaussianMCM().fit(rng.normal(size=(30, 3)))
                        else:
                            torch.manual_seed(cfg["seed"])
                            torch.rand(int(rng.integers(1, 9)))
                    same_object = rep == 1
                    again = dict(cfg, x=cfg["x"].copy())
                    with ctx.lib("fit"):
                        if same_object:
                            _, second = training_result(again, None, model=first_model)
                        else:
                            _, second = training_result(again, fresh_dir(ctx), verbose=bool(rep))
                    ctx.count("repetitions of the same object" if same_object else "repetitions")
                    ctx.expect(first == second, "same seed, another result",
                               disturbed_by=what, same_object=same_object,
                               differ=[k for k in first if first[k] != second.get(k)])
                step = (1, 2, 3, 4, 10, 64, 100, 256, 1000, 10**4, 2**16, 10**6, 2**24, 10**9, 2**31)
                step = int(step[int(rng.integers(len(step)))] if i % 2 else (1, 10**3, 256, 10**6, 2**16, 100)[(i // 2 + idx) % 6])
                other = dict(cfg, seed=(cfg["seed"] + step) % 2**32)
                with Trace() as trace:
                    with ctx.lib("fit"):
                        _, third = training_result(other, fresh_dir(ctx))
                ctx.count("other seeds")
                keys = [k for k in first if k.endswith("weight") and "." in k]
                ctx.expect(all(first[k] != third[k] for k in keys), "another seed, same result",
                           same=[k for k in keys if first[k] == third[k]])
                if cfg["split"] is not None:
                    x = cfg["x"]
                    table = (x - x.mean(0)) / x.std(0)
                    seen = [e.x.numpy() for e in trace.events if e.kind == "forward" and e.training]
                    if seen and cfg["m"] > 1:
                        got = set(row_indices(ctx, np.concatenate(seen), table, "split").tolist())
                        ctx.expect(got == set(map(int, cfg["split"][0])), "given split isn't used")
                        ctx.count("given splits")
                if len(jobs) < 4:
                    jobs.append((cfg, first))
            if ctx.out_of_time(150, 780):
                break
        if idx < 2 and jobs:
            with open(os.path.join(ctx.scratch, f"jobs-{idx}"), "wb") as f:
                pickle.dump([j[0] for j in jobs], f)
            code = (
                "import sys, io, pickle; sys.path[:0] = [%r, %r]\n"
                "import warnings; warnings.simplefilter('ignore')\n"
                "from mon import neural, core; core.load_medil()\n"
                "out, sys.stdout = sys.stdout, io.StringIO()\n"
                "jobs = pickle.load(open(sys.argv[1], 'rb'))\n"
                "res = [neural.training_result(c, sys.argv[1] + '-%%d' %% i)[1] for i, c in enumerate(jobs)]\n"
                "pickle.dump(res, open(sys.argv[1] + '.out', 'wb'))"
            ) % (str(REPO), str(structure.__file__).rsplit("/mon/", 1)[0])
            name = os.path.join(ctx.scratch, f"jobs-{idx}")
            proc = subprocess.run([sys.executable, "-c", code, name], capture_output=True, text=True,
                                  env=dict(os.environ, PYTHONHASHSEED="77"), timeout=600)
            if proc.returncode:
                if ctx.num_violations:
                    return
                raise Inconclusive("second process: " + proc.stderr[-2000:])
            with open(name + ".out", "rb") as f:
                results = pickle.load(f)
            for (cfg, first), got in zip(jobs, results):
                ctx.case_info = dict(info_of(cfg), process="another one")
                ctx.expect(got == first, "another process gives another result",
                           differ=[k for k in first if first[k] != got.get(k)])
                ctx.count("results compared between processes")

    ctx.shards(shard)
    for name, num in (("repetitions", 80), ("other seeds", 50), ("given splits", 15),
                      ("results compared between processes", 4)):
        ctx.require(name, num)


# ---------------------------------------------------------------- C25


def influences(decoder, zs):
    """Which outputs change when a weight is changed: {(name, index): set of outputs}."""
    import torch

    dec = copy.deepcopy(decoder).double()
    for module in dec.modules():  # masks are no parameters, so maybe not converted
        mask = getattr(module, "mask", None)
        if isinstance(mask, torch.Tensor) and mask.is_floating_point():
            module.mask = mask.double()
    num = 0
    with torch.no_grad():
        def out(z):
            mean, logcov = dec(z)
            return torch.cat([mean, logcov], 1)

        base = out(zs)
        found = {}
        for name, p in dec.named_parameters():
            flat = p.view(-1)
            for i in range(len(flat)):
                old = flat[i].item()
                flat[i] = old + 0.75
                changed = ((out(zs) - base).abs() > 1e-13).any(0)
                flat[i] = old
                found[name, i] = set(torch.nonzero(changed)[:, 0].tolist())
                num += 1
    return found, num


def c25(ctx):
    import torch
    from torch.optim import optimizer as optim
    from medil.vae import VariationalAutoencoder

    ctx.rule = (
        "networks with 1 to 6 variables, 0 to 3 hidden layers and widths 1 to 4, new, during and after "
        "training (also up to 89 variables, 5 layers and width 7, judged by derivatives): every single weight of the decoder changed and the outputs it influences observed; "
        "every influencing weight has to be trained; non-trivial: several variables"
    )

    def judge(ctx, decoder, m, latent, layers, width, rng, when):
        zs = torch.tensor(rng.normal(size=(6, latent)))
        found, num = influences(decoder, zs)
        ctx.count("weights changed", num)
        ctx.count(f"decoders judged {when}")
        per = [0] * (2 * m)
        for (name, i), outs in found.items():
            ctx.need(len(outs) <= 1, f"{name}[{i}] influences {len(outs)} outputs ({when})",
                     outputs=sorted(outs))
            for o in outs:
                per[o] += 1
        want = width * (latent + 1) + layers * (width**2 + width) + width + 1
        ctx.need(all(p == want for p in per), f"number of weights influencing each output ({when}): "
                 f"{per}, not {want}")
        # (so every output depends on all latents: one weight per latent and unit of the first layer)
        return found

    def wide(ctx, idx):
        """Larger networks; influence judged by derivatives."""
        rng = ctx.rng("c25 wide", idx)
        for i in range(ctx.pick(10, 120)):
            m, latent = int(rng.integers(7, 24)), int(rng.integers(1, 24))
            layers, width = int(rng.integers(0, 6)), int(rng.integers(1, 8))
            if i % 5 == 4:
                m, layers, width = int(rng.integers(40, 90)), int(rng.integers(0, 2)), int(rng.integers(1, 3))
            trained = i % 3 == 2
            ctx.case(dict(m=m, latent=latent, layers=layers, width=width, trained=trained), True)
            with ctx.guarded():
                torch.manual_seed(int(rng.integers(1 << 30)))
                if trained:
                    cfg = config(rng, i)
                    m = latent = min(m, 20)
                    n = int(rng.integers(20, 60))
                    cfg.update(x=gen.dataset(rng, n, m)[1], n=n, m=m, split=None)
                    cfg["hyper"].update(num_epochs=2, batch_size=16, width_per_meas=width,
                                        num_hidden_layers=layers)
                    with ctx.lib("NeuroCausalFactorAnalysis"):
                        model = new_model(cfg, fresh_dir(ctx))
                    fit(ctx, model, cfg)
                    decoder = model.parameters.vae.decoder
                else:
                    with ctx.lib("VariationalAutoencoder"):
                        decoder = VariationalAutoencoder(latent, m, layers, width).decoder
                decoder = copy.deepcopy(decoder).double()
                z = torch.tensor(rng.normal(size=(5, latent)), requires_grad=True)
                outs = torch.cat(decoder(z), 1)
                ctx.need(outs.shape == (5, 2 * m), f"shape of outputs {tuple(outs.shape)}")
                params = list(decoder.parameters())
                seen = [torch.zeros_like(p, dtype=torch.int64) for p in params]
                want = width * (latent + 1) + layers * (width**2 + width) + width + 1
                for o in range(2 * m):
                    grads = torch.autograd.grad(outs[:, o].sum(), params + [z], retain_graph=True,
                                                allow_unused=True)
                    ctx.need(grads[-1] is not None and bool((grads[-1] != 0).any(0).all()),
                             f"output {o} doesn't depend on all latents")
                    got = 0
                    for s, g in zip(seen, grads):
                        if g is not None:
                            s += g != 0
                            got += int((g != 0).sum())
                    ctx.need(got == want, f"{got} weights influence output {o}, not {want}")
                ctx.count("outputs of larger decoders judged", 2 * m)
                ctx.need(all(bool((s <= 1).all()) for s in seen), "weights influence several outputs")
            if ctx.out_of_time(150, 840):
                return

    def shard(ctx, idx):
        wide(ctx, idx)
        rng = ctx.rng("c25", idx)
        for i in range(ctx.pick(16, 230)):
            cfg = config(rng, i + idx, epochs=(1, 7))
            cfg["hyper"]["batch_size"] = max(cfg["hyper"]["batch_size"], 16)
            h, m = cfg["hyper"], cfg["m"]
            layers, width = h["num_hidden_layers"], h["width_per_meas"]
            ctx.case(info_of(cfg), m > 1)
            with ctx.guarded():
                if i % 4 == 0:
                    latent = int(rng.integers(1, 7))
                    with ctx.lib("VariationalAutoencoder"):
                        vae = VariationalAutoencoder(latent, m, layers, width)
                    judge(ctx, vae.decoder, m, latent, layers, width, rng, "new")
                snaps = []
                with ctx.lib("NeuroCausalFactorAnalysis"):
                    model = new_model(cfg, fresh_dir(ctx))
                with Trace() as trace:
                    trace.hyper = h
                    old_after = trace.after_step

                    def after(optimizer, args, kwargs):
                        old_after(optimizer, args, kwargs)
                        if trace.counts.get("step") == 2:
                            snaps.append(copy.deepcopy(trace.last_forward().decoder))

                    handle = optim.register_optimizer_step_post_hook(after)
                    try:
                        fit(ctx, model, cfg)
                    finally:
                        handle.remove()
                ctx.need(trace.initial is not None, "no pass through encoder and decoder")
                judge(ctx, trace.initial[1], m, m, layers, width, rng, "before training")
                for s in snaps:
                    judge(ctx, s, m, m, layers, width, rng, "during training")
                decoder = model.parameters.vae.decoder
                found = judge(ctx, decoder, m, m, layers, width, rng, "after training")
                # all of it is trained
                changed = dict(zip([n for n, _ in trace.initial[1].named_parameters()],
                                   trace.ever_changed))
                stuck = [k for k, outs in found.items()
                         if outs and not bool(changed[k[0]].view(-1)[k[1]])]
                ctx.expect(not stuck, f"{len(stuck)} influencing weights aren't trained", weights=stuck[:10])
                ctx.count("trained weights", sum(bool(o) for o in found.values()))
                # nothing else in the decoder, such as weights which aren't parameters, matters:
                # all outputs of two decoders with the same parameters are equal
                with torch.no_grad():
                    z = torch.tensor(rng.normal(size=(4, m)), dtype=torch.float32)
                    torch.manual_seed(int(rng.integers(1 << 30)))
                    with ctx.lib("VariationalAutoencoder"):
                        twin = VariationalAutoencoder(m, m, layers, width).decoder
                    twin.load_state_dict(decoder.state_dict())
                    a, b = decoder(z), twin(z)
                ctx.expect(all(torch.equal(p, q) for p, q in zip(a, b)),
                           "decoder isn't determined by its parameters")
                ctx.count("decoders rebuilt from parameters")
            if ctx.out_of_time(150, 840):
                return

    ctx.shards(shard)
    ctx.require("outputs of larger decoders judged", 500)
    for name in ("before training", "during training", "after training", "new"):
        ctx.require(f"decoders judged {name}", 20)


# ---------------------------------------------------------------- C26


def certain(torch, rng):
    """Shifts the encoded log variances of every network when it's used for the first time."""
    seen = set()

    def before(module, args):
        layer = getattr(module, "fc_logvar", None)
        if layer is not None and id(layer) not in seen:
            seen.add(id(layer))
            with torch.no_grad():
                layer.bias += torch.tensor(rng.choice([-9.0, -5.0, 0.0, 5.0, 7.0], len(layer.bias)),
                                           dtype=layer.bias.dtype)

    return torch.nn.modules.module.register_module_forward_pre_hook(before)


def c26(ctx):
    import torch

    ctx.rule = (
        "training runs with random data, penalties, beta, batch sizes and architectures; recorded "
        "losses and errors and the gradient at every optimizer step recomputed from the observed "
        "forward passes; sampling noise of the latents pooled and tested; non-trivial: nonzero "
        "beta, lambda and mu"
    )

    def shard(ctx, idx):
        rng = ctx.rng("c26", idx)
        noise = []
        for i in range(ctx.pick(18, 260)):
            cfg = config(rng, i + idx)
            h = cfg["hyper"]
            ctx.case(info_of(cfg), bool(h["beta"] and h["lambda"] and h["mu"]))
            with ctx.guarded():
                with ctx.lib("NeuroCausalFactorAnalysis"):
                    model = new_model(cfg, fresh_dir(ctx))
                handle = None
                if i % 4 == 2:  # encoders that are very certain or very uncertain
                    handle = certain(torch, rng)
                    ctx.count("trainings from extreme encoders")
                try:
                    with Trace(gradients=True) as trace:
                        trace.hyper = h
                        fit(ctx, model, cfg)
                finally:
                    if handle is not None:
                        handle.remove()
                epochs = epochs_of(ctx, trace)
                ctx.need(len(epochs) == len(model.loss["elbo_train"]), "number of recorded losses")
                want = {k: [] for k in ("elbo_train", "elbo_valid", "recon_train", "recon_valid")}
                for train, valid in epochs:
                    parts = [loss_of(torch, e[0], h, True) for e in train]
                    vparts = [loss_of(torch, e, h, False) for e in valid]
                    ctx.count("batches judged", len(parts) + len(vparts))
                    for key, p, j in (("elbo_train", parts, 0), ("recon_train", parts, 1),
                                      ("elbo_valid", vparts, 0), ("recon_valid", vparts, 1)):
                        want[key].append(np.mean([v[j] for v in p]))
                for key, values in want.items():
                    got = np.asarray(model.loss[key], float)
                    ctx.need(got.shape == (len(values),), f"length of {key}")
                    scale = np.abs(values).max() + (np.abs(want["elbo_train"]).max() if "elbo" in key else 0)
                    bad = np.abs(got - values).max() / (scale + 1e-9)
                    ctx.high("relative deviation of recorded losses", bad)
                    ctx.expect(bad <= 2e-4, f"recorded {key}", got=got, expected=values)
                    ctx.count("recorded losses judged", len(values))
                judge_gradients(ctx, trace)
                for train, valid in epochs:
                    for e in valid:
                        ctx.need(torch.equal(e.z, e.mu), "latents in evaluation mode aren't the encoded means")
                        ctx.count("evaluation passes")
                    for e, *_ in train:
                        std = torch.exp(e.logvar.double() / 2)
                        noise.append(((e.z.double() - e.mu.double()) / std).numpy())
            if ctx.out_of_time(150, 840):
                break
        return noise

    ctx.shards(lambda ctx, idx: judge_noise(ctx, shard(ctx, idx)))
    ctx.require("batches judged", 500)
    ctx.require("gradients judged", 1000)
    ctx.require("latents sampled", 20000)


def judge_noise(ctx, noise):
    """Standardized deviations of latents from their means, batch by batch in order."""
    ctx.case_info = dict(note="latents of all training passes")
    eps = np.concatenate([e.ravel() for e in noise])
    n = len(eps)
    ctx.count("latents sampled", n)
    ctx.expect(np.isfinite(eps).all(), "noise isn't finite")
    d = kstest(eps, "norm").statistic
    ctx.high("Kolmogorov-Smirnov sqrt(n) D of latents", np.sqrt(n) * d)
    ctx.expect(np.sqrt(n) * d <= 4, f"latents aren't sampled from the encoded normal distribution "
               f"(D={d:.4f}, mean={eps.mean():.4f}, variance={eps.var():.4f})")
    ctx.stat("variance of noise", (eps**2).mean(), 1, np.sqrt(2 / n), slack=0.001)
    # consecutive batches, rows and columns are independent
    pairs = [(a[: len(b)].ravel(), b[: len(a)].ravel()) for a, b in zip(noise, noise[1:])
             if a.shape[1] == b.shape[1]]
    rows = [(a[1:].ravel(), a[:-1].ravel()) for a in noise if len(a) > 1]
    cols = [(a[:, 1:].ravel(), a[:, :-1].ravel()) for a in noise if a.shape[1] > 1]
    for name, pp in (("batches", pairs), ("observations", rows), ("latents", cols)):
        if not pp:
            continue
        p = np.concatenate([a for a, _ in pp])
        q = np.concatenate([b for _, b in pp])
        ctx.stat(f"dependence of noise of consecutive {name}", (p * q).mean(), 0, 1 / np.sqrt(len(p)))


CHECKS = dict(C22=c22, C23=c23, C24=c24, C25=c25, C26=c26)
