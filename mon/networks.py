"""C45: networks treat observations one by one."""

import copy

import numpy as np

from . import gen, neural
from .core import digest


def c45(ctx):
    import torch
    from medil.vae import Decoder, Encoder, SparseLinear, VariationalAutoencoder

    ctx.rule = (
        "new and trained networks with 1 to 12 variables, 1 to 9 latents, 0 to 3 hidden layers and "
        "widths 1 to 5, batches of 0 to 300 observations of scales 0.01 to 100; outputs for batches "
        "compared with those for single observations, noise observed, derivatives compared with "
        "differences; non-trivial: several observations"
    )

    def close(a, b, tol=1e-5):
        return a.shape == b.shape and torch.allclose(a, b, rtol=tol, atol=tol * (1 + float(b.abs().max()) if b.numel() else 1))

    def network(rng, trained):
        m, latent = int(rng.integers(1, 13)), int(rng.integers(1, 10))
        layers, width = int(rng.integers(0, 4)), int(rng.integers(1, 6))
        seed = int(rng.integers(1 << 30))
        if not trained:
            torch.manual_seed(seed)
            with ctx.lib("VariationalAutoencoder"):
                vae = VariationalAutoencoder(latent, m, layers, width)
            return dict(m=m, latent=latent, layers=layers, width=width, seed=seed), vae
        cfg = neural.config(rng, int(rng.integers(100)), epochs=(1, 4))
        cfg["hyper"]["batch_size"] = max(cfg["hyper"]["batch_size"], 16)
        with ctx.lib("NeuroCausalFactorAnalysis"):
            model = neural.new_model(cfg, neural.fresh_dir(ctx))
        neural.fit(ctx, model, cfg)
        vae = model.parameters.vae
        ctx.expect(not any(mod.training for mod in vae.modules()),
                   "trained network isn't in evaluation mode")
        h = cfg["hyper"]
        ctx.count("trained networks")
        return dict(m=cfg["m"], latent=cfg["m"], layers=h["num_hidden_layers"],
                    width=h["width_per_meas"], trained=digest(cfg["x"])), vae

    def one_by_one(rng, info, vae, x):
        m, latent, n = info["m"], info["latent"], len(x)
        sha = digest(*vae.parameters())
        state = torch.random.get_rng_state()
        vae.eval()
        with torch.no_grad(), ctx.lib("network"):
            out, again = vae(x), vae(x)
            perm = torch.tensor(rng.permutation(n))
            shuffled = vae(x[perm])
            sub = [int(i) for i in rng.permutation(n)[:5]]
            single = [vae(x[i : i + 1]) for i in sub]
            recon, logcov = vae.decoder(out[2])
            mu, logvar = vae.encoder(x)
            stretched = x.clone()
            if n:
                stretched[0] = 1e4 * (1 + x[0].abs())
            other = vae(stretched)
        ctx.need(len(out) == 4 and [tuple(o.shape) for o in out] == [(n, m), (n, m), (n, latent), (n, latent)],
                 "shapes of outputs", got=[tuple(o.shape) for o in out])
        ctx.expect(all(torch.equal(a, b) for a, b in zip(out, again)),
                   "outputs for the same observations differ in evaluation mode")
        ctx.expect(torch.equal(state, torch.random.get_rng_state()), "random numbers used in evaluation mode")
        ctx.expect(all(close(a, b[perm]) for a, b in zip(shuffled, out)), "outputs depend on the order of observations")
        ctx.expect(all(close(a, b[i : i + 1]) for i, s in zip(sub, single) for a, b in zip(s, out)),
                   "outputs of an observation depend on the rest of the batch")
        ctx.expect(all(close(a[1:], b[1:]) for a, b in zip(other, out)),
                   "outputs of observations depend on another one")
        ctx.expect(close(recon, out[0]) and close(logcov, out[1]) and close(mu, out[2]) and close(logvar, out[3]),
                   "outputs aren't those of encoder and decoder")
        ctx.expect(digest(*vae.parameters()) == sha, "parameters changed by evaluation")
        # the same arguments and the same network with other content
        fresh = copy.deepcopy(vae)
        mine = x.clone()
        with torch.no_grad(), ctx.lib("network"):
            vae(mine)
            mine.mul_(1.5).add_(0.1)
            changed, want = vae(mine), fresh(x * 1.5 + 0.1)
            ctx.expect(all(close(a, b) for a, b in zip(changed, want)),
                       "outputs aren't those of the current content of the observations")
            old = [p.clone() for p in vae.parameters()]
            for p, q in zip(vae.parameters(), fresh.parameters()):
                p.add_(0.05)
                q.copy_(p)
            changed, want = vae(mine), copy.deepcopy(fresh)(mine.clone())
            ctx.expect(all(close(a, b) for a, b in zip(changed, want)),
                       "outputs aren't those of the current parameters")
            for p, q in zip(vae.parameters(), old):
                p.copy_(q)
        ctx.count("observations judged", n)
        # at random in training mode
        vae.train()
        seen = []
        handle = vae.decoder.register_forward_pre_hook(lambda mod, args: seen.append(args[0].detach().clone()))
        seed = int(rng.integers(1 << 30))
        try:
            with torch.no_grad(), ctx.lib("network"):
                torch.manual_seed(seed)
                first = vae(x)
                second = vae(x)
                torch.manual_seed(seed)
                repeated = vae(x)
                train = vae.encoder(x)
                decoded = vae.decoder(seen[0])
        finally:
            handle.remove()
        ctx.need(len(seen) >= 3 and seen[0].shape == (n, latent), "decoder isn't given one row of latents per observation")
        ctx.expect(all(torch.equal(a, b) for a, b in zip(first, repeated)),
                   "outputs differ for equally seeded generators")
        ctx.expect(close(first[2], out[2]) and close(first[3], out[3]) and
                   close(train[0], out[2]) and close(train[1], out[3]),
                   "distribution of latents depends on the mode")
        ctx.expect(close(decoded[0], first[0]) and close(decoded[1], first[1]), "outputs aren't those of the decoder")
        ctx.expect(digest(*vae.parameters()) == sha, "parameters changed by forward passes")
        vae.eval()
        with torch.no_grad():
            now = vae(x)
        ctx.expect(all(torch.equal(a, b) for a, b in zip(out, now)), "outputs differ after training mode")
        if n == 0:
            return None
        noise = [((z - out[2]) / torch.exp(out[3] / 2)).numpy() for z in seen[:2]]
        usable = bool((out[3].abs() < 8).all() and (out[2].abs() < 1e3).all())
        if usable and n > 1:
            ctx.expect(not np.allclose(noise[0], noise[1]), "noise is repeated")
            # some values agree by chance
            repeated = noise[0].size - len(np.unique(np.round(noise[0], 4)))
            ctx.expect(repeated <= max(2, 0.1 * noise[0].size),
                       "noise is shared by observations or latents", noise=noise[0])
        return noise if usable else None

    def derivatives(rng, info, vae, x):
        """Nothing on the way from parameters and observations to outputs is cut off."""
        twin = copy.deepcopy(vae).double()
        x = x[:2].double().clone()
        for training in (False, True):
            twin.train(training)
            weights = [torch.tensor(rng.normal(size=(len(x), w))) for w in
                       (info["m"], info["m"], info["latent"], info["latent"])]
            seed = int(rng.integers(1 << 30))

            def total():
                torch.manual_seed(seed)
                return sum((o * w).sum() for o, w in zip(twin(x), weights))

            params = list(twin.parameters())
            for p in params:
                p.grad = None
            with ctx.lib("derivatives"):
                total().backward()
            with torch.no_grad():
                for p in params:
                    ctx.need(p.requires_grad and p.grad is not None, "parameter without derivative")
                    i = int(rng.integers(p.numel()))
                    flat = p.view(-1)
                    old = float(flat[i])
                    step = 1e-6 * max(1.0, abs(old))
                    flat[i] = old + step
                    up = float(total())
                    flat[i] = old - step
                    down = float(total())
                    flat[i] = old
                    half = float(total())
                    got, want = float(p.grad.view(-1)[i]), (up - down) / (2 * step)
                    if abs(up + down - 2 * half) > 1e-6 * step * (1 + abs(half)) * 1e3:
                        ctx.count("derivatives at kinks skipped")
                        continue
                    ctx.count("derivatives judged")
                    ctx.expect(abs(got - want) <= 1e-4 * (abs(want) + 1) + 1e-9 * abs(half) / step * 1e-6 + 1e-5 * abs(half),
                               "derivative of outputs", got=got, expected=want, training=training)

    def initial(rng, vae):
        """Scaled initial parameters, to be pooled, by kind."""
        out, kinds = [], {}
        for mod in vae.modules():
            if hasattr(mod, "weight"):
                bound = 1 / np.sqrt(mod.weight.shape[1])
                for kind, p in (("weights", mod.weight), ("biases", mod.bias)):
                    v = p.detach().numpy().ravel() / bound
                    ctx.need(np.abs(v).max() <= 1 + 1e-6, "initial parameters outside of their range")
                    out.append(v)
                    kinds.setdefault(("few " if mod.weight.shape[1] < 4 else "") + kind, []).append(v)
        values = np.concatenate(out)
        ctx.expect(len(np.unique(values)) > 0.98 * len(values), "initial parameters repeat themselves")
        return {k: np.concatenate(v) for k, v in kinds.items()}

    def layers(rng, i):
        ins, outs, n = int(rng.integers(1, 8)), int(rng.integers(1, 8)), int(rng.integers(0, 9))
        mask = torch.tensor((rng.random((outs, ins)) < 0.5).astype(np.float32))
        kw = dict(bias=bool(rng.integers(2)))
        if i % 2:
            kw["mask"] = mask
        if i % 3 == 0:
            kw["dtype"] = torch.float64
        ctx.case(dict(what="layer", ins=ins, outs=outs, n=n, masked=i % 2, bias=kw["bias"]), True, digest(mask, i))
        with ctx.lib("SparseLinear"):
            layer = SparseLinear(ins, outs, **kw)
            x = torch.tensor(rng.normal(size=(n, ins)), dtype=kw.get("dtype", torch.float32))
            y = layer(x)
            y.sum().backward()
        w = layer.weight.detach() * (mask if i % 2 else 1)
        want = x @ w.T + (layer.bias.detach() if kw["bias"] else 0)
        ctx.expect((layer.bias is not None) == kw["bias"], "bias as asked for")
        ctx.expect(y.dtype == x.dtype and close(y.detach(), want), "output of a sparse layer", got=y, expected=want)
        if i % 2:
            ctx.expect(bool((layer.weight.grad[mask == 0] == 0).all()), "masked weights have derivatives")
        ctx.count("layers judged")

    def blocks(rng):
        m, latent = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        seed = int(rng.integers(1 << 30))
        n_layers, width = int(rng.integers(0, 3)), int(rng.integers(1, 4))
        ctx.case(dict(what="blocks", m=m, latent=latent, seed=seed), True)
        with ctx.lib("networks"):
            nets = []
            for s in (seed, seed, seed + 1):
                torch.manual_seed(s)
                nets.append(VariationalAutoencoder(latent, m, n_layers, width))
            torch.manual_seed(seed)
            enc, dec = Encoder(latent, m), Decoder(latent, m, n_layers, width)
        sha = [digest(*n.parameters()) for n in nets]
        ctx.expect(sha[0] == sha[1] != sha[2], "initial parameters are those of the seed")
        ctx.expect(digest(*enc.parameters(), *dec.parameters()) == sha[0] or
                   [p.shape for p in enc.parameters()] == [p.shape for p in nets[0].encoder.parameters()],
                   "encoders and decoders by themselves")
        with torch.no_grad(), ctx.lib("networks"):
            enc.load_state_dict(nets[2].encoder.state_dict())
            dec.load_state_dict(nets[2].decoder.state_dict())
            x = torch.tensor(rng.normal(size=(4, m)), dtype=torch.float32)
            mu, logvar = enc(x)
            recon, logcov = dec(mu)
            out = nets[2].eval()(x)
        ctx.expect(all(torch.equal(a, b) for a, b in zip(out, (recon, logcov, mu, logvar))),
                   "network isn't its encoder followed by its decoder")
        ctx.count("networks rebuilt from parts")

    def shard(ctx, idx):
        rng = ctx.rng("c45", idx)
        values, noises, by_row, by_column = {}, [], [], []
        for i in range(ctx.pick(60, 900)):
            with ctx.guarded():
                trained = i % 6 == 5
                info, vae = network(rng, trained)
                n = (0, 1, 2, int(rng.integers(3, 40)), int(rng.integers(40, 300)))[int(rng.integers(5))] if i % 4 else 30
                x = torch.tensor(rng.normal(size=(n, info["m"])) * 10.0 ** rng.integers(-2, 3), dtype=torch.float32)
                ctx.case(dict(observations=n, **info), n > 1)
                if not trained:
                    for kind, v in initial(rng, vae).items():
                        values.setdefault(kind, []).append(v)
                got = one_by_one(rng, info, vae, x)
                if got is not None:
                    noises += [g.ravel() for g in got]
                    for g in got:  # normal and independent, so are their sums
                        by_column.append(g.sum(0) / len(g) ** 0.5)
                        by_row.append(g.sum(1) / g.shape[1] ** 0.5)
                if n and i % 2:
                    derivatives(rng, info, vae, x)
            with ctx.guarded():
                layers(rng, i)
            with ctx.guarded():
                blocks(rng)
            if ctx.out_of_time(150, 840):
                break
        pools = dict(values, noise=noises, **{"noise of observations": by_row, "noise of latents": by_column})
        for name, vals in pools.items():
            vals = np.concatenate(vals) if vals else np.zeros(0)
            ctx.count(f"{name}: number", len(vals))
            for power, what in ((1, "sum"), (2, "squares"), (4, "fourth powers")):
                ctx.count(f"{name}: {what} (1e-6)", np.round((vals**power).sum(dtype=float) * 1e6))

    ctx.shards(shard)
    ctx.case_info = dict(note="all networks of this run")
    c = ctx.counters
    uniform, normal = (1 / 3, 1 / 5, 1 / 9), (1, 3, 105)
    for name in ("weights", "biases", "few weights", "few biases", "noise",
                 "noise of observations", "noise of latents"):
        m2, m4, m8 = normal if "noise" in name else uniform
        n = c.get(f"{name}: number", 0)
        if n > 500:
            for what, want, sd in (("sum", 0, m2**0.5), ("squares", m2, (m4 - m2**2) ** 0.5),
                                   ("fourth powers", m4, (m8 - m4**2) ** 0.5)):
                ctx.stat(f"{what} of {name}", c[f"{name}: {what} (1e-6)"] / 1e6 / c[f"{name}: number"], want,
                         sd / n**0.5, slack=1e-3 * (1 + want))
    for name, least in (("trained networks", 30), ("observations judged", 5000), ("derivatives judged", 2000),
                        ("layers judged", 200), ("networks rebuilt from parts", 200), ("noise: number", 20000),
                        ("noise of latents: number", 500), ("few biases: number", 1000), ("weights: number", 20000)):
        ctx.require(name, least)


CHECKS = {"C45": c45}
