"""Workload generators (independent of medil's own)."""

import networkx as nx
import numpy as np

ENCODINGS = (
    (bool, 1), (bool, 0), (int, 1), (int, 0), (np.uint8, 1), (float, 0), (np.int32, 1),
)


def encode(adj, which):
    dtype, diag = ENCODINGS[which % len(ENCODINGS)]
    out = adj.astype(dtype)
    np.fill_diagonal(out, diag)
    return out


def to_adj(g):
    """Boolean adjacency matrix, zeros on the diagonal."""
    adj = nx.to_numpy_array(g, nodelist=sorted(g.nodes)).astype(bool)
    np.fill_diagonal(adj, False)
    return adj


def relabel(adj, rng):
    perm = rng.permutation(len(adj))
    return adj[np.ix_(perm, perm)]


def atlas(max_n=7, min_n=1):
    return [
        to_adj(g) for g in nx.graph_atlas_g() if min_n <= g.number_of_nodes() <= max_n
    ]


def er(rng, n, p):
    adj = np.triu(rng.random((n, n)) < p, 1)
    return adj | adj.T


def complement(adj):
    out = ~adj
    np.fill_diagonal(out, False)
    return out


def disjoint(*adjs):
    n = sum(map(len, adjs))
    out = np.zeros((n, n), bool)
    pos = 0
    for a in adjs:
        out[pos : pos + len(a), pos : pos + len(a)] = a
        pos += len(a)
    return out


def induced(biadj):
    """Pairs of different variables sharing a latent."""
    b = np.asarray(biadj).astype(int)
    adj = (b.T @ b) > 0
    np.fill_diagonal(adj, False)
    return adj


def graph(rng, n_min, n_max):
    """A random graph of a random family; (name, adjacency)."""
    n = int(rng.integers(n_min, n_max + 1))
    kind = int(rng.integers(0, 14))
    if kind <= 3:
        p = rng.choice([0.15, 0.3, 0.5, 0.7, 0.85, 0.93])
        name, adj = f"er{p}", er(rng, n, p)
    elif kind == 4:
        name, adj = "cocktail", complement(to_adj(nx.empty_graph(n)))
        for i in range(0, n - 1, 2):
            adj[i, i + 1] = adj[i + 1, i] = False
    elif kind == 5:
        name, adj = "cycle", to_adj(nx.cycle_graph(n)) if n > 2 else er(rng, n, 1.0)
    elif kind == 6:
        name, adj = "cocycle", complement(to_adj(nx.cycle_graph(max(n, 3)))[:n, :n])
    elif kind == 7:
        k = int(rng.integers(1, n + 1))
        b = rng.random((k, n)) < rng.choice([0.2, 0.35, 0.5])
        name, adj = "induced", induced(b)
    elif kind == 8:
        name, adj = "induced1pc", induced(one_pure_child(rng, n))
    elif kind == 9:
        iv = np.sort(rng.random((n, 2)), axis=1) * [1, 0.8]
        adj = (iv[:, None, 0] <= iv[None, :, 1]) & (iv[None, :, 0] <= iv[:, None, 1])
        name, adj = "interval", adj & ~np.eye(n, dtype=bool)
    elif kind == 10:
        a = int(rng.integers(0, n + 1))
        name = "union"
        adj = disjoint(er(rng, a, 0.6), er(rng, n - a, 0.6))
    elif kind == 11:
        parts = rng.integers(0, max(2, n // 2), n)
        name, adj = "multipartite", parts[:, None] != parts[None, :]
    elif kind == 12:
        base = nx.gnp_random_graph(max(3, n // 2 + 1), 0.6, seed=int(rng.integers(1 << 30)))
        line = nx.line_graph(base)
        adj = to_adj(nx.convert_node_labels_to_integers(line))[:n, :n]
        name = "line"
        if len(adj) < max(1, n_min):
            name, adj = "er0.5", er(rng, n, 0.5)
    else:
        # cliques overlapping in a core, plus isolated vertices
        adj = np.zeros((n, n), bool)
        core = rng.random(n) < 0.3
        for _ in range(int(rng.integers(1, 5))):
            c = core | (rng.random(n) < 0.35)
            adj |= np.outer(c, c)
        np.fill_diagonal(adj, False)
        iso = rng.random(n) < 0.1
        adj[iso] = False
        adj[:, iso] = False
        name = "cores"
    return name, relabel(adj.astype(bool), rng)


def hidden_set(rng, n_min, n_max):
    """Random graph with very many maximal independent sets, one of them larger than the rest."""
    n = int(rng.integers(n_min, n_max + 1))
    if rng.random() < 0.5:
        adj = er(rng, n, rng.choice([0.35, 0.5]))
        hidden = rng.choice(n, n // 3, replace=False)
        adj[np.ix_(hidden, hidden)] = False
        name = "hidden set"
    else:  # disjoint triangles and paths of length two: 3^a 2^b maximal independent sets
        parts = []
        left = min(n, 27)
        while left >= 3:
            tri = np.ones((3, 3), bool) & ~np.eye(3, dtype=bool)
            if rng.random() < 0.4:
                tri[0, 1] = tri[1, 0] = False
            parts.append(tri)
            left -= 3
        adj = disjoint(*parts)
        name = "disjoint triangles and paths"
    return name, relabel(adj, rng)


def one_pure_child(rng, num_meas, num_latent=None, p=None):
    """Random structure in which every latent has a pure child."""
    k = int(rng.integers(1, num_meas + 1)) if num_latent is None else num_latent
    p = rng.choice([0.1, 0.3, 0.6, 0.9]) if p is None else p
    b = np.zeros((k, num_meas), bool)
    b[np.arange(k), np.arange(k)] = True
    for j in range(k, num_meas):
        b[:, j] = rng.random(k) < p
        b[rng.integers(k), j] = True
    return b[rng.permutation(k)][:, rng.permutation(num_meas)]


def biadj(rng, num_latent, num_meas, p=0.4, allow_empty=False):
    b = rng.random((num_latent, num_meas)) < p
    if not allow_empty:
        for j in np.flatnonzero(~b.any(0)):
            b[rng.integers(num_latent), j] = True
        for i in np.flatnonzero(~b.any(1)):
            b[i, rng.integers(num_meas)] = True
    return b


def dataset(rng, n, m, kind=None):
    """Non-degenerate dataset of m dependent variables, about unit scale."""
    kinds = ("gauss", "nonlinear", "heavy", "uniform", "skewed")
    kind = kinds[int(rng.integers(len(kinds)))] if kind is None else kind
    latent = rng.standard_normal((n, max(1, m // 2)))
    mix = rng.normal(size=(latent.shape[1], m)) * (rng.random((latent.shape[1], m)) < 0.6)
    noise = rng.standard_normal((n, m)) * rng.uniform(0.4, 1.2, m)
    if kind == "gauss":
        x = latent @ mix + noise
    elif kind == "nonlinear":
        x = np.tanh(latent @ mix) + np.sin(2 * latent @ mix) + 0.5 * noise
    elif kind == "heavy":
        x = latent @ mix + noise + 0.3 * rng.standard_t(4, (n, m))
    elif kind == "uniform":
        x = rng.uniform(-1, 1, (n, m)) + 0.5 * latent @ mix
    else:
        x = np.exp(0.5 * (latent @ mix)) + 0.5 * noise
    return kind, x


def structured(rng, n_min, n_max):
    """A structure whose latents all have pure children, of many variables and few latents (so that
    searches are quick though neighbourhoods are large), including one clique and two cliques."""
    n = int(rng.integers(n_min, n_max + 1))
    kind = int(rng.integers(5))
    k = (1, 2, 3, int(rng.integers(2, 5)), int(rng.integers(2, 5)))[kind]
    b = one_pure_child(rng, n, num_latent=k, p=float(rng.choice([0.1, 0.4, 0.7])))
    return f"structure with {k} latents", b
