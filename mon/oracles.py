"""Reference implementations, independent of medil."""

import itertools

import networkx as nx
import numpy as np
from scipy.optimize import Bounds, LinearConstraint, milp

from .core import Inconclusive


def max_cliques(adj):
    """All maximal cliques (frozensets) of a boolean adjacency matrix."""
    if len(adj) <= 9:
        return max_cliques_brute(adj)
    g = nx.Graph()
    g.add_nodes_from(range(len(adj)))
    g.add_edges_from(np.argwhere(np.triu(adj, 1)).tolist())
    return {frozenset(c) for c in nx.find_cliques(g)}


def max_cliques_brute(adj):
    n = len(adj)
    nbr = [sum(1 << int(j) for j in np.flatnonzero(adj[i]) if j != i) for i in range(n)]
    out = set()
    # common[s]: vertices adjacent to all members of s
    full = (1 << n) - 1
    common = [full] * (1 << n)
    clique = [True] * (1 << n)
    for s in range(1, 1 << n):
        low = (s & -s).bit_length() - 1
        rest = s & (s - 1)
        common[s] = common[rest] & nbr[low]
        clique[s] = clique[rest] and (rest & ~nbr[low]) == 0
        if clique[s] and common[s] == 0:
            out.add(frozenset(i for i in range(n) if s >> i & 1))
    return out


def set_cover(elements, sets):
    """Minimum number of the sets covering all elements."""
    elements = list(elements)
    if not elements:
        return 0
    pos = {e: i for i, e in enumerate(elements)}
    cols = {frozenset(pos[e] for e in s if e in pos) for s in sets}
    cols.discard(frozenset())
    # drop dominated columns
    cols = [c for c in cols if not any(c < d for d in cols)] if len(cols) < 400 else list(cols)
    mat = np.zeros((len(elements), len(cols)))
    for j, c in enumerate(cols):
        mat[list(c), j] = 1
    if not mat.any(1).all():
        raise Inconclusive("reference set cover is infeasible")
    chosen = 0
    # forced columns first
    while len(mat):
        single = np.flatnonzero(mat.sum(1) == 1)
        if not len(single):
            break
        col = int(np.argmax(mat[single[0]]))
        keep = mat[:, col] == 0
        mat = mat[keep]
        chosen += 1
    if not len(mat):
        return chosen
    mat = mat[:, mat.any(0)]
    res = milp(
        np.ones(mat.shape[1]),
        constraints=LinearConstraint(mat, 1, np.inf),
        integrality=np.ones(mat.shape[1]),
        bounds=Bounds(0, 1),
        options=dict(time_limit=120),
    )
    if res.status != 0:
        raise Inconclusive(f"reference set cover: {res.message}")
    return chosen + int(round(res.fun))


def pairs_of(clique):
    return [tuple(p) for p in itertools.combinations(sorted(clique), 2)]


def min_cover_size(adj):
    """Minimum number of cliques covering all edges; isolated vertices count one each."""
    edges = [tuple(e) for e in np.argwhere(np.triu(adj, 1)).tolist()]
    iso = int((~adj.any(1)).sum())
    return set_cover(edges, [pairs_of(c) for c in max_cliques(adj)]) + iso


def independence_number(adj):
    comp = ~adj
    np.fill_diagonal(comp, False)
    return max((len(c) for c in max_cliques(comp)), default=0)


def canon_rows(biadj):
    return sorted(tuple(r) for r in np.asarray(biadj).astype(bool).tolist())


def has_pure_children(biadj):
    b = np.asarray(biadj).astype(bool)
    pure = b.sum(0) == 1
    return bool((b & pure).any(1).all())


def std_rows(x):
    """Columns standardized as usual (population standard deviation)."""
    x = np.asarray(x, float)
    return (x - x.mean(0)) / x.std(0)
