"""C24: graph helper queries agree with the graph they are given."""
import numpy as np
import pandas as pd
from lingam.utils import get_sink_variables, get_exo_variables, remove_effect, calculate_distance_from_root_nodes

from mon import gen, oracle

RULE = (
    "weighted graphs of 2-40 variables (dense, sparse, empty, complete, chains, stars, cycles, self-loops), real, integer and boolean weights whose sums cancel, arrays, lists and frames; "
    "lists and distances recomputed by breadth-first search over single entries; data sets with offsets, differing scales, integers and collinear columns for effect removal, against a projection; distinct by graph or data"
)
REQUIRED = {"sinks": 400, "exogenous": 400, "distances": 350, "distances-limited": 300, "removed-uncorrelated": 400, "others-are-residuals": 400, "removed-unchanged": 100, "coefficients": 300,
            "input-kept": 400, "no-root-refused": 20}


def cases(seed, tier):
    return gen.spread(seed, tier, [
        ("graph", 1500, 10000, lambda i, r: {"d": int(r.choice([2, 3, 4, 5, 6, 8, 12, 20, 40])), "shape": ["dag", "dag", "chain", "star", "empty", "full", "cyclic", "sparse", "loop"][i % 9], "w": ["real", "int", "cancel", "bool", "small"][i % 5], "form": ["array", "list", "array", "F"][i % 4]}),
        ("remove", 400, 3000, lambda i, r: {"d": int(r.choice([2, 3, 4, 6, 10])), "n": int(r.choice([12, 50, 300])) if i % 8 else 1500, "form": ["array", "frame", "list", "int", "f32"][i % 5]}),
    ])


def weights(rng, A, kind):
    d = len(A)
    if kind == "bool":
        return A.astype(float)
    if kind == "int":
        return A * rng.choice([-2, -1, 1, 2], (d, d))
    B = A * rng.uniform(0.1, 2, (d, d)) * rng.choice([-1, 1], (d, d))
    if kind == "small":  # coefficients between variables of very different units
        return B * 10.0 ** rng.uniform(-6, 4, (d, d))
    if kind == "cancel":  # rows and columns sum to exactly zero where that is possible
        B = np.zeros((d, d))
        for i in range(d):
            nz = np.where(A[i])[0]
            for a, b in zip(nz[::2], nz[1::2]):
                B[i, a], B[i, b] = 0.5, -0.5
            if len(nz) % 2:
                B[i, nz[-1]] = -0.25
        if rng.rand() < 0.5:
            B = B.T.copy()
    return B


def make(rng, c):
    d = c["d"]
    order = rng.permutation(d)
    A = np.zeros((d, d), int)
    s = c["shape"]
    if s == "chain":
        for a in range(1, d):
            A[order[a], order[a - 1]] = 1
        for _ in range(rng.randint(3)):
            a, b = sorted(rng.choice(d, 2, replace=False))
            A[order[b], order[a]] = 1
    elif s == "star":
        for a in range(1, d):
            if rng.rand() < 0.5:
                A[order[0], order[a]] = 1
            else:
                A[order[a], order[0]] = 1
    elif s != "empty":
        p = {"dag": rng.uniform(0.2, 0.8), "full": 1.0, "sparse": 1.5 / d, "cyclic": 0.3, "loop": 0.4}[s]
        for a in range(d):
            for b in range(a):
                if rng.rand() < p:
                    A[order[a], order[b]] = 1
        if s == "loop":  # nobody is free of causes
            A[np.roll(order, 1), order] = 1
        if s == "cyclic":
            for _ in range(rng.randint(1, 4)):
                i, j = rng.choice(d, 2, replace=False)
                A[i, j] = 1
    return weights(rng, A, c["w"])


def shaped(B, form):
    return {"array": lambda: B.copy(), "list": lambda: B.tolist(), "F": lambda: np.asfortranarray(B)}[form]()


def case_graph(m, rng, c):
    B = make(rng, c)
    d = len(B)
    E = B != 0
    arg = shaped(B, c["form"])
    if rng.rand() < 0.2:  # a loop is no edge from or to another variable
        L = B.copy()
        L[0, 0] = 1
        a2 = shaped(L, c["form"])
    else:
        a2 = shaped(B, c["form"])
    if c["w"] == "small" and rng.rand() < 0.5:  # an edge is an edge
        a2 = shaped(np.asarray(a2) * 1e-9, c["form"])
    off = E & ~np.eye(d, dtype=bool)
    m.check("sinks", sorted(int(v) for v in get_sink_variables(a2)) == [j for j in range(d) if not any(off[i, j] for i in range(d))], graph=B)
    m.check("exogenous", sorted(int(v) for v in get_exo_variables(a2)) == [i for i in range(d) if not any(off[i, j] for j in range(d))], graph=B)
    roots = [i for i in range(d) if not E[i].any()]
    if not roots:
        m.raises("no-root-refused", ValueError, lambda: calculate_distance_from_root_nodes(arg))
        return
    dist = {r: 0 for r in roots}
    level = list(roots)
    while level:
        nxt = [i for i in range(d) if i not in dist and any(E[i, j] for j in level)]
        nxt = sorted(set(nxt))
        for i in nxt:
            dist[i] = dist[level[0]] + 1
        level = nxt

    def table(limit=None):
        t = {}
        for v in sorted(dist):
            if limit is None or dist[v] <= limit:
                t.setdefault(dist[v], []).append(v)
        return t

    def norm(r):
        return {int(k): sorted(int(v) for v in vs) for k, vs in r.items()}

    m.check("distances", norm(calculate_distance_from_root_nodes(arg)) == table(), graph=B, want=table(), got=norm(calculate_distance_from_root_nodes(arg)))
    k = int(rng.randint(1, max(2, max(dist.values()) + 2)))
    m.check("distances-limited", norm(calculate_distance_from_root_nodes(arg, max_distance=k)) == table(k), graph=B, k=k)
    if d > 2:  # an unresolved pair is not an edge
        i, j = [int(v) for v in rng.choice(d, 2, replace=False)]
        if not E[i, j] and not E[j, i]:
            N = np.array(B, float)
            N[i, j] = N[j, i] = np.nan
            m.check("distances", norm(calculate_distance_from_root_nodes(shaped(N, c["form"]))) == table(), graph=N)
    m.check("input-kept", np.array_equal(np.asarray(arg), B), graph=B)
    m.state(B)


def case_remove(m, rng, c):
    n, d = c["n"], c["d"]
    X = gen.messy_data(rng, n, d, ["lingam", "gauss", "indep"][rng.randint(3)])
    X = X * 10.0 ** rng.uniform(-2, 2, d) + rng.uniform(-5, 5, d) * (rng.rand(d) < 0.7)
    if c["form"] == "int":
        X = np.round((X - X.mean(0)) / X.std(0) * 7 + rng.randint(-20, 20, d)).astype(int)
    if d > 3 and rng.rand() < 0.2:
        X[:, 1] = X[:, 0] * 2 + 1
    form = c["form"]
    for _ in range(2):
        k = int(rng.randint(1, d))
        rem = [int(v) for v in rng.permutation(d)[:k]]
        arg = {"array": lambda: X.copy(), "frame": lambda: pd.DataFrame(X, columns=[f"c{j}" for j in range(d)]), "list": lambda: X.tolist(), "int": lambda: X.copy(), "f32": lambda: X.astype(np.float32)}[form]()
        f = np.asarray(arg, float)
        rarg = [rem, np.array(rem), rem][rng.randint(3)]
        if rng.rand() < 0.6:
            got, coefs = remove_effect(arg, rarg, return_coefs=True)
        else:
            got, coefs = remove_effect(arg, rarg), None
        got = np.asarray(got, float)
        m.check("input-kept", np.array_equal(np.asarray(arg, float), f))
        if not m.check("shape", got.shape == (n, d), got=got.shape):
            return
        m.check("removed-unchanged", np.array_equal(got[:, rem], f[:, rem]))
        Z = f[:, rem] - f[:, rem].mean(0)
        Z = Z / np.where(Z.std(0) > 0, Z.std(0), 1)
        U, s, _ = np.linalg.svd(Z, full_matrices=False)
        gap = s[s > 1e-9 * s[0]].min() / s[0]
        if gap < 1e-5:
            m.skip("ill-conditioned")
            continue
        U = U[:, s > 1e-9 * s[0]]
        for j in range(d):
            if j in rem:
                continue
            y = f[:, j] - f[:, j].mean()
            tol = 1e-7 * np.abs(f[:, j]).max()
            m.check("removed-uncorrelated", np.abs(Z.T @ (got[:, j] - got[:, j].mean())).max() <= 1e-6 * n * max(y.std(), np.abs(f[:, j]).max() * 1e-3), j=j, rem=rem)
            m.check("others-are-residuals", np.allclose(got[:, j], y - U @ (U.T @ y), rtol=1e-6, atol=tol), j=j, rem=rem, got=got[:5, j], want=(y - U @ (U.T @ y))[:5])
            if coefs is not None:
                b = np.ravel(coefs[j])
                m.check("coefficients", len(b) == k and np.allclose(f[:, rem] @ b - f[:, rem].mean(0) @ b, y - (got[:, j]), rtol=1e-6, atol=tol), j=j, rem=rem, got=b)
        if coefs is not None:
            m.check("coefficients", sorted(int(v) for v in coefs) == [j for j in range(d) if j not in rem], got=sorted(coefs))
        m.state(np.asarray(f), rem)
