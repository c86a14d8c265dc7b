"""C17: CAM-UV reports what its documented test sequence yields."""
import numpy as np
import lingam

from mon import gen, ref_tests

RULE = (
    "additive nonlinear data with observed and unobserved causes (single and multi-group, all options, prior knowledge); the reported matrix is compared "
    "with an independent re-execution of the documented greedy sequence (regressions by pygam); runs with a decision within rounding of its threshold are "
    "inconclusive; non-trivial: an edge or an undefined pair reported; distinct by (data, options)"
)
REQUIRED = {"matrix": 80, "entries": 100, "undefined-symmetric": 100, "no-self-cause": 100}
SLOW_FIRST = ["large", "multi", "triple"]
FUN = [lambda x: x, np.tanh, lambda x: x**2, lambda x: np.sin(2 * x), lambda x: np.exp(-(x**2)), np.abs]


def cases(seed, tier):
    def f(i, r):
        return {"n": int(r.choice([80, 120, 200, 300])), "d": int(r.choice([2, 3, 3, 4, 5, 6])), "opt": i}

    return gen.spread(seed, tier, [
        ("single", 72, 600, f), ("triple", 40, 300, lambda i, r: dict(f(i, r), d=int(r.choice([3, 4])))),
        ("multi", 40, 300, lambda i, r: dict(f(i, r), d=int(r.choice([2, 3, 3, 4])))), ("edge", 60, 500, f), ("again", 24, 160, f), ("large", 3, 20, lambda i, r: dict(f(i, r), n=[1001, 1200, 1600][i % 3], d=3)),
    ])


def structure(rng, d, xor=False):
    order = rng.permutation(d)
    edges = {}
    for a in range(d):
        for b in range(a):
            if rng.rand() < 0.6:
                edges[order[a], order[b]] = (int(rng.randint(len(FUN))), rng.choice([-1, 1]) * rng.uniform(0.8, 2))
    lat = [tuple(rng.choice(d, 2, replace=False)) for _ in range(rng.randint(0, 3))] if d > 2 else []
    return order, edges, lat


def sample(rng, n, d, S):
    order, edges, lat = S
    X = np.zeros((n, d))
    kinds = ["uniform", "laplace", "gauss", "bimodal"]
    Ls = [(p, gen.noise(rng, kinds[rng.randint(4)], n)) for p in lat]
    for i in order:
        v = gen.noise(rng, kinds[rng.randint(4)], n) * rng.uniform(0.3, 0.8)
        for (e, cse), (k, w) in edges.items():
            if e == i:
                v = v + w * FUN[k](X[:, cse])
        for p, L in Ls:
            if i in p:
                v = v + L * rng.uniform(0.7, 1.3)
        X[:, i] = v / v.std()
    return X


def options(rng, opt, d):
    o = {"alpha": float(rng.choice([0.01, 0.01, 0.05, 0.2, 1e-4])), "num_explanatory_vals": int(rng.choice([1, 2, 2, 3]))}
    if opt % 5 == 4:
        o.update(independence="fcorr", ind_corr=float(rng.choice([0.2, 0.35, 0.5])))
    pk = set()
    if opt % 3 == 1:
        pairs = [(i, j) for i in range(d) for j in range(d) if i != j]
        pk = {pairs[k] for k in rng.choice(len(pairs), rng.randint(1, len(pairs)), replace=False)}
    return o, pk


def go(m, rng, Xs, o, pk, multi):
    d = Xs[0].shape[1]
    prior = sorted(pk) if pk else None
    cls = lingam.MultiGroupCAMUV if multi else lingam.CAMUV
    model = cls(prior_knowledge=prior, **o)
    model.fit([x.copy() for x in Xs] if multi else Xs[0].copy())
    B = np.asarray(model.adjacency_matrix_, float)
    N = np.isnan(B)
    m.check("entries", B.shape == (d, d) and np.isin(B[~N], [0, 1]).all(), got=B)
    m.check("undefined-symmetric", np.array_equal(N, N.T) and not (N & (np.nan_to_num(B.T) != 0)).any(), got=B)
    m.check("no-self-cause", not np.nan_to_num(np.diag(B), nan=1).any(), got=B)
    m.check("one-direction", not ((B == 1) & (B.T == 1)).any(), got=B)
    log = {}
    P, U, margin = ref_tests.camuv(Xs, o["alpha"], o["num_explanatory_vals"], o.get("independence", "hsic"), o.get("ind_corr", 0.5), pk, log)
    if margin < 1:
        m.skip("decision-at-threshold")
        return
    for k, v in log.items():
        m.count(k, v)
    W = np.zeros((d, d))
    for i in range(d):
        W[i, list(P[i])] = 1
    for i, j in U:
        W[i, j] = W[j, i] = np.nan
    if m.check("matrix", np.array_equal(B, W, equal_nan=True), got=B, want=W, opts=o, prior=sorted(pk)) and (N.any() or (B == 1).any()):
        m.state(*Xs, sorted(o.items()), sorted(pk))


def at_edge(rng, Xs, o, pk):
    """the threshold moved just beside the value of a decision taken with it"""
    fc = o.get("independence") == "fcorr"
    T = ref_tests.Tests(o.get("independence", "hsic"), o["alpha"], o.get("ind_corr", 0.5))
    ref_tests.camuv(Xs, o["alpha"], o["num_explanatory_vals"], o.get("independence", "hsic"), o.get("ind_corr", 0.5), pk, None, T)
    e = T.edge(rng, "fcorr" if fc else "ind")
    return o if e is None else dict(o, **{"ind_corr" if fc else "alpha": e})


def case_edge(m, rng, c):
    o, pk = options(rng, c["opt"], c["d"])
    o["num_explanatory_vals"] = int(rng.choice([2, 3]))
    S = structure(rng, c["d"])
    multi = c["opt"] % 4 == 3
    if c["opt"] % 2 and c["d"] > 2:
        X = xor_sample(rng, c["n"], c["d"])
        Xs = [X[::2], X[1::2]] if multi else [X]
    else:
        Xs = [sample(rng, c["n"] // (1 + multi) + 9 * k, c["d"], S) for k in range(1 + multi)]
    go(m, rng, Xs, at_edge(rng, Xs, o, pk), pk, multi)


def case_again(m, rng, c):
    """a discovery among three variables after which pairs have to be looked at again"""
    n = c["n"] + 100
    L = np.where(rng.rand(n) < 0.5, 0.15, 1.0)
    a, b = [L * gen.noise(rng, "uniform", n) for _ in range(2)]
    u = lambda s: s * gen.noise(rng, "uniform", n)
    f = lambda: rng.choice([-1, 1]) * rng.uniform(1.5, 2.2)
    e = f() * a + f() * b + u(0.3)
    h = f() * a + f() * b + f() * e + u(0.3)
    X = np.column_stack([a, b, e, h])
    X = X / X.std(0)
    X = X[:, rng.permutation(4)]
    o = {"alpha": float(rng.choice([0.01, 0.001, 0.05])), "num_explanatory_vals": 3}
    if c["opt"] % 3 == 1:
        o.update(independence="fcorr", ind_corr=float(rng.choice([0.3, 0.45, 0.6])))
    if c["opt"] % 4 == 0 or c["opt"] % 3 == 1:
        o = at_edge(rng, [X], o, set())
    go(m, rng, [X], o, set(), False)


def case_single(m, rng, c):
    o, pk = options(rng, c["opt"], c["d"])
    go(m, rng, [sample(rng, c["n"], c["d"], structure(rng, c["d"]))], o, pk, False)


case_large = case_single


def xor_sample(rng, n, d):
    """pairs of causes that are dependent with the effect only jointly resolved: confounded causes of one effect"""
    X = np.zeros((n, d))
    L = np.where(rng.rand(n) < 0.5, 0.15, 1.0)  # common volatility: dependent, but neither additive cause of the other
    perm = rng.permutation(d)
    a, b, e = perm[:3]
    X[:, a] = L * gen.noise(rng, "uniform", n)
    X[:, b] = L * gen.noise(rng, "uniform", n)
    X[:, e] = rng.choice([-2, 2]) * X[:, a] + 2 * FUN[rng.choice([0, 1])](X[:, b]) + 0.3 * gen.noise(rng, "uniform", n)
    for k in perm[3:]:
        X[:, k] = 0.8 * X[:, e] + 0.7 * gen.noise(rng, "laplace", n)
    return X / X.std(0)


def case_triple(m, rng, c):
    o, pk = options(rng, c["opt"], c["d"])
    o["num_explanatory_vals"] = int(rng.choice([3, 4]))
    multi = c["opt"] % 4 == 3
    Xs = [xor_sample(rng, c["n"], c["d"]) for _ in range(1)]
    if multi:
        Xs = [xor_sample(np.random.RandomState(c["seed"] % 1000), c["n"] // 2 + 40 + k, c["d"]) for k in (0, 11)]
    go(m, rng, Xs, o, pk if c["opt"] % 2 else set(), multi)


def case_multi(m, rng, c):
    o, pk = options(rng, c["opt"], c["d"])
    S = structure(rng, c["d"])
    k = int(rng.choice([2, 2, 3, 4, 5]))
    go(m, rng, [sample(rng, max(60, c["n"] // k) + 9 * i, c["d"], S) for i in range(k)], o, pk, True)
