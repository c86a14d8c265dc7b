"""C18: ICA-based, high-dimensional and nonlinear searches follow their criteria."""
import itertools

import numpy as np
import lingam
from scipy.optimize import linear_sum_assignment
from sklearn.base import clone
from sklearn.decomposition import FastICA
from sklearn.ensemble import GradientBoostingRegressor, RandomForestRegressor
from sklearn.linear_model import LinearRegression
from sklearn.tree import DecisionTreeRegressor

from mon import gen, oracle, ref_tests
from mon.props.c17 import sample as additive, structure

RULE = (
    "ICA orders re-derived from an independent FastICA run with the same seed, high-dimensional and nonlinear orders replayed step by step against "
    "independently computed criteria, nonlinear parents against the documented pruning sequence; steps tied within rounding are inconclusive; "
    "non-trivial: at least two unambiguous steps; distinct by (data, options)"
)
REQUIRED = {"ica-triangular": 150, "highdim-order": 120, "resit-step": 80, "resit-parents": 30}
SLOW_FIRST = ["resit_large", "resit", "highdim_wide"]


def cases(seed, tier):
    def f(i, r):
        return {"n": int(r.choice([30, 80, 200, 600, 1500])), "d": int(r.choice([2, 3, 4, 5, 7])), "flavour": gen.FLAVOURS[i % len(gen.FLAVOURS)], "opt": i}

    def h(i, r):
        return dict(f(i, r), d=int(r.choice([2, 3, 5, 6, 8, 10])))

    def g(i, r):
        return {"n": int(r.choice([40, 99, 150, 250])), "d": int(r.choice([2, 3, 3, 4])), "opt": i}

    return gen.spread(seed, tier, [
        ("ica", 240, 2400, f), ("ica_dense", 40, 400, lambda i, r: dict(f(i, r), n=[800, 2000][i % 2], d=int(r.choice([3, 4, 6, 7])), flavour="dense")), ("ica_wide", 8, 60, lambda i, r: dict(f(i, r), n=800, d=int(r.choice([10, 14])))),
        ("highdim", 240, 2400, h), ("highdim_narrow", 20, 200, lambda i, r: dict(f(i, r), n=8, d=10)), ("highdim_wide", 24, 200, lambda i, r: dict(f(i, r), n=[100, 300][i % 2], d=int(r.choice([9, 10, 11])))),
        ("resit", 110, 700, g), ("resit_wide", 12, 100, lambda i, r: dict(g(i, r), n=[60, 120][i % 2], d=5 + i % 2, opt=4 * i + 1)), ("resit_large", 2, 16, lambda i, r: dict(g(i, r), n=1100, d=3)),
    ])


def case_ica(m, rng, c):
    d = c["d"]
    if c["flavour"] == "dense":
        B, o = gen.dag(rng, d, 1.0, 0.4, 1.2)
        X = gen.linear_data(rng, c["n"], d, kinds=["uniform", "laplace"], scale=False, B=B, order=o)[0]
    else:
        X = gen.messy_data(rng, c["n"], d, c["flavour"])
    seed = int(rng.randint(1000))
    it = int(rng.choice([1000, 1000, 200, 20, 5]))
    model = lingam.ICALiNGAM(random_state=seed) if it == 1000 and c["opt"] % 2 else lingam.ICALiNGAM(random_state=seed, max_iter=it)
    try:
        W = FastICA(max_iter=it, random_state=seed).fit(X).components_
    except (ValueError, np.linalg.LinAlgError):
        m.skip("ica-failed")
        return
    if not np.isfinite(W).all() or W.shape != (d, d) or (W == 0).any():
        m.skip("ica-degenerate")
        return
    model.fit(X.copy())
    order = [int(v) for v in model.causal_order_]
    rows, cols = linear_sum_assignment(1 / np.abs(W))
    PW = np.zeros_like(W)
    PW[cols] = W[rows]
    B = np.abs(PW / np.diag(PW)[:, None])
    np.fill_diagonal(B, 0)
    # how many of the smallest off-diagonal entries have to go before the rest is acyclic
    pairs = sorted(((B[i, j], i, j) for i in range(d) for j in range(d) if i != j))
    A = B.copy()
    k = d * (d - 1) // 2
    for _, i, j in pairs[:k]:
        A[i, j] = 0
    while not oracle.is_acyclic(A):
        _, i, j = pairs[k]
        A[i, j] = 0
        k += 1
    rest = pairs[k:]
    if k and rest and rest[0][0] - pairs[k - 1][0] < 1e-9 * rest[0][0]:
        m.skip("tied-entries")
        return
    pos = {v: p for p, v in enumerate(order)}
    ok = m.check("ica-triangular", sorted(order) == list(range(d)) and all(pos[j] < pos[i] for _, i, j in rest), got=order, kept=rest, B=B)
    if ok and rest:
        m.state(X, seed, it)
        m.count("ica-entries-kept", len(rest))
        m.count("ica-extra-discarded", k - d * (d - 1) // 2)


case_ica_wide = case_ica_dense = case_ica


def highdim_order(Y, J, K, alpha):
    """(order, margin)"""
    n, p = Y.shape
    margin = np.inf

    def taus(v, C, chs):
        r = Y[:, v]
        if C:
            b, *_ = np.linalg.lstsq(Y[:, C], Y[:, v], rcond=None)
            r = r - Y[:, C] @ b
        out = {}
        for u in chs:
            a = np.mean(r ** (K - 1) * Y[:, u]) * np.mean(r**2)
            b2 = np.mean(r**K) * np.mean(r * Y[:, u])
            out[u] = (abs(a - b2), abs(a) + abs(b2))
        return out

    S = np.full((p, p), 1e5)
    err = np.zeros((p, p))
    cut = 0.0
    done, left = [], list(range(p))
    while len(left) > 1:
        for v in left:
            if not done:
                new = [taus(v, [], [u for u in left if u != v])]
            else:
                last = done[-1]
                C = {u for u in done if S[v, u] > cut} | {last}
                for u in done:
                    margin = min(margin, abs(S[v, u] - cut) / (1e-7 * max(abs(cut), abs(S[v, u])) + 4 * err[v, u] + 1e-300))
                size = min(J, len(C))
                new = []
                for sub in itertools.combinations(sorted(C - {last}), size - 1):
                    others = [u for u in left if u != v] + sorted(C - set(sub))
                    new.append(taus(v, sorted(sub) + [last], others))
            for t in new:
                for u, (val, mag) in t.items():
                    if val < S[v, u]:
                        S[v, u] = val
                    err[v, u] = max(err[v, u], 1e-12 * mag)
        worst = {v: max(S[v, u] for u in left if u != v) for v in left}
        e = {v: max(err[v, u] for u in left if u != v) for v in left}
        rank = sorted(left, key=lambda v: worst[v])
        a, b = rank[:2]
        gap = worst[b] - worst[a]
        margin = min(margin, gap / (1e-7 * abs(worst[b]) + 4 * (e[a] + e[b]) + 1e-300))
        cut = max(cut, worst[a] * alpha)
        done.append(a)
        left.remove(a)
    return done + left, margin


def case_highdim(m, rng, c):
    X = gen.messy_data(rng, c["n"], c["d"], c["flavour"])
    if rng.rand() < 0.5:
        X = X - X.mean(0)
    elif rng.rand() < 0.5:
        X = X + rng.uniform(-1.5, 1.5, c["d"]) * X.std(0)
    J, K, alpha = int(rng.choice([3, 3, 4, 5])), int(rng.choice([3, 4, 4, 5, 6])), float(rng.choice([0.5, 0.5, 0.0, 1.0, 0.1, 0.9]))
    kw = {} if c["opt"] % 3 == 0 else dict(J=J, K=K, alpha=alpha)
    if not kw:
        J, K, alpha = 3, 4, 0.5
    kw["estimate_adj_mat"] = bool(c["opt"] % 4) and c["n"] > c["d"]
    model = lingam.HighDimDirectLiNGAM(**kw)
    model.fit(X.copy())
    order = [int(v) for v in model.causal_order_]
    want, margin = highdim_order(X, J, K, alpha)
    if margin < 1:
        m.skip("tied-step")
        return
    if m.check("highdim-order", order == want, got=order, want=want, J=J, K=K, alpha=alpha):
        m.state(X, J, K, alpha)
        if c["d"] > J + 1:
            m.count("highdim-conditioning-limited")


def case_highdim_wide(m, rng, c):
    """many conditioning sets to choose from"""
    d, J, K = c["d"], int(rng.choice([3, 4])), int(rng.choice([3, 4]))
    B, o = gen.dag(rng, d, 0.9, 0.3, 0.8)
    X = gen.linear_data(rng, c["n"], d, kinds=["uniform", "laplace"], B=B, order=o, scale=False)[0]
    model = lingam.HighDimDirectLiNGAM(J=J, K=K, alpha=0.0, estimate_adj_mat=False).fit(X.copy())
    want, margin = highdim_order(X, J, K, 0.0)
    if margin < 1:
        m.skip("tied-step")
        return
    m.check("highdim-order", [int(v) for v in model.causal_order_] == want, tag="wide", got=model.causal_order_, want=want, J=J, K=K)
    m.state(X, J, K)


case_highdim_narrow = case_highdim


def case_resit(m, rng, c):
    X = additive(rng, c["n"], c["d"], structure(rng, c["d"])) if c["opt"] % 4 else gen.messy_data(rng, c["n"], c["d"], ["lingam", "nonlinear", "confounded", "indep"][rng.randint(4)])
    reg = [DecisionTreeRegressor(max_depth=4, random_state=0), LinearRegression(), RandomForestRegressor(6, max_depth=4, random_state=3), GradientBoostingRegressor(n_estimators=12, random_state=1)][c["opt"] % 4]
    alpha = float(rng.choice([0.01, 0.01, 0.05, 0.3, 1e-4, 0.0]))
    model = lingam.RESIT(regressor=clone(reg), alpha=alpha)
    model.fit(X.copy())
    order = [int(v) for v in model.causal_order_]
    d = c["d"]
    if not m.check("resit-permutation", sorted(order) == list(range(d)), got=order):
        return
    A = np.asarray(model.adjacency_matrix_, float)

    def resid(k, ps):
        return X[:, k] - clone(reg).fit(X[:, ps], X[:, k]).predict(X[:, ps])

    left, steps = list(range(d)), 0
    for last in order[:0:-1]:
        st = {}
        bad = False
        for k in left:
            ps = [i for i in left if i != k]
            r = resid(k, ps)
            if ref_tests.fuzzy(r) or ref_tests.fuzzy(X[:, ps]):
                bad = True
            st[k] = oracle.hsic(r, X[:, ps])[0]
        best = min(st.values())
        if bad:
            m.skip("distances-at-rounding-level")
        else:
            steps += m.check("resit-step", st[last] <= best * (1 + 1e-5) + 1e-12, got=last, scores=st, order=order)
        left.remove(last)
    T = ref_tests.Tests(ind_alpha=alpha)
    for k, v in enumerate(order):
        pa = sorted(order[:k])
        T.margin = np.inf
        for l in list(pa):
            ps = [i for i in pa if i != l]
            if not ps:
                continue
            if T.independent([(resid(v, ps), X[:, ps])]):
                pa = ps
        if T.margin < 1:
            m.skip("decision-at-threshold")
            continue
        w = np.zeros(d)
        w[pa] = 1
        m.check("resit-parents", np.array_equal(A[v], w), got=A[v], want=w, order=order)
    if steps > 1:
        m.state(X, alpha, c["opt"] % 4)


case_resit_large = case_resit_wide = case_resit
