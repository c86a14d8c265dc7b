"""C26: mixed-data estimation returns an acyclic graph that its search justifies."""
import contextlib
import io
from itertools import product

import numpy as np
import pandas as pd
from scipy.special import gammaln
from sklearn.linear_model import LinearRegression, LogisticRegression, PoissonRegressor
import lingam

from mon import gen, oracle

RULE = (
    "mixed continuous/binary/count data of 2-5 variables generated from random acyclic models and from none, fitted with the global phase only and with the local search; the penalised likelihood of "
    "the result and of every acyclic reorientation of the global estimate is recomputed independently; refits on one object and known directions with strong effects; distinct by (data, options)"
)
REQUIRED = {"well-formed": 150, "acyclic": 150, "threshold": 150, "score-not-lower": 100, "best-orientation": 100, "search-result": 60, "threshold-honoured": 40, "same-after-other-fit": 30, "known-direction": 25, "attribute-is-result": 150}
SLOW_FIRST = ["search"]


def cases(seed, tier):
    def f(i, r):
        return {"n": int(r.choice([80, 200, 500])), "d": int(r.choice([2, 3, 4])), "density": float(r.choice([0.0, 0.5, 0.8, 1.0])), "pdisc": float([0.5, 0.0, 1.0, 0.4][i % 4]), "form": ["array", "frame", "list"][i % 3]}

    return gen.spread(seed, tier, [
        ("global", 120, 1500, lambda i, r: dict(f(i, r), d=int(r.choice([2, 3, 4, 5, 6])))), ("search", 200, 1200, lambda i, r: dict(f(i, r), d=int(r.choice([2, 3, 3, 4])), poisson=i % 5 == 3)),
        ("long", 32, 400, lambda i, r: dict(f(i, r), n=int(r.choice([1300, 2500, 5000])), d=int(r.choice([3, 3, 4])), density=float(r.choice([0.3, 0.6])), poisson=i % 5 == 3)),
        ("options", 60, 500, lambda i, r: dict(f(i, r), d=int(r.choice([2, 3, 3, 4])), thr=float([0.2, 0.3, 0.5, 0.8][i % 4]), loss=["mixed", "laplace", "mixed", "logistic"][i // 4 % 4], lam=float(r.choice([0.1, 0.02, 0.3])))),
        ("refit", 36, 300, f), ("known", 30, 200, lambda i, r: {"n": 1000, "pair": ["cc", "dc"][i % 2], "noise": "laplace"}),
    ])


def make(rng, c):
    n, d = c["n"], c["d"]
    B, order = gen.dag(rng, d, c["density"], 0.5, 1.5)
    disc = rng.rand(d) < c["pdisc"]
    X = np.zeros((n, d))
    for i in order:
        mu = X @ B[i]
        if not disc[i]:
            X[:, i] = mu + gen.noise(rng, ["laplace", "exp", "uniform"][rng.randint(3)], n)
        elif c.get("poisson"):
            X[:, i] = rng.poisson(np.exp(np.clip(0.3 * mu, -3, 2)))
        else:
            X[:, i] = rng.rand(n) < 1 / (1 + np.exp(-mu))
    for i in range(d):
        if disc[i] and len(np.unique(X[:, i])) < 2:
            X[:4, i] = [0, 1, 0, 1]
    if rng.rand() < 0.2:
        X = X * np.where(disc, 1, 10.0 ** rng.uniform(-0.5, 0.5, d)) + np.where(disc, 0, rng.uniform(-2, 2, d))
    return X, disc


def fit(X, disc, c, seed, model=None, opts=None, **kw):
    np.random.seed(seed)
    f = c.get("form", "array")
    arg = {"array": lambda: X.copy(), "frame": lambda: pd.DataFrame(X), "list": lambda: X.tolist()}[f]()
    dc = np.where(disc, 0, 1).reshape(1, -1)
    model = lingam.LiM(**(opts or {})) if model is None else model
    with contextlib.redirect_stdout(io.StringIO()):
        W = model.fit(arg, dc, **kw)
    return model, np.asarray(model.adjacency_matrix_, float), W


def general(m, model, W, ret, d):
    m.check("attribute-is-result", ret is model or np.array_equal(np.asarray(ret), W))
    m.check("well-formed", W.shape == (d, d) and np.isfinite(W).all() and (np.diag(W) == 0).all(), got=W)
    m.check("acyclic", oracle.is_acyclic(W), got=W)
    nz = np.abs(W[W != 0])
    m.check("threshold", (nz >= 0.1).all(), got=W)
    m.state(W)


def score(A, X, disc, poisson):
    """penalised log-likelihood of the graph A (A[i, j]: i -> j)"""
    n, d = X.shape
    s = -0.5 * np.log(n) * ((A != 0).sum() + d)
    for i in range(d):
        P = np.where(A[:, i] != 0)[0]
        y = X[:, i]
        if disc[i]:
            if len(P) == 0:
                _, k = np.unique(y, return_counts=True)
                s += (k * np.log(k / n)).sum()
            elif poisson:
                mu = PoissonRegressor().fit(X[:, P], y).predict(X[:, P])
                s += (y * np.log(mu) - mu - gammaln(y + 1)).sum()
            else:
                lr = LogisticRegression().fit(X[:, P], y)
                p = lr.predict_proba(X[:, P])
                s += np.log(np.clip(p[np.arange(n), np.searchsorted(lr.classes_, y)], 1e-16, 1)).sum()
        else:
            e = y - (LinearRegression().fit(X[:, P], y).predict(X[:, P]) if len(P) else y.mean())
            sd = e.std()
            s += (-np.sqrt(2) * np.abs(e) / sd - 0.35).sum() - n * np.log(sd)
    return s


class Undecided(Exception):
    pass


def local_search(W0, X, disc, poisson):
    """documented local search from the global estimate: reorientations, single deletions, single additions, each kept only if it improves the score"""
    d = len(W0)
    cache = {}

    def sc(W):
        k = (W != 0).tobytes()
        if k not in cache:
            cache[k] = score(W, X, disc, poisson)
        return cache[k]

    cur = {"W": W0.copy(), "s": sc(W0)}

    def consider(W):
        if not oracle.is_acyclic(W):
            M = np.eye(d) + W * W / d
            if np.trace(np.linalg.matrix_power(M, d)) - d < 1e-7:
                raise Undecided()
            return
        v = sc(W)
        if (W != 0).tobytes() != (cur["W"] != 0).tobytes() and abs(v - cur["s"]) <= 1e-6 * (1 + abs(v)):
            raise Undecided()
        if v > cur["s"]:
            cur.update(W=W.copy(), s=v)

    I = np.argwhere(W0 != 0)
    for flip in list(product(range(2), repeat=len(I)))[1:]:
        W = W0.copy()
        for (i, j), f in zip(I, flip):
            if f:
                W[i, j] = 0
                W[j, i] = 1
        consider(W)

    def without(base, pairs):
        for i, j in pairs:
            W = base.copy()
            W[i, j] = 0
            consider(W)

    def plus(base):
        for i, j in np.argwhere(base + base.T + np.eye(d) == 0):
            W = base.copy()
            W[i, j] = 1
            consider(W)

    same = lambda: np.array_equal(W0 != 0, cur["W"] != 0)
    if d > 2 and len(I) > d - 1:
        base = cur["W"].copy()
        without(base, np.argwhere(base != 0))
        if not same():
            without(W0, I)
    if d > 2 and len(I) < d * (d - 1) / 2:
        plus(cur["W"].copy())
        if not same():
            plus(W0)
    return cur["W"]


def case_global(m, rng, c):
    X, disc = make(rng, c)
    model, W, ret = fit(X, disc, c, int(rng.randint(2**31 - 1)), only_global=True)
    general(m, model, W, ret, c["d"])


def case_search(m, rng, c):
    X, disc = make(rng, c)
    seed = int(rng.randint(2**31 - 1))
    kw = {"is_poisson": True} if c["poisson"] else {}
    _, W0, _ = fit(X, disc, c, seed, only_global=True)
    k = int((W0 != 0).sum())
    if k > 7:
        m.skip("too-many-edges")
        return
    model, W, ret = fit(X, disc, c, seed, **kw)
    general(m, model, W, ret, c["d"])
    s = score(W, X, disc, c["poisson"])
    tol = 1e-6 * (1 + abs(s))
    s0 = score(W0, X, disc, c["poisson"])
    m.check("score-not-lower", s >= s0 - tol, got=s, start=s0, graph=W, first=W0)
    best, arg = -np.inf, None
    E = np.argwhere(W0 != 0)
    for flip in product(range(2), repeat=k):
        A = np.zeros_like(W0)
        for (i, j), f in zip(E, flip):
            if f:
                A[j, i] = 1
            else:
                A[i, j] = 1
        if oracle.is_acyclic(A):
            v = score(A, X, disc, c["poisson"])
            if v > best:
                best, arg = v, A
    m.check("best-orientation", s >= best - tol, got=s, best=best, graph=W, better=arg)
    try:
        ref = local_search(W0, X, disc, c["poisson"])
    except Undecided:
        m.skip("score-tie")
        return
    m.check("search-result", np.allclose(W, ref, rtol=1e-9, atol=0), got=W, want=ref, first=W0)


case_long = case_search


def case_options(m, rng, c):
    """the drop threshold only ever removes the weaker edges of the global estimate, and the local search starts from what is left"""
    X, disc = make(rng, c)
    if c["loss"] == "logistic":
        X, disc = (X > X.mean(axis=0)).astype(float), np.ones(c["d"], bool)
    seed = int(rng.randint(2**31 - 1))
    base = {"loss_type": c["loss"], "lambda1": c["lam"]}
    _, W, _ = fit(X, disc, c, seed, opts=dict(base), only_global=True)
    model, Wt, ret = fit(X, disc, c, seed, opts=dict(base, w_threshold=c["thr"]), only_global=True)
    want = np.where(np.abs(W) >= c["thr"], W, 0)
    m.check("threshold-honoured", np.array_equal(Wt, want), got=Wt, want=want)
    m.check("well-formed", Wt.shape == W.shape and np.isfinite(Wt).all() and (np.diag(Wt) == 0).all(), got=Wt)
    m.check("attribute-is-result", ret is model or np.array_equal(np.asarray(ret), Wt))
    m.state(Wt)
    if (want != 0).sum() > 6 or not oracle.is_acyclic(want):
        m.skip("too-many-edges")
        return
    _, Ws, _ = fit(X, disc, c, seed, opts=dict(base, w_threshold=c["thr"]))
    try:
        ref = local_search(want, X, disc, False)
    except (Undecided, ValueError):
        m.skip("score-tie")
        return
    m.check("search-result", np.allclose(Ws, ref, rtol=1e-9, atol=0), got=Ws, want=ref, first=want)


def case_refit(m, rng, c):
    X, disc = make(rng, c)
    Y, disc2 = make(rng, dict(c, d=int(rng.choice([2, 3, 4]))))
    s1, s2 = [int(v) for v in rng.randint(2**31 - 1, size=2)]
    og = rng.rand() < 0.4
    _, W, _ = fit(X, disc, c, s1, only_global=og)
    if (W != 0).sum() > 7:
        m.skip("too-many-edges")
        return
    model, _, _ = fit(Y, disc2, c, s2, only_global=True)
    _, W2, _ = fit(X, disc, c, s1, model=model, only_global=og)
    m.check("same-after-other-fit", np.array_equal(W, W2), got=W2, want=W)
    m.state(W)


def case_known(m, rng, c):
    """a strong effect between two variables is reported in the direction it acts"""
    n = c["n"]
    i, j = (0, 1) if rng.rand() < 0.5 else (1, 0)
    X = np.zeros((n, 2))
    disc = np.zeros(2, bool)
    X[:, i] = gen.noise(rng, c["noise"], n) if c["pair"] == "cc" else rng.rand(n) < 0.5
    if c["pair"] == "cc":
        X[:, j] = rng.choice([-1, 1]) * 1.2 * X[:, i] + gen.noise(rng, c["noise"], n)
    else:
        disc[i] = True
        X[:, j] = rng.choice([-1, 1]) * 3.0 * X[:, i] + gen.noise(rng, c["noise"], n)
    _, W, _ = fit(X, disc, c, int(rng.randint(2**31 - 1)))
    m.check("known-direction", W[j, i] == 0 and (W[i, j] != 0 or c["pair"] == "dc"), got=W, cause=i, pair=c["pair"])
