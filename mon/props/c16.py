"""C16: bottom-up search orders only what its tests support."""
import numpy as np
import lingam
from sklearn.ensemble import RandomForestRegressor
from sklearn.linear_model import Ridge
from sklearn.tree import DecisionTreeRegressor

from mon import gen, oracle, ref_tests
from mon.props.c02 import make_pk
from mon.props.c15 import sample

RULE = (
    "data with and without latent confounders x significance levels, measures, regressors and prior knowledge; the reported order is compared with an "
    "independent bottom-up re-execution (each step: candidate with the most independent residual, accepted only if its test is passed); runs in which a "
    "decision lies within rounding of its threshold are inconclusive; non-trivial: an unresolved block or at least two accepted steps; distinct by (data, options)"
)
REQUIRED = {"order": 250, "covers-once": 300, "undefined-exactly": 300, "coefficients": 300, "head-block-only": 300}
SLOW_FIRST = ["edge_fcorr", "large", "regressor", "fcorr"]


def cases(seed, tier):
    def f(i, r):
        return {"n": int(r.choice([30, 60, 120, 250, 400])), "d": int(r.choice([2, 3, 3, 4, 5, 6])), "alpha": float(r.choice([0.1, 0.1, 0.01, 0.5, 0.0, 1e-4, 0.9])), "opt": i}

    return gen.spread(seed, tier, [
        ("plain", 180, 1500, f), ("prior", 120, 900, f), ("fcorr", 30, 250, f), ("regressor", 24, 200, f),
        ("edge", 128, 1200, lambda i, r: dict(f(i, r), d=int(r.choice([2, 3, 4, 5, 6, 7, 8, 10])), n=int(r.choice([30, 60, 120, 250])) if i % 16 else [1001, 1300][i // 16 % 2], edge=1)),
        ("edge_fcorr", 24, 200, lambda i, r: dict(f(i, r), d=int(r.choice([2, 3, 4])), n=int(r.choice([60, 120, 250])) if i % 4 else [900, 1001, 1100][i // 4 % 3], edge=1)),
        ("large", 6, 40, lambda i, r: dict(f(i, r), n=[1001, 1500, 2400][i % 3], d=3)),
        ("wide", 12, 60, lambda i, r: dict(f(i, r), n=int(r.choice([100, 300])), d=int(r.choice([7, 8, 11])), alpha=float(r.choice([0.0, 0.1, 1e-4])))),
    ])


def before(pk):
    """pairs (earlier, later) that the matrix implies"""
    out = set()
    d = len(pk)
    for i in range(d):
        for j in range(d):
            if i == j:
                continue
            if pk[i, j] == 1:
                out.add((j, i))
            if pk[i, j] == 0 and pk[j, i] != 0:
                out.add((i, j))
    return out


def judge(m, X, model, log, want, margin, pk=None):
    d = X.shape[1]
    order = model.causal_order_
    flat, ok = [], True
    for k, v in enumerate(order):
        if hasattr(v, "__iter__"):
            ok &= k == 0 and len(v) > 1
            flat += [int(u) for u in v]
        else:
            flat.append(int(v))
    m.check("head-block-only", ok, got=order)
    m.check("covers-once", sorted(flat) == list(range(d)), got=order)
    block = [int(u) for u in order[0]] if hasattr(order[0], "__iter__") else []
    B = np.asarray(model.adjacency_matrix_, float)
    und = np.zeros((d, d), bool)
    und[np.ix_(block, block)] = True
    np.fill_diagonal(und, False)
    m.check("undefined-exactly", np.array_equal(np.isnan(B), und), got=B, order=order)
    pos = {}
    for k, v in enumerate(order):
        for u in v if hasattr(v, "__iter__") else [v]:
            pos[int(u)] = k
    for i in range(d):
        ps = [j for j in range(d) if B[i, j] != 0 and not np.isnan(B[i, j])]
        m.check("coefficients", all(pos[j] < pos[i] for j in ps) and (pk is None or all(pk[i, j] != 0 for j in ps)), tag="later", got=B, order=order)
        if ps:
            w = oracle.ols(X[:, ps], X[:, i])
            scale = X[:, i].std() / X[:, ps].std(0)
            m.check("coefficients", np.allclose(B[i, ps] / scale, w / scale, rtol=1e-5, atol=1e-7), got=B[i, ps], want=w)
    if margin < 1:
        m.skip("decision-at-threshold")
        return
    for k, v in log.items():
        m.count(k, v)
    norm = lambda o: [sorted(int(u) for u in v) if hasattr(v, "__iter__") else int(v) for v in o]
    if m.check("order", norm(order) == norm(want), got=order, want=want) and (block or len(order) > 2):
        m.state(X)


def go(m, rng, c, pk=None, **kw):
    X = sample(rng, c["n"], c["d"])
    kw.setdefault("independence", "hsic")
    reg = kw.get("regressor")
    predict = None
    if reg is not None:
        from sklearn.base import clone

        predict = lambda Z, y: clone(reg).fit(Z, y).predict(Z)
    if c.get("edge"):
        # thresholds just beside the values of the decisions taken on this very data
        fc = kw["independence"] == "fcorr"
        T = ref_tests.Tests(kw["independence"], 0.0, 1.0)
        ref_tests.bottom_up(X, 1e-300, None if pk is None else before(pk), kw["independence"], 1.0, predict, None, T)
        e = T.edge(rng, "fcorr" if fc else "ind")
        if e is None:
            m.skip("no-edge")
            return
        if fc:
            kw["ind_corr"] = e
        else:
            c = dict(c, alpha=e * (c["d"] - 1))
    model = lingam.BottomUpParceLiNGAM(random_state=int(rng.randint(100)), alpha=c["alpha"], prior_knowledge=None if pk is None else pk.copy(), **kw)
    model.fit(X.copy())
    log = {}
    want, margin = ref_tests.bottom_up(X, c["alpha"], None if pk is None else before(pk), kw["independence"], kw.get("ind_corr", 0.5), predict, log)
    judge(m, X, model, log, want, margin, pk)


def case_plain(m, rng, c):
    go(m, rng, c)


case_large = case_wide = case_plain


def case_prior(m, rng, c):
    pk = make_pk(rng, c["d"], ["mixed", "paths", "nopaths", "sparse", "exo"][c["opt"] % 5])
    go(m, rng, c, pk=pk)


def case_edge(m, rng, c):
    if c["n"] > 1000:
        c = dict(c, d=min(c["d"], 4))
    go(m, rng, c, pk=make_pk(rng, c["d"], ["mixed", "sparse", "exo"][c["opt"] % 3]) if c["opt"] % 4 == 3 else None)


def case_edge_fcorr(m, rng, c):
    if c["n"] > 500:
        c = dict(c, d=min(c["d"], 3))
    go(m, rng, c, independence="fcorr", pk=make_pk(rng, c["d"], "sparse") if c["opt"] % 3 == 0 else None)


def case_fcorr(m, rng, c):
    c = dict(c, n=min(c["n"], 250))
    go(m, rng, c, independence="fcorr", ind_corr=float(rng.choice([0.2, 0.3, 0.5, 0.9])), pk=make_pk(rng, c["d"], "sparse") if c["opt"] % 3 == 0 else None)


def case_regressor(m, rng, c):
    reg = [DecisionTreeRegressor(max_depth=3, random_state=0), Ridge(alpha=2.0), RandomForestRegressor(5, max_depth=3, random_state=1)][c["opt"] % 3]
    go(m, rng, dict(c, d=min(c["d"], 4)), regressor=reg, pk=make_pk(rng, min(c["d"], 4), "mixed") if c["opt"] % 4 == 0 else None)
