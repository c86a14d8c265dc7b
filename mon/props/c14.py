"""C14: residual-independence p-values test the fitted model's own residuals."""
import contextlib
import io

import numpy as np
import pandas as pd
import lingam

from mon import gen, oracle
from mon.props.c08 import SPECS
from mon.props.c12 import fuzzy

RULE = (
    "models of every estimator offering residual tests (several options, data that do and do not follow the model, evaluation on the training data "
    "and on other data), each entry compared with an independent HSIC of residuals rebuilt from the public matrices; "
    "non-trivial: an entry strictly between 0 and 1; distinct by (estimator, matrix, data)"
)
REQUIRED = {"p-value": 1500, "symmetric-zero-diagonal": 500, "undefined-exactly": 500}
SLOW_FIRST = ["varma", "rcd", "mgrcd", "longitudinal"]
N = {"direct": (90, 700), "ica": (40, 300), "highdim": (40, 300), "resit": (8, 40), "rcd": (60, 400), "bottomup": (90, 600), "multi": (50, 400), "mgrcd": (40, 200), "var": (84, 500), "varma": (8, 40), "longitudinal": (50, 300)}


def cases(seed, tier):
    wide = [(k, q, 6 * q, lambda i, r, d=d: {"opt": i, "messy": False, "other": bool(i % 2), "df": False, "d": d + i % 3})
            for k, d, q in (("direct", 7, 6), ("ica", 6, 3), ("highdim", 6, 3), ("rcd", 5, 2), ("bottomup", 6, 4), ("multi", 6, 4), ("var", 5, 4), ("longitudinal", 5, 4))]
    wide += [(k, q, 6 * q, lambda i, r: {"opt": i, "messy": False, "other": bool(i % 2), "df": False, "n": [1001, 1300, 2100][i % 3]})
             for k, q in (("direct", 4), ("ica", 2), ("rcd", 2), ("bottomup", 3), ("multi", 3), ("mgrcd", 2), ("var", 3), ("longitudinal", 3))]
    return gen.spread(seed, tier, wide + [(k, q, t, lambda i, r: {"opt": i, "messy": i % 3 == 1, "other": bool(i % 2), "df": i % 5 == 3}) for k, (q, t) in N.items()])


def compare(m, name, P, E, undefined=()):
    """P: reported matrix, E: residuals (n, d), undefined: variables of unresolved relations"""
    d = E.shape[1]
    P = np.asarray(P, float)
    if not m.check("shape", P.shape == (d, d), tag=name, got=P.shape):
        return
    und = np.zeros((d, d), bool)
    for v in undefined:
        und[v, :] = und[:, v] = True
    np.fill_diagonal(und, False)
    m.check("undefined-exactly", np.array_equal(np.isnan(P), und), tag=name, got=P, want=und)
    Q = np.nan_to_num(P, nan=-1.0)
    m.check("symmetric-zero-diagonal", np.array_equal(Q, Q.T) and not np.diag(Q).any(), tag=name, got=P)
    bad = [fuzzy(E[:, [i]]) or E[:, i].std() == 0 for i in range(d)]
    for i in range(d):
        for j in range(i):
            if und[i, j] or np.isnan(P[i, j]):
                continue
            if bad[i] or bad[j]:
                m.skip("distances-at-rounding-level")
                continue
            _, w = oracle.hsic(E[:, i], E[:, j])
            if not np.isfinite(w):
                m.skip("degenerate")
                continue
            if m.check("p-value", np.isclose(P[i, j], w, rtol=1e-3, atol=1e-7), tag=name, got=P[i, j], want=w, pair=[i, j]) and 0 < w < 1:
                m.state(name, E[:3], P[i, j])


def run(m, rng, c):
    name = c["kind"]
    sp = SPECS[name](rng, c["opt"], d=c.get("d"), n=c.get("n"))
    (data,) = sp.data(rng)
    multi = isinstance(data, list)
    if c["messy"] and name not in ("var", "varma", "longitudinal"):
        fl = [f for f in gen.FLAVOURS if f not in ("discrete", "scaled")][rng.randint(len(gen.FLAVOURS) - 2)]
        f = lambda x: gen.messy_data(rng, len(x), x.shape[1], fl)
        data = [f(x) for x in data] if multi else f(data)
    if name in ("direct", "highdim", "multi", "bottomup", "longitudinal") and c["opt"] % 4 == 2:
        # weak effects, or effects that are small numbers because of the units
        d = (data[0] if multi else data).shape[1]
        u = 10.0 ** rng.uniform(-2, 2, d)
        data = [x * u for x in data] if multi else data * u
    model = sp.make()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            model.fit(data)
    except np.linalg.LinAlgError:
        m.skip("singular")
        return
    if name in ("var", "varma"):
        B0 = np.asarray(model.adjacency_matrices_[0][0] if name == "varma" else model.adjacency_matrices_[0], float)
        R = np.asarray(model.residuals_, float)
        compare(m, name, model.get_error_independence_p_values(), R @ (np.eye(len(B0)) - B0).T)
        return
    if name == "longitudinal":
        A = np.asarray(model.adjacency_matrices_, float)
        L, T = sp.lags, len(data)
        out = model.get_error_independence_p_values()
        m.check("shape", len(out) == T, tag=name)
        for t in range(T):
            if t < L:
                m.check("undefined-exactly", np.isnan(np.asarray(out[t], float)).all(), tag=name + "-early", got=out[t])
                continue
            E = data[t] - sum(data[t - k] @ A[t, k].T for k in range(L + 1))
            compare(m, name, out[t], E)
        return
    # on the training data or on data the model has not seen
    if c["other"]:
        k = int(rng.choice([-5, 0, 9]))
        new = lambda x: gen.messy_data(rng, len(x) + k, x.shape[1], ["lingam", "confounded", "indep"][rng.randint(3)])
        data = [new(x) for x in data] if multi else new(data)
    give = [pd.DataFrame(x) for x in data] if multi and c["df"] else pd.DataFrame(data) if c["df"] else data
    out = model.get_error_independence_p_values(give)
    if name == "resit":
        m.check("p-value", np.array_equal(out, np.zeros((data.shape[1],) * 2)), tag=name)
        return
    mats = model.adjacency_matrices_ if multi else [model.adjacency_matrix_]
    Xs = data if multi else [data]
    outs = out if multi else [out]
    m.check("shape", len(outs) == len(Xs), tag=name)
    for X, B, P in zip(Xs, mats, outs):
        B = np.asarray(B, float)
        und = sorted({int(v) for ij in np.argwhere(np.isnan(B)) for v in ij})
        E = X - X @ np.nan_to_num(B).T
        compare(m, name, P, E, und)


for _k in N:
    globals()["case_" + _k] = run
