"""C04: total effects."""
import warnings

import numpy as np
import lingam
from lingam.utils import calculate_total_effect

from mon import gen, oracle

RULE = (
    "random weighted DAGs (all ordered pairs; cancelling, sparse, dense, tiny weights) and fitted models "
    "(all ordered pairs); non-trivial: pair with at least one directed path or a fitted pair; distinct by (graph)"
)
REQUIRED = {"path-sum": 3000, "adjusted-regression": 1500, "against-order-warns": 300, "undefined-when-confounded": 80, "with-order-no-warning": 300}
SLOW_FIRST = ["rcd", "mgrcd", "resit"]
F = gen.FLAVOURS


def cases(seed, tier):
    def g(i, r):
        return {"d": int(r.choice([2, 3, 4, 5, 6, 7, 9])), "density": float(r.choice([0.2, 0.5, 0.9])), "mode": ["plain", "cancel", "ints", "nan", "tiny"][i % 5]}

    def std(i, r):
        return {"flavour": F[i % len(F)], "d": int(r.choice([2, 3, 4, 5, 6])), "n": int(r.choice([40, 100, 250, 1300]))}

    def small(i, r):
        return {"flavour": ["confounded", "lingam", "cyclic"][i % 3], "d": int(r.choice([2, 3, 4])), "n": int(r.choice([50, 90]))}

    return gen.spread(seed, tier, [
        ("graph", 500, 5000, g), ("discrete", 60, 400, g), ("direct", 160, 1200, std), ("ica", 80, 600, std), ("highdim", 60, 500, std), ("multi", 80, 600, std),
        ("bottomup", 80, 500, small), ("rcd", 80, 500, small), ("mgrcd", 50, 300, small), ("bootstrap", 50, 300, small),
        ("var", 24, 150, lambda i, r: {"n": int(r.choice([60, 150])), "d": int(r.choice([2, 3, 5])), "true": int(r.choice([1, 2])), "lags": int(r.choice([1, 2, 3])), "crit": i % 5, "prune": i % 2 == 0, "model": 0, "shift": i % 3 == 1}),
        ("varma", 16, 100, lambda i, r: {"n": int(r.choice([60, 150])), "d": int(r.choice([2, 3])), "order": [(1, 1), (2, 1), (1, 2)][i % 3], "prune": i % 2 == 0, "model": 0, "say": 1, "crit": None}),
        ("longitudinal", 24, 150, lambda i, r: {"n": int(r.choice([60, 150])), "d": int(r.choice([2, 3, 4])), "L": 1 + i % 2, "T": 3 + i % 3, "pk": i % 3 == 2, "arr": i % 4 == 1, "kernel": False}),
    ])


def case_graph(m, rng, c):
    d = c["d"]
    B, _ = gen.dag(rng, d, c["density"], 0.1, 2.0)
    if c["mode"] == "ints":
        B = np.round(B * 2)
    if c["mode"] == "tiny":
        B = B * 10.0 ** rng.uniform(-6, 0, (d, d))
    if c["mode"] == "cancel" and d >= 3:
        # x0 -> x1 -> x2 and x0 -> x2 with exactly opposite effects
        p = rng.permutation(d)[:3]
        B[:] = np.tril(B, -1) * 0 if rng.rand() < 0.5 else B
        if not B.any():
            B[p[1], p[0]], B[p[2], p[1]] = 2.0, 0.5
            B[p[2], p[0]] = -1.0
    T = oracle.total_effects(B)
    Bn = B.copy()
    if c["mode"] == "nan":
        # undefined entries contribute nothing
        i, j = rng.choice(d, 2, replace=False)
        if B[i, j] == 0 and B[j, i] == 0:
            Bn[i, j] = Bn[j, i] = np.nan
    for a in range(d):
        for b in range(d):
            if a == b:
                continue
            got = calculate_total_effect(Bn if rng.rand() < 0.7 else Bn.tolist(), a, b)
            s = max(1.0, np.abs(np.nan_to_num(Bn)).max() ** d)
            m.close("path-sum", got, T[b, a], rtol=1e-9, atol=1e-12 * s, tag=c["mode"], pair=[a, b], B=Bn)
            if T[b, a] != 0:
                m.state(B, a, b)
    m.raises("same-index-refused", ValueError, lambda: calculate_total_effect(Bn, 0, 0))
    m.raises("bad-index-refused", (ValueError, IndexError, TypeError), lambda: calculate_total_effect(Bn, 0, d))
    if d >= 2:
        C = B.copy()
        i, j = rng.choice(d, 2, replace=False)
        C[i, j] = C[j, i] = 0.5
        # a cycle through the start that does not run through the end is refused
        k = [v for v in range(d) if v not in (i, j)]
        if k:
            m.raises("cycle-refused", ValueError, lambda: calculate_total_effect(C, int(i), int(k[0])), C=C)


def case_discrete(m, rng, c):
    d = c["d"]
    B, _ = gen.dag(rng, d, c["density"], 0.1, 2.0)
    T = oracle.total_effects(B)
    cont = [bool(v) for v in rng.rand(d) < 0.7]
    for a in range(d):
        for b in range(d):
            if a == b:
                continue
            paths = oracle.all_paths(B, a, b)
            if any(not cont[v] for p, _ in paths for v in p[1:]):
                m.raises("discrete-on-path-refused", ValueError, lambda: calculate_total_effect(B, a, b, is_continuous=cont), B=B, cont=cont, pair=[a, b])
            else:
                m.close("path-sum", calculate_total_effect(B, a, b, is_continuous=cont), T[b, a], rtol=1e-9, atol=1e-10, tag="discrete")


def warned(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = fn()
    return r, [str(x.message) for x in w]


def order_warning(ws):
    return any("causal order" in w for w in ws)


def reg_effect(X, B, a, b):
    X = np.asarray(X, float)
    preds = [a] + [int(j) for j in np.where(np.nan_to_num(B[a]) != 0)[0]]
    return oracle.ols(X[:, preds], X[:, b])[0], preds


def compare(m, name, X, B, a, b, got):
    want, preds = reg_effect(X, B, a, b)
    s = np.asarray(X, float).std(0)
    if s[a] == 0 or s[b] == 0:
        m.skip("constant")
        return
    if b in preds:
        m.skip("effect-among-adjustment")  # effect variable regressed on itself
    m.close("adjusted-regression", got * s[a] / s[b], want * s[a] / s[b], rtol=1e-6, atol=1e-7, tag=name, pair=[a, b], preds=preds)


def linear(m, rng, name, X, model):
    o = [int(v) for v in model.causal_order_]
    B = model.adjacency_matrix_
    d = len(o)
    X2 = X if rng.rand() < 0.7 else X[: max(20, len(X) // 2)]
    for a in range(d):
        for b in range(d):
            if a == b:
                continue
            e, ws = warned(lambda: model.estimate_total_effect(X2, a, b))
            back = o.index(a) > o.index(b)
            m.check("against-order-warns" if back else "with-order-no-warning", order_warning(ws) == back, tag=name, pair=[a, b], order=o, warnings=ws)
            compare(m, name, X2, B, a, b, e)
    m.state(name, B)


def ok(m, X):
    Z = np.asarray(X, float)
    if (Z.std(0) == 0).any() or np.linalg.cond((Z - Z.mean(0)) / Z.std(0)) > 1e6:
        m.skip("degenerate-data")
        return False
    return True


def case_direct(m, rng, c):
    X = gen.messy_data(rng, c["n"], c["d"], c["flavour"])
    if ok(m, X):
        linear(m, rng, "direct", X, lingam.DirectLiNGAM().fit(X))


def case_ica(m, rng, c):
    X = gen.messy_data(rng, c["n"], c["d"], c["flavour"])
    if ok(m, X):
        linear(m, rng, "ica", X, lingam.ICALiNGAM(random_state=1, max_iter=300).fit(X))


def case_highdim(m, rng, c):
    X = gen.messy_data(rng, c["n"], c["d"], c["flavour"])
    if ok(m, X):
        linear(m, rng, "highdim", X, lingam.HighDimDirectLiNGAM().fit(X))


def case_multi(m, rng, c):
    k = gen.ngroups(rng)
    Xs = [gen.messy_data(rng, n, c["d"], c["flavour"]) for n in gen.nrows(rng, c["n"], k)]
    if not all(ok(m, X) for X in Xs):
        return
    model = lingam.MultiGroupDirectLiNGAM().fit(Xs)
    o = [int(v) for v in model.causal_order_]
    for a in range(c["d"]):
        for b in range(c["d"]):
            if a == b:
                continue
            back = o.index(a) > o.index(b)
            es, ws = warned(lambda: model.estimate_total_effect(Xs, a, b))
            m.check("against-order-warns" if back else "with-order-no-warning", order_warning(ws) == back, tag="multi", pair=[a, b], order=o)
            m.check("one-effect-per-group", len(es) == k, tag="multi")
            for X, B, e in zip(Xs, model.adjacency_matrices_, es):
                compare(m, "multi", X, B, a, b, e)
            es2, ws = warned(lambda: model.estimate_total_effect2(a, b))
            m.check("against-order-warns" if back else "with-order-no-warning", order_warning(ws) == back, tag="multi2", pair=[a, b], order=o)
            m.check("one-effect-per-group", len(es2) == k, tag="multi2")
            for B, e in zip(model.adjacency_matrices_, es2):
                m.close("path-sum", e, oracle.total_effects(B)[b, a], rtol=1e-8, atol=1e-10, tag="multi2")
    m.state("multi", np.array(model.adjacency_matrices_))


def partial(m, rng, name, Xs, Bs, before, est, est2, multi):
    """before(a, b): the model says b is earlier than a"""
    d = len(Bs[0])
    for a in range(d):
        for b in range(d):
            if a == b:
                continue
            es, ws = warned(lambda: est(a, b))
            es = es if multi else [es]
            m.check("one-effect-per-group", len(es) == len(Xs), tag=name)
            m.check("against-order-warns" if before(a, b) else "with-order-no-warning", order_warning(ws) == before(a, b), tag=name, pair=[a, b], warnings=ws)
            for X, B, e in zip(Xs, Bs, es):
                if np.isnan(B[a]).any():
                    m.check("undefined-when-confounded", np.isnan(e), tag=name, pair=[a, b], B=B, e=e)
                else:
                    compare(m, name, X, B, a, b, e)
            if not all(oracle.is_acyclic(np.nan_to_num(B)) for B in Bs):
                m.skip("cyclic-graph")
                continue
            es, ws = warned(lambda: est2(a, b))
            es = es if multi else [es]
            m.check("one-effect-per-group", len(es) == len(Bs), tag=name + "2")
            m.check("against-order-warns" if before(a, b) else "with-order-no-warning", order_warning(ws) == before(a, b), tag=name + "2", pair=[a, b], warnings=ws)
            for B, e in zip(Bs, es):
                if np.isnan(B[a]).any():
                    m.check("undefined-when-confounded", np.isnan(e), tag=name + "2", pair=[a, b], B=B, e=e)
                else:
                    m.close("path-sum", e, oracle.total_effects(B)[b, a], rtol=1e-8, atol=1e-10, tag=name + "2", pair=[a, b], B=B)
    m.state(name, np.array(Bs))


def case_bottomup(m, rng, c):
    X = gen.messy_data(rng, c["n"], c["d"], c["flavour"])
    model = lingam.BottomUpParceLiNGAM(alpha=float(rng.choice([0.0, 0.1, 0.5]))).fit(X)
    pos = {}
    for i, v in enumerate(model.causal_order_):
        for w in v if hasattr(v, "__iter__") else [v]:
            pos[int(w)] = i
    partial(m, rng, "bottomup", [X], [model.adjacency_matrix_], lambda a, b: pos[a] > pos[b],
            lambda a, b: model.estimate_total_effect(X, a, b), lambda a, b: model.estimate_total_effect2(a, b), False)


def case_rcd(m, rng, c):
    X = gen.messy_data(rng, c["n"], c["d"], c["flavour"])
    model = lingam.RCD(cor_alpha=0.1, ind_alpha=float(rng.choice([0.001, 0.05])), shapiro_alpha=1.0).fit(X)
    partial(m, rng, "rcd", [X], [model.adjacency_matrix_], lambda a, b: b in model.ancestors_list_[a],
            lambda a, b: model.estimate_total_effect(X, a, b), lambda a, b: model.estimate_total_effect2(a, b), False)


def case_mgrcd(m, rng, c):
    B, order = gen.dag(rng, c["d"], 0.7)
    Xs = []
    for n in gen.nrows(rng, c["n"], gen.ngroups(rng)):
        X = gen.linear_data(rng, n, c["d"], B=B, order=order)[0]
        if c["flavour"] == "confounded" and c["d"] >= 2:
            L = gen.noise(rng, "uniform", len(X))
            X[:, order[0]] += 1.5 * L
            X[:, order[1]] += 1.5 * L
        Xs.append(X)
    model = lingam.MultiGroupRCD(cor_alpha=0.05, ind_alpha=0.001, shapiro_alpha=1.0).fit(Xs)
    partial(m, rng, "mgrcd", Xs, model.adjacency_matrices_, lambda a, b: b in model.ancestors_list_[a],
            lambda a, b: model.estimate_total_effect(Xs, a, b), lambda a, b: model.estimate_total_effect2(a, b), True)


def case_bootstrap(m, rng, c):
    """effects of a replicate are the path sums of its own matrix"""
    d = c["d"]
    X = gen.linear_data(rng, 60, d, 0.7)[0]
    for name, rs in [
        ("direct", [lingam.DirectLiNGAM().bootstrap(X, 3)]),
        ("multi", lingam.MultiGroupDirectLiNGAM().bootstrap([X, X * 2 + rng.normal(size=X.shape)], 2)),
    ]:
        for r in rs:
            for B, E in zip(r.adjacency_matrices_, r.total_effects_):
                m.close("bootstrap-path-sum", E, oracle.total_effects(B), rtol=1e-8, atol=1e-10, tag=name, B=B)


def case_var(m, rng, c):
    """the effects of time-series and panel models (the rest of these models is C19-C21's subject)"""
    from mon.props import c19

    c19.run(m, rng, c)


def case_varma(m, rng, c):
    from mon.props import c20

    c20.case_supplied(m, rng, c)


def case_longitudinal(m, rng, c):
    from mon.props import c21

    c21.run(m, rng, c)
