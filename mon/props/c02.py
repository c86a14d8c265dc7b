"""C02: prior knowledge is honoured."""
import itertools

import numpy as np
import lingam
from lingam.utils import make_prior_knowledge
from lingam.tools import bootstrap_with_imputation

from mon import gen, oracle

RULE = (
    "random / adversarial / contradictory prior-knowledge matrices x 9 data flavours x estimators; "
    "non-trivial: the matrix carries at least one constraint and a model was fitted or refused; "
    "distinct by (estimator, matrix, result)"
)
REQUIRED = {"forbidden-edge-absent": 300, "required-order-kept": 200, "contradiction-refused": 40, "matrix-says-what-was-asked": 100}
SLOW_FIRST = ["imputation", "camuv_joint", "camuv", "mgcamuv", "bottomup", "longitudinal"]
F = gen.FLAVOURS


def cases(seed, tier):
    def std(i, r):
        return {"flavour": F[i % len(F)], "d": int(r.choice([2, 3, 4, 5, 6, 11])), "n": int(r.choice([40, 100, 250, 1300])),
                "mode": ["random", "reverse", "sparse", "exo", "paths", "nopaths", "diag0"][i % 7], "soft": bool((i // 7) % 3 == 2),
                "measure": "kernel" if i % 11 == 5 else "pwling"}

    def small(i, r):
        return {"flavour": F[i % len(F)], "d": int(r.choice([2, 3, 4, 5])), "n": int(r.choice([40, 80])),
                "mode": ["random", "reverse", "sparse", "exo", "paths", "nopaths", "diag0"][i % 7]}

    def lo(i, r):
        return {"d": int(r.choice([2, 3])), "T": int(r.choice([2, 3, 4])), "lags": int(r.choice([1, 1, 2])), "n": 60, "contra": i % 6 == 5} if i % 9 != 4 else {"d": 2, "T": 5, "lags": 3, "n": 60, "contra": False}

    return gen.spread(seed, tier, [
        ("direct", 260, 3000, std), ("multi", 120, 1200, std), ("bottomup", 120, 1200, small), ("contradiction", 140, 1000, small),
        ("camuv", 40, 250, small), ("camuv_joint", 16, 100, lambda i, r: dict(small(i, r), d=3 + i % 2, n=int(r.choice([120, 200])))), ("mgcamuv", 16, 100, small), ("longitudinal", 60, 500, lo), ("make", 240, 2000, None),
        ("bootstrap", 40, 300, small), ("imputation", 20, 120, small), ("shape", 40, 200, None),
        ("degenerate", 120, 900, lambda i, r: dict(small(i, r), d=int(r.choice([2, 3, 4, 6])), est=["direct", "multi", "direct", "bottomup", "soft"][i % 5])),
    ])


def orders_of(pk):
    """(before, after) pairs the matrix forces"""
    d = len(pk)
    out = set()
    for to in range(d):
        for fr in range(d):
            if to == fr:
                continue
            if pk[to, fr] == 1:
                out.add((fr, to))
            if pk[to, fr] == 0 and pk[fr, to] != 0:
                out.add((to, fr))
    return out


def contradictory(pk):
    A = np.zeros_like(pk, dtype=float)
    for a, b in orders_of(pk):
        A[b, a] = 1
    return not oracle.is_acyclic(A)


def make_pk(rng, d, mode):
    """a consistent matrix"""
    order = rng.permutation(d)
    rank = np.argsort(order)
    pk = np.full((d, d), -1)
    p = {"sparse": 0.15}.get(mode, 0.5)
    for i, j in itertools.combinations(range(d), 2):
        a, b = (i, j) if rank[i] < rank[j] else (j, i)  # a before b
        u = rng.rand()
        if mode == "exo" or u > p:
            continue
        if mode == "paths":
            pk[b, a] = 1
        elif mode == "nopaths":
            pk[a, b] = 0
            if rng.rand() < 0.4:
                pk[b, a] = 0
        else:
            k = rng.randint(4)
            if k == 0:
                pk[b, a] = 1
            elif k == 1:
                pk[a, b] = 0
            elif k == 2:
                pk[a, b] = 0
                pk[b, a] = 0
            else:
                pk[b, a] = 1
                pk[a, b] = 0
    if mode == "exo":
        k = max(1, d // 3)
        exo = [int(v) for v in order[:k]]
        sink = [int(v) for v in order[-1:]] if rng.rand() < 0.6 and d > k else []
        pk = make_prior_knowledge(d, exogenous_variables=exo or None, sink_variables=sink or None)
    if mode == "blocks":
        # blocks of variables without paths between them; earlier ones exogenous
        k = min(d - 1, int(rng.choice([2, 2, 3])))
        a, b = order[:k], order[k:]
        pk[a, :] = 0
        pk[np.ix_(b[: max(1, len(b) - int(rng.randint(2)))], a)] = 0
        np.fill_diagonal(pk, -1)
    if mode == "diag0":
        np.fill_diagonal(pk, 0)
    return pk


def check_edges(m, name, pk, B, nan_ok=False):
    d = len(pk)
    for to in range(d):
        for fr in range(d):
            if to != fr and pk[to, fr] == 0:
                v = B[to, fr]
                ok = v == 0 or (nan_ok and np.isnan(v))
                m.check("forbidden-edge-absent", ok, tag=name, pair=[fr, to], value=v, pk=pk, B=B)


def check_order(m, name, pk, order):
    pos = {int(v): i for i, v in enumerate(order)}
    for a, b in orders_of(pk):
        m.check("required-order-kept", pos[a] < pos[b], tag=name, before=a, after=b, order=list(order), pk=pk)


def data_for(rng, c, pk):
    """data whose own structure is, half of the time, the reverse of what pk demands"""
    d = c["d"]
    if c["mode"] == "reverse" or rng.rand() < 0.4:
        B = np.zeros((d, d))
        A = np.zeros((d, d))
        for a, b in orders_of(pk):
            A[a, b] = 1.0  # reversed: b causes a
        left, order = list(range(d)), []
        while left:
            src = [i for i in left if not A[i, left].any()]
            order += src
            left = [i for i in left if i not in src]
        for a, b in itertools.combinations(order, 2):
            if A[b, a] or rng.rand() < 0.3:
                B[b, a] = rng.choice([-1, 1]) * rng.uniform(0.5, 1.2)
        return gen.linear_data(rng, c["n"], d, B=B, order=order, kinds=["uniform", "laplace", "exp"])[0]
    return gen.messy_data(rng, c["n"], d, c["flavour"])


def shaped(rng, pk):
    """prior knowledge may come as ndarray, list or float array"""
    k = rng.randint(3)
    return pk.copy() if k == 0 else pk.tolist() if k == 1 else pk.astype(float)


def case_direct(m, rng, c):
    pk = make_pk(rng, c["d"], c["mode"])
    if c["measure"] == "kernel":
        c = dict(c, n=40, d=c["d"])
    X = data_for(rng, c, pk)
    model = lingam.DirectLiNGAM(prior_knowledge=shaped(rng, pk), apply_prior_knowledge_softly=c["soft"], measure=c["measure"]).fit(X)
    check_edges(m, "direct", pk, model.adjacency_matrix_)
    if not c["soft"]:
        check_order(m, "direct", pk, model.causal_order_)
    # the same instance fitted again keeps honouring it
    X2 = gen.messy_data(rng, c["n"], c["d"], c["flavour"])
    model.fit(X2)
    check_edges(m, "direct-refit", pk, model.adjacency_matrix_)
    if not c["soft"]:
        check_order(m, "direct-refit", pk, model.causal_order_)
    m.state("direct", pk, model.adjacency_matrix_)


def case_degenerate(m, rng, c):
    """columns without variation or exactly dependent ones do not loosen the constraints"""
    pk = make_pk(rng, c["d"], c["mode"])
    X, est = gen.degenerate(rng, data_for(rng, c, pk)), c["est"]
    try:
        if est == "multi":
            model = lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk).fit([data_for(rng, c, pk), X])
        elif est == "bottomup":
            model = lingam.BottomUpParceLiNGAM(prior_knowledge=pk, alpha=0.0).fit(X)
        else:
            model = lingam.DirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=est == "soft").fit(X)
    except Exception as e:  # an error is an acceptable answer to such data
        m.skip("degenerate-refused-" + type(e).__name__)
        return
    for B in model.adjacency_matrices_ if est == "multi" else [model.adjacency_matrix_]:
        check_edges(m, "degenerate-" + est, pk, B, nan_ok=True)
    if est in ("direct", "multi"):
        check_order(m, "degenerate-" + est, pk, model.causal_order_)
    m.state("degenerate", pk, np.asarray(model.causal_order_, dtype=object).tolist() if est == "bottomup" else np.asarray(model.causal_order_))


def case_multi(m, rng, c):
    pk = make_pk(rng, c["d"], c["mode"])
    Xs = [data_for(rng, c, pk) for _ in range(int(rng.choice([2, 3])))]
    model = lingam.MultiGroupDirectLiNGAM(prior_knowledge=shaped(rng, pk), apply_prior_knowledge_softly=c["soft"]).fit(Xs)
    for B in model.adjacency_matrices_:
        check_edges(m, "multi", pk, B)
    if not c["soft"]:
        check_order(m, "multi", pk, model.causal_order_)
    m.state("multi", pk, np.array(model.adjacency_matrices_))


def blocks(order):
    pos = {}
    for i, v in enumerate(order):
        for w in (v if hasattr(v, "__iter__") else [v]):
            pos[int(w)] = i
    return pos


def case_bottomup(m, rng, c):
    pk = make_pk(rng, c["d"], c["mode"])
    X = data_for(rng, c, pk)
    kw = dict(alpha=float(rng.choice([0.0, 0.01, 0.1, 0.3])))
    if rng.rand() < 0.3:
        kw = dict(independence="fcorr", ind_corr=float(rng.choice([0.3, 0.5, 1.5])))
    model = lingam.BottomUpParceLiNGAM(prior_knowledge=shaped(rng, pk), **kw)
    for rep in range(2):
        model.fit(X)
        check_edges(m, "bottomup", pk, model.adjacency_matrix_, nan_ok=True)
        pos = blocks(model.causal_order_)
        for a, b in orders_of(pk):
            same = pos[a] == pos[b] and hasattr(model.causal_order_[pos[a]], "__iter__")
            m.check("required-order-kept", pos[a] < pos[b] or same, tag="bottomup", before=a, after=b, order=model.causal_order_, pk=pk)
            if not same:
                m.check("forbidden-edge-absent", model.adjacency_matrix_[a, b] == 0, tag="bottomup-order", pair=[b, a], B=model.adjacency_matrix_)
        m.state("bottomup", pk, model.adjacency_matrix_)


def case_contradiction(m, rng, c):
    d = max(c["d"], 2)
    pk = make_pk(rng, d, c["mode"])
    k = rng.randint(3)
    if k == 0 or d < 3:
        i, j = rng.choice(d, 2, replace=False)
        pk[i, j] = pk[j, i] = 1
    else:
        ks = [int(v) for v in rng.permutation(d)[: rng.randint(3, d + 1)]]
        for a, b in zip(ks, ks[1:] + ks[:1]):
            if k == 1:
                pk[b, a], pk[a, b] = 1, -1
            else:
                pk[a, b], pk[b, a] = 0, -1
    if not contradictory(pk):
        m.skip("not-contradictory")
        return
    X = gen.messy_data(rng, c["n"], d, c["flavour"])
    m.raises("contradiction-refused", ValueError, lambda: lingam.DirectLiNGAM(prior_knowledge=pk).fit(X).causal_order_, tag="direct", pk=pk)
    m.raises("contradiction-refused", ValueError, lambda: lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk).fit([X, X[::-1] + 1]).causal_order_, tag="multi", pk=pk)
    m.raises("contradiction-refused", ValueError, lambda: lingam.BottomUpParceLiNGAM(prior_knowledge=pk).fit(X).causal_order_, tag="bottomup", pk=pk)
    m.state("contra", pk)


def _pairs(rng, d):
    allp = [(i, j) for i in range(d) for j in range(d) if i != j]
    k = rng.randint(1, len(allp) + 1)
    return [allp[t] for t in rng.permutation(len(allp))[:k]]


def _nl_data(rng, n, d):
    order = rng.permutation(d)
    X = np.zeros((n, d))
    fs = [np.sin, np.tanh, lambda v: v, lambda v: v**2 / 2]
    for i, v in enumerate(order):
        X[:, v] = gen.noise(rng, gen.NOISES[rng.randint(5)], n) * 0.6
        for u in order[:i]:
            if rng.rand() < 0.7:
                X[:, v] += rng.uniform(0.8, 1.5) * fs[rng.randint(4)](X[:, u])
    return X


def case_camuv(m, rng, c):
    d = min(c["d"], 4)
    X = _nl_data(rng, c["n"], d)
    pairs = _pairs(rng, d)
    model = lingam.CAMUV(alpha=float(rng.choice([0.01, 0.1])), num_explanatory_vals=int(rng.choice([2, 3])), prior_knowledge=pairs).fit(X)
    for fr, to in pairs:
        m.check("forbidden-edge-absent", model.adjacency_matrix_[to, fr] != 1, tag="camuv", pair=[fr, to], B=model.adjacency_matrix_)
    m.state("camuv", np.array(pairs), model.adjacency_matrix_)


def case_camuv_joint(m, rng, c):
    """causes that act only jointly, one of them forbidden"""
    from mon.props.c17 import xor_sample

    d = c["d"]
    X = xor_sample(rng, c["n"], d)
    free = lingam.CAMUV(alpha=0.05, num_explanatory_vals=3).fit(X).adjacency_matrix_
    edges = [(int(j), int(i)) for i, j in np.argwhere(free == 1)]
    m.count("camuv-joint-effect", int((np.sum(free == 1, axis=1) > 1).any()))
    for pairs in ([edges[rng.randint(len(edges))]] if edges else [], [edges[0]] if edges else [], edges[-1:]):
        if not pairs:
            continue
        model = lingam.CAMUV(alpha=0.05, num_explanatory_vals=3, prior_knowledge=pairs).fit(X)
        for fr, to in pairs:
            m.check("forbidden-edge-absent", model.adjacency_matrix_[to, fr] != 1, tag="camuv-joint", pair=[fr, to], B=model.adjacency_matrix_)
        m.state("camuv", np.array(pairs), model.adjacency_matrix_)


def case_mgcamuv(m, rng, c):
    d = min(c["d"], 3)
    X = _nl_data(rng, 50, d)
    pairs = _pairs(rng, d)
    model = lingam.MultiGroupCAMUV(alpha=0.05, prior_knowledge=pairs).fit([X, _nl_data(rng, 40, d)])
    for fr, to in pairs:
        m.check("forbidden-edge-absent", model.adjacency_matrix_[to, fr] != 1, tag="mgcamuv", pair=[fr, to], B=model.adjacency_matrix_)
    m.state("mgcamuv", np.array(pairs), model.adjacency_matrix_)


def case_longitudinal(m, rng, c):
    from mon.props.c01 import longitudinal_series

    d, lags = c["d"], c["lags"]
    T = max(c["T"], lags + 1)
    X, _, _, _ = longitudinal_series(rng, c["n"], d, T, lags)
    pk = np.full((T, lags + 1, d, d), -1)
    for t in range(T):
        pk[t, 0] = make_pk(rng, d, ["random", "sparse", "nopaths", "paths"][rng.randint(4)])
        for k in range(1, lags + 1):
            pk[t, k][rng.rand(d, d) < 0.3] = 0
            pk[t, k][rng.rand(d, d) < 0.1] = 1
    if c["contra"]:
        t = rng.randint(T)
        pk[t, 0, 0, 1] = pk[t, 0, 1, 0] = 1
        m.raises("contradiction-refused", ValueError, lambda: lingam.LongitudinalLiNGAM(n_lags=lags, prior_knowledge=pk).fit(X).causal_orders_, tag="longitudinal", pk=pk[t, 0])
        return
    model = lingam.LongitudinalLiNGAM(n_lags=lags, prior_knowledge=pk).fit(X)
    A = np.asarray(model.adjacency_matrices_)
    for t in range(lags, T):
        check_order(m, "longitudinal", pk[t, 0], model.causal_orders_[t])
        for k in range(lags + 1):
            for i in range(d):
                for j in range(d):
                    if pk[t, k, i, j] == 0 and (k > 0 or i != j):
                        m.check("forbidden-edge-absent", A[t, k, i, j] == 0, tag="longitudinal", t=t, lag=k, pair=[j, i], A=A[t])
    m.state("longitudinal", A)


def case_make(m, rng, c):
    d = int(rng.choice([2, 3, 4, 7, 12]))
    want = np.full((d, d), -1)
    perm = [int(v) for v in rng.permutation(d)]
    exo = perm[: rng.randint(0, max(1, d // 2))] if rng.rand() < 0.7 else []
    rest = [v for v in perm if v not in exo]
    sink = rest[: rng.randint(0, len(rest))] if rng.rand() < 0.7 else []
    for e in exo:
        want[e, :] = 0
    for s in sink:
        want[:, s] = 0
    free = [(i, j) for i in range(d) for j in range(d) if i != j and want[j, i] == -1]
    idx = rng.permutation(len(free))
    a = rng.randint(0, len(free) + 1)
    b = rng.randint(0, len(free) + 1 - a)
    paths = [free[t] for t in idx[:a]]
    nop = [free[t] for t in idx[a : a + b]]
    # redundant statements (already implied) change nothing
    for i in range(d):
        for j in range(d):
            if i != j and want[j, i] == 0 and rng.rand() < 0.1:
                nop.append((i, j))
    for i, j in paths:
        want[j, i] = 1
    for i, j in nop:
        want[j, i] = 0
    np.fill_diagonal(want, -1)
    kw = {}
    if exo:
        kw["exogenous_variables"] = exo
    if sink:
        kw["sink_variables"] = sink
    if paths:
        kw["paths"] = [list(p) for p in paths] if rng.rand() < 0.5 else paths
    if nop:
        kw["no_paths"] = nop
    pk = make_prior_knowledge(d, **kw)
    m.check("matrix-says-what-was-asked", np.array_equal(np.asarray(pk), want), got=pk, want=want, args=kw)
    m.state("make", want)


def case_bootstrap(m, rng, c):
    d = max(2, min(c["d"], 5))
    c = dict(c, d=d, n=60)
    pk = make_pk(rng, d, c["mode"])
    X = data_for(rng, dict(c, flavour="lingam"), pk)
    for name, res in [
        ("direct", [lingam.DirectLiNGAM(prior_knowledge=pk).bootstrap(X, 3)]),
        ("multi", lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk).bootstrap([X, X[::-1] * 2 + 1], 3)),
        ("bottomup", [lingam.BottomUpParceLiNGAM(prior_knowledge=pk, alpha=0.05).bootstrap(X, 2)]),
    ]:
        for r in res:
            for B in r.adjacency_matrices_:
                check_edges(m, "bootstrap-" + name, pk, B, nan_ok=name == "bottomup")
                for a, b in orders_of(pk):
                    v = B[a, b]
                    m.check("required-order-kept", v == 0 or (name == "bottomup" and np.isnan(v)), tag="bootstrap-" + name, before=a, after=b, B=B)
            for E in r.total_effects_:
                for a, b in orders_of(pk):
                    v = E[a, b]
                    m.check("required-order-kept", v == 0 or (name == "bottomup" and np.isnan(v)), tag="bootstrap-effects-" + name, before=a, after=b, E=E)


def case_imputation(m, rng, c):
    d = max(2, min(c["d"], 4))
    pk = make_pk(rng, d, c["mode"])
    X = gen.linear_data(rng, 80, d, 0.6)[0]
    X[rng.rand(*X.shape) < 0.1] = np.nan
    X[:3] = 0.5 * rng.rand(3, d)
    co, adj, _, _ = bootstrap_with_imputation(X, 2, n_repeats=2, prior_knowledge=pk, random_state=int(rng.randint(1000)))
    for o, Bs in zip(co, adj):
        check_order(m, "imputation", pk, o)
        for B in Bs:
            check_edges(m, "imputation", pk, B)


def case_shape(m, rng, c):
    d = int(rng.choice([2, 3, 4]))
    X = gen.linear_data(rng, 40, d, 0.6)[0]
    bad = int(rng.choice([k for k in (1, 2, 3, 4, 5, 6) if k != d]))
    sh = [(bad, bad), (d, bad), (bad, d)][rng.randint(3)]
    pk = np.full(sh, -1)
    pk[rng.rand(*sh) < 0.3] = 0
    for soft in (False, True):
        m.raises("wrong-shape-refused", ValueError, lambda: lingam.DirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=soft).fit(X).causal_order_, tag="direct", shape=sh, d=d)
        m.raises("wrong-shape-refused", ValueError, lambda: lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=soft).fit([X, X + 1]).causal_order_, tag="multi", shape=sh, d=d)
    m.raises("wrong-shape-refused", ValueError, lambda: lingam.BottomUpParceLiNGAM(prior_knowledge=pk).fit(X).causal_order_, tag="bottomup", shape=sh, d=d)
    m.raises("wrong-shape-refused", ValueError, lambda: bootstrap_with_imputation(X, 1, n_repeats=2, prior_knowledge=pk), tag="imputation", shape=sh, d=d)
    Ts = [X, X + 1, X * 2]
    full = (3, 2, d, d)
    k = rng.randint(4)
    bad4 = list(full)
    bad4[k] += int(rng.choice([-1, 1]))
    if min(bad4) > 0:
        m.raises("wrong-shape-refused", ValueError, lambda: lingam.LongitudinalLiNGAM(n_lags=1, prior_knowledge=np.full(bad4, -1)).fit(Ts).causal_orders_, tag="longitudinal", shape=bad4, full=full)
    m.state("shape", sh, d)
