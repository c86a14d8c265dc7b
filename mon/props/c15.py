"""C15: repetitive causal discovery reports exactly what its test sequence yields."""
import numpy as np
import lingam

from mon import gen, oracle, ref_tests

RULE = (
    "data with and without latent confounders (single and multi-group, all options), every reported ancestor set, parent and confounded pair compared "
    "with an independent re-execution of the documented sequence of regressions and tests; cases in which some decision lies within rounding of its "
    "threshold are inconclusive; non-trivial: some ancestor found or pair confounded; distinct by (data, options)"
)
REQUIRED = {"ancestors": 200, "parents": 200, "confounded": 200, "no-mutual-ancestors": 200, "parent-is-ancestor": 200}
SLOW_FIRST = ["large", "multi", "multi_sep", "mlhsicr"]


def cases(seed, tier):
    def f(i, r):
        return {"n": int(r.choice([60, 120, 250, 400])), "d": int(r.choice([3, 3, 4, 5, 6])), "opt": i}

    def g(i, r):
        return {"n": int(r.choice([60, 120, 200])), "d": int(r.choice([3, 4])), "opt": i}

    def h(i, r):
        return {"n": [1001, 1300, 2200][i % 3], "d": 3, "opt": i}

    return gen.spread(seed, tier, [("single", 160, 1200, f), ("mlhsicr", 48, 300, g), ("multi", 80, 500, f), ("multi_mlhsicr", 24, 150, g), ("large", 6, 40, h), ("edge", 120, 900, lambda i, r: dict(f(i, r), d=int(r.choice([2, 3, 4])) if i % 20 == 19 else int(r.choice([2, 3, 4, 5, 6])), n=[1001, 1300][i // 20 % 2] if i % 20 == 19 else int(r.choice([60, 120, 250])))), ("helper", 60, 400, f), ("triple", 32, 200, lambda i, r: {"n": int(r.choice([300, 600])), "opt": i}), ("many_groups", 20, 150, lambda i, r: dict(f(i, r), n=300, d=int(r.choice([2, 3])))), ("wide", 8, 60, lambda i, r: {"n": int(r.choice([150, 300])), "d": int(r.choice([7, 8])), "opt": 6 * i}), ("two", 30, 200, lambda i, r: dict(f(i, r), d=2))])


def sample(rng, n, d, seed_graph=None):
    """several shapes: confounded, clean, chain with an intermediate, weak, independent, Gaussian, discrete"""
    kind = ["conf", "conf", "clean", "clean", "chain", "messy"][rng.randint(6)] if seed_graph is None else seed_graph[0]
    if kind == "messy" or d < 3:
        fl = [f for f in gen.FLAVOURS if f != "discrete"]
        return gen.messy_data(rng, n, d, fl[rng.randint(len(fl))])
    nl = rng.randint(1, 3) if kind == "conf" else 0
    if seed_graph is None:
        B, order = gen.dag(rng, d, 1.0 if kind == "chain" else 0.55, 0.5, 1.2)
        load = np.zeros((d, max(nl, 1)))
        for k in range(nl):
            load[rng.choice(d, 2, replace=False), k] = rng.choice([-1, 1], 2) * rng.uniform(0.6, 1.3, 2)
    else:
        _, B, order, load = seed_graph
    kinds = ["uniform", "exp", "cube", "bimodal", "laplace"]
    L = np.column_stack([gen.noise(rng, kinds[rng.randint(5)], n) for _ in range(load.shape[1])])
    X = np.zeros((n, d))
    for i in order:
        X[:, i] = X @ B[i] + L @ load[i] + gen.noise(rng, kinds[rng.randint(5)], n) * rng.uniform(0.6, 1.4)
    return X


def options(rng, opt):
    o = {
        "max_explanatory_num": int(rng.choice([1, 2, 2, 3, 4])),
        "cor_alpha": float(rng.choice([0.01, 0.01, 0.1, 0.3, 1e-4, 0.0, 1.0])),
        "ind_alpha": float(rng.choice([0.01, 0.05, 0.3, 1e-3, 1e-5])),
        "shapiro_alpha": float(rng.choice([0.01, 0.05, 1.0, 1e-3, 0.5])),
        "bw_method": ["mdbs", "mdbs", "scott", "silverman"][rng.randint(4)],
    }
    if opt % 6 == 5:
        o["independence"] = "fcorr"
        o["ind_corr"] = float(rng.choice([0.2, 0.5, 0.35]))
    return o


def run(m, Xs, o, ml, multi):
    cls = lingam.MultiGroupRCD if multi else lingam.RCD
    model = cls(MLHSICR=ml, **o)
    model.fit([x.copy() for x in Xs] if multi else Xs[0].copy())
    T = ref_tests.Tests(o.get("independence", "hsic"), o["ind_alpha"], o.get("ind_corr", 0.5), o["bw_method"])
    log = {}
    M, P, C = ref_tests.rcd(Xs, T, o["max_explanatory_num"], o["cor_alpha"], o["shapiro_alpha"], ml, log)
    got = [set(int(v) for v in s) for s in model.ancestors_list_]
    d = Xs[0].shape[1]
    mats = [np.asarray(B, float) for B in (model.adjacency_matrices_ if multi else [model.adjacency_matrix_])]
    m.check("no-mutual-ancestors", not any(i in got[j] and j in got[i] for i in range(d) for j in range(d)), got=got)
    pars = [{(i, j) for i in range(d) for j in range(d) if B[i, j] != 0 and not np.isnan(B[i, j])} for B in mats]
    m.check("parent-is-ancestor", all(j in got[i] for s in pars for i, j in s), got=got, pars=pars)
    nans = [np.isnan(B) for B in mats]
    m.check("confounded-symmetric", all(np.array_equal(N, N.T) and not N.diagonal().any() for N in nans), got=mats)
    if T.margin < 1:
        m.skip("decision-at-threshold")
        return
    for k, v in log.items():
        m.count(k, v)
    m.count("tests", T.n_tests)
    ok = m.check("ancestors", got == M, got=got, want=M, opts=o)
    if ml and not multi and o.get("independence", "hsic") == "hsic":
        alone = [set(int(v) for v in s) for s in lingam.utils.extract_ancestors(Xs[0].copy(), MLHSICR=True, **{k: v for k, v in o.items() if k not in ("independence", "ind_corr")})]
        m.check("ancestors", alone == M, tag="helper", got=alone, want=M, opts=o)
    want = {(i, j) for i in range(d) for j in P[i]}
    for B, s, N, X in zip(mats, pars, nans, Xs):
        m.check("parents", s == want, got=s, want=want, anc=got)
        m.check("confounded", {(int(i), int(j)) for i, j in zip(*np.where(N)) if i < j} == C, got=B, want=C)
        if s == want:
            for i in range(d):
                if P[i]:
                    ps = sorted(P[i])
                    m.close("coefficients", B[i, ps], oracle.ols(X[:, ps], X[:, i]), rtol=1e-5, atol=1e-7)
    if ok and (any(M) or C):
        m.state(*Xs, sorted(o.items()))


def at_edge(rng, Xs, o, ml):
    """one of the thresholds moved just beside the value of a decision taken with it"""
    T = ref_tests.Tests(o.get("independence", "hsic"), o["ind_alpha"], o.get("ind_corr", 0.5), o["bw_method"])
    ref_tests.rcd(Xs, T, o["max_explanatory_num"], o["cor_alpha"], o["shapiro_alpha"], ml, {})
    names = {"ind": "ind_alpha", "cor": "cor_alpha", "shapiro": "shapiro_alpha", "fcorr": "ind_corr"}
    have = {k: T.edge(rng, k) for k in names}
    have = [k for k in names if have[k] is not None]
    if not have:
        return o
    k = have[rng.randint(len(have))]
    return dict(o, **{names[k]: T.edge(rng, k)})


def case_edge(m, rng, c):
    o = options(rng, c["opt"])
    o.update(cor_alpha=float(rng.choice([0.01, 0.1])), shapiro_alpha=float(rng.choice([0.01, 0.5, 1.0])))
    multi = c["opt"] % 3 == 2
    Xs = groups(rng, c) if multi else [sample(rng, c["n"], c["d"])]
    run(m, Xs, at_edge(rng, Xs, o, False), False, multi)


def case_single(m, rng, c):
    run(m, [sample(rng, c["n"], c["d"])], options(rng, c["opt"]), False, False)


case_two = case_wide = case_single


def triple(rng, n):
    """two effects of three pairwise confounded causes: ancestors only show with three regressors, and their mutual relation only afterwards"""
    e = lambda s=1.0: gen.noise(rng, "exp", n) * s
    La, Lb, Lc = e(), e(), e()
    x = np.column_stack([La + Lb + e(), La + Lc + e(), Lb - Lc + e()])
    y = x @ rng.uniform(1, 1.5, 3) + e(rng.uniform(0.5, 1))
    z = x @ rng.uniform(1, 1.5, 3) + rng.uniform(0.6, 1.2) * y + e(rng.uniform(0.5, 1))
    X = np.column_stack([x, y, z])
    return X[:, rng.permutation(5)] if rng.rand() < 0.7 else X


def case_triple(m, rng, c):
    o = options(rng, 0)
    o.update(max_explanatory_num=int(rng.choice([3, 4])), cor_alpha=1.0, shapiro_alpha=1.0, ind_alpha=1e-2)
    n = c["n"] if c["opt"] % 4 else 150
    if c["opt"] % 8 == 2:
        X = triple(rng, n)
        run(m, [X, triple(rng, n)[:, rng.permutation(5)] if rng.rand() < 0.2 else X + 0.3 * gen.noise(rng, "exp", n)[:, None]], o, False, True)
    else:
        run(m, [triple(rng, n)], o, c["opt"] % 4 == 0, False)


def case_many_groups(m, rng, c):
    """five to seven groups, the last of which may follow another graph"""
    k = int(rng.choice([5, 6, 7]))
    o = options(rng, 5 if c["opt"] % 2 else 0)
    o.update(cor_alpha=float(rng.choice([0.1, 0.3])), shapiro_alpha=1.0)
    d = c["d"]
    if c["opt"] % 3 == 0:
        Xs = [sample(rng, 50 + 3 * i, d) for i in range(k)]
    else:
        B, order = gen.dag(rng, d, 1.0, 0.6, 1.2)
        Xs = [sample(rng, 50 + 3 * i, d, ("clean", B, order, np.zeros((d, 1)))) if i < k - 1 else sample(rng, 60, d) for i in range(k)]
    run(m, Xs, o, False, True)


def case_helper(m, rng, c):
    """the ancestor search on its own"""
    X = sample(rng, c["n"], min(c["d"], 5))
    ml = c["opt"] % 2 == 1
    if ml:
        X = X[:120, :4]
    o = options(rng, 0)
    if ml:
        o.update(max_explanatory_num=2, cor_alpha=0.1, shapiro_alpha=1.0)
    got = [set(int(v) for v in s) for s in lingam.utils.extract_ancestors(X.copy(), MLHSICR=ml, **o)]
    T = ref_tests.Tests("hsic", o["ind_alpha"], 0.5, o["bw_method"])
    M, _, _ = ref_tests.rcd([X], T, o["max_explanatory_num"], o["cor_alpha"], o["shapiro_alpha"], ml, {})
    m.check("no-mutual-ancestors", not any(i in got[j] and j in got[i] for i in range(len(got)) for j in range(len(got))), tag="helper", got=got)
    if T.margin < 1:
        m.skip("decision-at-threshold")
        return
    m.check("ancestors", got == M, tag="helper", got=got, want=M, opts=o)
    if any(M):
        m.state(X, sorted(o.items()))


def case_large(m, rng, c):
    o = options(rng, c["opt"])
    o.update(cor_alpha=0.01, shapiro_alpha=0.05)
    run(m, [sample(rng, c["n"], c["d"])], o, False, False)


def case_mlhsicr(m, rng, c):
    o = options(rng, c["opt"])
    o.update(max_explanatory_num=2, cor_alpha=0.1, shapiro_alpha=1.0)
    run(m, [sample(rng, c["n"], c["d"])], o, True, False)


def groups(rng, c):
    d = c["d"]
    k = gen.ngroups(rng)
    B, order = gen.dag(rng, d, 0.6, 0.5, 1.2)
    load = np.zeros((d, 1))
    if rng.rand() < 0.5:
        load[rng.choice(d, 2, replace=False), 0] = rng.uniform(0.6, 1.3, 2)
    if rng.rand() < 0.2:  # groups without a common graph
        return [sample(rng, c["n"] // k + 20 + 7 * i, d) for i in range(k)]
    return [sample(rng, c["n"] // k + 20 + 7 * i, d, ("conf", B * rng.uniform(0.7, 1.3), order, load)) for i in range(k)]


def case_multi(m, rng, c):
    run(m, groups(rng, c), options(rng, c["opt"]), False, True)


def case_multi_mlhsicr(m, rng, c):
    o = options(rng, c["opt"])
    o.update(max_explanatory_num=2, cor_alpha=0.1, shapiro_alpha=1.0)
    run(m, groups(rng, c), o, True, True)
