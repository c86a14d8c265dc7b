"""C06: estimates do not depend on units, labels, row order or container type."""
import numpy as np
import lingam
from sklearn.linear_model import LinearRegression

from mon import gen

RULE = (
    "pairs of executions of the same estimator on related inputs (affine change of units, column relabelling, row shuffle, "
    "container/dtype/layout change); non-trivial: the pair was fitted and compared; distinct by (estimator, relation, result)"
)
REQUIRED = {"same-for-container": 500, "same-in-other-units": 400, "same-under-relabelling": 250, "same-for-row-order": 250}
SLOW_FIRST = ["varma", "camuv", "bottomup", "rcd", "kernel", "resit", "mgrcd"]
ASSUMPTIONS = ["continuous data, so decisions within rounding of a tie have negligible probability and are not special-cased"]

# estimator -> relations that its documented measure makes exact
REL = {
    "direct": "units relabel rows containers",
    "kernel": "units relabel rows containers",
    "multi": "units relabel rows containers",
    "ica": "containers",
    "highdim": "relabel rows containers",
    "resit": "relabel rows containers",
    "rcd": "units rows containers",
    "mgrcd": "units rows containers",
    "bottomup": "units relabel rows containers",
    "var": "scale relabel containers",
    "varma": "containers",
    "longitudinal": "units relabel rows containers",
    "camuv": "containers",
}
COUNT = {"direct": (160, 1500), "kernel": (40, 200), "multi": (80, 800), "ica": (60, 600), "highdim": (80, 800), "resit": (40, 200),
         "rcd": (60, 400), "mgrcd": (30, 200), "bottomup": (60, 400), "var": (70, 500), "varma": (4, 16), "longitudinal": (60, 400), "camuv": (10, 60)}
GROUPED = {"multi", "mgrcd"}


def cases(seed, tier):
    tab = []
    for k, (q, t) in COUNT.items():
        def fac(i, r, k=k):
            small = k in ("kernel", "resit", "rcd", "mgrcd", "bottomup", "camuv", "varma")
            return {"d": int(r.choice([2, 3, 4] if small else [2, 3, 4, 5, 7])) if k not in ("varma", "camuv") else 2,
                    "n": int(r.choice([40, 60, 90])) if small else int(r.choice([60, 150, 400]))}
        tab.append((k, q, t, fac))
    return gen.spread(seed, tier, tab)


def estimate(name, X, opt):
    """returns (orders or None, array of matrices with shape (..., d, d))"""
    if name == "direct":
        r = lingam.DirectLiNGAM().fit(X)
    elif name == "kernel":
        r = lingam.DirectLiNGAM(measure="kernel").fit(X)
    elif name == "ica":
        r = lingam.ICALiNGAM(random_state=5, max_iter=200).fit(X)
    elif name == "highdim":
        r = lingam.HighDimDirectLiNGAM().fit(X)
    elif name == "resit":
        r = lingam.RESIT(regressor=LinearRegression(), alpha=0.1).fit(X)
    elif name == "rcd":
        r = lingam.RCD(cor_alpha=0.05, ind_alpha=0.02, shapiro_alpha=1.0, bw_method=opt).fit(X)
        return None, np.array(r.adjacency_matrix_)[None]
    elif name == "bottomup":
        r = lingam.BottomUpParceLiNGAM(alpha=0.05).fit(X)
        return [tuple(sorted(map(int, v))) if hasattr(v, "__iter__") else (int(v),) for v in r.causal_order_], np.array(r.adjacency_matrix_)[None]
    elif name == "camuv":
        r = lingam.CAMUV(alpha=0.05).fit(X)
        return None, np.array(r.adjacency_matrix_)[None]
    elif name == "multi":
        r = lingam.MultiGroupDirectLiNGAM().fit(X)
        return [int(v) for v in r.causal_order_], np.array(r.adjacency_matrices_)
    elif name == "mgrcd":
        r = lingam.MultiGroupRCD(cor_alpha=0.05, ind_alpha=0.02, shapiro_alpha=1.0).fit(X)
        return None, np.array(r.adjacency_matrices_)
    elif name == "var":
        r = lingam.VARLiNGAM(lags=2, criterion=opt, prune=True, random_state=0).fit(X)
        return [int(v) for v in r.causal_order_], np.array(r.adjacency_matrices_)
    elif name == "varma":
        r = lingam.VARMALiNGAM(order=(1, 0), criterion=None, prune=False, random_state=0).fit(X)
        p, o = r.adjacency_matrices_
        return [int(v) for v in r.causal_order_], np.concatenate([np.array(p), np.array(o).reshape(-1, *np.array(p).shape[1:])])
    elif name == "longitudinal":
        r = lingam.LongitudinalLiNGAM(n_lags=1).fit(X)
        return [tuple(int(v) for v in o) for o in r.causal_orders_[1:]], np.array(r.adjacency_matrices_)[1:]
    return [int(v) for v in r.causal_order_], np.array(r.adjacency_matrix_)[None]


def data(rng, name, c):
    d, n = c["d"], c["n"]
    if name in ("var", "varma"):
        return gen.var_data(rng, n, d, 1)[0]
    if name == "longitudinal":
        from mon.props.c01 import longitudinal_series

        return [np.asarray(x) for x in longitudinal_series(rng, n, d, 3, 1)[0]]
    if name in GROUPED:
        B, o = gen.dag(rng, d, 0.6)
        return [gen.linear_data(rng, k, d, B=B, order=o)[0] for k in gen.nrows(rng, n, gen.ngroups(rng) if name == "multi" else 2)]
    fl = ["lingam", "confounded", "cyclic", "gauss", "nonlinear"][rng.randint(5)]
    return gen.messy_data(rng, n, d, fl)


def each(X, f):
    return [f(x) for x in X] if isinstance(X, list) else f(X)


def same(m, rel, name, got, want, rescale=None, tag=""):
    (o1, B1), (o2, B2) = got, want
    m.check(rel, o1 == o2, tag=name + tag + "-order", got=o1, want=o2)
    B1, B2 = np.asarray(B1, float), np.asarray(B2, float)
    if B1.shape != B2.shape:
        m.check(rel, False, tag=name + tag, shapes=[B1.shape, B2.shape])
        return
    if rescale is not None:
        B1 = B1 * rescale
        B2 = B2 * rescale
    m.check(rel, np.array_equal(np.isnan(B1), np.isnan(B2)) and np.array_equal(B1 == 0, B2 == 0), tag=name + tag + "-graph", got=B1, want=B2)
    m.check(rel, np.allclose(B1, B2, rtol=1e-6, atol=1e-8, equal_nan=True), tag=name + tag + "-weights", got=B1, want=B2)
    m.state(name, rel, tag, B2)


def run(m, rng, c):
    name = c["kind"]
    X = data(rng, name, c)
    d = c["d"]
    opt = None
    if name == "rcd":
        opt = ["mdbs", "scott", "silverman"][rng.randint(3)]
    if name == "var":
        opt = [None, "bic"][rng.randint(2)]
    rels = REL[name].split()
    base = estimate(name, X, opt)
    if "units" in rels or "scale" in rels:
        # the same transformation for every group: total effects etc. stay comparable
        a = 10.0 ** rng.uniform(-4, 4, d) * rng.choice([-1, 1], d)
        if rng.rand() < 0.4:
            a = 10.0 ** rng.uniform(-1, 1, d)
        b = np.zeros(d)
        if "units" in rels and rng.rand() < 0.6:
            sd = (X[0] if isinstance(X, list) else X).std(0)
            b = rng.uniform(-1, 1, d) * 10.0 ** rng.uniform(-1, 2.5, d) * sd * np.abs(a)
        got = estimate(name, each(X, lambda x: x * a + b), opt)
        o, B = got
        B = B / a[:, None] * a[None, :]  # back to the original units
        same(m, "same-in-other-units", name, (o, B), base, tag="-" + str(opt))
    if "relabel" in rels and d > 1:
        p = rng.permutation(d)
        while np.array_equal(p, np.arange(d)):
            p = rng.permutation(d)
        o, B = estimate(name, each(X, lambda x: np.ascontiguousarray(x[:, p])), opt)
        q = np.argsort(p)
        B = B[..., q, :][..., :, q]

        def rl(v):
            return tuple(rl(w) for w in v) if isinstance(v, tuple) else int(p[v])

        if o is not None:
            o = [rl(v) for v in o]
            if name == "bottomup":
                o = [tuple(sorted(v)) for v in o]
        if name == "resit":
            # superfluous parents are dropped one at a time in index order: only the causal order is label-free
            B = base[1]
        same(m, "same-under-relabelling", name, (o, B), base)
    if "rows" in rels:
        if isinstance(X, list) and name == "longitudinal":
            s = rng.permutation(len(X[0]))
            Y = [x[s] for x in X]
        else:
            Y = each(X, lambda x: x[rng.permutation(len(x))])
        same(m, "same-for-row-order", name, estimate(name, Y, opt), base)
    # containers: the numbers are integers so that every type holds them exactly
    Z = each(X, lambda x: np.round((x - x.mean(0)) / x.std(0) * 1000))
    base = estimate(name, Z, opt)
    kinds = ["i64", "i32", "i16", "list", "df", "df_idx", "f", "strided", "readonly", "dfint", "mixeddf", "f32"]
    if name == "ica":
        kinds = ["i64", "i32", "i16", "list", "readonly", "c"]
    if name in ("camuv", "varma"):
        kinds = ["i64", "i16", "list", "df"]
    k = 3 if name in ("camuv", "varma", "rcd", "bottomup", "mgrcd", "kernel", "resit") else 5
    for kind in rng.choice(kinds, k, replace=False):
        Y = each(Z, lambda z: convert(z, kind))
        if isinstance(Z, list) and name != "longitudinal" and rng.rand() < 0.5:  # data sets of different types
            Y = [convert(z, k2) for z, k2 in zip(Z, rng.permutation([kind] + [k for k in ("f", "list", "df", "i32", "i64")])[: len(Z)])]
            kind = "mixed"
        same(m, "same-for-container", name, estimate(name, Y, opt), base, tag="-" + kind)


    if isinstance(Z, list):  # one data set holds integers, the others fractions
        j = int(rng.randint(len(Z))) if rng.rand() < 0.5 else 0
        Y = [np.round(z / 250) if i == j else x / x.std(0) * 4 for i, (x, z) in enumerate(zip(X, Z))]
        base = estimate(name, Y, opt)
        same(m, "same-for-container", name, estimate(name, [y.astype(int) if i == j else y for i, y in enumerate(Y)], opt), base, tag="-one-int")


def convert(z, kind):
    import pandas as pd

    if kind in ("i64", "i32", "i16"):
        return z.astype({"i64": np.int64, "i32": np.int32, "i16": np.int16}[kind])
    if kind == "f32":
        return np.asarray(z, np.float64).astype(np.float32).astype(np.float64)  # exact for these integers
    if kind == "dfint":
        return pd.DataFrame(z.astype(int), columns=[f"x{i}" for i in range(z.shape[1])])
    if kind == "mixeddf":
        df = pd.DataFrame(z, columns=[f"x{i}" for i in range(z.shape[1])])
        df["x0"] = df["x0"].astype(int)
        return df
    return gen.containers(z)[kind]


for _k in COUNT:
    globals()["case_" + _k] = run
