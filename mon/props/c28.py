"""C28: the imputation bootstrap keeps observed cells and fits what it imputed."""
import numpy as np
import pandas as pd
import lingam
from lingam.tools import bootstrap_with_imputation, BaseMultipleImputation, BaseMultiGroupCDModel

from mon import gen, oracle
from mon.props.c02 import make_pk

RULE = (
    "linear data of 2-6 variables with missing cells (none, few, many, whole rows, one column, large n), frames, lists and arrays, default and recording user components (including ones that write into "
    "what they are given), with and without prior knowledge; every call of the components is logged and compared with the returned resample; every replicate is refitted from the returned cells; distinct by (data, mask, options)"
)
REQUIRED = {"only-missing-filled": 150, "all-missing-filled": 150, "replicate-refit": 80, "shapes": 60, "component-sequence": 60, "component-input": 100, "component-result-kept": 50, "reproducible": 15,
            "input-kept": 90, "observed-kept": 60, "resamples-differ": 30}
SLOW_FIRST = ["default"]


def cases(seed, tier):
    def f(i, r):
        return {"n": int(r.choice([30, 60, 120])), "d": int(r.choice([2, 3, 4, 5])), "miss": ["few", "many", "none", "column", "rows", "few"][i % 6], "S": int(r.choice([1, 2, 3])), "R": int(r.choice([2, 3, 4])),
                "form": ["array", "frame", "list", "F"][i % 4]}

    return gen.spread(seed, tier, [
        ("default", 48, 500, lambda i, r: dict(f(i, r), pk=i % 3 == 1, soft=i % 6 == 1, n=int(r.choice([40, 80, 1500])) if i % 12 == 5 else int(r.choice([40, 80])))),
        ("custom", 70, 800, lambda i, r: dict(f(i, r), d=int(r.choice([2, 3, 4, 5, 8])), n=int(r.choice([30, 60, 120, 400])), cd=["default", "record", "reverse"][i % 3], mutate=i % 4 == 2, partial=i % 5 == 3)),
    ])


def make(rng, c):
    X, _, _ = gen.linear_data(rng, c["n"], c["d"], 0.6)
    X = X + rng.uniform(-5, 5, c["d"])
    n, d = X.shape
    k = c["miss"]
    M = np.zeros((n, d), bool)
    if k == "few":
        M = rng.rand(n, d) < 0.05
    elif k == "many":
        M = rng.rand(n, d) < 0.35
    elif k == "column":
        M[:, rng.randint(d)] = rng.rand(n) < 0.5
    elif k == "rows":
        M[rng.rand(n) < 0.1] = True
        M[:, 0] |= rng.rand(n) < 0.1
    X[M] = np.nan
    return X, M


def shaped(X, form):
    return {"array": lambda: X.copy(), "frame": lambda: pd.DataFrame(X), "list": lambda: X.tolist(), "F": lambda: np.asfortranarray(X)}[form]()


class Recorder:
    def __init__(self):
        self.log = []


class Imputer(BaseMultipleImputation):
    def __init__(self, rec, R, mutate, rng):
        self.rec, self.R, self.mutate, self.rng = rec, R, mutate, rng

    def fit_transform(self, X):
        self.rec.log.append(("impute", np.array(X, copy=True)))
        out = []
        for _ in range(self.R):
            Y = X if self.mutate else X.copy()
            if self.mutate and out:
                Y = out[0].copy()
                Y[self.pos] = self.rng.uniform(-3, 3, self.pos.sum())
            else:
                self.pos = np.isnan(Y)
                Y[self.pos] = self.rng.uniform(-3, 3, self.pos.sum())
            out.append(Y if self.mutate and not out else Y.copy())
        self.rec.log.append(("imputed", [np.array(o, copy=True) for o in out]))
        return out


class CD(BaseMultiGroupCDModel):
    def __init__(self, rec, kind, rng):
        self.rec, self.kind, self.rng = rec, kind, rng

    def before_imputation(self, X):
        self.rec.log.append(("before", np.array(X, copy=True)))

    def fit(self, X_list):
        self.rec.log.append(("fit", [np.array(o, copy=True) for o in X_list]))
        d = X_list[0].shape[1]
        if self.kind == "reverse":
            order = [int(v) for v in self.rng.permutation(d)]
            A = self.rng.randn(len(X_list), d, d)
        else:
            mdl = lingam.MultiGroupDirectLiNGAM().fit(list(X_list))
            order, A = list(mdl.causal_order_), np.array(mdl.adjacency_matrices_)
        self.rec.log.append(("result", (list(order), np.array(A))))
        return order, A


def common(m, X, M, out, S, R):
    orders, A, idx, imp = out
    n, d = X.shape
    ok = np.shape(orders) == (S, d) and np.shape(A) == (S, R, d, d) and np.shape(idx) == (S, n) and np.shape(imp) == (S, R, n, d)
    if not m.check("shapes", ok, got=[np.shape(v) for v in out]):
        return None
    full = []
    for s in range(S):
        i = np.asarray(idx[s])
        m.check("resample-in-range", ((i >= 0) & (i < n)).all())
        miss = M[i]
        row = []
        for r in range(R):
            m.check("only-missing-filled", np.isnan(imp[s][r][~miss]).all(), s=s, r=r)
            m.check("all-missing-filled", np.isfinite(imp[s][r][miss]).all(), s=s, r=r)
            row.append(np.where(miss, imp[s][r], X[i]))
        full.append(row)
        m.check("order-is-permutation", sorted(int(v) for v in orders[s]) == list(range(d)))
    if S > 1 and n >= 30:
        m.check("resamples-differ", all(not np.array_equal(idx[0], idx[s]) for s in range(1, S)))
    return full


def case_default(m, rng, c):
    X, M = make(rng, c)
    S, R, d = min(c["S"], 2), c["R"], c["d"]
    if (~M).sum(0).min() < 10:
        m.skip("nearly-empty-column")
        return
    kw = {"n_repeats": R, "random_state": int(rng.randint(10000))}
    pk = None
    if c["pk"]:
        kw["prior_knowledge"] = pk = make_pk(rng, d, "mixed")
        kw["apply_prior_knowledge_softly"] = c["soft"]
    arg = shaped(X, c["form"])
    try:
        out = bootstrap_with_imputation(arg, S, **kw)
    except ValueError as e:
        if "prior" in str(e).lower() or "inconsisten" in str(e).lower():
            m.skip("refused-prior")
            return
        raise
    m.check("input-kept", np.array_equal(np.asarray(arg, float), X, equal_nan=True) and (pk is None or np.array_equal(pk, kw["prior_knowledge"])))
    full = common(m, X, M, out, S, R)
    if full is None:
        return
    orders, A, idx, imp = out
    for s in range(S):
        mdl = lingam.MultiGroupDirectLiNGAM(prior_knowledge=None if pk is None else pk.copy(), apply_prior_knowledge_softly=c["soft"])
        mdl.fit([x.copy() for x in full[s]])
        same = [int(v) for v in mdl.causal_order_] == [int(v) for v in orders[s]]
        m.check("replicate-refit", same and np.allclose(A[s], np.array(mdl.adjacency_matrices_), rtol=1e-6, atol=1e-9), s=s, got=A[s][0], want=mdl.adjacency_matrices_[0], orders=[list(mdl.causal_order_), list(orders[s])])
        if M.any():
            fills = imp[s][:, M[idx[s]]]
            if fills.shape[1] >= 5:
                m.check("repeats-differ", all(not np.array_equal(fills[0], fills[r]) for r in range(1, R)))
        m.state(np.asarray(A[s]), np.asarray(idx[s]))
    if rng.rand() < 0.5:
        again = bootstrap_with_imputation(shaped(X, c["form"]), S, **kw)
        m.check("reproducible", all(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True) for a, b in zip(out, again)))


def case_custom(m, rng, c):
    X, M = make(rng, c)
    S, R, d = c["S"], c["R"], c["d"]
    rec = Recorder()
    r2 = np.random.RandomState(rng.randint(2**31 - 1))
    imp = Imputer(rec, R, c["mutate"], r2)
    kw = {"imp": imp, "random_state": int(rng.randint(10000))}
    if c["cd"] != "default":
        kw["cd_model"] = CD(rec, c["cd"], r2)
        if rng.rand() < 0.4:  # documented as unused with a model of one's own
            kw["prior_knowledge"] = make_pk(rng, d, "mixed")
    if rng.rand() < 0.3:
        kw["n_repeats"] = R + 3 if rng.rand() < 0.5 else 1  # documented as unused with an imputer of one's own
    arg = shaped(X, c["form"])
    out = bootstrap_with_imputation(arg, S, **kw)
    m.check("input-kept", np.array_equal(np.asarray(arg, float), X, equal_nan=True))
    full = common(m, X, M, out, S, R)
    if full is None:
        return
    orders, A, idx, res = out
    names = [e[0] for e in rec.log]
    per = ["impute", "imputed"] if c["cd"] == "default" else ["before", "impute", "imputed", "fit", "result"]
    if not m.check("component-sequence", names == per * S, got=names):
        return
    for s in range(S):
        ev = dict(rec.log[s * len(per) : (s + 1) * len(per)])
        want = X[np.asarray(idx[s])]
        m.check("component-input", np.array_equal(ev["impute"], want, equal_nan=True), s=s)
        for r in range(R):
            m.check("observed-kept", np.array_equal(full[s][r], ev["imputed"][r]), s=s, r=r, got=res[s][r][:3], want=ev["imputed"][r][:3])
        if c["cd"] != "default":
            m.check("component-input", np.array_equal(ev["before"], want, equal_nan=True), s=s)
            m.check("component-input", len(ev["fit"]) == R and all(np.array_equal(a, b) for a, b in zip(ev["fit"], ev["imputed"])), s=s)
            o, B = ev["result"]
            m.check("component-result-kept", [int(v) for v in orders[s]] == o and np.array_equal(A[s], B), s=s)
        else:
            mdl = lingam.MultiGroupDirectLiNGAM().fit([x.copy() for x in ev["imputed"]])
            m.check("replicate-refit", [int(v) for v in mdl.causal_order_] == [int(v) for v in orders[s]] and np.allclose(A[s], np.array(mdl.adjacency_matrices_), rtol=1e-6, atol=1e-9), s=s)
        m.state(np.asarray(A[s]), np.asarray(idx[s]))
