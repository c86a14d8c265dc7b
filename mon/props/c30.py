"""C30: likelihood and fit-index helpers evaluate exactly the given model."""
import contextlib
import logging
import re

import numpy as np
import pandas as pd
import semopy
from lingam.utils import evaluate_model_fit, likelihood_i, log_p_super_gaussian, variance_i

from mon import gen, oracle

logging.disable(logging.CRITICAL)

RULE = (
    "likelihoods of 1-8 variables with random coefficients, constants, scales from 1e-4 to 1e4, recomputed in extended precision; fit indices of random acyclic matrices (isolated variables, tiny, huge and "
    "integer coefficients) compared with a separately written and relabelled structural model and with the closed-form discrepancy; matrices with unresolved pairs and ordinal columns: the structural model "
    "handed to the fitting library is recorded and compared term by term; distinct by (matrix, data)"
)
REQUIRED = {"variance": 200, "likelihood": 200, "density": 60, "shift": 60, "indices-relabelled": 60, "discrepancy": 60, "terms": 80, "latent-declared": 40, "ordinal-declared": 40, "data-handed-over": 80, "input-kept": 100}
SLOW_FIRST = ["indices"]


def cases(seed, tier):
    return gen.spread(seed, tier, [
        ("likelihood", 600, 6000, lambda i, r: {"n": int(r.choice([2, 5, 40, 300, 5000])), "d": int(r.choice([1, 2, 3, 5, 8])), "scale": float(10.0 ** r.randint(-4, 5))}),
        ("indices", 240, 2000, lambda i, r: {"n": int(r.choice([60, 200, 500])), "d": int(r.choice([2, 3, 4, 5, 6])), "density": float(r.choice([0.2, 0.6, 1.0])), "coef": ["plain", "plain", "rounded", "small", "large"][i % 5]}),
        ("model", 260, 2500, lambda i, r: {"n": int(r.choice([30, 100])) if i % 8 else 1500, "d": int(r.choice([2, 3, 4, 5, 7, 12])), "density": float(r.choice([0.0, 0.3, 0.7])), "nan": ["pair", "pairs", "one-sided", "none", "all"][i % 5], "ord": i % 3 != 0,
                                          "coef": ["plain", "rounded", "small", "large"][i % 4]}),
    ])


def case_likelihood(m, rng, c):
    n, d = c["n"], c["d"]
    x = (rng.randn(d, n) if rng.rand() < 0.5 else rng.laplace(size=(d, n))) * c["scale"] + rng.uniform(-3, 3, (d, 1)) * c["scale"]
    B = gen.dag(rng, d, rng.choice([0.0, 0.5, 1.0]))[0] if d > 1 else np.zeros((1, 1))
    i = int(rng.randint(d))
    b = B[i]
    b0 = float(rng.choice([0.0, 1.0, -2.5])) * c["scale"]
    x0 = x.copy()
    if rng.rand() < 0.3:
        x = np.asfortranarray(x)
    bi = b.tolist() if rng.rand() < 0.3 else b.copy()
    r = (x0[i] - sum(b[j] * x0[j] for j in range(d))).astype(np.longdouble)
    var = ((r - r.mean()) ** 2).sum() / n
    got_v = variance_i(x, i, bi)
    m.check("variance", abs(got_v - var) <= 1e-9 * abs(var) + 1e-300, got=got_v, want=var)
    sd = np.sqrt(var)
    want = (-np.sqrt(np.longdouble(2)) * np.abs((r - b0) / sd) - np.longdouble(0.35)).sum() - n * np.log(sd)
    got = likelihood_i(x, i, bi, b0)
    tol = 1e-8 * (np.abs((r - b0) / sd).sum() + n * abs(np.log(sd)) + n)
    m.check("likelihood", np.ndim(got) == 0 and abs(got - want) <= tol, got=got, want=want)
    m.check("input-kept", np.array_equal(x, x0) and np.array_equal(bi, b))
    # shifting the variable and the constant together changes nothing
    k = float(rng.uniform(-2, 2)) * c["scale"]
    y = x0.copy()
    y[i] += k
    if b[i] == 0:
        m.check("shift", abs(likelihood_i(y, i, b, b0 + k) - got) <= 10 * tol, got=likelihood_i(y, i, b, b0 + k), want=got)
    s = rng.uniform(-6, 6, (1, n) if rng.rand() < 0.5 else n)
    m.close("density", log_p_super_gaussian(s), -(2**0.5) * np.abs(s) - 0.35, rtol=1e-12)
    m.state(x0, b, i)


def make(rng, c):
    d = c["d"]
    B, order = gen.dag(rng, d, c["density"])
    if c["coef"] == "rounded":
        B = np.round(B) + (B != 0) * (np.round(B) == 0)
    X = np.zeros((c["n"], d))
    for i in order:
        X[:, i] = X @ B[i] + gen.noise(rng, "laplace", c["n"]) * rng.uniform(0.5, 2)
    k = {"small": -5, "large": 3}.get(c["coef"])
    if k is not None:  # the same model in other units
        s = 10.0 ** np.array([k if rng.rand() < 0.5 else 0 for _ in range(d)])
        X, B = X * s, B * s[:, None] / s[None, :]
        B = np.where(np.abs(B) <= 1e-7, 0, B)
    return B, X


def mine(A, X, rng):
    """a structural model of the same matrix, written independently with other names, order and layout"""
    d = len(A)
    names = [f"q{v}z" for v in rng.permutation(d)]
    lines = []
    for i in rng.permutation(d):
        t = [f"{np.format_float_positional(A[i, j])}*{names[j]}" for j in rng.permutation(d) if A[i, j] != 0]
        if t:
            lines.append(f"{names[i]} ~ " + " + ".join(t))
    mdl = semopy.Model("\n".join(lines))
    mdl.fit(pd.DataFrame(X, columns=names))
    return semopy.calc_stats(mdl).iloc[0]


def given(rng, A, X):
    f = rng.randint(3)
    a = A.tolist() if f == 0 else A.copy()
    x = pd.DataFrame(X, columns=[f"name {i}" for i in range(X.shape[1])]) if f == 1 else X.tolist() if f == 0 else X.copy()
    return a, x


def case_indices(m, rng, c):
    B, X = make(rng, c)
    d, n = c["d"], c["n"]
    if not B.any():
        B[1, 0] = 0.5
    A = B.copy()
    if rng.rand() < 0.5:  # a wrong model has indices, too
        A = np.where(A != 0, A * rng.uniform(0.6, 1.4, A.shape), 0)
    if rng.rand() < 0.3:
        i, j = np.argwhere(A)[rng.randint((A != 0).sum())]
        if (A != 0).sum() > 1:
            A[i, j] = 1e-12  # numerically zero
    Z = np.where(np.abs(A) > 1e-8, A, 0)
    a, x = given(rng, A, X)
    got = evaluate_model_fit(a, x)
    m.check("input-kept", np.array_equal(np.asarray(a, float), A) and np.array_equal(np.asarray(x, float), X))
    m.check("frame", isinstance(got, pd.DataFrame) and len(got) == 1)
    g = got.iloc[0]
    w = mine(Z, X, rng)
    if c["coef"] in ("small", "large"):
        m.check("indices-relabelled", g["DoF"] == w["DoF"], got=g["DoF"], want=w["DoF"])
        m.state(A, X)
        return  # the library's optimiser is not scale free

    def agree(g, w):
        return all(np.isclose(g[k], w[k], rtol=1e-3, atol=1e-3) or not np.isfinite(w[k]) for k in w.index)

    def again():
        q = rng.permutation(d)
        return evaluate_model_fit(A[np.ix_(q, q)], X[:, q]).iloc[0]

    ok = agree(g, w)
    gs = [g]
    if not ok:  # the library's optimiser occasionally stops early: the same model listed in another order
        gs, ws = [g] + [again() for _ in range(4)], [w] + [mine(Z, X, rng) for _ in range(4)]
        ok = any(agree(u, v) for u in gs for v in ws)
        m.count("optimiser-repeats")
    m.check("indices-relabelled", ok and set(g.index) == set(w.index), got=g.to_dict(), want=w.to_dict())
    used = [k for k in range(d) if Z[k].any() or Z[:, k].any()]
    S = np.atleast_2d(np.cov(X[:, used].T, bias=True))
    Bu = Z[np.ix_(used, used)]
    p = len(used)
    E = X[:, used] @ (np.eye(p) - Bu).T
    Om = np.diag(E.var(0))
    ex = [k for k in range(p) if not Bu[k].any()]
    Om[np.ix_(ex, ex)] = S[np.ix_(ex, ex)]
    inv = np.linalg.inv(np.eye(p) - Bu)
    Sg = inv @ Om @ inv.T
    F = np.linalg.slogdet(Sg)[1] + np.trace(np.linalg.solve(Sg, S)) - np.linalg.slogdet(S)[1] - p
    near = lambda u: abs(u["chi2"] - n * F) <= 0.02 * n * F + 0.05
    m.check("discrepancy", near(g) or any(near(u) for u in gs + [again() for _ in range(5)]), got=g["chi2"], want=n * F)
    m.state(A, X)


class Seen(Exception):
    pass


@contextlib.contextmanager
def recording(log):
    """the fitting library may not return for latent variables: the model it is given is recorded instead"""
    old = semopy.Model.fit

    def fit(self, data=None, *a, **k):
        log.append((self.description, np.asarray(data, float).copy(), list(data.columns)))
        raise Seen

    semopy.Model.fit = fit
    try:
        yield
    finally:
        semopy.Model.fit = old


def parse(desc):
    eq, latent, ordinal = {}, set(), set()
    for line in desc.splitlines():
        line = line.split("#")[0].strip()
        if not line:
            continue
        r = re.match(r"DEFINE\((\w+)\)\s*(.*)$", line)
        if r:
            (latent if r.group(1) == "latent" else ordinal).update(r.group(2).replace(",", " ").split())
            continue
        lhs, rhs = line.split("~")
        for t in rhs.split(" + "):
            t = t.strip()
            if not t:
                continue
            coef, var = (None, t) if "*" not in t else (float(t.split("*")[0]), t.split("*")[1].strip())
            eq.setdefault(lhs.strip(), []).append((var, coef))
    return eq, latent, ordinal


def case_model(m, rng, c):
    B, X = make(rng, c)
    d = c["d"]
    A = B.copy()
    pairs = [(i, j) for i in range(d) for j in range(i)]
    rng.shuffle(pairs)
    k = {"pair": 1, "pairs": max(1, len(pairs) // 3), "one-sided": 1, "none": 0, "all": len(pairs)}[c["nan"]]
    for i, j in pairs[:k]:
        A[i, j] = np.nan
        A[j, i] = np.nan if c["nan"] != "one-sided" else 0.0
    if not (A != 0).any():
        A[1, 0] = 0.5
    if rng.rand() < 0.3 and (A == 0).any():
        z = np.argwhere((A == 0) & ~np.eye(d, dtype=bool))
        if len(z):
            A[tuple(z[rng.randint(len(z))])] = 1e-11
    ordinal = None
    if c["ord"]:
        o = (rng.rand(d) < 0.4).astype(int) * rng.choice([1, 2])
        X[:, o != 0] = np.round(X[:, o != 0])
        ordinal = [o.tolist(), o, (o != 0).tolist(), o.reshape(1, -1)][rng.randint(4)]
    if rng.rand() < 0.4:  # repeated rows, a column without variation
        X = X[rng.randint(len(X), size=len(X))]
        if rng.rand() < 0.3:
            X[:, rng.randint(d)] = 2.0
    a, x = given(rng, A, X)
    log = []
    with recording(log):
        try:
            evaluate_model_fit(a, x, is_ordinal=ordinal)
        except Seen:
            pass
    m.check("input-kept", np.array_equal(np.asarray(a, float), A, equal_nan=True) and np.array_equal(np.asarray(x, float), X))
    if not m.check("fitted-once", len(log) == 1, got=len(log)):
        return
    desc, data, cols = log[0]
    m.check("data-handed-over", data.shape == X.shape and np.array_equal(data, X) and len(set(cols)) == d, cols=cols)
    eq, latent, odn = parse(desc)
    pos = {v: k for k, v in enumerate(cols)}
    want = {}
    for i in range(d):
        t = []
        for j in range(d):
            if np.isnan(A[i, j]):
                t.append(("L", tuple(sorted((i, j))), None))
            elif abs(A[i, j]) > 1e-8:
                t.append(("x", j, A[i, j]))
        if t:
            want[i] = t
    # every latent name stands for one pair: identify it by the equations it appears in
    where = {}
    for lhs, ts in eq.items():
        for v, cf in ts:
            if v not in pos:
                where.setdefault(v, []).append(pos.get(lhs))
    ok = all(lhs in pos for lhs in eq) and {pos[l] for l in eq} == set(want)
    if ok:
        for lhs, ts in eq.items():
            i = pos[lhs]
            obs = sorted((pos[v], cf) for v, cf in ts if v in pos)
            exp = sorted((j, cf) for kind, j, cf in want[i] if kind == "x")
            ok &= len(obs) == len(exp) and all(p == q and u is not None and abs(u - w) <= 1e-9 * abs(w) for (p, u), (q, w) in zip(obs, exp))
            ok &= sum(v not in pos for v, _ in ts) == sum(kind == "L" for kind, _, _ in want[i]) and all(cf is None for v, cf in ts if v not in pos)
    m.check("terms", ok, desc=desc, A=A)
    pairs_got = sorted(tuple(sorted(v)) for v in where.values())
    exp = {}
    for i, ts in want.items():
        for kind, pr, _ in ts:
            if kind == "L":
                exp.setdefault(pr, []).append(i)
    m.check("latent-declared", set(where) == latent and pairs_got == sorted(tuple(sorted(v)) for v in exp.values()), desc=desc, A=A)
    onum = {k for k in range(d) if ordinal is not None and np.asarray(ordinal).ravel()[k]}
    m.check("ordinal-declared", {pos[v] for v in odn} == onum, desc=desc)
    m.state(A, X, str(sorted(onum)))
