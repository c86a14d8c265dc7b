"""C09: every bootstrap replicate is the model fitted to its recorded resample (event-log monitor)."""
import contextlib
import copy
import io

import numpy as np
import pandas as pd
import lingam
from scipy import stats

from mon import gen, oracle
from mon.props.c08 import SPECS, equal

RULE = (
    "bootstraps of every estimator, with the fit calls made inside recorded; every replicate is re-derived by fitting a fresh instance to its "
    "recorded resample, its total effects recomputed from its graph, and the resamples checked row by row (conservation, size, "
    "independence); non-trivial: a replicate re-derived; distinct by (estimator, resample, graph)"
)
REQUIRED = {"replicate-graph": 300, "replicate-effects": 300, "indices-reproduce": 200, "rows-conserved": 300}
SLOW_FIRST = ["varma", "rcd", "mgrcd", "longitudinal"]
ASSUMPTIONS = ["a resample is recognised when bootstrap hands it to the public fit of its own instance or reports its indices; otherwise that replicate is inconclusive"]
N = {"direct": (60, 500), "kernel": (8, 60), "ica": (24, 160), "highdim": (20, 140), "resit": (14, 90), "rcd": (20, 140), "bottomup": (36, 240),
     "multi": (36, 240), "mgrcd": (12, 80), "var": (56, 360), "varma": (14, 70), "longitudinal": (30, 200)}
MIXIN = ("direct", "kernel", "ica", "highdim", "resit")


def cases(seed, tier):
    t = [(k, q, th, lambda i, r: {"ns": int(r.choice([1, 3, 4, 6] if i % 3 else [2, 5])), "opt": i, "form": ["array", "int", "df", "f"][int(r.randint(4))]}) for k, (q, th) in N.items()]
    # many variables, and many replicates
    for k, d, q in (("direct", 10, 4), ("multi", 9, 3), ("ica", 9, 2), ("highdim", 7, 1), ("bottomup", 7, 2), ("var", 6, 2), ("longitudinal", 5, 2), ("rcd", 5, 1)):
        t.append((k, q, 6 * q, lambda i, r, d=d: {"ns": 2, "opt": i, "form": "f", "d": d + i % 3}))
    for k, ns, q in (("direct", 70, 3), ("ica", 40, 1), ("multi", 40, 2), ("bottomup", 36, 1), ("var", 40, 2), ("longitudinal", 40, 2), ("rcd", 34, 1), ("direct", 130, 2)):
        t.append((k, q, 6 * q, lambda i, r, ns=ns: {"ns": ns + i, "opt": i, "form": "f", "n": [40, 130, 520][i % 3]}))
    for k, n, q in (("highdim", 300, 2), ("resit", 120, 1), ("rcd", 150, 2), ("mgrcd", 90, 1), ("var", 600, 2), ("longitudinal", 200, 2)):
        t.append((k, q, 6 * q, lambda i, r, n=n: {"ns": 2, "opt": i, "form": "f", "size": n + 130 * (i % 2)}))
    return gen.spread(seed, tier, t)


def record(model, log):
    """make `model` log each public fit: arguments (copied) at call time"""
    base = model.__class__

    def fit(self, *a, **k):
        log.append(copy.deepcopy(a[0] if a else next(iter(k.values()))))
        return base.fit(self, *a, **k)

    model.__class__ = type(base.__name__, (base,), {"fit": fit})
    return model


def row_index(X, R):
    """index in X of each row of R (-1: not a row of X)"""
    look = {}
    for i, r in enumerate(np.asarray(X, float) + 0.0):
        look.setdefault(r.tobytes(), i)
    return np.array([look.get(np.ascontiguousarray(r).tobytes(), -1) for r in np.asarray(R, float) + 0.0])


def close(a, b, rtol=1e-7, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def draws_look_random(m, name, draws, n, X):
    """draws: list of index vectors, one per replicate (rows of X are distinct)"""
    for k, ix in enumerate(draws):
        m.check("with-replacement", len(set(ix.tolist())) < n, tag=name)
        for k2 in range(k):
            m.check("independent-draws", not np.array_equal(ix, draws[k2]), tag=name)
            # paired: same position, same row, far more often than by chance
            hit = int((ix == draws[k2]).sum())
            m.check("independent-draws", stats.binom.sf(hit - 1, n, 1.0 / n) > 1e-9, tag=name + "-aligned", hit=hit)
            # the multisets do not coincide either
            same = (np.bincount(ix, minlength=n) == np.bincount(draws[k2], minlength=n)).all()
            m.check("independent-draws", not same, tag=name + "-permuted")
        runs = int((np.diff(ix) == 1).sum())
        m.check("independent-draws", stats.binom.sf(runs - 1, n - 1, 1.0 / n) > 1e-9, tag=name + "-blocks", runs=runs)
    if len(draws) >= 30:
        # the number of draws from a part of the rows varies as it does for independent draws (a stratified draw keeps it fixed)
        r = np.arange(n)
        for part in (r % 2 == 0, r < n // 2, r % 3 == 0, r >= n - n // 4, *[v < np.median(v) for v in X.T]):
            p = part.mean()
            z = sum((part[ix].sum() - n * p) ** 2 for ix in draws) / (n * p * (1 - p))
            m.check("independent-draws", min(stats.chi2.cdf(z, len(draws)), stats.chi2.sf(z, len(draws))) > 1e-8, tag=name + "-strata", z=z, replicates=len(draws))
    pooled = np.concatenate(draws)
    cnt = np.bincount(pooled, minlength=n)
    e = len(pooled) / n
    chi = ((cnt - e) ** 2 / e).sum()
    if n * np.exp(-e) < 1e-11:
        m.check("uniform-draws", cnt.min() > 0, tag=name + "-every-row", never=np.flatnonzero(cnt == 0), replicates=len(draws))
    m.check("uniform-draws", n * stats.binom.sf(cnt.max() - 1, len(pooled), 1.0 / n) > 1e-11, tag=name + "-no-favourite", most=int(cnt.max()), expected=e)
    # each row equally likely: chi-square approximates well enough for such an extreme threshold; halves and deciles catch truncation
    m.check("uniform-draws", stats.chi2.sf(chi, n - 1) > 1e-12, tag=name, chi=chi)
    for q in (0.1, 0.5):
        cut = int(n * q)
        if cut:
            low, hi = int((pooled < cut).sum()), int((pooled >= n - cut).sum())
            for v in (low, hi):
                p = stats.binom.cdf(v, len(pooled), cut / n), stats.binom.sf(v - 1, len(pooled), cut / n)
                m.check("uniform-draws", min(p) > 1e-12, tag=name + "-edge", v=v, of=len(pooled), cut=cut)


def run(m, rng, c):
    name = c["kind"]
    sp = SPECS[name](rng, c["opt"], d=c.get("d"), n=c.get("size"))
    data = sp.data(rng)[0]
    if name in ("direct", "multi", "bottomup") and c["opt"] % 9 == 4:  # long data
        n = int(rng.choice([1300, 2600]))
        data = [gen.linear_data(rng, n + 10 * k, sp.d, 0.8)[0] for k in range(len(data))] if name == "multi" else gen.linear_data(rng, n, sp.d, 0.8)[0]
    if "n" in c and name in ("direct", "ica", "multi", "bottomup"):
        data = [gen.linear_data(rng, c["n"] + k, sp.d, 0.8)[0] for k in range(2)] if name == "multi" else gen.linear_data(rng, c["n"], sp.d, 0.8)[0]
    if name == "multi" and c["opt"] % 5 == 2:  # groups of very different size
        data = [gen.linear_data(rng, k, sp.d, 0.8)[0] for k in ((30, 200), (200, 30, 31), (25, 400))[c["opt"] // 5 % 3]]
    if name == "longitudinal" and c["ns"] > 10 and getattr(sp, "pk", None) is None:  # effects enumerate all paths: many replicates of short panels
        data = [x[:, :3] for x in data[:max(3, sp.lags + 2)]]
    multi = isinstance(data, list)
    form = c["form"]
    Xs = [np.asarray(x, float) for x in (data if multi else [data])]
    if form == "int" and name != "varma":
        Xs = [np.round(x * 1000) for x in Xs]
        given = [x.astype(int) for x in Xs]
    elif form == "df" and name != "longitudinal":
        given = [pd.DataFrame(x, index=np.arange(len(x))[::-1] + 7, columns=[f"c{j}" for j in range(x.shape[1])]) for x in Xs]
    else:
        given = [np.asfortranarray(x) for x in Xs]
    if any(len(np.unique(x, axis=0)) < len(x) for x in Xs):
        m.skip("duplicate-rows")
        return
    d = Xs[0].shape[1]
    ns = c["ns"]
    log = []
    model = record(sp.make(), log)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            res = model.bootstrap(given if multi else given[0], n_sampling=ns)
    except np.linalg.LinAlgError:
        m.skip("singular")
        return
    except ValueError:
        # repetitive causal discovery can end in a longer cycle on a small resample; its effects are then refused
        if name not in ("rcd", "mgrcd") or not log:
            raise
        ref = sp.make().fit(log[-1])
        if all(oracle.is_acyclic(np.nan_to_num(np.asarray(b, float))) for b in (ref.adjacency_matrices_ if multi else [ref.adjacency_matrix_])):
            raise
        m.skip("cyclic-replicate")
        return
    results = res if isinstance(res, (list, tuple)) else [res]
    m.check("result-size", len(results) == (len(Xs) if name in ("multi", "mgrcd") else 1), tag=name)
    ams = [np.asarray(r.adjacency_matrices_, float) for r in results]
    tes = [np.asarray(r.total_effects_, float) for r in results]
    m.check("result-size", all(len(a) == ns for a in ams) and all(len(t) == ns for t in tes), tag=name, ns=ns)
    if name in MIXIN:
        idx = results[0].resampled_indices_
        ok = idx is not None and len(idx) == ns
        if m.check("indices-reported", ok, tag=name):
            fits = [[Xs[0][np.asarray(ix)]] for ix in idx]
            if log:
                m.check("indices-reproduce", len(log) >= ns and all(close(np.asarray(a, float), f[0]) for a, f in zip(log[-ns:], fits)), tag=name + "-as-fitted")
        else:
            fits = None
    elif name in ("var", "varma"):
        fits = [[np.asarray(a, float)] for a in log[-ns:]] if len(log) >= ns else None
    else:
        fits = [[np.asarray(x, float) for x in a] if multi else [np.asarray(a, float)] for a in log[-ns:]] if len(log) >= ns else None
    if fits is None:
        if 0 < len(log) < ns:
            m.check("one-fit-per-replicate", False, tag=name, fits=len(log), ns=ns)
        m.skip("resample-not-observed")
        return

    # -- conservation of rows ------------------------------------------------
    if name in ("var", "varma"):
        residual_bootstrap(m, name, sp, Xs[0], [f[0] for f in fits])
    else:
        n_ok = True
        for g, X in enumerate(Xs):
            draws = []
            for f in fits:
                ix = row_index(X, f[g])
                n_ok &= m.check("rows-conserved", len(f[g]) == len(X) and (ix >= 0).all(), tag=name, n=len(X), got=len(f[g]), foreign=int((ix < 0).sum()))
                draws.append(ix)
            if n_ok:
                draws_look_random(m, f"{name}", draws, len(X), X)
        if n_ok and multi:
            for f in fits:
                ix = [row_index(X, f[g]) for g, X in enumerate(Xs)]
                for a in range(1, len(Xs)):
                    if name == "longitudinal":  # a row is one subject at all time points
                        m.check("rows-conserved", np.array_equal(ix[0], ix[a]), tag=name + "-subjects")
                    else:
                        k = min(len(ix[0]), len(ix[a]))
                        hit = int((ix[0][:k] == ix[a][:k]).sum())
                        m.check("independent-draws", stats.binom.sf(hit - 1, k, 1.0 / k) > 1e-9, tag=name + "-groups", hit=hit)

    # -- every replicate is the fit of its resample ---------------------------
    for i, f in enumerate(fits):
        ref = sp.make()
        if name in ("var", "varma"):
            ref = make_ref(name, sp)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                ref.fit(f if multi else f[0])
        except np.linalg.LinAlgError:
            m.skip("singular")
            continue
        if name in ("multi", "mgrcd"):
            want = [np.asarray(a, float) for a in ref.adjacency_matrices_]
        elif name == "var":
            want = [np.concatenate(list(ref.adjacency_matrices_), axis=1)]
        elif name == "varma":
            want = [np.concatenate([*ref.adjacency_matrices_[0], *ref.adjacency_matrices_[1]], axis=1)]
        elif name == "longitudinal":
            want = [np.asarray(ref.adjacency_matrices_, float)]
        else:
            want = [np.asarray(ref.adjacency_matrix_, float)]
        tol = dict(rtol=1e-5, atol=1e-6) if name == "varma" else {}
        for g, w in enumerate(want):
            m.check("replicate-graph", close(ams[g][i], w, **tol), tag=name, i=i, got=ams[g][i], want=w)
            if name in MIXIN:
                m.check("indices-reproduce", close(ams[g][i], w), tag=name, i=i)
            t = expected_effects(name, sp, ref, w, g, d, len(Xs))
            m.check("replicate-effects", close(tes[g][i], t, rtol=1e-6, atol=1e-8), tag=name, i=i, got=tes[g][i], want=t, am=ams[g][i])
        m.state(name, f[0][:3], want[0])
    if name in ("var", "varma"):  # with supplied lag coefficients and no instantaneous effect nothing else varies
        ams = [a[..., :d] for a in ams]
    if ns > 2 and all(len(np.unique(a.reshape(ns, -1), axis=0)) == 1 and np.any(np.nan_to_num(a) != 0) for a in ams) and name != "resit":
        m.check("independent-draws", False, tag=name + "-identical-graphs")


def expected_effects(name, sp, ref, B, g, d, T):
    if name in MIXIN or name == "multi":
        t = oracle.total_effects(B)
        return t
    if name == "bottomup":
        flat, pos = [], {}
        for k, b in enumerate(ref.causal_order_):
            for v in b if hasattr(b, "__iter__") else [b]:
                pos[int(v)] = k
        T_ = oracle.total_effects(B)
        out = np.zeros((d, d))
        for to in range(d):
            for fr in range(d):
                if pos[fr] < pos[to]:
                    out[to, fr] = np.nan if np.isnan(B[fr]).any() else T_[to, fr]
        return out
    if name in ("rcd", "mgrcd"):
        out = np.zeros((d, d))
        T_ = oracle.total_effects(B) if oracle.is_acyclic(np.nan_to_num(B)) else None
        for to, anc in enumerate(ref.ancestors_list_):
            for fr in anc:
                if np.isnan(B[fr]).any():
                    out[to, fr] = np.nan
                elif T_ is not None and not np.isnan(B).any():
                    out[to, fr] = T_[to, fr]
                else:
                    e = ref.estimate_total_effect2(fr, to)
                    out[to, fr] = e[g] if name == "mgrcd" else e
        return out
    if name in ("var", "varma"):
        psi = np.asarray(ref.adjacency_matrices_[0] if name == "varma" else ref.adjacency_matrices_, float)
        K = len(psi)
        A = np.zeros((K * d, K * d))
        for i in range(K):
            for k in range(K - i):
                A[i * d : (i + 1) * d, (i + k) * d : (i + k + 1) * d] = psi[k]
        return oracle.total_effects(A)[:d]
    if name == "longitudinal":
        L = sp.lags
        A = np.zeros((T * d, T * d))
        for t in range(L, T):
            for k in range(L + 1):
                if t - k >= 0:
                    A[t * d : (t + 1) * d, (t - k) * d : (t - k + 1) * d] = B[t, k]
        E = oracle.total_effects(A)
        s = max(1, L)
        E[:, : s * d] = 0  # effects are reported from the first modelled time point on
        return E
    raise KeyError(name)


def make_ref(name, sp):
    kw = dict(sp.kw)
    kw["criterion"] = None
    if name == "varma":
        return lingam.VARMALiNGAM(max_iter=20, random_state=sp.opt, **kw)
    if kw.get("lingam_model") == "ica":
        kw["lingam_model"] = lingam.ICALiNGAM(random_state=1, max_iter=60)
    return lingam.VARLiNGAM(**kw)


def residual_bootstrap(m, name, sp, X, series):
    """each resampled series follows the reduced form fitted to X, driven by rows of its residuals"""
    n, d = X.shape
    kw = sp.kw
    if name == "var":
        q, Ma = 0, []
        if "ar_coefs" in kw:
            Ar = kw["ar_coefs"]
        else:
            from statsmodels.tsa.vector_ar.var_model import VAR

            Ar = VAR(X).fit(kw.get("lags", 1), trend="n").coefs
        p = len(Ar)
        res = np.array([X[t] - sum(Ar[k] @ X[t - k - 1] for k in range(p)) for t in range(p, n)])
    else:
        if "ar_coefs" in kw:
            Ar, Ma = kw["ar_coefs"], kw["ma_coefs"]
            res = None
        else:
            from statsmodels.tsa.statespace.varmax import VARMAX

            r = VARMAX(X, order=kw["order"], trend="c").fit(maxiter=20, disp=False)
            Ar = r.coefficient_matrices_var if kw["order"][0] else []
            Ma = r.coefficient_matrices_vma if kw["order"][1] else []
            res = np.asarray(r.resid)
        p, q = len(Ar), len(Ma)
        if res is None:
            ref = make_ref(name, sp)
            ref.fit(X)
            res = np.asarray(ref.residuals_)
    s = max(p, q)
    scale = np.abs(res).max() + 1e-300
    tol = (1e-6 if name == "var" else 1e-4) * scale
    draws = []
    for S in series:
        m.check("rows-conserved", S.shape == X.shape, tag=name + "-length", got=S.shape, want=X.shape)
        if S.shape != X.shape:
            return
        eps = np.zeros_like(S)
        for t in range(len(S)):
            e = S[t].copy()
            if t >= s:
                for k in range(p):
                    e -= Ar[k] @ S[t - k - 1]
                for k in range(q):
                    e -= Ma[k] @ eps[t - k - 1]
            eps[t] = e
        D = np.abs(eps[:, None, :] - res[None, :, :]).max(2)
        j = D.argmin(1)
        bad = D[np.arange(len(S)), j] > tol * (1 if name == "var" else 1 + np.arange(len(S)))
        m.check("rows-conserved", not bad.any(), tag=name, foreign=int(bad.sum()), worst=float(D.min(1).max() / scale))
        draws.append(j)
    if len(series) > 1:
        for a in range(len(draws)):
            for b in range(a):
                m.check("independent-draws", not np.array_equal(draws[a], draws[b]), tag=name)
    pooled = np.concatenate(draws)
    k = len(res)
    cut = k // 2
    for v in (int((pooled < cut).sum()), int((pooled >= k - cut).sum())):
        p_ = stats.binom.cdf(v, len(pooled), cut / k), stats.binom.sf(v - 1, len(pooled), cut / k)
        m.check("uniform-draws", min(p_) > 1e-12, tag=name)


for _k in N:
    globals()["case_" + _k] = run
