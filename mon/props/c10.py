"""C10: bootstrap summaries are exact tallies of the stored replicates."""
import contextlib
import io

import numpy as np
import lingam
from lingam.longitudinal_lingam import LongitudinalBootstrapResult
from lingam.var_lingam import VARBootstrapResult
from lingam.varma_lingam import VARMABootstrapResult

from mon import gen

RULE = (
    "replicate collections (random weights from small grids so that ties, thresholds met exactly, sign flips, undefined entries, empty "
    "graphs and repeated graphs are common; also real bootstraps) in cross-sectional, lagged and longitudinal layout, each summarised "
    "under random thresholds/truncations and recounted by brute force; non-trivial: a summary with at least one edge; distinct by (layout, replicates, query)"
)
REQUIRED = {"direction-counts": 1500, "graph-counts": 1500, "probabilities": 800, "total-effects": 800, "sorted-and-truncated": 3000}


def cases(seed, tier):
    def std(i, r):
        return {"d": int(r.choice([1, 2, 3, 4, 6, 11]) if i % 9 else 13), "ns": int(r.choice([1, 2, 3, 7, 20, 60])) if i % 13 else 300 if i % 39 else 1600, "nan": i % 4 == 1, "weights": ["grid", "real", "tiny", "sparse"][i // 2 % 4], "lags": int(r.choice([1, 2, 3])), "T": int(r.choice([2, 3, 4]))}

    return gen.spread(seed, tier, [("flat", 300, 3000, std), ("var", 120, 1200, std), ("varma", 90, 900, std), ("longitudinal", 120, 1200, std), ("fitted", 24, 150, std)])


def weights(rng, c, shape):
    k = c["weights"]
    if k == "grid":
        W = rng.choice([0.0, 0.0, 0.1, -0.1, 0.25, -0.25, 0.5, 1.0, -1.0], size=shape)
    elif k == "tiny":
        W = rng.choice([0.0, 1e-12, -1e-12, 1e-3, -0.3, 1e6], size=shape)
    elif k == "sparse":
        W = rng.choice([0.0] * 12 + [0.7, -0.7], size=shape)
    else:
        W = rng.normal(size=shape) * (rng.rand(*shape) < 0.5)
    if c["nan"]:
        W = np.where(rng.rand(*shape) < 0.12, np.nan, W)
    if c["nan"] is False and rng.rand() < 0.3:  # few distinct graphs, each repeated
        W = W[rng.randint(min(2, len(W)), size=len(W))]
    return W


THR = [None, 0.05, 0.1, 0.25, 0.5, 2.0, 1e-13]


def brute_dirs(ams, thr, split):
    out = {}
    for A in ams:
        for i in range(A.shape[0]):
            for j in range(A.shape[1]):
                if abs(A[i, j]) > thr:  # False for undefined entries
                    k = (j, i) + ((1 if A[i, j] > 0 else -1,) if split else ())
                    out[k] = out.get(k, 0) + 1
    return out


def brute_dags(ams, thr, split):
    out = {}
    for A in ams:
        k = frozenset((j, i) + ((1 if A[i, j] > 0 else -1,) if split else ()) for i in range(A.shape[0]) for j in range(A.shape[1]) if abs(A[i, j]) > thr)
        out[k] = out.get(k, 0) + 1
    return out


def keys_of(d, split):
    cols = [d["from"], d["to"]] + ([d["sign"]] if split else [])
    return [tuple(int(x) for x in k) for k in zip(*cols)]


def tally(m, ams, cdc, dagc, thr, split, kd, kg, tag, ns):
    want = brute_dirs(ams, thr, split)
    got = keys_of(cdc, split)
    ok = len(set(got)) == len(got) == len(cdc["count"]) == len(cdc["from"]) and all(want.get(k) == c for k, c in zip(got, cdc["count"]))
    ok = ok and len(got) == (len(want) if kd is None else min(kd, len(want)))
    m.check("direction-counts", ok, tag=tag, got=cdc, want=sorted(want.items()), thr=thr, split=split, k=kd)
    m.check("sorted-and-truncated", list(cdc["count"]) == sorted(want.values(), reverse=True)[: kd if kd is not None else None] and all(c <= ns for c in cdc["count"]), tag=tag + "-directions", got=cdc["count"])
    want = brute_dags(ams, thr, split)
    got = []
    ok = len(dagc["dag"]) == len(dagc["count"])
    for g in dagc["dag"]:
        k = keys_of(g, split)
        ok = ok and len(k) == len(set(k)) == len(g["from"])
        got.append(frozenset(k))
    ok = ok and len(set(got)) == len(got) and all(want.get(k) == c for k, c in zip(got, dagc["count"])) and len(got) == (len(want) if kg is None else min(kg, len(want)))
    m.check("graph-counts", ok, tag=tag, got=dagc, want=[(sorted(k), v) for k, v in want.items()], thr=thr, split=split, k=kg)
    m.check("sorted-and-truncated", list(dagc["count"]) == sorted(want.values(), reverse=True)[: kg if kg is not None else None] and (kg is not None or sum(dagc["count"]) == ns), tag=tag + "-graphs", got=dagc["count"])


def effects(m, te, out, thr, tag):
    te = np.asarray(te, float)
    ns = len(te)
    want = {}
    for i in range(te.shape[1]):
        for j in range(te.shape[2]):
            col = te[:, i, j]
            p = sum(1 for v in col if abs(v) > thr)
            if p:
                nz = sorted(v for v in col if abs(v) > 0)
                k = len(nz)
                want[(j, i)] = (p / ns, nz[k // 2] if k % 2 else 0.5 * (nz[k // 2 - 1] + nz[k // 2]))
    got = list(zip(out["from"], out["to"]))
    ok = len(set(got)) == len(got) == len(want) == len(out["effect"]) == len(out["probability"])
    ok = ok and all(k in want and abs(want[k][0] - p) < 1e-12 and np.isclose(want[k][1], e, rtol=1e-12, atol=0) for k, e, p in zip(got, out["effect"], out["probability"]))
    m.check("total-effects", ok, tag=tag, got=out, want=sorted(want.items()), thr=thr)
    m.check("sorted-and-truncated", all(a >= b for a, b in zip(out["probability"], out["probability"][1:])), tag=tag + "-effects")


def queries(m, rng, r, ams, te, tag):
    """ams: what was stored, as float arrays of 2-d matrices"""
    ns = len(ams)
    for _ in range(3):
        thr = THR[rng.randint(len(THR))]
        t = 0.0 if thr is None else thr
        split = bool(rng.rand() < 0.4)
        kd = [None, 1, 2, 5, 100][rng.randint(5)]
        kg = [None, 1, 3, 100][rng.randint(4)]
        cdc = r.get_causal_direction_counts(n_directions=kd, min_causal_effect=thr, split_by_causal_effect_sign=split)
        dagc = r.get_directed_acyclic_graph_counts(n_dags=kg, min_causal_effect=thr, split_by_causal_effect_sign=split)
        tally(m, ams, cdc, dagc, t, split, kd, kg, tag, ns)
        p = r.get_probabilities(min_causal_effect=thr)
        want = sum((np.abs(np.nan_to_num(A)) > t).astype(float) for A in ams) / ns
        if isinstance(p, list):
            m.check("probabilities", len(p) == want.shape[1] // want.shape[0] and all(np.shape(x) == (want.shape[0],) * 2 for x in p), tag=tag + "-blocks")
            p = np.concatenate(p, axis=1)
        m.close("probabilities", p, want, rtol=1e-12, atol=1e-12, tag=tag, thr=thr)
        effects(m, te, r.get_total_causal_effects(min_causal_effect=thr), t, tag)
        if cdc["from"]:
            m.state(tag, np.array(ams[0]), ns, thr, split, kd, kg)


def case_flat(m, rng, c):
    d, ns = c["d"], c["ns"]
    ams, te = weights(rng, c, (ns, d, d)), weights(rng, c, (ns, d, d))
    r = lingam.BootstrapResult(ams.copy(), te.copy())
    queries(m, rng, r, list(ams), te, "flat")


def case_var(m, rng, c):
    d, ns, L = min(c["d"], 6), c["ns"], c["lags"]
    ams, te = weights(rng, c, (ns, d, d * (1 + L))), weights(rng, c, (ns, d, d * (1 + L)))
    r = VARBootstrapResult([a.copy() for a in ams], te.copy())
    queries(m, rng, r, list(ams), te, "var")


def case_varma(m, rng, c):
    d, ns, p, q = min(c["d"], 4), c["ns"], c["lags"] - 1, int(rng.randint(3))
    if p + q == 0:
        q = 1
    ams, te = weights(rng, c, (ns, d, d * (1 + p + q))), weights(rng, c, (ns, d, d * (1 + p)))
    r = VARMABootstrapResult([a.copy() for a in ams], te.copy(), (p, q))
    queries(m, rng, r, list(ams), te, "varma")


def longi(m, rng, r, A, te, tag):
    """A: (ns, T, 1 + lags, d, d)"""
    ns, T = A.shape[:2]
    for _ in range(3):
        thr = THR[rng.randint(len(THR))]
        t0 = 0.0 if thr is None else thr
        split = bool(rng.rand() < 0.4)
        kd = [None, 1, 2, 5][rng.randint(4)]
        kg = [None, 1, 3][rng.randint(3)]
        cdc = r.get_causal_direction_counts(n_directions=kd, min_causal_effect=thr, split_by_causal_effect_sign=split)
        dagc = r.get_directed_acyclic_graph_counts(n_dags=kg, min_causal_effect=thr, split_by_causal_effect_sign=split)
        m.check("direction-counts", len(cdc) == T and len(dagc) == T, tag=tag + "-times")
        for t in range(T):
            ams = [np.concatenate(list(a[t]), axis=1) for a in A]
            tally(m, ams, cdc[t], dagc[t], t0, split, kd, kg, tag, ns)
        want = (np.abs(np.nan_to_num(A)) > t0).mean(0)
        m.close("probabilities", r.get_probabilities(min_causal_effect=thr), want, rtol=1e-12, atol=1e-12, tag=tag)
        effects(m, te, r.get_total_causal_effects(min_causal_effect=thr), t0, tag)
        m.state(tag, A[0], ns, thr, split)


def case_longitudinal(m, rng, c):
    d, ns, L, T = min(c["d"], 4), c["ns"], c["lags"], c["T"]
    A = weights(rng, c, (ns, T, 1 + L, d, d))
    A[:, : min(L, T - 1)] = np.nan
    te = weights(rng, c, (ns, T * d, T * d))
    longi(m, rng, LongitudinalBootstrapResult(T, A.copy(), te.copy()), A, te, "longitudinal")


def case_fitted(m, rng, c):
    from mon.props.c08 import SPECS

    name = ["direct", "bottomup", "var", "multi", "longitudinal", "rcd"][rng.randint(6)]
    sp = SPECS[name](rng, int(rng.randint(100)), d=int(rng.choice([2, 3, 4])), n=int(rng.choice([60, 120])))
    (data,) = sp.data(rng)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            res = sp.make().bootstrap(data, 4)
        except np.linalg.LinAlgError:
            m.skip("singular")
            return
    for r in res if isinstance(res, list) else [res]:
        A, te = np.array(r.adjacency_matrices_, float), np.array(r.total_effects_, float)
        if name == "longitudinal":
            longi(m, rng, r, A, te, "fitted-" + name)
        else:
            queries(m, rng, r, list(A), te, "fitted-" + name)
