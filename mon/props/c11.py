"""C11: path queries list every directed path once, with its exact effect."""
import numpy as np
import lingam
from lingam.longitudinal_lingam import LongitudinalBootstrapResult
from lingam.utils import find_all_paths
from lingam.var_lingam import VARBootstrapResult
from lingam.varma_lingam import VARMABootstrapResult

from mon import gen, oracle

RULE = (
    "random DAGs (incl. dense, long chains, undefined entries, weights at the threshold), cyclic graphs, and collections of replicates in "
    "cross-sectional, lagged, ARMA and longitudinal layout; every listed path is compared with a recursive enumeration; "
    "non-trivial: a query with at least one path or a cycle; distinct by (graph, pair, threshold)"
)
REQUIRED = {"paths-exact": 2500, "path-effects": 2500, "cycle-refused": 150, "acyclic-accepted": 2500, "path-probability": 1200, "path-median": 1200}


def cases(seed, tier):
    def g(i, r):
        return {"d": int(r.choice([2, 3, 4, 5, 6, 8, 12])), "dens": float(r.choice([0.2, 0.5, 0.9])), "nan": i % 5 == 1}

    def b(i, r):
        return {"d": int(r.choice([2, 3, 4, 5] if i % 4 else [11, 13, 23])), "ns": int(r.choice([1, 2, 5, 12, 12, 40])), "lags": int(r.choice([1, 2, 3] if i % 6 else [4, 5])), "T": int(r.choice([2, 3, 4, 5] if i % 8 else [6, 7])), "grid": i % 2 == 0}

    return gen.spread(seed, tier, [("graph", 2000, 12000, g), ("cyclic", 1200, 8000, g), ("flat", 600, 4000, b), ("many", 24, 150, b), ("replicates", 20, 120, b), ("var", 400, 2500, b), ("varma", 300, 2000, b), ("longitudinal", 400, 2500, b)])


def some_dag(rng, d, dens, grid=False):
    B, order = gen.dag(rng, d, dens, 0.2, 1.5)
    if grid:
        B = np.sign(B) * np.round(np.abs(B) * 2) / 2
    if rng.rand() < 0.2:
        B = B * 10.0 ** rng.uniform(-2, 2, (d, d))
    return B


def compare(m, got, want, tag, **kw):
    """got: (paths, effects) ; want: [(path, effect)]"""
    gp = [tuple(int(v) for v in p) for p in got[0]]
    ok = len(gp) == len(set(gp)) and set(gp) == {p for p, _ in want}
    m.check("paths-exact", ok, tag=tag, got=gp[:50], want=[p for p, _ in want][:50], **kw)
    w = dict(want)
    m.check("path-effects", len(got[1]) == len(gp) and all(np.isclose(w.get(p, np.nan), e, rtol=1e-9, atol=0) for p, e in zip(gp, got[1])), tag=tag, got=list(got[1])[:20], **kw)


def case_graph(m, rng, c):
    d = c["d"]
    dens = c["dens"] if d < 12 else 0.35
    B = some_dag(rng, d, dens, rng.rand() < 0.4)
    if rng.rand() < 0.25:
        o = rng.permutation(d)
        for a, b in zip(o, o[1:]):
            B[:] = 0 if a == o[0] else B
            B[b, a] = rng.uniform(0.3, 2) * rng.choice([-1, 1])
    if c["nan"]:
        B = np.where(rng.rand(d, d) < 0.15, np.nan, B)
    thrs = [0.0, 0.3, 0.5, 1.0] + [float(abs(x)) for x in np.nan_to_num(B).ravel()[:2] if x]
    for _ in range(6):
        a, b = rng.choice(d, 2, replace=False)
        thr = thrs[rng.randint(len(thrs))] if rng.rand() < 0.5 else 0.0
        want = oracle.all_paths(B, int(a), int(b), thr)
        m.check("acyclic-accepted", True)
        got = find_all_paths(B.copy(), int(a), int(b), thr) if thr or rng.rand() < 0.5 else find_all_paths(B.copy(), a, b)
        compare(m, got, want, "graph", B=B, a=int(a), b=int(b), thr=thr)
        if want:
            m.state(B, a, b, thr)


def case_cyclic(m, rng, c):
    d = max(3, c["d"])
    B = rng.normal(size=(d, d)) * (rng.rand(d, d) < min(c["dens"], 2.0 / d))
    np.fill_diagonal(B, 0)
    if rng.rand() < 0.2:
        B[0, 0] = 0.5  # a loop
    for _ in range(4):
        a, b = (int(v) for v in rng.choice(d, 2, replace=False))
        thr = float(rng.choice([0.0, 0.4]))
        E = np.abs(B) > thr
        # vertices reachable from a without passing b
        reach, todo = {a}, [a]
        while todo:
            v = todo.pop()
            for w in np.flatnonzero(E[:, v]):
                if w not in reach and w != b:
                    reach.add(int(w))
                    todo.append(int(w))
        R = sorted(reach)
        cyc = not oracle.is_acyclic(E[np.ix_(R, R)])
        if cyc:
            m.raises("cycle-refused", ValueError, lambda: find_all_paths(B.copy(), a, b, thr), tag="graph", B=B, a=a, b=b, thr=thr)
        else:
            compare(m, find_all_paths(B.copy(), a, b, thr), oracle.all_paths(B, a, b, thr), "cyclic-elsewhere", B=B, a=a, b=b, thr=thr)
        m.state(B, a, b, thr)


def summary(m, out, reps, tag, **kw):
    """reps: one dict path->effect per replicate"""
    ns = len(reps)
    want = {}
    for r in reps:
        for p, e in r:
            want.setdefault(p, []).append(e)
    got = [tuple(int(v) for v in p) for p in out["path"]]
    m.check("paths-exact", len(got) == len(set(got)) and set(got) == set(want), tag=tag, got=got[:40], want=sorted(want)[:40], **kw)
    pr = out["probability"]
    m.check("path-probability", len(pr) == len(got) and all(abs(len(want.get(p, [])) / ns - q) < 1e-12 for p, q in zip(got, pr)) and all(x >= y for x, y in zip(pr, pr[1:])), tag=tag, got=list(zip(got, pr))[:30], **kw)
    m.check("path-median", len(out["effect"]) == len(got) and all(np.isclose(np.median(want.get(p, [np.nan])), e, rtol=1e-9, atol=0) for p, e in zip(got, out["effect"])), tag=tag, got=list(out["effect"])[:30], **kw)
    m.check("acyclic-accepted", True)
    if want:
        m.state(tag, sorted(want), ns)


THR = [None, 0.5, 0.3, 1.0]


def dags(rng, c, d, k):
    base = some_dag(rng, d, 0.6 if d < 8 else 0.3 if d < 15 else 0.12, c["grid"])
    if d > 8 and rng.rand() < 0.5:  # a long chain, and labels that begin alike (1, 10, 11, ...)
        base = some_dag(rng, d, 0.1, c["grid"])
        o = [int(v) for v in rng.permutation(d)]
        if rng.rand() < 0.6:
            o.remove(1)
            o.append(1)
        k = int(rng.randint(6, d))
        base[:] = 0
        for a, b in zip(o[-k:], o[-k + 1 :]):
            base[b, a] = rng.choice([-1.0, 0.5, 1.5])
            if o[-1] == 1 and rng.rand() < 0.5:
                base[1, a] = 0.5
    out = []
    for _ in range(k):
        B = base * (rng.rand(d, d) < 0.85) * (1 if c["grid"] else rng.uniform(0.7, 1.3, (d, d)))
        if rng.rand() < 0.3:
            B = some_dag(rng, d, 0.5 if d < 8 else 0.25 if d < 15 else 0.1, c["grid"])  # another order altogether
        if rng.rand() < 0.15:
            i, j = rng.choice(d, 2, replace=False)
            B[i, j] = B[j, i] = np.nan
        out.append(B)
    return out


def case_flat(m, rng, c):
    d, ns = c["d"], c["ns"]
    ams = np.array(dags(rng, c, d, ns))
    r = lingam.BootstrapResult(ams.copy(), np.zeros((ns, d, d)))
    for k in range(4 if d < 8 else 8):
        a, b = (int(v) for v in rng.choice(d, 2, replace=False))
        if d > 8 and k % 2 and a != 1:
            b = 1
        thr = THR[rng.randint(4)]
        summary(m, r.get_paths(a, b, min_causal_effect=thr), [oracle.all_paths(A, a, b, thr or 0.0) for A in ams], "flat", a=a, b=b, thr=thr, ams=ams)


def case_many(m, rng, c):
    """hundreds to thousands of paths in one graph"""
    d = int(rng.choice([11, 12, 13]))
    B, order = gen.dag(rng, d, 1.0, 0.3, 1.4)
    if rng.rand() < 0.5:
        B = np.where(rng.rand(d, d) < 0.93, B, 0)
    a, b = int(order[0]), int(order[-1])
    want = oracle.all_paths(B, a, b, 0.0)
    compare(m, find_all_paths(B.copy(), a, b), want, "many", d=d)
    ams = np.array([B, B * rng.uniform(0.5, 1.5, (d, d))])
    summary(m, lingam.BootstrapResult(ams.copy(), np.zeros((2, d, d))).get_paths(a, b), [oracle.all_paths(A, a, b, 0.0) for A in ams], "many")


def case_replicates(m, rng, c):
    """many replicates"""
    d, ns = int(rng.choice([3, 4, 5])), int(rng.choice([300, 1200]))
    ams = np.array(dags(rng, c, d, ns))
    a, b = (int(v) for v in rng.choice(d, 2, replace=False))
    summary(m, lingam.BootstrapResult(ams.copy(), np.zeros((ns, d, d))).get_paths(a, b), [oracle.all_paths(A, a, b, 0.0) for A in ams], "replicates")


def lagged(rng, c, d, L):
    B0 = dags(rng, c, d, 1)[0]
    Bs = [B0]
    for _ in range(L):
        W = rng.uniform(-1, 1, (d, d)) * (rng.rand(d, d) < 0.35)
        Bs.append(np.round(W * 2) / 2 if c["grid"] else W)
    return Bs


def unroll(Bs, d, K):
    A = np.zeros((K * d, K * d))
    for i in range(K):
        for k in range(len(Bs)):
            if i + k < K:
                A[i * d : (i + 1) * d, (i + k) * d : (i + k + 1) * d] = np.nan_to_num(Bs[k])
    return A


def lag_pairs(rng, d, L):
    fl = int(rng.randint(L + 1))
    tl = int(rng.randint(fl + 1))
    a, b = int(rng.randint(d)), int(rng.randint(d))
    if fl == tl and a == b:
        b = (a + 1) % d
    return a, b, fl, tl


def case_var(m, rng, c, ma=False):
    d, ns, L = min(c["d"], 3), c["ns"], c["lags"] - (1 if ma else 0)
    if L >= 3:
        d, ns = 2, min(ns, 5)
    q = int(rng.randint(3)) if ma else 0
    reps = [lagged(rng, c, d, L) for _ in range(ns)]
    omegas = [[rng.normal(size=(d, d)) for _ in range(q)] for _ in range(ns)]
    ams = [np.concatenate(Bs + om, axis=1) for Bs, om in zip(reps, omegas)]
    te = np.zeros((ns, d, d * (1 + L)))
    r = VARMABootstrapResult([a.copy() for a in ams], te, (L, q)) if ma else VARBootstrapResult([a.copy() for a in ams], te)
    for _ in range(4):
        a, b, fl, tl = lag_pairs(rng, d, L)
        thr = THR[rng.randint(4)]
        want = [oracle.all_paths(unroll(Bs, d, L + 1), d * fl + a, d * tl + b, thr or 0.0) for Bs in reps]
        summary(m, r.get_paths(a, b, from_lag=fl, to_lag=tl, min_causal_effect=thr), want, "varma" if ma else "var", q=[a, b, fl, tl], thr=thr)
    m.raises("bad-lags-refused", ValueError, lambda: r.get_paths(0, 1, from_lag=0, to_lag=1), tag="lag")
    m.raises("bad-lags-refused", ValueError, lambda: r.get_paths(0, 0, from_lag=0, to_lag=0), tag="same")


def case_varma(m, rng, c):
    case_var(m, rng, c, ma=True)


def case_longitudinal(m, rng, c):
    d, ns, L, T = min(c["d"], 3), c["ns"], min(c["lags"], c["T"] - 1), c["T"]
    if T > 5:
        d, ns, L = 2, min(ns, 5), min(L, 2)
    A = np.full((ns, T, 1 + L, d, d), np.nan)
    for s in range(ns):
        for t in range(L, T):
            Bs = lagged(rng, c, d, L)
            for k in range(1 + L):
                A[s, t, k] = Bs[k]
    r = LongitudinalBootstrapResult(T, A.copy(), np.zeros((ns, T * d, T * d)))
    for _ in range(4):
        ft = int(rng.randint(T))
        tt = int(rng.randint(ft, T))
        a, b = int(rng.randint(d)), int(rng.randint(d))
        if ft == tt and a == b:
            b = (a + 1) % d
        thr = THR[rng.randint(4)]
        K = tt - ft + 1
        want = []
        for s in range(ns):
            M = np.zeros((K * d, K * d))
            for i in range(K):
                for k in range(1 + L):
                    if i - k >= 0:
                        M[i * d : (i + 1) * d, (i - k) * d : (i - k + 1) * d] = np.nan_to_num(A[s, ft + i, k])
            want.append(oracle.all_paths(M, a, (K - 1) * d + b, thr or 0.0))
        summary(m, r.get_paths(a, b, ft, tt, min_causal_effect=thr), want, "longitudinal", q=[a, b, ft, tt], thr=thr)
    m.raises("bad-lags-refused", ValueError, lambda: r.get_paths(0, 1, 1, 0), tag="time")
    m.raises("bad-lags-refused", ValueError, lambda: r.get_paths(0, 0, 1, 1), tag="same")
