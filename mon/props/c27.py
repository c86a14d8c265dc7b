"""C27: latent-factor estimation returns consistent measurement and structural parts."""
import contextlib
import io

import numpy as np
import lingam
from psy import cfa
from scipy.linalg import block_diag
from scipy.optimize import minimize

from mon import gen, oracle

RULE = (
    "factor models of 2-5 latent factors with 2-5 indicators each, random loadings, signs, scales and acyclic structures, one and two domains; loadings are compared with the given measurement structure and with an "
    "independent run of the confirmatory analysis, structural weights with separate penalised regressions of the recovered factors, with relabelled and sign-flipped problems and with the true model; "
    "refits and reseeded refits must be identical; distinct by (data, structure)"
)
REQUIRED = {"own-factor-only": 150, "loadings": 100, "structure-well-formed": 150, "acyclic": 150, "threshold": 150, "weights-fit-factors": 40, "sign-flip": 8, "relabel-factors": 8, "relabel-indicators": 8,
            "same-after-other-fit": 20, "known-structure": 5, "domains-well-formed": 6, "domains-reproducible": 2}
SLOW_FIRST = ["domains"]


def cases(seed, tier):
    def f(i, r):
        return {"n": int(r.choice([200, 400, 1000])), "q": int(r.choice([2, 3, 4, 5])), "k": int(r.choice([2, 3, 4])), "density": float(r.choice([0.0, 0.5, 1.0])), "nz": 0.25}

    return gen.spread(seed, tier, [
        ("domains", 6, 60, lambda i, r: {"n": int(r.choice([200, 400])), "q": 3 if i % 3 else 2, "k": 2, "density": 0.7, "nz": 0.25, "again": i % 3 == 0}),
        ("single", 20, 200, lambda i, r: dict(f(i, r), reps=6)), ("known", 8, 70, lambda i, r: {"n": 1500, "q": [2, 3][i % 2], "k": 4, "density": [1.0, 0.6][i % 3 == 0], "nz": 0.25, "reps": 5}),
        ("l2", 30, 300, f), ("refit", 30, 300, f), ("fine", 16, 200, lambda i, r: dict(f(i, r), q=int(r.choice([2, 3])), k=3, density=1.0, n=400)), ("hard", 30, 400, lambda i, r: dict(f(i, r), nz=float(r.choice([0.1, 0.15, 0.5, 1.0])), n=int(r.choice([60, 200])))),
    ])


def make(rng, c, B=None, order=None, shuffled=None):
    """x = G f + e; returns X, sign pattern, scales, B[effect, cause]"""
    n, q, k, nz = c["n"], c["q"], c["k"], c["nz"]
    if B is None:
        B, order = gen.dag(rng, q, c["density"], 0.7, 1.5)
    f = np.zeros((n, q))
    for i in order:
        f[:, i] = f @ B[i] + gen.noise(rng, "laplace", n)
    scale = f.std(0)
    own = np.repeat(np.arange(q), k)
    if (rng.rand() < 0.5 if shuffled is None else shuffled):  # indicators need not be listed factor by factor
        own = own[rng.permutation(q * k)]
    g = rng.choice([-1, 1], q * k) * rng.uniform(0.45, 0.75, q * k)
    s = np.sqrt(g**2 + nz**2)
    G = np.zeros((q * k, q))
    G[np.arange(q * k), own] = g / s
    X = (f / scale) @ G.T + nz * rng.uniform(-np.sqrt(3), np.sqrt(3), (n, q * k)) / s
    return X, np.sign(G), scale[None, :], B, order


def fit(X, G, scale, model=None, cls=None, **kw):
    model = (cls or lingam.LiNA)(**kw) if model is None else model
    with contextlib.redirect_stdout(io.StringIO()):
        ret = model.fit(X.copy(), G.copy(), scale.copy())
    W, L = np.asarray(model.adjacency_matrix_, float), np.asarray(model.measurement_matrix_, float)
    return W, L, ret, model


def general(m, W, L, ret, model, G, q, thr=0.3, name="structure-well-formed"):
    m.check("attribute-is-result", ret is model or np.array_equal(np.asarray(ret), W))
    m.check("own-factor-only", L.shape == G.shape and np.isfinite(L).all() and (L[G == 0] == 0).all(), got=L)
    m.check(name, W.shape == (q, q) and np.isfinite(W).all() and (np.diag(W) == 0).all(), got=W)
    m.check("acyclic", oracle.is_acyclic(W), got=W)
    m.check("threshold", (np.abs(W[W != 0]) >= thr).all(), got=W, thr=thr)
    m.state(W, L)


def usable(m, X, G):
    """the confirmatory analysis (a third-party gradient descent) has converged to loadings in range"""
    try:
        lam, _, _ = cfa(X, G)
    except Exception:
        m.skip("cfa-failed")
        return None
    if not np.isfinite(lam).all() or np.linalg.cond(lam) > 1e8:
        m.skip("cfa-diverged")
        return None
    return lam


def judge(m, name, votes):
    """the search is a non-convex descent: a single problem may end in another optimum, most of a homogeneous group may not"""
    bad = [v for v in votes if v is not None]
    for _ in votes:
        m.count(name + "-problem")
    if len(votes) >= 4:
        m.check(name, len(bad) <= len(votes) // 3, disagreeing=len(bad), of=len(votes), example=bad[:1])


def case_single(m, rng, c):
    votes = {"sign-flip": [], "relabel-factors": [], "relabel-indicators": []}
    shuffled = bool(rng.randint(2))
    for _ in range(c["reps"]):
        one_single(m, rng, c, votes, shuffled)
    for name, v in votes.items():
        judge(m, name, v)


def one_single(m, rng, c, votes, shuffled):
    X, G, scale, B, _ = make(rng, c, shuffled=shuffled)
    q = c["q"]
    lam = usable(m, X, G)
    if lam is None:
        return
    thr = 0.3
    kw = {}
    if rng.rand() < 0.3:
        kw["w_threshold"] = thr = float(rng.choice([0.2, 0.5]))
    W, L, ret, model = fit(X, G, scale, **kw)
    general(m, W, L, ret, model, G, q, thr)
    m.close("loadings", L, lam, rtol=1e-6, atol=2e-3)
    if np.abs(lam).max() > 1.3:  # diverging descent: rounding decides
        m.skip("cfa-diverged")
        return
    # the weights regress the recovered factors on their causes
    f = np.linalg.lstsq(lam, X.T, rcond=None)[0].T * scale
    for j in range(q):
        P = np.where(W[:, j] != 0)[0]
        if len(P) == 0 or len(P) < q - 1 and (W[j] == 0).sum() - len(P) - 1 > 0:
            continue  # a dropped small weight may have competed with these

        def obj(w):
            r = f[:, j] - f[:, P] @ w
            a = np.abs(r)
            return (a + np.log1p(np.exp(-2 * a)) - np.log(2)).sum() + 0.1 * np.abs(w).sum()

        w = minimize(obj, np.linalg.lstsq(f[:, P], f[:, j], rcond=None)[0], method="BFGS").x
        m.check("weights-fit-factors", np.abs(w - W[P, j]).max() < 0.1 * (1 + np.abs(w).max()), got=W[P, j], want=w, j=j, P=P)
    # relabelled problems have relabelled answers
    near = np.abs(np.abs(W[W != 0]) - thr).min() < 0.05 if (W != 0).any() else False
    s = rng.choice([-1.0, 1.0], q)
    p = rng.permutation(q)
    r = rng.permutation(len(G))
    for name, args, back in (("sign-flip", (X, G * s, scale), lambda V: V * np.outer(s, s)), ("relabel-factors", (X, G[:, p], scale[:, p]), lambda V: V[np.ix_(np.argsort(p), np.argsort(p))]),
                             ("relabel-indicators", (X[:, r], G[r], scale), lambda V: V)):
        V = back(fit(*args, **kw)[0])
        if near:
            m.skip("near-threshold")
            continue
        same = (V != 0) == (W != 0)
        if not same.all() and np.abs(np.where(same, 0, V + W)).max() < thr + 0.05:
            m.skip("near-threshold")
            continue
        votes[name].append(None if np.abs(V - W).max() < 0.1 * (1 + np.abs(W).max()) else {"got": V, "want": W})


def case_hard(m, rng, c):
    X, G, scale, B, _ = make(rng, c)
    if usable(m, X, G) is None:
        return
    general(m, *fit(X, G, scale), G, c["q"])


def case_fine(m, rng, c):
    """small drop thresholds keep faint edges, and still no cycle"""
    X, G, scale, B, _ = make(rng, c)
    if usable(m, X, G) is None:
        return
    W, L, ret, model = fit(X, G, scale, w_threshold=0.1)
    general(m, W, L, ret, model, G, c["q"], thr=0.1)
    V = fit(X, G, scale, w_threshold=0.6)[0]
    m.check("threshold-honoured", np.array_equal(V, np.where(np.abs(W) >= 0.6, W, 0)), got=V, want=W)


def case_l2(m, rng, c):
    """the squared loss instead of the default one"""
    X, G, scale, B, _ = make(rng, c)
    q = c["q"]
    lam = usable(m, X, G)
    if lam is None:
        return
    l1 = float(rng.choice([0.02, 0.1]))
    W, L, ret, model = fit(X, G, scale, loss_type="l2", lambda1=l1)
    general(m, W, L, ret, model, G, q)
    if np.abs(lam).max() > 1.3:
        m.skip("cfa-diverged")
        return
    f = np.linalg.lstsq(lam, X.T, rcond=None)[0].T * scale
    for j in range(q):
        P = np.where(W[:, j] != 0)[0]
        if len(P) == 0 or len(P) < q - 1 and (W[j] == 0).sum() - len(P) - 1 > 0:
            continue
        # stationarity of 0.5/n RSS + l1 |w| at fixed signs
        A, b = f[:, P].T @ f[:, P] / len(f), f[:, P].T @ f[:, j] / len(f)
        w = np.linalg.solve(A, b - l1 * np.sign(W[P, j]))
        m.check("weights-fit-factors-l2", np.abs(w - W[P, j]).max() < 0.1 * (1 + np.abs(w).max()), got=W[P, j], want=w, j=j, P=P)


def case_known(m, rng, c):
    votes = []
    for _ in range(c["reps"]):
        one_known(m, rng, c, votes)
    judge(m, "known-structure", votes)


def one_known(m, rng, c, votes):
    X, G, scale, B, _ = make(rng, c)
    lam = usable(m, X, G)
    if lam is None or np.abs(lam).max() > 1.1:
        m.skip("cfa-diverged")
        return
    W, L, ret, model = fit(X, G, scale)
    general(m, W, L, ret, model, G, c["q"])
    votes.append(None if ((W != 0) == (B.T != 0)).all() and np.abs(W - B.T).max() < 0.5 else {"got": W, "want": B.T})


def case_refit(m, rng, c):
    X, G, scale, _, _ = make(rng, c)
    Y, H, scale2, _, _ = make(rng, dict(c, q=int(rng.choice([2, 3, 4])), k=3))
    if usable(m, X, G) is None or usable(m, Y, H) is None:
        return
    np.random.seed(1)
    W, L, _, _ = fit(X, G, scale)
    model = fit(Y, H, scale2)[3]
    np.random.seed(2)
    W2, L2, _, _ = fit(X, G, scale, model=model)
    m.check("same-after-other-fit", np.array_equal(W, W2) and np.array_equal(L, L2), got=W2, want=W)


def recording(f, into):
    def g(*a, **k):
        out = f(*a, **k)
        into.append(np.array(out, float))
        return out

    return g


def labelled(m, W, q, Hs, Ws):
    """the reported effects are the last estimated ones, each shared factor named after the pair of domain factors that loads on it most"""
    if not Hs or len(Hs) != len(Ws) or Hs[-1].shape != (2 * q, q) or Ws[-1].shape != (q, q) or not (Ws[-1] != 0).any() or not (Hs[-1] != 0).any():
        m.skip("steps-not-observed")
        return
    A = np.abs(Hs[-1])
    A = A[:q] + A[q:]
    A[:, (A == 0).any(axis=0)] += 0.01
    name = np.full(q, -1)
    for _ in range(q):
        v = np.sort(A, axis=None)
        if v[-1] - v[-2] < 1e-9:
            m.skip("label-tie")
            return
        i, j = np.unravel_index(A.argmax(), A.shape)
        name[j] = i
        A[i, :] = A[:, j] = 0
    want = np.zeros((q, q))
    want[np.ix_(name, name)] = Ws[-1]
    m.check("domains-labelled", np.allclose(W, want, rtol=1e-9, atol=1e-12), got=W, want=want)


def case_domains(m, rng, c):
    q = c["q"]
    X1, G1, s1, B, order = make(rng, c)
    X2, G2, s2, _, _ = make(rng, c, B, order)
    X, G = np.hstack([X1, X2]), block_diag(G1, G2)
    scale = np.zeros((2, 2 * q))
    scale[0, :q], scale[1, q:] = s1, s2
    lam = usable(m, X, G)
    if lam is None:
        return
    seed = int(rng.randint(2**31 - 1))
    steps = {"_estimate_MDLiNA_H": [], "_estimate_MDLiNA_B": []}
    model = lingam.MDLiNA(no_of_latent_1domain=q)
    for k, v in steps.items():
        if callable(getattr(model, k, None)):
            setattr(model, k, recording(getattr(model, k), v))
    np.random.seed(seed)
    W, L, ret, model = fit(X, G, scale, model=model)
    for k in steps:
        model.__dict__.pop(k, None)
    general(m, W, L, ret, model, G, q, name="domains-well-formed")
    labelled(m, W, q, *steps.values())
    m.close("loadings", L, lam, rtol=1e-6, atol=2e-3)
    if c["again"]:
        np.random.seed(seed)
        W2, L2, _, _ = fit(X, G, scale, model=model)
        if (W != 0).any():
            scale3 = scale.copy()
            scale3[1, q:] *= 1.5
            np.random.seed(seed)
            W3 = fit(X, G, scale3, cls=lingam.MDLiNA, no_of_latent_1domain=q)[0]
            m.check("domain-scale-used", not np.array_equal(W, W3), got=W3)
        m.check("domains-reproducible", np.array_equal(W, W2) and np.array_equal(L, L2), got=W2, want=W)
