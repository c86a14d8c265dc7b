"""Independent re-execution of test-driven searches, with margins of the decisions."""
import itertools

import numpy as np
from scipy import stats
from scipy.optimize import fmin_l_bfgs_b

from mon import oracle

FCORR_TOL = 4e-3


def fuzzy(Z):
    """distances at the level of rounding noise: whether they count for the median is undecided"""
    Z = np.asarray(Z, float)
    Z = (Z.reshape(-1, 1) if Z.ndim == 1 else Z)[:100]
    D, G = oracle.sqdist(Z), (Z**2).sum(1)
    i, j = np.triu_indices(len(Z), 1)
    v = D[i, j]
    noise = v < 1e-13 * (G[i] + G[j])
    if Z.shape[1] == 1:
        noise &= v > 0
    return bool(noise.any())


def fcorr(x, y):
    n = len(x)
    kappa, sigma = (2e-3, 0.5) if n > 1000 else (2e-2, 1.0)
    R = []
    for v in (x, y):
        v = np.asarray(v, float).ravel()
        v = (v - v.mean()) / v.std()
        K = np.exp(-((v[:, None] - v[None]) ** 2) / (2 * sigma**2))
        K = K - K.mean(0)[None] - K.mean(1)[:, None] + K.mean()
        D, U = np.linalg.eigh(K)
        D = np.maximum(D, 0)
        keep = D > 1e-9 * n
        R.append((U[:, keep], D[keep] / (n * kappa / 2 + D[keep])))
    (U, a), (V, b) = R
    return float(np.linalg.svd((a[:, None] * (U.T @ V)) * b[None], compute_uv=False)[0])


class Tests:
    """decisions p > alpha etc., remembering how close the closest one was"""

    def __init__(self, independence="hsic", ind_alpha=0.01, ind_corr=0.5, bw="mdbs"):
        self.independence, self.ind_alpha, self.ind_corr, self.bw = independence, ind_alpha, ind_corr, bw
        self.margin = np.inf  # >= 1 means safely decided
        self.n_tests = 0
        self.seen = {"ind": [], "cor": [], "shapiro": [], "fcorr": []}  # values that were compared with each threshold

    def near(self, p, alpha, tol, what="ind"):
        """p against alpha, both possibly 0; tol: relative error to allow for"""
        self.n_tests += 1
        self.seen[what].append(float(p))
        if not np.isfinite(p):
            self.margin = 0.0
        elif p < 1e-280 or alpha < 1e-280:
            # against a threshold of 0 only the underflow decides
            if alpha < 1e-280 and p < 1e-280:
                self.margin = 0.0
        else:
            self.margin = min(self.margin, abs(np.log(p / alpha)) / tol)

    def fisher(self, ps):
        if len(ps) == 1:
            return ps[0]
        s = sum(np.inf if p == 0 else -2 * np.log(p) for p in ps)
        return float(stats.chi2.sf(s, 2 * len(ps)))

    # pairs: list over groups of (x, y)
    def correlated(self, pairs, alpha):
        ps = []
        for a, b in pairs:
            n = len(a)
            if a.std() == 0 or b.std() == 0:
                self.margin = 0.0
                return False
            r = float(np.clip(np.corrcoef(a, b)[0, 1], -1, 1))
            ps.append(float(2 * stats.beta.sf(abs(r), n / 2 - 1, n / 2 - 1, loc=-1, scale=2)))
            # two numbers that agree up to rounding have |r| = 1 up to rounding: p is decided, its size is not
        p = self.fisher(ps)
        # residuals that are zero or orthogonal up to rounding
        self.near(p, alpha, 1e-5, "cor")
        return p < alpha

    def hsic_p(self, x, y):
        if fuzzy(x) or fuzzy(y):
            self.margin = 0.0
        return oracle.hsic(x, y, bw=self.bw)

    def independent(self, pairs, tol=1e-4):
        if self.independence == "hsic":
            p = self.fisher([self.hsic_p(x, y)[1] for x, y in pairs])
            self.near(p, self.ind_alpha, tol)
            return p > self.ind_alpha
        v = max(fcorr(x, y) for x, y in pairs)
        self.n_tests += 1
        self.near_corr(v, self.ind_corr)
        return v < self.ind_corr

    def near_corr(self, v, limit):
        self.seen["fcorr"].append(float(v))
        self.margin = min(self.margin, abs(v - limit) / FCORR_TOL)

    def edge(self, rng, what, side=None):
        """a threshold just beside a value that some decision was made with (None: no such value)"""
        v = [x for x in self.seen[what] if np.isfinite(x) and (0.02 < x < 0.98 if what == "fcorr" else 1e-9 < x < 0.8)]
        if not v:
            return None
        x = v[rng.randint(len(v))]
        s = rng.choice([-1, 1])
        if what == "fcorr":
            return float(x + s * 2.5 * FCORR_TOL)
        return float(x * (1 + 0.08 * s))


def resid(X, y, Z):
    Z = sorted(Z)
    if not Z:
        return X[:, y]
    r = X[:, y] - X[:, Z] @ oracle.ols(X[:, Z], X[:, y])
    return r - r.mean()


def mlhsicr(Y, i, js):
    """residual whose coefficients minimise the sum of the HSICs with the predictors, started at OLS"""
    n = len(Y)
    H = np.eye(n) - 1.0 / n
    w = [oracle.hsic_width(Y[:, j]) for j in js]
    L = [H @ np.exp(-oracle.sqdist(Y[:, j]) / (2 * wj**2)) @ H for j, wj in zip(js, w)]
    S = sum(L)
    wi = oracle.hsic_width(Y[:, i])

    def f(c):
        r = Y[:, i] - Y[:, js] @ c
        width = wi - np.dot(c, w)
        return float(np.sum(np.exp(-oracle.sqdist(r) / (2 * width**2)) * S) / n)

    c, _, _ = fmin_l_bfgs_b(f, oracle.ols(Y[:, js], Y[:, i]), approx_grad=True)
    return Y[:, i] - Y[:, js] @ c


def rcd(Xs, T, max_num=2, cor_alpha=0.01, shapiro_alpha=0.01, use_mlhsicr=False, log=None):
    """returns ancestors, parents, confounded pairs of the documented sequence; T: Tests"""
    d = Xs[0].shape[1]
    M = [set() for _ in range(d)]
    done = {}
    log = {} if log is None else log

    def sink(Ys, i, js):
        R = [resid(Y, i, js) for Y in Ys]
        if all(T.independent([(r, Y[:, j]) for r, Y in zip(R, Ys)]) for j in js):
            return True
        if len(js) == 1 or not use_mlhsicr:
            return False
        log["mlhsicr"] = log.get("mlhsicr", 0) + 1
        R = [mlhsicr(Y, i, js) for Y in Ys]
        return all(T.independent([(r, Y[:, j]) for r, Y in zip(R, Ys)], tol=0.05) for j in js)

    size = 2
    while True:
        changed = False
        for U in itertools.combinations(range(d), size):
            H = set.intersection(*[M[u] for u in U])
            if done.get(U) == H:
                continue
            Ys = []
            for X in Xs:
                Y = np.array(X, float)
                if H:
                    for u in U:
                        Y[:, u] = resid(X, u, H)
                Ys.append(Y)
            gauss = False
            for u in U:
                p = T.fisher([float(stats.shapiro(Y[:, u])[1]) for Y in Ys])
                T.near(p, shapiro_alpha, 1e-5, "shapiro")
                if p > shapiro_alpha:
                    gauss = True
                    break
            if gauss:
                continue
            if not all(T.correlated([(Y[:, a], Y[:, b]) for Y in Ys], cor_alpha) for a, b in itertools.combinations(U, 2)):
                continue
            sinks = []
            for i in U:
                js = [j for j in U if j != i]
                if any(i in M[j] for j in js) or set(js) <= M[i]:
                    continue
                if sink(Ys, i, js):
                    sinks.append(i)
            if len(sinks) == 1:
                new = set(U) - set(sinks)
                if not new <= M[sinks[0]]:
                    M[sinks[0]] |= new
                    changed = True
                    log[f"found-{size}"] = log.get(f"found-{size}", 0) + 1
                    if H:
                        log["found-after-removal"] = log.get("found-after-removal", 0) + 1
            done[U] = H
        if changed:
            size = 2
        elif size - 1 < max_num:
            size += 1
        else:
            break

    P = [set() for _ in range(d)]
    for i in range(d):
        for j in M[i]:
            pairs = [(resid(X, i, M[i] - {j}), resid(X, j, M[i] & M[j])) for X in Xs]
            if T.correlated(pairs, cor_alpha):
                P[i].add(j)
    C = set()
    for i, j in itertools.combinations(range(d), 2):
        if i in P[j] or j in P[i]:
            continue
        if T.correlated([(resid(X, i, P[i]), resid(X, j, P[j])) for X in Xs], cor_alpha):
            C.add((i, j))
    return M, P, C


# -- bottom-up search ---------------------------------------------------------------
def bottom_up(X, alpha=0.1, prior=None, independence="hsic", ind_corr=0.5, predict=None, log=None, tests=None):
    """order (head block or single variables), and the smallest margin of a decision.

    prior: set of (earlier, later) pairs.  predict(Z, y) -> fitted values (default: least squares)."""
    log = {} if log is None else log
    T = Tests(independence, alpha / (X.shape[1] - 1), ind_corr) if tests is None else tests
    X = X - X.mean(0)
    U, tail = list(range(X.shape[1])), []
    while len(U) > 1:
        best = []
        for c in U:
            if any((c, l) in prior for l in U if l != c) if prior else False:
                continue
            rest = [u for u in U if u != c]
            if predict is None:
                R = X[:, c] - X[:, rest] @ oracle.ols(X[:, rest], X[:, c])
            else:
                R = X[:, c] - np.ravel(predict(X[:, rest], X[:, c]))
            if independence == "fcorr":
                v = max(fcorr(X[:, r], R) for r in rest)
                best.append((v, v, c))
            elif len(rest) == 1:
                s, p = T.hsic_p(X[:, rest[0]], R)
                best.append((s, p, c))
            else:
                ps = [T.hsic_p(X[:, r], R)[1] for r in rest]
                s = sum(np.inf if p == 0 else -2 * np.log(p) for p in ps)
                best.append((s, float(stats.chi2.sf(s, 2 * len(ps))), c))
        # sorted() is stable: the first candidate wins among equal (infinite) ones
        best = sorted(best, key=lambda b: b[0])
        v, p, c = best[0]
        if independence == "fcorr":
            T.near_corr(p, ind_corr)
            reject = p >= ind_corr
        else:
            if alpha > 0:
                T.near(p, T.ind_alpha, 1e-4)
            reject = p < T.ind_alpha
        T.n_tests += len(best)
        if reject:
            log["rejected"] = log.get("rejected", 0) + 1
            break
        if len(best) > 1 and np.isfinite(v):
            gap = best[1][0] - v
            T.margin = min(T.margin, gap / (FCORR_TOL * 2 if independence == "fcorr" else 1e-5 * max(abs(v), 1e-3)))
        tail.insert(0, c)
        U.remove(c)
        log["ordered"] = log.get("ordered", 0) + 1
    return ([U] if len(U) > 1 else U) + tail, T.margin


# -- CAM-UV -----------------------------------------------------------------------------
def camuv(Xs, alpha=0.01, num=2, independence="hsic", ind_corr=0.5, forbidden=(), log=None, tests=None):
    """(parents, unresolved pairs, margin); forbidden: pairs (cause, effect)"""
    from pygam import LinearGAM

    log = {} if log is None else log
    d = Xs[0].shape[1]
    T = Tests(independence, alpha, ind_corr) if tests is None else tests
    cache = {}

    def res(g, i, ps):
        ps = tuple(sorted(ps))
        if (g, i, ps) not in cache:
            X = Xs[g]
            cache[g, i, ps] = X[:, i] - LinearGAM().fit(X[:, ps], X[:, i]).predict(X[:, ps]) if ps else X[:, i]
        return cache[g, i, ps]

    G = range(len(Xs))

    def value(pairs):
        """p-value (or largest F-correlation), combined over the groups"""
        if independence == "hsic":
            return T.fisher([T.hsic_p(x, y)[1] for x, y in pairs])
        return max(fcorr(x, yy) for x, y in pairs for yy in np.atleast_2d(np.asarray(y).T))

    def indep(pairs):
        v = value(pairs)
        T.n_tests += 1
        if independence == "hsic":
            T.near(v, alpha, 1e-4)
            return v > alpha
        T.near_corr(v, ind_corr)
        return v < ind_corr

    N = np.zeros((d, d), bool)
    for i, j in itertools.combinations(range(d), 2):
        N[i, j] = N[j, i] = not indep([(X[:, i], X[:, j]) for X in Xs])
    P = [set() for _ in range(d)]
    Y = lambda g, i: res(g, i, P[i])
    size = 2
    while True:
        changed = False
        for V in itertools.combinations(range(d), size):
            if any(i in P[j] or j in P[i] for i, j in itertools.combinations(V, 2)):
                continue
            cand = []
            for c in V:
                ps = [v for v in V if v != c]
                if any((p, c) in forbidden for p in ps) or not all(N[c, p] for p in ps):
                    continue
                pairs = [(res(g, c, set(ps) | P[c]), np.column_stack([Y(g, p) for p in ps])) for g in G]
                cand.append((value(pairs), c))
            if not cand:
                continue
            hs = independence == "hsic"
            cand.sort(key=lambda t: -t[0] if hs else t[0])
            v, c = cand[0]
            if hs:
                T.near(v, alpha, 1e-4)
                ok = v > alpha
            else:
                T.near_corr(v, ind_corr)
                ok = v < ind_corr
            if not ok:
                continue
            if len(cand) > 1:
                w = cand[1][0]
                T.margin = min(T.margin, (v - w) / (1e-4 * v) if hs else (w - v) / (2 * FCORR_TOL))
            ps = set(V) - {c}
            if any(indep([(Y(g, c), Y(g, p)) for g in G]) for p in sorted(ps)):
                continue
            P[c] |= ps
            changed = True
            log[f"found-{size}"] = log.get(f"found-{size}", 0) + 1
        if changed:
            size = 2
        else:
            size += 1
            if size > num:
                break
    for i in range(d):
        drop = {j for j in P[i] if indep([(res(g, i, P[i] - {j}), res(g, j, P[j])) for g in G])}
        log["dropped"] = log.get("dropped", 0) + len(drop)
        P[i] = P[i] - drop
    U = set()
    for i, j in itertools.combinations(range(d), 2):
        if i in P[j] or j in P[i] or not N[i, j]:
            continue
        if not indep([(res(g, i, P[i]), res(g, j, P[j])) for g in G]):
            U.add((i, j))
    return P, U, T.margin
