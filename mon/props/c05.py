"""C05: every step of the direct search takes the best admissible candidate."""
import numpy as np
import lingam

from mon import gen, oracle
from mon.props.c02 import make_pk, orders_of

RULE = (
    "each fitted causal order is a trace; every step is replayed: residuals by an independent regression on the "
    "variables already ordered, scores by an independent implementation of the measure, admissible candidates from "
    "the prior knowledge; non-trivial: a step with at least two admissible candidates whose scores differ by more "
    "than rounding; distinct by (data, step)"
)
REQUIRED = {"step-takes-best": 2500, "kernel-step-takes-best": 80, "group-step-takes-best": 600}
SLOW_FIRST = ["kernel_large", "kernel", "multi"]
F = gen.FLAVOURS
MODES = ["random", "sparse", "paths", "nopaths", "exo"]


def cases(seed, tier):
    def std(i, r):
        return {"flavour": F[i % len(F)], "d": int(r.choice([2, 3, 4, 5, 6, 8])), "n": int(r.choice([15, 30, 60, 120, 300, 1300])),
                "pk": [None, None, None, "hard", "soft"][i % 5], "mode": MODES[i % len(MODES)]}

    def ker(i, r):
        return {"flavour": F[i % len(F)], "d": int(r.choice([2, 3, 4])), "n": int(r.choice([15, 30, 50])), "pk": [None, None, "hard", "soft"][i % 4], "mode": MODES[i % len(MODES)]}

    return gen.spread(seed, tier, [
        ("pwling", 1100, 8000, std), ("multi", 400, 3000, std), ("soft", 160, 1500, lambda i, r: dict(std(i, r), pk="soft", d=int(r.choice([3, 4, 4, 5])), mode=["blocks", "blocks", "exo", "nopaths"][i % 4], flavour=["weak", "gauss", "lingam", "confounded"][i // 4 % 4])), ("kernel", 300, 2000, ker), ("kernel_large", 5, 24, lambda i, r: {"n": [1000, 1001, 510, 800, 260, 600, 999, 1100][i % 8]}), ("inner", 40, 300, None),
    ])


def candidates(pk, soft, U):
    """(admissible candidates, variables the candidates are known not to influence)"""
    if pk is None:
        return list(U), []
    pk = np.asarray(pk)
    if not soft:
        forced = orders_of(pk)
        return [v for v in U if not any((u, v) in forced for u in U)], []
    rest = {v: [u for u in U if u != v] for v in U}
    exo = [v for v in U if all(pk[v, u] == 0 for u in rest[v])]
    cand = exo
    if not exo:
        endo = {v for v in U if any(pk[v, u] == 1 for u in rest[v])}
        sink = {v for v in U if rest[v] and all(pk[u, v] == 0 for u in rest[v])}
        cand = [v for v in U if v not in endo and v not in sink]
    unaff = [v for v in U if v not in cand and all(pk[v, u] == 0 for u in cand)]
    return cand, unaff


def residuals(X, done, U):
    Z = X - X.mean(0)
    if not done:
        return Z
    R = Z.copy()
    for v in U:
        R[:, v] = Z[:, v] - Z[:, done] @ oracle.ols(Z[:, done], Z[:, v])
    return R


def replay(m, name, Xs, order, pk, soft, score):
    """score(Rs, v, U, unaffected) -> the smaller the better"""
    order = [int(v) for v in order]
    d = len(order)
    for k, v in enumerate(order[:-1]):
        U = sorted(order[k:])
        cand, unaff = candidates(pk, soft, U)
        if not m.check("step-is-admissible", v in cand, tag=name, step=k, chosen=v, candidates=cand, order=order, pk=pk):
            return
        if len(cand) < 2:
            continue
        Rs = [residuals(X, order[:k], U) for X in Xs]
        if any((R[:, U].std(0) < 1e-9 * X[:, U].std(0)).any() for R, X in zip(Rs, Xs)):
            m.skip("degenerate-residual")
            return
        s = {u: score(Rs, u, U, unaff) for u in cand}
        best = min(s.values())
        tol = 1e-12 + 1e-6 * abs(best)
        others = [w for u, w in s.items() if u != v]
        if abs(min(others) - s[v]) <= tol:
            m.skip("tie")
        m.check(name, s[v] <= best + tol, step=k, chosen=v, scores=s, order=order)
        m.state(name, order[: k + 1], round(best, 12))


def pw(Rs, v, U, unaff):
    n = sum(len(R) for R in Rs)
    return sum(len(R) / n * oracle.pw_score(R, v, [u for u in U if u != v], fixed_j=unaff) for R in Rs)


def data(rng, c, n=None):
    X = gen.messy_data(rng, n or c["n"], c["d"], c["flavour"])
    if c["flavour"] == "discrete":
        X = X + 0.0
    return X


def bad(m, X):
    s = X.std(0)
    if (s == 0).any() or np.linalg.cond((X - X.mean(0)) / s) > 1e5:
        m.skip("degenerate-data")
        return True
    return False


def case_pwling(m, rng, c):
    X = data(rng, c)
    if bad(m, X):
        return
    pk = make_pk(rng, c["d"], c["mode"]) if c["pk"] else None
    soft = c["pk"] == "soft"
    model = lingam.DirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=soft).fit(X)
    replay(m, "step-takes-best", [X], model.causal_order_, pk, soft, pw)


def case_multi(m, rng, c):
    k = gen.ngroups(rng)
    Xs = [gen.messy_data(rng, int(c["n"] * rng.choice([1, 1.5, 4])) + 5, c["d"], F[rng.randint(len(F))]) for _ in range(k)]
    if any(bad(m, X) for X in Xs):
        return
    pk = make_pk(rng, c["d"], c["mode"]) if c["pk"] else None
    soft = c["pk"] == "soft"
    model = lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=soft).fit(Xs)
    replay(m, "group-step-takes-best", Xs, model.causal_order_, pk, soft, pw)


def case_soft(m, rng, c):
    """soft prior knowledge with variables the candidates are known not to influence, and close scores"""
    (case_multi if rng.rand() < 0.6 else case_pwling)(m, rng, c)


def kernel_score(n):
    kappa, sigma = (2e-3, 0.5) if n > 1000 else (2e-2, 1.0)

    def score(Rs, v, U, unaff):
        R = Rs[0]
        t = 0.0
        for u in U:
            if u == v:
                continue
            t += oracle.kernel_mi(R[:, v], oracle.residual(R[:, u], R[:, v]), kappa, sigma)
        return t

    return score


def case_kernel(m, rng, c):
    X = data(rng, c)
    if bad(m, X):
        return
    pk = make_pk(rng, c["d"], c["mode"]) if c["pk"] else None
    soft = c["pk"] == "soft"
    model = lingam.DirectLiNGAM(measure="kernel", prior_knowledge=pk, apply_prior_knowledge_softly=soft).fit(X)
    replay(m, "kernel-step-takes-best", [(X - X.mean(0)) / X.std(0)], model.causal_order_, pk, soft, kernel_score(len(X)))


def case_kernel_large(m, rng, c):
    """the kernel parameters change above 1000 samples: data on which the two parameter sets disagree"""
    n = c["n"]
    sets = [(2e-3, 0.5), (2e-2, 1.0)]
    X = None
    for _ in range(10):
        kinds = [["gauss"], ["gauss", "t"], ["uniform", "gauss"], gen.NOISES][rng.randint(4)]
        X = gen.linear_data(rng, n, 2, 1.0, kinds=kinds)[0]
        Z = (X - X.mean(0)) / X.std(0)
        ts = []
        for kappa, sigma in sets:
            t = [oracle.kernel_mi(Z[:, v], oracle.residual(Z[:, 1 - v], Z[:, v]), kappa, sigma) for v in (0, 1)]
            ts.append(t[0] - t[1])
        if ts[0] * ts[1] < 0 and min(abs(t) for t in ts) > 1e-5:
            m.state("parameters-disagree", n)
            m.count("kernel-parameters-decide")
            break
    model = lingam.DirectLiNGAM(measure="kernel").fit(X)
    replay(m, "kernel-step-takes-best", [(X - X.mean(0)) / X.std(0)], model.causal_order_, None, False, kernel_score(n))


def case_inner(m, rng, c):
    """the contemporaneous order of the time-series models comes from the same search on the residuals"""
    if rng.rand() < 0.5:
        d = int(rng.choice([3, 4]))
        X = gen.var_data(rng, 90, d, 1)[0]
        model = lingam.VARLiNGAM(lags=1, criterion=None).fit(X)
        E = np.asarray(model.residuals_)
        replay(m, "step-takes-best", [E], model.causal_order_, None, False, pw)
    else:
        from mon.props.c01 import longitudinal_series

        d = int(rng.choice([3, 4]))
        Xs = longitudinal_series(rng, 90, d, 3, 1)[0]
        model = lingam.LongitudinalLiNGAM(n_lags=1).fit(Xs)
        for t in (1, 2):
            Z = np.column_stack([np.ones(len(Xs[t])), Xs[t - 1]])
            R = Xs[t] - Z @ np.linalg.lstsq(Z, Xs[t], rcond=None)[0]
            replay(m, "step-takes-best", [R], model.causal_orders_[t], None, False, pw)
