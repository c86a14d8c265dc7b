"""C08: results depend only on the arguments and seed, not on earlier calls (history monitor)."""
import contextlib
import io

import numpy as np
import pandas as pd
import lingam
from lingam.tools import bootstrap_with_imputation
from lingam.experimental import CausalDataGenerator, OutOfSampleCausalTuning
from sklearn.ensemble import RandomForestRegressor
from sklearn.linear_model import LinearRegression

from mon import gen
from mon.props.c02 import make_pk
from mon.props.c07 import digest, results_of

RULE = (
    "random histories (fit on other data / other sizes, bootstrap, queries, failing calls, other instances) on one instance, followed "
    "by a fit that is compared with the same fit on a fresh instance, under different states of the global generators; "
    "non-trivial: a history of at least one operation followed by a comparison; distinct by (estimator, operations, result)"
)
REQUIRED = {"same-as-fresh": 400, "query-repeatable": 400, "bootstrap-same-as-fresh": 60, "seeded-call-repeatable": 20}
SLOW_FIRST = ["varma", "oct", "camuv", "mgcamuv", "lim", "lina", "imputation", "rcd"]

N = {"direct": (90, 800), "kernel": (16, 100), "ica": (50, 400), "highdim": (40, 300), "resit": (24, 160), "rcd": (40, 240), "bottomup": (50, 300), "camuv": (8, 50),
     "multi": (50, 400), "mgrcd": (20, 120), "mgcamuv": (6, 36), "var": (90, 600), "varma": (10, 50), "longitudinal": (40, 240), "lim": (10, 60), "lina": (4, 20)}


def cases(seed, tier):
    t = [(k, q, th, lambda i, r: {"len": int(r.choice([1, 2, 3, 5])), "opt": i}) for k, (q, th) in N.items()]
    # more variables and samples
    for k, d, n, q in (("direct", 5, 700, 30), ("ica", 6, 600, 10), ("highdim", 6, 300, 6), ("bottomup", 5, 600, 2), ("rcd", 4, 300, 2), ("camuv", 3, 120, 1), ("multi", 5, 500, 10), ("var", 5, 700, 3), ("longitudinal", 4, 300, 3)):
        t.append((k, q, 6 * q, lambda i, r, d=d, n=n: {"len": int(r.choice([1, 2, 3])), "opt": i, "d": d + i % 2, "n": n + 100 * (i % 3)}))
    t += [("simulator", 40, 300, None), ("effect", 30, 200, None), ("cdg", 20, 120, None), ("oct", 3, 16, None), ("imputation", 5, 30, None), ("results", 60, 400, None)]
    return gen.spread(seed, tier, t)


class Spec:
    """one estimator: how to make, feed, read and query it"""

    seeded = False  # algorithm draws from the global generator
    boot = True

    def __init__(self, rng, opt, d=None, n=None):
        self.opt = opt
        self.n = n
        self.d = int(rng.choice([2, 3])) if d is None else d
        self.setup(rng)

    def setup(self, rng):
        pass

    fixed_d = False

    def data(self, rng):
        d = self.d if self.fixed_d or rng.rand() < 0.6 else self.d + 1
        n = self.n or int(rng.choice([40, 60]))
        if rng.rand() < 0.3:  # effects near the selection boundary
            B, o = gen.dag(rng, d, 0.7, 1.0 / np.sqrt(n), 5.0 / np.sqrt(n))
            return (gen.linear_data(rng, n, d, B=B, order=o, scale=False)[0],)
        return (gen.linear_data(rng, n, d, 0.8)[0],)

    def fit(self, model, args):
        if self.seeded:
            np.random.seed(11)
        with contextlib.redirect_stdout(io.StringIO()):
            return model.fit(*args)

    def dim(self, args):
        return np.shape(args[0])[1]

    def read(self, model):
        return results_of(model)

    def queries(self, args, model):
        X = args[0]
        d = self.dim(args)
        out = []
        if hasattr(model, "estimate_total_effect"):
            out.append(lambda: model.estimate_total_effect(X, 0, d - 1))
        if hasattr(model, "estimate_total_effect2"):
            out.append(lambda: model.estimate_total_effect2(0, d - 1))
        if hasattr(model, "get_error_independence_p_values"):
            out.append(lambda: model.get_error_independence_p_values(X))
        return out

    def bad(self, rng, args):
        X = np.array(args[0], float)
        Y = X.copy()
        Y[3, 0] = np.nan
        return [(Y,), (X[:, 0],), ("nonsense",), (np.zeros((0, X.shape[1])),)]

    def bad_bootstrap(self, rng, args):
        """bootstraps that cannot succeed: wrong counts, too few rows, singular data, unusable arguments"""
        X = args[0]
        cut = (lambda k: [x[:k] for x in X]) if isinstance(X, list) else (lambda k: X[:k])
        const = [np.zeros_like(x) for x in X] if isinstance(X, list) else np.zeros_like(X)
        return [(X, 0), (X, -1), (X, "two"), (cut(2), 2), (cut(1), 2), (cut(4), 2), (const, 2)] + [(b[0], 2) for b in self.bad(rng, args)]

    def bootstrap(self, model, args):
        np.random.seed(5)
        with contextlib.redirect_stdout(io.StringIO()):
            r = model.bootstrap(args[0], 2)
        rs = r if isinstance(r, (list, tuple)) else [r]
        return [(np.array(x.adjacency_matrices_), np.array(x.total_effects_)) for x in rs]


class Direct(Spec):
    def setup(self, rng):
        self.pk = None
        if self.opt % 3 == 1:
            self.pk, self.fixed_d = make_pk(rng, self.d, "random"), True
        self.soft = bool(self.opt % 2)

    def make(self):
        return lingam.DirectLiNGAM(prior_knowledge=self.pk, apply_prior_knowledge_softly=self.soft)


class Kernel(Spec):
    def make(self):
        return lingam.DirectLiNGAM(measure="kernel")


class ICA(Spec):
    def make(self):
        return lingam.ICALiNGAM(random_state=self.opt % 4, max_iter=60)


class HighDim(Spec):
    def make(self):
        return lingam.HighDimDirectLiNGAM()


class Resit(Spec):
    def make(self):
        reg = LinearRegression() if self.opt % 2 else RandomForestRegressor(n_estimators=3, max_depth=3, random_state=0)
        return lingam.RESIT(regressor=reg, alpha=0.05)


class Rcd(Spec):
    def make(self):
        return lingam.RCD(shapiro_alpha=1.0, cor_alpha=0.1, ind_alpha=0.002, MLHSICR=self.opt % 3 == 0, independence=["hsic", "fcorr"][self.opt % 5 == 4])


class BottomUp(Direct):
    def make(self):
        return lingam.BottomUpParceLiNGAM(alpha=[0.0, 0.1, 0.4][self.opt % 3], prior_knowledge=self.pk)


class Camuv(Spec):
    boot = False

    def make(self):
        return lingam.CAMUV(alpha=0.05)


class Multi(Direct):
    def data(self, rng):
        d = self.d if self.fixed_d or rng.rand() < 0.6 else self.d + 1
        B, o = gen.dag(rng, d, 0.8)
        k = int(rng.choice([2, 3, 4]))
        e = int(rng.choice([0, 5, -4]))
        return ([gen.linear_data(rng, (self.n or 40) + e * j, d, B=B, order=o)[0] for j in range(k)],)

    def dim(self, args):
        return args[0][0].shape[1]

    def make(self):
        return lingam.MultiGroupDirectLiNGAM(prior_knowledge=self.pk, apply_prior_knowledge_softly=self.soft)

    def bad(self, rng, args):
        Xs = args[0]
        Y = Xs[0].copy()
        Y[0, 0] = np.inf
        return [([Xs[0]],), ([Xs[0], Y],), ([Xs[0], Xs[1][:, :-1]],), ("no",)]


class MgRcd(Multi):
    def make(self):
        return lingam.MultiGroupRCD(shapiro_alpha=1.0, cor_alpha=0.1, ind_alpha=0.002)

    def setup(self, rng):
        self.fixed_d = False


class MgCamuv(MgRcd):
    boot = False

    def make(self):
        return lingam.MultiGroupCAMUV(alpha=0.05)


class Var(Spec):
    def setup(self, rng):
        self.kw = [dict(lags=1), dict(lags=2, criterion=None), dict(lags=3, criterion="aic"), dict(lags=2, criterion=None, prune=False), dict(lags=3, criterion="bic", prune=False),
                   dict(ar_coefs=rng.uniform(-0.3, 0.3, (2, self.d, self.d)), lags=2), dict(lags=2, lingam_model="ica")][self.opt % 7]
        self.fixed_d = "ar_coefs" in self.kw
        if self.opt // 7 % 2 == 0:
            self.kw["random_state"] = self.opt

    def data(self, rng):
        d = self.d if self.fixed_d or rng.rand() < 0.6 else self.d + 1
        return (gen.var_data(rng, self.n or int(rng.choice([50, 80])), d, int(rng.choice([1, 2, 3])))[0],)

    def make(self):
        kw = dict(self.kw)
        if kw.get("lingam_model") == "ica":
            kw["lingam_model"] = lingam.ICALiNGAM(random_state=1, max_iter=60)
        return lingam.VARLiNGAM(**kw)

    def queries(self, args, model):
        d = self.dim(args)
        return [lambda: model.estimate_total_effect(args[0], 0, d - 1), lambda: model.estimate_total_effect(args[0], 0, d - 1, from_lag=1),
                lambda: model.estimate_total_effect2(d, 0, d - 1, from_lag=1), lambda: model.get_error_independence_p_values()]


class Varma(Spec):
    def setup(self, rng):
        self.d, self.fixed_d = 2, True
        self.kw = [dict(order=(1, 1), criterion=None), dict(order=(1, 0), criterion=None, prune=False), dict(order=(1, 1), criterion="bic"),
                   dict(ar_coefs=rng.uniform(-0.3, 0.3, (1, 2, 2)), ma_coefs=rng.uniform(-0.3, 0.3, (1, 2, 2))), dict(order=(0, 1), criterion=None),
                   dict(ar_coefs=rng.uniform(-0.3, 0.3, (1, 2, 2)), ma_coefs=rng.uniform(-0.2, 0.2, (3, 2, 2)), order=(1, 3)),
                   dict(ar_coefs=rng.uniform(-0.2, 0.2, (3, 2, 2)), ma_coefs=rng.uniform(-0.3, 0.3, (1, 2, 2)), order=(3, 1), prune=False)][self.opt % 7]
        self.boot = self.opt % 7 != 2

    def data(self, rng):
        return (gen.var_data(rng, int(rng.choice([50, 70])), 2, 1)[0],)

    def make(self):
        return lingam.VARMALiNGAM(max_iter=20, random_state=self.opt, **self.kw)

    def queries(self, args, model):
        E = np.array(model.residuals_)
        return [lambda: model.estimate_total_effect(args[0], E, 0, 1), lambda: model.get_error_independence_p_values()]


class Longi(Spec):
    def setup(self, rng):
        self.lags = [1, 1, 2][self.opt % 3]
        self.pk = None
        if self.opt % 2:
            self.fixed_d = True
            self.pk = np.full((4, self.lags + 1, self.d, self.d), -1)
            self.pk[self.lags :, 0, 0, 1] = 0
            self.pk[self.lags :, 1, 1, 0] = 0

    def data(self, rng):
        from mon.props.c01 import longitudinal_series

        d = self.d if self.fixed_d or rng.rand() < 0.6 else self.d + 1
        T = 4 if self.pk is not None else int(rng.choice([3, 4, 7])) if d < 4 else int(rng.choice([3, 4]))
        return ([np.asarray(x) for x in longitudinal_series(rng, self.n or int(rng.choice([40, 60])), d, T, self.lags)[0]],)

    def dim(self, args):
        return args[0][0].shape[1]

    def make(self):
        return lingam.LongitudinalLiNGAM(n_lags=self.lags, prior_knowledge=self.pk, random_state=None if self.opt % 4 < 2 else self.opt)

    def queries(self, args, model):
        T = len(args[0])
        return [lambda: model.estimate_total_effect(args[0], self.lags, 0, T - 1, 1), lambda: model.estimate_total_effect2(self.lags, 0, T - 1, 1), lambda: model.get_error_independence_p_values()]

    def bad(self, rng, args):
        Xs = args[0]
        return [([Xs[0]],), ([Xs[0], Xs[1][:-1], Xs[2]],), ([Xs[0], Xs[1], Xs[2] * np.nan],)]


class Lim(Spec):
    seeded = True
    boot = False

    def setup(self, rng):
        self.kw = [dict(), dict(only_global=True), dict(is_poisson=True)][self.opt % 3]
        self.loss = ["mixed", "mixed", "laplace"][self.opt // 3 % 3]

    def data(self, rng):
        X = gen.linear_data(rng, 50, 2, 0.9)[0]
        k = int(rng.randint(2))
        X[:, k] = (X[:, k] > 0).astype(float) if self.opt % 3 != 2 else np.round(np.abs(X[:, k]) * 2)
        dc = np.ones((1, 2))
        dc[0, k] = 0
        return (X, dc)

    def make(self):
        return lingam.LiM(w_threshold=0.1, loss_type=self.loss, max_iter=20)

    def fit(self, model, args):
        np.random.seed(11)
        with contextlib.redirect_stdout(io.StringIO()):
            return model.fit(*args, **self.kw)

    def queries(self, args, model):
        return []


class Lina(Spec):
    seeded = True
    boot = False

    def data(self, rng):
        n = 60
        f0 = gen.noise(rng, "uniform", n)
        f1 = 0.8 * f0 + gen.noise(rng, "uniform", n)
        X = np.column_stack([f0, 0.7 * f0, f1, 0.6 * f1]) + 0.2 * rng.normal(size=(n, 4))
        return ((X - X.mean(0)) / X.std(0), np.array([[1.0, 0], [1, 0], [0, 1], [0, 1]]), np.array([[1.0, 1.0]]))

    def make(self):
        return lingam.LiNA(w_threshold=0.1, max_iter=10)

    def queries(self, args, model):
        return []


SPECS = {"direct": Direct, "kernel": Kernel, "ica": ICA, "highdim": HighDim, "resit": Resit, "rcd": Rcd, "bottomup": BottomUp, "camuv": Camuv, "multi": Multi,
         "mgrcd": MgRcd, "mgcamuv": MgCamuv, "var": Var, "varma": Varma, "longitudinal": Longi, "lim": Lim, "lina": Lina}


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, str)) or a is None:
        return a == b
    if isinstance(a, pd.DataFrame):
        return list(a.columns) == list(b.columns) and equal(a.to_numpy(), b.to_numpy())
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if x.dtype == object:
            return all(equal(p, q) for p, q in zip(x.ravel(), y.ravel()))
        if x.dtype.kind in "fc":
            return bool(np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True))
        return bool(np.array_equal(x, y))
    except Exception:
        return a == b


SOFT = (ValueError, np.linalg.LinAlgError)


def run(m, rng, c):
    name = c["kind"]
    sp = SPECS[name](rng, c["opt"], d=c.get("d"), n=c.get("n"))
    args = sp.data(rng)
    fresh = sp.make()
    try:
        sp.fit(fresh, args)
    except np.linalg.LinAlgError:
        m.skip("singular")
        return
    want = sp.read(fresh)
    hw = digest(want)
    model = sp.make()
    ops = []
    cur = None
    for _ in range(c["len"]):
        op = ["fit", "bad", "query", "bootstrap", "other", "badboot"][rng.randint(6)]
        ops.append(op)
        np.random.seed(int(rng.randint(2**31 - 1)))
        try:
            if op == "fit":
                cur = None
                other = sp.data(rng)
                sp.fit(model, other)
                cur = other
            elif op == "bad":
                b = sp.bad(rng, args)
                cur = None
                sp.fit(model, b[rng.randint(len(b))] + tuple(args[1:]))
            elif op == "query" and cur is not None:
                for q in sp.queries(cur, model):
                    q()
            elif op == "bootstrap" and sp.boot and name not in ("camuv",):
                cur = None
                other = sp.data(rng)
                sp.bootstrap(model, other)
            elif op == "badboot" and sp.boot:
                cur = None
                b = sp.bad_bootstrap(rng, args)
                with contextlib.redirect_stdout(io.StringIO()):
                    model.bootstrap(*b[rng.randint(len(b))])
            elif op == "other":
                sp.fit(sp.make(), sp.data(rng))
        except Exception:
            m.count("failed-operations")
    np.random.seed(int(rng.randint(2**31 - 1)))
    sp.fit(model, args)
    got = sp.read(model)
    m.check("same-as-fresh", equal(got, want), tag=name, ops=ops, got={k: v for k, v in got.items() if not equal(v, want[k])}, want={k: v for k, v in want.items() if not equal(v, got.get(k))})
    # queries on the aged and the fresh instance agree, and are repeatable
    for k, (q1, q2) in enumerate(zip(sp.queries(args, model), sp.queries(args, fresh))):
        try:
            a, b = q1(), q2()
        except SOFT:
            m.skip("query-refused")
            continue
        m.check("query-repeatable", equal(a, b) and equal(q1(), a), tag=f"{name}-q{k}", ops=ops, a=a, b=b)
    m.check("same-as-fresh", equal(sp.read(model), got), tag=name + "-after-queries", ops=ops)
    if sp.boot and rng.rand() < 0.5:
        try:
            b1 = sp.bootstrap(sp.make(), args)
            b2 = sp.bootstrap(model, args)
            m.check("bootstrap-same-as-fresh", equal(b1, b2), tag=name, ops=ops)
            sp.fit(model, args)
            m.check("same-as-fresh", equal(sp.read(model), want), tag=name + "-after-bootstrap", ops=ops)
        except SOFT:
            m.skip("bootstrap-refused")
    # results handed out earlier are not touched by any of this
    m.check("same-as-fresh", digest(want) == hw, tag=name + "-old-result")
    m.state(name, ops, digest(want))


for _k in N:
    globals()["case_" + _k] = run


def case_simulator(m, rng, c):
    def new(seed):
        r = np.random.RandomState(seed)
        d = int(r.choice([2, 3, 4]))
        X, B, _ = gen.linear_data(r, int(r.choice([30, 50])), d, 0.8)
        ts = r.rand() < 0.3
        if ts:
            B = np.array([B, 0.2 * np.ones((d, d))])
        return X, B, "VARLiNGAM" if ts else None

    s1, s2 = int(rng.randint(10**6)), int(rng.randint(10**6))

    def script(sim, X, B, a):
        sim.train(X, B, cd_algo_name=a)
        names = list(sim.train_result_)
        L = len(sim.train_result_[names[0]]["residual"])
        r = np.random.RandomState(3)
        ce = {names[0]: r.normal(size=L)}
        np.random.seed(int(rng.randint(10**6)))
        return [lambda: sim.run(), lambda: sim.run(changing_exog=ce), lambda: sim.run(shuffle_residual=True, random_state=4),
                lambda: sim.run(changing_models={names[1]: {"parent_names": []}})]

    fresh = lingam.CausalBasedSimulator()
    want = [f() for f in script(fresh, *new(s1))]
    sim = lingam.CausalBasedSimulator()
    for k in range(int(rng.choice([1, 2]))):
        fs = script(sim, *new(s2 + k))
        for i in rng.randint(len(fs), size=3):
            fs[i]()
        try:
            sim.train(np.ones((5, 2)), np.array([[0, 1.0], [1.0, 0]]))
        except Exception:
            m.count("failed-operations")
    fs = script(sim, *new(s1))
    for i in rng.permutation(np.r_[np.arange(len(fs)), np.arange(len(fs))]):
        m.check("same-as-fresh", equal(fs[i](), want[i]), tag=f"simulator-run{i}")
    m.state("simulator", s1, s2)


def case_effect(m, rng, c):
    d = 4
    X, B, _ = gen.linear_data(rng, 50, d, 0.7)
    t = int(rng.randint(d))
    rest = [i for i in range(d) if i != t]
    pm = LinearRegression().fit(X[:, rest], X[:, t])
    cm = lingam.DirectLiNGAM().fit(X) if rng.rand() < 0.5 else B
    want = lingam.CausalEffect(cm).estimate_effects_on_prediction(X, t, pm)
    ce = lingam.CausalEffect(cm)
    for _ in range(3):
        t2 = int(rng.randint(d))
        r2 = [i for i in range(d) if i != t2]
        Y = gen.linear_data(rng, 40, d, 0.7)[0]
        pm2 = LinearRegression().fit(Y[:, r2], Y[:, t2])
        ce.estimate_effects_on_prediction(Y, t2, pm2)
        try:
            ce.estimate_optimal_intervention(Y, t2, pm2, r2[0], 1.0)
        except Exception:
            m.count("failed-operations")
    m.check("same-as-fresh", equal(ce.estimate_effects_on_prediction(X, t, pm), want), tag="effect")
    m.state("effect", np.asarray(want))


def case_cdg(m, rng, c):
    def df(r):
        n = int(r.choice([40, 60]))
        z = r.uniform(-1, 1, n)
        x = 0.7 * z + r.uniform(-1, 1, n)
        return pd.DataFrame({"z": z, "x": x, "y": x + z + r.uniform(-1, 1, n)})

    A, B = df(rng), df(rng)

    def go(g):
        g.fit(A, "x", "y", adjustments=["z"])
        return g.generate()

    want = go(CausalDataGenerator(random_state=3))
    np.random.seed(int(rng.randint(10**6)))
    m.check("seeded-call-repeatable", equal(go(CausalDataGenerator(random_state=3)), want), tag="cdg")
    m.state("cdg", want.to_numpy())


def case_oct(m, rng, c):
    X = gen.linear_data(rng, 50, 3, 0.8)[0]
    cfg = [{"model": lingam.DirectLiNGAM}, {"model": lingam.ICALiNGAM, "init_kwargs": {"random_state": 1, "max_iter": 50}}]

    def go():
        o = OutOfSampleCausalTuning(cv=3, random_state=7)
        np.random.seed(int(rng.randint(10**6)))
        o.fit(X, cfg)
        return {k: v for k, v in results_of(o).items() if not callable(v)}

    a, b = go(), go()
    num = {k: v for k, v in a.items() if isinstance(v, (np.ndarray, list, float, int, dict)) and "model" not in k}
    m.check("seeded-call-repeatable", all(equal(b[k], v) for k, v in num.items()), tag="oct", a=num, b=b)
    m.count("oct-attributes", len(num))


def case_imputation(m, rng, c):
    X = gen.linear_data(rng, 50, 3, 0.6)[0]
    X[rng.rand(*X.shape) < 0.1] = np.nan
    X[:4] = rng.rand(4, 3)

    def go():
        np.random.seed(int(rng.randint(10**6)))
        return bootstrap_with_imputation(X, 2, n_repeats=2, random_state=9)

    a, b = go(), go()
    m.check("seeded-call-repeatable", equal(list(a), list(b)), tag="imputation")


def case_results(m, rng, c):
    """queries on a result object are repeatable in any order"""
    from lingam.bootstrap import BootstrapResult

    d, R = int(rng.choice([2, 3, 4])), int(rng.choice([2, 5, 9]))
    pool = [gen.dag(rng, d, 0.6)[0] for _ in range(3)]
    Bs = np.array([pool[rng.randint(3)] * rng.choice([1, -1]) for _ in range(R)])
    Es = np.array([np.linalg.inv(np.eye(d) - b) - np.eye(d) for b in Bs])
    mk = lambda: BootstrapResult(Bs.copy(), Es.copy())
    Q = [lambda r: r.get_causal_direction_counts(), lambda r: r.get_causal_direction_counts(n_directions=2, min_causal_effect=0.7, split_by_causal_effect_sign=True),
         lambda r: r.get_directed_acyclic_graph_counts(), lambda r: r.get_directed_acyclic_graph_counts(n_dags=1, split_by_causal_effect_sign=True),
         lambda r: r.get_probabilities(), lambda r: r.get_probabilities(min_causal_effect=0.6), lambda r: r.get_total_causal_effects(), lambda r: r.get_total_causal_effects(min_causal_effect=0.6),
         lambda r: r.get_paths(0, d - 1), lambda r: r.get_paths(0, d - 1, min_causal_effect=0.6)]
    want = [q(mk()) for q in Q]
    r = mk()
    for i in rng.permutation(np.r_[np.arange(len(Q)), np.arange(len(Q))]):
        m.check("query-repeatable", equal(Q[i](r), want[i]), tag=f"bootstrap-result-q{i}")
    m.state("results", Bs)
