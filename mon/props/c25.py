"""C25: drawn and printed graphs show exactly the edges of the input."""
import contextlib
import html
import io
import json
import re
import subprocess
from collections import Counter

import numpy as np
import lingam
from lingam.utils import make_dot, make_dot_highlight, print_causal_directions, print_dagc

from mon import gen, oracle

RULE = (
    "weighted graphs of 2-9 variables (acyclic, cyclic, with unresolved pairs, wide lagged matrices), coefficients on both sides of the limit, labels of many kinds (spaces, quotes, colons, unicode, arrays), "
    "every decoration option; the produced source is read back by graphviz itself and compared element by element; printed summaries of real and synthetic bootstrap counts are parsed back; distinct by (graph, options)"
)
REQUIRED = {"nodes": 250, "edges": 250, "unresolved": 60, "prediction": 60, "path-edges": 50, "path-nodes": 50, "cycle-edges": 60, "highlight-nodes": 150, "highlight-edges": 150,
            "highlight-clusters": 150, "printed-directions": 100, "printed-dags": 100, "input-kept": 300}
SLOW_FIRST = ["dot", "highlight"]

WORDS = ["alpha", "x0", "x 1", 'say "hi"', "a:b", "b:c:d", "1", "42", "node", "digraph", "größe", "x'y", "A/B", "p->q", "{z}", "u|v", "tab-2", "x_1", "Y", "mean[t-1]", "50%", "a,b", "-3", "x;y", "#k"]


def cases(seed, tier):
    def f(i, r):
        return {"d": int(r.choice([2, 3, 4, 5, 6, 9])) if i % 7 else 13, "shape": ["dag", "cyclic", "sparse", "empty", "full", "dag", "chain", "ring"][int(r.randint(8))], "labels": ["none", "list", "array", "none", "tuple"][i % 5], "limit": [None, 0.0, 0.5, 0.01, 1][int(r.randint(5))]}

    return gen.spread(seed, tier, [
        ("dot", 700, 4000, lambda i, r: dict(f(i, r), nan=i % 4 == 2, deco=["plain", "coefs", "importance", "features", "path", "cycle", "wide", "path", "both"][i % 9])),
        ("highlight", 400, 2000, lambda i, r: dict(f(i, r), deco=["plain", "path", "cycle", "both"][i % 4])),
        ("printed", 400, 1500, lambda i, r: {"d": int(r.choice([2, 3, 5, 12])), "N": int(r.choice([1, 3, 7, 30, 200])), "sign": i % 2 == 1, "labels": ["none", "list", "array"][i % 3], "real": i % 10 == 4}),
    ])


def read_dot(src):
    """what graphviz understands: nodes {id: attrs}, edges [(tail id, head id, attrs)], clusters {name: (attrs, ids)}"""
    for engine in ("dot", "osage", "circo"):  # only the structure is read: an engine may fail to lay it out
        r = subprocess.run(["dot", "-Tdot_json", "-K" + engine], input=src.encode(), capture_output=True, timeout=60)
        if r.returncode == 0:
            break
    else:
        return None
    j = json.loads(r.stdout.decode("utf-8", "replace"))
    nodes, clusters, by = {}, {}, {}
    for o in j.get("objects", []):
        if "nodes" in o or o["name"].startswith("cluster") and "pos" not in o and "label" in o and o["label"] != "\\N" and "_subgraph_cnt" in o:
            clusters[o["name"]] = (o, o.get("nodes", []))
        elif "rank" in o and o.get("label") is None:
            continue
        else:
            by[o["_gvid"]] = o["name"]
            o["text"] = html.unescape(o.get("label", "\\N").replace("\\N", o["name"]))
            nodes[o["name"]] = o
    edges = [(by[e["tail"]], by[e["head"]], e) for e in j.get("edges", [])]
    clusters = {k: (a, [by[i] for i in ids]) for k, (a, ids) in clusters.items()}
    return nodes, edges, clusters


def adjacency(rng, c):
    d = c["d"]
    s = c["shape"]
    if s == "empty":
        B = np.zeros((d, d))
    elif s in ("chain", "ring"):
        B, q = np.zeros((d, d)), rng.permutation(d)
        for k in range(1 if s == "chain" else 0, d):
            B[q[k], q[k - 1]] = rng.choice([-1, 1]) * rng.uniform(0.02, 2.0)
        if rng.rand() < 0.4:
            k = int(rng.randint(1, d))
            B[q[k], q[rng.randint(k)]] = 0.7
    elif s == "full" and d > 9:
        B, _ = gen.dag(rng, d, 0.4, 0.02, 2.0)
    else:
        B, _ = gen.dag(rng, d, {"dag": 0.5, "cyclic": 0.3, "sparse": 1.0 / d, "full": 1.0}[s], 0.02, 2.0)
    if s == "cyclic":
        for _ in range(rng.randint(1, 4)):
            i, j = rng.choice(d, 2, replace=False)
            B[i, j] = rng.uniform(-2, 2)
        if rng.rand() < 0.2:
            B[0, 0] = 0.8
    if rng.rand() < 0.3:  # some coefficients below the default limit
        nz = np.argwhere(B != 0)
        for i, j in nz[: max(1, len(nz) // 3)]:
            B[i, j] = rng.choice([-1, 1]) * rng.uniform(0.001, 0.009)
    if rng.rand() < 0.15:
        B = np.round(B * 2).astype(int)
    return B


def labelled(rng, d, kind):
    if kind == "none":
        return None, [f"x{i}" for i in range(d)]
    w = [str(v) for v in rng.permutation(WORDS)[:d]]
    w += [f"{a}#{i}" for i, a in enumerate(w * 4)][: d - len(w)]
    return {"list": list(w), "array": np.array(w), "tuple": tuple(w)}[kind], w


def simple_paths(E, a, b):
    """all simple directed paths a -> b; E[i, j]: j -> i"""
    out = []

    def rec(p):
        if p[-1] == b:
            out.append(tuple(p))
            return
        for w in range(len(E)):
            if E[w, p[-1]] and w not in p:
                rec(p + [w])

    if a != b:
        rec([a])
    return out


def cyclic_edges(E):
    """edges lying on a directed cycle"""
    R = oracle.ancestors_closure(E)
    return {(j, i) for i in range(len(E)) for j in range(len(E)) if E[i, j] and (i == j or R[j, i])}


def case_dot(m, rng, c):
    d = c["d"]
    B = adjacency(rng, c)
    deco = c["deco"]
    kw = {}
    if deco == "wide":  # effects at several lags side by side
        B = np.hstack([np.array(B, float)] + [rng.uniform(-1, 1, (d, d)) * (rng.rand(d, d) < 0.5) for _ in range(rng.randint(1, 3))])
        kw["ignore_shape"] = True
    B0 = np.array(B, float)
    nan = []
    if c["nan"] and deco not in ("wide",):
        B = np.array(B, float)
        for _ in range(rng.randint(1, 4 if rng.rand() < 0.6 else d * d)):
            i, j = [int(v) for v in rng.choice(d, 2, replace=False)]
            B[i, j] = B[j, i] = np.nan
            B0[i, j] = B0[j, i] = 0
        nan = [(i, j) for i in range(d) for j in range(i) if np.isnan(B[i, j])]
    labels, names = labelled(rng, B.shape[1], c["labels"])
    if labels is not None:
        kw["labels"] = labels
    limit = 0.01
    if c["limit"] is not None:
        kw["lower_limit"] = limit = c["limit"]
    E = np.abs(B0) > limit
    feats, coefs = [], None
    ptarget = "Y(pred)"
    if deco in ("coefs", "importance", "features"):
        feats = [int(v) for v in rng.permutation(B.shape[1])[: rng.randint(1, B.shape[1] + 1)]]
        kw["prediction_feature_indices"] = feats
        if rng.rand() < 0.4:
            kw["prediction_target_label"] = ptarget = "target: T"
        if rng.rand() < 0.4:
            kw["prediction_line_color"] = "blue"
        if deco == "coefs":
            coefs = rng.uniform(-1, 1, len(feats)) * (rng.rand(len(feats)) < 0.8) * rng.choice([1, 1, 0.03], len(feats))
            kw["prediction_coefs"] = coefs
        elif deco == "importance":
            coefs = rng.randint(0, 50, len(feats))
            kw["prediction_feature_importance"] = coefs
    col = "black"
    if deco in ("path", "both"):
        a, b = [int(v) for v in rng.choice(d, 2, replace=False)]
        kw["path"] = (a, b)
        if rng.rand() < 0.6:
            kw["path_color"] = col = "green"
    if deco in ("cycle", "both"):
        kw["detect_cycle"] = True
    arg = B.copy()
    g = make_dot(arg, **kw)
    m.check("input-kept", np.array_equal(np.asarray(arg, float), np.asarray(B, float), equal_nan=True))
    R = read_dot(g.source)
    if not m.check("readable", R is not None, src=g.source):
        return
    nodes, edges, _ = R
    text = {k: o["text"] for k, o in nodes.items()}
    want = Counter(names + ([ptarget] if feats else []))
    m.check("nodes", Counter(text.values()) == want, got=sorted(text.values()), want=names, src=g.source)
    both = [e for e in edges if e[2].get("dir") == "both"]
    pred = [e for e in edges if feats and text[e[1]] == ptarget and e[2].get("dir") != "both"]
    real = [e for e in edges if e not in both and e not in pred]
    got = Counter((text[t], text[h], e.get("label", "")) for t, h, e in real)
    exp = Counter((names[j], names[i], f"{B0[i, j]:.2f}") for i in range(B.shape[0]) for j in range(B.shape[1]) if E[i, j])
    m.check("edges", got == exp, got=sorted(got), want=sorted(exp), limit=limit)
    m.check("unresolved" if nan else "none-unresolved", Counter(frozenset((text[t], text[h])) for t, h, _ in both) == Counter(frozenset((names[i], names[j])) for i, j in nan), got=[(text[t], text[h]) for t, h, _ in both], want=nan)
    if feats:
        if deco == "coefs":
            pe = Counter((names[f], f"{v:.2f}") for f, v in zip(feats, coefs) if abs(v) > limit)
        elif deco == "importance":
            pe = Counter((names[f], f"({v})") for f, v in zip(feats, coefs))
        else:
            pe = Counter((names[f], "") for f in feats)
        pc = kw.get("prediction_line_color", "red")
        m.check("prediction", Counter((text[t], e.get("label", "")) for t, h, e in pred) == pe and all(e.get("color") == pc and e.get("style") == "dashed" for _, _, e in pred), got=[(text[t], e) for t, h, e in pred], want=sorted(pe))
    index = {n: i for i, n in enumerate(names)}
    if "path" in kw:
        ps = simple_paths(E, a, b)
        pe = {(names[u], names[v]) for p in ps for u, v in zip(p, p[1:])}
        got = {(text[t], text[h]) for t, h, e in real if e.get("penwidth") == "2" and e.get("color") == col}
        m.check("path-edges", got == pe, got=sorted(got), want=sorted(pe))
        on = {n for e in pe for n in e}
        m.check("path-nodes", {o["text"] for o in nodes.values() if o.get("color") == col} == on, want=sorted(on))
        m.check("path-ends", {o["text"] for o in nodes.values() if o.get("peripheries") == "2"} == {names[a], names[b]})
    else:
        m.check("no-path", not any(e.get("penwidth") == "2" for _, _, e in real) and not any(o.get("peripheries") == "2" for o in nodes.values()))
    ce = {(names[u], names[v]) for u, v in cyclic_edges(E)} if kw.get("detect_cycle") else set()
    m.check("cycle-edges", {(text[t], text[h]) for t, h, e in real if e.get("style") == "dashed"} == ce, want=sorted(ce))
    m.state(np.asarray(B, float), str(sorted(kw)))


def case_highlight(m, rng, c):
    d = c["d"]
    B = adjacency(rng, c)
    np.fill_diagonal(B, 0)
    labels, names = labelled(rng, d, c["labels"])
    kw = {}
    if labels is not None:
        kw["labels"] = labels
    B0 = np.array(B, float)
    if c["limit"] is not None:
        kw["lower_limit"] = c["limit"]
        B0[np.abs(B0) < c["limit"]] = 0
    E = np.abs(B0) > 1e-8
    t = int(rng.randint(d))
    md, ma = [None if rng.rand() < 0.5 else int(rng.randint(0, 4)) for _ in range(2)]
    if md is not None:
        kw["max_dsc"] = md
    if ma is not None:
        kw["max_anc"] = ma
    others = rng.rand() < 0.6
    if not others:
        kw["draw_others"] = False
    if rng.rand() < 0.4:
        kw["cmap"] = "cool"
    col = "black"
    deco = c["deco"]
    if deco in ("path", "both"):
        a, b = [int(v) for v in rng.choice(d, 2, replace=False)]
        kw["path"] = (a, b)
        col = "green"
        kw["path_color"] = col
    if deco in ("cycle", "both"):
        kw["detect_cycle"] = True
    arg = B.copy()
    g = make_dot_highlight(arg, t, **kw)
    m.check("input-kept", np.array_equal(arg, B))
    R = read_dot(g.source)
    if not m.check("readable", R is not None, src=g.source):
        return
    nodes, edges, clusters = R
    shown = {k: o for k, o in nodes.items() if o.get("style") != "invis"}

    def levels(M, limit):
        out, level, k = {t: 0}, [t], 0
        while level and (limit is None or k < limit):
            k += 1
            level = [i for i in range(d) if i not in out and any(M[i, j] for j in level)]
            for i in level:
                out[i] = k
        del out[t]
        return out

    dsc, anc = levels(E, md), levels(E.T, ma)
    rest = [i for i in range(d) if i != t and i not in dsc and i not in anc]
    want = {"target": [t]}
    for k, n in dsc.items():
        want.setdefault(f"descendant {n}", []).append(k)
    for k, n in anc.items():
        want.setdefault(f"ancestor {n}", []).append(k)
    if others and rest:
        want["others"] = rest
    got = {o["label"]: sorted(shown[i]["text"] for i in ids if i in shown) for o, ids in clusters.values()}
    m.check("highlight-clusters", got == {k: sorted(names[i] for i in v) for k, v in want.items()}, got=got, want=want, graph=B0, t=t)
    m.check("highlight-nodes", Counter(o["text"] for o in shown.values()) == Counter(names[i] for v in want.values() for i in v), got=sorted(o["text"] for o in shown.values()))
    mult = Counter(i for v in want.values() for i in v)
    exp = Counter()
    for i in range(d):
        for j in range(d):
            if E[i, j]:
                exp[(names[j], names[i], f"{B0[i, j]:.2f}")] += mult[i] * mult[j]
    exp = Counter({k: v for k, v in exp.items() if v})
    got = Counter((nodes[u]["text"], nodes[v]["text"], e.get("label", "")) for u, v, e in edges)
    m.check("highlight-edges", got == exp, got=sorted(got.items()), want=sorted(exp.items()), t=t)
    if "path" in kw:
        pe = {(names[u], names[v]) for p in simple_paths(E, a, b) for u, v in zip(p, p[1:]) if mult[u] and mult[v]}
        g2 = {(nodes[u]["text"], nodes[v]["text"]) for u, v, e in edges if e.get("penwidth") == "2" and e.get("color") == col}
        m.check("path-edges", g2 == pe, got=sorted(g2), want=sorted(pe))
        on = {names[v] for p in simple_paths(E, a, b) for v in p if mult[v]}
        m.check("path-nodes", {o["text"] for o in shown.values() if o.get("color") == col} == on, want=sorted(on))
        m.check("path-ends", {o["text"] for o in shown.values() if o.get("peripheries") == "2"} == {names[i] for i in (a, b) if mult[i]})
    ce = {(names[u], names[v]) for u, v in cyclic_edges(E) if mult[u] and mult[v]} if kw.get("detect_cycle") else set()
    m.check("cycle-edges", {(nodes[u]["text"], nodes[v]["text"]) for u, v, e in edges if e.get("style") == "dashed"} == ce, want=sorted(ce))
    m.state(B0, t, str(sorted(kw)))


def printed(fn, *a, **k):
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        fn(*a, **k)
    return f.getvalue().splitlines()


def case_printed(m, rng, c):
    d, N = c["d"], c["N"]
    labels, names = labelled(rng, d, c["labels"])
    kw = {} if labels is None else {"labels": labels}
    if c["real"]:
        X, _, _ = gen.linear_data(rng, 80, min(d, 4), 0.6)
        N = 4
        res = lingam.DirectLiNGAM().bootstrap(X, N)
        cdc = res.get_causal_direction_counts(split_by_causal_effect_sign=c["sign"])
        dagc = res.get_directed_acyclic_graph_counts(split_by_causal_effect_sign=c["sign"])
        kw = {} if labels is None else {"labels": labels}
    else:
        k = int(rng.randint(0, 8)) if rng.rand() < 0.8 else int(rng.randint(60, 150))
        cdc = {"from": [int(v) for v in rng.randint(0, d, k)], "to": [int(v) for v in rng.randint(0, d, k)], "count": sorted((int(v) for v in rng.randint(1, N + 1, k)), reverse=True)}
        if c["sign"]:
            cdc["sign"] = [float(v) for v in rng.choice([-1, 1], k)]
        dags = []
        for _ in range(rng.randint(0, 5) if rng.rand() < 0.8 else rng.randint(60, 150)):
            k = int(rng.randint(0, 6))
            g = {"from": [int(v) for v in rng.randint(0, d, k)], "to": [int(v) for v in rng.randint(0, d, k)]}
            if c["sign"]:
                g["sign"] = [float(v) for v in rng.choice([-1, 1], k)]
            dags.append(g)
        dagc = {"dag": dags, "count": sorted((int(v) for v in rng.randint(1, N + 1, len(dags))), reverse=True)}

    def row(x, i):
        s = "" if "sign" not in x else ("(b>0)" if x["sign"][i] > 0 else "(b<0)")
        return f"{names[x['to'][i]]} <--- {names[x['from'][i]]} {s}"

    def norm(s):
        return re.sub(r"\s+", " ", s).strip()

    want = [norm(f"{row(cdc, i)} ({100 * cdc['count'][i] / N:.1f}%)") for i in range(len(cdc["from"]))]
    got = [norm(s) for s in printed(print_causal_directions, cdc, N, **kw)]
    m.check("printed-directions", got == want, got=got, want=want)
    want = []
    for k, (g, n) in enumerate(zip(dagc["dag"], dagc["count"])):
        want.append(f"DAG[{k}]: {100 * n / N:.1f}%")
        want += [norm(row(g, i)) for i in range(len(g["from"]))]
    got = [norm(s) for s in printed(print_dagc, dagc, N, **kw)]
    m.check("printed-dags", got == want, got=got, want=want)
    m.state(str(want))
