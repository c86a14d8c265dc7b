#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts below + the workload rules and monitor names of mon/props + known_findings.txt + seeded/."""
import ast
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# property -> (oracle, what the tests cannot settle)
TEXT = {
    "C01": ("The order and matrix read back from the fitted object: multiset equality with 0..d-1 (blocks flattened), every non-zero entry must point from an earlier to a later position, nilpotency of the boolean matrix.",
            "The suite fits each estimator to a few well-behaved data sets; a violation needs ties, degenerate columns, options or data that do not follow the model."),
    "C02": ("The constraint matrix itself: forbidden entries must be zero, required paths must agree with the order; contradictory matrices (direct or by transitivity) must be refused. `make_prior_knowledge` is compared with its arguments entry by entry.",
            "Constraint x estimator x data: a constraint is only tested when the data pull the other way, so data are generated against the constraints."),
    "C03": ("Each row is refitted by numpy lstsq (pruned support) and its support re-selected by an independent adaptive-lasso path + BIC; units are varied. Selections within 1e-6 of a tie are inconclusive.",
            "A wrong threshold, unit or support needs particular scales, sizes or correlated predictors."),
    "C04": ("Path-sum by matrix series on exact DAGs; adjusted regression by lstsq on the parents of the cause; warning against the order; NaN for unresolved pairs.",
            "All ordered pairs of many graphs, including cancelling and tiny weights."),
    "C05": ("Every step of every fitted order is replayed: residuals by lstsq, scores by an independent implementation of the documented measure, candidates from prior knowledge. The chosen variable must attain the best score up to rounding.",
            "The trace specification is checked step by step; tests only see final orders of clean data."),
    "C06": ("Metamorphic pairs: same estimator on related inputs; the second result must be the transformed first.",
            "Relations that hold for all inputs cannot be sampled by expected values."),
    "C07": ("A write sanitizer: deep digests of every argument (also read-only and aliased arrays) before and after each public call, digests of results before and after queries and refits.",
            "Tests do not look at their arguments afterwards."),
    "C08": ("Histories: random operations on one instance and on the process-wide generators, then a fit/bootstrap compared bit by bit (or within rounding) with a fresh instance.",
            "State leaks need a particular sequence of calls."),
    "C09": ("`fit` is logged on the instance while bootstrap runs; each replicate is refitted by a fresh instance on its recorded rows; rows must be original rows, sizes must match, resamples must differ.",
            "Offline check over the log; tests compare shapes only."),
    "C10": ("Brute-force recount of directions, graphs, probabilities, total effects, medians with exact threshold, sign and NaN semantics.",
            "Ties, exact thresholds, undefined and repeated graphs, long collections."),
    "C11": ("Recursive enumeration of simple paths, products of weights, medians and probabilities over replicates.",
            "Graphs up to 23 variables, cyclic graphs, thresholds met exactly."),
    "C12": ("Explicitly centred Gram matrices and the gamma approximation written out, plus metamorphic relations.",
            "Long samples, multivariate samples, ties and other units."),
    "C13": ("Full-rank regularised kernel canonical correlation by a dense generalised eigenproblem; 4e-3 tolerance for the low-rank approximation.",
            "Both sides of the parameter switch at n = 1000; discrete and same-variable samples."),
    "C14": ("Residuals rebuilt from the public matrices (per group, time point, lag), HSIC by the reference of C12; NaN exactly for unresolved variables.",
            "Evaluation on other data, wide models, all estimators."),
    "C15": ("Re-execution of the documented search (Shapiro, Pearson, HSIC/F-correlation, MLHSICR) with fuzzy decisions: a case is judged only if no decision is within rounding of its threshold. Thresholds are also placed next to observed p-values.",
            "Every decision of the sequence is a branch a test may not reach."),
    "C16": ("As C15 for the bottom-up search (Fisher combination, prior knowledge, regressors), plus coefficients and exact NaN pattern.",
            "As C15."),
    "C17": ("As C15 for CAM-UV and its multi-group variant (pygam regressions trusted).",
            "As C15."),
    "C18": ("ICA permutation/triangularity re-derived from an independent FastICA with the same seed; moment ratios of the high-dimensional search and HSIC sums of RESIT recomputed step by step.",
            "Step traces, random options; tests see final results of clean data."),
    "C19": ("Reduced form by lstsq, information criteria by formula, residual recursion, (I-B0) identities, pruning by C03's reference, total effects both as regression and by path sums over the unrolled graph.",
            "Lags > 1, pruning x supplied coefficients x criteria: seven defects were found here."),
    "C20": ("As C19 for AR + MA parts; statsmodels trusted for the estimated reduced form.",
            "As C19."),
    "C21": ("Per time point and lag recomputation on panels whose effects differ everywhere, so that any index slip changes a number.",
            "More than one lag, more than three time points, prior knowledge."),
    "C22": ("Solves the intervened linear system and averages the predictor over it; inverse question by bisection-free algebra; invariances for non-descendants.",
            "Ten predictor kinds, repeated use of one object, permuted orders."),
    "C23": ("Every simulated column recomputed from simulated causes with independently trained models and conserved residual multisets.",
            "Sequences of runs with changes, retraining in between, lags, unresolved pairs."),
    "C24": ("Breadth-first search over single entries; orthogonal projection for effect removal.",
            "Weights whose sums cancel, many variables, several roots."),
    "C25": ("The DOT source is parsed by graphviz itself (`dot -Tjson`) and compared element by element; printed text is parsed back.",
            "Label kinds x decorations x matrix kinds."),
    "C26": ("Penalised likelihood recomputed; every acyclic reorientation of the global estimate scored; result must not be worse than any.",
            "Mixed-type data that do not follow the model, option combinations."),
    "C27": ("Independent confirmatory analysis and penalised regressions of the factors, metamorphic relabelling and sign flips, the true model for clean data.",
            "Numbers of factors/indicators, signs, units, refits."),
    "C28": ("Recording components log every call; observed cells are conserved bit by bit, imputed cells are exactly the missing ones, replicates are refitted.",
            "Masks x containers x components that write into their input."),
    "C29": ("Generator: every cell recomputed through recorded user models. Tuner: scripted candidates with known Markov blankets, recording regressors, exact scores and selection rule.",
            "Role combinations, repeated use, splitters, ties at the threshold."),
    "C30": ("Extended-precision likelihoods; `semopy.Model` wrapped to record the description; closed-form discrepancy; a second, relabelled model.",
            "Scales of eight decades, isolated variables, NaN pairs, ordinal columns."),
    "C31": ("Fault injection: forbidden values must raise, permitted boundary values must not.",
            "Each entry point x each restriction x several values."),
    "C32": ("Artists are read back from the figure; points, lines and boxes recomputed from a separately trained estimator; recording regressors log what they were trained on.",
            "Replicates with unequal resamples, weights other than one, used figures."),
}

HEAD = open(os.path.join(ROOT, "tools", "design_head.md")).read()
TAIL = open(os.path.join(ROOT, "tools", "design_tail.md")).read()


def consts(pid):
    out = {}
    tree = ast.parse(open(os.path.join(ROOT, "mon", "props", pid.lower() + ".py")).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) in ("RULE", "REQUIRED"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def main():
    o = [HEAD.rstrip(), "", "## The properties", ""]
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        k = consts(p["id"])
        orc, why = TEXT[p["id"]]
        o += [f"### {p['id']} {p['title']}", "",
              f"* Workload: {k.get('RULE', 'see the module')}.",
              f"* Oracle: {orc}",
              "* Monitors (fewest events per quick run): " + ", ".join(f"`{n}` {v}" for n, v in k.get("REQUIRED", {}).items()) + ".",
              f"* Beyond the tests: {why}", ""]
    o += [TAIL.rstrip(), "", "## Planted changes (seeded/)", "", "| id | property whose check reports it | what it breaks |", "|---|---|---|"]
    S = os.path.join(ROOT, "seeded")
    for d in sorted(os.listdir(S)):
        j = json.load(open(os.path.join(S, d, "meta.json")))
        o.append(f"| {d} | {j['property']} | {j['what_it_breaks']} |")
    o += ["", "## Defects found and repaired", "",
          "Each is a `fix:` commit in /repo; the property's monitors report the violation again if it returns.", ""]
    for line in open(os.path.join(ROOT, "known_findings.txt")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
        if m:
            o.append(f"* {m[1]} ({m[2]}): {m[3]}")
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(o) + "\n")


main()
