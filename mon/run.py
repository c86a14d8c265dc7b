"""Entry point: run one property's monitors over its workload."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(prop):
    """`known: {json}` lines of known_findings.txt; `fixed:` lines suppress nothing"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                f = json.loads(line[len("known:"):])
                if f["property"] == prop:
                    out.append(f)
    return out


_MOD = None
_ARGS = None


def _work(case):
    from mon import core

    return core.run_one(_MOD, _ARGS[0], case, _ARGS[1])


def _quiet():
    # native code (L-BFGS) prints straight to fd 1
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)


def main():
    global _MOD, _ARGS
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    repo = os.environ.get("VERIF_REPO", "/repo")

    import lingam

    if not os.path.realpath(lingam.__file__).startswith(os.path.realpath(repo) + "/"):
        print("lingam is not imported from", repo, lingam.__file__)
        return 2
    from mon import core

    mod = importlib.import_module("mon.props." + prop.lower())
    _MOD = mod
    limit = 300 if tier == "quick" else 1500
    _ARGS = (prop, limit)
    evidence_dir = os.path.join(VERIF, "evidence")
    os.makedirs(evidence_dir, exist_ok=True)

    if "--replay" in sys.argv:
        rec = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        cases = [rec["case"]]
        if rec["property"] != prop:
            print("replay file belongs to", rec["property"])
            return 2
    else:
        cases = mod.cases(seed, tier)
    only = os.environ.get("VERIF_ONLY")
    if only:
        cases = [c for c in cases if c["kind"] in only.split(",")]
    # expensive kinds first so that the pool drains evenly
    prio = getattr(mod, "SLOW_FIRST", [])
    cases.sort(key=lambda c: prio.index(c["kind"]) if c["kind"] in prio else len(prio))
    budget = float(os.environ.get("VERIF_BUDGET", 780 if tier == "quick" else 6 * 3600))

    results, skipped = [], 0
    jobs = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
    if jobs == 1:
        for c in cases:
            results.append(_work(c))
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(jobs, initializer=_quiet, maxtasksperchild=400) as pool:
            it = pool.imap_unordered(_work, cases, chunksize=1)
            for _ in range(len(cases)):
                left = budget - (time.time() - t0)
                try:
                    results.append(it.next(timeout=max(left, 1)))
                except mp.TimeoutError:
                    skipped = len(cases) - len(results)
                    pool.terminate()
                    break
    return report(prop, tier, seed, mod, cases, results, skipped, t0)


def report(prop, tier, seed, mod, cases, results, skipped, t0):
    results.sort(key=lambda r: json.dumps(r["case"], sort_keys=True))
    events, notes, skips, states = {}, {}, {}, set()
    kinds, secs = {}, {}
    for r in results:
        k = r["case"]["kind"]
        kinds[k] = kinds.get(k, 0) + 1
        secs[k] = secs.get(k, 0) + r["secs"]
        for d, s in ((events, r["events"]), (notes, r["notes"]), (skips, r["skips"])):
            for a, b in s.items():
                d[a] = d.get(a, 0) + b
        states.update(r["states"])
    known = known_findings(prop)
    fresh, hit = [], {}
    for r in results:
        for v in r["violations"]:
            f = next(
                (
                    f
                    for f in known
                    if f["monitor"] == v["monitor"] and f["tag"] == v["tag"]
                ),
                None,
            )
            if f is None:
                fresh.append(v)
            else:
                hit.setdefault(f["what"], 0)
                hit[f["what"]] += 1
    timeouts = [r["case"] for r in results if r["timeout"]]
    oom = [r["case"] for r in results if r["oom"]]
    # a case normally takes seconds; one that is still running after minutes hangs
    fresh += [{"monitor": "terminates", "tag": c["kind"], "case": c, "detail": {"limit_s": _ARGS[1]}} for c in timeouts]
    required = getattr(mod, "REQUIRED", {})
    missing = [k for k, n in required.items() if events.get(k, 0) < n]
    samples = []
    seen = set()
    for r in results:
        if r["case"]["kind"] not in seen and r["events"]:
            seen.add(r["case"]["kind"])
            samples.append({"case": r["case"], "events": r["events"]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(states),
            "rule": getattr(mod, "RULE", "")
            or "a case is one generated execution of the real code; distinct fingerprints "
            "of observed inputs/outputs on which at least one oracle decided are counted",
            "samples": samples[:8],
            "oracle_evaluations": int(sum(events.values())),
            "events_per_monitor": events,
            "cases_per_workload": kinds,
            "cpu_seconds_per_workload": {k: round(v, 2) for k, v in secs.items()},
            "inconclusive": skips,
            "notes": notes,
            "cases_not_run": skipped,
            "cases_timed_out": len(timeouts),
            "known_findings_seen": hit,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    print(
        f"{prop} [{tier}] seed={seed}: {len(results)} cases, {sum(events.values())} oracle "
        f"evaluations, {len(states)} distinct situations, {len(fresh)} violations, "
        f"{ev['wall_s']} s"
    )
    for k in sorted(events):
        print(f"   {k}: {events[k]}")
    for k in sorted(skips):
        print(f"   (inconclusive) {k}: {skips[k]}")
    if os.environ.get("VERIF_TIMES"):
        for k in sorted(secs, key=lambda k: -secs[k]):
            print(f"   time {k}: {kinds[k]} cases {secs[k]:.1f} cpu-s")
    for f in known:
        print(f"KNOWN-FINDING: property={prop} {f['what']} (seen {hit.get(f['what'], 0)}x)")
    if fresh:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        fresh.sort(key=lambda v: (v["monitor"], json.dumps(v["case"], sort_keys=True)))
        shown = set()
        n = 0
        for v in fresh:
            key = (v["monitor"], v["tag"])
            if key in shown:
                continue
            shown.add(key)
            path = os.path.join(rdir, f"{prop}-{n}.json")
            n += 1
            with open(path, "w") as fh:
                json.dump({"property": prop, **v}, fh, indent=1)
            print(f"  monitor={v['monitor']} tag={v['tag']} case={json.dumps(v['case'])}")
            print("   ", json.dumps(v["detail"])[:1500])
            print(f"VIOLATION property={prop} replay={path}")
            if n >= 10:
                break
        return 1
    if "--replay" in sys.argv or os.environ.get("VERIF_ONLY"):
        return 0
    if oom:
        print("INCONCLUSIVE: cases ran out of memory:", json.dumps(oom[:3]))
        return 2
    if missing:
        print("INCONCLUSIVE: monitors observed too little:", missing)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
