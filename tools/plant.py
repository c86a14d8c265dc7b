"""Helper for planting bugs: plant(id, property, edits, needs, breaks, demo) writes seeded/<id>/.

edits: list of (file, old, new); the patch is made against /repo's HEAD in a scratch copy.
`python3 tools/plant.py verify ID...` confirms demo/tests and runs the property's check on a patched scratch copy.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
    sh(f"git -C /repo archive HEAD | tar -x -C {d}")
    sh("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base", cwd=d)
    return d


def plant(id, prop, edits, needs, breaks, demo):
    d = scratch()
    try:
        for f, a, b in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = sh("git diff", cwd=d).stdout
        assert diff
        o = os.path.join(SEED, id)
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, "patch.diff"), "w").write(diff)
        open(os.path.join(o, "demo.py"), "w").write(demo.lstrip("\n"))
        open(os.path.join(o, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1\n'
            'export MPLCONFIGDIR="$(mktemp -d)"; trap \'rm -rf -- "$MPLCONFIGDIR"\' EXIT\n'
            'PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(o, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(o, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(d)


def verify(id, tests=True, check=True):
    o = os.path.join(SEED, id)
    prop = json.load(open(os.path.join(o, "meta.json")))["property"]
    d = scratch()
    out = [id, prop]
    try:
        r = sh(f"timeout 300 bash {o}/demo.sh", cwd=d)
        out.append("demo-clean=%d" % r.returncode)
        if r.returncode:
            print(r.stdout[-500:], r.stderr[-1500:])
        a = sh(f"git apply {o}/patch.diff", cwd=d)
        if a.returncode:
            out.append("APPLY FAILED")
            print(*out, flush=True)
            return
        r = sh(f"timeout 300 bash {o}/demo.sh", cwd=d)
        out.append("demo-bug=%d" % r.returncode)
        if tests:
            env = dict(os.environ, PYTHONPATH=d, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
            r = sh("timeout 900 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=600 -n 8 --randomly-seed=1 --randomly-dont-reorganize 2>&1 | tail -8", cwd=d, env=env)
            out.append("tests: " + r.stdout.strip().split("\n")[-1])
        if check:
            r = sh(f"timeout 900 {V}/check.sh {prop} quick", env=dict(os.environ, VERIF_REPO=d))
            hit = [l.strip()[:110] for l in r.stdout.split("\n") if l.strip().startswith("monitor=")]
            out.append("check=%d %s" % (r.returncode, hit[:2]))
    finally:
        shutil.rmtree(d)
    print(*out, flush=True)


if __name__ == "__main__" and sys.argv[1] == "verify":
    ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(SEED))
    for i in ids:
        verify(i, tests="--no-tests" not in sys.argv, check="--no-check" not in sys.argv)
