"""Validates planted bugs: tools/tryseeds.py [--checks C01,C02|own|all|none] [ids...]
Each patch is applied to a scratch copy of /repo: the tests must pass, the demo must pass without and fail with it;
then the checks are run against the copy."""
import sys, os, json, subprocess, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def one(i, checks):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed-")
    repo, demo = os.path.join(tmp, "repo"), os.path.join(tmp, "demo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
        shutil.copytree(d, demo)
        for f in ("patch.diff", "meta.json"):
            os.remove(os.path.join(demo, f))
        os.makedirs(os.path.join(repo, "dashlivesim/tests/out_test"), exist_ok=True)
        rc, out = run(["bash", os.path.join(demo, "demo.sh")], repo)
        if rc != 0:
            return i, meta["property"], "DEMO FAILS CLEAN", out[-600:]
        rc, out = run(["git", "apply", os.path.join(d, "patch.diff")], repo)
        if rc:
            return i, meta["property"], "PATCH", out
        rc, out = run(["bash", os.path.join(demo, "demo.sh")], repo)
        if rc == 0:
            return i, meta["property"], "DEMO PASSES PATCHED", out[-600:]
        rc, out = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "dashlivesim/tests"], repo)
        if rc:
            return i, meta["property"], "TESTS FAIL", out[-800:]
        res = {}
        cs = [meta["property"]] if checks == "own" else [] if checks == "none" else checks
        for c in cs:
            rc, out = run([PY, os.path.join(V, "harness", "run.py"), c], V, {"VERIF_REPO": repo, "VERIF_EVIDENCE": os.path.join(tmp, "ev")})
            res[c] = {0: "quiet", 1: "CAUGHT"}.get(rc, "rc%d" % rc) + ((" " + ",".join(sorted(set(l.split()[1] for l in out.split("\n") if l.strip().startswith("clause"))))) if rc == 1 else "")
            if rc not in (0, 1):
                res[c] += out[-500:]
        return i, meta["property"], "ok", res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    checks = "own"
    if "--checks" in a:
        k = a.index("--checks")
        checks = a[k + 1]
        del a[k:k + 2]
        if checks not in ("own", "none"):
            checks = ["C%02d" % x for x in range(1, 31)] if checks == "all" else checks.split(",")
    ids = a or sorted(os.listdir(os.path.join(V, "seeded")))
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda i: one(i, checks), ids):
            print(*r, flush=True)
