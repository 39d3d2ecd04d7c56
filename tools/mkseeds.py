"""Writes seeded/<id>/ from tools/seeds/*.py (SEED dicts): mkseeds.py [ids]"""
import os, sys, json, subprocess, shutil, tempfile, glob, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = [os.path.join(V, "tools/seedlib/lib.py")] + [os.path.join(V, "harness", x) for x in ("content.py", "driver.py", "mp4tools.py")]


def write(s):
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="mk-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
        for f, old, new in s["edits"]:
            p = os.path.join(tmp, "r/dashlivesim", f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"])
        base = [h.split()[0] for h in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).strip().split("\n") if h.split(" ", 1)[1] == "base"][0]
        # lines taken away have to be lines of the original
        orig = 0
        for f, old, new in s["edits"]:
            lines = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", "dashlivesim/" + f], text=True).split("\n")
            text = open("/repo/dashlivesim/" + f).read()
            a = text[:text.index(old)].count("\n")
            for l in lines[a:a + old.count("\n") + 1]:
                orig += l.startswith("^") or l.split()[0].lstrip("^")[:30] == base[:30]
        if not orig:
            print(s["id"], "changes no original line!")
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        shutil.rmtree(tmp)
    for f in LIB:
        shutil.copy(f, d)
    open(d + "/demo.py", "w").write("from lib import *\n\n" + s["demo"].strip("\n") + "\n\ndone()\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nVERIF_REPO="$PWD" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


if __name__ == "__main__":
    for p in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
        for s in runpy.run_path(p)["SEEDS"]:
            if len(sys.argv) == 1 or s["id"] in sys.argv[1:]:
                write(s)
                print(s["id"])
