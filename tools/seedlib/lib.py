"""Helpers of the demonstrations: synthetic content in a scratch folder and requests to the application at a simulated time."""
import atexit, os, shutil, sys, tempfile
from xml.etree import ElementTree as ET
sys.dont_write_bytecode = True
os.environ.setdefault("VERIF_REPO", os.getcwd())
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import content, driver, mp4tools as M   # noqa

sys.path.insert(0, os.environ["VERIF_REPO"])
NS = "{urn:mpeg:dash:schema:mpd:2011}"
DIR = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, DIR, True)
ROOT, CFG = os.path.join(DIR, "content"), os.path.join(DIR, "cfg")
os.makedirs(ROOT), os.makedirs(CFG)
SERVER = driver.Server(CFG, ROOT)
FAILED = []


def make(spec):
    return content.Content(spec, ROOT, CFG)


def simple(name="tp", D=2, n=4, ts=90000, first=1, tsbd=10, **kw):
    return make(dict(name=name, first=first, n=n, D=D, tsbd=tsbd, media=kw or {"video": dict(ts=ts, reps=["V1"]), "audio": dict(ts=48000, reps=["A1"])}))


def get(uri, t, **kw):
    return SERVER.get(uri, t, **kw)


def mpd(uri, t):
    r = get(uri, t)
    assert r.status == 200, (uri, t, r.status, r.body)
    return ET.fromstring(r.body)


def periods(root):
    return root.findall(NS + "Period")


def timeline(aset):
    "all segments (start, duration) of the timeline of an adaptation set"
    out, t = [], None
    tl = aset.find(NS + "SegmentTemplate").find(NS + "SegmentTimeline")
    for s in tl.findall(NS + "S"):
        if s.get("t") is not None:
            t = int(s.get("t"))
        for _ in range(int(s.get("r", "0")) + 1):
            out.append((t, int(s.get("d"))))
            t += int(s.get("d"))
    return out


def aset(period, ct):
    return [a for a in period.findall(NS + "AdaptationSet") if a.get("contentType") == ct][0]


def fragment(body, *trex):
    d = {}
    for x in trex:
        d.update(M.trex_defaults(x))
    return M.fragment(body, d)


def check(ok, *what):
    if not ok:
        FAILED.append(what)
        print("FAILED:", *what)


def done():
    print("failed" if FAILED else "passed")
    sys.exit(1 if FAILED else 0)


def tool(module, *args):
    "runs a tool of the repository in a scratch folder; (status, output, folder)"
    import subprocess
    d = tempfile.mkdtemp(dir=DIR)
    p = subprocess.run([sys.executable, "-B", "-m", "dashlivesim." + module] + [str(x) for x in args], cwd=d, stdin=subprocess.DEVNULL,
                       env=dict(os.environ, PYTHONPATH=os.environ["VERIF_REPO"], PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    return p.returncode, p.stdout.decode("utf-8", "replace"), d
