"""Plans, continued: what is inside of replies (boxes, chunks, multiplexing, text) and the HTTP level."""
import random, json, os, sys, tempfile
import contents, options, sess, gen
from content import LAYOUTS
from plans import plan, deep
import obs
from obs import NONE


def dconst(lay):
    return not LAYOUTS[lay]["trun"] & 0x100


def one_layout(lay, name, ts, **kw):
    D = 4
    m = dict(ts=ts, reps=["V1"], layout={"V1": lay}, nsamp=4 if dconst(lay) else 5, defdur=D * ts // 4, vary=False)
    m.update(kw)
    return dict(name=name, first=kw.pop("first", 1), n=3, D=D, tsbd=30, media={"video": m})


EPOCHS = [40, 4294967296 // 90000 - 6, 2 ** 31 // 1000 - 3, 2147483 + 11, 4294967 - 4, 4294967 + 5, 1000000004, 1735689600, 1900000012]


@plan("C03", needs=["C03.shape", "C03.samples", "C03.side", "C03.offsets", "C03.sidx", "C03.index", "C03.brands"])
def c03(c):
    c.model("Rewrite")
    specs = contents.layouts() + [contents.TP, contents.Q6]
    lab = c.lab(*specs)
    ns = [x["name"] for x in specs]
    c.gen(lab, ns, c.n(60, 900), "layouts, consecutive segments", maybe=["sidx", "scte", "base", "durs", "start", "epoch", "wide", "stop"], sweep="loop", kinds=["num", "num", "time"])
    c.gen(lab, ns, c.n(40, 600), "layouts, random", maybe=["sidx", "scte", "base", "loss", "start", "epoch", "wide", "mod", "zero", "snr", "off"], kinds=["num", "num", "num", "time"], depth=20)
    c.scenario(lab, "layouts x options x loop counts", [lambda n=n: rewrites(lab, n, c.n(5, 9)) for n in ns])


REWRITES = [dict(), dict(sidx=1), dict(scte35=3), dict(scte35=1, sidx=1), dict(baseurl=[("u", 10, 10)]), dict(baseurl=[("u", 10, 10)], sidx=1, scte35=1)]


def rewrites(lab, name, k):
    "every rewriting option at epochs before, at and after the limits of 32-bit decode times; the last segment of sessions"
    s = sess.Session(lab, name)
    D = s.c.D
    reps = sorted(x for x in s.c.reps if s.c.reps[x]["ct"] != "image")
    for o in REWRITES:
        oi = s.opt(o)
        ts = s.c.reps[reps[0]]["ts"]
        for e in EPOCHS[:k] + [2 ** 32 // ts]:
            for w in (0, 1, 2) if not o else (0, 1):
                n = e // D + w
                t = (n + 1) * D
                for r in reps:
                    s.seg(oi, [t, 125], r, n)
                if o.get("baseurl") and t % 60 < 50:
                    x = t - t % 20 + 10
                    s.seg(oi, [x, 0], reps[0], x // D - 1)
        if o.get("baseurl") is None:
            oo = dict(o, start=1000000000 // D * D, durs=[6 * D])
            oj = s.opt(oo)
            for n in (4, 5, 6):
                for r in reps:
                    s.seg(oj, [oo["start"] + (n + 1) * D, 0], r, n)
    return s


@plan("C16", needs=["C16." + x for x in ("shape", "samples", "number", "decode", "offsets", "cut", "pieces", "notbefore", "nodelay", "window", "tool")])
def c16(c):
    c.model("Chunks")
    specs = contents.layouts() + [contents.TP, contents.Q6, contents.ONE]
    specs = [x for x in specs if "saio" not in LAYOUTS.get(x["name"][3:], {}) and "extra" not in LAYOUTS.get(x["name"][3:], {})]
    lab = c.lab(*specs)
    ns = [x["name"] for x in specs]
    c.gen(lab, ns, c.n(60, 900), "chunked, at the live edge", always=["chunk"], maybe=["start", "ato", "atoinf", "snr", "off", "epoch", "wide", "tsbd"], sweep="window", kinds=["num"], dense=4,
          cts=["video", "audio"])
    c.gen(lab, ns, c.n(50, 900), "chunked, over a loop", always=["chunk"], maybe=["start", "ato", "snr", "off", "epoch", "wide"], sweep="loop", kinds=["num"], cts=["video", "audio"])
    c.scenario(lab, "cut positions", [lambda n=n: cuts(lab, n, c.n(12, 40)) for n in ns])
    c.scenario(lab, "repackaging tool", [lambda n=n: chops(lab, n, c.n(3, 20)) for n in ns])


def cuts(lab, name, k):
    "chunk durations around every sample boundary; requests at every phase of the segment"
    rnd = random.Random(name)
    s = sess.Session(lab, name)
    D = s.c.D
    reps = sorted(x for x in s.c.reps if s.c.reps[x]["ct"] in ("video", "audio"))
    for i in range(k):
        r = rnd.choice(reps)
        base = rnd.choice([1000000000, 20000 * D, 1735689600]) // D
        n = base + rnd.randrange(4)
        fr = s.c.frag(r, s.c.first + n % s.c.n)["frags"][0]["tracks"][0]["samples"]
        ts = s.c.reps[r]["ts"]
        acc, at = 0, []
        for x in fr:
            acc += x[1]
            at += [acc * 1000 // ts + d for d in (-1, 0, 1)]
        dur = rnd.choice([x for x in at + [D * 1000, D * 1000 + 500, D * 500] if x > 0])
        if dur * ts // 1000 <= 0:
            continue
        o = dict(chunkdur=dur, ato=rnd.choice([0, -1, D * 1000 - 500, D * 750]))
        oi = s.opt(o)
        for ms in rnd.sample(range(0, (D + 2) * 1000, 125), 5):
            t = n * D * 1000 + ms
            s.seg(oi, [t // 1000, t % 1000], r, n)
    return s


def chops(lab, name, k):
    "the tool that repackages a stored segment into chunks, called as a user does"
    from plans5 import tool, event
    rnd = random.Random("chop" + name)
    s = sess.Session(lab, name)
    s.opt({})
    reps = sorted(x for x in s.c.reps if s.c.reps[x]["ct"] in ("video", "audio"))
    for i in range(k):
        r = rnd.choice(reps)
        k0 = rnd.randrange(s.c.n)
        rep = s.c.reps[r]
        smp = s.c.frag(r, s.c.first + k0)["frags"][0]["tracks"][0]["samples"]
        acc, at = 0, []
        for x in smp:
            acc += x[1]
            at += [acc + d for d in (-1, 0, 1)]
        d = rnd.choice([x for x in at + [acc // 2, acc // 3, 2 * acc] if x > 0])
        src = os.path.join(s.c.root, s.c.name, rep["dir"], r)
        tmp = tempfile.mkdtemp(prefix="chop-", dir=lab.dir)
        out = os.path.join(tmp, "out.m4s")
        rc, said = tool(["-m", "dashlivesim.dashlib.chunker", str(d), os.path.join(src, "init.mp4"), os.path.join(src, "%d.m4s" % (s.c.first + k0)), out], tmp)
        body = open(out, "rb").read() if os.path.exists(out) else b""
        f = obs.seg_record(s.c, [r], Out(body)) if body else {"ok": False}
        event(s, {"k": "chop", "reps": [r], "k0": k0, "d": d, "rc": rc, "f": f}, "chunker %d %s/%s/%d.m4s" % (d, name, r, s.c.first + k0))
    return s


class Out(object):
    "the output of a tool seen as a reply"
    def __init__(self, body):
        self.body = body


def pairs(k, rnd):
    lays = sorted(LAYOUTS)
    allp = [(a, b) for a in lays for b in lays]
    rnd.shuffle(allp)
    first = [(x, lays[(i + 5) % len(lays)]) for i, x in enumerate(lays)]
    out = []
    for i, (a, b) in enumerate((first + allp)[:k]):
        tv, ta = (1000, 90000, 12800, 30000)[i % 4], (1000, 48000, 22050, 44100)[(i // 2) % 4]
        D = 4
        out.append(dict(name="mx%d" % i, first=1 + i % 3, n=3, D=D, tsbd=30, media={
            "video": dict(ts=tv, reps=["V1"], layout={"V1": a}, nsamp=4 if dconst(a) else 5, defdur=D * tv // 4, vary=False, initextra=i % 2 == 1, initver=i // 2 % 2),
            "audio": dict(ts=ta, reps=["A1"], layout={"A1": b}, nsamp=4 if dconst(b) else 3, defdur=D * ta // 4, vary=False, initver=i % 2)}))
        if i % 3 == 0:
            for m in out[-1]["media"].values():
                m["dir"] = ["x/", "x/y/", "x/y/z/"][i // 3 % 3]
    return out


@plan("C17", needs=["C17." + x for x in ("shape", "number", "tracks", "decode", "samples", "offsets", "single", "window", "lastmark", "inittracks", "initsame", "initwindow")])
def c17(c):
    c.model("Rewrite", "RewriteMux.cfg")
    specs = pairs(c.n(30, 289), random.Random(c.seed)) + [contents.TP]
    lab = c.lab(*specs)
    ns = [x["name"] for x in specs]
    c.gen(lab, ns, c.n(50, 500), "multiplexed, over a loop", maybe=["start", "sidx", "epoch", "wide", "snr", "durs", "off", "scte"], sweep="loop", kinds=["mux"], cts=["video"])
    c.gen(lab, ns, c.n(40, 500), "multiplexed, window edges", maybe=["start", "epoch", "wide", "snr", "durs", "stop", "tsbd", "ato", "mod", "init"], sweep="window", kinds=["mux"], dense=4, cts=["video"])
    c.scenario(lab, "layout pairs", [lambda n=n: muxes(lab, n) for n in ns])


def muxes(lab, name):
    s = sess.Session(lab, name)
    D = s.c.D
    a, v = [x for x in s.c.reps if s.c.reps[x]["ct"] == "audio"][0], [x for x in s.c.reps if s.c.reps[x]["ct"] == "video"][-1]
    for o in (dict(), dict(sidx=1), dict(start=1000000000, durs=[4 * D]), dict(start=1000000000, init=3)):
        oi = s.opt(o)
        for e in (40, 4294967 + 5, 1000000000, 1735689600):
            if "start" in o and e != 1000000000:
                continue
            for w in range(5):
                n = e // D + w - (o.get("start", 0) // D)
                for pair in ([a, v], [v, a]):
                    s.seg(oi, [e // D * D + (w + 1) * D, 0], pair, n)
            for d in (-4, -3, -2, 0, 1, 100, 1000):
                s.init(oi, [e + d, 0], [a, v] if d % 2 else [v, a])
    return s


@plan("C21", needs=["C21." + x for x in ("parse", "count", "times", "fraction", "clock", "lang", "number", "rest", "size", "decode")])
def c21(c):
    c.model("Retime")
    specs = []
    for i, (ts, cues, frac, ver, D, n) in enumerate([(1000, 2, 3, 1, 2, 4), (90000, 1, 3, 1, 6, 3), (10000000, 3, 3, 1, 10, 2), (1000, 0, 0, 0, 4, 5), (90000, 5, 1, 0, 8, 1), (1000, 2, 2, 1, 1, 60),
                                                    (1000, 4, 3, 1, 60, 61), (48000, 1, 3, 1, 30, 7)]):
        specs.append(dict(name="st%d" % i, first=1 + i, n=n, D=D, tsbd=60, media={"subtitles": dict(ts=ts, reps=["S1", "S2"], cues=cues, frac=frac, subver=ver, dir=["", "sub/t/"][i % 2], text=["", "rich"][i // 2 % 2])}))
    lab = c.lab(contents.TP, *specs)
    ns = ["tp"] + [x["name"] for x in specs]
    c.gen(lab, ns, c.n(60, 900), "subtitles over a loop", maybe=["start", "durs", "off", "snr", "epoch", "wide", "tsbd", "sidx", "scte", "base"], sweep="loop", kinds=["num", "num", "time"], cts=["subtitles"])
    c.gen(lab, ns, c.n(40, 600), "subtitles, random", maybe=["start", "off", "snr", "epoch", "wide", "zero", "mod", "tfdt"], kinds=["num", "num", "num", "time"], depth=16, cts=["subtitles"])
    c.scenario(lab, "hours and days", [lambda n=n: hours(lab, n) for n in ns])


def hours(lab, name):
    "around whole hours, hundred hours, a thousand hours, ... of content time"
    s = sess.Session(lab, name)
    D = s.c.D
    rid = [x for x in s.c.reps if s.c.reps[x]["ct"] == "subtitles"][-1]
    oi, oj = s.opt({}), s.opt(dict(sidx=1, snr=5))
    for h in (0, 1, 9, 10, 23, 24, 25, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 277777, 482136, 483000, 527777):
        for d in (-1, 0, 1):
            n = h * 3600 // D + d
            if n >= 0:
                s.seg(oi, [(n + 1) * D, 0], rid, n)
                s.seg(oj, [(n + 1) * D, 500], rid, n + 5)
    return s


@plan("C26", needs=["C26.window", "C26.text", "C26.image", "C26.bytime"])
def c26(c):
    c.model("LiveSim", "MC_plain.cfg")
    more = [dict(name="im%d" % i, first=f, n=n, D=D, tsbd=12, media={"video": dict(ts=1000, reps=["V1"]), "image": dict(ts=[10, 90000, 1000][i], reps=["T1"], dir=["", "img/"][i % 2])})
            for i, (f, n, D) in enumerate([(0, 1, 2), (1, 7, 3), (500, 4, 10)])]
    lab = c.lab("q6", "thb", *more)
    ns = ["q6", "thb"] + [x["name"] for x in more]
    c.gen(lab, ns, c.n(60, 900), "thumbnails at window edges", maybe=["start", "stop", "durs", "rel", "off", "snr", "tsbd", "ato", "atoinf", "mod", "tfdt", "cont", "epoch"], sweep="window", kinds=["thumb", "thumb", "time"],
          cts=["image"], dense=6)
    c.gen(lab, ns, c.n(24, 400), "thumbnails of long sessions", always=["long", "epoch"], maybe=["start", "stop", "durs", "rel", "off", "snr", "tsbd", "ato"], sweep="window", kinds=["thumb", "thumb", "time"],
          cts=["image"], dense=6, odds=2)
    c.gen(lab, ns, c.n(60, 900), "thumbnails over a loop", maybe=["start", "durs", "off", "snr", "ato", "epoch", "tsbd"], sweep="loop", kinds=["thumb", "time", "num"], cts=["image"])
    c.gen(lab, ns, c.n(40, 600), "thumbnails, random", maybe=["start", "stop", "durs", "off", "snr", "tsbd", "zero", "epoch", "chunk"], kinds=["thumb"], depth=24)
