"""What each check explores. A plan adds model runs, generated behaviours and scenarios to the check c."""
import random
import contents, options, sess, gen, sys
sys.dont_write_bytecode = True
from obs import NONE

PLANS = {}
MEDIA = ["start", "stop", "durs", "rel", "off", "snr", "tsbd", "ato", "atoinf", "mup"]
MODES = ["mod", "tfdt", "cont"]


def plan(prop, needs=(), assumptions=()):
    def deco(f):
        f.needs, f.assumptions = list(needs), list(assumptions)
        PLANS[prop] = f
        return f
    return deco


def deep(c, name):
    return "MC_%s.cfg" % name if c.quick else "MC_%s_deep.cfg" % name


@plan("C01", needs=["C01.window", "C01.side"])
def c01(c):
    c.model("LiveSim", deep(c, "plain"))
    lab = c.lab("tp", "q6", "one", "ten", "lte", "far")
    ns = ["tp", "q6", "one", "ten", "lte", "far"]
    c.gen(lab, ns, c.n(70, 1200), "window edges", maybe=MEDIA + MODES + ["epoch", "wide"], sweep="window", dense=6, odds=4,
          kinds=["num", "num", "num", "time"])
    c.gen(lab, ns, c.n(12, 200), "window edges, plain", maybe=["epoch", "tsbd"], sweep="window", kinds=["num", "num", "time"])
    c.gen(lab, ns, c.n(36, 500), "long sessions and windows", always=["long", "epoch"], maybe=MEDIA, sweep="window", kinds=["num", "num", "time"], dense=6, odds=2)
    c.gen(lab, ns, c.n(80, 1500), "random walks", maybe=MEDIA + MODES + ["epoch", "wide", "sidx", "zero"], kinds="media", depth=24, odds=3)


@plan("C02", needs=["C02.decode", "C02.media", "C02.bytime", "C02.number"])
def c02(c):
    c.model("LiveSim", "MC_plain.cfg")
    lab = c.lab("tp", "q6", "one", "ten", "lte", "vten", "far")
    ns = ["tp", "q6", "one", "ten", "lte", "vten", "far"]
    c.gen(lab, ns, c.n(150, 2500), "consecutive segments over a loop", maybe=["start", "durs", "off", "snr", "ato", "sidx", "epoch", "tsbd"],
          sweep="loop", kinds=["num", "num", "time"])
    wl = c.lab("tp", "q6", "one", "ten", "lte", "vten", "far", "pow")
    c.gen(wl, ns + ["pow", "pow"], c.n(60, 1000), "field widths", always=["wide"], maybe=["start", "off", "snr", "sidx"], odds=5, sweep="loop", kinds=["num", "num", "time"])
    c.gen(lab, ns, c.n(60, 1000), "large epochs", always=["epoch"], maybe=["start", "off", "snr"], sweep="loop", kinds=["num", "time"])
    c.gen(lab, ns, c.n(60, 1000), "random walks", maybe=["start", "off", "snr", "epoch", "sidx", "scte", "base"], kinds=["num", "num", "time"], depth=20)


@plan("C04", needs=["C04.served", "C04.refused", "C04.decode"])
def c04(c):
    c.model("LiveSim", "MC_plain.cfg")
    c.model("LiveSim", "MC_pinned.cfg")
    lab = c.lab("tp", "q6", "one", "ten", "lte", "far")
    ns = ["tp", "q6", "one", "ten", "lte", "far"]
    c.gen(lab, ns, c.n(100, 1500), "client walks", maybe=MEDIA + ["epoch", "wide", "tsbd", "init"], kinds=["via"], depth=16)
    c.gen(lab, ["tp", "one", "ten"], c.n(60, 900), "client walks, periods", always=["periods"], maybe=["start", "snr", "tsbd", "ato", "peroff_", "epoch", "contin", "off"],
          kinds=["via"], depth=14)
    c.gen(lab, ns, c.n(40, 600), "client at marks", maybe=MEDIA + MODES, sweep="marks", kinds=["via"], dense=8)
    c.gen(lab, ns, c.n(30, 500), "clients of long sessions", always=["long", "epoch"], maybe=MEDIA, kinds=["via"], depth=12, odds=2)


TLM = ["start", "stop", "durs", "rel", "off", "snr", "tsbd", "ato", "mod", "tfdt", "cont"]


@plan("C05", needs=["C05.entries", "C05.served", "C05.decode", "C05.number"])
def c05(c):
    c.model("LiveSim", deep(c, "timeline"))
    lab = c.lab("tp", "q6", "one", "ten", "lte", "far")
    ns = ["tp", "q6", "one", "ten", "lte", "far"]
    for f in ("tl", "tlnr"):
        c.gen(lab, ns, c.n(45, 900), "timelines, second by second (%s)" % f, always=[f], maybe=["start", "stop", "durs", "off", "snr", "tsbd", "ato", "epoch", "wide", "zero"],
              sweep="walk", kinds=["mpd", "mpd", "mpd", "via"], depth=c.n(26, 60), step=1000)
        c.gen(lab, ns, c.n(30, 600), "timelines, marks (%s)" % f, always=[f], maybe=TLM, sweep="marks", kinds=["mpd", "via"], dense=8)
        c.gen(lab, ["q6", "lte"], c.n(24, 400), "recorded sessions (%s)" % f, always=[f, "start", "stop", "off", "tsbd"], sweep="walk", kinds=["mpd", "mpd", "via"], depth=c.n(20, 50), step=1000)
        c.gen(lab, ["ten"], c.n(6, 60), "recorded hours (%s)" % f, always=[f, "long", "epoch", "start", "stop"], maybe=["tsbd", "snr"], kinds=["mpd", "via"], depth=4)
        c.gen(lab, ["q6", "ten", "lte"], c.n(8, 200), "long windows (%s)" % f, always=[f, "long", "epoch"], maybe=["start", "stop", "durs", "rel", "off", "snr", "tsbd", "ato"], kinds=["mpd", "via"], depth=6, odds=2)
        c.gen(lab, ["tp", "one", "ten", "q6", "lte"], c.n(20, 400), "timelines of periods (%s)" % f, always=[f, "periods"], maybe=["start", "tsbd", "snr", "etp", "epoch", "wide"],
              kinds=["mpd", "via", "via"], depth=16)


@plan("C06", needs=["C06.gapless", "C06.stable", "C06.number"])
def c06(c):
    c.model("LiveSim", deep(c, "timeline"))
    lab = c.lab("tp", "q6", "one", "ten", "lte", "far")
    ns = ["tp", "q6", "one", "ten", "lte", "far"]
    for f in ("tl", "tlnr"):
        for step, dp in ((1000, 30), (375, 24), (3000, 24), (11000, 16)):
            c.gen(lab, ns, c.n(20, 300), "walk %d ms (%s)" % (step, f), always=[f], maybe=["start", "stop", "durs", "off", "snr", "tsbd", "epoch", "wide", "zero"],
                  sweep="walk", kinds=["mpd"], depth=c.n(dp, 2 * dp), step=step)
        c.gen(lab, ["q6", "lte"], c.n(16, 300), "recorded sessions (%s)" % f, always=[f, "start", "stop", "off", "tsbd"], sweep="walk", kinds=["mpd"], depth=c.n(24, 60), step=1000)
        c.gen(lab, ["tp", "one", "ten", "q6", "lte"], c.n(16, 300), "periods (%s)" % f, always=[f, "periods"], maybe=["start", "tsbd", "snr", "contin"], kinds=["mpd"], depth=24, move=9)


@plan("C07", needs=["C07.id", "C07.start", "C07.number", "C07.offset", "C07.callback", "C07.continuity", "C07.duration", "C07.refuse", "C07.stable", "C07.timeline"])
def c07(c):
    c.model("LiveSim", deep(c, "periods"))
    lab = c.lab("tp", "one", "ten", "rich", "q6", "lte", "r&d'")
    ns = ["tp", "one", "ten", "rich", "q6", "lte", "r&d'"]
    P = ["start", "tsbd", "snr", "off", "etp", "cb", "contin", "peroff", "xlink", "ad", "tl", "tlnr", "epoch", "durs", "stop"]
    c.gen(lab, ns, c.n(150, 2500), "period walks", always=["periods"], maybe=P, kinds=["mpd"], depth=20, move=9)
    c.gen(lab, ns, c.n(50, 800), "period marks", always=["periods"], maybe=P, sweep="marks", kinds=["mpd"], dense=9)
    c.gen(lab, ns, c.n(20, 200), "one period with offset", always=["oneoff"], maybe=["start", "snr", "off", "peroff", "tl", "contin"], kinds=["mpd", "mpd", "via"], depth=10)
    c.gen(lab, ns, c.n(24, 300), "periods of relative sessions", always=["periods", "rel", "cb"], maybe=["tl", "tlnr", "contin", "peroff", "xlink", "durs", "tsbd"], kinds=["mpd"], depth=10, move=9)
    c.gen(lab, ns, c.n(20, 100), "one period, start numbers", always=["oneoff", "snr"], maybe=["start", "peroff", "tlnr", "contin"], kinds=["mpd"], depth=4)
    c.gen(lab, ns, c.n(24, 300), "periods over hours", always=["periods", "long", "epoch"], maybe=["start", "tsbd", "stop", "durs", "etp", "cb", "contin", "xlink", "ad"], kinds=["mpd"], depth=8, move=9, odds=2)
    c.scenario(lab, "rates", [lambda k=k: rates(lab, k) for k in range(8)])


def rates(lab, k):
    "every combination of period rate and sub-rate, allowed or not"
    s = sess.Session(lab, ["tp", "one"][k % 2])
    t = [1000000 + 3600 * k + 17, 0]
    prates = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 18, 20, 24, 25, 30, 35, 40, 45, 59, 60, 61, 72, 100, 120]
    for i, P in enumerate(prates):
        if i % 8 != k:
            continue
        s.mpd(s.opt(dict(periods=P)), t)
        for what in ("xlink", "etp", "mpdcallback"):
            for r in (1, 2, 3, 4, 5, 6, 7, 10, 12, 20, 30, 31, 60, 90):
                s.mpd(s.opt({"periods": P, what: r}), t)
                if what == "xlink":
                    s.mpd(s.opt({"periods": P, what: r, "insertad": 1 + r % 5}), t)
        for d in (1, 3600 // min(P, 60) - 1, 3600 // min(P, 60), 3600 // min(P, 60) + 1):
            s.mpd(s.opt(dict(periods=P, etp=P, etpDuration=d)), t)
    s.mpd(s.opt(dict(xlink=1)), t)
    s.mpd(s.opt(dict(insertad=2)), t)
    s.mpd(s.opt(dict(periods=0, xlink=1)), t)
    s.mpd(s.opt(dict(periods=0)), t)
    return s


@plan("C08", needs=["C08.remote", "C08.own", "C08.kept", "C08.unchanged", "C08.fetch", "C08.same", "C08.asset", "C08.ad", "C08.default", "C08.unlisted"])
def c08(c):
    c.model("LiveSim", deep(c, "periods"))
    lab = c.lab("tp", "one", "ten", "rich", "r&d'")
    c.gen(lab, ["tp", "one", "ten", "rich", "r&d'"], c.n(150, 2500), "remote periods", remote, always=["periods", "xlink"], depth=7, move=9,
          maybe=["start", "tsbd", "snr", "ad", "etp", "cb", "contin", "tl", "tlnr", "epoch", "durs", "base", "https"], kinds=["mpd"], odds=3)


def remote(lab, b, k):
    "the manifest with and without remote periods, and the remote periods themselves"
    s = sess.Session(lab, b["c"], https=len(b["a"]) % 2 == 1)
    o = gen.opts_of(b["o"])
    oi = s.opt(o)
    pl = dict(o)
    for k in ("xlink", "insertad"):
        pl.pop(k, None)
    pi = s.opt(pl)
    prev = 0
    for a in b["a"]:
        t = a["t"]
        p = s.mpd(pi, t)
        i = s.mpd(oi, t, plain=p, prev=prev)
        prev = i
        if s.ev[i - 1]["st"] != 200 or not s.m(i)["ok"]:
            continue
        nrs = set()
        for q in s.m(i)["periods"]:
            if q["href"] and o.get("insertad", -1) <= 0:
                href = "/" + q["href"].split("//", 1)[-1].split("/", 1)[-1]
                nr = q["href"].rsplit("+p", 1)[-1].split(".")[0]
                if nr.isdigit():
                    nrs.add(int(nr))
                    s.per(oi, t, int(nr), p, href=href)
        for q in s.m(p)["periods"] if s.m(p)["ok"] else []:
            if q["nr"] not in nrs and a["r"] % 3 == 0:
                s.per(oi, t, q["nr"], p)
        if s.m(p)["ok"] and s.m(p)["periods"] and a["r"] % 2 == 0:
            lo, hi = s.m(p)["periods"][0]["nr"], s.m(p)["periods"][-1]["nr"]
            for nr in sorted({max(0, lo - 1), hi + 1, 0, 99999, lo // 10, hi // 10, hi * 10}):
                if not lo <= nr <= hi:
                    s.per(oi, t, nr, p)
    return s


@plan("C09", needs=["C09.window", "C09.lastmark", "C09.beyond", "C09.afterend", "C09.end", "C09.duration", "C09.static", "C09.forward"])
def c09(c):
    c.model("LiveSim", "MC_durs.cfg")
    c.model("LiveSim", "MC_pinned.cfg")
    lab = c.lab("tp", "q6", "one", "ten", "lte", "far")
    ns = ["tp", "q6", "one", "ten", "lte", "far"]
    c.gen(lab, ns, c.n(40, 600), "switches of the end", always=["start", "durs", "mup"], maybe=["snr", "tl"], sweep="marks", kinds=["mpd"], dense=9)
    for f in ("durs", "stop"):
        c.gen(lab, ns, c.n(40, 600), "session ends (%s), media" % f, always=["start", f], maybe=["snr", "off", "tsbd", "mup", "ato", "epoch", "wide", "rel"], sweep="window",
              kinds=["num", "num", "time", "mux"], dense=4)
        c.gen(lab, ns, c.n(40, 600), "session ends (%s), manifests" % f, always=["start", f], maybe=["snr", "mup", "tsbd", "tl", "tlnr", "epoch"], sweep="marks",
              kinds=["mpd", "mpd", "mpd", "num"], dense=9)
        c.gen(lab, ns, c.n(24, 400), "ends of long sessions (%s)" % f, always=["start", f, "long", "epoch"], maybe=["snr", "off", "tsbd", "mup", "ato", "rel"], sweep="marks", kinds=["mpd", "num", "num"], dense=8, odds=3)
        c.gen(lab, ns, c.n(24, 400), "session walks (%s)" % f, always=["start", f], maybe=["snr", "mup", "tsbd", "tl", "periods", "off"], sweep="walk", step=1000,
              kinds=["mpd", "mpd", "num"], depth=c.n(70, 160))


@plan("C10", needs=["C10.location", "C10.nobase", "C10.same", "C10.media"])
def c10(c):
    c.model("LiveSim", "MC_rel.cfg")
    lab = c.lab("tp", "q6", "one", "ten", "lte", "far", "r&d'")
    c.gen(lab, ["tp", "q6", "one", "ten", "lte", "r&d'"], c.n(160, 3000), "follow locations", follow, always=["start", "rel"], depth=4, move=7,
          maybe=["snr", "tsbd", "ato", "tl", "tlnr", "mup", "utc", "spd", "scte", "epoch", "init", "periods", "sidx", "durs"], kinds=["mpd"])
    c.gen(lab, ["tp", "q6", "one", "ten", "lte"], c.n(60, 600), "locations of long sessions", follow, always=["start", "rel", "long", "epoch"], depth=4, move=7,
          maybe=["snr", "tsbd", "ato", "tl", "tlnr", "mup", "init", "periods", "durs"], kinds=["mpd"])


def follow(lab, b, k):
    "request a relative session, follow its location, now and later"
    rnd = random.Random(k)
    s = sess.Session(lab, b["c"], https=k % 3 == 0)
    o = gen.opts_of(b["o"])
    oi = s.opt(o)
    for a in b["a"]:
        t = a["t"]
        i = s.mpd(oi, t, rnd=rnd if k % 2 else None)
        m = s.m(i)
        if s.ev[i - 1]["st"] != 200 or not m["ok"] or len(m["locations"]) != 1:
            continue
        path = m["locations"][0][3:]
        pin = {kk: v for kk, v in o.items() if kk not in ("startrel", "stoprel")}
        try:
            for p in path:
                if p.startswith("start_"):
                    pin["start"] = int(p[6:])
                elif p.startswith("stop_"):
                    pin["stop"] = int(p[5:])
        except ValueError:
            continue
        if "start" not in pin:
            continue
        pi = s.opt(pin)
        for d in (0, 1, 7, rnd.choice([2, 10, 13, 20, 40, 61])):
            t2 = [t[0] + d, t[1]]
            j = s.mpd(pi, t2, loc=i, path=path)
            if s.ev[j - 1]["st"] == 200:
                gen.via(s, pi, j, t2, rnd.randrange(1000))
        reps = sorted(x for x in s.c.reps if s.c.reps[x]["ct"] != "image")
        n = (t[0] - s.c.D - pin["start"]) // s.c.D
        for q in (n, n - 1):
            if q >= 0:
                s.seg(oi, t, rnd.choice(reps), q)
    return s


@plan("C11", needs=["C11.start", "C11.end", "C11.duration", "C11.beyond", "C11.lastmark", "C11.window", "C11.forward", "C11.update"])
def c11(c):
    c.model("LiveSim", "MC_modulo.cfg")
    lab = c.lab("tp", "q6", "one", "ten", "lte", "far")
    ns = ["tp", "q6", "one", "ten", "lte", "far"]
    c.gen(lab, ns, c.n(36, 500), "phases, media", always=["mod"], maybe=["snr", "tsbd", "ato", "epoch"], sweep="window", kinds=["num", "num", "time", "mux"], dense=5)
    c.gen(lab, ns, c.n(60, 800), "phases, manifests", always=["mod"], maybe=["snr", "tsbd", "tl", "tlnr", "epoch", "scte"], sweep="marks", kinds=["mpd", "mpd", "num"], dense=10)
    c.gen(lab, ns, c.n(40, 500), "phase walks", always=["mod"], maybe=["snr", "tl"], sweep="walk", step=3000, kinds=["mpd", "num", "via"], depth=c.n(45, 200))
    c.scenario(lab, "modulo with start", [lambda: badmix(lab, dict(modulo=10, start=1000000)), lambda: badmix(lab, dict(modulo=10, startrel=-20, stoprel=30))])


def badmix(lab, o):
    s = sess.Session(lab, "tp")
    oi = s.opt(o)
    for t in ([1000100, 0], [1000101, 500]):
        s.mpd(oi, t)
        s.seg(oi, t, "V1", 49)
        s.seg(oi, t, "V1", 5)
    return s


@plan("C12", needs=["C12.window", "C12.zero", "C12.same", "C12.text"])
def c12(c):
    c.model("LiveSim", "MC_pinned.cfg")
    kinds = []
    for i, (ver, extra, ct) in enumerate([(v, e, ct) for v in (0, 1) for e in (False, True) for ct in ("video", "audio", "subtitles")]):
        kinds.append(dict(name="ini%d" % i, first=1, n=2, D=2, tsbd=10, media={ct: dict(ts=[90000, 48000, 1000][i % 3], reps=["R1", "R2"], initver=ver, initextra=extra,
                     dir=["", "x/y/"][i % 2])}))
    lab = c.lab("tp", "q6", *kinds)
    ns = ["tp", "q6"] + [k["name"] for k in kinds]
    c.gen(lab, ns, c.n(120, 1500), "init at marks", maybe=["start", "stop", "durs", "rel", "init", "mod", "tfdt", "cont", "ato", "snr", "tsbd", "off"], sweep="marks", kinds=["init"], dense=9)
    c.gen(lab, ns, c.n(60, 600), "init walks", maybe=["start", "init", "rel", "stop", "durs", "epoch", "zero"], kinds=["init"], depth=12)
    c.gen(lab, ns, c.n(24, 300), "long advances", always=["long", "epoch", "init"], maybe=["start", "rel", "stop", "durs"], sweep="marks", kinds=["init"], dense=9, odds=2)


@plan("C13", needs=["C13.down", "C13.up", "C13.event", "C13.stamp", "C13.bases"])
def c13(c):
    c.model("LiveSim", "MC_outage.cfg")
    lab = c.lab("tp", "q6", "one", "ten", "lte", "far", "r&d'")
    ns = ["tp", "q6", "one", "ten", "lte", "far", "r&d'"]
    c.gen(lab, ns, c.n(44, 700), "a minute of an outage schedule", always=["base"], maybe=["start", "snr", "sidx", "scte", "ato", "tsbd", "epoch", "tl"], sweep="minute", depth=75,
          kinds=["num"], cts=["video", "audio"])
    c.gen(lab, ns, c.n(50, 700), "several base URLs", always=["bases"], maybe=["start", "snr", "sidx", "ato", "tl", "tsbd", "utc", "https"], kinds=["mpd", "mpd", "num"], depth=12)
    c.gen(lab, ns, c.n(30, 400), "one base URL", always=["base"], maybe=["start", "snr", "tl", "tlnr", "loss", "stop", "durs"], kinds=["mpd", "num", "time", "num"], depth=24)
    c.scenario(lab, "all schedules", [lambda k=k: schedules(lab, k) for k in range(24)])


def schedules(lab, k):
    "up/down lengths that do and do not divide the minute, at the edges of every cycle"
    rnd = random.Random(k)
    s = sess.Session(lab, ["tp", "one", "ten"][k % 3])
    D = s.c.D
    for _ in range(6):
        a, b = rnd.choice([1, 2, 3, 5, 7, 10, 11, 13, 20, 29, 30, 31, 45, 59, 60, 61, 90]), rnd.choice([1, 2, 4, 6, 9, 10, 17, 25, 30, 31, 60, 75])
        f = "ud"[rnd.randrange(2)]
        x = rnd.choice([0, 0, 250, 500])
        oi = s.opt(dict(baseurl=[(f, a, b)], ato=x))
        base = 60 * rnd.randrange(20000, 30000000)
        edges = set()
        for i in range(0, 60 // (a + b) + 1):
            for e in (i * (a + b), i * (a + b) + a):
                edges.update(x for x in (e - 1, e, e + 1) if 0 <= x <= 61)
        for m in sorted(edges | {0, 59, 60}):
            t = [base + m, rnd.choice([0, 0, 500, 875])]
            s.seg(oi, t, "V1", t[0] // D - 1)
            if x and (t[0] + 1) % D == 0:    # the edge of the window within the second
                for ms in (1000 - x - 125, 1000 - x, 875):
                    s.seg(oi, [t[0], ms], "V1", t[0] // D)
    return s


@plan("C14", needs=["C14.publish", "C14.frozen", "C14.event", "C14.profile", "C14.noevent"])
def c14(c):
    c.model("LiveSim", "MC_outage.cfg")
    lab = c.lab("tp", "q6", "one", "rich", "ten")
    ns = ["tp", "q6", "one", "rich", "ten"]
    c.gen(lab, ns, c.n(56, 900), "a minute of segment loss", always=["loss", "tl"], maybe=["start", "snr", "tsbd", "epoch", "scte", "off", "stop"], sweep="minute", depth=75, kinds=["mpd"])
    c.gen(lab, ns, c.n(14, 200), "by number", always=["loss", "tlnr"], maybe=["start", "snr", "tsbd"], sweep="minute", depth=70, kinds=["mpd"])
    c.gen(lab, ns, c.n(10, 100), "without segment loss", maybe=["tl", "tlnr", "base", "start", "scte"], kinds=["mpd"], depth=10)
    c.gen(lab, ns, c.n(10, 200), "without timeline", always=["loss"], maybe=["start", "snr"], sweep="minute", depth=65, kinds=["mpd"])


@plan("C15", needs=["C15.count", "C15.time", "C15.pts", "C15.id", "C15.break", "C15.stream", "C15.profile"])
def c15(c):
    c.model("LiveSim", "MC_splice.cfg")
    more = [dict(name="d%d" % d, first=1, n=3, D=d, tsbd=30, media={"video": dict(ts=1000, reps=["V1", "V2"]), "audio": dict(ts=1000, reps=["A1"])}) for d in (1, 3, 4, 5, 7, 9)]
    lab = c.lab("tp", "q6", "one", "ten", "lte", *more)
    ns = ["tp", "q6", "one", "ten", "lte"] + [x["name"] for x in more]
    c.gen(lab, ns, c.n(50, 800), "a minute of splices", always=["scte"], maybe=["sidx", "base", "epoch", "wide", "tsbd"], sweep="minute", depth=64, kinds=["num"], cts=["video", "audio", "subtitles"])
    c.gen(lab, ns, c.n(40, 400), "sessions", always=["scte"], maybe=["start", "durs", "sidx", "tl", "tlnr", "loss", "mod"], kinds=["num", "num", "time", "mpd"], depth=20)
    c.scenario(lab, "every segment of minutes", [lambda k=k: splices(lab, ns[k % len(ns)], k) for k in range(c.n(30, 120))])


def splices(lab, name, k):
    rnd = random.Random(k)
    s = sess.Session(lab, name)
    D = s.c.D
    oi = s.opt(dict(scte35=1 + k % 3))
    base = 60 * rnd.choice([0, 1, 1590, 1591, 20000, 2386092, 16666666, 28333333, 29826161])
    for n in range(base // D, (base + 125) // D + 1):
        s.seg(oi, [(n + 1) * D, 0], "V1", n)
    s.seg(oi, [base + 200, 0], [r for r in s.c.reps if s.c.reps[r]["ct"] == "video"][-1], (base + 200) // D - 1)
    return s


@plan("C22", needs=["C22." + x for x in ("type", "start", "publish", "update", "depth", "delay", "duration", "profiles", "order", "clock", "latency", "preserved", "base",
                                         "timeoffset", "media", "offset", "number", "lowlatency", "manifest", "inner")])
def c22(c):
    lab = c.lab("tp", "q6", "one", "ten", "rich", "thb", "r&d'")
    ns = ["tp", "q6", "rich", "ten", "rich", "thb", "r&d'"]
    A = ["start", "stop", "durs", "rel", "off", "snr", "tsbd", "ato", "atoinf", "init", "tl", "tlnr", "base", "bases", "scte", "utc", "spd", "sidx", "chunk", "mod", "tfdt", "cont", "mup",
         "epoch", "periods", "oneoff", "contin", "peroff", "loss", "etp", "cb"]
    c.model("LiveSim", "MC_pinned.cfg")
    c.gen(lab, ns, c.n(330, 5000), "option combinations", maybe=A, kinds=["mpd"], depth=6, odds=4, move=8)
    c.gen(lab, ns, c.n(200, 3000), "sparse options", maybe=A, kinds=["mpd"], depth=5, odds=12, move=8)
    c.gen(lab, ns, c.n(80, 900), "long sessions", always=["long", "epoch"], maybe=[x for x in A if x not in ("epoch", "tl", "tlnr")], kinds=["mpd"], depth=5, odds=4, move=8)
    c.gen(lab, ns, c.n(60, 600), "low latency", always=["chunk"], maybe=["ato", "atoinf", "utc", "scte", "start", "tl", "tlnr", "snr", "spd"], kinds=["mpd"], depth=6, odds=2)


@plan("C28", needs=["C28.start", "C28.end", "C28.duration", "C28.update", "C28.decode", "C28.decode32", "C28.window", "C28.follow"])
def c28(c):
    c.model("LiveSim", "MC_restart.cfg")
    seven = dict(name="d7", first=1, n=3, D=7, tsbd=30, media={"video": dict(ts=90000, reps=["V1"]), "audio": dict(ts=48000, reps=["A1"])})
    lab = c.lab("tp", "q6", "one", "ten", "lte", seven)
    ns = ["tp", "q6", "ten", "tp", "d7"]
    for f in ("tfdt", "cont"):
        c.gen(lab, ns, c.n(40, 600), "restart edges (%s)" % f, always=[f], maybe=["snr", "tsbd", "ato", "epoch", "sidx"], sweep="window", kinds=["num", "num", "time"], dense=3)
        c.gen(lab, ns, c.n(40, 600), "manifests (%s)" % f, always=[f], maybe=["snr", "tsbd", "tl", "tlnr", "epoch", "scte", "mup"], sweep="marks", kinds=["mpd", "mpd", "via", "num"], dense=9)
        c.gen(lab, ns, c.n(30, 400), "walks (%s)" % f, always=[f], maybe=["snr", "tl", "epoch"], sweep="walk", step=1000, kinds=["mpd", "num", "via", "time"], depth=c.n(24, 80))
