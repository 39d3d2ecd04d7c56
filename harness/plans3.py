"""Plans, continued: the HTTP level."""
import random, json, os, sys
import contents, options, sess, gen, web, driver
from plans import plan, deep
from obs import NONE


@plan("C18", needs=["C18." + x for x in ("full", "nocr", "status", "range", "bytes", "length", "concat", "error")])
def c18(c):
    c.model("RangeClient")
    lab = c.lab("tp", "q6", "thb")
    c.sim(lab, "RangeClient", "RangeGen.cfg", c.n(120, 2400), 20, "downloads by ranges", downloads)
    c.scenario(lab, "positions around both ends", [lambda k=k: edges(lab, k, c.seed) for k in range(c.n(24, 200))])


STREAMS = [dict(), dict(), dict(start=1000000000), dict(sidx=1), dict(periods=20, xlink=20), dict(segtimeline=1), dict(chunkdur=500), dict(scte35=2), dict(baseurl=[("u", 20, 10)]), dict(snr=5, start=1500000000)]


def resource(lab, rnd):
    name = rnd.choice(["tp", "q6", "thb"])
    s = sess.Session(lab, name)
    o = dict(rnd.choice(STREAMS))
    if "xlink" in o and name != "tp":
        o = {}
    if name == "thb":
        o.pop("baseurl", None)
    if "chunkdur" in o and name == "q6":
        o = {}
    oi = s.opt(o)
    t = [rnd.choice([1600000000, 1735689600, 2000000000]) + rnd.randrange(100), rnd.choice([0, 250])]
    uri, ext = rnd.choice(web.uris(s, oi, t, rnd))
    return s, web.Ranges(s, uri, ext, t, rnd)


def downloads(lab, b, k):
    "a behaviour of RangeClient with blocks of random sizes"
    rnd = random.Random("%d/%s" % (k, json.dumps(b["h"][:3])))
    s, w = resource(lab, rnd)
    L, B = len(w.full.body), b["len"]
    if L > B > 0:
        cuts = sorted(rnd.sample(range(1, L), B - 1))
        if rnd.random() < .4:
            at = rnd.randrange(0, L - B + 1)
            cuts = list(range(at + 1, at + B))          # single bytes in the middle
        edge = [0] + cuts + [L]
    else:
        edge = list(range(0, B + 1))
        edge[-1] = L
    step = rnd.choice([1, 2, 1000, 10 ** 9])
    E = lambda i: edge[i] if i <= B else L + (i - B) * step
    front, lo = [], 0
    for h in b["h"]:
        r = h["r"]
        if not r["single"]:
            if h["kind"] == "multi":
                w.ask(text=rnd.choice(web.MULTI))
            elif h["kind"] == "bad":
                w.ask(text=rnd.choice(web.MALFORMED))
            continue
        if r["first"] == -1:
            n = r["last"]
            real = {"first": -1, "last": (L - E(B - n)) if n <= B else L + (n - B) * step}
        elif r["last"] != -1 and r["last"] < r["first"]:
            if r["first"] == 0:
                continue
            real = {"first": E(r["first"]), "last": max(E(r["last"]), 0) if E(r["last"]) < E(r["first"]) else E(r["first"]) - 1}
            if real["last"] < 0:
                continue
        else:
            real = {"first": E(r["first"]), "last": -1 if r["last"] == -1 else E(r["last"] + 1) - 1}
        q = w.ask(real)
        if w.full.status == 200 and not w.chunked and q.status == 206 and real["first"] == lo:
            front.append(q.body)
            lo += len(q.body)
    if w.full.status == 200 and front and lo < L:
        front.append(w.ask({"first": lo, "last": -1}).body)
        lo = L
    if front and lo == L:
        w.cover(front)
    return s


def edges(lab, k, seed):
    rnd = random.Random("edges/%d/%d" % (seed, k))
    s, w = resource(lab, rnd)
    L = len(w.full.body)
    P = [0, 1, 2, L // 2, L - 2, L - 1, L, L + 1, 2 * L, 10 ** 9]
    ps = [(a, b) for a in P + [-1] for b in P + [-1] if a != -1 or b != -1]
    for a, b in rnd.sample(ps, 40):
        if a >= 0 or b >= 0:
            w.ask({"first": max(a, -1), "last": max(b, -1)})
    for text in web.MALFORMED + web.MULTI:
        w.ask(text=text)
    w.ask({"first": 0, "last": 10 ** 30})
    w.ask({"first": 10 ** 30, "last": -1})
    w.ask({"first": -1, "last": 10 ** 30})
    k = rnd.choice([1, 7, 100, 1000])
    parts = []
    if w.full.status == 200 and not w.chunked:
        k = max(k, L // 12)
        for at in range(0, L, k):
            parts.append(w.ask({"first": at, "last": at + k - 1}).body)
        w.cover(parts)
    return s


@plan("C20", needs=["C20." + x for x in ("off", "redirect", "target", "sid", "nostart", "gone", "future", "pass", "body")])
def c20(c):
    c.model("LimitClient")
    lab = c.lab("tp", "q6", "thb")
    c.sim(lab, "LimitClient", "LimitGen.cfg", c.n(120, 2400), 60, "clients of a limited server", sessions)


def sessions(lab, b, k):
    rnd = random.Random("limit/%d/%s" % (k, json.dumps(b["h"][0])))
    name = rnd.choice(["tp", "q6", "thb"])
    s = sess.Session(lab, name, https=rnd.random() < .5, host=rnd.choice(["sim.example", "h:8080", "sim.example"]))
    o = rnd.choice([dict(), dict(), dict(tsbd=3600), dict(start=1000000000, snr=7), dict(segtimeline=1), dict(scte35=1), dict(startrel=-100), dict(xlink=20, periods=20)])
    if name != "tp":
        o = rnd.choice([dict(), dict(tsbd=300)])
    oi = s.opt(o)
    w = web.Limited(s, b["max"], rnd)
    base = rnd.choice([1500000000, 1735689600, 1000000000 + 1000])
    locs = {}
    for h in b["h"]:
        t = [base + h["t"][0], h["t"][1]]
        us = [u for u in web.uris(s, oi, t, rnd) if (u[1] == ".mpd") == (h["kind"] == "mpd")]
        uri, ext = rnd.choice(us[:len(us) - 2] or us) if rnd.random() < .8 else rnd.choice(us)
        query = rnd.choice(["", "", "", "?a=b", "?x=1&y=%20z", "?token=sts_5/6&sid_7", "?flag", "?a=&a=&b"])
        env = rnd.choice([None, None, "e=1"]) if not query else None
        if h["sts"] == NONE:
            r = w.ask(uri, ext, t, query=query, query_env=env)
            if r.status == 302:
                loc = r.header("Location") or ""
                locs[h["q"]] = (loc, uri, ext)
                p = loc.find(s.host)
                if p > 0:
                    w.ask(uri, ext, t, sts=t[0], query=query, query_env=env, follow=loc[p + len(s.host):])
        elif h["since"] and h["since"] in locs and h["kind"] == "mpd" and rnd.random() < .6:
            loc, uri, ext = locs[h["since"]]
            loc = loc[loc.find(s.host) + len(s.host):]
            w.ask(uri.split("?")[0], ext, t, sts=base + h["sts"], follow=loc)
        else:
            w.ask(uri, ext, t, sts=base + h["sts"], sid=rnd.choice([None, "", "0123abcd", "x_y", "sts_1"]) if rnd.random() < .7 else "00000000", query=query)
    return s


@plan("C19", needs=["C19.function", "C19.fresh"])
def c19(c):
    import tempfile
    zy = web.Zygote(tempfile.mktemp(prefix="verif-zygote-"))
    c.cleanup.append(lambda: (zy.close(), os.path.exists(zy.path) and os.unlink(zy.path)))
    c.model("Isolate")
    lab = c.lab("tp", "q6", "rich")
    c.sim(lab, "Isolate", "IsolateGen.cfg", c.n(100, 1500), 60, "interleaved requests", lambda l, b, k: flights(zy, b, k, c.seed))


POOL = [dict(), dict(start=1000000000), dict(segtimeline=1), dict(segtimelinenr=1, tsbd=30), dict(periods=30, xlink=30), dict(periods=60), dict(sidx=1, scte35=3),
        dict(chunkdur=500, ato=1500), dict(snr=7), dict(start=1500000000, durs=[4000000]), dict(utc=["head", "direct"]), dict(utc=["ntp"]), dict(baseurl=[("u", 20, 10), ("d", 30, 10)]), dict(baseurl=[("u", 10, 50)]),
        dict(mup=7), dict(tsbd=40), dict(ato=1000), dict(ato=-1), dict(startrel=-60), dict(spd=7), dict(tfdt=1), dict(cont=1), dict(modulo=10), dict(init=3),
        dict(start=1600000000 - 100, timeoffset=1000), dict(segtimelineloss=1, segtimeline=1, baseurl=[("u", 10, 10)]), dict(periods=60, etp=30, etpDuration=20), dict(periods=30, mpdcallback=30), dict(periods=10, continuous=1)]


def flights(zy, b, k, seed):
    rnd = random.Random("isolate/%d/%d" % (seed, k))
    lab = sess.Lab([contents.ALL[x] for x in (rnd.sample(["isa", "isb"], 2) if rnd.random() < .25 else rnd.sample(["tp", "q6", "rich", "isa"], 2))])
    try:
        return _flights(zy, lab, b, rnd, k)
    finally:
        lab.close()


def _flights(zy, lab, b, rnd, k):
    names = lab.order
    sx = [sess.Session(lab, n) for n in names]
    out = sess.Session(lab, names[0])
    out.lab = lab
    t = 1600000000 + rnd.randrange(3600)
    ver = 0
    # a small pool of streams: related options on the same content show what one request leaves behind for another
    streams = []
    for key in range(1, 7):
        s = sx[0] if key % 3 else sx[1]
        o = dict(rnd.choice(POOL))
        if s.c.name != "tp":
            o = {a: v for a, v in o.items() if a in ("start", "snr", "tsbd", "sidx", "ato", "utc", "mup", "spd", "init", "scte35", "segtimeline", "chunkdur")}
        streams.append((s, s.opt(o), o))
    fl, orig = {}, {}
    batch = []
    urls = {}
    def record(f, q):
        key, fresh, ext = q
        out.add({"k": "memo", "t": [int(f.t0), 0], "key": key, "dig": f.digest(), "fresh": fresh}, f.env["REQUEST_URI"], f.reply(), ext, True)
    def start(key, kind):
        s, oi, o = streams[key - 1]
        if (key, kind) not in urls or rnd.random() < .3:
            us = web.uris(s, oi, [t, 0], random.Random(rnd.randrange(6)))
            good = us[:-5]
            want = {"media": [u for u in good if u[1] in (".m4s", ".mp4", ".jpg")], "manifest": [u for u in good if u[1] in (".mpd", ".period")], "fail": us[-5:]}
            uri, ext = rnd.choice(want.get(kind, good))
            if kind == "chunk":
                pre = s.prefix(oi)
                if "chunkdur" not in o:
                    pre.append("chunkdur_0.5")
                rid = rnd.choice([x for x in sorted(s.c.reps) if s.c.reps[x]["ct"] in ("video", "audio")])
                n = (o.get("snr", 0)) + (t - o.get("start", 0)) // s.c.D - rnd.choice([0, 1, 1])
                if "ato_1.5" not in pre:
                    pre.append("ato_%d" % (s.c.D - 1))
                uri, ext = "/" + "/".join(pre + [s.c.name, s.reppath([rid]), "%d.m4s" % n]), ".m4s"
            limit = 0
            if kind == "refuse":
                limit = 60
                p = uri.split("/")
                x = rnd.choice([None, t - 1000, t + 1000, t - 5])
                if x is not None:
                    p.insert(2, "sts_%d" % x)
                uri = "/".join(p)
            hd = rnd.choice([None, None, None, {"Range": "bytes=5-40"}, {"Range": "bytes=x"}])
            urls[(key, kind)] = (uri, ext, limit, hd, rnd.choice(["sim.example", "sim.example", "other:80"]), rnd.random() < .2)
        uri, ext, limit, hd, host, https = urls[(key, kind)]
        tt = t + rnd.choice([0, 0, .25])
        f = web.Flight(lab.server, uri, tt, hd, host, https, limit)
        fresh = zy.ask(lab.server, uri, tt, hd, host, https, limit)
        return f, (json.dumps([uri, hd, host, https, limit, tt, ver]), fresh, ext)
    def flush():
        for f, q in batch:
            f.run()
            record(f, q)
        del batch[:]
    for h in b:
        if h["a"] == "start":
            f, q = start(h["key"], h["kind"])
            if k % 4 == 3 and h["kind"] in ("media", "manifest", "fail"):      # in threads
                batch.append((f, q))
                if len(batch) == 4:
                    same = [x for x in batch if x[0].t0 == batch[0][0].t0]
                    if len(same) > 1:
                        web.threads([x[0] for x in same])
                    for x in batch:
                        if x not in same or len(same) == 1:
                            x[0].run()
                        record(*x)
                    del batch[:]
                continue
            f.step()
            if h["kind"] == "chunk":
                fl[h["i"]] = (f, q)
            else:
                f.run()
                record(f, q)
        elif h["a"] == "step" and h["i"] in fl:
            fl[h["i"]][0].step()
        elif h["a"] == "abort" and h["i"] in fl:
            fl[h["i"]][0].abort()
            fl.pop(h["i"])
        elif h["a"] == "tick":
            t += h["key"]
            flush()
        elif h["a"] == "change":
            flush()
            if change(lab, h["key"], rnd, orig):
                ver += 1
    for f, q in batch + list(fl.values()):
        f.run()
        record(f, q)
    return out


def change(lab, k, rnd, orig):
    "change the stored files in place; the same change again restores them"
    c = lab.contents[lab.order[0] if k % 3 else lab.order[1]]
    rid = sorted(x for x in c.reps if c.reps[x]["ct"] == "video")[0]
    base = os.path.join(lab.root, c.name)
    d = os.path.join(base, c.reps[rid]["dir"], rid)
    path, edit = [
        (os.path.join(lab.cfg, c.name + ".cfg"), lambda x: x.replace(b"default_tsbd_secs = %d" % c.tsbd, b"default_tsbd_secs = %d" % (c.tsbd + 7))),
        (os.path.join(base, "Manifest.mpd"), lambda x: x.replace(b"title 0", b"another title")),
        (os.path.join(d, "init.mp4"), lambda x: x[:-1] + bytes([x[-1] ^ 1])),
        (os.path.join(d, "%d.m4s" % (c.first + rnd.randrange(c.n))), lambda x: x[:-3] + bytes([x[-3] ^ 85]) + x[-2:]),
        (os.path.join(lab.cfg, "%s_video.dat" % c.name), None),
        (os.path.join(base, "Manifest.mpd"), lambda x: x.replace(b'bandwidth="1000"', b'bandwidth="2000"')),
    ][k - 1]
    if path in orig:
        with open(path, "wb") as f:
            f.write(orig.pop(path))
        return True
    data = open(path, "rb").read()
    if edit is None:
        os.rename(path, path + ".gone")
        orig[path] = data
        return True
    new = edit(data)
    if new == data:
        return False
    orig[path] = data
    with open(path, "wb") as f:
        f.write(new)
    return True


OPT = dict(name="nine_9", first=3, n=4, D=2, tsbd=10, media={"video": dict(ts=1000, reps=["V1"], dir="tsbd_2/start_1700000000/"), "audio": dict(ts=1000, reps=["A1"]), "subtitles": dict(ts=1000, reps=["S1"], dir="snr_x/ato_inf/")})
contents.ALL["nine_9"] = OPT
FEATURES = ["start", "stop", "durs", "rel", "off", "snr", "tsbd", "ato", "atoinf", "init", "tl", "tlnr", "periods", "xlink", "ad", "etp", "cb", "contin", "peroff", "base", "bases", "loss", "scte", "utc", "spd", "sidx", "chunk", "mod", "tfdt", "cont", "mup"]


@plan("C23", needs=["C23." + x for x in ("order", "marker", "refuse", "position")])
def c23(c):
    c.model("OptionParse")
    lab = c.lab("tp", "q6", "nine_9")
    c.gen(lab, ["tp", "q6", "nine_9"], c.n(160, 3000), "permutations", execute=permuted, maybe=FEATURES, odds=5, depth=5, kinds=["num", "num", "time", "init", "mpd", "mpd"], procs=2 if c.quick else 4)
    c.gen(lab, ["tp"], c.n(60, 1200), "permutations of restarting and limited sessions", execute=permuted, always=["start"], maybe=["stop", "durs", "mup", "off", "snr", "tsbd", "rel", "tl"], odds=6, sweep="marks", dense=3,
          kinds=["num", "mpd"])
    c.scenario(lab, "refused options", [lambda k=k: refused(lab, k, c.seed) for k in range(c.n(24, 400))])
    c.scenario(lab, "option-like names behind the content name", [lambda k=k: behind(lab, k) for k in range(c.n(8, 60))])


def again(s, i, p, rnd, extra=None):
    "repeat event i of session s with its options in another order"
    v = s.ev[i]
    if v["k"] == "seg":
        ts = s.c.reps[v["reps"][0]]["ts"]
        s.seg(v["oi"], v["t"], v["reps"], *((v["n"],) if v["addr"] == "n" else (None, v["mt"][0] * ts + v["mt"][1])), rnd=rnd, extra=extra, detail=False)
        w = "dig" if v["st"] == 200 else "st"
    elif v["k"] == "mpd":
        s.mpd(v["oi"], v["t"], rnd=rnd, extra=extra)
        w = "ndig"
    elif v["k"] == "init":
        s.init(v["oi"], v["t"], v["reps"], rnd=rnd, extra=extra)
        w = "dig" if v["st"] == 200 else "st"
    elif v["k"] == "thumb":
        ts = s.c.reps[v["reps"][0]]["ts"]
        s.thumb(v["oi"], v["t"], v["reps"][0], *((v["n"], rnd) if v["addr"] == "n" else (None, rnd, v["mt"][0] * ts + v["mt"][1])))
        w = "dig" if v["st"] == 200 else "st"
    else:
        return
    s.rel(p, i + 1, w)


def permuted(lab, b, k):
    rnd = random.Random("perm/%d/%s" % (k, b["c"]))
    s = gen.replay(lab, b)
    for i in range(len(s.ev)):
        again(s, i, "C23.order", rnd)
        again(s, i, "C23.order", rnd)
        if s.ev[i]["k"] != "thumb":
            np = len(options.parts(s.opts[s.ev[i]["oi"] - 1]))
            ex = [(rnd.randint(0, np), rnd.choice(["sts_%d" % rnd.choice([0, 5, 1600000000, 2000000000]), "sid_0123abcd", "sid_", "sts_x"])) for _ in range(rnd.randint(1, 3))]
            again(s, i, "C23.marker", rnd if rnd.random() < .5 else None, ex)
    return s


GOODVAL = {"start": 1599990000, "ast": 1599990000, "stop": 1600020000, "startrel": -1000, "stoprel": 1000, "dur": 3600, "timeoffset": 0, "init": 5, "tsbd": 20, "mup": 7, "modulo": 10, "periods": 60, "xlink": 60,
           "etp": 60, "etpDuration": 5, "insertad": 1, "mpdcallback": 60, "continuous": 1, "segtimeline": 1, "segtimelinenr": 1, "peroff": 5, "scte35": 2, "snr": 4, "spd": 6, "sidx": 1, "segtimelineloss": 1}
WORDS = ["x", "", "1.5", "1e3", "0x10", "--1", "1-2", "5s", "nan", "1,2", "%31", "½"]


def refused(lab, k, seed):
    rnd = random.Random("refused/%d/%d" % (seed, k))
    s = sess.Session(lab, "tp")
    t = [1600000000 + rnd.randrange(10000), 0]
    for _ in range(30):
        keys = rnd.sample(sorted(GOODVAL), rnd.randint(0, 3))
        ps = [(x, "int", GOODVAL[x], "%s_%d" % (x, GOODVAL[x])) for x in keys]
        kind = rnd.randrange(7)
        if kind in (0, 1):
            x = rnd.choice(sorted(GOODVAL))
            ps.append((x, "word", 0, x + "_" + rnd.choice(WORDS)))
        elif kind == 2:
            ps = [p for p in ps if p[0] not in ("modulo", "start", "ast", "startrel")]
            ps += [("modulo", "int", 10, "modulo_%d" % rnd.choice([1, 10, 60]))] + [rnd.choice([("start", "int", 5, "start_5"), ("ast", "int", 5, "ast_1500000000"), ("startrel", "int", -5, "startrel_-5"), ("startrel", "int", 0, "startrel_0"), ("start", "int", 0, "start_0")])]
        elif kind == 3:
            ps += [("tfdt", "word", 0, "tfdt_" + rnd.choice(["32", "1", "x"])), ("cont", "word", 0, "cont_" + rnd.choice(["1", "0", "x"]))]
        elif kind == 4:
            ps = [p for p in ps if p[0] != "snr"] + [("snr", "int", -rnd.choice([2, 3, 100]), None)]
            ps[-1] = ps[-1][:3] + ("snr_%d" % ps[-1][2],)
        elif kind == 5:
            bad = rnd.choice(["x", "Direct", "ntp2", "http", "", "none", "keep", "direct_1"])
            l = rnd.sample(["direct", "head", "ntp", "sntp", "httpxsdate", "httpiso"], rnd.randint(0, 3)) + [bad]
            rnd.shuffle(l)
            ps.append(("utc", "word", 0, "utc_" + "-".join(l)))
        else:
            x = rnd.choice(sorted(GOODVAL) + ["sts", "sid", "tfdt", "cont", "baseurl", "utc", "ato", "chunkdur"])
            ps.append((x, "bare", 0, x))
        rnd.shuffle(ps)
        n = (t[0] // s.c.D) - 1
        for rest, mpd in (("Manifest.mpd", True), ("V1/%d.m4s" % n, False), ("V1/init.mp4", False)):
            if kind == 5 and not mpd:
                continue
            web.raw(s, "/livesim/" + "/".join([p[3] for p in ps] + ["tp", rest]), t, opts=[p[:3] for p in ps], ismpd=mpd)
    return s


def behind(lab, k):
    "what looks like an option behind the content name is not one"
    rnd = random.Random("behind/%d" % k)
    s = sess.Session(lab, "nine_9")
    oi = s.opt(rnd.choice([dict(), dict(tsbd=20), dict(start=1599999000), dict(snr=3)]))
    t = 1600000000 + rnd.randrange(10000)
    n0 = (t - s.opts[0].get("start", 0)) // 2 + s.opts[0].get("snr", 0)
    for d in range(-22, 4):
        s.seg(oi, [t, 500], "A1", n0 + d)
        i = len(s.ev)
        for r in ("V1", "S1"):
            s.seg(oi, [t, 500], r, n0 + d)
            s.rel("C23.position", i, "st")
    for x in ("start_5", "tsbd_500", "snr_1", "modulo_10", "foo_1", "ato_inf"):
        web.raw(s, "/livesim/nine_9/%s/A1/%d.m4s" % (x, n0 - 1), [t, 500], must404=True)
        web.raw(s, "/livesim/%s_/nine_9/A1/%d.m4s" % (x.replace("_", ""), n0 - 1), [t, 500], must404=True)
    return s
