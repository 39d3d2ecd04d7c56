"""Plans, continued: malformed and hostile requests, damaged storage."""
import os, random, shutil, string, json
import contents, sess, web, obs, driver
from plans import plan
from obs import NONE

SPELL = {
    "nocontent": ["nocontent", "{C}2", "{c}x", "{C} ", "{C}%20", "{C}.cfg", "é", "\x00", "{C}\\", "x{C}", "content", "vodcfg", "~", "*", "%s", "{C};x"],
    "badrep": ["V9", "v1", "V1 ", "V1%20", "init", "0", "V1__V9", "V9__V1", "__V1", "V1__", "V1__A1__V2", "V1_A1", "V1,A1", "V1__T1", "T1__V1", "V1\\", "V*", "V1\x00", "video", "V1__A1__S1__V2", "V1+A1", "%56%31"],
    "word": ["foo", "foo_bar", "_", "starting_5", "Start_5", " tsbd_30", "tsbd-30", "ſ", "%2e%2e", "...", "5", "start", "a" * 300, "foo_1", "TSBD_30", "xstart_5", "_start", "md5"],
    "badfile": ["init", "init.", "init.m4s", "init.jpg", "init.mp5", "Init.mp4", "init.mp4.bak", "init.mp4 ", "init.mp44", "5.mp4", "5", "5.", "{n}", "{n}.M4S", "{n}.m4s.m4a", "{n}.m4v", "-5.m4s", "-1.m4s", "t-5.m4s", "tnan.m4s",
                "tinf.m4s", "t1e99.m4s", "tx.m4s", "t.m4s", "5t.m4s", "1.5.m4s", ".m4s", ".mp4", ".mpd", ".jpg", ".period", "Manifest", "Manifest.MPD", "manifest.mpd", "Nothing.mpd", "Manifest.mpd.bak", "Manifest.mpd~",
                "5.xml", "Manifest.mpd+p.period", "Manifest.mpd+px.period", "Other.mpd+p5.period", "Manifest.mpd+p-1.period", "Manifest.mpd+p1.5.period", "x.jpg", "tx.jpg", "-1.jpg", "99999999999999999999.m4s", "99999999999999999999.jpg",
                "t99999999999999999999999.m4s", "{n}x.m4s", "x{n}.m4s", "{n} 1.m4s", "0x10.m4s", "{n}..m4s", "{n}.m4s%00", "\x00.m4s", "{n},.m4s", "*.m4s", "t{n}e.m4s", "1e3.m4s", "--{n}.m4s", "Manifest.mpd+p5", "+p5.period", "p5.period",
                "index.html", "flt.cfg", "time.txt", "{n}.m4s~", "{n}.mp4", "~{n}.m4s"],
    "dots": [".."], "dot": ["."], "empty": [""],
}
VALUES = {"baseurl": ["u10_d10", "d5_u5"], "tfdt": ["32", "x"], "chunkdur": ["0.5", "1"], "ato": ["1.5", "inf", "0"]}


def text(s, p, rnd, t):
    "a spelling of part p of a path"
    c, n = p["c"], t[0] // s.c.D - 1 - rnd.randrange(3)
    media = [r for r in sorted(s.c.reps) if s.c.reps[r]["ct"] != "image"]
    if c == "option":
        k = p["key"]
        if p["cls"] == "bare":
            return k
        if p["cls"] == "int":
            return "%s_%d" % (k, p["val"])
        if k in VALUES:
            return k + "_" + rnd.choice(VALUES[k])
        return k + "_" + rnd.choice(["x", "1.5", "", "1e3", "0x1", "--1"])
    if c == "content":
        return s.c.name
    if c == "dir":
        return "md"
    if c == "rep":
        return rnd.choice(media)
    if c == "img":
        return "T1"
    if c == "mux":
        return rnd.choice(["V1__A1", "A1__V1", "V2__A1"])
    if c == "init":
        return "init.mp4"
    if c == "num":
        return "%d.m4s" % n
    if c == "time":
        return "t%d.m4s" % (n * s.c.D * 1000)
    if c == "image":
        return "%d.jpg" % n
    if c == "mpd":
        return "Manifest.mpd"
    if c == "period":
        return "Manifest.mpd+p%d.period" % (t[0] // 60)
    x = rnd.choice(SPELL[c])
    return x.replace("{C}", s.c.name).replace("{c}", s.c.name).replace("{n}", "%d" % n)


HEADERS = [None, None, None, {"Range": "bytes=0-9"}, {"Range": "bytes=x"}, {"Range": "bytes=5-"}, {"X-Forwarded-For": "1.2.3.4", "Accept": "é"}]


def edited(lab, b, k):
    "one path of PathGen, on a content without and on one with folders"
    out = []
    for name in ("flt", "nst"):
        s = sess.Session(lab, name)
        rnd = random.Random("edited/%d/%s/%s" % (k, name, json.dumps(b)))
        t = [1600000000 + rnd.randrange(100000), rnd.choice([0, 500])]
        web.raw(s, *path(s, b, rnd, t), t=t, nested=int(name == "nst"), headers=rnd.choice(HEADERS), **spec(b))
        out.append(s)
    return out


def path(s, b, rnd, t):
    return ["/livesim/" + "/".join(text(s, p, rnd, t) for p in b).encode("utf-8").decode("latin-1") + rnd.choice(["", "", "", "?a=b", "#f"])]


def spec(b):
    f = b[-1]["c"] if b else ""
    w = {"mpd": "application/dash+xml", "init": "video/mp4", "num": "video/iso.segment", "time": "video/iso.segment", "image": "image/jpeg"}.get(f, "")
    return dict(opts=[(p["key"], p["cls"], p["val"], p["c"]) for p in b], wanttype=w)


@plan("C27", needs=["C27." + x for x in ("reply", "status", "success", "address", "text", "type", "wire")])
def c27(c):
    c.model("Serve")
    c.model("PathGen")
    lab = c.lab("flt", "nst")
    c.sim(lab, "PathGen", "PathSim.cfg", c.n(60, 1500), 60, "paths changed in up to three places", edited, procs=2 if c.quick else 4)
    c.scenario(lab, "noise", [lambda k=k: noise(lab, k, c.seed) for k in range(c.n(40, 900))])
    c.scenario(lab, "extreme values", [lambda k=k: extremes(lab, k, c.seed) for k in range(c.n(40, 900))])
    c.scenario(lab, "damaged storage", [lambda k=k: damaged(k, c.seed) for k in range(c.n(48, 900))])
    c.scenario(lab, "the stand-alone server", [lambda k=k: standalone(lab, k, c.seed) for k in range(c.n(4, 40))])
    c.scenario(lab, "unusual environments", [lambda k=k: environments(lab, k, c.seed) for k in range(c.n(8, 60))])


NASTY = ["\x00", "\n", "\r\n", "\t", " ", "%", "%2f", "%00", "%zz", "[", "]", "//", ":", "@", "\\", "..", "é", "\udc80", "😀", "{", "}", "{0}", "%s", "%(x)s", "'", '"', "<", ">", "&", "?", "#", ";", "=", "+", ",", "__", "_", "t", "-", "~", "|", "`", "$", "*"]
BIG = ["0", "-1", "1", "-5", "99999999999", "2147483648", "9223372036854775808", "-9223372036854775809", "1" + "0" * 40, "9" * 400, "1e400", "inf", "-inf", "nan", "0.0", "1e-300", "0.001", "", "_", "1_000", "0_0", "٣", "½"]


def noise(lab, k, seed):
    rnd = random.Random("noise/%d/%d" % (seed, k))
    s = sess.Session(lab, rnd.choice(["flt", "nst"]))
    for _ in range(12):
        t = [1600000000 + rnd.randrange(100000), 0]
        kind = rnd.randrange(6)
        oi = s.opt({})
        uri, ext = rnd.choice(web.uris(s, oi, t, rnd))
        if kind == 0:
            for _ in range(rnd.randint(1, 4)):
                i = rnd.randrange(len(uri) + 1)
                uri = uri[:i] + rnd.choice(NASTY) + uri[i + rnd.randrange(2):]
        elif kind == 1:
            uri = "".join(rnd.choice(NASTY + list(string.ascii_letters + string.digits + "///")) for _ in range(rnd.randrange(0, 60)))
        elif kind == 2:
            uri = rnd.choice(["", "/", "//", "///", "/livesim", "/livesim/", "livesim", "x", "*", "http://", "http:///", "http://h" + uri, "//h" + uri, "//[", "http://[::1" + uri, "//h:x" + uri, "/livesim//" + uri, "/" * 500, "/.." * 50, uri + "/", uri + "//",
                              uri.replace("/", "\\"), uri.replace("/", "//"), "/livesim/start_", "/livesim/start_5", "/livesim/start_5/", "/livesim/tsbd_5/dur_10", "?", "#", ";", "/livesim/" + s.c.name, "/livesim/" + s.c.name + "/"])
        elif kind == 3:
            parts = uri.split("/")
            i = rnd.randrange(2, len(parts))
            parts[i:i] = [rnd.choice(["x", "tsbd_30", "..", ".", "", "start_0", "V1", s.c.name])] * rnd.choice([1, 2, 50, 3000])
            uri = "/".join(parts)
        elif kind == 4:
            parts = uri.split("/")
            i = rnd.randrange(1, len(parts))
            parts[i] = parts[i] * rnd.choice([2, 100, 5000])
            uri = "/".join(parts)
        else:
            uri = uri + rnd.choice(["?", "?a", "?a=b&c", "?%", "?" + "a=b&" * 2000, "#x", "?x=\x00", "?x=é&&&=", "?" + "&" * 3000])
        uri = uri.encode("utf-8", "surrogateescape").decode("latin-1")        # what a WSGI server passes on
        web.raw(s, uri, t, headers=rnd.choice(HEADERS + [{"Range": rnd.choice(web.MALFORMED + web.MULTI + ["bytes=" + "9" * 5000 + "-", "bytes=0-" + "9" * 300])}]))
    return s


KEYS = ["start", "ast", "stop", "startrel", "stoprel", "dur", "timeoffset", "init", "tsbd", "mup", "modulo", "tfdt", "cont", "periods", "xlink", "etp", "etpDuration", "insertad", "mpdcallback", "continuous", "segtimeline",
        "segtimelinenr", "baseurl", "peroff", "scte35", "utc", "snr", "ato", "spd", "sidx", "segtimelineloss", "sts", "sid", "chunkdur"]


def extremes(lab, k, seed):
    "any value of any option, and combinations of usual values"
    rnd = random.Random("extremes/%d/%d" % (seed, k))
    s = sess.Session(lab, rnd.choice(["flt", "nst"]))
    for _ in range(10):
        t = [rnd.choice([1600000000 + rnd.randrange(100000), 0, 1, 3, 5000000000]), rnd.choice([0, 500])]
        uri, ext = rnd.choice(web.uris(s, s.opt({}), t, rnd)[:-3])
        ps = []
        for _ in range(rnd.randint(1, 4)):
            x = rnd.choice(KEYS)
            v = rnd.choice(BIG) if rnd.random() < .5 else rnd.choice(["1", "2", "5", "10", "30", "60", "600", "-60", "1600000000", "1599999000", "x", "u10_d10", "d10_u20", "direct-head", "inf", "0.5"])
            if x == "baseurl" and rnd.random() < .7:
                v = rnd.choice("udx") + rnd.choice(["0", "1", "10", "60", "1000000", "-1", "", "x", "1.5"]) + rnd.choice(["_", "", "-"]) + rnd.choice("udx") + rnd.choice(["0", "1", "10", "60", "1000000", "-1", "", "x"])
            ps.append(x + "_" + v)
        # the size of a timeline or of a list of periods is proportional to the depth of the window: bounded to a day here
        p = uri.split("/")
        web.raw(s, "/".join(p[:2] + [x for x in ps] + p[2:]), t)
    return s


def damaged(k, seed):
    "one stored file is missing, a folder, empty, cut, garbage or unreadable"
    rnd = random.Random("damaged/%d/%d" % (seed, k))
    lab = sess.Lab([contents.ALL[rnd.choice(["flt", "nst"])]])
    try:
        s = sess.Session(lab, lab.order[0])
        c = s.c
        media = sorted(c.reps)
        rid = rnd.choice(media)
        base = os.path.join(lab.root, c.name)
        d = os.path.join(base, c.reps[rid]["dir"], rid)
        img = c.reps[rid]["ct"] == "image"
        num = c.first + rnd.randrange(c.n)
        what = ["seg", "seg", "seg", "init", "mpd", "cfg", "dat", "repdir", "content"][k % 9]
        if what == "init" and img:
            what = "seg"
        path = {"seg": os.path.join(d, "%d%s" % (num, ".jpg" if img else ".m4s")), "init": os.path.join(d, "init.mp4"), "mpd": os.path.join(base, "Manifest.mpd"), "cfg": os.path.join(lab.cfg, c.name + ".cfg"),
                "dat": os.path.join(lab.cfg, "%s_%s.dat" % (c.name, c.reps[rid]["ct"])), "repdir": d, "content": base}[what]
        how = rnd.choice(["gone", "folder", "empty", "cut", "garbage", "flip", "text"]) if what not in ("repdir", "content") else rnd.choice(["gone", "file"])
        if what == "dat":               # the counts of a table are believed
            how = rnd.choice(["gone", "folder", "empty", "cut"])
        if what == "dat" and not os.path.exists(path):
            return []
        if how == "gone" or how in ("folder", "file"):
            os.rename(path, os.path.join(lab.dir, "away"))
            if how == "folder":
                os.mkdir(path)
            if how == "file":
                open(path, "wb").write(b"x")
        else:
            data = open(path, "rb").read()
            if how == "empty":
                new = b""
            elif how == "cut":
                new = data[:rnd.randrange(len(data))]
            elif how == "garbage":
                new = bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 7, 8, 50, 400])))
            elif how == "text":
                new = b"hello\n" * 5
            else:
                new = bytearray(data)
                for _ in range(rnd.randint(1, 8)):
                    new[rnd.randrange(min(len(new), rnd.choice([50, 300, len(new)])))] = rnd.choice([0, 255, 1, 8, 127, rnd.randrange(256)])
                new = bytes(new)
            open(path, "wb").write(new)
        lost = how in ("gone", "folder", "file", "empty")
        cfglost = lost and what == "cfg"
        for o in ({}, {"segtimeline": 1}, {"chunkdur": 500, "ato": c.D * 1000 - 1000}, {"sidx": 1, "scte35": 3}, {"xlink": 30, "periods": 30}):
            if "chunkdur" in o and how == "flip":       # a changed sample count may leave nothing to deliver
                continue
            oi = s.opt(o)
            tt = [1600000000 + rnd.randrange(1000), 0]
            n = tt[0] // c.D - 1
            b = "/" + "/".join(s.prefix(oi) + [c.name]) + "/"
            web.raw(s, b + "Manifest.mpd", tt, must404=cfglost or (lost and what in ("mpd", "content")), wanttype="application/dash+xml")
            web.raw(s, b + "Manifest.mpd+p%d.period" % (tt[0] // 120), tt, must404=cfglost or (lost and what in ("mpd", "content")) or "xlink" not in o)
            for r in media:
                im = c.reps[r]["ct"] == "image"
                for j in range(c.n):
                    vod = c.first + (n - j) % c.n
                    hit = cfglost or (lost and (what == "content" or (r == rid and (what == "repdir" or (what == "seg" and vod == num)))))
                    # an empty segment file is stored, but there is nothing to send
                    web.raw(s, b + s.reppath([r]) + "/%d%s" % (n - j, ".jpg" if im else ".m4s"), tt, must404=hit, wanttype="image/jpeg" if im else "video/iso.segment")
                if not im:
                    web.raw(s, b + s.reppath([r]) + "/init.mp4", tt, must404=cfglost or (lost and (what == "content" or (r == rid and what in ("init", "repdir")))), wanttype="video/mp4")
            hit = cfglost or (lost and (what == "content" or (rid in ("V1", "A1") and (what == "repdir" or (what == "seg" and num == c.first + n % c.n)))))
            web.raw(s, b + s.reppath(["V1", "A1"]) + "/%d.m4s" % n, tt, must404=hit, wanttype="video/iso.segment")
            web.raw(s, b + s.reppath(["V1", "A1"]) + "/init.mp4", tt, must404=cfglost or (lost and (what == "content" or (rid in ("V1", "A1") and what in ("init", "repdir")))), wanttype="video/mp4")
        for e in s.ev:
            e["url"] += " [%s %s]" % (what, how)
        return s
    finally:
        lab.close()


def environments(lab, k, seed):
    "no Host, other hosts, session limits, HEAD and POST, empty query strings"
    rnd = random.Random("environments/%d/%d" % (seed, k))
    s = sess.Session(lab, "flt")
    m = driver.module()
    sv = lab.server
    env0 = sv.env
    for _ in range(10):
        t = [1600000000 + rnd.randrange(1000), 0]
        uri, ext = rnd.choice(web.uris(s, s.opt(rnd.choice([{}, {"xlink": 20, "periods": 20}, {"baseurl": [("u", 10, 10)]}, {"utc": ["head", "direct"]}, {"startrel": -50}])), t, rnd))
        drop = rnd.choice(["HTTP_HOST", "REQUEST_METHOD", "wsgi.url_scheme", None])
        more = rnd.choice([{}, {"REQUEST_METHOD": "HEAD"}, {"REQUEST_METHOD": "POST", "CONTENT_LENGTH": "5"}, {"QUERY_STRING": ""}, {"QUERY_STRING": "&=%"}, {"SERVER_NAME": "srv"}, {"HTTP_HOST": ""}, {"HTTP_HOST": "[::1]:80"}, {"HTTP_HOST": "a b<c>\"&"}])
        def env(*a, **kw):
            e = env0(*a, **kw)
            e.pop(drop, None)
            e.update(more)
            return e
        sv.env = env
        old = m.MAX_SESSION_LENGTH
        m.MAX_SESSION_LENGTH = rnd.choice([0, 0, 60])
        try:
            if m.MAX_SESSION_LENGTH and rnd.random() < .6:
                p = uri.split("/")
                p[2:2] = ["sts_" + rnd.choice(["%d" % (t[0] - 5), "%d" % (t[0] - 500), "", "x", "1e3", "9" * 50, "-5"])]
                uri = "/".join(p)
            web.raw(s, uri, t)
        finally:
            sv.env = env0
            m.MAX_SESSION_LENGTH = old
    return s


STREAMS = [{}, {"xlink": 20, "periods": 20}, {"baseurl": [("u", 10, 10)]}, {"utc": ["head", "direct"]}, {"start": 1599999000, "stop": 1600009000}, {"startrel": -50}, {"segtimeline": 1}, {"segtimelinenr": 1, "sidx": 1},
           {"chunkdur": 500, "ato": 1500}, {"scte35": 2, "snr": 5}, {"tsbd": 600, "spd": 5}]


def standalone(lab, k, seed):
    "what clients of the repository's own HTTP server receive is what its application replies"
    rnd = random.Random("standalone/%d/%d" % (seed, k))
    s = sess.Session(lab, ["flt", "nst"][k % 2])
    t = [1600000000 + rnd.randrange(1000), rnd.choice([0, 250])]
    sv = web.Local(lab, t)
    try:
        for _ in range(12):
            oi = s.opt(rnd.choice(STREAMS))
            for uri, ext in rnd.sample(web.uris(s, oi, t, rnd), 3):
                web.raw(s, uri, t)
                i = len(s.ev)
                r = sv.get(uri, s.host)
                s.add({"k": "memo2", "t": list(t)}, uri, r, "", r.status == 200 and r.header("Content-Length") is None and "chunkdur" in uri)
                s.rel("C27.wire", i, "dig")
    finally:
        sv.close()
    return s


SECRET = b"TOP-SECRET-7f3a"


def outside(lab):
    "files next to the content and configuration folders that look like content and configuration"
    if os.path.isdir(os.path.join(lab.dir, "content_private")):
        return
    for name in lab.order:
        src = os.path.join(lab.root, name)
        for dst in ("content_private/" + name, "private/" + name, "contentx/" + name, name, "content_private", "V1x"):
            d = os.path.join(lab.dir, dst)
            shutil.copytree(src, d, dirs_exist_ok=True)
            for r, _, fs in os.walk(d):
                for f in fs:
                    p = os.path.join(r, f)
                    data = open(p, "rb").read()
                    data = data.replace(b"title 0", SECRET) if f.endswith(".mpd") else data + b"\x00\x00\x00\x17free" + SECRET
                    open(p, "wb").write(data)
    # files whose names the request could pass on undecoded
    for dst in ("vodcfg_private", "cfgs", ".", "content"):        # configuration outside its folder
        os.makedirs(os.path.join(lab.dir, dst), exist_ok=True)
        for f in os.listdir(lab.cfg):
            shutil.copy(os.path.join(lab.cfg, f), os.path.join(lab.dir, dst, "sec" + f))
            if dst != "content":
                shutil.copy(os.path.join(lab.cfg, f), os.path.join(lab.dir, dst, f))
    with open(os.path.join(lab.dir, "Manifest.mpd"), "wb") as f:
        f.write(b"<MPD><!--" + SECRET + b"--></MPD>")
    for f in ("init.mp4", "5.m4s", "5.jpg"):
        with open(os.path.join(lab.dir, f), "wb") as g:
            g.write(SECRET * 10)


def roots(lab):
    import sysconfig, encodings
    return [os.path.realpath(x) for x in (lab.root, lab.cfg, driver.REPO, sysconfig.get_paths()["stdlib"], sysconfig.get_paths()["purelib"], os.path.dirname(encodings.__file__))] + [os.path.realpath(os.path.join(sys_prefix(), "lib"))]


def sys_prefix():
    import sys
    return sys.base_prefix


@plan("C29", needs=["C29.opens", "C29.leak"])
def c29(c):
    c.model("PathGen")
    lab = c.lab("flt", "nst")
    outside(lab)
    rs = roots(lab)
    c.sim(lab, "PathGen", "PathSim.cfg", c.n(60, 1500), 60, "paths changed in up to three places", lambda l, b, k: climbing(l, b, k, rs), procs=2 if c.quick else 4)
    c.scenario(lab, "climbing", [lambda k=k: climbs(lab, k, c.seed, rs) for k in range(c.n(400, 6000))])


def targets(lab, s):
    n = lab.order
    return ["private/" + s.c.name, "content_private/" + s.c.name, "contentx/" + s.c.name, "content_private", s.c.name, "", "content/" + s.c.name, "vodcfg", "cfgs"]


def climbing(lab, b, k, rs):
    "a path of PathGen whose .. , empty and bad parts lead somewhere"
    out = []
    for name in ("flt", "nst"):
        s = sess.Session(lab, name)
        rnd = random.Random("climbing/%d/%s/%s" % (k, name, json.dumps(b)))
        for _ in range(2):
            t = [1600000000 + rnd.randrange(100000), rnd.choice([0, 500])]
            ps = []
            for p in b:
                if p["c"] in ("word", "badrep", "nocontent") and rnd.random() < .6:
                    ps.append(rnd.choice(["content_private", "private", "contentx", "..", name, "vodcfg", "secflt", "sec" + name, lab.dir, "V1", "md", "/", "\\..\\.."]))
                elif p["c"] == "dots":
                    ps += [".."] * rnd.choice([1, 1, 2, 3, 9])
                else:
                    ps.append(text(s, p, rnd, t))
            web.raw(s, "/livesim/" + "/".join(ps).encode("utf-8").decode("latin-1"), t, secret=SECRET, roots=rs)
        out.append(s)
    return out


def climbs(lab, k, seed, rs):
    "ways out of the content folder for every kind of request: up, absolute, through content names, representations, files and options"
    rnd = random.Random("climbs/%d/%d" % (seed, k))
    s = sess.Session(lab, rnd.choice(["flt", "nst"]))
    name = s.c.name
    d = "md/" if name == "nst" else ""
    depth = lab.dir.count("/")
    for _ in range(12):
        t = [1600000000 + rnd.randrange(100000), 0]
        n = t[0] // s.c.D - 1
        f = rnd.choice(["Manifest.mpd", "V1/init.mp4", "V1/%d.m4s" % n, "T1/%d.jpg" % n, "V1__A1/init.mp4", "V1__A1/%d.m4s" % n, "A1/t%d.m4s" % (n * s.c.D * 48000), "S1/%d.m4s" % n, "Manifest.mpd+p%d.period" % (t[0] // 120)])
        o = rnd.choice(["", "", "", "start_0/", "segtimeline_1/", "xlink_30/periods_30/", "sidx_1/", "chunkdur_0.5/ato_1/", "baseurl_u10_d10/"])
        up = "../" * rnd.choice([1, 1, 2, 2, 3, depth, depth + 1, 20])
        if rnd.random() < .3:
            up = rnd.choice([up.replace("../", "..//"), up.replace("../", ".././"), "./" + up, up.replace("../", "%2e%2e/"), up.replace("../", "..%2f"), up.replace("../", ".%2e/"), up.replace("../", "%2E%2E%2F"), up.replace("../", "%252e%252e/"), up.replace("../", "..%5c"), up.replace("../", "....//"), up.replace("../", "..;x/"),
                             up.replace("../", "..%00/"), up.replace("../", "..\x00/"), up.replace("../", "..\t/"), up.replace("../", "..+/"), up.replace("../", "..\\"), "V1/../" + up, up.replace("../", ".. /"), up.replace("../", "..;/"), "x/../" + up])
        tg = rnd.choice(["private/" + name, "content_private/" + name, "contentx/" + name, "content_private", name, "", "V1x", "content/" + name, "vodcfg", "cfgs"])
        tg = tg + "/" if tg else ""
        ab = lab.dir + "/" + tg
        folded = f.split("/")
        if len(folded) == 2:
            f = d + f
        rep = folded[0]
        u = rnd.choice([
            o + up + tg + f,                                        # content name: ..
            o + name + "/" + up + tg + f,                           # below the content
            o + name + "/" + d + up + tg + f,
            o + name + "/" + ab + f, o + ab + f, o + "/" + ab + f, o + name + "/" + "/" + ab + f,      # absolute
            o + up + ab + f,
            o + name + "/" + d + rep + "/" + up + tg + f,
            o + name + "/" + d + rep + "/" + up + tg + folded[-1],
            o + name + "/" + d + "V1__" + up + tg + f,              # through a list of representations
            o + name + "/" + d + "..__V1/" + folded[-1], o + name + "/" + d + "V1__../" + folded[-1], o + name + "/" + d + "..__../" + folded[-1],
            o + name + "/" + d + rep + "/..", o + name + "/" + d + rep + "/../" + folded[-1], o + name + "/..", o + "..", o + "../" + folded[-1], o + "../" + f,
            o + up + "livesim/" + name + "/" + f,
            o + "sec" + name + "/" + f, o + up + "sec" + name + "/" + f, o + "../cfgs/" + name + "/" + f, o + up + "cfgs/" + name,
            up + o + name + "/" + f, "start_" + up + name + "/" + f, "tsbd_30/" + up + tg + f,
            o + name + "/" + f + "/" + up + tg + f, o + name + "/" + up + "etc/passwd", o + up + "etc/passwd", o + "/etc/passwd", o + name + "//etc/passwd.m4s",
            o + name + "/" + up + tg + "Manifest.mpd+p%d.period" % (t[0] // 120), o + name + "/" + up + tg + "Manifest.mpd",
            o + name + "/.." + tg + f, o + name + "_private/" + f, o + "content_private/" + name + "/" + f,
        ])
        if rnd.random() < .3:         # separators of a stretch written differently
            ix = [i for i, x in enumerate(u) if x == "/"]
            if ix:
                a = rnd.randrange(len(ix))
                e = rnd.choice([len(ix), len(ix), rnd.randrange(a, len(ix)) + 1])
                sep = rnd.choice(["%2f", "%2F", "%2f", "\\", "%5c", "%252f"])
                u = "".join(sep if i in ix[a:e] else x for i, x in enumerate(u))
        uri = rnd.choice(["/livesim/", "/livesim/", "/livesim/", "/../livesim/", "/livesim//", "//livesim/", "/", "livesim/"]) + u
        web.raw(s, uri, t, secret=SECRET, roots=rs, headers=rnd.choice(HEADERS))
    return s
