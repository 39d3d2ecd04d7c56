"""Behaviours generated by TLC from spec/Gen.tla, and their replay against the real server."""
import json, os, random, tempfile, concurrent.futures as cf
import tlc, sess, options
from obs import NONE

KINDS = {"media": ["num"] * 6 + ["time"] * 2 + ["init"], "mpd": ["mpd"] * 3 + ["via"] * 3, "all": ["num"] * 4 + ["time"] + ["mpd"] * 2 + ["via"] * 3 + ["init", "thumb"]}


def behaviours(lab, names, always=(), maybe=(), kinds="all", num=60, depth=24, odds=3, move=6, seed=1, procs=4, timeout=300,
               sweep="", step=1000, dense=10, cts=("video", "audio", "subtitles", "image")):
    "Run TLC -simulate; returns the list of behaviours (dicts c, o, a)."
    recs = []
    for n in names:
        r = lab.contents[n].table()
        r["mcts"] = r["cts"]
        recs.append(r)
    spec = {"contents": recs, "always": list(always), "maybe": list(maybe), "odds": odds, "move": move,
            "kinds": KINDS[kinds] if isinstance(kinds, str) else list(kinds), "depth": depth, "sweep": sweep, "step": step, "dense": dense, "cts": list(cts)}
    fd, path = tempfile.mkstemp(prefix="gen-", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(spec, f)
    def one(k):
        rc, out = tlc.run("Gen", "Gen.cfg", {"GEN": path}, workers=1, timeout=timeout, heap="2g",
                          args=["-simulate", "num=%d" % -(-num // procs), "-depth", str(depth + 6 if not sweep else 6), "-seed", str(seed * 97 + k)])
        got = [json.loads(json.loads(l)[4:]) for l in out.splitlines() if l.startswith('"GEN ')]
        if len(got) != -(-num // procs):
            at = max(out.find("Error:"), 0)
            raise tlc.TLCError("generator: rc %d, %d behaviours\n%s" % (rc, len(got), out[at:at + 1200] + out[-2500:]))
        return got
    try:
        with cf.ThreadPoolExecutor(procs) as ex:
            return [b for g in ex.map(one, range(procs)) for b in g]
    finally:
        os.unlink(path)


def simulate(module, cfg, num, depth, seed=1, procs=2, env=None, timeout=300):
    "behaviours printed by a model of its own (lines GEN <json>) under TLC -simulate"
    def one(k):
        rc, out = tlc.run(module, cfg, env or {}, workers=1, timeout=timeout, heap="2g",
                          args=["-deadlock", "-simulate", "num=%d" % -(-num // procs), "-depth", str(depth), "-seed", str(seed * 89 + k)])
        got = [json.loads(json.loads(l)[4:]) for l in out.splitlines() if l.startswith('"GEN ')]
        if not got or "Error:" in out:
            at = max(out.find("Error:"), 0)
            raise tlc.TLCError("generator %s: rc %d, %d behaviours\n%s" % (module, rc, len(got), out[at:at + 3000]))
        return got
    with cf.ThreadPoolExecutor(procs) as ex:
        return [b for g in ex.map(one, range(procs)) for b in g]


# options written out with a value that asks for nothing
NEUTRAL = [("segtimeline", "segtimeline_0"), ("segtimelinenr", "segtimelinenr_0"), ("sidx", "sidx_0"), ("segtimelineloss", "segtimelineloss_0"),
           ("continuous", "continuous_0"), ("scte35", "scte35_0"), ("snr", "snr_0"), ("init", "init_0"), ("ato", "ato_0"), ("ato", "ato_-5"), ("ato", "ato_-1"),
           ("chunkdur", "chunkdur_0"), ("chunkdur", "chunkdur_-1"), ("xlink", "xlink_0"), ("insertad", "insertad_0"), ("mpdcallback", "mpdcallback_0"),
           ("etp", "etp_0"), ("etp", "etpDuration_7"), ("sts", "sts_1500000000"), ("sid", "sid_00c0ffee")]


def opts_of(o):
    "non-default options of a generated record; in some cases with options that change nothing (_noise), an alias (_alias), or another order (_order)"
    r = {}
    rnd = random.Random(repr(o))
    if rnd.random() < 0.4:
        clear = {}
        for key, part in rnd.sample(NEUTRAL, len(NEUTRAL)):
            if o.get(key, None) == options.DEFAULTS.get(key, None) and not (key == "xlink" and o["insertad"] > 0):
                clear.setdefault(key, (rnd.randrange(8), part))
        r["_noise"] = rnd.sample(sorted(clear.values()), min(len(clear), rnd.choice([1, 2, 4])))
    if rnd.random() < 0.25:
        r["_alias"] = 1
    if rnd.random() < 0.5:
        r["_order"] = rnd.randrange(1000)
    for k, v in o.items():
        if k == "baseurl":
            v = [(b["first"], b["a"], b["b"]) for b in v]
        if v != options.DEFAULTS[k]:
            r[k] = v
    return r


def replay(lab, b, label="", rnd=None, follow=True):
    "Execute one behaviour; returns the session."
    s = sess.Session(lab, b["c"], label)
    c = s.c
    oi = s.opt(opts_of(b["o"]))
    prev = 0
    reps = {}
    for rid, rp in c.reps.items():
        reps.setdefault(rp["ct"], []).append(rid)
    for a in b["a"]:
        t, k, ct, r = a["t"], a["k"], a["ct"], a["r"]
        rid = reps[ct][r % len(reps[ct])]
        if k == "time" and ct == "image":
            ts = c.reps[rid]["ts"]
            s.thumb(oi, t, rid, None, rnd, time=a["mt"][0] * ts + a["mt"][1])
            continue
        if k in ("num", "mux") and ct == "image":
            k = "thumb"
        if k == "thumb":
            if "image" not in reps:
                continue
            rid = reps["image"][r % len(reps["image"])]
            s.thumb(oi, t, rid, a["n"], rnd)
        elif k == "num":
            s.seg(oi, t, rid, a["n"], rnd=rnd)
        elif k == "time":
            ts = c.reps[rid]["ts"]
            s.seg(oi, t, rid, time=a["mt"][0] * ts + a["mt"][1], rnd=rnd)
        elif k == "init":
            if ct != "image":
                s.init(oi, t, rid, rnd=rnd)
        elif k == "mux":
            two = [x for x in reps.get("audio", []) + reps.get("video", []) if c.reps[x]["dir"] == ""][:]
            if "audio" in reps and "video" in reps:
                v, au = reps["video"][r % len(reps["video"])], reps["audio"][(r // 7) % len(reps["audio"])]
                if c.reps[v]["dir"] == c.reps[au]["dir"]:
                    pair = [v, au] if r % 2 else [au, v]
                    s.seg(oi, t, pair, a["n"], rnd=rnd)
                    if r % 5 == 0:
                        s.init(oi, t, pair, rnd=rnd)
                    if r % 3 == 0:
                        s.seg(oi, t, pair[0], a["n"], rnd=rnd)
        elif k == "mpd":
            prev = s.mpd(oi, t, prev=prev, rnd=rnd)
        elif k == "via":
            i = prev
            if not prev or s.ev[prev - 1]["t"] != t:
                i = prev = s.mpd(oi, t, prev=prev, rnd=rnd)
            via(s, oi, i, t, r, rnd)
    return s


def via(s, oi, i, t, r, rnd=None, edges=True):
    "Follow the manifest of event i like a client at instant t."
    if s.ev[i - 1]["st"] != 200 or not s.m(i)["ok"]:
        return
    m = s.m(i)
    c = s.c
    ps = [(pi, p) for pi, p in enumerate(m["periods"], 1) if p["as"] and not p["href"]]
    if not ps:
        return
    pi, p = ps[r % len(ps)]
    ai = (r // 3) % len(p["as"]) + 1
    a = p["as"][ai - 1]
    rids = [x for x in a["reps"] if x in c.reps]
    if not rids or c.reps[rids[0]]["ct"] == "image" or len(a["tpl"]) != 1:
        return
    rid = rids[(r // 11) % len(rids)]
    tp = a["tpl"][0]
    if tp["ntl"]:
        n = len(tp["tl"])
        if not n:
            return
        for j in sorted({1, n, (r % n) + 1}):
            x = tp["tl"][j - 1]
            if tp["byt"]:
                s.seg(oi, t, rid, time=x[0] * tp["ts"] + x[1], via=(i, pi, ai, j), rnd=rnd)
            else:
                s.seg(oi, t, rid, tp["snr"] + j - 1, via=(i, pi, ai, j), rnd=rnd)
    elif tp["dur"] > 0 and m["ast"] > -1:
        ato = m["baseurls"][0]["ato"] if m["baseurls"] and m["baseurls"][0]["ato"] else tp["ato"]
        now = t[0] * 1000 + t[1] + max(ato, 0)
        new = tp["snr"] + (now // 1000 - m["ast"] - p["start"]) // tp["dur"] - 1
        old = new - ((m["tsbd"] if m["tsbd"] > 0 else 0) // tp["dur"])
        for n in sorted({new, new + 1, old, old - 1, tp["snr"], new - 1}):
            if 0 <= n < 10 ** 9:
                s.seg(oi, t, rid, n, via=(i, pi, ai, 0), rnd=rnd)
