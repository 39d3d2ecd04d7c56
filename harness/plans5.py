"""Plans, continued: the offline tools (analysis of content, captions, generated subtitles)."""
import random, json, os, sys, subprocess, configparser, struct, re, shutil, tempfile
from xml.etree import ElementTree as ET
import contents, content, options, sess, gen, driver, obs
import mp4tools as M
from plans import plan, deep
from obs import NONE

PY = sys.executable
REPO = os.environ.get("VERIF_REPO", "/repo")
NS = "{urn:mpeg:dash:schema:mpd:2011}"


def tool(args, cwd, timeout=120):
    "runs a tool of the repository as a user does; (exit status, last line of its output)"
    e = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([PY, "-B"] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


# -- C24: analysis of content -------------------------------------------------
def concrete(b, k):
    "the content of a generated description"
    D, first = b["D"], b["first"]
    media, counts = {}, []
    for x in b["sets"]:
        counts.append(b["n"] + (x["more"] if x["nreps"] == 1 else 0))
    n = min(counts)
    plain = True
    for x, cnt in zip(b["sets"], counts):
        ts, ct = x["ts"], x["ct"]
        cum = [0] * 9 if x["even"] == 1 else [c * ts // 10000 for c in x["cum"]]
        cum = (cum + [0] * 9)[:n]
        if x["closed"] < 3:
            cum[-1] = 0
        if b["flaw"] == "drift" and b["set"] % len(b["sets"]) == b["sets"].index(x):
            cum[(b["at"] - 1) % n] = (ts // 10 + 1 + b["at"]) * (1 if b["rep"] else -1)
        durs, gaps, t = [], [], 0
        for i in range(n):
            g = x["gap"] * ts // 1000 if x["gap"] and i in (x["gap"] - 1, x["gap"] + 1) and i else 0
            gaps.append(g)
            durs.append((i + 1) * D * ts + cum[i] - t - g)
            t = (i + 1) * D * ts + cum[i]
        if min(durs) < 5:
            durs, gaps, cum = [D * ts] * n, [0] * n, [0] * n
        ids = ["%s%d" % ({"video": "V", "audio": "A", "subtitles": "S"}[ct], i + 1) for i in range(x["nreps"])]
        lay = x["lay"]
        m = dict(ts=ts, reps=ids, durs=durs, t0=x["t0"] * D * ts, initver=x["initver"], initextra=x["initextra"] == 1, badloop=True,
                 frac=3, nsamp=3)
        if any(gaps):
            m["gaps"] = gaps
        if not content.LAYOUTS[lay]["trun"] & 0x100:
            if all(d == D * ts for d in durs) and D * ts % 4 == 0:
                m.update(defdur=D * ts // 4, vary=False)
            else:
                lay = "plain"
        if ct != "subtitles":
            m["layout"] = {i: lay for i in ids}
        more = {}
        if x["nreps"] == 1:
            if cnt > n:
                more[ids[0]] = [D * ts - cum[-1]] + [D * ts] * (cnt - n - 1)
        elif x["more"]:
            more[ids[x["whom"] % len(ids)]] = [D * ts - cum[-1]] + [D * ts] * (x["more"] - 1)
        m["more"] = more
        if cum[-1] or any(gaps) or x["t0"]:
            plain = False
        media[ct] = m
    return dict(name="a%d" % k, first=first, n=n, D=D, tsbd=300, media=media, nocfg=True, analyzed="C24"), plain


def spoil(c, b):
    "the flaw of the description"
    base = os.path.join(c.root, c.name)
    cts = list(c.spec["media"])
    ct = cts[b["set"] % len(cts)]
    reps = c.spec["media"][ct]["reps"]
    rid = reps[b["rep"] % len(reps)]
    d = os.path.join(base, rid)
    files = sorted((f for f in os.listdir(d) if f.endswith(".m4s")), key=lambda f: int(f[:-4]))
    mp = os.path.join(base, "Manifest.mpd")
    text = open(mp).read()
    f = b["flaw"]
    if f == "hole" and len(files) > 2:
        os.remove(os.path.join(d, files[1 + b["at"] % (len(files) - 2)]))
    elif f == "first" and len(files) > 1:
        os.remove(os.path.join(d, files[0]))
    elif f == "empty":
        for x in files:
            os.remove(os.path.join(d, x))
    elif f == "timescale" and len(reps) > 1:
        rep = dict(c.reps[reps[1]], ts=c.reps[reps[1]]["ts"] * 2)
        open(os.path.join(base, reps[1], "init.mp4"), "wb").write(content.init_bytes(rep, c.spec["media"][ct]["initver"]))
    elif f == "twice":
        a = text.index("<AdaptationSet")
        z = text.index("</AdaptationSet>") + len("</AdaptationSet>")
        text = text[:z] + text[a:z] + text[z:]
    elif f == "stray":
        for x in ("notes.txt", "%s.bak" % files[0], "x%s" % files[-1], "index.m4s", files[-1].replace(".", "9"), "%s~" % files[0], files[0].replace(".m4s", ".m4sx")):
            open(os.path.join(d, x), "wb").write(b"stray")
    elif f == "nostart":
        text = text.replace('startNumber="1" ', "")
    elif f == "attrscale":
        ts = 1000 + 500 * b["at"]
        text = text.replace('duration="%d"' % b["D"], 'timescale="%d" duration="%d"' % (ts, ts * b["D"]))
    open(mp, "w").write(text)


def describe(c):
    "what is stored, read from the files"
    base = os.path.join(c.root, c.name)
    sets = []
    for a in ET.parse(os.path.join(base, "Manifest.mpd")).getroot().iter(NS + "AdaptationSet"):
        reps = []
        for r in a.findall(NS + "Representation"):
            d = os.path.join(base, r.get("id"))
            ib = open(os.path.join(d, "init.mp4"), "rb").read()
            segs = []
            for n in sorted(int(f[:-4]) for f in os.listdir(d) if re.fullmatch(r"\d+\.m4s", f)):
                fr = M.fragment(open(os.path.join(d, "%d.m4s" % n), "rb").read(), M.trex_defaults(ib))
                t = fr["frags"][0]["tracks"][0]
                segs.append({"n": n, "s": t["tfdt"], "d": sum(x[1] for x in t["samples"])})
            reps.append({"id": r.get("id"), "ts": M.media_timescale(ib), "segs": segs})
        sets.append({"ct": a.get("contentType"), "reps": reps})
    return {"D": c.D, "sets": sets}


def written(name, d):
    "the configuration the analysis has written to d"
    r = {"ok": False, "first": NONE, "n": NONE, "D": NONE, "cts": [], "media": {}}
    p = os.path.join(d, name + ".cfg")
    if os.path.exists(p):
        try:
            g = configparser.RawConfigParser()
            g.read(p)
            assert g.get("General", "version") == "1.1"
            r.update(first=g.getint("Setup", "first_segment_in_loop"), n=g.getint("Setup", "nr_segments_in_loop"), D=g.getint("Setup", "segment_duration_s"))
            for ct in g.sections():
                if ct in ("General", "Setup"):
                    continue
                raw = open(os.path.join(d, os.path.basename(g.get(ct, "dat_file"))), "rb").read()
                assert len(raw) % 12 == 0
                tab = [struct.unpack_from("=HHII", raw, i) for i in range(0, len(raw), 12)]
                assert all(x < 2 ** 31 for e in tab for x in e)
                r["cts"].append(ct)
                r["media"][ct] = {"reps": [x.strip() for x in g.get(ct, "representations").split(",")], "ts": g.getint(ct, "timescale"),
                                  "total": g.getint(ct, "total_duration"), "tab": [dict(zip(("n", "more", "s", "d"), e)) for e in tab]}
            r["ok"] = True
        except Exception as e:
            r["why"] = repr(e)
    return r


def event(s, ev, uri=""):
    "an event that is no request"
    base = {"st": 0, "cls": "ok", "dig": "", "bdig": "", "http": [], "rel": [], "url": uri, "t": [0, 0], "oi": 1}
    base.update(ev)
    s.ev.append(base)


def analyzed(lab, k, b, plain, seed):
    c = lab.contents["a%d" % k]
    s = sess.Session(lab, c.name)
    rnd = random.Random("ana%d/%d" % (seed, k))
    spoil(c, b)
    d = tempfile.mkdtemp(prefix="ana-", dir=lab.dir)
    rc, out = tool(["-m", "dashlivesim.vodanalyzer.dashanalyzer"] + rnd.choice([[], [], ["-v"]]) + [os.path.join(c.root, c.name, "Manifest.mpd")], d)
    cfg = written(c.name, d)
    s.opt({})
    event(s, {"k": "ana", "by": c.spec["analyzed"], "rc": rc, "desc": describe(c), "cfg": cfg, "flaw": b["flaw"], "said": out.strip().split("\n")[-1][:200]}, "analyze %s (%s)" % (c.name, b["flaw"]))
    res = [s]
    if rc == 0 and cfg["ok"] and b["flaw"] in ("", "stray"):
        for f in os.listdir(d):
            shutil.copy(os.path.join(d, f), lab.cfg)
        res.append(looped(lab, c, plain, rnd))
    shutil.rmtree(d)
    return res


def looped(lab, c, plain, rnd, reps=None):
    "a client of the analyzed content: more than one whole loop, by number and through timelines"
    s = sess.Session(lab, c.name)
    L = c.n * c.D
    e0 = rnd.choice([0, 0, 7, 1000]) * L + rnd.randrange(c.n) * c.D + c.D
    oi = s.opt({})
    tl, tn = s.opt({"segtimeline": 1}), s.opt({"segtimelinenr": 1})
    reps = reps or [r for r in c.reps]
    for i in range(c.n + 2):
        n = e0 // c.D + i - 1
        rid = rnd.choice(reps)
        t = [(n + 1) * c.D + rnd.randrange(c.D), rnd.choice([0, 500])]
        s.seg(oi, t, rid, n=n)
        if plain and rnd.random() < .5:
            o = rnd.choice([tl, tn])
            s.mpd(o, t)
            m = s.ev[-1]
            if m["st"] == 200 and m["m"]["ok"]:
                ct = c.reps[rid]["ct"]
                st, du = c.starts(ct)
                kk = n
                tick = (kk // c.n) * L * c.reps[rid]["ts"] + st[kk % c.n]
                s.seg(tl, t, rid, time=tick)
    return s


@plan("C24", needs=["C24." + x for x in ("accept", "reject", "nothing", "loop", "media", "table", "total", "window", "decode", "samples", "timeline")])
def c24(c):
    c.model("MCAnalyzer", "MCAnalyzer.cfg" if c.quick else "MCAnalyzer_deep.cfg")
    bs = gen.simulate("AnaGen", "AnaGen.cfg", c.n(200, 2500), 6, seed=c.seed * 31, procs=2)
    c.behaviours += len(bs)
    sz = 160
    for at in range(0, len(bs), sz):
        part = [(k, b) + concrete(b, k) for k, b in enumerate(bs[at:at + sz])]
        lab = c.lab(*[x[2] for x in part])
        c.scenario(lab, "contents analyzed and served", [lambda x=x: analyzed(lab, x[0], x[1], x[3], c.seed) for x in part])


# -- C30: generated subtitles -------------------------------------------------
XML = "{http://www.w3.org/XML/1998/namespace}"
TT = "{http://www.w3.org/ns/ttml}"


def clock(x):
    h, m, s = re.fullmatch(r"(\d{2,}):([0-5]\d):([0-5]\d\.\d{3})", x).groups()
    return [int(h) * 3600 + int(m) * 60 + int(s[:2]), int(s[3:])]


def cues(text):
    "language of the document and its cues; fails for anything else than cues with one line of text"
    root = ET.fromstring(text)
    res = []
    for p in root.iter(TT + "p"):
        m = re.fullmatch(r"\s*(.*?) : (\S+)\s*", "".join(p.itertext()))
        res.append({"b": clock(p.get("begin")), "e": clock(p.get("end")), "lang": m.group(1), "at": clock(m.group(2)), "id": p.get(XML + "id")})
    return root.get(XML + "lang"), res


def generated(p, d):
    "what the generator has written to d"
    ini = {"ok": False, "tracks": [], "trex": [], "next": 0, "lang": "", "ts": 0, "handler": "", "entry": ""}
    r = {"files": [], "extra": [], "ini": ini, "segs": []}
    names = sorted(os.listdir(d)) if os.path.isdir(d) else []
    want = {p["fmt"] % k + ".m4s": k for k in range(1, p["n"] + 1)}
    r["files"] = sorted(want[x] for x in names if x in want)
    r["extra"] = [x for x in names if x not in want and x != "init.mp4"]
    try:
        ib = open(os.path.join(d, "init.mp4"), "rb").read()
        bs = M.parse(ib)
        moov = [b for b in bs if b.typ == b"moov"][0]
        assert [b.typ for b in bs] == [b"ftyp", b"moov"]
        mv = moov.one(b"mvhd").data
        ini["next"] = min(M.r32(mv, len(mv) - 4), 2 ** 31 - 1)
        for tk in moov.find(b"trak"):
            h = tk.one(b"tkhd").data
            assert not any(h[24:28] if h[8] == 0 else h[32:36])   # reserved
            ini["tracks"].append(M.r32(h, 20 if h[8] == 0 else 28))
        mdia = moov.one(b"trak").one(b"mdia")
        md = mdia.one(b"mdhd").data
        assert md[8] == 0 and len(md) == 32
        code = M.r32(md, 28) >> 16
        ini["lang"] = "".join(chr(96 + (code >> k & 31)) for k in (10, 5, 0))
        ini["ts"] = M.r32(md, 20)
        ini["handler"] = mdia.one(b"hdlr").data[16:20].decode("latin1")
        sd = mdia.one(b"minf").one(b"stbl").one(b"stsd").data
        assert M.r32(sd, 12) == 1 and M.r32(sd, 16) == len(sd) - 16
        ini["entry"] = sd[20:24].decode("latin1")
        ini["trex"] = sorted(M.trex_defaults(ib))
        ini["ok"] = True
        trex = M.trex_defaults(ib)
    except Exception as e:
        ini["why"], trex = repr(e), {}
    for k in r["files"]:
        s = {"ok": False}
        try:
            fr = M.fragment(open(os.path.join(d, p["fmt"] % k + ".m4s"), "rb").read(), trex)
            f = fr["frags"][0]
            t = f["tracks"][0]
            assert len(fr["frags"]) == 1 and len(f["tracks"]) == 1 and fr["top"] == ["styp", "moof", "mdat"], fr["top"]
            lang, cs = cues(t["samples"][0][0])
            s = {"ok": True, "covered": f["covered"] == f["mdat_size"], "nsmp": len(t["samples"]), "seq": f["seq"], "track": t["track"], "start": obs.mt(t["tfdt"], 1000),
                 "dur": obs.mt(sum(x[1] for x in t["samples"]), 1000), "cues": cs, "lang": lang or ""}
        except Exception as e:
            s["why"] = repr(e)
        r["segs"].append(s)
    return r


def subgen(lab, k, b, seed):
    rnd = random.Random("sub%d/%d" % (seed, k))
    live = b["live"] < 3
    d = [b["D"], 0] if live else b["d"]
    ms = d[0] * 1000 + d[1]
    r = max(1, ms // b["parts"] + b["off"])
    if b["rdef"] == 1 and ms // 1000 < 100:
        r = 1000
    r = max(r, ms // 60)                                    # not too many cues
    n = max(1, b["n"]) if live else b["n"]
    if n == 40 and not live:                                # many segments, few cues
        n, r = 300, max(r, ms // 2)
    fmt = "%d" if live else ["%d", "%05d", "seg-%d", "%02d_x", "a.%d"][b["fmt"] - 1]
    lang, track = b["lang"] or "eng", b["track"] if b["track"] != NONE else 3
    p = {"n": n, "d": d, "r": r, "lang": lang, "track": track, "fmt": fmt}
    tmp = tempfile.mkdtemp(prefix="sub-", dir=lab.dir)
    out = os.path.join(tmp, "out")
    if b["exists"] == 1:
        os.mkdir(out)
    args = ["-d", ms, "-n", n, "-o", out if b["how"] == 1 else "out"]
    if b["fmt"] != 1 and fmt != "%d" or b["how"] == 2:
        args += ["-f", fmt]
    if r != 1000 or b["how"] == 2:
        args += ["-r", r]
    if b["lang"]:
        args += ["-l", lang]
    if b["track"] != NONE:
        args += ["-t", track]
    name = "dashlivesim.dashlib.stpp_generator.make_stpp_segments"
    rc, said = tool((["-m", name] if b["parts"] % 2 else [os.path.join(REPO, *name.split(".")) + ".py"]) + [str(x) for x in args], tmp)
    c = lab.contents["g%d" % k]
    s = sess.Session(lab, c.name)
    s.opt({})
    event(s, dict(generated(p, out), k="sub", p=p, rc=rc, said=said.strip().split("\n")[-1][:200]), " ".join(["make_stpp_segments"] + [str(x) for x in args]))
    res = [s]
    if live and rc == 0 and len(s.ev[0]["files"]) == n and s.ev[0]["ini"]["ok"] and all(x["ok"] for x in s.ev[0]["segs"]):
        sub = os.path.join(c.root, c.name, "S1")
        shutil.rmtree(sub)
        shutil.copytree(out, sub)
        adopt(c, "S1", track)
        ad = tempfile.mkdtemp(prefix="ana-", dir=lab.dir)
        rc, said = tool(["-m", "dashlivesim.vodanalyzer.dashanalyzer", os.path.join(c.root, c.name, "Manifest.mpd")], ad)
        cfg = written(c.name, ad)
        event(s, {"k": "ana", "by": "C30", "rc": rc, "desc": describe(c), "cfg": cfg, "flaw": "", "said": said.strip().split("\n")[-1][:200]}, "analyze %s" % c.name)
        if rc == 0 and cfg["ok"]:
            for f in os.listdir(ad):
                shutil.copy(os.path.join(ad, f), lab.cfg)
            res.append(looped(lab, c, True, rnd, ["S1"]))
        shutil.rmtree(ad)
    shutil.rmtree(tmp)
    return res


def adopt(c, rid, track):
    "the files of a representation have been replaced"
    d = os.path.join(c.root, c.name, rid)
    c.reps[rid]["trackid"] = track
    c.inits[rid] = open(os.path.join(d, "init.mp4"), "rb").read()
    for i in range(c.first, c.first + c.n):
        c.stored[(rid, i)] = open(os.path.join(d, "%d.m4s" % i), "rb").read()
    c._frag, c._ident = {}, None


@plan("C30", needs=["C30." + x for x in ("files", "track", "language", "kind", "sizes", "segment", "start", "duration", "cues", "text", "ids", "speech", "accept", "table", "window", "decode", "timeline")])
def c30(c):
    c.model("MCSubgen", "MCSubgen.cfg" if c.quick else "MCSubgen_deep.cfg")
    bs = gen.simulate("SubgenGen", "SubgenGen.cfg", c.n(100, 1200), 2, seed=c.seed * 37, procs=2)
    c.behaviours += len(bs)
    sz = 160
    for at in range(0, len(bs), sz):
        part = list(enumerate(bs[at:at + sz]))
        lab = c.lab(*[dict(name="g%d" % k, first=1, n=max(1, b["n"]), D=b["D"], tsbd=300, nocfg=True, analyzed="C30",
                           media={"video": dict(ts=1000, reps=["V1"]), "subtitles": dict(ts=1000, reps=["S1"])}) for k, b in part])
        c.scenario(lab, "subtitles generated and served", [lambda x=x: subgen(lab, x[0], x[1], c.seed) for x in part])


# -- C25: captions ------------------------------------------------------------
def units(sample):
    res, p = [], 0
    while p < len(sample):
        n = M.r32(sample, p)
        if n < 1 or p + 4 + n > len(sample):
            raise M.Malformed("unit")
        d = sample[p + 4:p + 4 + n]
        res.append({"dig": obs.dig(d), "t": d[0] & 31, "cc": packet(d)})
        p += 4 + n
    return res


def packet(d):
    "a caption packet: field and words"
    none = {"ok": False, "field": 0, "w": []}
    if len(d) < 14 or d[0] & 0x9f != 6 or d[1] != 4 or d[2] != len(d) - 4 or d[-1] != 0x80:
        return none
    p = d[3:-1]
    n = p[8] & 31
    if p[:8] != b"\xb5\x00\x31GA94\x03" or p[8] & 0xc0 != 0xc0 or len(p) != 11 + 3 * n or p[9] != 0xff or p[-1] != 0xff:
        return none
    ts = [p[10 + 3 * i:13 + 3 * i] for i in range(n)]
    fields = {t[0] for t in ts}
    if len(fields) > 1 or not fields <= {0xfc, 0xfd}:
        return none
    return {"ok": True, "field": 1 if fields == {0xfc} else 2, "w": [t[1] * 256 + t[2] for t in ts]}


def captioned(raw, ts, trex, stored):
    "the caption-relevant facts of a segment, and digests of everything else"
    try:
        fr = M.fragment(raw, trex)
        f = fr["frags"][0]
        t = f["tracks"][0]
        assert len(fr["frags"]) == 1 and len(f["tracks"]) == 1
        sx, rest = [], []
        def flat(bs):
            for b in bs:
                if b.kids:
                    rest.append(b.typ)
                    flat(b.kids)
                    rest.append(b"/")
                elif b.typ == b"trun":
                    rest.append(b.data[:16] + (b.data[20:24] if b.flags & 4 else b""))
                elif b.typ == b"sidx":
                    sd = M.parse_sidx(b)
                    sx.append({"size": obs.clip(sd["entries"][0]["size"]), "cnt": len(sd["entries"])})
                    o = 32 if b.ver == 0 else 40
                    rest.append(b.data[:o] + b.data[o + 4:])
                elif b.typ != b"mdat":
                    rest.append(b.data)
        flat(fr["boxes"])
        return {"ok": True, "start": obs.mt(t["tfdt"], ts), "covered": f["covered"] == f["mdat_size"], "sidx": sx, "whole": f["moof_size"] + f["mdat_total"],
                "rest": obs.dig(repr(rest)), "smp": [{"d": s[1], "x": "%08x/%d" % (s[2] or 0, s[3]), "u": units(s[0])} for s in t["samples"]]}
    except Exception as e:
        return {"ok": False, "why": repr(e)}


def captions(lab, k, b, seed):
    rnd = random.Random("cap%d/%d" % (seed, k))
    c = lab.contents["c%d" % k]
    ts = c.spec["media"]["video"]["ts"]
    s = sess.Session(lab, c.name)
    s.opt({})
    base = os.path.join(c.root, c.name)
    reps = c.spec["media"]["video"]["reps"]
    stored = []
    for rid in reps:
        trex = M.trex_defaults(c.inits[rid])
        stored.append({"id": rid, "segs": [dict(captioned(c.stored[(rid, n)], ts, trex, None), n=n) for n in range(c.first, c.first + c.n)]})
    caps = []
    for x in b["caps"]:
        segs = stored[0]["segs"]
        if caps and x["same"] == 1:
            t = list(rnd.choice(caps)["t"])
        else:
            sg = segs[min(max(x["seg"], 0), len(segs) - 1)]
            at = sg["start"][0] * ts + sg["start"][1] + sum(y["d"] for y in sg["smp"][:x["smp"]])
            if x["seg"] < 0 or x["seg"] >= len(segs):
                at += (-1 if x["seg"] < 0 else 1) * rnd.randrange(2 * ts)
            at = max(at, 0)
            fr = -(-(at % ts) * 2997 // (ts * 100)) + x["delta"]
            t = [max(0, at // ts + fr // 30), fr % 30]
        caps.append({"t": t, "w": [rnd.choice([0x9420, 0x8080, 0x0000, 0xffff, rnd.randrange(65536)]) for _ in range(x["len"])], "sep": x["sep"]})
    if b["order"] != 1:
        caps.sort(key=lambda x: x["t"])
    d = tempfile.mkdtemp(prefix="cap-", dir=lab.dir)
    with open(os.path.join(d, "in.scc"), "w") as f:
        f.write("Scenarist_SCC V1.0\n\n")
        for x in caps:
            t = x["t"][0]
            f.write("%02d:%02d:%02d%s%02d" % (t // 3600, t // 60 % 60, t % 60, ":;:"[x["sep"] - 1], x["t"][1]) + " \t "[x["sep"] - 1] + " ".join("%04x" % w for w in x["w"]) + "\n\n")
    mp = os.path.join(base, "Manifest.mpd")
    if b["nostart"] == 1:
        text = open(mp).read()
        open(mp, "w").write(text.replace('startNumber="1" ', ""))
    if b["flaw"] == 1:
        for x in ("1.m4s.bak", "x1.m4s", "notes.txt"):
            open(os.path.join(base, reps[0], x), "wb").write(b"stray")
    out = os.path.join(d, "out")
    os.mkdir(out)
    args = (["-f", str(b["field"])] if b["field"] < 3 else []) + (["-v"] if b["verb"] == 1 else []) + [mp, "in.scc", out]
    rc, said = tool(["-m", "dashlivesim.cc_inserter.cc_inserter"] + args, d)
    got = []
    for rid in reps:
        o = out if len(reps) == 1 else os.path.join(out, rid)
        trex = M.trex_defaults(c.inits[rid])
        res = []
        for n in sorted(int(x[:-4]) for x in (os.listdir(o) if os.path.isdir(o) else []) if re.fullmatch(r"\d+\.m4s", x)):
            res.append(dict(captioned(open(os.path.join(o, "%d.m4s" % n), "rb").read(), ts, trex, None), n=n))
        got.append({"id": rid, "segs": res})
    names = sorted(os.path.relpath(os.path.join(x, z), out) for x, _, y in os.walk(out) for z in y)
    extra = [x for x in names if not re.fullmatch(r"\d+\.m4s" if len(reps) == 1 else r"(%s)/\d+\.m4s" % "|".join(reps), x)]
    same = all(open(os.path.join(base, rid, "%d.m4s" % n), "rb").read() == c.stored[(rid, n)] for rid in reps for n in range(c.first, c.first + c.n))
    event(s, {"k": "cap", "rc": rc, "ts": ts, "field": b["field"] if b["field"] < 3 else 1, "caps": [{"t": x["t"], "w": x["w"]} for x in caps], "stored": stored, "got": got, "extra": extra,
              "kept": same, "sizes": content.LAYOUTS[b["lay"]]["trun"] & 0x200 > 0, "said": said.strip().split("\n")[-1][:200]}, "cc_inserter %s (%d captions)" % (c.name, len(caps)))
    shutil.rmtree(d)
    return s


def capcontent(b, k):
    D, n, ts = b["D"], b["n"], b["ts"]
    m = dict(ts=ts, reps=["V1", "V2"][:b["nreps"]], nsamp=b["nsamp"], badloop=True, units=[b["pre"], b["post"]], t0=b["t0"] * ts // 1000)
    lay = b["lay"]
    cum = [x * ts // 10000 for x in b["cum"][:n]]
    durs, t = [], 0
    for i in range(n):
        durs.append((i + 1) * D * ts + cum[i] - t)
        t = (i + 1) * D * ts + cum[i]
    m["durs"] = durs
    if not content.LAYOUTS[lay]["trun"] & 0x100:
        m["durs"] = [D * ts] * n
        m["defdur"] = next(x for x in (D * ts // 12, D * ts // 4, D * ts) if x and D * ts % x == 0)
    m["layout"] = {r: lay for r in m["reps"]}
    media = {"video": m}
    if b["audio"] == 1:
        media["audio"] = dict(ts=48000, reps=["A1"])
    return dict(name="c%d" % k, first=b["first"], n=n, D=D, tsbd=300, media=media, nocfg=True)


@plan("C25", needs=["C25." + x for x in ("accept", "refuse", "files", "place", "packets", "samples", "sizes", "sidx", "rest")])
def c25(c):
    c.model("MCCaptions", "MCCaptions.cfg" if c.quick else "MCCaptions_deep.cfg")
    bs = gen.simulate("CapGen", "CapGen.cfg", c.n(300, 1500), 20, seed=c.seed * 41, procs=2)
    c.behaviours += len(bs)
    sz = 160
    for at in range(0, len(bs), sz):
        part = list(enumerate(bs[at:at + sz]))
        lab = c.lab(*[capcontent(b, k) for k, b in part])
        c.scenario(lab, "captions inserted", [lambda x=x: captions(lab, x[0], x[1], c.seed) for x in part])
