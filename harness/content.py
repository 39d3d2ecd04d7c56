"""Synthetic VoD content: every sample is identifiable. Independent of the repository's code."""
import os, random, struct, hashlib
from mp4tools import *

LAYOUTS = {
    # tver: tfdt version; trun: flags; tfhd: flags (0x020000 default-base-is-moof);
    "plain":   dict(tver=0, trun=0x000f01, tfhd=0x020000),
    "wide":    dict(tver=1, trun=0x000f01, tfhd=0x020000),
    "defs":    dict(tver=0, trun=0x000201, tfhd=0x020028),
    "trexdef": dict(tver=0, trun=0x000205, tfhd=0x020000),
    "fixed":   dict(tver=0, trun=0x000101, tfhd=0x020030),
    "sidx0":   dict(tver=0, trun=0x000b01, tfhd=0x020020, sidx=0),
    "sidx1":   dict(tver=1, trun=0x000e01, tfhd=0x02000a, sidx=1, styp=("msdh", "msdh", "lmsg", "msix")),
    "cenc":    dict(tver=0, trun=0x000b05, tfhd=0x020002 | 0x20, saio=0),
    "cenc1":   dict(tver=0, trun=0x000f01, tfhd=0x020000, saio=1, saioflag=True),
    "alldef":  dict(tver=0, trun=0x000001, tfhd=0x02003a),
    "extra":   dict(tver=0, trun=0x000f01, tfhd=0x020000, extra=True),
    "rev":     dict(tver=0, trun=0x000f01, tfhd=0x020000, runs=2, rev=True),
    "pad":     dict(tver=0, trun=0x000b01, tfhd=0x020020, runs=2, pad=True),
    "event":   dict(tver=0, trun=0x000f01, tfhd=0x020000, event=True),
    "lastbr":  dict(tver=0, trun=0x000f01, tfhd=0x020000, styp=("msdh", "msdh", "lmsg")),
    "nostypx": dict(tver=0, trun=0x000f01, tfhd=0x020000, styp=("msdh",)),
    "runs":    dict(tver=0, trun=0x000f01, tfhd=0x020000, runs=2),
    "negcto":  dict(tver=0, trun=0x000f01, tfhd=0x020000, neg=True),
    "runsdef": dict(tver=0, trun=0x000205, tfhd=0x020000, runs=2),
    "noff":    dict(tver=0, trun=0x000f01, tfhd=0x020000, runs=2, chain=True),
    "cencm":   dict(tver=0, trun=0x000f01, tfhd=0x020000, runs=2, saio=1, each=True),
    "cencm0":  dict(tver=0, trun=0x000b01, tfhd=0x020020, runs=2, saio=0, each=True, saioflag=True),
    "cencw":   dict(tver=1, trun=0x000b01, tfhd=0x020020, saio=1),
}
DEF_SIZE = 40
DEF_FLAGS = 0x01010000


def unit(typ, rnd, ln):
    return u32(ln) + bytes([rnd.randrange(4) << 5 | typ] + [rnd.randrange(1, 256) for _ in range(ln - 1)])


def unit_sample(rep, nr, i, size):
    "a sample of units: some in front of the picture, the picture, some behind"
    rnd = random.Random("u%s/%s/%d/%d" % (rep["cid"], rep["id"], nr, i))
    pre, post = rep["units"]
    if size:
        return unit(rnd.choice([1, 5]), rnd, size - 4)
    out = [unit(rnd.choice([6, 7, 8, 9, 12]), rnd, rnd.randrange(2, 30)) for _ in range(pre and rnd.randrange(pre))]
    out += [unit(rnd.choice([1, 5, 2, 3, 4]), rnd, rnd.randrange(2, 60)) for _ in range(rnd.choice([1, 1, 2, 3]))]
    out += [unit(rnd.choice([6, 12]), rnd, rnd.randrange(2, 20)) for _ in range(post and rnd.randrange(post + 1))]
    return b"".join(out)


def seg_bytes(rep, nr, tfdt, total_dur, lay, nsamp, seq):
    "One stored segment. total_dur ticks split over nsamp samples."
    L = LAYOUTS[lay]
    rnd = random.Random("%s/%s/%d" % (rep["cid"], rep["id"], nr))
    tf, hf = L["trun"], L["tfhd"]
    has_dur = tf & 0x100
    if has_dur:
        q, r = divmod(total_dur, nsamp)
        durs = [q + (1 if i < r else 0) for i in range(nsamp)]
        if nsamp > 2 and q > 4:
            durs[0] += 2; durs[1] -= 2
    else:
        assert total_dur % rep["defdur"] == 0, (rep["id"], total_dur, rep["defdur"])
        nsamp = total_dur // rep["defdur"]
        durs = [rep["defdur"]] * nsamp
    samples = []
    for i in range(nsamp):
        tag = ("<%s/%d/%d>" % (rep["id"], nr, i)).encode()
        if tf & 0x200:
            ln = len(tag) + rnd.randrange(0, 23)
        else:
            ln = DEF_SIZE
        pay = tag + bytes(rnd.randrange(256) for _ in range(ln - len(tag)))
        if rep.get("units"):
            pay = unit_sample(rep, nr, i, None if tf & 0x200 else DEF_SIZE)
        fl = (0x02000000 if i == 0 else 0x01010000 + i) if tf & 0x400 else None
        cto = rnd.randrange(0, 9) * 10 - (40 if L.get("neg") else 0) if tf & 0x800 else 0
        samples.append((pay, durs[i], fl, cto))
    # boxes
    def tfhd():
        p = [u32(rep["trackid"])]
        if hf & 2: p.append(u32(1))
        if hf & 8: p.append(u32(rep["defdur"]))
        if hf & 0x10: p.append(u32(DEF_SIZE))
        if hf & 0x20: p.append(u32(DEF_FLAGS))
        return full(b"tfhd", 0, hf, *p)
    tfdtb = full(b"tfdt", 1, 0, u64(tfdt)) if L["tver"] else full(b"tfdt", 0, 0, u32(tfdt))
    def trun(ss, off, first):
        tf = L["trun"] & ~(0 if first or not L.get("chain") else 1)
        p = [u32(len(ss))] + ([s32(off)] if tf & 1 else [])
        if tf & 4: p.append(u32(0x02000000))
        for (pay, d, fl, cto) in ss:
            if tf & 0x100: p.append(u32(d))
            if tf & 0x200: p.append(u32(len(pay)))
            if tf & 0x400: p.append(u32(fl))
            if tf & 0x800: p.append(s32(cto))
        return full(b"trun", 1 if L.get("neg") else 0, tf, *p)
    nr_runs = L.get("runs", 1)
    half = len(samples) // 2
    parts = [samples] if nr_runs == 1 else [samples[:half], samples[half:]]
    # where the samples of each run lie in the media data
    pads = [b"unused%d" % k if L.get("pad") else b"" for k in range(len(parts))]
    at_run, media = {}, b""
    for k in (reversed(range(len(parts))) if L.get("rev") else range(len(parts))):
        media += pads[k]
        at_run[k] = len(media)
        media += b"".join(x[0] for x in parts[k])
    def build(off, senc_at):
        kids = [tfhd(), tfdtb]
        for k, pt in enumerate(parts):
            kids.append(trun(pt, off + at_run[k], k == 0))
        if "saio" in L:
            ivs = [hashlib.md5(s[0]).digest()[:8] for s in samples]
            kids.append(full(b"saiz", 0, 0, b"\x08", u32(len(samples))))
            typ = (b"cenc" + u32(0)) if L.get("saioflag") else b""
            at = [senc_at + 8 * sum(len(x) for x in parts[:k]) for k in range(len(parts) if L.get("each") else 1)]   # of each run, or of all
            kids.append(full(b"saio", L["saio"], 1 if L.get("saioflag") else 0, typ, u32(len(at)), *[u64(x) if L["saio"] else u32(x) for x in at]))
            kids.append(full(b"senc", 0, 0, u32(len(samples)), *ivs))
        if L.get("extra"):
            kids.append(box(b"uuid", b"0123456789abcdef", b"in-traf") + box(b"free"))
        traf = box(b"traf", *kids)
        moof_kids = [full(b"mfhd", 0, 0, u32(seq)), traf]
        if L.get("extra"):
            moof_kids.append(box(b"free", b"moof-tail"))
        return box(b"moof", *moof_kids)
    m0 = build(0, 0)
    senc_at = 0
    if "saio" in L:
        i = m0.index(b"senc")
        senc_at = i + 4 + 8  # after version/flags and sample count
    m = build(len(m0) + 8, senc_at)
    mdat = box(b"mdat", media)
    styp = L.get("styp", ("msdh", "msdh", "msix"))
    st = box(b"styp", styp[0].encode(), u32(0), *[x.encode() for x in styp[1:]])
    out = [st]
    if L.get("extra"):
        out.append(box(b"free", b"between") + box(b"free"))
    if L.get("event"):
        out.append(full(b"prft", 1, 0, u32(rep["trackid"]), u64(1 << 40), u64(tfdt)))
        out.append(full(b"emsg", 0, 0, b"urn:x:stored\0", b"7\0", u32(rep["ts"]), u32(0), u32(5), u32(9), b"stored"))
    if "sidx" in L:
        v = L["sidx"]
        w = u64 if v else u32
        out.append(full(b"sidx", v, 0, u32(rep["trackid"]), u32(rep["ts"]), w(tfdt), w(0), u32(1),
                        u32(len(m) + len(mdat)), u32(total_dur), u32(0x90000000)))
    out += [m, mdat]
    if L.get("extra"):
        out.append(box(b"free") + box(b"free", b"tail"))
    return b"".join(out)


def init_bytes(rep, ver=0, extra=False, nduration=123456):
    tid, ts = rep["trackid"], rep["ts"]
    mat = b"".join(u32(x) for x in (0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000))
    if ver:
        mv = full(b"mvhd", 1, 0, u64(1111), u64(2222), u32(ts), u64(nduration * 3), u32(0x10000), b"\x01\0" + b"\0" * 10,
                  mat, b"\0" * 24, u32(tid + 1))
        tk = full(b"tkhd", 1, 7, u64(1111), u64(2222), u32(tid), u32(0), u64(nduration * 5), b"rsrvdtk1", b"\0\1\0\2\1\0\0\0", mat,
                  u32(640 << 16), u32(360 << 16))
        md = full(b"mdhd", 1, 0, u64(1111), u64(2222), u32(ts), u64(nduration * 7), b"\x55\xc4\0\0")
    else:
        mv = full(b"mvhd", 0, 0, u32(1111), u32(2222), u32(ts), u32(nduration), u32(0x10000), b"\x01\0" + b"\0" * 10,
                  mat, b"\0" * 24, u32(tid + 1))
        tk = full(b"tkhd", 0, 7, u32(1111), u32(2222), u32(tid), u32(0), u32(nduration + 1), b"rsrvdtk0", b"\0\1\0\2\1\0\0\0", mat,
                  u32(640 << 16), u32(360 << 16))
        md = full(b"mdhd", 0, 0, u32(1111), u32(2222), u32(ts), u32(nduration + 2), b"\x55\xc4\0\0")
    hd = {"video": b"vide", "audio": b"soun", "subtitles": b"subt"}[rep["ct"]]
    hdlr = full(b"hdlr", 0, 0, u32(0), hd, b"\0" * 12, ("handler " + rep["id"]).encode() + b"\0")
    stbl = box(b"stbl", full(b"stsd", 0, 0, u32(1), box({"video": b"avc1", "audio": b"mp4a", "subtitles": b"stpp"}[rep["ct"]],
               b"\0" * 6, b"\0\x01", rep["id"].encode())), full(b"stts", 0, 0, u32(0)), full(b"stsc", 0, 0, u32(0)),
               full(b"stsz", 0, 0, u32(0), u32(0)), full(b"stco", 0, 0, u32(0)))
    minf = box(b"minf", full(b"nmhd", 0, 0), box(b"dinf", full(b"dref", 0, 0, u32(1), full(b"url ", 0, 1))), stbl)
    mdia = box(b"mdia", md, hdlr, minf)
    trak_kids = [tk]
    if extra:
        trak_kids.append(box(b"edts", full(b"elst", 0, 0, u32(1), u32(0), u32(0), u32(0x10000))))
    trak_kids.append(mdia)
    trex = full(b"trex", 0, 0, u32(tid), u32(1), u32(rep.get("defdur", 0)), u32(DEF_SIZE), u32(DEF_FLAGS))
    mvex_kids = [trex]
    kids = [mv, box(b"trak", *trak_kids), box(b"mvex", *mvex_kids)]
    if extra:
        kids = [mv, box(b"udta", b"metadata"), box(b"mvex", *mvex_kids), box(b"trak", *trak_kids)]
    out = [box(b"ftyp", b"iso6", u32(1), b"isom", b"dash")]
    if extra:
        out.append(box(b"free", b"xx"))
    out.append(box(b"moov", *kids))
    if extra:
        out.append(box(b"skip", b"moov tail mvhd"))
    return b"".join(out)


def ttml(rep, nr, start_ms, dur_ms, cues, frac, text=""):
    "text: plain, or 'rich' (other languages and scripts, several segment texts, times that are no cue times)"
    def t(ms):
        h, r = divmod(ms, 3600000); m, r = divmod(r, 60000); s, r = divmod(r, 1000)
        return "%02d:%02d:%02d" % (h, m, s) + ((".%0*d" % (frac, r // (10 ** (3 - frac)))) if frac else "")
    rich = text == "rich"
    ps = []
    for i in range(cues):
        b = start_ms + dur_ms * i // cues
        e = start_ms + dur_ms * (i + 1) // cues
        lang = ["SWE", "en2", "pt_BR", "eng"][(nr + i) % 4] if rich else "eng"
        more = ' \u00e5\u4e2d 11:22:33 Segment # %d<br/>segment 7' % (nr * 1000003) if rich and i % 2 == 0 else ""
        if rich and i % 2:
            ps.append('<p end="%s" xml:id="c%d" tts:x="00:00:01.5" begin="%s"><span>%s : %s</span>%s</p>' % (t(e), i, t(b), lang, t(b), more))
        else:
            ps.append('<p xml:id="c%d" begin="%s" end="%s"><span>%s : %s</span>%s</p>' % (i, t(b), t(e), lang, t(b), more))
    return ('<?xml version="1.0"?><tt %sxml:lang="eng"><body><div>%s<p xml:id="x" begin="%s" end="%s">Segment # %d</p>'
            '</div></body></tt>' % ('xmlns:tts="urn:x" ' if rich else "", ("\n" if rich else "").join(ps), t(start_ms), t(start_ms + dur_ms), nr)).encode()


def sub_seg(rep, nr, tfdt, dur, text, ver=1):
    tfdtb = full(b"tfdt", 1, 0, u64(tfdt)) if ver else full(b"tfdt", 0, 0, u32(tfdt))
    def moof(off):
        return box(b"moof", full(b"mfhd", 0, 0, u32(nr)), box(b"traf", full(b"tfhd", 0, 0x020018, u32(rep["trackid"]), u32(dur),
                   u32(len(text))), tfdtb, full(b"trun", 0, 1, u32(1), s32(off))))
    m = moof(len(moof(0)) + 8)
    return box(b"styp", b"msdh", u32(0), b"msdh", b"dash") + m + box(b"mdat", text)


def rle(first, durs):
    "run-length duration table entries (start_nr, repeats, start_time, duration)"
    ent, t = [], 0
    for i, d in enumerate(durs):
        if ent and ent[-1][3] == d:
            ent[-1][1] += 1
        else:
            ent.append([first + i, 0, t, d])
        t += d
    return [tuple(e) for e in ent]


def mpd_xml(spec):
    ns = 'xmlns="urn:mpeg:dash:schema:mpd:2011"'
    attrs = 'profiles="%s" minBufferTime="PT2S" type="static"' % spec.get("profiles", "urn:mpeg:dash:profile:isoff-live:2011")
    if spec.get("mpd_dur", True):
        attrs += ' mediaPresentationDuration="PT%dS"' % (spec["n"] * spec["D"])
    if spec.get("mpd_extra_attr"):
        attrs += ' %s' % spec["mpd_extra_attr"]
    out = ['<?xml version="1.0" encoding="utf-8"?>', "<MPD %s %s>" % (ns, attrs)]
    for i in range(spec.get("proginfo", 1)):
        out.append('<ProgramInformation><Title>title %d &amp; more</Title></ProgramInformation>' % i)
    if spec.get("own_baseurl"):
        out.append("<BaseURL>%s</BaseURL>" % spec["own_baseurl"])
    out.append('<Period id="precambrian" start="PT0S">')
    for ct in ("video", "audio", "subtitles", "image"):
        if ct not in spec["media"]:
            continue
        M = spec["media"][ct]
        if ct == "image":
            out.append('<AdaptationSet contentType="image" mimeType="image/jpeg" lang="und">')
            out.append('<SegmentTemplate startNumber="1" duration="%d" media="%s$RepresentationID$/$Number$.jpg"/>'
                       % (spec["D"], M.get("dir", "")))
        else:
            mime = {"video": "video/mp4", "audio": "audio/mp4", "subtitles": "application/mp4"}[ct]
            out.append('<AdaptationSet contentType="%s" mimeType="%s" lang="eng" segmentAlignment="true">' % (ct, mime))
            if spec.get("described"):   # properties that the schema places in front of the inband events, and between them and the template
                if ct == "audio":
                    out.append('<AudioChannelConfiguration schemeIdUri="urn:mpeg:dash:23003:3:audio_channel_configuration:2011" value="2"/>')
                out.append('<ContentProtection schemeIdUri="urn:mpeg:dash:mp4protection:2011" value="cenc"/>')
                out.append('<EssentialProperty schemeIdUri="urn:x:essential" value="1"/><SupplementalProperty schemeIdUri="urn:x:more" value="2"/>')
                out.append('<Label>one</Label><Accessibility schemeIdUri="urn:x:acc" value="3"/>')
            out.append('<Role schemeIdUri="urn:mpeg:dash:role:2011" value="main"/>')
            out.append('<SegmentTemplate startNumber="%d" duration="%d" initialization="%s$RepresentationID$/init.mp4" '
                       'media="%s$RepresentationID$/$Number$.m4s"/>' % (spec.get("tpl_start", 1), spec["D"], M.get("dir", ""),
                                                                       M.get("dir", "")))
        for r in M["reps"]:
            out.append('<Representation id="%s" bandwidth="1000" codecs="x"/>' % r)
        out.append("</AdaptationSet>")
    out.append("</Period>")
    if spec.get("mpd_metrics"):
        out.append('<Metrics metrics="BufferLevel"><Reporting schemeIdUri="urn:x"/></Metrics>')
    out.append("</MPD>")
    return "\n".join(out)


class Content(object):
    """spec: name, first, n, D, tsbd, media{ct:{ts, reps, durs?, dir?, layout{rep:..}, nsamp, defdur}}"""
    def __init__(self, spec, root, cfgdir):
        self.spec = spec
        self.name, self.first, self.n, self.D = spec["name"], spec["first"], spec["n"], spec["D"]
        self.tsbd = spec.get("tsbd", 300)
        self.root, self.cfgdir = root, cfgdir
        self.reps = {}    # id -> rep dict
        self.by_samples = {}
        self.write()

    def write(self):
        sp = self.spec
        base = os.path.join(self.root, self.name)
        os.makedirs(base, exist_ok=True)
        os.makedirs(self.cfgdir, exist_ok=True)
        tid = 0
        self.stored = {}
        self.inits = {}
        self.digest = {}
        cfg = ["[General]", "version = %s" % sp.get("version", "1.1"), "", "[Setup]",
               "first_segment_in_loop = %d" % self.first, "nr_segments_in_loop = %d" % self.n,
               "segment_duration_s = %d" % self.D, "default_tsbd_secs = %d" % self.tsbd, ""]
        for ct in ("video", "audio", "subtitles", "image"):
            if ct not in sp["media"]:
                continue
            M = sp["media"][ct]
            ts = M["ts"]
            durs = M.get("durs") or [self.D * ts] * self.n
            assert len(durs) == self.n
            if ct != "image" and not M.get("badloop"):
                assert sum(durs) == self.n * self.D * ts, (self.name, ct)
            t0 = M.get("t0", 0)
            for k, rid in enumerate(M["reps"]):
                tid += 1
                rep = {"cid": self.name, "id": rid, "ct": ct, "ts": ts, "trackid": M.get("trackids", {}).get(rid, tid),
                       "dir": M.get("dir", ""), "durs": durs, "defdur": M.get("defdur", 0), "k": k,
                       "lay": M.get("layout", {}).get(rid, "plain"), "t0": t0, "units": M.get("units")}
                self.reps[rid] = rep
                d = os.path.join(base, rep["dir"], rid)
                os.makedirs(d, exist_ok=True)
                if ct == "image":
                    for i in range(self.n):
                        self.put(os.path.join(d, "%d.jpg" % (self.first + i)),
                                 b"\xff\xd8JPEG<%s/%d>" % (rid.encode(), self.first + i) + bytes([i % 251]) * (20 + i))
                        self.stored[(rid, self.first + i)] = open(os.path.join(d, "%d.jpg" % (self.first + i)), "rb").read()
                    continue
                ib = init_bytes(rep, M.get("initver", 0), M.get("initextra", False))
                self.put(os.path.join(d, "init.mp4"), ib)
                self.inits[rid] = ib
                tfdt = t0
                gaps = M.get("gaps") or [0] * self.n
                more = M.get("more", {}).get(rid, [])         # behind the loop
                for i in range(self.n + len(more)):
                    nr = self.first + i
                    tfdt += gaps[i] if i < self.n else 0
                    if i >= self.n:
                        dur = more[i - self.n]
                    else:
                        dur = durs[i]
                    if ct == "subtitles":
                        text = ttml(rep, nr, (tfdt * 1000) // ts, dur * 1000 // ts, M.get("cues", 2) + (i % 2), M.get("frac", 3), M.get("text", ""))
                        sb = sub_seg(rep, nr, tfdt, dur, text, M.get("subver", 1))
                    else:
                        ns = M.get("nsamp", 3) + (i % 2 if M.get("vary", True) else 0)
                        sb = seg_bytes(rep, nr, tfdt, dur, rep["lay"], ns, nr)
                    self.put(os.path.join(d, "%d.m4s" % nr), sb)
                    if i < self.n:
                        self.stored[(rid, nr)] = sb
                    tfdt += dur
            cfg += ["[%s]" % ct, "representations = %s" % ",".join(M["reps"]), "timescale = %d" % ts]
            if sp.get("version", "1.1") == "1.1":
                cfg += ["total_duration = %d" % sum(durs), "dat_file = %s_%s.dat" % (self.name, ct)]
                with open(os.path.join(self.cfgdir, "%s_%s.dat" % (self.name, ct)), "wb") as f:
                    for (a, b, c, e) in (M.get("dat") or rle(self.first, durs)):
                        f.write(struct.pack("HHII", a, b, c, e))
            cfg.append("")
        if not sp.get("nocfg"):
            with open(os.path.join(self.cfgdir, self.name + ".cfg"), "w") as f:
                f.write("\n".join(cfg))
        self.mpd_text = mpd_xml(sp)
        self.mpd_name = sp.get("mpd", "Manifest.mpd")
        self.put(os.path.join(base, self.mpd_name), self.mpd_text.encode())
        self._frag = {}
        self._ident = None

    def put(self, path, data):
        with open(path, "wb") as f:
            f.write(data)

    def frag(self, rid, nr):
        k = (rid, nr)
        if k not in self._frag:
            self._frag[k] = fragment(self.stored[k], trex_defaults(self.inits[rid]))
        return self._frag[k]

    def identify(self, rid, payload):
        "Which stored segment of rid has exactly this concatenated sample payload? -1 if none."
        if self._ident is None:
            self._ident = {}
            for (r, nr) in self.stored:
                if self.reps[r]["ct"] in ("image",):
                    self._ident[(r, self.stored[(r, nr)])] = nr
                    continue
                fr = self.frag(r, nr)
                self._ident[(r, b"".join(s[0] for s in fr["frags"][0]["tracks"][0]["samples"]))] = nr
        return self._ident.get((rid, payload), -1)

    def starts(self, ct):
        M = self.spec["media"][ct]
        durs = M.get("durs") or [self.D * M["ts"]] * self.n
        t, out = M.get("t0", 0), []
        for d, g in zip(durs, M.get("gaps") or [0] * self.n):
            t += g
            out.append(t)
            t += d
        return out, durs

    def table(self):
        "Description used by the specification (JSON)."
        sp = self.spec
        med = {}
        for ct in ("video", "audio", "subtitles", "image"):
            if ct in sp["media"]:
                st, du = self.starts(ct)
                med[ct] = {"ts": sp["media"][ct]["ts"], "start": st, "dur": du}
            else:
                med[ct] = {"ts": 0, "start": [], "dur": []}
        return {"name": self.name, "first": self.first, "n": self.n, "D": self.D, "tsbd": self.tsbd, "media": med,
                "cts": [ct for ct in ("video", "audio", "subtitles", "image") if ct in sp["media"]]}
