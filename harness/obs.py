"""Projection of real replies to the observations the specification talks about."""
import re, hashlib, calendar, time
from xml.etree import ElementTree as ET
import mp4tools as M

NS = "{urn:mpeg:dash:schema:mpd:2011}"
XL = "{http://www.w3.org/1999/xlink}"
NONE = -999999999
BIG = 2 ** 31 - 1


def dig(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return hashlib.sha256(b).hexdigest()[:12]


def clip(x):
    return x if -BIG < x < BIG else (BIG if x > 0 else -BIG)


def mt(ticks, ts):
    "media time as [sec, ticks]"
    if ts <= 0:
        return [BIG, BIG]
    return [clip(ticks // ts), ticks % ts]


def classify(reply):
    txt = reply.body.decode("utf-8", "replace").lower()
    if "proxy error" in txt:
        return "error"
    if "down" in txt:
        return "down"
    if "early" in txt or "before" in txt:
        return "early"
    if "late" in txt or "beyond" in txt or "after" in txt:
        return "late"
    return "other" if txt.strip() else "empty"


TYPES = {".mpd": "application/dash+xml", ".m4s": "video/iso.segment", ".mp4": "video/mp4", ".jpg": "image/jpeg"}
NEED = {"access-control-allow-origin": "*", "cache-control": "no-cache", "pragma": "no-cache", "expires": "-1"}
HAVE = ("access-control-allow-headers", "access-control-allow-methods", "access-control-expose-headers", "content-type")


def wellformed_http(reply, ext="", chunked=False):
    "C27: one explicit complete reply. Returns the list of defects."
    if reply.status == -1:
        return ["hang"]
    if reply.status in (-2, -3) or reply.starts != 1:
        return ["failed"]
    bad = []
    h = {}
    for a, b in reply.headers:
        if not isinstance(a, str) or not isinstance(b, str) or "\n" in b or "\r" in b:
            bad.append("header")
            continue
        if a.lower() in h:
            bad.append("duplicate " + a.lower())
        h[a.lower()] = b
    if reply.status not in (200, 206, 302, 404, 410):
        bad.append("status")
    for k, v in NEED.items():
        if h.get(k) != v:
            bad.append(k)
    bad += [k for k in HAVE if not h.get(k)]
    if "content-length" in h:
        if h["content-length"] != str(len(reply.body)):
            bad.append("length")
    elif not chunked:
        bad.append("no length")
    if reply.status in (200, 206):
        if ext in TYPES and h.get("content-type") != TYPES[ext]:
            bad.append("type")
        if reply.status == 200 and not reply.body:
            bad.append("empty")
    if reply.status == 404 and (h.get("content-type") != "text/plain" or not reply.body.strip()):
        bad.append("refusal")
    if reply.status == 302 and not h.get("location"):
        bad.append("location")
    if (reply.status == 206) != ("content-range" in h):
        bad.append("content-range")
    return bad


def samples(tr, full=True):
    return [[dig(s[0]), len(s[0]), clip(s[1]), "%08x" % s[2], s[3]] for s in tr["samples"]]


def seg_record(content, reps, reply, detail=True):
    "Everything observable about a media segment reply (status 200)."
    r = {"ok": True, "why": "", "top": [], "lmsg": 0, "brands": [], "frags": [], "sidx": [], "emsg": []}
    trex = {}
    for rid in reps:
        if rid in content.inits:
            trex.update(M.trex_defaults(content.inits[rid]))
    try:
        fr = M.fragment(reply.body, trex)
        r["top"] = fr["top"]
        for i, b in enumerate(fr["boxes"]):
            if b.typ == b"styp":
                br = M.brands(b)
                r["brands"] = br
                r["lmsg"] += br.count("lmsg")
            elif b.typ == b"sidx":
                sx = M.parse_sidx(b)
                e0 = sx["entries"][0] if sx["entries"] else {"type": -1, "size": -1, "dur": -1, "sap": 0}
                r["sidx"].append({"at": i + 1, "ts": clip(sx["ts"]), "ept": mt(sx["ept"], sx["ts"]), "first": clip(sx["first"]),
                                  "cnt": len(sx["entries"]), "size": e0["size"], "dur": clip(e0["dur"]),
                                  "type": e0["type"]})
            elif b.typ == b"emsg":
                em = M.parse_emsg(b)
                r["emsg"].append(dict(at=i + 1, **splice(em)))
        for k, f in enumerate(fr["frags"]):
            d = {"seq": clip(f["seq"]), "msize": f["moof_size"] + f["mdat_total"], "mdat": f["mdat_size"],
                 "covered": f["covered"], "at": [i + 1 for i, b in enumerate(fr["boxes"]) if b.typ == b"moof"][k],
                 "tracks": []}
            for tr in f["tracks"]:
                ts = next((content.reps[x]["ts"] for x in reps if x in content.reps and
                           content.reps[x]["trackid"] == tr["track"]), content.reps[reps[0]]["ts"])
                d["tracks"].append({"tid": clip(tr["track"]), "tfdt": mt(tr["tfdt"], ts), "tver": tr["tver"],
                                    "smp": samples(tr) if detail else [],
                                    "nsmp": len(tr["samples"]), "dur": clip(sum(s[1] for s in tr["samples"])),
                                    "aux": [dig(a) for a in tr["aux"]] if tr["aux"] is not None else [],
                                    "oth": dig(repr(tr["others"])),
                                    "pay": dig(b"".join(s[0] for s in tr["samples"]))})
            r["frags"].append(d)
    except M.Malformed as e:
        r["ok"], r["why"] = False, str(e)
    except Exception as e:
        r["ok"], r["why"] = False, "%s %s" % (type(e).__name__, e)
    return r


ISO = re.compile(r"^(-?\d+)-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?Z$")


def ts_int(s):
    "ISO timestamp -> epoch seconds; NONE if absent, -1000000001 if malformed"
    if s is None:
        return NONE
    try:
        return calendar.timegm(time.strptime(s, "%Y-%m-%dT%H:%M:%SZ"))
    except ValueError:
        return -1000000001


DUR = re.compile(r"^P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?(T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?$")


def dur_int(s):
    "ISO duration -> seconds; NONE absent; -2 for P100Y (never); malformed -1000000001"
    if s is None:
        return NONE
    if s == "P100Y":
        return -2
    m = DUR.match(s)
    if not m or s == "P" or s.endswith("T") or m.group(1) or m.group(2):
        return -1000000001
    g = m.groups()
    return clip(int(g[2] or 0) * 86400 + int(g[4] or 0) * 3600 + int(g[5] or 0) * 60 + int(g[6] or 0))


def ato_ms(s):
    if s is None:
        return 0
    if s == "INF":
        return -1
    try:
        x = float(s) * 1000
        return int(round(x)) if abs(x - round(x)) < 1e-6 else -1000000001
    except ValueError:
        return -1000000001


def int_or(s, dflt):
    if s is None:
        return dflt
    try:
        return clip(int(s))
    except ValueError:
        return -1000000001


def splice(em):
    "emsg record with SCTE-35 details"
    r = {"at_s": ts_int(em["msg"]) if len(em["msg"]) < 64 else NONE, "scheme": em["scheme"], "value": em["value"], "ts": clip(em["ts"]), "delta": clip(em["delta"]),
         "dur": clip(em["dur"]), "id": clip(em["id"]), "msg": em["msg"] if len(em["msg"]) < 64 else "", "sid": -1,
         "pts16": -1, "ptsr": -1, "brk": -1, "ret": ""}
    if "scte35" in em["scheme"]:
        try:
            x = ET.fromstring(em["msg"].replace("scte35:tier", "tier"))
            ins = x.find("SpliceInsert")
            pts = int(ins.find("Program").find("SpliceTime").get("ptsTime"))
            brk = ins.find("BreakDuration")
            r["sid"] = int(ins.get("spliceEventId"))
            r["pts16"], r["ptsr"] = (clip(pts // 16), pts % 16) if 0 <= pts < 2 ** 33 else (-2, -2)
            r["brk"] = int(brk.get("duration"))
            r["ret"] = ins.get("spliceEventCancelIndicator")
        except Exception:
            pass
    return r


def local(tag):
    return tag.split("}")[-1]


def canon(el):
    "canonical text of an element (attribute order, white space in element content ignored)"
    kids = "".join(canon(k) for k in el if isinstance(k.tag, str))
    txt = (el.text or "").strip()
    at = " ".join("%s=%r" % (k, v) for k, v in sorted(el.attrib.items()))
    return "<%s %s|%s>%s</>" % (el.tag, at, txt, kids)


def canon_no_attr_text(el):
    return canon(el)


def strip_urls(root):
    "remove the places where a manifest quotes the request URL"
    for k in list(root):
        if k.tag in (NS + "BaseURL", NS + "Location"):
            k.text = ""
    for p in root.findall(NS + "Period"):
        h = p.get(XL + "href")
        if h and h.endswith(".period"):
            p.set(XL + "href", h.rsplit("+", 1)[-1])
    return root


def expand(tl, ts):
    "SegmentTimeline -> [[sec, ticks, dur]...]; None if malformed"
    out, t = [], None
    for s in tl:
        if local(s.tag) != "S":
            return None
        try:
            d = int(s.get("d"))
            r = int(s.get("r", "0"))
            if s.get("t") is not None:
                t = int(s.get("t"))
        except (TypeError, ValueError):
            return None
        if t is None:
            t = 0
        if r < 0 or r > 5000 or len(out) > 5000:
            return None
        for _ in range(r + 1):
            out.append(mt(t, ts) + [clip(d)])
            t += d
    return out


TPL_ATTRS = ("startNumber", "duration", "timescale", "presentationTimeOffset", "availabilityTimeOffset",
             "availabilityTimeComplete")
ROOT_ATTRS = ("type", "availabilityStartTime", "availabilityEndTime", "publishTime", "minimumUpdatePeriod",
              "timeShiftBufferDepth", "suggestedPresentationDelay", "mediaPresentationDuration", "maxSegmentDuration",
              "profiles", "id")


def leaf_facts(el, path, out):
    "everything below an element as a list of path=value strings (tuples of repeated elements by position)"
    tag = local(el.tag)
    if tag == "SegmentTimeline":
        return
    p = path + "/" + tag
    for k, v in el.attrib.items():
        if tag == "SegmentTemplate":
            if k in TPL_ATTRS:
                continue
            if k == "media":
                v = v.replace("t$Time$", "$N$").replace("$Number$", "$N$")
        out.append("%s@%s=%s" % (p, local(k), v))
    out.append("%s=%s" % (p, (el.text or "").strip()))
    n = 0
    for k in el:
        if isinstance(k.tag, str):
            if local(k.tag) == "Representation":
                n += 1
                leaf_facts(k, p + "#%d" % n, out)
            else:
                leaf_facts(k, p, out)


def period_facts(p):
    out, n = [], 0
    for k in p:
        if not isinstance(k.tag, str):
            continue
        if local(k.tag) == "AdaptationSet":
            n += 1
            leaf_facts(k, "#%d" % n, out)
        elif local(k.tag) not in ("SegmentBase", "EventStream", "AssetIdentifier"):
            leaf_facts(k, "", out)
    return out


def root_facts(root):
    out = ["@%s=%s" % (local(k), v) for k, v in root.attrib.items() if k not in ROOT_ATTRS]
    for k in root:
        if isinstance(k.tag, str) and local(k.tag) not in ("BaseURL", "Location", "Period", "UTCTiming", "ServiceDescription"):
            out.append(canon(k))
    return out


def as_record(a, ctdefault=""):
    r = {"ct": a.get("contentType", ctdefault), "inband": [], "cont": [], "prt": 0, "reps": [], "tpl": [], "order": [local(k.tag) for k in a if isinstance(k.tag, str)]}
    for k in a:
        n = local(k.tag)
        if n == "InbandEventStream":
            r["inband"].append([k.get("schemeIdUri", ""), k.get("value", "")])
        elif n == "SupplementalProperty" and "period_continuity" in k.get("schemeIdUri", ""):
            r["cont"].append(k.get("value", ""))
        elif n == "ProducerReferenceTime":
            r["prt"] += 1
        elif n == "Representation":
            r["reps"].append(k.get("id"))
        elif n == "SegmentTemplate":
            ts = int_or(k.get("timescale"), 1)
            tls = [x for x in k if local(x.tag) == "SegmentTimeline"]
            tl = expand(tls[0], ts) if tls else None
            try:
                pto = mt(int(k.get("presentationTimeOffset", "0")), ts)
            except ValueError:
                pto = [-1, -1]
            r["tpl"].append({"snr": int_or(k.get("startNumber"), 1), "snrattr": 1 if k.get("startNumber") is not None else 0,
                             "dur": int_or(k.get("duration"), NONE), "pto": pto, "ts": ts,
                             "ato": ato_ms(k.get("availabilityTimeOffset")), "atc": k.get("availabilityTimeComplete", ""),
                             "media": k.get("media", ""), "byt": 1 if "$Time$" in k.get("media", "") else 0,
                             "bynr": 1 if "$Number$" in k.get("media", "") else 0,
                             "ntl": len(tls), "tlok": 1 if (not tls or tl is not None) else 0, "tl": tl or []})
    return r


def period_record(p):
    sb = [k for k in p if local(k.tag) == "SegmentBase"]
    evs = []
    for k in p:
        if local(k.tag) == "EventStream":
            evs.append([k.get("schemeIdUri", ""), k.get("value", ""),
                        ",".join(e.get("messageData", "") for e in k if local(e.tag) == "Event")])
    pid = p.get("id", "")
    m = re.match(r"^p(\d+)$", pid)
    return {"id": pid, "nr": clip(int(m.group(1))) if m else -1, "start": dur_int(p.get("start")), "dur": dur_int(p.get("duration")),
            "asset": len([k for k in p if local(k.tag) == "AssetIdentifier"]), "href": p.get(XL + "href", ""),
            "hparts": p.get(XL + "href").split("/") if p.get(XL + "href") else [], "facts": period_facts(p),
            "actuate": p.get(XL + "actuate", ""), "evs": evs, "nkids": len(list(p)), "order": [local(k.tag) for k in p if isinstance(k.tag, str)],
            "segbase": [int_or(k.get("presentationTimeOffset"), 0) for k in sb],
            "as": [as_record(a) for a in p if local(a.tag) == "AdaptationSet"],
            "dig": dig(canon(p)), "kdig": dig("".join(canon(k) for k in p if isinstance(k.tag, str)))}


def url_parts(u):
    return u.split("/")


def mpd_record(body):
    r = {"ok": True, "why": ""}
    try:
        root = ET.fromstring(body)
        if root.tag != NS + "MPD":
            raise ValueError("root")
        g = root.get
        r.update(type=g("type", ""), ast=ts_int(g("availabilityStartTime")), aet=ts_int(g("availabilityEndTime")),
                 pub=ts_int(g("publishTime")), mup=dur_int(g("minimumUpdatePeriod")), tsbd=dur_int(g("timeShiftBufferDepth")),
                 spd=dur_int(g("suggestedPresentationDelay")), mpdur=dur_int(g("mediaPresentationDuration")),
                 maxdur=dur_int(g("maxSegmentDuration")), profiles=(g("profiles") or "").split(","))
        r["baseurls"] = [{"parts": url_parts(k.text or ""), "ato": ato_ms(k.get("availabilityTimeOffset")),
                          "atoattr": 1 if k.get("availabilityTimeOffset") is not None else 0,
                          "atc": k.get("availabilityTimeComplete", "")} for k in root if k.tag == NS + "BaseURL"]
        r["locations"] = [url_parts(k.text or "") for k in root if k.tag == NS + "Location"]
        r["order"] = [local(k.tag) for k in root if isinstance(k.tag, str)]
        r["utc"] = [[k.get("schemeIdUri", ""), k.get("value", ""), ts_int(k.get("value"))] for k in root if k.tag == NS + "UTCTiming"]
        r["sd"] = [[x.get("min", ""), x.get("max", ""), x.get("target", "")] for k in root if k.tag == NS + "ServiceDescription"
                   for x in k if local(x.tag) == "Latency"]
        r["periods"] = [period_record(k) for k in root if k.tag == NS + "Period"]
        r["root"] = root_facts(root)
        r["cdig"] = dig(canon(root))
        r["ndig"] = dig(canon(strip_urls(ET.fromstring(body))))
    except Exception as e:
        r = {"ok": False, "why": "%s %s" % (type(e).__name__, e)}
    return r


def headers_sig(reply):
    return sorted([a.lower(), b] for (a, b) in reply.headers)


def reply_dig(reply):
    return dig(("%d|%r|" % (reply.status, headers_sig(reply))).encode() + reply.body)


TT = re.compile(r'(begin|end)="(\d{2,}):(\d\d):(\d\d)(\.\d+)?"')
CLK = re.compile(r'(\w+) : (\d\d):(\d\d):(\d\d)(\.\d+)?')
CLKUTC = re.compile(r'(\w+) : UTC = (\d{4,}-\d\d-\d\dT\d\d:\d\d:\d\dZ)')
SEGNR = re.compile(r'Segment # (\d+)')


def ttml_record(text, live):
    "cue times, clock texts and segment texts of a subtitle sample, and a digest of all the rest"
    r = {"ok": True, "times": [], "texts": [], "segs": [], "rest": "", "size": len(text)}
    try:
        s = text.decode("utf-8")
        ET.fromstring(text)
        for a, h, m, x, f in TT.findall(s):
            r["times"].append([clip(int(h) * 3600 + int(m) * 60 + int(x)), f])
        if live:
            for l, t in CLKUTC.findall(s):
                r["texts"].append([l, ts_int(t)])
            s = CLKUTC.sub(r"\1 : @", s)
        else:
            for l, h, m, x, f in CLK.findall(s):
                r["texts"].append([l, int(h) * 3600 + int(m) * 60 + int(x)])
            s = CLK.sub(r"\1 : @", s)
        r["segs"] = [clip(int(x)) for x in SEGNR.findall(s)]
        s = SEGNR.sub("Segment # @", TT.sub(r'\1="@"', s))
        r["rest"] = dig(s)
    except Exception:
        r["ok"] = False
    return r


def dur_spans(data):
    "byte spans of the duration fields of movie, track and media headers"
    out = []
    def walk(bs):
        for b in bs:
            if b.typ in (b"mvhd", b"mdhd"):
                out.append((b.off + 32, b.off + 40) if b.ver else (b.off + 24, b.off + 28))
            elif b.typ == b"tkhd":
                out.append((b.off + 36, b.off + 44) if b.ver else (b.off + 28, b.off + 32))
            walk(b.kids)
    walk([b for b in M.parse(data) if b.typ == b"moov"])
    return out


def init_record(content, reps, reply):
    r = {"ok": True, "len": len(reply.body), "storedlen": -1, "nonzero": -1, "changed": -1, "trex": [], "parts": False}
    try:
        if len(reps) == 1:
            st = content.inits[reps[0]]
            r["storedlen"] = len(st)
            sp = dur_spans(st)
            inside = set(i for a, b in sp for i in range(a, b))
            r["nonzero"] = sum(1 for i in inside if i < len(reply.body) and reply.body[i] != 0)
            r["changed"] = sum(1 for i in range(min(len(st), len(reply.body))) if i not in inside and st[i] != reply.body[i])
        else:
            bs = M.parse(reply.body)
            moov = [b for b in bs if b.typ == b"moov"]
            one = lambda d, t: [b for b in M.parse(d) if b.typ == t]
            s1, s2 = [content.inits[x] for x in reps]
            m1, m2 = one(s1, b"moov")[0], one(s2, b"moov")[0]
            ok = len(moov) == 1 and [b.typ for b in bs] == [b"ftyp", b"moov"]
            ok = ok and bs[0].data == one(s1, b"ftyp")[0].data
            mv = moov[0]
            ok = ok and [b.data for b in mv.find(b"mvhd")] == [m1.one(b"mvhd").data]
            ok = ok and [b.data for b in mv.find(b"trak")] == [m1.one(b"trak").data, m2.one(b"trak").data]
            ex = mv.find(b"mvex")
            ok = ok and len(ex) == 1
            r["trex"] = [M.r32(t.data, 12) for t in ex[0].find(b"trex")]
            ok = ok and [b.data for b in ex[0].find(b"trex")] == [m1.one(b"mvex").one(b"trex").data,
                                                                   m2.one(b"mvex").one(b"trex").data]
            r["parts"] = bool(ok)
    except Exception as e:
        r["ok"] = False
    return r


def stored_mpd(text):
    "facts of the stored manifest that every live manifest keeps"
    root = ET.fromstring(text)
    p = root.find(NS + "Period")
    prof = (root.get("profiles") or "").split(",")
    return {"profiles": prof, "profilesMain": [x.replace("dash-if-simple", "dash-if-main") for x in prof],
            "facts": period_facts(p), "root": root_facts(root),
            "cts": [a.get("contentType", "") for a in p if local(a.tag) == "AdaptationSet"]}


def content_record(c):
    "Everything the specification knows about stored content."
    r = c.table()
    r["mpd"] = stored_mpd(c.mpd_text)
    r["ana"] = c.spec.get("analyzed") or ""
    r["reps"] = {}
    for rid, rep in c.reps.items():
        segs = []
        st, du = c.starts(rep["ct"])
        for i in range(c.n):
            nr = c.first + i
            raw = c.stored[(rid, nr)]
            s = {"smp": [], "pay": "", "aux": [], "oth": "", "tver": 0, "brands": [], "nsmp": 0, "dur": du[i], "spare": 0,
                 "ttml": {"ok": False}}
            if rep["ct"] == "image":
                s["pay"] = dig(raw)
            else:
                fr = c.frag(rid, nr)
                tr = fr["frags"][0]["tracks"][0]
                s.update(smp=samples(tr), pay=dig(b"".join(x[0] for x in tr["samples"])), tver=tr["tver"],
                         aux=[dig(a) for a in tr["aux"]] if tr["aux"] is not None else [], oth=dig(repr(tr["others"])),
                         nsmp=len(tr["samples"]), spare=fr["frags"][0]["mdat_size"] - fr["frags"][0]["covered"])
                for b in fr["boxes"]:
                    if b.typ == b"styp":
                        s["brands"] = M.brands(b)
                if rep["ct"] == "subtitles":
                    s["ttml"] = ttml_record(tr["samples"][0][0], False)
            segs.append(s)
        r["reps"][rid] = {"ct": rep["ct"], "ts": rep["ts"], "tid": rep["trackid"], "segs": segs}
    return r
