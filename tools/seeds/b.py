D = "dashlib/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed("c15-both-splices", "C15", "a segment that two splices announce: three splices a minute and segments of 10 seconds",
     "a segment within reach of two splices announces the later one",
     [(D + "mediasegmentfilter.py", "                    found_splice_time = splice_time\n                    break\n            if found_splice_time >= 0:\n                break\n",
       "                    found_splice_time = splice_time\n                    break\n            if found_splice_time >= 0 and seg_endtime < splice_time:\n                break\n")], """
simple(D=10, n=6, tsbd=60)
for n in range(160000002, 160000008):
    r = get("/livesim/scte35_3/tp/V1/%d.m4s" % n, n * 10 + 10)
    check(r.status == 200, n)
    at = n * 10 % 60
    want = None
    for s in (10, 36, 46, 70):
        if want is None and any(at <= s - w <= at + 10 for w in (6, 8)):
            want = s
    got = [M.parse_emsg(b) for b in M.parse(r.body) if b.typ == b"emsg"]
    check(len(got) == (want is not None), n, at, len(got))
    for e in got:
        check(e["delta"] == (want - at) * 90000, n, at, want, e["delta"])
""")

seed("c03-second-saio", "C03", "a stored segment with several auxiliary information offsets whose decode time has to grow to 64 bits",
     "only the first offset of a 64-bit saio box is moved",
     [(D + "mediasegmentfilter.py", "                output += uint64_to_str(offset + delta_offset)\n                if i == 0:",
       "                output += uint64_to_str(offset + delta_offset if i == 0 else offset)\n                if i == 0:")], """
from dashlivesim.dashlib.mediasegmentfilter import MediaSegmentFilter
import struct
saio = M.full(b"saio", 1, 0, M.u32(3), M.u64(100), M.u64(2000), M.u64(30000))
tfhd = M.full(b"tfhd", 0, 0x020000, M.u32(1))
tfdt = M.full(b"tfdt", 0, 0, M.u32(90000))
trun = M.full(b"trun", 0, 0x301, M.u32(1), M.s32(200), M.u32(90000), M.u32(8))
seg = M.box(b"styp", b"msdh", M.u32(0), b"msdh") + M.box(b"moof", M.full(b"mfhd", 0, 0, M.u32(1)), M.box(b"traf", tfhd, tfdt, saio, trun)) + M.box(b"mdat", b"12345678")
p = os.path.join(DIR, "1.m4s")
open(p, "wb").write(seg)
for off, want in ((60, 0), (60000, 4)):
    out = MediaSegmentFilter(p, 7, 2, off, False, 90000, 0, "V1").filter()
    i = out.index(b"saio") + 12
    got = struct.unpack_from(">QQQ", out, i)
    check(got == (100 + want, 2000 + want, 30000 + want), off, got)
""")

seed("c16-stale-clock", "C16", "a segment of three or more chunks requested while it is being produced",
     "the waiting time of each fragment is counted from the time of the request instead of from the present",
     [("mod_wsgi/mod_dashlivesim.py", "                now_float = time()  # Update time\n                chunk_availability_time", "                chunk_availability_time")], """
simple(D=4, n=4)
n = 400000000
r = get("/livesim/chunkdur_1/ato_3/tp/V1/%d.m4s" % n, n * 4 + 1.0)
check(r.status == 200, r.status, r.body[:100])
want = [round(max(n * 4 + i - 0.1, n * 4 + 1.0) - n * 4, 3) for i in range(1, len(r.chunks) + 1)]
got = [round(x - n * 4, 3) for _, x in r.chunks]
check(len(got) > 2 and got == want, got, want)
""")

seed("c25-boundary-segment", "C25", "a caption whose time is exactly the end of a segment",
     "a segment that ends exactly at a caption time is written as well, without any caption",
     [("cc_inserter/cc_inserter.py", "            if i['start_time'] >= start_time and i['start_time'] < end_time:", "            if i['start_time'] >= start_time and i['start_time'] <= end_time:")], """
make(dict(name="cc", first=1, n=4, D=2, tsbd=10, media={"video": dict(ts=90000, reps=["V1"], units=(2, 1))}))
scc = os.path.join(DIR, "a.scc")
open(scc, "w").write("Scenarist_SCC V1.0\\n\\n00:00:02:00\\t9420 9420\\n\\n00:00:05:00\\t942c\\n\\n")
rc, said, d = tool("cc_inserter.cc_inserter", os.path.join(ROOT, "cc", "Manifest.mpd"), scc, DIR)
check(rc == 0, said)
got = sorted(x for x in os.listdir(DIR) if x.endswith(".m4s"))
check(got == ["2.m4s", "3.m4s"], got)
""")

seed("c25-before-sei", "C25", "samples with supplemental information in front of the picture",
     "captions are inserted in front of the supplemental information units instead of in front of the picture",
     [("cc_inserter/cc_inserter.py", "                if nalu_type < 6:  # video", "                if nalu_type <= 6:  # video")], """
c = make(dict(name="cc", first=1, n=4, D=2, tsbd=10, media={"video": dict(ts=90000, reps=["V1"], units=(4, 1), nsamp=8)}))
scc = os.path.join(DIR, "a.scc")
open(scc, "w").write("Scenarist_SCC V1.0\\n\\n" + "".join("00:00:%02d:%02d\\t9420 9420\\n\\n" % (s, f) for s in range(8) for f in (1, 8, 16, 23)))
rc, said, d = tool("cc_inserter.cc_inserter", os.path.join(ROOT, "cc", "Manifest.mpd"), scc, DIR)
check(rc == 0, said)
for n in range(1, 5):
    for s in fragment(open(os.path.join(DIR, "%d.m4s" % n), "rb").read(), c.inits["V1"])["frags"][0]["tracks"][0]["samples"]:
        p, types, cc = 0, [], []
        while p < len(s[0]):
            ln = M.r32(s[0], p)
            types.append(s[0][p + 4] & 31)
            cc.append(b"GA94" in s[0][p + 4:p + 16])
            p += 4 + ln
        for i, x in enumerate(cc):
            if x:
                nxt = [t for t, y in zip(types[i:], cc[i:]) if not y]
                check(nxt and nxt[0] < 6, n, types, cc)
""")

seed("c30-last-cue", "C30", "a segment duration that is not a multiple of the resolution",
     "segments whose duration is not a multiple of the resolution lack their last, shorter cue",
     [(D + "stpp_generator/make_stpp_segments.py", "            for rel_time in range(0, self.segment_duration, self.resolution):",
       "            for rel_time in range(0, self.segment_duration - self.segment_duration % self.resolution, self.resolution):")], """
import re
for dur, res, n in ((2000, 1000, 2), (2500, 1000, 2), (4000, 1500, 3)):
    rc, said, d = tool("dashlib.stpp_generator.make_stpp_segments", "-d", dur, "-n", n, "-r", res, "-o", "out")
    check(rc == 0, said)
    for k in range(1, n + 1):
        data = open(os.path.join(d, "out", "%d.m4s" % k), "rb").read().decode("latin1")
        ends = [float(x) + 60 * int(m) for m, x in re.findall(r'end="00:(\\d\\d):(\\d\\d\\.\\d+)"', data)]
        check(ends and abs(max(ends) - k * dur / 1000) < 1e-6, dur, res, k, ends)
""")

seed("c26-ato-fraction", "C26", "a thumbnail requested in the fraction of a second gained by an availability time offset",
     "thumbnails respect an availability time offset with a fraction only up to whole seconds of the clock",
     [(D + "dash_proxy.py", "    seg_time = (seg_nr - seg_start_nr) * seg_dur + cfg.availability_start_time_in_s\n    seg_ast = seg_time + seg_dur\n\n    if cfg.availability_time_offset_in_s != -1:  # -1 is infinity\n        if now_float < seg_ast - cfg.availability_time_offset_in_s:",
       "    seg_time = (seg_nr - seg_start_nr) * seg_dur + cfg.availability_start_time_in_s\n    seg_ast = seg_time + seg_dur\n\n    if cfg.availability_time_offset_in_s != -1:  # -1 is infinity\n        if dashProv.now < seg_ast - cfg.availability_time_offset_in_s:")], """
c = make(dict(name="th", first=1, n=4, D=2, tsbd=10, media={"video": dict(ts=90000, reps=["V1"]), "image": dict(ts=1, reps=["thumbs"])}))
n = 800000000
for ato, t, ok in (("0.5", 1.25, 0), ("0.5", 1.5, 1), ("0.5", 1.75, 1), ("1.0", 1.0, 1), ("0.25", 1.5, 0), ("0.25", 1.75, 1)):
    st = get("/livesim/ato_%s/th/thumbs/%d.jpg" % (ato, n), n * 2 + t).status
    check((st == 200) == ok, ato, t, st)
""")

seed("c09-switch-edge", "C09", "a session with several durations, less than two update periods but more than one before its first end",
     "the next longer end is announced only one update period before the current end of a session",
     [(D + "configprocessor.py", "                if now_int > aet - 2*self.minimum_update_period_in_s:", "                if now_int > aet - self.minimum_update_period_in_s:")], """
from calendar import timegm
import time
simple(D=2, n=4)
s = 1600000000
for mup in (10, 30):
    for before in (2 * mup + 1, 2 * mup, 2 * mup - 1, mup + 2, mup, mup - 1, 1):
        m = mpd("/livesim/start_%d/dur_300/dur_600/mup_%d/tp/Manifest.mpd" % (s, mup), s + 300 - before)
        want = s + (300 if before >= 2 * mup else 900)
        got = timegm(time.strptime(m.get("availabilityEndTime"), "%Y-%m-%dT%H:%M:%SZ"))
        check(got == want, mup, before, got - s)
""")

seed("c17-second-track", "C17", "two representations with different default sample durations joined in one path",
     "the defaults of the first track are listed twice, those of the second are lost",
     [(D + "segmentmuxer.py", "        data.append(self.istruct1.trex)\n        data.append(self.istruct2.trex)\n        data.append(self.istruct1.trak)", "        data.append(self.istruct1.trex)\n        data.append(self.istruct1.trex + b\"\" * len(self.istruct2.trex))\n        data.append(self.istruct1.trak)")], """
simple(D=2, n=4)
b = get("/livesim/tp/V1__A1/init.mp4", 1600000000).body
moov = [x for x in M.parse(b) if x.typ == b"moov"][0]
mvex = moov.one(b"mvex")
ids = [M.r32(x.data, 12) for x in mvex.find(b"trex")]
tks = [M.r32(h, 20 if h[8] == 0 else 28) for h in (x.one(b"tkhd").data for x in moov.find(b"trak"))]
check(ids == tks, ids, tks)
""")

seed("c21-stored-hours", "C21", "stored subtitles later than the first hour of the content",
     "the clock text of subtitles stored behind the first hour lacks the whole hours",
     [(D + "ttml_timing_offset.py", "        total_seconds = seconds + 60 * minutes + 3600 * hours + offset_in_s\n        time_str", "        total_seconds = seconds + 60 * minutes + 3600 * (hours % 1) + offset_in_s\n        time_str")], """
from dashlivesim.dashlib.ttml_timing_offset import adjust_ttml_content
import time
for h in (0, 1, 5, 23):
    for off in (0, 7200, 1600000000 // 8 * 8):
        out = adjust_ttml_content(b'<p begin="%02d:59:58.500" end="%02d:59:59.000">eng : %02d:59:58.500</p>' % (h, h, h), off, 5)
        want = time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(off + h * 3600 + 3598)).encode()
        check(b"UTC = " + want in out, h, off, out)
""")

seed("c05-exact-end", "C05", "a request at the very moment a segment is complete",
     "a segment that is complete at the very moment of the request is not listed",
     [(D + "segtimeline.py", "        while end_tics > end:", "        while end_tics >= end:")], """
simple(D=2, n=4, tsbd=20)
for t in range(1200000, 1200010):
    p = periods(mpd("/livesim/segtimeline_1/tp/Manifest.mpd", t))[0]
    for ct, ts in (("video", 90000), ("audio", 48000)):
        tl = timeline(aset(p, ct))
        check(tl[-1][0] + tl[-1][1] == t // 2 * 2 * ts, t, ct, tl[-1])
""")

seed("c12-track-duration", "C12", "an initialization segment with a version 1 track header",
     "the field in front of the duration of a version 1 track header is cleared instead of the duration",
     [(D + "initsegmentfilter.py", "            output += data[:36]\n            output += b'\\x00' * 8  # duration\n            output += data[44:]", "            output += data[:32]\n            output += b'\\x00' * 8  # duration\n            output += data[40:]")], """
for ver in (0, 1):
    c = make(dict(name="v%d" % ver, first=1, n=4, D=2, tsbd=10, media={"video": dict(ts=90000, reps=["V1"], initver=ver)}))
    b = get("/livesim/v%d/V1/init.mp4" % ver, 1600000000).body
    moov = [x for x in M.parse(b) if x.typ == b"moov"][0]
    h = moov.one(b"trak").one(b"tkhd").data
    o, n = (36, 8) if ver else (28, 4)
    old = [x for x in M.parse(c.inits["V1"]) if x.typ == b"moov"][0].one(b"trak").one(b"tkhd").data
    check(any(old[o:o + n]), ver)
    check(h == old[:o] + bytes(n) + old[o + n:], ver, h.hex())
""")

seed("c28-cont-end", "C28", "continuous updates of content whose segments are longer than two seconds, at times that are no segment boundary",
     "the announced end of a continuously updated session is three hours behind the clock instead of behind its start",
     [(D + "configprocessor.py", "        self.availability_start_time_in_s = quantize(now_int - seg_dur, seg_dur)\n        self.availability_end_time = self.availability_start_time_in_s + 10800",
       "        self.availability_start_time_in_s = quantize(now_int - seg_dur, seg_dur)\n        self.availability_end_time = quantize(now_int, seg_dur) + 10800")], """
from calendar import timegm
import time
sec = lambda x: timegm(time.strptime(x, "%Y-%m-%dT%H:%M:%SZ"))
simple(D=6, n=4)
for t in range(1600000000, 1600000013):
    m = mpd("/livesim/cont_1/tp/Manifest.mpd", t)
    check(sec(m.get("availabilityEndTime")) - sec(m.get("availabilityStartTime")) == 10800, t)
    check(6 <= t - sec(m.get("availabilityStartTime")) < 12, t)
""")

seed("c08-first-ad", "C08", "ad insertion with several selected periods in the window, the first listed period not being a selected one",
     "in ad-insertion modes the selected period stays in place whenever it is not preceded by another period",
     [(D + "mpd_proxy.py", "                if insert_ad > 0 and counter == 1:", "                if insert_ad > 0 and counter == 1 and period_id == period_id_all[0]:")], """
XL = "{http://www.w3.org/1999/xlink}href"
simple(D=2, n=4, tsbd=300)
for k in range(12):
    t = 1600000020 + 30 * k
    own = periods(mpd("/livesim/periods_60/tp/Manifest.mpd", t))
    sel = [p.get("id") for p in own if int(p.get("id")[1:]) % 2 == 0]
    ads = periods(mpd("/livesim/periods_60/xlink_30/insertad_1/tp/Manifest.mpd", t))
    check(len(ads) == len(own), t)
    got = [o.get("id") for o, p in zip(own, ads) if p.get(XL)]
    check(got == sel[1:], t, sel, got)
""")

seed("c10-zero-start", "C10", "a session that starts at the very time of the request, or later",
     "a relative start that is not in the past stays relative in the location of the manifest",
     [(D + "mpdprocessor.py", '            loc_url = re.sub(r"/startrel_[-\\d]+", "/start_%d" %', '            loc_url = re.sub(r"/startrel_-\\d+", "/start_%d" %')], """
simple(D=2, n=4)
for a, b in ((-60, 60), (-600, -20), (0, 20), (30, 90)):
    m = mpd("/livesim/startrel_%d/stoprel_%d/tp/Manifest.mpd" % (a, b), 1600000000)
    loc = m.find(NS + "Location").text
    check("stoprel" not in loc and "startrel" not in loc, a, b, loc)
    x = mpd(loc[loc.index("/livesim"):], 1600000000)
    y = mpd(loc[loc.index("/livesim"):], 1600001000)
    for k in ("availabilityStartTime", "mediaPresentationDuration"):
        check(m.get(k) == x.get(k) == y.get(k), a, b, k, m.get(k), x.get(k), y.get(k))
""")

seed("c24-later-drift", "C24", "content whose segments drift away from the nominal duration and come back",
     "content is only rejected for its drift if the last segment is off",
     [("vodanalyzer/dashanalyzer.py", "                        else:\n                            raise DashAnalyzerError(\"Too much drift", "                        elif segNr == self.lastSegmentInLoop:\n                            raise DashAnalyzerError(\"Too much drift")], """
for i, (durs, ok) in enumerate((([180000] * 4, True), ([185000, 175000, 180000, 180000], True), ([200000, 160000, 180000, 180000], False), ([180000, 180000, 180000, 200000], False))):
    make(dict(name="d%d" % i, first=1, n=4, D=2, tsbd=10, nocfg=True, media={"video": dict(ts=90000, reps=["V1"], durs=durs, badloop=True)}))
    rc, said, d = tool("vodanalyzer.dashanalyzer", os.path.join(ROOT, "d%d" % i, "Manifest.mpd"))
    check((rc == 0) == ok, i, rc, said[-300:])
    check(os.path.exists(os.path.join(d, "d%d.cfg" % i)) == ok, i)
""")

seed("c22-small-offset", "C22", "an availability time offset below one second",
     "an availability time offset below one second is not stated in the manifest",
     [(D + "mpdprocessor.py", "        elif float(new_ato) > 0:  # don't add", "        elif int(float(new_ato)) > 0:  # don't add")], """
simple(D=2, n=4)
for a in ("0.25", "0.5", "1", "1.5"):
    b = mpd("/livesim/ato_%s/tp/Manifest.mpd" % a, 1600000000).find(NS + "BaseURL")
    check(float(b.get("availabilityTimeOffset", "0")) == float(a), a, b.attrib)
""")

seed("c18-clamp", "C18", "a byte range whose last position is exactly the length of the reply or beyond it",
     "the content range of a range that reaches beyond the end states a last position behind the last byte",
     [("mod_wsgi/mod_dashlivesim.py", "            range_end = min(int(range_end), length-1)", "            range_end = min(int(range_end), length)")], """
simple(D=2, n=4)
full = get("/livesim/tp/V1/init.mp4", 1600000000).body
n = len(full)
for a, b in ((0, n - 1), (5, n - 1), (5, n), (n - 1, n), (7, n + 100)):
    r = get("/livesim/tp/V1/init.mp4", 1600000000, headers={"Range": "bytes=%d-%d" % (a, b)})
    e = min(b, n - 1)
    cr = [r.header("Content-Range")]
    check(r.status == 206 and r.body == full[a:e + 1] and cr == ["bytes %d-%d/%d" % (a, e, n)], a, b, r.status, cr)
""")
