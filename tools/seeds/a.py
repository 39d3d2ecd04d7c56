D = "dashlib/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed("c01-late-fraction", "C01", "a request in the fraction of a second behind the end of a segment's availability",
     "a segment stays available for up to a second after the end of its availability window (integer instead of fractional clock)",
     [(D + "dash_proxy.py", "        if ((now_float > seg_ast + seg_dur +\n                cfg.timeshift_buffer_depth_in_s) and not stop_number):",
       "        if ((dashProv.now > seg_ast + seg_dur +\n                cfg.timeshift_buffer_depth_in_s) and not stop_number):")], """
simple(D=2, tsbd=10)
for k in range(5):
    n = 800000000 + k
    end = (n + 2) * 2 + 10
    check(get("/livesim/tp/V1/%d.m4s" % n, end).status == 200, "at the end", n)
    check(get("/livesim/tp/V1/%d.m4s" % n, end + 0.5).status == 404, "half a second later", n)
""")

seed("c02-tfdt-limit", "C02", "a timescale that is a power of two, and the segment whose decode time is exactly 2^32",
     "a decode time of exactly 2^32 cannot be written: the segment at that position of the timeline cannot be fetched",
     [(D + "mediasegmentfilter.py", "            if new_base_media_decode_time < 4294967296:", "            if new_base_media_decode_time <= 4294967296:")], """
simple(D=2, n=4, ts=90000, first=1, tsbd=10, video=dict(ts=16384, reps=["V1"]))
n = 2 ** 32 // (2 * 16384)
for k in (n - 1, n, n + 1):
    r = get("/livesim/tp/V1/%d.m4s" % k, (k + 1) * 2)
    check(r.status == 200, k, r.status)
    if r.status == 200:
        check(fragment(r.body)["frags"][0]["tracks"][0]["tfdt"] == k * 2 * 16384, k)
""")

seed("c07-continuity", "C07", "continuous multi-period sessions with more than one adaptation set",
     "the second and later adaptation sets claim to continue their own period instead of the previous one",
     [(D + "mpdprocessor.py", "                        seg_template.insert(0, seg_timeline)\n            last_period_id = pdata.get('id')",
       "                        seg_template.insert(0, seg_timeline)\n                last_period_id = pdata.get('id')")], """
simple(D=2, n=4, tsbd=60)
for t in (1600000000, 1600000100, 1600003000):
    ps = periods(mpd("/livesim/periods_60/continuous_1/tp/Manifest.mpd", t))
    for a, b in zip(ps, ps[1:]):
        for s in b.findall(NS + "AdaptationSet"):
            v = [x.get("value") for x in s.findall(NS + "SupplementalProperty") if "continuity" in x.get("schemeIdUri")]
            check(v == [a.get("id")], t, b.get("id"), s.get("contentType"), v)
""")

seed("c11-phase-edge", "C11", "a request in the very second a phase begins",
     "the presentation duration announced at the exact start of the third phase is still the one of the second",
     [(D + "moduloperiod.py", "        elif self.percent < 30:", "        elif self.percent <= 30:")], """
simple(D=2, n=4)
from re import fullmatch
def secs(x):
    m = fullmatch(r"P(?:(\\d+)D)?T?(?:(\\d+)H)?(?:(\\d+)M)?(?:(\\d+)S)?", x)
    d, h, mi, s = [int(y or 0) for y in m.groups()]
    return d * 86400 + h * 3600 + mi * 60 + s
for k in (10, 20):
    base = 1600000200 // (60 * k) * 60 * k
    for pc, f in ((0, .2), (10, .4), (29, .4), (30, .6), (50, .8), (89, .8)):
        t = base + 60 * k * pc // 100
        m = mpd("/livesim/modulo_%d/tp/Manifest.mpd" % k, t)
        check(secs(m.get("mediaPresentationDuration")) == f * 60 * k, k, pc, m.get("mediaPresentationDuration"))
""")

seed("c13-last-cycle", "C13", "an up/down schedule whose period does not divide a minute, in its last, incomplete cycle of the minute",
     "the down time in the last incomplete cycle of a minute is not respected for media segments",
     [(D + "dash_proxy.py", "            num_loop = int(ceil(60.0 / (float(total_dur))))", "            num_loop = int(60.0 / float(total_dur))")], """
simple(D=2, n=4)
for s in range(60):
    t = 1600000020 + s           # on a minute
    down = any(i * 25 + 5 < s <= (i + 1) * 25 for i in range(3))
    r = get("/livesim/baseurl_u5_d20/tp/V1/%d.m4s" % (t // 2 - 1), t)
    check((r.status == 404) == down, s, r.status, down)
""")

seed("c14-freeze-cycle", "C14", "a loss schedule with several cycles per minute, in the second or a later one",
     "during an outage in a later cycle of the minute the manifest falls back to the end of the up time of the first cycle",
     [(D + "mpd_proxy.py", "                    latestUptime = dashProv.now - now_mod_60 + (i * total_dur + dur1)", "                    latestUptime = dashProv.now - now_mod_60 + dur1")], """
simple(D=2, n=4, tsbd=20)
for s in range(60):
    t = 1600000020 + s
    i, r = divmod(s, 20)
    up = t if 0 < r <= 10 or s == 0 else t - r + 10 if r else t - 10
    a = aset(periods(mpd("/livesim/segtimeline_1/segtimelineloss_1/baseurl_u10_d10/tp/Manifest.mpd", t))[0], "video")
    check(sum(timeline(a)[-1]) == up // 2 * 2 * 90000, s, sum(timeline(a)[-1]) / 90000. - t)
""")

seed("c16-partition-drift", "C16", "samples that do not divide the chunk duration, and at least three chunks",
     "the end of a chunk is counted from where the previous one happened to end: the chunks drift and no longer cover their intervals",
     [(D + "chunker.py", "        if d0 >= d1:\n            d1 += duration", "        if d0 >= d1:\n            d1 = d0 + duration")], """
make(dict(name="tp", first=1, n=3, D=6, tsbd=10, media={"video": dict(ts=1000, reps=["V1"], nsamp=10, vary=False)}))
t = 1600000002
n = t // 6 - 2
r = get("/livesim/chunkdur_1/ato_5/tp/V1/%d.m4s" % n, t)
check(r.status == 200, r.status)
at = 0
for k, (c, _) in enumerate(r.chunks):
    d = sum(s[1] for s in fragment(c)["frags"][0]["tracks"][0]["samples"])
    check(at < (k + 1) * 1000 <= at + d < (k + 1) * 1000 + 600, k, at, d)
    at += d
check(at == 6000, at)
""")

seed("c19-shared-methods", "C19", "a low-latency manifest request without a clock option, followed by any other manifest request in the same process",
     "the clock method added for low-latency streams stays in a list shared by all requests and appears in later manifests of ordinary streams",
     [(D + "configprocessor.py", "        self.utc_timing_methods = []\n", "        self.utc_timing_methods = DEFAULT_UTC_TIMING_METHODS\n"),
      (D + "configprocessor.py", "DEFAULT_SHORT_MINIMUM_UPDATE_PERIOD_IN_S = 10\n", "DEFAULT_SHORT_MINIMUM_UPDATE_PERIOD_IN_S = 10\nDEFAULT_UTC_TIMING_METHODS = []\n")], """
simple(D=2, n=4)
def clocks(u):
    return [x.get("schemeIdUri") for x in mpd(u, 1600000000).findall(NS + "UTCTiming")]
before = clocks("/livesim/tp/Manifest.mpd")
clocks("/livesim/chunkdur_0.5/ato_1.5/tp/Manifest.mpd")
check(clocks("/livesim/tp/Manifest.mpd") == before, before, clocks("/livesim/tp/Manifest.mpd"))
""")

seed("c20-last-second", "C20", "a request in the very second at which a session has reached its full length",
     "a session is ended one second before its length is over",
     [("mod_wsgi/mod_dashlivesim.py", "        elif now > start_time + MAX_SESSION_LENGTH:", "        elif now >= start_time + MAX_SESSION_LENGTH:")], """
simple(D=2, n=4)
m = driver.module()
m.MAX_SESSION_LENGTH = 60
s = 1600000000
for t, st in ((s + 59, 200), (s + 60, 200), (s + 61, 410)):
    r = get("/livesim/sts_%d/sid_00000000/tp/Manifest.mpd" % s, t)
    check(r.status == st, t - s, r.status)
""")

seed("c27-empty-success", "C27", "a stored file that is empty", "a request for a stored file of no bytes is answered with success and an empty body",
     [("mod_wsgi/mod_dashlivesim.py", "                payload_in = response\n                if not payload_in:\n                    success = False\n", "                payload_in = response\n")], """
c = make(dict(name="tp", first=1, n=4, D=2, tsbd=10, media={"video": dict(ts=1000, reps=["V1"]), "image": dict(ts=1, reps=["T1"])}))
n = 800000000
for k in range(1, 5):
    open(os.path.join(ROOT, "tp", "T1", "%d.jpg" % k), "wb").close()
r = get("/livesim/tp/T1/%d.jpg" % n, (n + 1) * 2)
check(r.status == 404 and r.body and r.header("Content-Type") == "text/plain", r.status, r.body)
""")

seed("c28-cont-edge", "C28", "a request in the second a continuous session moves on",
     "a continuously updated session starts at the segment that has just begun: none of its segments is available",
     [(D + "configprocessor.py", "        self.availability_start_time_in_s = quantize(now_int - seg_dur, seg_dur)", "        self.availability_start_time_in_s = quantize(now_int, seg_dur)")], """
simple(D=2, n=4)
for t in (1600000000, 1600000001):
    r = get("/livesim/cont_1/tp/V1/0.m4s", t)
    check(r.status == 200, t, r.status, r.body[:60])
""")

seed("c29-decoded-name", "C29", "a path with an encoded .. as the content name", "content names are decoded after the check of the path, so that encoded dots lead out of the content folder",
     [(D + "configprocessor.py", "        self.content_name = url_parts[url_pos]\n", "        self.content_name = unquote(url_parts[url_pos])  # Names may contain spaces\n"),
      (D + "configprocessor.py", "from os.path import join, splitext\n", "from os.path import join, splitext\nfrom urllib.parse import unquote\n")], """
simple(D=2, n=4)
shutil.copytree(os.path.join(ROOT, "tp"), os.path.join(DIR, "private"))
shutil.copy(os.path.join(CFG, "tp.cfg"), os.path.join(DIR, "private.cfg"))
n = 800000000
for u in ("%2e%2e%2fprivate", "..%2fprivate", ".%2e/private"):
    for f in ("V1/init.mp4", "V1/%d.m4s" % n):
        r = get("/livesim/%s/%s" % (u, f), n * 2 + 2)
        check(r.status == 404, u, f, r.status)
""")
