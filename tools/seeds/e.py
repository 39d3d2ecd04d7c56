D = "dashlib/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed("c10-negative-stop", "C10", "a relative stop that lies in the past",
     "a relative stop in the past is taken for the present, so that the session goes on for as long as it is asked for",
     [(D + "configprocessor.py", "stop_time = now_int + int(value)", "stop_time = now_int + max(int(value), 0)")], """
simple(D=2, n=4)
for a, b in ((-60, 30), (-60, 0), (-60, -20), (-1000, -1), (0, 40)):
    m = mpd("/livesim/startrel_%d/stoprel_%d/tp/Manifest.mpd" % (a, b), 1600000000)
    loc = m.find(NS + "Location").text
    check("rel_" not in loc and "/start_" in loc and "/stop_" in loc, a, b, loc)
    check(abs(int(loc.split("/stop_")[1].split("/")[0]) - (1600000000 + b)) <= 2, a, b, loc)
    later = mpd(loc[loc.index("/livesim"):], 1600000007)
    check(later.get("mediaPresentationDuration") == m.get("mediaPresentationDuration"), a, b, loc)
""")

seed("c01-negative-offset", "C01", "a negative availability time offset",
     "a negative availability time offset delays the segments, or lets the ones of -1 in without limits, instead of being ignored",
     [(D + "configprocessor.py", "cfg.availability_time_offset_in_s = max(float(value), 0)", "cfg.availability_time_offset_in_s = float(value)")], """
simple(D=2, n=4)
n = 800000000
for ato in ("", "ato_0/", "ato_-1/", "ato_-3.5/", "ato_-0.5/"):
    for t, st in ((2 * n + 1.9, 404), (2 * n + 2, 200), (2 * n + 4, 200), (2 * n + 14, 200), (2 * n + 14.2, 404)):
        r = get("/livesim/%stp/V1/%d.m4s" % (ato, n), t)
        check(r.status == st, ato, t - 2 * n, r.status, r.body[:60] if r.status != 200 else "")
""")

seed("c01-short-start", "C01", "the start time given with the option ast",
     "the option ast is taken for the start only if it is not accompanied by a start number",
     [(D + "configprocessor.py", 'elif key == "start" or key == "ast":', 'elif key == "start" or key == "ast" and cfg.start_nr == 0:')], """
simple(D=2, n=4)
T = 1600000000
for opts in ("start_%d/", "ast_%d/", "snr_7/start_%d/", "snr_7/ast_%d/", "ast_%d/snr_7/"):
    n = 7 if "snr" in opts else 0
    o = opts % T
    for t, st in ((T + 1.9, 404), (T + 2, 200), (T + 14, 200)):
        r = get("/livesim/%stp/V1/%d.m4s" % (o, n), t)
        check(r.status == st, o, t - T, r.status, r.body[:60] if r.status != 200 else "")
    check(get("/livesim/%stp/V1/%d.m4s" % (o, n - 1 if n else 10 ** 8), T + 5).status == 404, o)
""")

seed("c02-far-off-grid", "C02", "segments addressed by a media time more than a second off the grid of nominal durations",
     "media times are mapped to segment numbers with a tolerance of a second instead of half a segment",
     [(D + "dash_proxy.py", "        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))\n        seg_nr += cfg.first_number - cfg.adjusted_pto(0, 1) // seg_dur  # Number", "        seg_nr = (int(seg_base[1:]) + timescale) // (seg_dur * timescale)\n        seg_nr += cfg.first_number - cfg.adjusted_pto(0, 1) // seg_dur  # Number")], """
durs = [9600, 6400, 5400, 10600]
make(dict(name="far", first=1, n=4, D=8, tsbd=64, media={"video": dict(ts=1000, reps=["V1"], durs=durs)}))
for k in (50000000, 50000001):
    t = k * 32000
    for i, d in enumerate(durs):
        r = get("/livesim/far/V1/t%d.m4s" % t, k * 32 + 42)
        check(r.status == 200, k, i, r.status, r.body[:60])
        if r.status == 200:
            tr = fragment(r.body)["frags"][0]["tracks"][0]
            check(tr["tfdt"] == t, k, i, tr["tfdt"], t)
        t += d
""")

seed("c12-reserved-too", "C12", "an initialization segment with 32-bit headers and data in the reserved field behind the track duration",
     "the four bytes behind a 32-bit track duration are set to zero as well",
     [(D + "initsegmentfilter.py", "            output += data[:28]\n            output += b'\\x00' * 4  # duration\n            output += data[32:]", "            output += data[:28]\n            output += b'\\x00' * 8  # duration, reserved\n            output += data[36:]")], """
for ver in (0, 1):
    name = "v%d" % ver
    make(dict(name=name, first=1, n=4, D=2, tsbd=10, media={"video": dict(ts=1000, reps=["V1"], initver=ver)}))
    f = os.path.join(ROOT, name, "V1", "init.mp4")
    raw = bytearray(open(f, "rb").read())
    at = raw.index(b"tkhd") + 4 + (36 if ver else 24)   # behind the duration
    raw[at:at + 8] = b"RESERVED"
    open(f, "wb").write(raw)
    out = get("/livesim/%s/V1/init.mp4" % name, 1600000000).body
    check(len(out) == len(raw) and out[at:at + 8] == b"RESERVED", ver, out[at - 8:at + 12])
    check(out[at - (8 if ver else 4):at] == bytes(8 if ver else 4), ver)
""")

seed("c13-first-offset", "C13", "several base URLs and an availability time offset",
     "only the first of several base URLs states the availability time offset",
     [(D + "mpdprocessor.py", '+ "/".join(url_parts) + "/", ato, atc)', '+ "/".join(url_parts) + "/", ato if pos == 0 else 0, atc)')], """
simple(D=2, n=4)
for extra in ("", "ato_1.5/"):
    for k in range(2):
        m = mpd("/livesim/%sbaseurl_u10_d10/baseurl_d20_u40/baseurl_u40_d20/tp/Manifest.mpd" % extra, 1600000000 + k)
        b = m.findall(NS + "BaseURL")
        check(len(b) == 3 and all(float(x.get("availabilityTimeOffset", "0")) == (1.5 if extra else 0) for x in b), extra, [x.attrib for x in b])
""")

seed("c14-late-outage", "C14", "an outage schedule whose last up second lies within the last five seconds of the minute",
     "during an outage at the end of the minute the manifest is frozen at second 55 instead of the last up second",
     [(D + "mpd_proxy.py", "(i * total_dur + dur1)", "min(i * total_dur + dur1, 55)")], """
simple(D=2, n=4)
M0 = 1600000000 // 60 * 60
for a, b in ((10, 10), (27, 2), (57, 3), (14, 1)):
    last = None
    for s in range(60, 120):
        m = mpd("/livesim/segtimelineloss_1/segtimeline_1/baseurl_u%d_d%d/tp/Manifest.mpd" % (a, b), M0 + s)
        down = not 0 < s % 60 % (a + b) <= a
        p = m.get("publishTime")
        if down and last and s > 61:
            check(p == last, a, b, s, p, last)
        last = p
""")

seed("c28-given-update", "C28", "the 32-bit restart mode together with an update period",
     "an update period given in the URL replaces the one of half the window in the 32-bit restart mode",
     [(D + "configprocessor.py", "        self.minimum_update_period_in_s = 10800//2", "        self.minimum_update_period_in_s = min(10800//2, self.minimum_update_period_in_s or 10800)")], """
simple(D=2, n=4)
for opts in ("tfdt_1/", "mup_30/tfdt_1/", "tfdt_1/mup_2/", "mup_10000/tfdt_1/"):
    m = mpd("/livesim/%stp/Manifest.mpd" % opts, 1600000000)
    check(m.get("minimumUpdatePeriod") == mpd("/livesim/tfdt_1/tp/Manifest.mpd", 1600000000).get("minimumUpdatePeriod") != None, opts, m.get("minimumUpdatePeriod"))
""")

seed("c03-unasked-index", "C03", "the segment index option written out with the value 0",
     "a segment index is inserted for every value of the option that is not negative",
     [(D + "configprocessor.py", '''            elif key == "sidx":  # Insert sidx
                if int(value) == 1:''', '''            elif key == "sidx":  # Insert sidx
                if int(value) >= 0:''')], """
simple(D=2, n=4)
n = 800000000
plain = get("/livesim/tp/V1/%d.m4s" % n, 2 * n + 3).body
for v, same in (("sidx_0", True), ("sidx_1", False)):
    r = get("/livesim/%s/tp/V1/%d.m4s" % (v, n), 2 * n + 3)
    check((r.body == plain) == same and (b"sidx" in r.body) != same, v, len(r.body), len(plain))
""")
