D = "dashlib/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed("c05-one-hour", "C05", "a session with start and stop more than an hour apart, and a segment timeline",
     "a session with a stop lists the segments of its last hour only instead of all of them",
     [(D + "configprocessor.py", "            self.timeshift_buffer_depth_in_s = self.stop_time - self.start_time\n",
       "            self.timeshift_buffer_depth_in_s = min(self.stop_time - self.start_time, 3600)\n")], """
simple(D=10, n=4)
T = 1600000000
for length in (600, 3600, 3700, 9000):
    m = mpd("/livesim/start_%d/stop_%d/segtimeline_1/tp/Manifest.mpd" % (T, T + length), T + length - 35)
    tl = timeline(aset(periods(m)[0], "video"))
    check(len(tl) == (length - 35) // 10, length, len(tl))
    for a, b in zip(tl, tl[1:]):
        check(a[0] + a[1] == b[0], length, a, b)
""")

seed("c10-many-digits", "C10", "a relative start of a week or more before now",
     "the Location of a session that starts days ago has digits of the old offset left in it",
     [(D + "mpdprocessor.py", 'loc_url = re.sub(r"/startrel_[-\\d]+", "/start_%d" %', 'loc_url = re.sub(r"/startrel_[-\\d]{1,6}", "/start_%d" %')], """
simple(D=2, n=4)
T = 1600000000
for back in (0, 7, 86400, 99999, 100000, 604800, 2592000):
    m = mpd("/livesim/startrel_-%d/tp/Manifest.mpd" % back, T)
    loc = m.find(NS + "Location").text
    u = loc[loc.index("/livesim"):]
    check(get(u, T).status == 200, back, loc)
    check(mpd(u, T + 2).get("availabilityStartTime") == m.get("availabilityStartTime"), back, loc)
""")

seed("c28-grid-of-seven", "C28", "segments whose duration does not divide three hours, and a session restarted by the modulo of the hour",
     "the session start of content whose segment duration does not divide three hours moves with the segments instead of the three hours",
     [(D + "configprocessor.py", "        self.availability_start_time_in_s = quantize(now_int, 10800)\n",
       "        self.availability_start_time_in_s = quantize(now_int, 10800 - 10800 % self.seg_duration)\n")], """
simple(D=7, n=4)
for t in (1600000000, 1600003000, 1600010000, 1599998400, 1599998399):
    for D_, name in ((7, "tp"), (2, "two")):
        if name == "two":
            simple(name="two", D=2, n=4)
        from datetime import datetime, timezone
        x = mpd("/livesim/tfdt_32/%s/Manifest.mpd" % name, t).get("availabilityStartTime")
        at = datetime.strptime(x, "%Y-%m-%dT%H:%M:%SZ").replace(tzinfo=timezone.utc).timestamp()
        check(at % 10800 == 0 and at <= t < at + 10800, name, t, x)
""")

seed("c13-full-seconds", "C13", "a request at a fraction of the last second before an outage",
     "segments that become available within the last second of an up time are refused",
     [(D + "dash_proxy.py", "                        response = process_media_segment(dashProv, dashProv.now_float, chunk)\n                        cfg.emsg_last_seg = False",
       "                        response = process_media_segment(dashProv, int(dashProv.now_float), chunk)\n                        cfg.emsg_last_seg = False")], """
simple(D=2, n=4)
T = 1600000020 - 1600000020 % 60
for i in range(0, 60 * 8):
    t = T + i / 8.0
    n = int(t + 1.75) // 2 - 1
    a = get("/livesim/ato_1.75/tp/V1/%d.m4s" % n, t)
    b = get("/livesim/ato_1.75/baseurl_u10_d10/tp/V1/%d.m4s" % n, t)
    up = 1 <= (t - T) % 20 < 11
    if up:
        check(b.status == 200, t - T, n, b.status)
""")

seed("c14-profile-first", "C14", "stored profiles in which the simple profile is not the last one",
     "manifests with losses in the segment timeline keep the simple profile when another profile follows it",
     [(D + "mpdprocessor.py", '            if old_profiles.find("dash-if-simple") >= 0:', '            if old_profiles.endswith("dash-if-simple"):')], """
import re
for i, prof in enumerate(("urn:mpeg:dash:profile:isoff-live:2011,http://dashif.org/guidelines/dash-if-simple", "http://dashif.org/guidelines/dash-if-simple,urn:mpeg:dash:profile:isoff-live:2011")):
    simple(name="p%d" % i, D=2, n=4)
    f = os.path.join(ROOT, "p%d" % i, "Manifest.mpd")
    s = open(f).read()
    open(f, "w").write(re.sub('profiles="[^"]*"', 'profiles="%s"' % prof, s, count=1))
    m = mpd("/livesim/segtimeline_1/segtimelineloss_1/p%d/Manifest.mpd" % i, 1600000000)
    check("dash-if-simple" not in m.get("profiles"), m.get("profiles"))
""")

seed("c22-clock-twice", "C22", "a list of timing methods that names one of them twice", "a timing method that is asked for twice is announced once",
     [(D + "configprocessor.py", '                cfg.utc_timing_methods = value.split("-")', '                cfg.utc_timing_methods = list(dict.fromkeys(value.split("-")))')], """
simple(D=2, n=4)
for ms in ("head", "direct-head", "head-direct-head", "httpiso-httpiso"):
    u = [x.get("schemeIdUri") for x in mpd("/livesim/utc_%s/tp/Manifest.mpd" % ms, 1600000000).findall(NS + "UTCTiming")]
    want = {"head": "http-head", "direct": "direct", "httpiso": "http-iso"}
    check([x.split(":")[4] for x in u] == [want[x] for x in ms.split("-")], ms, u)
""")

seed("c21-number-twice", "C21", "a subtitle sample that shows its segment number in several places",
     "only the first segment number in a subtitle sample is replaced",
     [(D + "ttml_timing_offset.py", "    xml_str = re.sub(CONTENT_PATTERN_SEGMENT, replace_segment_nr, xml_str)", "    xml_str = re.sub(CONTENT_PATTERN_SEGMENT, replace_segment_nr, xml_str, count=1)")], """
from dashlivesim.dashlib.ttml_timing_offset import adjust_ttml_content
for k in (1, 2, 4):
    p = b"".join(b'<p begin="00:00:%02d.000" end="00:00:%02d.500">eng : 00:00:%02d.000 Segment # 3</p>' % (i, i, i) for i in range(k))
    out = adjust_ttml_content(p, 1600000000, 77)
    check(out.count(b"Segment # 77") == k, k, out)
""")

seed("c19-known-tracks", "C19", "two contents with representations of the same name and different track defaults, served by one process",
     "the initialization segments read for media segments are remembered by the name of the representation, whatever the content",
     [(D + "dash_proxy.py", "    init_file = join(dashProv.content_dir, cfg.content_name, rel_path, \"init.mp4\")\n    init_filter = InitFilter(init_file)\n    init_filter.filter()\n    return init_filter",
       "    init_file = join(dashProv.content_dir, cfg.content_name, rel_path, \"init.mp4\")\n    init_filter = TREX.get(rel_path)\n    if init_filter is None:\n        init_filter = TREX[rel_path] = InitFilter(init_file)\n        init_filter.filter()\n    return init_filter"),
      (D + "dash_proxy.py", "UTC_HEAD_PATH = ", "TREX = {}\nUTC_HEAD_PATH = ")], """
for name, ts, dur, ns in (("one", 1000, 500, 4), ("two", 90000, 22500, 8)):
    make(dict(name=name, first=1, n=4, D=2, tsbd=10, media={"video": dict(ts=ts, reps=["V1"], layout={"V1": "trexdef"}, nsamp=ns, defdur=dur, vary=False), "audio": dict(ts=48000, reps=["A1"])}))
n = 800000000
def timed(name, ts):
    m = mpd("/livesim/segtimeline_1/%s/Manifest.mpd" % name, 2 * n + 3)
    get("/livesim/%s/V1/init.mp4" % name, 2 * n + 3)
    r = get("/livesim/chunkdur_0.5/ato_1.5/%s/V1/%d.m4s" % (name, n), 2 * n + 10)
    return [(f["tracks"][0]["tfdt"] - 2 * n * ts) / ts for f in fragment(r.body, get("/livesim/%s/V1/init.mp4" % name, 0).body)["frags"]]
for name, ts in (("one", 1000), ("two", 90000), ("one", 1000)):
    check(timed(name, ts) == [0, .5, 1, 1.5], name, timed(name, ts))
""")

seed("c09-update-zero", "C09", "a list of session durations and an update period of 0",
     "with an update period of 0 the manifest announces the next end of the session before the present one",
     [(D + "configprocessor.py", "                if now_int > aet - 2*self.minimum_update_period_in_s:", "                if now_int > aet - 2*(self.minimum_update_period_in_s or 1):")], """
simple(D=2, n=4)
T = 1600000000
ends = {}
for d in range(0, 70):
    m = mpd("/livesim/start_%d/dur_20/dur_30/mup_0/tp/Manifest.mpd" % T, T + d)
    ends.setdefault(m.get("mediaPresentationDuration"), []).append(d)
print(ends)
check(sorted(d for v in ends.values() for d in v) == list(range(70)))
check([v[0] for v in ends.values()] == [0, 21], ends)
""")

seed("c17-nested-folders", "C17", "two representations in a folder of a folder of the content, requested as one multiplexed file",
     "multiplexed initialization segments are looked for in the first folder of the path only",
     [(D + "dash_proxy.py", "        com_path = \"/\".join(cfg.rel_path.split(\"/\")[:-1])\n        init1", "        com_path = cfg.rel_path.split(\"/\")[0] if \"/\" in cfg.rel_path else \"\"\n        init1")], """
for folder in ("", "x/", "x/y/", "x/y/z/"):
    name = "tp" + folder.replace("/", "")
    simple(name=name, D=2, n=4)
    if folder:
        os.makedirs(os.path.join(ROOT, name, folder))
        for r in ("V1", "A1"):
            shutil.move(os.path.join(ROOT, name, r), os.path.join(ROOT, name, folder, r))
        f = os.path.join(CFG, name + ".cfg")
    r = get("/livesim/%s/%sV1__A1/init.mp4" % (name, folder), 1600000000)
    check(r.status == 200 and len(M.parse(r.body)[1].find(b"trak")) == 2, folder, r.status, r.body[:80])
""")
