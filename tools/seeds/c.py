D = "dashlib/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed("c23-default-clock", "C23", "a chunk duration in front of the timing methods",
     "the default timing method of low-latency streams is chosen when the chunk duration is read, and later methods are added to it",
     [(D + "configprocessor.py", "                cfg.utc_timing_methods = value.split(\"-\")\n", "                cfg.utc_timing_methods += value.split(\"-\")\n"),
      (D + "configprocessor.py", "                        cfg.chunk_duration_in_s = chunk_duration\n",
       "                        cfg.chunk_duration_in_s = chunk_duration\n                        cfg.utc_timing_methods = cfg.utc_timing_methods or ['httpiso']\n"),
      (D + "mpd_proxy.py", "        if len(mpd_proc_cfg['utc_timing_methods']) == 0:\n            mpd_proc_cfg['utc_timing_methods'].append('httpiso')\n", "")], """
import itertools, re
simple(D=2, n=4)
for opts in (["chunkdur_0.5", "utc_direct", "ato_1.5"], ["chunkdur_0.5", "ato_1.5", "tsbd_20"], ["utc_head-direct", "tsbd_20"]):
    seen = set()
    for p in itertools.permutations(opts):
        r = get("/livesim/%s/tp/Manifest.mpd" % "/".join(p), 1600000000.0)
        check(r.status == 200, p)
        seen.add(re.sub(b"<BaseURL.*?</BaseURL>", b"", r.body))
    check(len(seen) == 1, opts, len(seen))
""")

seed("c14-late-event", "C14", "a schedule whose cycle does not start at the full minute",
     "the in-band event stream of the manifest is announced in the first cycle of each minute only",
     [(D + "mpd_proxy.py", "                elif now_mod_60 == i * total_dur + dur1:\n", "                elif now_mod_60 == dur1:\n")], """
simple(D=2, n=4)
T = 1600000020 - 1600000020 % 60
for m in range(60):
    a = periods(mpd("/livesim/segtimeline_1/segtimelineloss_1/baseurl_u10_d10/tp/Manifest.mpd", T + m))[0].findall(NS + "AdaptationSet")
    for x in a:
        n = len([e for e in x.findall(NS + "InbandEventStream") if e.get("schemeIdUri") == "urn:mpeg:dash:event:2012"])
        check(n == (1 if m % 20 == 10 else 0), m, n)
""")

seed("c20-first-place", "C20", "a session start behind other options",
     "a session start is only found at the place where the redirect puts it",
     [("mod_wsgi/mod_dashlivesim.py", "        for part in path_parts:\n            if part.startswith('sts_'):", "        for part in path_parts[:4]:\n            if part.startswith('sts_'):")], """
simple(D=2, n=4)
m = driver.module()
m.MAX_SESSION_LENGTH = 60
T = 1600000000
for pre in ("sts_%d", "sts_%d/tsbd_20/snr_3", "tsbd_20/sts_%d", "tsbd_20/snr_3/sts_%d", "tsbd_20/snr_3/sid_x/sts_%d", "snr_3/tsbd_20/init_5/spd_3/sts_%d/mup_4"):
    for d, want in ((0, 200), (59, 200), (62, 410)):
        r = get("/livesim/" + pre % T + "/tp/Manifest.mpd", T + d)
        check(r.status == want, pre, d, r.status)
        n = (T + d) // 2 + (2 if "snr" in pre else -1)
        r = get("/livesim/" + pre % T + "/tp/V1/%d.m4s" % n, T + d)
        check(r.status == want, pre, d, n, r.status)
""")

seed("c04-window-shift", "C04", "an availability time offset of more than one segment, and a segment at the old end of the time shift buffer",
     "the oldest segments of the announced time shift buffer are refused as too late",
     [(D + "dash_proxy.py", "        if ((now_float > seg_ast + seg_dur +\n                cfg.timeshift_buffer_depth_in_s) and not stop_number):\n",
       "        if ((now_float > seg_ast + seg_dur - cfg.availability_time_offset_in_s +\n                cfg.timeshift_buffer_depth_in_s) and not stop_number):\n")], """
simple(D=2, n=4)
T = 1600000000
for ato in (0, 1, 3, 5):
    base = "/livesim/start_%d/ato_%d/tsbd_20/tp/" % (T, ato)
    for k in range(0, 6):
        for late in (0, 10, 19, 20, 22):
            r = get(base + "V1/%d.m4s" % k, T + 2 * (k + 1) + late)
            check(r.status == 200, ato, k, late, r.status)
        check(get(base + "V1/%d.m4s" % k, T + 2 * (k + 1) + 23).status == 404, ato, k)
""")

seed("c06-number-by-time", "C06", "a timeline whose segments are shorter and longer than the nominal duration, addressed by number",
     "the announced start number stands still, or jumps by two, while the segments in front are dropped one by one",
     [(D + "segtimeline.py", "        return (nr_wraps*self.nr_segments_per_wrap + seg_data.start_nr +\n                repeats - self.first_segment_number)",
       "        tics = nr_wraps*self.wrap_duration + seg_data.start_time + repeats*seg_data.duration\n        return tics // (self.wrap_duration // self.nr_segments_per_wrap)")], """
make(dict(name="tp", first=1, n=4, D=2, tsbd=30, media={"audio": dict(ts=1000, reps=["A1"], durs=[1960, 2000, 2080, 1960])}))
T = 1600000000
prev = None
for t in range(T, T + 25):
    a = aset(periods(mpd("/livesim/segtimelinenr_1/tsbd_6/tp/Manifest.mpd", t))[0], "audio")
    n = int(a.find(NS + "SegmentTemplate").get("startNumber"))
    tl = [(n + i,) + x for i, x in enumerate(timeline(a))]
    if prev and tl:
        check(tl[0] in prev and prev[prev.index(tl[0]):] == tl[:len(prev) - prev.index(tl[0])], t, prev, tl)
    prev = tl
""")
