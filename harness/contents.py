"""The stored contents the checks are run with."""


def v(ts=90000, **kw):
    return dict(ts=ts, reps=["V1"], **kw)


TP = dict(name="tp", first=1, n=4, D=2, tsbd=10, media={
    "video": dict(ts=90000, reps=["V1", "V2"], layout={"V2": "wide"}),
    "audio": dict(ts=48000, reps=["A1"], durs=[95232, 96256, 96256, 96256]),
    "subtitles": dict(ts=1000, reps=["S1"])})
Q6 = dict(name="q6", first=5, n=3, D=6, tsbd=20, profiles="urn:mpeg:dash:profile:isoff-live:2011,http://dashif.org/guidelines/adin/app", media={
    "video": dict(ts=12800, reps=["V1"], dir="a/b/"), "image": dict(ts=1, reps=["T1"]),
    "audio": dict(ts=44100, reps=["A1", "A2"], durs=[264192, 263168, 266440])})
ONE = dict(name="one", first=0, n=1, D=8, tsbd=33, profiles="http://www.dashif.org/guidelines/low-latency-live-v5,urn:mpeg:dash:profile:isoff-live:2011", media={"video": dict(ts=10000000, reps=["V1"])})
TEN = dict(name="ten", first=100, n=2, D=10, tsbd=60, media={
    "video": dict(ts=15360, reps=["V1"], layout={"V1": "sidx0"}, defdur=51200, vary=False),
    "audio": dict(ts=48000, reps=["A1"])})
#: stored manifest with everything that has to be kept
RICH = dict(name="rich", first=1, n=5, D=4, tsbd=25, proginfo=2, described=True, own_baseurl="http://elsewhere.example/x/", mpd_metrics=True,
            mpd_extra_attr='id="x&quot;y" maxSubsegmentDuration="PT4S"', tpl_start=7,
            profiles="urn:mpeg:dash:profile:isoff-live:2011,http://dashif.org/guidelines/dash-if-simple,urn:x:other",
            media={"video": dict(ts=30000, reps=["V1", "V2"]), "audio": dict(ts=22050, reps=["A1"]),
                   "subtitles": dict(ts=90000, reps=["S1"])})
V10 = dict(name="vten", first=3, n=6, D=2, tsbd=12, version="1.0", media={"video": dict(ts=1000, reps=["V1"])})
THUMB = dict(name="thb", first=2, n=5, D=4, tsbd=15, media={
    "video": dict(ts=1000, reps=["V1"]), "image": dict(ts=1, reps=["T1", "T2"], dir="img/x/")})

ALL = {s["name"]: s for s in (TP, Q6, ONE, TEN, RICH, V10, THUMB)}


def layouts(first=1, n=3, D=4, name="lay"):
    "one video content per box layout: timescale and samples so that every layout can express them"
    from content import LAYOUTS
    out = []
    for i, lay in enumerate(sorted(LAYOUTS)):
        ts = [1000, 90000, 12800, 100000000][i % 4] if lay not in ("trexdef", "defs", "runsdef") else [1000, 90000][i % 2]
        dd = D * ts // 4
        nosamp = not LAYOUTS[lay]["trun"] & 0x100
        out.append(dict(name="%s%s" % (name, lay), first=first, n=n, D=D, tsbd=30, media={
            "video": dict(ts=ts, reps=["V1"], layout={"V1": lay}, nsamp=4 if nosamp else 5, defdur=dd, vary=False)}))
    return out

#: every kind of representation, in one folder each / in a common folder
FLAT = dict(name="flt", first=1, n=4, D=2, tsbd=60, media={"video": dict(ts=1000, reps=["V1", "V2"]), "audio": dict(ts=48000, reps=["A1"]),
                                                       "subtitles": dict(ts=1000, reps=["S1"]), "image": dict(ts=1, reps=["T1"])})
NEST = dict(name="nst", first=3, n=3, D=4, tsbd=60, media={"video": dict(ts=90000, reps=["V1", "V2"], dir="md/"), "audio": dict(ts=48000, reps=["A1"], dir="md/"),
                                                        "subtitles": dict(ts=1000, reps=["S1"], dir="md/"), "image": dict(ts=1, reps=["T1"], dir="md/")})
ALL.update({s["name"]: s for s in (FLAT, NEST)})
#: timescales that are powers of two: decode times of exactly 2^31, 2^32, 2^33
POW = dict(name="pow", first=2, n=4, D=2, tsbd=10, media={"video": dict(ts=16384, reps=["V1"]), "audio": dict(ts=32768, reps=["A1"])})
ALL["pow"] = POW
#: segments that start later than the grid of nominal durations
LATE = dict(name="lte", first=1, n=4, D=2, tsbd=14, media={"audio": dict(ts=48000, reps=["A1"], durs=[96512, 95744, 96256, 95488]), "video": dict(ts=90000, reps=["V1"])})
ALL["lte"] = LATE
#: two contents alike but for the default sample duration of their movie extends boxes
ISA = dict(name="isa", first=1, n=4, D=2, tsbd=10, media={"video": dict(ts=1000, reps=["V1"], layout={"V1": "trexdef"}, nsamp=4, defdur=500, vary=False),
                                                         "audio": dict(ts=48000, reps=["A1"])})
ISB = dict(name="isb", first=2, n=3, D=2, tsbd=30, media={"video": dict(ts=90000, reps=["V1"], layout={"V1": "trexdef"}, nsamp=8, defdur=22500, vary=False),
                                                         "audio": dict(ts=48000, reps=["A1"])})
ALL.update(isa=ISA, isb=ISB)
#: segments that start more than a second off the grid of nominal durations, in both directions
FAR = dict(name="far", first=1, n=4, D=8, tsbd=24, media={"video": dict(ts=1000, reps=["V1"], durs=[9600, 6400, 5400, 10600]), "audio": dict(ts=48000, reps=["A1"], durs=[300000, 468000, 500000, 268000])})
ALL["far"] = FAR
#: names that mean something in XML and in the links to periods
AMP = dict(name="r&d'", mpd="now+then&more.mpd", first=1, n=4, D=2, tsbd=20, media={"video": dict(ts=90000, reps=["V1"]), "audio": dict(ts=48000, reps=["A1"])})
ALL[AMP["name"]] = AMP
