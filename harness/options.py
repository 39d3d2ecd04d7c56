"""URL options of a stream: abstract record <-> URL path parts."""
import random

NONE = -999999999
DEFAULTS = dict(start=NONE, stop=NONE, startrel=NONE, stoprel=NONE, durs=[], timeoffset=NONE, init=0, tsbd=NONE,
                mup=NONE, modulo=0, tfdt=0, cont=0, periods=-1, xlink=-1, etp=-1, etpDuration=-1, insertad=-1,
                mpdcallback=-1, continuous=0, segtimeline=0, segtimelinenr=0, baseurl=[], peroff=-1, scte35=0, utc=[],
                snr=0, ato=0, spd=NONE, sidx=0, segtimelineloss=0, chunkdur=0)
FLAGS = ("tfdt", "cont", "continuous", "segtimeline", "segtimelinenr", "sidx", "segtimelineloss")


def ms(x):
    "milliseconds as shortest decimal seconds"
    s = "%d.%03d" % divmod(x, 1000)
    return s.rstrip("0").rstrip(".")


def full(o):
    "Complete record for the specification."
    r = dict(DEFAULTS)
    for k, v in o.items():
        if k.startswith("_"):
            continue
        assert k in DEFAULTS, k
        r[k] = v
    r["baseurl"] = [{"first": b[0], "a": b[1], "b": b[2]} for b in r["baseurl"]]
    return r


def parts(o, rnd=None):
    "URL path parts in canonical or shuffled order (multiple dur/baseurl keep their own order)."
    out = []
    for k, v in o.items():
        if k.startswith("_"):
            continue
        if k == "durs":
            out += [("dur", "dur_%d" % d) for d in v]
        elif k == "baseurl":
            out += [("baseurl", "baseurl_%s%d_%s%d" % (f, a, "d" if f == "u" else "u", b)) for (f, a, b) in v]
        elif k == "utc":
            if v:
                out.append((k, "utc_" + "-".join(v)))
        elif k == "ato":
            out.append((k, "ato_inf" if v == -1 else "ato_" + ms(v)))
        elif k == "chunkdur":
            out.append((k, "chunkdur_" + ms(v)))
        elif v == DEFAULTS[k] and v == NONE:
            continue
        elif k == "start" and o.get("_alias"):
            out.append((k, "ast_%d" % v))
        else:
            out.append((k, "%s_%d" % (k, v)))
    for i, (pos, part) in enumerate(o.get("_noise", ())):
        out.insert(min(pos, len(out)), ("_%d" % i, part))
    if rnd is None and "_order" in o:
        rnd = random.Random(o["_order"])
    if rnd is not None:
        ded = {}
        for key, p in out:
            ded.setdefault(key, []).append(p)
        idx = [key for key, _ in out]
        rnd.shuffle(idx)
        out = [(key, ded[key].pop(0)) for key in idx]
    return [p for _, p in out]
