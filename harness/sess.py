"""Sessions against the real server: every request is executed at once and recorded as an event."""
import os, random, shutil, tempfile
import content, driver, obs, options
from obs import NONE

DUMMY_M = {"ok": False}


def f2t(x):
    s = int(x // 1)
    ms = int(round((x - s) * 1000))
    return [s + ms // 1000, ms % 1000]


class Lab(object):
    "A content root with several contents and a server on it."
    def __init__(self, specs, tmp=None):
        self.dir = tempfile.mkdtemp(prefix="verif-", dir=tmp)
        self.root, self.cfg = os.path.join(self.dir, "content"), os.path.join(self.dir, "vodcfg")
        os.makedirs(self.root), os.makedirs(self.cfg)
        self.contents = {s["name"]: content.Content(s, self.root, self.cfg) for s in specs}
        self.server = driver.Server(self.cfg, self.root)
        self.order = [s["name"] for s in specs]
        self.requests = 0

    def records(self):
        return [obs.content_record(self.contents[n]) for n in self.order]

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Session(object):
    def __init__(self, lab, name, label="", host="sim.example", https=False):
        self.lab, self.c, self.label = lab, lab.contents[name], label
        self.opts, self.raw, self.ev, self.urls = [], [], [], []
        self.host, self.https = host, https
        self._oi = {}

    def json(self):
        return {"c": self.lab.order.index(self.c.name) + 1, "label": self.label, "opts": [options.full(o) for o in self.opts],
                "ev": self.ev}

    def opt(self, o):
        k = repr(sorted(o.items(), key=str))
        if k not in self._oi:
            self.opts.append(o)
            self._oi[k] = len(self.opts)
        return self._oi[k]

    def prefix(self, oi, rnd=None, extra=None):
        ps = options.parts(self.opts[oi - 1], rnd)
        for pos, p in (extra or []):
            ps.insert(min(pos, len(ps)), p)
        return ["livesim"] + ps

    def http(self, uri, t, headers=None, watch=False, query_env=None):
        self.lab.requests += 1
        return self.lab.server.get(uri, t[0] + t[1] / 1000.0, headers=headers, host=self.host, https=self.https, watch=watch,
                                   query_env=query_env)

    def add(self, ev, uri, reply, ext="", chunked=False):
        base = {"st": reply.status, "cls": obs.classify(reply) if reply.status != 200 else "ok", "dig": obs.reply_dig(reply),
                "bdig": obs.dig(reply.body), "http": obs.wellformed_http(reply, ext, chunked), "rel": [], "url": uri}
        base.update(ev)
        self.ev.append(base)
        return len(self.ev)

    def rel(self, p, r, what):
        "the last event has the same observable as event r"
        self.ev[-1]["rel"].append({"p": p, "r": r, "what": what})

    def reppath(self, reps):
        d = self.c.reps[reps[0]]["dir"] if reps[0] in self.c.reps else ""
        return d + "__".join(reps)

    def regular(self, ct):
        st, du = self.c.starts(ct)
        return all(d == self.c.D * self.c.spec["media"][ct]["ts"] for d in du) and st[0] == 0

    # -- media segments --
    def seg(self, oi, t, reps, n=None, time=None, via=None, rnd=None, extra=None, detail=True):
        "n: number, or time: media time ticks. via: (mpd event, period, as, entry or 0)"
        if isinstance(reps, str):
            reps = [reps]
        ts = self.c.reps[reps[0]]["ts"]
        name = "t%d" % time if n is None else "%d" % n
        uri = "/" + "/".join(self.prefix(oi, rnd, extra) + [self.c.name, self.reppath(reps), name + ".m4s"])
        r = self.http(uri, t)
        chunked = self.opts[oi - 1].get("chunkdur", 0) > 0
        ev = {"k": "seg", "t": list(t), "oi": oi, "reps": reps, "addr": "t" if n is None else "n", "n": n if n is not None else 0,
              "mt": obs.mt(time, ts) if n is None else [0, 0], "f": {"ok": False}, "dt": [], "via": 0, "vp": 0, "va": 0, "vj": 0,
              "regular": self.regular(self.c.reps[reps[0]]["ct"]), "ttml": {"ok": False}}
        if via:
            ev.update(zip(("via", "vp", "va", "vj"), via))
        if r.status == 200:
            ev["f"] = obs.seg_record(self.c, reps, r, detail)
            if chunked:
                ev["dt"] = [f2t(x[1]) for x in r.chunks]
            if self.c.reps[reps[0]]["ct"] == "subtitles" and len(reps) == 1 and ev["f"]["ok"]:
                try:
                    fr = obs.M.fragment(r.body, obs.M.trex_defaults(self.c.inits[reps[0]]))
                    ev["ttml"] = obs.ttml_record(fr["frags"][0]["tracks"][0]["samples"][0][0], True)
                except Exception:
                    pass
        return self.add(ev, uri, r, ".m4s", chunked and r.status == 200 and len(reps) == 1)

    def thumb(self, oi, t, rid, n=None, rnd=None, time=None):
        name = "t%d" % time if n is None else "%d" % n
        uri = "/" + "/".join(self.prefix(oi, rnd) + [self.c.name, self.reppath([rid]), name + ".jpg"])
        r = self.http(uri, t)
        return self.add({"k": "thumb", "t": list(t), "oi": oi, "reps": [rid], "addr": "t" if n is None else "n", "n": 0 if n is None else n,
                         "mt": obs.mt(time, self.c.reps[rid]["ts"]) if n is None else [0, 0]}, uri, r, ".jpg")

    def init(self, oi, t, reps, rnd=None, extra=None):
        if isinstance(reps, str):
            reps = [reps]
        uri = "/" + "/".join(self.prefix(oi, rnd, extra) + [self.c.name, self.reppath(reps), "init.mp4"])
        r = self.http(uri, t)
        ini = obs.init_record(self.c, reps, r) if r.status == 200 else {"ok": False}
        return self.add({"k": "init", "t": list(t), "oi": oi, "reps": reps, "ini": ini}, uri, r, ".mp4")

    # -- manifests --
    def mpd(self, oi, t, prev=0, plain=0, loc=0, rnd=None, extra=None, name=None, path=None):
        "path: explicit parts of the path (from livesim to the manifest)"
        parts = path or (self.prefix(oi, rnd, extra) + [self.c.name, name or self.c.mpd_name])
        uri = "/" + "/".join(parts)
        r = self.http(uri, t)
        m = obs.mpd_record(r.body) if r.status == 200 else {"ok": False}
        ev = {"k": "mpd", "t": list(t), "oi": oi, "m": m,
              "path": [{"key": p.split("_", 1)[0] if "_" in p and p != self.c.name else "", "txt": p} for p in parts],
              "np": parts.index(self.c.name) + 1, "scheme": "https:" if self.https else "http:", "host": self.host,
              "prev": prev, "loc": loc, "plain": plain}
        self.add(ev, uri, r, ".mpd")
        return len(self.ev)

    def per(self, oi, t, nr, plain, name=None, href=None, rnd=None):
        uri = href or "/" + "/".join(self.prefix(oi, rnd) + [self.c.name, "%s+p%d.period" % (name or self.c.mpd_name, nr)])
        r = self.http(uri, t)
        pdig = ""
        if r.status == 200:
            try:
                pdig = obs.dig(obs.canon(obs.ET.fromstring(r.body)))
            except Exception:
                pdig = "malformed"
        return self.add({"k": "per", "t": list(t), "oi": oi, "nr": nr, "plain": plain, "pdig": pdig}, uri, r, ".period")

    def m(self, i):
        "manifest record of event i"
        return self.ev[i - 1]["m"]
