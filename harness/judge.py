"""Validates sessions against the specification with TLC."""
import json, os, tempfile, collections
import tlc

CHUNK = 6000      # events per TLC run


class Verdicts(object):
    def __init__(self):
        self.applied, self.failed = collections.Counter(), collections.Counter()
        self.violations = []      # (session index, event index, clause)
        self.lost = 0
        self.events = self.states = self.sessions = self.runs = 0


def _once(contents, sess, workers, timeout):
    fd, path = tempfile.mkstemp(prefix="trace-", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump({"contents": contents, "sessions": sess}, f)
        rc, out = tlc.run("Trace", "Trace.cfg", {"TRACE": path}, workers=workers, timeout=timeout)
    finally:
        os.unlink(path)
    evs = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"EV '):
            evs.append(json.loads(json.loads(line)[3:]))
    want = sum(len(s["ev"]) for s in sess)
    gen, dist = tlc.states(out)
    ok = rc == 0 and len(evs) == want and dist == want + len(sess)
    return ok, evs, out, dist


def validate(contents, sessions, workers=8, timeout=800):
    """sessions: list of Session.json(). An event that the specification cannot even interpret is a violation of
    clause 'undecided' (the observation is outside of everything the specification allows)."""
    v = Verdicts()
    groups, cur, n = [], [], 0
    for i, s in enumerate(sessions):
        if not s["ev"]:
            continue
        cur.append(i); n += len(s["ev"])
        if n >= CHUNK:
            groups.append(cur); cur, n = [], 0
    if cur:
        groups.append(cur)
    def take(ix, evs, dist):
        v.runs += 1; v.states += dist
        v.sessions += len(ix)
        for si, i, app, bad in evs:
            v.events += 1
            v.applied.update(app); v.failed.update(bad)
            for c in bad:
                v.violations.append((ix[si - 1], i, c))
    def go(ix):
        ok, evs, out, dist = _once(contents, [sessions[i] for i in ix], workers, timeout)
        if ok:
            return take(ix, evs, dist)
        if "java.lang.OutOfMemory" in out or "Parsing or semantic analysis failed" in out or "Parse Error" in out:
            raise tlc.TLCError(out[-3000:])
        if len(ix) == 1:
            s = sessions[ix[0]]
            if s.get("_cut"):
                raise tlc.TLCError(out[-3000:])
            v.violations.append((ix[0], max([e[1] for e in evs] + [0]), "undecided"))
            v.undecided = out[-1500:]
            v.lost += 1
            return
        if v.lost > 8:           # enough to report
            return
        h = len(ix) // 2
        go(ix[:h]); go(ix[h:])
    for g in groups:
        go(g)
    return v
