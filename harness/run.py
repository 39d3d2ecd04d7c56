"""Runs the check of one property:  /opt/venv/bin/python harness/run.py C01

 1. model checking of the specification (spec/MC*.tla) for the property
 2. behaviours of the specification (spec/Gen.tla) and scenarios are executed by the real code
 3. everything the real code did is validated against the specification (spec/Trace.tla)
Exit 0: held on everything explored; 1: VIOLATION lines; 2: the machinery itself failed."""
import sys, os, json, time, random, traceback, collections, re, multiprocessing, concurrent.futures

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"

import tlc, judge, gen, sess, contents   # noqa
import plans, plans2, plans3, plans4, plans5    # noqa


class Check(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rnd = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.labs = {}
        self.batches = []          # (lab, [session json], origin)
        self.mc = []               # (module, generated, distinct, wall)
        self.parts = collections.OrderedDict()
        self.behaviours = 0
        self.walls = collections.Counter()
        self.pool = concurrent.futures.ThreadPoolExecutor(5)
        self.models, self.gens, self.cleanup = [], [], []

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def lab(self, *names, **kw):
        specs = [contents.ALL[x] if isinstance(x, str) else x for x in names]
        key = json.dumps(specs, sort_keys=True)
        if key not in self.labs:
            self.labs[key] = sess.Lab(specs)
        return self.labs[key]

    # Model runs and generators are TLC processes of their own: they are started at once and joined when needed.
    # -- 1: the specification itself --
    def model(self, module, cfg=None, workers=3, timeout=None, heap="6g", args=()):
        cfg = cfg or module + ".cfg"
        if not self.quick:
            workers = 6
        def go():
            t = time.time()
            rc, out = tlc.run(module, cfg, workers=workers, timeout=timeout or self.n(300, 3000), heap=heap, args=["-deadlock"] + list(args))
            if rc != 0 or "No error has been found" not in out:
                raise tlc.TLCError("model %s/%s: rc %d\n%s" % (module, cfg, rc, out[-4000:]))
            g, d = tlc.states(out)
            return module + "/" + cfg, g, d, round(time.time() - t, 1)
        self.models.append(self.pool.submit(go))

    # -- 2: behaviours --
    def gen(self, lab, names, num, label="", execute=None, procs=None, **kw):
        "execute(behaviour, index): runs a behaviour, returns sessions (default: gen.replay)"
        procs = procs or self.n(1 if num <= 60 else 2, 4)
        seed = kw.pop("seed", self.seed * 31 + len(self.gens))
        def go():
            t = time.time()
            return gen.behaviours(lab, names, num=num, seed=seed, procs=procs, **kw), time.time() - t
        self.gens.append((lab, label, execute, self.pool.submit(go)))

    def sim(self, lab, module, cfg, num, depth, label, execute, procs=2):
        "behaviours of another model, executed by execute(lab, behaviour, index)"
        seed = self.seed * 31 + len(self.gens)
        def go():
            t = time.time()
            return gen.simulate(module, cfg, num, depth, seed=seed, procs=procs), time.time() - t
        self.gens.append((lab, label, execute, self.pool.submit(go)))

    def join(self):
        for lab, label, execute, fut in self.gens:
            t = time.time()
            bs, w = fut.result()
            self.walls["generate"] += time.time() - t
            self.behaviours += len(bs)
            if execute:
                self.scenario(lab, label, [lambda b=b, k=k: execute(lab, b, k) for k, b in enumerate(bs)])
            else:
                t = time.time()
                self.add(lab, pmap(lambda b: gen.replay(lab, b, label).json(), bs), label)
                self.walls["replay"] += time.time() - t
        self.gens = []

    def join_models(self):
        t = time.time()
        self.mc = [f.result() for f in self.models]
        self.walls["model"] += time.time() - t

    def scenario(self, lab, label, thunks):
        "thunks: functions that execute one scenario on the lab and return Session objects"
        t = time.time()
        def one(f):
            r = f()
            return [x.json() for x in (r if isinstance(r, list) else [r])]
        self.add(lab, [j for js in pmap(one, thunks) for j in js], label)
        self.walls["replay"] += time.time() - t

    def add(self, lab, js, label):
        for j in js:
            j["label"] = label
        self.batches.append((lab, js, label))
        self.parts[label] = self.parts.get(label, 0) + sum(len(j["ev"]) for j in js)

    # -- 3: validation --
    def validate(self):
        self.v = {"applied": collections.Counter(), "failed": collections.Counter(), "events": 0, "states": 0, "sessions": 0}
        self.bad = []              # (session json, event index, clause, lab)
        by = collections.OrderedDict()
        for lab, js, _ in self.batches:
            by.setdefault(id(lab), (lab, []))[1].extend(js)
        t = time.time()
        for lab, js in by.values():
            vd = judge.validate(lab.records(), js)
            self.v["applied"].update(vd.applied); self.v["failed"].update(vd.failed)
            self.v["events"] += vd.events; self.v["states"] += vd.states; self.v["sessions"] += vd.sessions
            for si, i, cl in vd.violations:
                self.bad.append((js[si], i, cl, lab))
            if hasattr(vd, "undecided"):
                self.undecided = vd.undecided
        self.walls["validate"] += time.time() - t

    def close(self):
        for f in self.cleanup:
            f()
        for l in self.labs.values():
            l.close()


def pmap(fn, items, procs=8):
    "fork-parallel map; results in order"
    items = list(items)
    if len(items) < 8:
        return [fn(x) for x in items]
    import driver
    driver.module()               # import the application before forking
    global _fn, _items
    _fn, _items = fn, items
    with multiprocessing.get_context("fork").Pool(procs) as p:
        return p.map(_call, range(len(items)), chunksize=max(1, len(items) // (procs * 4)))


def _call(i):
    return _fn(_items[i])


KNOWN = os.path.join(VERIF, "known-findings.txt")


def known(prop):
    "entries 'known: property=<id> clause=<clause> match=<regex on the event JSON> :: <what fails>'"
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) clause=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(prop, tier, seed)
    try:
        plan = plans.PLANS[prop]
        plan(c)
        c.join()
        c.validate()
        c.join_models()
        return report(c, plan)
    finally:
        c.close()


def report(c, plan):
    prop = c.prop
    mine = [b for b in c.bad if b[2].startswith(prop + ".") or b[2] == "undecided"]
    applied = {k: n for k, n in sorted(c.v["applied"].items()) if k.startswith(prop + ".")}
    kn = known(prop)
    seen_known, viol = collections.Counter(), collections.OrderedDict()
    for j, i, cl, lab in mine:
        ev = j["ev"][i - 1] if 0 < i <= len(j["ev"]) else {}
        txt = json.dumps(ev)
        hit = [w for (kc, rx, w) in kn if kc == cl and rx.search(txt)]
        if hit:
            seen_known[hit[0]] += 1
        else:
            viol.setdefault(cl, []).append((j, i, ev, lab))
    for kc, rx, w in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    out = []
    rdir = os.path.join(EVIDENCE, "replays")
    for cl, xs in viol.items():
        os.makedirs(rdir, exist_ok=True)
        j, i, ev, lab = xs[0]
        path = os.path.join(rdir, "%s-%s.json" % (prop, cl.replace(".", "-").replace("/", "-")))
        with open(path, "w") as f:
            json.dump({"property": prop, "clause": cl, "occurrences": len(xs), "event": i, "label": j["label"],
                       "content": lab.contents[lab.order[j["c"] - 1]].spec if lab.order else None,
                       "opts": j["opts"], "observed": ev, "log": [[e.get("t"), e.get("url"), e.get("st")] for e in j["ev"][:i]],
                       "undecided": getattr(c, "undecided", "") if cl == "undecided" else ""}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  clause %s, %d times; first: %s at %s -> %s" % (cl, len(xs), ev.get("url"), ev.get("t"), ev.get("st")))
        out.append({"clause": cl, "count": len(xs), "replay": path, "first": str(ev.get("url"))[:300]})
    need = getattr(plan, "needs", None) or []
    missing = [x for x in need if not applied.get(x)]
    samples = []
    rr = random.Random(c.seed)
    evs = [(j, e) for _, js, _ in c.batches for j in js for e in j["ev"]]
    for j, e in rr.sample(evs, min(6, len(evs))):
        samples.append({"input": str(e.get("url"))[:300], "at": e.get("t"), "scenario": j["label"], "observed": "%s %s" % (e.get("st"), e.get("k"))})
    cov = {"states": sum(m[2] for m in c.mc) + c.v["states"], "transitions": sum(m[1] for m in c.mc) + c.v["events"],
           "traces_validated_against_impl": c.v["sessions"], "samples": samples,
           "events_judged": c.v["events"], "behaviours_generated": c.behaviours,
           "models": [{"model": a, "states_generated": b, "distinct": d, "wall_s": w} for a, b, d, w in c.mc],
           "clauses_of_this_property": applied, "scenarios": c.parts,
           "wall_by_phase": {k: round(v, 1) for k, v in c.walls.items()}}
    ev = {"property": prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - c.t0, 1)}
    if out:
        ev["violations"] = len(out)
    ev["assumptions"] = list(getattr(plan, "assumptions", [])) + [
        "the clock is simulated: time.time/sleep/gmtime and datetime.now of the process are replaced",
        "the server is driven through its WSGI application callable in process"]
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s: %d sessions, %d events, %d clauses of %s applied %d times, models %s, %.1fs %s" % (
        prop, c.tier, c.v["sessions"], c.v["events"], len(applied), prop, sum(applied.values()),
        [(m[0], m[2]) for m in c.mc], time.time() - c.t0, dict((k, round(v, 1)) for k, v in c.walls.items())))
    if out:
        return 1
    if not applied or missing:
        print("no verdict: clauses never applied: %s" % (missing or "all"))
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
