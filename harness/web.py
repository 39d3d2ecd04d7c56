"""The HTTP level: requests of every kind, byte ranges, session limits, interleaved requests, malformed paths."""
import random, re, os, string
import driver, obs, options, sess
from obs import NONE


def uris(s, oi, t, rnd, extra=None):
    "requests of every kind that stream oi of session s answers around instant t: [(uri, ext)]"
    c, o = s.c, s.opts[oi - 1]
    pre = s.prefix(oi, rnd, extra)
    base = "/" + "/".join(pre + [c.name]) + "/"
    out = [(base + "Manifest.mpd", ".mpd")]
    st = o.get("start", 0)
    first = {NONE: 0, -1: 1}.get(o.get("snr", 0), o.get("snr", 0))
    n = first + (t[0] - max(st, 0)) // c.D - 1
    cts = {}
    for rid in sorted(c.reps):
        ct = c.reps[rid]["ct"]
        cts.setdefault(ct, []).append(rid)
        p = base + s.reppath([rid]) + "/"
        if ct == "image":
            out += [(p + "%d.jpg" % (n - d), ".jpg") for d in (0, 1)]
        else:
            out += [(p + "%d.m4s" % (n - d), ".m4s") for d in (0, 1)] + [(p + "init.mp4", ".mp4")]
            if s.regular(ct):
                out.append((p + "t%d.m4s" % ((n - first + max(o.get("timeoffset", 0), 0) // c.D) * c.D * c.reps[rid]["ts"]), ".m4s"))
    if "audio" in cts and "video" in cts:
        a, v = rnd.choice(cts["audio"]), rnd.choice(cts["video"])
        if c.reps[a]["dir"] == c.reps[v]["dir"]:
            p = base + s.reppath([a, v]) + "/"
            out += [(p + "%d.m4s" % n, ".m4s"), (p + "init.mp4", ".mp4")]
    if o.get("xlink", -1) > 0:
        L = 3600 // o["periods"] if o.get("periods", -1) > 0 else 3600
        out += [(base + "Manifest.mpd+p%d.period" % ((t[0] - max(st, 0)) // L), ".period")]
    # requests that fail
    out += [(base + s.reppath([sorted(c.reps)[0]]) + "/%d.m4s" % (n + 50), ".m4s"), (base + "Nothing.mpd", ".mpd"), (base + "nosuch/%d.m4s" % n, ".m4s"),
            ("/" + "/".join(pre + ["nocontent", "Manifest.mpd"]), ".mpd"), ("/" + "/".join(pre + ["snr_x", c.name, "Manifest.mpd"]), ".mpd")]
    return out


# -- byte ranges --
def header(r, rnd):
    "a spelling of a well-formed single range"
    a = "" if r["first"] == -1 else "%d" % r["first"]
    b = "" if r["last"] == -1 else "%d" % r["last"]
    u = rnd.choice(["bytes"] * 6 + ["Bytes", "BYTES"])
    return u + "=" + a + "-" + b


MALFORMED = ["bytes=", "bytes=-", "bytes", "", "0-5", "bytes=a-b", "bytes=0-5x", "bytes=--5", "bytes=5--", "bytes=1-2-3", "items=0-5", "bytes=0x1-0x3", "bytes=1.0-3",
             "bytes=+1-3", "bytes=0_1-3", "bytes=-1-3", "bytes:0-5", "bytes=0-5;q=1", "=0-5", "-", "bytes=١-٣", "bytes=0-5\x00", "bytes==0-5", "bytes=0-5=", "b=0-3", "bytes=0–5"]
MULTI = ["bytes=0-1,3-4", "bytes=0-1, 3-", "bytes=0-,-2", "bytes=-1,-2", "bytes=0-0,", "bytes=,0-0", "bytes=0-1,a-b", "bytes=3-1,0-1"]
BIG = 2 ** 31 - 1


class Ranges(object):
    "range requests to one resource at one instant"
    def __init__(self, s, uri, ext, t, rnd):
        self.s, self.uri, self.ext, self.t, self.rnd = s, uri, ext, t, rnd
        self.full = s.http(uri, t)
        self.chunked = ext == ".m4s" and self.full.status == 200 and self.full.header("Content-Length") is None

    def ask(self, r=None, text=None):
        s = self.s
        single = r is not None
        if single:
            text = header(r, self.rnd)
        else:
            r = {"first": 0, "last": 0}
        q = s.http(self.uri, self.t, headers={"Range": text})
        cr = []
        m = re.match(r"^bytes (\d+)-(\d+)/(\d+)$", q.header("Content-Range") or "")
        if m:
            cr = [obs.clip(int(x)) for x in m.groups()]
        at = -1
        if len(cr) == 3 and cr[0] <= cr[1] and self.full.body[cr[0]:cr[1] + 1] == q.body:
            at = cr[0]
        cl = q.header("Content-Length") or ""
        L = len(self.full.body)
        s.add({"k": "range", "t": list(self.t), "rng": {"single": bool(single and not self.chunked), "first": obs.clip(r["first"]), "last": obs.clip(r["last"])},
               "full": L, "fullst": self.full.status, "whole": q.body == self.full.body, "cr": cr, "at": at, "len": len(q.body),
               "clen": int(cl) if cl.isdigit() else -1, "raw": text}, self.uri, q, self.ext, self.chunked)
        return q

    def cover(self, parts):
        ok = b"".join(parts) == self.full.body
        self.s.add({"k": "cover", "t": list(self.t), "joined": ok}, self.uri, self.full, self.ext, self.chunked)


# -- session limits --
class Limited(object):
    "requests to a server with a session limit; every request is compared with the same one without session and limit"
    def __init__(self, s, limit, rnd):
        self.s, self.limit, self.rnd = s, limit, rnd
        self.sids = set()
        self.m = driver.module()

    def get(self, uri, t, limit, query_env=None):
        old = self.m.MAX_SESSION_LENGTH
        self.m.MAX_SESSION_LENGTH = limit
        try:
            return self.s.http(uri, t, query_env=query_env)
        finally:
            self.m.MAX_SESSION_LENGTH = old

    def ask(self, uri, ext, t, sts=NONE, sid=None, query="", query_env=None, follow=None):
        """uri: the plain URL. The session parts come right after the prefix (as in a redirect) or anywhere among the options.
        follow: the URL of a redirect to request instead."""
        s, rnd = self.s, self.rnd
        parts = uri.split("/")
        mine = ["sts_%d" % sts] if sts != NONE else []
        if sid is not None and (mine or self.limit == 0):
            mine.append("sid_" + sid)
        at = 2 + (rnd.randrange(0, max(parts.index(s.c.name) - 2, 0) + 1) if follow is None and s.c.name in parts else 0)
        if rnd.random() < .3:
            mine.reverse()
        full = "/".join(parts[:at] + mine + parts[at:]) + query if follow is None else follow
        plain = self.get(uri + query, t, 0, query_env)
        r = self.get(full, t, self.limit, query_env)
        nd = lambda x: (obs.mpd_record(x.body).get("ndig", obs.dig(x.body)) if ext == ".mpd" and x.status == 200 else obs.dig(x.body))
        same = r.status == plain.status and (nd(r) == nd(plain) or r.status == 404)
        target, want, sidok = [], [], False
        if r.status == 302:
            loc = r.header("Location") or ""
            target = loc.split("/")
            want = [("https:" if s.https else "http:"), "", s.host] + parts[1:2] + ["sts_%d" % t[0], "SID"] + parts[2:]
            q = query or ("?" + query_env if query_env else "")
            want = ("/".join(want) + q).split("/")
            if len(target) > 5:
                m = re.match(r"^sid_([0-9a-f]{8})$", target[5])
                sidok = bool(m) and target[5] not in self.sids
                self.sids.add(target[5])
                target[5] = "SID"
        s.add({"k": "limit", "t": list(t), "max": self.limit, "sts": sts, "ismpd": ext == ".mpd", "plainst": plain.status, "samebody": same,
               "target": target, "want": want, "sidok": sidok}, full, r, ext, self.chunked(plain, ext))
        return r

    def chunked(self, r, ext):
        return ext == ".m4s" and r.status == 200 and r.header("Content-Length") is None


# -- requests in flight, fresh processes --
import socket, struct, json, threading, time as _time   # noqa


class Flight(object):
    "one request with a clock of its own, delivered piece by piece"
    def __init__(self, server, uri, t, headers=None, host="sim.example", https=False, limit=0):
        self.m = driver.module()
        self.limit = limit
        self.now = float(t)
        self.t0 = float(t)
        self.status, self.line, self.headers, self.starts, self.chunks, self.exc = 0, "", [], 0, [], None
        self.done = False
        self.env = server.env(uri, headers, host, https, None)
        self.gen = None

    def start_response(self, line, hdrs, exc_info=None):
        self.starts += 1
        self.line, self.headers = line, list(hdrs)
        return lambda d: None

    def step(self):
        "until the next piece is delivered"
        old = self.m.MAX_SESSION_LENGTH
        self.m.MAX_SESSION_LENGTH = self.limit
        driver.CLK.now, driver.CLK.active = self.now, True
        try:
            with driver.quiet():
                if self.gen is None:
                    self.gen = iter(self.m.application(self.env, self.start_response))
                part = next(self.gen)
            self.chunks.append((bytes(part), driver.CLK.now))
        except StopIteration:
            self.done = True
        except Exception as e:
            self.exc, self.done = repr(e), True
        finally:
            self.now = driver.CLK.now
            driver.CLK.active = False
            self.m.MAX_SESSION_LENGTH = old
        return self

    def abort(self):
        self.done = True
        with driver.quiet():
            try:
                self.gen.close()
            except Exception as e:
                self.exc = repr(e)

    def run(self):
        while not self.done and len(self.chunks) < 1000:
            self.step()
        return self

    def digest(self):
        "everything a client sees (the random session id of redirects apart)"
        hs = sorted([a.lower(), re.sub(r"/sid_[0-9a-f]{8}/", "/sid_@/", b)] for a, b in self.headers)
        return obs.dig(json.dumps([self.line, hs, self.starts, self.exc, [[obs.dig(b), round(x - self.t0, 3)] for b, x in self.chunks]]))

    def reply(self):
        r = driver.Reply()
        r.line, r.headers, r.chunks, r.exc, r.starts, r.opens, r.final = self.line, self.headers, self.chunks, self.exc, self.starts, None, self.now
        r.body = b"".join(b for b, _ in self.chunks)
        try:
            r.status = int(self.line.split(" ")[0]) if self.starts == 1 and not self.exc else -2
        except ValueError:
            r.status = -3
        return r


class Zygote(object):
    """A process that has imported the application and served nothing. Every request sent to it is answered by a new child."""
    def __init__(self, path):
        driver.module()
        self.path = path
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(path)
        srv.listen(64)
        self.pid = os.fork()
        if self.pid == 0:
            import signal
            signal.signal(signal.SIGCHLD, signal.SIG_IGN)
            signal.alarm(880)
            while True:
                conn, _ = srv.accept()
                if os.fork() == 0:
                    try:
                        srv.close()
                        self.serve(conn)
                    finally:
                        os._exit(0)
                conn.close()
        srv.close()

    @staticmethod
    def serve(conn):
        f = conn.makefile("rwb")
        q = json.loads(f.readline().decode())
        fl = Flight(driver.Server(q["conf"], q["root"]), q["uri"], q["t"], q["headers"], q["host"], q["https"], q["limit"]).run()
        f.write((fl.digest() + "\n").encode())
        f.flush()

    def ask(self, server, uri, t, headers=None, host="sim.example", https=False, limit=0):
        c = socket.socket(socket.AF_UNIX)
        c.settimeout(60)
        c.connect(self.path)
        f = c.makefile("rwb")
        f.write((json.dumps(dict(conf=server.confdir, root=server.root, uri=uri, t=t, headers=headers, host=host, https=https, limit=limit)) + "\n").encode())
        f.flush()
        d = f.readline().decode().strip()
        c.close()
        return d or "no reply"

    def close(self):
        import signal
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except Exception:
            pass


def threads(flights, switch=1e-5):
    "serve several requests at the same simulated instant in real threads (none of them has to wait)"
    import sys
    m = driver.module()
    old = sys.getswitchinterval()
    go = threading.Barrier(len(flights))
    def one(fl):
        go.wait()
        try:
            for part in m.application(fl.env, fl.start_response):
                fl.chunks.append((bytes(part), fl.t0))
        except Exception as e:
            fl.exc = repr(e)
        fl.done = True
    driver.CLK.now, driver.CLK.active = flights[0].t0, True
    sys.setswitchinterval(switch)
    try:
        with driver.quiet():
            ts = [threading.Thread(target=one, args=(fl,)) for fl in flights]
            [x.start() for x in ts]
            [x.join(30) for x in ts]
    finally:
        sys.setswitchinterval(old)
        driver.CLK.active = False


# -- requests of which only the HTTP level is judged --
#: what libraries may read for themselves
HARMLESS = ["/usr", "/lib", "/dev", "/etc/mime.types", "/etc/localtime", "/etc/timezone", "/etc/apache2/mime.types", "/proc/self/fd"]


def raw(s, uri, t, must404=False, opts=(), ismpd=False, nested=NONE, wanttype="", headers=None, secret=b"", roots=None, k="raw", rel=(), mayhang=False):
    """opts: path parts as [key, cls, val, c] of spec/Options.tla. secret: bytes that no reply may carry.
    roots: folders; opening anything else (apart from the interpreter's own files) is recorded."""
    r = s.http(uri, t, headers=headers, watch=roots is not None)
    ext = os.path.splitext(uri.split("?")[0].split("#")[0])[1]
    chunked = r.status == 200 and r.header("Content-Length") is None and "chunkdur" in uri
    out = []
    for p, mode in (r.opens or []):
        q = os.path.realpath(p)
        if roots and not any(q == x or q.startswith(x + "/") for x in list(roots) + HARMLESS):
            out.append(q)
    s.add({"k": "raw", "t": list(t), "must404": must404, "blen": len(r.body.strip()), "ctype": r.header("Content-Type") or "", "wanttype": wanttype,
           "outside": sorted(set(out))[:3], "secret": bool(secret and secret in r.body), "nested": nested,
           "opts": [{"key": x[0], "cls": x[1], "val": x[2], "c": x[3] if len(x) > 3 else ""} for x in opts], "ismpd": ismpd}, uri, r, "", chunked)
    return r


# -- the stand-alone server --
class Local(object):
    "the repository's own HTTP server as a process, its clock stopped at t"
    def __init__(self, lab, t):
        import socket, subprocess, sys
        for attempt in range(5):
            with socket.socket() as k:
                k.bind(("127.0.0.1", 0))
                self.port = k.getsockname()[1]
            self.p = subprocess.Popen([sys.executable, "-B", os.path.join(os.path.dirname(os.path.abspath(__file__)), "localserver.py"), repr(t[0] + t[1] / 1000.0), "-d", lab.server.confdir,
                                       "-c", lab.server.root, "--host", "127.0.0.1", "--port", str(self.port)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                      env=dict(os.environ, VERIF_REPO=driver.REPO, PYTHONDONTWRITEBYTECODE="1"))
            for _ in range(300):
                driver.REAL_SLEEP(.1)
                if self.p.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), 1).close()
                    return
                except OSError:
                    pass
            self.close()
        raise RuntimeError("the stand-alone server does not start")

    def get(self, uri, host):
        "what arrives at the client, without the headers that the HTTP server adds"
        import socket
        r = driver.Reply()
        r.status, r.line, r.headers, r.body, r.chunks, r.exc, r.starts, r.opens, r.final = -3, "", [], b"", [], None, 1, None, 0
        data = b""
        try:
            with socket.create_connection(("127.0.0.1", self.port), 20) as k:
                k.sendall(("GET %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n" % (uri, host)).encode("latin-1"))
                while True:
                    d = k.recv(65536)
                    if not d:
                        break
                    data += d
        except OSError as e:
            r.exc = repr(e)
            return r
        head, sep, body = data.partition(b"\r\n\r\n")
        lines = head.decode("latin-1").split("\r\n")
        m = re.match(r"HTTP/1\.[01] (\d\d\d .*)$", lines[0])
        if not sep or not m:
            return r
        r.line, r.status = m.group(1), int(m.group(1)[:3])
        r.headers = [tuple(x.split(": ", 1)) for x in lines[1:] if ": " in x and not re.match(r"(?i)(date|server|connection):", x)]
        r.body, r.chunks = body, [(body, 0)]
        return r

    def close(self):
        self.p.kill()
        self.p.wait()
