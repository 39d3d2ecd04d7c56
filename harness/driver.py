"""Drives the real WSGI application in-process with a simulated clock."""
import sys, os, time as _time, signal, io, contextlib, datetime as _dt

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
REAL_TIME = _time.time
REAL_SLEEP = _time.sleep


class Clock(object):
    now = 0.0
    active = False
    slept = 0.0
CLK = Clock()


def _fake_time():
    return CLK.now if CLK.active else REAL_TIME()


def _fake_sleep(x):
    if CLK.active:
        if x > 0:
            CLK.now += x
            CLK.slept += x
    else:
        REAL_SLEEP(x)


_real_gmtime, _real_strftime, _real_localtime = _time.gmtime, _time.strftime, _time.localtime
def _gmtime(*a):
    if not a or a[0] is None:
        a = (_fake_time(),)
    return _real_gmtime(*a)
def _localtime(*a):
    if not a or a[0] is None:
        a = (_fake_time(),)
    return _real_localtime(*a)
def _strftime(fmt, *a):
    if not a:
        a = (_localtime(),)
    return _real_strftime(fmt, *a)


class _FakeDateTime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(_fake_time(), tz)
    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(_fake_time())
    @classmethod
    def today(cls):
        return cls.fromtimestamp(_fake_time())


def install():
    _time.time = _fake_time
    _time.time_ns = lambda: int(_fake_time() * 10**9)
    _time.sleep = _fake_sleep
    _time.gmtime, _time.strftime, _time.localtime = _gmtime, _strftime, _localtime
    _dt.datetime = _FakeDateTime
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


class Hang(BaseException):
    pass


def _on_alarm(_s, _f):
    raise Hang()


class Reply(object):
    __slots__ = ("status", "line", "headers", "body", "chunks", "exc", "starts", "final", "opens")

    def header(self, name):
        v = [b for (a, b) in self.headers if a.lower() == name.lower()]
        return v[0] if v else None


_mod = None
_out = io.StringIO()


def module():
    global _mod
    if _mod is None:
        install()
        with quiet():
            import dashlivesim.mod_wsgi.mod_dashlivesim as m
        _mod = m
    return _mod


@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = so, se


OPENS = None
_hook_installed = False


def watch_opens():
    "Record every path opened while a request is being served."
    global _hook_installed
    if not _hook_installed:
        def hook(ev, args):
            if ev == "open" and OPENS is not None:
                try:
                    OPENS.append((os.fspath(args[0]) if not isinstance(args[0], int) else "", str(args[1])))
                except Exception:
                    OPENS.append((str(args[0]), ""))
        sys.addaudithook(hook)
        _hook_installed = True


class Server(object):
    def __init__(self, confdir, root, timeout=10):
        self.confdir, self.root, self.timeout = confdir, root, timeout

    def env(self, uri, headers, host, https, query_env):
        e = {"HTTP_HOST": host, "REQUEST_URI": uri, "VOD_CONF_DIR": self.confdir, "CONTENT_ROOT": self.root,
             "REQUEST_METHOD": "GET", "wsgi.url_scheme": "https" if https else "http"}
        if query_env is not None:
            e["QUERY_STRING"] = query_env
        for k, v in (headers or {}).items():
            e["HTTP_" + k.upper().replace("-", "_")] = v
        return e

    def get(self, uri, now, headers=None, host="sim.example", https=False, query_env=None, watch=False, max_chunks=100000):
        "now: float seconds. Returns Reply; status -1 on hang, -2 when the application raised."
        global OPENS
        m = module()
        r = Reply()
        r.status, r.line, r.headers, r.body, r.chunks, r.exc, r.starts, r.opens = 0, "", [], b"", [], None, 0, None
        def start_response(line, hdrs, exc_info=None):
            r.starts += 1
            r.line, r.headers = line, list(hdrs)
            return lambda d: None
        env = self.env(uri, headers, host, https, query_env)
        # processor time, so that a loaded machine makes no request hang; real time for one that waits for something
        old = [(s, signal.signal(s, _on_alarm)) for s in (signal.SIGPROF, signal.SIGALRM)]
        signal.setitimer(signal.ITIMER_PROF, self.timeout)
        signal.setitimer(signal.ITIMER_REAL, 6 * self.timeout)
        CLK.now, CLK.active, CLK.slept = float(now), True, 0.0
        if watch:
            watch_opens()
            OPENS = []
        try:
            with quiet():
                try:
                    for part in m.application(env, start_response):
                        r.chunks.append((bytes(part) if isinstance(part, (bytes, bytearray)) else part, CLK.now))
                        if len(r.chunks) > max_chunks:
                            raise Hang()
                except Hang:
                    r.status = -1
                except BaseException as e:   # the application must never raise
                    r.status, r.exc = -2, repr(e)
        except Hang:
            r.status = -1
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            for s, h in old:
                signal.signal(s, h)
            r.final = CLK.now
            CLK.active = False
            if watch:
                r.opens, OPENS = OPENS, None
        if r.status == 0:
            if r.starts == 1 and all(isinstance(c[0], bytes) for c in r.chunks):
                try:
                    r.status = int(r.line.split(" ")[0])
                except ValueError:
                    r.status = -3
                r.body = b"".join(c[0] for c in r.chunks)
            else:
                r.status = -3
        return r
