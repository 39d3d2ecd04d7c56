"""Running TLC."""
import os, re, subprocess, tempfile, shutil, json, time

JAR = "/opt/veriftools/tla/tla2tools.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TLCError(Exception):
    pass


def classpath():
    cp = [JAR]
    d = os.path.dirname(JAR)
    for x in sorted(os.listdir(d)):
        if x.endswith(".jar") and "ommunity" in x:
            cp.append(os.path.join(d, x))
    return ":".join(cp)


def run(module, cfg, env=None, workers=8, args=(), timeout=600, heap="6g", cwd=None):
    "Returns (exit code, output). The metadir lives in a scratch folder that is removed."
    meta = tempfile.mkdtemp(prefix="tlc-")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", classpath(), "-DTLA-Library=" + SPEC, "tlc2.TLC", "-metadir", meta,
           "-noGenerateSpecTE", "-workers", str(workers), "-config", os.path.join(SPEC, cfg)] + list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        raise TLCError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def states(out):
    "(generated, distinct)"
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        m2 = re.findall(r"The number of states generated: ([\d,]+)", out)
        return (int(m2[-1].replace(",", "")),) * 2 if m2 else (0, 0)
    return tuple(int(x.replace(",", "")) for x in m[-1])
