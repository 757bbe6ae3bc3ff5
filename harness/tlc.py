"""Running TLC"""
import json, os, re, subprocess, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def classpath():
    d = os.path.dirname(JAR)
    return ":".join(sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar")))


def run(module, cfg=None, workdir=None, env=None, args=(), workers=8, heap="6g", timeout=840):
    """(return code, output).  The specification directory is copied nowhere; the states go to workdir."""
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", classpath(), "tlc2.TLC",
           "-metadir", os.path.join(workdir, "states-" + module), "-workers", str(workers), "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=workdir)
    return r.returncode, r.stdout


def stats(out):
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out.replace(",", "").replace("  ", " ")) or \
        re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out.replace(",", ""))
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def bads(out):
    """The BAD lines a trace specification prints, in order, once each"""
    seen, res = set(), []
    for m in re.finditer(r'^"BAD (.*)"$', out, re.M):
        j = m.group(1).replace('\\"', '"')
        if j not in seen:
            seen.add(j)
            res.append(json.loads(j))
    return res


def check_traces(module, traces, workdir, cfg=None, env=None, **kw):
    """Judge recorded traces; -> (list of verdict records, states generated, distinct states)"""
    fn = os.path.join(workdir, module + ".ndjson")
    with open(fn, "w") as f:
        for t in traces:
            f.write(json.dumps(t) + "\n")
    rc, out = run(module, cfg, workdir, dict(env or {}, TRACE=fn), **kw)
    b = bads(out)
    if rc != 0 or "Model checking completed. No error" not in out:
        raise TLCError("TLC rc %d on %s:\n%s" % (rc, module, out[-3000:]))
    g, d = stats(out)
    return b, g, d
