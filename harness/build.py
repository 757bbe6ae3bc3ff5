"""Builds aardwarc out of /repo's current working tree, in a directory of the caller's."""
import os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
COMPAT = "/opt/vp/compat/freebsd.h"
CFLAGS = ["-O1", "-g", "-std=gnu99", "-w", "-include", COMPAT, "-DLIBBSD_NETBSD_VIS",
          "-isystem", "/usr/include/x86_64-linux-gnu/bsd", "-DLIBBSD_OVERLAY",
          '-DGITREV="verif"']
LIBS = ["-Wl,--no-as-needed", "-lbsd", "-lmd", "-lm", "-lz"]


class BuildError(Exception):
    pass


def sources():
    """The program's sources, by its own Makefile (a refactoring may add one)."""
    srcs = []
    try:
        for l in open(os.path.join(REPO, "Makefile")):
            m = re.match(r"SRCS\s*\+?=\s*(.*)$", l)
            if m:
                srcs += m.group(1).split()
    except OSError:
        pass
    if not srcs:
        srcs = sorted(f for f in os.listdir(REPO) if f.endswith(".c"))
    return srcs


def build(outdir, name="aardwarc", extra=()):
    obj = os.path.join(outdir, name + ".o.d")
    os.makedirs(obj, exist_ok=True)

    def cc(src):
        o = os.path.join(obj, src.replace("/", "_") + ".o")
        r = subprocess.run(["gcc"] + CFLAGS + list(extra) +
                           ["-I", REPO, "-c", os.path.join(REPO, src), "-o", o],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError("%s: %s" % (src, r.stderr))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, sources()))
    out = os.path.join(outdir, name)
    r = subprocess.run(["gcc"] + list(extra) + objs + ["-o", out] + LIBS,
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr)
    subprocess.run(["rm", "-rf", obj])
    return out


TOOLS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools")


def tools(outdir):
    """The helpers in ../tools"""
    d = os.path.join(outdir, "tools")
    os.makedirs(d, exist_ok=True)
    for f in sorted(os.listdir(TOOLS)) if os.path.isdir(TOOLS) else ():
        if f.endswith(".c"):
            r = subprocess.run(["gcc", "-O1", "-g", "-Wall", os.path.join(TOOLS, f), "-o", os.path.join(d, f[:-2])],
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr)
    return d


if __name__ == "__main__":
    print(build(sys.argv[1]))
