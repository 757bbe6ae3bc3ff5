"""Commands which have system calls fail under them"""
import json, os, random, shutil
from aw import *
from jobs import family
from scen import conf, seglens
from scen_conc import (SITUATIONS, Cmd, base, begin, clone, filled, frame, gets, infile, observe_all, objof, recover,
                       store_cmd, EIO, ENOSPC, EMFILE, EACCES, ENOMEM)
from spy import Proc

CASES = {}


def case(f):
    CASES[f.__name__[5:]] = f
    return f


for _n in ("first", "small", "meta", "fresh", "seg", "segsame", "again", "protected", "housekeep", "housekeepbig", "rehousekeep",
           "reindex", "mksilo"):
    CASES[_n] = SITUATIONS[_n]


def clean(a, *args, **kw):
    """What the command does when nothing fails"""
    rc, out, err = a.run(*args, **kw)
    return rc, out


def same(a, kind, args, stdin=None, env=None):
    """A command which only reads, and is to give what it always gives"""
    rc, out = clean(a, *args, stdin_file=open(stdin, "rb") if stdin else None, env=env)

    def want(p):
        return p.out == out and rc == 0
    return Cmd(kind, args, stdin=stdin, env=env, want=want)


def archive_with_seg(ctx):
    a = base(ctx, 3, M=4096)
    d = ctx.rng.randbytes(6000)
    return a, d, a.store(d, how="file")


@case
def case_stdin(ctx):
    """a long input by a pipe or file"""
    a = base(ctx, 2, M=65536)
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(40000), how="stdin")]


@case
def case_get(ctx):
    a, d, i = archive_with_seg(ctx)
    return a, [same(a, "get", ["get", ctx.rng.choice((i, a.known[0]))])]


@case
def case_getq(ctx):
    a, d, i = archive_with_seg(ctx)
    return a, [same(a, "get", ["get", "-q", i])]


@case
def case_getz(ctx):
    a, d, i = archive_with_seg(ctx)
    return a, [same(a, "get", ["get", "-z", ctx.rng.choice((i, a.known[0]))])]


@case
def case_geto(ctx):
    a, d, i = archive_with_seg(ctx)
    i = ctx.rng.choice((i, a.known[0]))
    out = clean(a, "get", i)[1]
    fn = os.path.join(ctx.top, "geto")

    def want(p):
        # it is a clone which has written into its own place
        f = os.path.join(p.a.dir, "geto")
        ok = os.path.exists(f) and open(f, "rb").read() == out
        return ok
    return a, [Cmd("get", ["get", "-o", "@geto", i], want=want)]


@case
def case_cgi(ctx):
    a, d, i = archive_with_seg(ctx)
    env = dict(GATEWAY_INTERFACE="CGI/1.1", REQUEST_METHOD="GET", PATH_INFO="/" + ctx.rng.choice((i, a.known[0])))
    if ctx.rng.random() < .5:
        env["HTTP_ACCEPT_ENCODING"] = "gzip"
    c = same(a, "cgi", ["cgi"], env=env)
    w = c.want
    c.want = lambda p: w(p) or (b"Status: " in p.out and not b"Status: 200" in p.out)
    return a, [c]


@case
def case_dumpindex(ctx):
    a = filled(ctx, 4)
    a.housekeep()
    a.store(b"more\n")
    return a, [same(a, "dumpindex", ["dumpindex"] + ctx.rng.choice(([], ["-t", "resource"], [a.known[0][:3]])))]


@case
def case_filter(ctx):
    a = filled(ctx, 4)
    a.housekeep()
    a.store(b"more\n")
    ids = a.known + [sha(b"%d" % k)[:a.idbits // 4] for k in range(4)]
    ctx.rng.shuffle(ids)
    fn = infile(ctx, "".join(i + "\n" for i in ids).encode())
    return a, [same(a, "filter", ["filter"] + ctx.rng.choice(([], ["-r"], ["-s"])), stdin=fn)]


@case
def case_audit(ctx):
    a, d, i = archive_with_seg(ctx)
    rc, out = clean(a, "audit", "-i", "ignore-metadata-record-id")
    total = sum(int(x) for x in re.findall(rb"^(\d+) good", out, re.M))

    def want(p):
        return b"ERROR" in p.out + p.err or b"Left on" in p.out or \
            sum(int(x) for x in re.findall(rb"^(\d+) good", p.out, re.M)) == total
    return a, [Cmd("audit", ["audit", "-i", "ignore-metadata-record-id"], want=want)]


@case
def case_rebuild(ctx):
    a, d, i = archive_with_seg(ctx)
    n = ctx.rng.choice(sorted(a.silos))
    recs = [(r["hd"], r["bd"]) for r in a.silos[n][2]]

    def want(p):
        f = p.a.path(n) + "_"
        if not os.path.exists(f):
            return False
        rs, end = records(open(f, "rb").read())
        return [(r["hd"], r["bd"]) for r in rs] == recs
    return a, [Cmd("rebuild", ["rebuild", "@@%d" % n], want=want)]


def unsure(calls, k):
    """The k'th system call closes a file of which it is not sure yet that what was written to it got there
    (except for the hints, which nobody needs)"""
    n, fd, ln, path = calls[k]
    if n != "close" or not path.startswith("@") or path.endswith("_.cache"):
        return False
    if path.endswith(" (deleted)"):
        # Does it have another name?
        path = path[:-10]
        if not any(c[0] == "link" and path in c[3].split(" ") for c in calls[:k]):
            return False
    for n, f, ln, p in reversed(calls[:k]):
        if f != fd or p != path:
            continue
        if n in ("write", "writev"):
            return True
        if n in ("fsync", "close"):
            return False
    return False


def faults(at, rng, unsure):
    """What can go wrong with this system call: answers for the spy, and whether it lasts"""
    n, fd, ln, path = at
    if n == "close":
        return ["f %d" % EIO] if unsure else []
    if n in ("read", "readv"):
        return ["f %d" % EIO] + \
            (["s %d" % rng.choice((1, max(1, ln // 2), 100)), "s %d then" % rng.choice((1, 100, max(1, ln // 2)))] if ln > 1 else [])
    if n in ("write", "writev"):
        r = ["f %d" % EIO, "F %d" % ENOSPC]
        if ln > 1:
            r.append("S %d" % rng.choice((1, ln // 2, ln - 1)))
            r.append("s %d" % rng.choice((1, ln // 2, ln - 1)))
        return r
    if n == "open":
        if ln & os.O_CREAT:
            return ["f %d" % EACCES, "F %d" % ENOSPC]
        return ["f %d" % EMFILE, "f %d" % EACCES]
    if n in ("link", "mkdir", "rename", "fallocate"):
        return ["F %d" % ENOSPC, "f %d" % EIO]
    if n in ("unlink", "chmod", "fsync", "fstat", "stat", "ftruncate"):
        return ["f %d" % EIO]
    if n == "mmap":
        return ["f %d" % ENOMEM]
    return []


def run_fault(b, c, k, how):
    """Run the command with its k'th system call failing.  Upper case: and no room on the disk from then on.
    Then: after a short read comes a failing one."""
    then = how.endswith(" then")
    how = how[:-5] if then else how
    args = [x if not x.startswith("@") else b.path(int(x[2:])) if x.startswith("@@") else os.path.join(b.dir, x[1:]) for x in c.args]
    p = Proc(b, args, stdin=c.stdin, env=dict(c.env or {}, SPY_CLOSE="1"), root=os.path.dirname(b.top))
    n = 0
    at = None
    full = False
    short = None
    while p.rc is None:
        if n == k:
            at = p.at
            p.go(how.lower())
            full = how[0].isupper()
            short = at[1] if how[0] == "s" and at[0] == "read" else None
            short = short if then else None
        elif short is not None and p.at[0] == "read" and p.at[1] == short:
            short = None
            p.go("f %d" % EIO)
        elif full and (p.at[0] in ("write", "writev", "link", "mkdir", "fallocate") and p.at[1] not in (1, 2) and
                       p.at[3].startswith("@") or p.at[0] == "open" and p.at[2] & os.O_CREAT):
            p.go("f %d" % ENOSPC)
        else:
            p.go()
        n += 1
        if n > 3000:
            p.giveup()
    return p, at


@family
def fam_fault(ctx):
    rng = ctx.rng
    a, cmds = CASES[ctx.p["case"]](ctx)
    c = cmds[0]
    lost = any(e["op"] == "env" and e["what"] == "loseindex" for e in a.events)
    pend = begin(a, cmds, ["C13"])
    # which system calls are there
    calls = []
    b = clone(a, os.path.join(ctx.top, "x"))
    args = [x if not x.startswith("@") else b.path(int(x[2:])) if x.startswith("@@") else os.path.join(b.dir, x[1:]) for x in c.args]
    p = Proc(b, args, stdin=c.stdin, env=dict(c.env or {}, SPY_CLOSE="1"), root=ctx.top)
    while p.rc is None:
        calls.append(p.at)
        p.go()
    shutil.rmtree(b.top)
    part, parts = ctx.p.get("part", (0, 1))
    z = 0
    for k, at in enumerate(calls):
        for how in faults(at, rng, unsure(calls, k)):
            z += 1
            if z % parts != part:
                continue
            top = os.path.join(ctx.top, "x%d.%d" % (k, z))
            b = clone(a, top)
            p, at2 = run_fault(b, c, k, how)
            good = True
            if p.rc == 0:
                good = c.want(p) if c.want else True
                if c.kind == "store":
                    good = unid(p.out) == c.objs[0]["id"]
            if c.kind == "rebuild":
                for f in b.scan():
                    if f.endswith("_"):
                        os.unlink(b.dir + f)
            if c.kind == "get":
                if os.path.exists(b.dir + "geto"):
                    os.unlink(b.dir + "geto")
            ids = [o["id"] for o in c.objs]
            b.log("fault", p.rc, kind=c.kind, good=good, ids=ids, res=observe_all(b, pend), lost=lost, how=how, unsure=bool(at2 and at2[0] == "close"),
                  sys="%s %d %s" % (at2[0], at2[1], at2[3].split("/")[-1]) if at2 else "")
            if p.rc == 0:
                b.known += [i for i in ids if i not in b.known]
            sub = b.events
            b.events = []
            if c.kind not in ("get", "cgi", "dumpindex", "filter", "audit"):
                sub = sub + recover(b, top + ".r", cmds, pend, rng, rng.randrange(4))
            a.ncmd += b.ncmd
            a.log("crash", 0, index=False, sub=sub, sys="%s: %s" % (how, sub[0]["sys"]))
            shutil.rmtree(top)
