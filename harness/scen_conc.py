"""Commands interrupted, interleaved and failing at every system call"""
import json, os, random, re, shutil, struct
import content
from jobs import family
from aw import *
from scen import conf, rhex, seglens
from spy import Proc, clone

EIO, ENOSPC, EMFILE, EACCES, ENOMEM, EPERM = 5, 28, 24, 13, 12, 1


# ---------------------------------------------------------------------------------------
# What the commands are about

def objof(data, a, kind="resource", ref=None, mime=None, forced=None):
    """What an object will be, once stored"""
    dig = sha(data)
    rawref = "<" + PREFIX + ref + ">" if ref else ""
    i = dig if kind == "resource" else sha((rawref + "\n" + dig + "\n").encode())
    return dict(id=forced or i[:a.idbits // 4], kind=kind, dig=dig, len=clip(len(data)),
                mime=mime or ("text/plain" if kind == "metadata" else "application/octet-stream"), ref=ref or "")


class Cmd:
    """A command for an archive: what to run, and which objects it will have stored if it succeeds"""

    def __init__(self, kind, args, objs=(), stdin=None, env=None, want=None):
        self.kind, self.args, self.objs, self.stdin, self.env, self.want = kind, args, list(objs), stdin, env, want

    def start(self, a):
        return Proc(a, self.args, stdin=self.stdin, env=self.env)


_n = [0]


def infile(ctx, data):
    _n[0] += 1
    fn = os.path.join(ctx.top, "in%d" % _n[0])
    with open(fn, "wb") as f:
        f.write(data)
    return fn


def store_cmd(ctx, a, data, kind="resource", ref=None, how="file"):
    o = objof(data, a, kind, ref)
    args = ["store"] + (["-t", "metadata", "-m", "text/plain", "-r", ref] if kind == "metadata" else [])
    fn = infile(ctx, data)
    if how == "file":
        return Cmd("store", args + [fn], [o])
    return Cmd("store", args, [o], stdin=fn)


def frame(cmd, data=b""):
    n = len(data)
    h = bytes([cmd]) if n == 0 else bytes([1 << 6 | cmd]) if n == 32 else \
        bytes([2 << 6 | cmd, n]) if n < 256 else bytes([3 << 6 | cmd]) + struct.pack(">I", n)
    return h + data


def stevedore_cmd(ctx, a, datas, chunk=5000):
    """data: each one object"""
    out = b""
    for d in datas:
        for k in range(0, len(d), chunk):
            out += frame(2, d[k:k + chunk])
        out += frame(2)
    return Cmd("stevedore", ["stevedore"], [objof(d, a) for d in datas], stdin=infile(ctx, out))


# ---------------------------------------------------------------------------------------

def observe_all(a, pend=(), modes=("",)):
    """What a reader gets, of everything"""
    res = []
    for i in list(a.known) + [o["id"] for o in pend if o["id"] not in a.known]:
        for m in modes:
            r = a.fetch(i, m)
            res.append({k: r[k] for k in ("id", "mode", "rc", "dig", "len")})
    return res


def begin(a, cmds, prop):
    objs = {}
    for c in cmds:
        for o in c.objs:
            objs[o["id"]] = o
    a.log("begin", 0, props=prop, pend=[dict(o) for o in objs.values()], cmds=[c.kind for c in cmds])
    return list(objs.values())


def recover(a, top, cmds, pend, rng, how=0):
    """A copy of the archive after everybody was killed: clean up and carry on.  -> list of events"""
    b = clone(a, top)
    try:
        for f in b.scan():
            if f.endswith(".hold"):
                os.unlink(b.dir + f)
        b.log("x-found", 0, index=True, res=observe_all(b, pend))
        acts = [["store", "reindex"], ["reindex", "store"], ["store", "housekeep", "reindex"], ["housekeep", "store", "reindex"]][how % 4]
        for act in acts:
            if act == "store":
                for c in cmds:
                    if c.kind == "store":
                        rc, out, err = b.run(*c.args, stdin_file=open(c.stdin, "rb") if c.stdin else None)
                        b.log("x-store", rc, id=unid(out), want=c.objs[0]["id"])
                        if rc == 0 and c.objs[0]["id"] not in b.known:
                            b.known.append(c.objs[0]["id"])
                    elif c.kind == "stevedore":
                        rc, out, err = b.run(*c.args, stdin_file=open(c.stdin, "rb"))
                        b.log("x-stevedore", rc, want=[o["id"] for o in c.objs])
                        if rc == 0:
                            b.known += [o["id"] for o in c.objs if o["id"] not in b.known]
            elif act == "reindex":
                rc, out, err = b.run("reindex")
                b.log("x-reindex", rc)
            elif act == "housekeep":
                rc, out, err = b.run("housekeeping")
                b.log("x-housekeep", rc)
        b.log("x-end", 0, res=observe_all(b, pend))
        a.ncmd += b.ncmd
        return b.events
    finally:
        shutil.rmtree(top)


def finish(a, procs, cmds):
    for p, c in zip(procs, cmds):
        end(a, p, c)


def end(a, p, c):
    ok = p.rc == 0
    a.log("end", p.rc, kind=c.kind, id=unid(p.out) if c.kind == "store" else "",
          ids=[o["id"] for o in c.objs], good=c.want is None or (ok and c.want(p)))
    if ok:
        a.known += [o["id"] for o in c.objs if o["id"] not in a.known]


# ---------------------------------------------------------------------------------------
# Situations: (archive made ready, commands)

SITUATIONS = {}


def situation(f):
    SITUATIONS[f.__name__[4:]] = f
    return f


def base(ctx, n=3, M=15360, **kw):
    rng = ctx.rng
    c = conf(rng, **dict(dict(base="%08u.warc.gz", maxsize=M, idbits=rng.choice((64, 96, 128, 256))), **kw))
    a = ctx.archive(**c)
    for k in range(n):
        i = a.store(rng.randbytes(rng.choice((5, 100, 900))), how="file")
        if k == 1:
            a.housekeep()
        if k == 2:
            a.store(b"about\n", kind="metadata", ref=i)
    return a


@situation
def sit_first(ctx):
    a = base(ctx, 0)
    a.info()
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(50))]


@situation
def sit_small(ctx):
    a = base(ctx)
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(200), how=ctx.rng.choice(("file", "stdin")))]


@situation
def sit_meta(ctx):
    a = base(ctx)
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(200), "metadata", a.known[0])]


@situation
def sit_fresh(ctx):
    """needs a silo of its own"""
    a = base(ctx, M=8192)
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(6500))]


@situation
def sit_seg(ctx):
    a = base(ctx, ctx.rng.choice((0, 3)), M=4096)
    if not a.events:
        a.info()
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(ctx.rng.choice((5000, 9500))))]


@situation
def sit_segsame(ctx):
    """with segments which are objects, or segments of others, already"""
    a = base(ctx, 1, M=4096)
    L1, L2 = seglens(ctx, 4096, a.idbits)
    P, X = ctx.rng.randbytes(L2), ctx.rng.randbytes(L1)
    a.store(P, how="file")
    a.store(X + P, how="file")
    return a, [store_cmd(ctx, a, X + P + P)]


@situation
def sit_again(ctx):
    a = base(ctx)
    d = ctx.rng.randbytes(70)
    a.store(d)
    return a, [store_cmd(ctx, a, d)]


@situation
def sit_protected(ctx):
    a = base(ctx)
    a.protect(0)
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(70))]


def filled(ctx, n):
    rng = ctx.rng
    a = base(ctx, 2, M=65536, sort=rng.choice((4096, 65536)))
    for k in range(n):
        a.store(rng.randbytes(20), kind="metadata", ref=a.known[0], forced=rhex(rng, a.idbits // 4))
    return a


@situation
def sit_housekeep(ctx):
    a = filled(ctx, ctx.rng.choice((1, 5)))
    return a, [Cmd("housekeep", ["housekeeping"])]


@situation
def sit_housekeepbig(ctx):
    a = filled(ctx, 12)
    a.housekeep()
    for k in range(5):
        a.store(ctx.rng.randbytes(20))
    return a, [Cmd("housekeep", ["housekeeping"])]


@situation
def sit_rehousekeep(ctx):
    """resuming after an interrupted one"""
    a = filled(ctx, 3)
    os.rename(a.dir + "index.appendix", a.dir + "index.housekeep")
    a.env_event("interrupted")
    a.store(b"after\n")
    return a, [Cmd("housekeep", ["housekeeping"])]


@situation
def sit_reindex(ctx):
    a = base(ctx, 2, M=4096)
    a.store(ctx.rng.randbytes(8000), how="file")
    a.store(b"more\n")
    a.loseindex(ctx.rng.choice(("all", "appendix", "truncate")), 3)
    return a, [Cmd("reindex", ["reindex"])]


@situation
def sit_mksilo(ctx):
    a = base(ctx)
    return a, [Cmd("mksilo", ["mksilo", "3"])]


def gets(a, i, dig, mode=()):
    def want(p):
        return sha(p.out) == dig
    return Cmd("get", ["get", "-q"] + list(mode) + [i], want=want)


# ---------------------------------------------------------------------------------------

@family
def fam_crash(ctx):
    """One command killed at every system call it makes"""
    rng = ctx.rng
    a, cmds = SITUATIONS[ctx.p["sit"]](ctx)
    lost = any(e["op"] == "env" and e["what"] == "loseindex" for e in a.events)
    pend = begin(a, cmds, ["C11"])
    p = cmds[0].start(a)
    k = 0
    stride = ctx.p.get("stride", 1)
    while p.rc is None:
        m = p.mutating()
        p.go()
        if m and p.rc is None:
            k += 1
            a.log("step", 0, res=observe_all(a, pend), sys=p.last[0] + " " + p.last[3], lost=lost, single=True)
            if k % stride == rng.randrange(stride):
                evs = recover(a, os.path.join(ctx.top, "x%d" % k), cmds, pend, rng, rng.randrange(4))
                a.log("crash", 0, sub=evs, sys=p.last[0] + " " + p.last[3])
    end(a, p, cmds[0])
    if cmds[0].kind == "reindex":
        lost = False
    a.log("done", 0, res=observe_all(a, pend), lost=lost)


@family
def fam_kill(ctx):
    """Really killed, several times in a row, sometimes without anybody cleaning up but at the end"""
    rng = ctx.rng
    a, cmds = SITUATIONS[ctx.p["sit"]](ctx)
    lost = any(e["op"] == "env" and e["what"] == "loseindex" for e in a.events)
    pend = begin(a, cmds, ["C11"])
    for rnd in range(ctx.p.get("rounds", 4)):
        p = cmds[0].start(a)
        n = rng.randrange(1, 90)
        while p.rc is None and n:
            p.go()
            n -= 1
        if p.rc is None:
            p.kill()
        else:
            break
        a.log("step", 0, res=observe_all(a, pend), sys="killed", lost=lost, single=False)
        evs = recover(a, os.path.join(ctx.top, "x%d" % rnd), cmds, pend, rng, rng.randrange(4))
        a.log("crash", 0, sub=evs, sys="kill")
        if rng.random() < 0.6:
            for f in a.scan():
                if f.endswith(".hold"):
                    os.unlink(a.dir + f)
            a.env_event("unhold")


# ---------------------------------------------------------------------------------------
# Two at a time

PAIRS = {}


def pair(f):
    PAIRS[f.__name__[5:]] = f
    return f


@pair
def pair_small(ctx):
    a = base(ctx)
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(n)) for n in (100, 333)]


@pair
def pair_first(ctx):
    a = base(ctx, 0)
    a.info()
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(n)) for n in (100, 333)]


@pair
def pair_tight(ctx):
    """both need what only one of them will find in the last silo"""
    a = base(ctx, 1, M=4096)
    n = 4096 - len(a.silos[0][0]) - 700
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(n)) for _ in (0, 1)]


@pair
def pair_seg(ctx):
    a = base(ctx, 1, M=4096)
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(n)) for n in (7000, 6000)]


@pair
def pair_segsmall(ctx):
    a = base(ctx, 1, M=4096)
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(7000)), store_cmd(ctx, a, b"small\n")]


@pair
def pair_shared(ctx):
    """different objects with a segment in common"""
    a = base(ctx, 1, M=4096)
    L1, L2 = seglens(ctx, 4096, a.idbits)
    P = ctx.rng.randbytes(L2)
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(L1) + P), store_cmd(ctx, a, ctx.rng.randbytes(L1) + P)]


@pair
def pair_same(ctx):
    a = base(ctx)
    d = ctx.rng.randbytes(99)
    return a, [store_cmd(ctx, a, d), store_cmd(ctx, a, d)]


@pair
def pair_storehk(ctx):
    a = filled(ctx, 4)
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(99)), Cmd("housekeep", ["housekeeping"])]


@pair
def pair_seghk(ctx):
    a = base(ctx, 2, M=4096)
    for k in range(4):
        a.store(ctx.rng.randbytes(9))
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(6000)), Cmd("housekeep", ["housekeeping"])]


@pair
def pair_hkhk(ctx):
    a = filled(ctx, 4)
    return a, [Cmd("housekeep", ["housekeeping"]), Cmd("housekeep", ["housekeeping"])]


@pair
def pair_gethk(ctx):
    a = filled(ctx, 4)
    i = ctx.rng.choice(a.known)
    dig = [r for r in a.getall(ids=[i])["res"]][0]["dig"]
    return a, [gets(a, i, dig), Cmd("housekeep", ["housekeeping"])]


@pair
def pair_dumphk(ctx):
    a = filled(ctx, 3)
    have = set(a.idx)

    def want(p):
        return set(parse_index(p.out)) == have
    return a, [Cmd("dumpindex", ["dumpindex"], want=want), Cmd("housekeep", ["housekeeping"])]


@pair
def pair_findhk(ctx):
    """byid while housekeeping"""
    a = filled(ctx, 3)
    a.housekeep()
    for k in range(3):
        a.store(b"%d" % k)
    i = ctx.rng.choice(a.known)

    def want(p):
        return ("id " + i + " ").encode() in p.out
    return a, [Cmd("byid", ["byid", "-e", i[:10]], want=want), Cmd("housekeep", ["housekeeping"])]


@pair
def pair_dumpstore(ctx):
    a = filled(ctx, 2)
    have = set(a.idx)
    c = store_cmd(ctx, a, ctx.rng.randbytes(30))

    def want(p):
        x = parse_index(p.out)
        return have <= set(x) and all(e[0].startswith(c.objs[0]["id"][:24]) for e in set(x) - have)
    return a, [Cmd("dumpindex", ["dumpindex"], want=want), c]


@pair
def pair_filterhk(ctx):
    a = filled(ctx, 3)
    ids = sorted(a.known)
    fn = infile(ctx, "".join(i + "\n" for i in ids).encode())

    def want(p):
        return p.out.decode().split() == ids
    return a, [Cmd("filter", ["filter", "-r", fn], want=want), Cmd("housekeep", ["housekeeping"])]


@pair
def pair_getstore(ctx):
    a = base(ctx, 2, M=4096)
    d = ctx.rng.randbytes(6000)
    i = a.store(d, how="file")
    return a, [gets(a, i, sha(d)), store_cmd(ctx, a, ctx.rng.randbytes(5000))]


@pair
def pair_auditstore(ctx):
    a = base(ctx, 3, M=4096)

    def want(p):
        return b"ERROR" not in p.out and b"Left on" not in p.out
    return a, [Cmd("audit", ["audit"], want=want), store_cmd(ctx, a, ctx.rng.randbytes(100))]


@pair
def pair_three(ctx):
    a = base(ctx, 2, M=4096)
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(300)), Cmd("housekeep", ["housekeeping"]),
               store_cmd(ctx, a, ctx.rng.randbytes(4500))]


@pair
def pair_threehk(ctx):
    a = filled(ctx, 3)
    return a, [store_cmd(ctx, a, ctx.rng.randbytes(300)), Cmd("housekeep", ["housekeeping"]),
               Cmd("housekeep", ["housekeeping"]), store_cmd(ctx, a, ctx.rng.randbytes(200))]


def interleave(a, cmds, schedule, look, pend):
    """Run the commands; schedule: [(which, how many system calls)], whatever is left then runs to its end in order"""
    ps = [None] * len(cmds)
    done = []

    def step(x, n):
        if ps[x] is None:
            ps[x] = cmds[x].start(a)
        if not isinstance(n, int):
            # (stop before it?, name, path, how many-th)
            before, name, path, nth = n
            while ps[x].rc is None:
                hit = ps[x].at[0] == name and where(ps[x].at[3]) == path
                nth -= hit
                if hit and nth <= 0 and before:
                    break
                ps[x].go()
                if hit and nth <= 0:
                    break
            n = 0
        while ps[x].rc is None and n:
            ps[x].go()
            n -= 1
        if ps[x].rc is not None and x not in done:
            done.append(x)
            end(a, ps[x], cmds[x])
            return True
        return False
    for x, n in schedule:
        step(x, n)
        if look:
            a.log("step", 0, res=observe_all(a, pend), sys=str(ps[x].last), lost=False, single=False)
    for x in range(len(cmds)):
        step(x, -1)
    return ps


def where(path):
    return re.sub(r"tmp\.\d+$", "tmp", path)


def races(ctx, a0, cmds, count):
    """Schedules where one stops short of touching a file, another touches the same, and then the first goes on"""
    touched = []
    for x, c in enumerate(cmds):
        a = clone(a0, os.path.join(ctx.top, "solo%d" % x))
        p = c.start(a)
        l, seen = [], {}
        while p.rc is None:
            k = (p.at[0], where(p.at[3]))
            seen[k] = seen.get(k, 0) + 1
            if k[1].startswith("@"):
                l.append((k[0], k[1], seen[k], p.mutating()))
            p.go()
        touched.append(l)
        shutil.rmtree(a.top)
    out = []
    for x, lx in enumerate(touched):
        for y, ly in enumerate(touched):
            if x != y:
                for n1, p1, k1, m1 in lx:
                    for n2, p2, k2, m2 in ly:
                        if p1 == p2 and (m1 or m2):
                            out.append([(x, (True, n1, p1, k1)), (y, (False, n2, p2, k2)), (x, -1), (y, -1)])
    ctx.rng.shuffle(out)
    # not the same few calls over and over
    use = {}
    out = [(use.setdefault(json.dumps([s[0][0], s[0][1][1:3], s[1][1][1:3]]), []), s) for s in out]
    for l, s in out:
        l.append(s)
    use = list(use.values())
    ctx.rng.shuffle(use)
    out = []
    while len(out) < count and any(use):
        for l in use:
            if l:
                out.append(l.pop())
    return out[:count]


@family
def fam_sched(ctx):
    """Commands interleaved according to given schedules, starting over from the same state each time"""
    a0, cmds = PAIRS[ctx.p["pair"]](ctx)
    pre = a0.events
    scheds = ctx.p.get("scheds")
    look = scheds is not None
    if scheds is None:
        scheds = races(ctx, a0, cmds, ctx.p["race"])
    for k, sc in enumerate(scheds):
        top = os.path.join(ctx.top, "s%d" % k)
        a = clone(a0, top)
        # the commands name files outside the archive, except for its configuration
        pend = begin(a, cmds, ["C12"])
        interleave(a, cmds, sc, look, pend)
        a.log("done", 0, res=observe_all(a, pend), lost=False)
        if k % 4 == 0:
            rc, out, err = a.run("housekeeping")
            a.log("housekeep", rc, pre=True, post=[])
        a.log("done", 0, res=observe_all(a, pend), lost=False)
        ctx.emit("ArchiveTrace", dict(a.trace("sched:%s:%s:%s" % (ctx.job["seed"], ctx.p["pair"], json.dumps(sc))),
                                      ev=pre + a.events))
        ctx.ncmd += a.ncmd
        shutil.rmtree(top)
    a0.events = []
