"""Scenarios over whole archives, judged by ArchiveTrace"""
import json, os, random, struct
import content
from jobs import family
from aw import *

BASES = ("%08u.warc.gz", "%08u.warc.gz", "silo-%u.warc.gz", "%u", "x%03uy.gz")
SIZES = (4096, 5000, 8192, 15360, 15360, 15360, 65536, 150000, 300000)
GETMODES = ("", "q", "n", "o", "z", "qz", "no", "cgi", "cgiz", "cgid")


def conf(rng, **kw):
    c = dict(idbits=rng.choice((64, 68, 92, 96, 100, 128, 128, 128, 160, 252, 256)),
             maxsize=rng.choice(SIZES), base=rng.choice(BASES),
             sort=rng.choice((4096, 4097, 4128, 5000, 65536, 1 << 20)))
    c.update(kw)
    return c


def rhex(rng, n):
    return "".join(rng.choice("0123456789abcdef") for _ in range(n))


def forcedid(rng, a, ks=()):
    """An ID for metadata, often nearly another one (index keys are 24 digits, continuations are found by 8)"""
    n = a.idbits // 4
    pool = list(a.known)
    if rng.random() < 0.5:
        pool += [x["id"] for s in a.silos.values() for x in s[2]]
    if not pool or not ks and rng.random() < 0.4:
        return rhex(rng, n)
    for _ in range(20):
        k = min(rng.choice(ks or (1, 7, 8, 9, 15, 16, 17, 23, 24, 25, n - 1)), n - 1)
        i = rng.choice(pool)[:k] + rhex(rng, n - k)
        if i not in a.known and not any(x["id"] == i for s in a.silos.values() for x in s[2]):
            return i
    return rhex(rng, n)


class World:
    """Random operations on one archive"""

    def __init__(self, ctx, maxsilo=70, **kw):
        self.forcep = 0.15
        self.rng = ctx.rng
        self.c = conf(ctx.rng, **kw)
        self.a = ctx.archive(**self.c)
        self.M = self.c["maxsize"]
        self.old = []           # (data, kind, ref)
        self.res = []           # ids of resources
        self.held = []
        self.lost = False
        self.maxsilo = maxsilo
        self.wide = False       # silo numbers beyond the first gap

    def room(self):
        return len(self.a.silos) < self.maxsilo

    def data(self, what=None):
        rng = self.rng
        n = content.size(rng, self.M, what if self.room() else rng.choice(("tiny", "small")))
        k = rng.choice(content.KINDS)
        if k == "zero" and what == "multi" and self.M <= 15360:
            n *= rng.choice((1, 10, 200))
        return content.make(rng, k, n)

    def store(self, data=None, what=None):
        rng, a = self.rng, self.a
        kind, ref = "resource", None
        if data is None:
            if self.old and rng.random() < 0.25:
                data, kind, ref = rng.choice(self.old)
                if rng.random() < 0.2:
                    kind, ref = "resource", None
            else:
                data = self.data(what)
        if ref is None and a.known and rng.random() < 0.25:
            kind, ref = "metadata", rng.choice(a.known)
        mime = rng.choice((None, "text/plain", "application/octet-stream" if kind == "resource" else "application/json"))
        how = rng.choice(("stdin", "file", "dash", "tfile", "chunks"))
        forced = None
        if kind == "metadata" and rng.random() < self.forcep and (data, kind, ref) not in self.old:
            forced = forcedid(rng, a)
        elif (data, kind, ref) not in self.old:
            self.old.append((data, kind, ref))
        if how == "tfile" and kind == "metadata":
            how = "file"
        ch = [rng.choice((1, 2, 17, 100, 1000, 4096, 30000)) for _ in range(40)]
        return a.store(data, kind=kind, mime=mime, ref=ref, forced=forced, how=how, chunks=ch,
                       refurl=rng.choice((0, 0, 1, 1, 2, 3, 4)), forcedurl=rng.random() < 0.5, upper=rng.random() < 0.3)

    def get(self, k=3, modes=None):
        rng, a = self.rng, self.a
        ids = rng.sample(a.known, min(k, len(a.known)))
        a.getall(modes or rng.sample(GETMODES, 3), ids=ids, spell=rng.choice((0, 0, 1, 2, 3)),
                 extra=[forcedid(rng, a, rng.choice(((), (23, 24, a.idbits // 4 - 1))))] if rng.random() < 0.4 else [])

    def prefixes(self, k=12):
        rng, a = self.rng, self.a
        ks = [e[0] for e in a.idx]
        out = [None, ""]
        for _ in range(k):
            if ks and rng.random() < 0.7:
                x = rng.choice(ks)[:a.idbits // 4]
                out.append(x[:rng.randrange(1, len(x) + 1)])
            else:
                out.append(rhex(rng, rng.randrange(1, 25)))
        if rng.random() < 0.3:
            out = [p and p.upper() for p in out]
        return out

    def ids(self, k=8):
        """Lines for filter"""
        rng, a = self.rng, self.a
        n = a.idbits // 4
        pool = []
        for _ in range(k):
            r = rng.random()
            if a.known and r < 0.45:
                i = rng.choice(a.known)
            elif a.known and r < 0.6:
                i = rng.choice(a.known)
                q = rng.randrange(n)
                i = i[:q] + rng.choice("0123456789abcdef") + i[q + 1:]
            elif a.silos and r < 0.75:
                # IDs of things which are not objects
                sl = rng.choice(sorted(a.silos))
                i = rng.choice(a.silos[sl][2])["id"]
            else:
                i = rhex(rng, n)
            pool.append(i)
        if pool and rng.random() < 0.5:
            pool += rng.sample(pool, len(pool) // 2)
        o = rng.random()
        if o < 0.3:
            pool.sort()
        elif o < 0.5:
            pool.sort(reverse=True)
        out = []
        for i in pool:
            s = i.upper() if rng.random() < 0.2 else i
            if rng.random() < 0.3:
                s = rng.choice((PREFIX, PREFIX, PREFIX.upper())) + s
            out.append((s, i))
        return out

    def step(self, w):
        rng, a = self.rng, self.a
        op = rng.choices(list(w), list(w.values()))[0]
        if self.lost and op not in ("reindex", "lose"):
            op = "reindex"
        if op == "store":
            self.store()
        elif op == "get":
            self.get()
        elif op == "housekeep":
            a.housekeep()
        elif op == "reindex":
            if rng.random() < 0.3:
                a.reindexsome(rng)
            a.reindex()
            self.lost = False
        elif op == "lookups":
            a.lookups(self.prefixes(), rng.sample(("", "resource", "metadata", "warcinfo"), 2))
        elif op == "byid":
            a.byid([p for p in self.prefixes(4) if p is not None], e=rng.random() < 0.3, url=rng.random() < 0.3)
        elif op == "filter":
            a.filter(self.ids(), rng.choice(((), ("r",), ("v",), ("s",), ("r", "s"), ("v", "s"), ("r", "v"))),
                     rng.choice(("stdin", "file", "two", "out")))
        elif op == "mksilo":
            a.mksilo(rng.choice((rng.randrange(0, 60), len(a.silos), max(a.silos, default=0))))
        elif op == "audit":
            a.audit()
        elif op == "auditone" and a.silos:
            ns = sorted(a.silos)
            a.audit(*rng.sample(ns, min(len(ns), rng.randrange(1, 4))))
        elif op == "rebuild" and a.silos:
            a.rebuild(rng.choice(sorted(a.silos)))
        elif op == "info":
            a.info()
        elif op == "reject":
            a.reject(rng)
        elif op == "protect" and a.silos:
            # bottom up, as it is meant to be done
            n = min([x for x in a.silos if not a.silos[x][1]], default=None)
            if n is not None and n not in self.held:
                a.protect(n)
        elif op == "hold":
            if self.held and rng.random() < 0.5:
                n = self.held.pop(rng.randrange(len(self.held)))
                a.hold(n, False)
            else:
                n = rng.randrange(0, max(a.silos, default=0) + 4)
                if n not in self.held:
                    self.held.append(n)
                    a.hold(n)
        elif op == "cache":
            x = lambda: rng.choice((0, 0, 1, 2, rng.randrange(0, 40)))
            a.setcache(rng.choice((None, b"", b"xyz", struct.pack(">II", x(), x()), struct.pack(">II", x(), x()))))
        elif op == "conf":
            a.setconf(rng.choice((self.M, self.M, self.M * 2, max(4096, self.M // 2), self.M + 1000)),
                      rng.choice((4096, 4128, 65536, 1 << 20)))
        elif op == "lose" and not self.held:
            how = rng.choice(("all", "appendix", "truncate"))
            a.loseindex(how, rng.randrange(0, 6))
            self.lost = True

    def finish(self, modes=("",)):
        a = self.a
        if self.lost:
            a.reindex()
        for n in self.held:
            a.hold(n, False)
        a.getall(modes)
        a.audit()
        a.lookups([None])


GENERAL = dict(store=12, get=3, housekeep=2, reindex=1, lookups=2, byid=1, filter=2, mksilo=0.6, audit=0.7, auditone=0.3,
               rebuild=0.5, info=0.2, reject=1.5, protect=0.4, hold=1, cache=0.7, lose=0.6, conf=0.5)


@family
def fam_hist(ctx):
    """A random history"""
    w = World(ctx, **ctx.p.get("conf", {}))
    weights = dict(GENERAL, **ctx.p.get("w", {}))
    for k in list(weights):
        if ctx.rng.random() < 0.15 and k != "store":
            weights[k] = 0
    for _ in range(ctx.p.get("n", 25)):
        w.step(weights)
    w.finish(tuple(ctx.p.get("modes", ("",))))


@family
def fam_model(ctx):
    """A history TLC came up with, in the configuration where its contents make what they should"""
    rng = ctx.rng
    M = ctx.p.get("maxsize", 15360)
    a = ctx.archive(maxsize=M, idbits=ctx.p.get("idbits", 128))
    L1, L2 = seglens(ctx, M, ctx.p.get("idbits", 128))
    P, X, Y = (rng.randbytes(L2), rng.randbytes(L1), rng.randbytes(L1))
    cont = dict(tiny=b"tiny %s\n" % ctx.job["seed"].encode(), small=rng.randbytes(3 * L2 // 8), full=P, two=Y + P,
                three=X + P + P, tail=Y + P + b"rest\n")
    model = dict(tiny="a001", small="a002", full="b001", two="c001", three="c002", tail="c003")
    real, held = {}, []
    for op in ctx.p["hist"]:
        o = op["op"]
        if o == "store":
            if op["kind"] == "resource":
                real[model[op["c"]]] = a.store(cont[op["c"]], how="file")
            else:
                a.store(cont[op["c"]], kind="metadata", ref=real[op["ref"]], how="file")
            a.getall(("", "z"))
        elif o == "housekeep":
            a.housekeep()
        elif o == "reindex":
            a.reindex()
            a.getall(("q",))
        elif o == "reindexsome":
            a.reindex(*op["ns"], how=rng.choice(("abs", "rel", "base")))
        elif o == "mksilo":
            a.mksilo(op["n"])
        elif o == "protect":
            a.protect(op["n"])
        elif o == "hold":
            held.append(op["n"])
            a.hold(op["n"])
        elif o == "unhold":
            held.remove(op["n"])
            a.hold(op["n"], False)
        elif o == "loseindex":
            a.loseindex(op["how"])
        elif o == "cache":
            a.setcache(struct.pack(">II", op["a"], op["b"]))
    for n in held:
        a.hold(n, False)
    if a.events and any(x["op"] == "loseindex" for x in ctx.p["hist"]):
        a.reindex()
    a.getall(("", "z", "cgi"))
    a.lookups([None, "", "0", "8", "f"])
    a.audit()


_sl = {}


def seglens(ctx, M, idbits):
    """How much incompressible data goes in a first and a later segment"""
    if (M, idbits) not in _sl:
        d = os.path.join(ctx.top, "probe%d" % len(_sl))
        os.makedirs(d)
        from ops import Ops
        a = Ops(ctx.bin, d, maxsize=M, idbits=idbits)
        a.store(random.Random(1).randbytes(4 * M), how="file")
        n = [a.silos[k][2][1]["nbody"] for k in sorted(a.silos) if len(a.silos[k][2]) > 1] + [M, M]
        _sl[(M, idbits)] = (n[0], n[1])
    return _sl[(M, idbits)]


@family
def fam_bounds(ctx):
    """Records whose members are about as long as somebody's buffer"""
    rng = ctx.rng
    T = rng.choice(ctx.p.get("targets", (4096, 8192, 32768, 65536, 131072, 131072, 262144, 409600)))
    ds = ctx.p.get("deltas") or rng.sample(range(-18, 19), 9)
    c = conf(rng, maxsize=T * 3 + 9000, base="%08u.warc.gz", **ctx.p.get("conf", {}))
    a = ctx.archive(**c)
    ids = []

    def look(i):
        if i:
            a.getall(("", "z", "qz", "cgi", "cgiz"), ids=[i])
    probe = a.store(rng.randbytes(T))
    r = [x for s in a.silos.values() for x in s[2] if x["id"] == probe]
    over = r[0]["blen"] - T if r else 0
    for d in ds:
        n = T - over + d
        ids.append(a.store(rng.randbytes(n), how=rng.choice(("file", "stdin"))))
        look(ids[-1])
        if rng.random() < 0.5:
            # compressible
            look(a.store(content.make(rng, rng.choice(("zero", "rep", "text")), T + d), how="file"))
    for n in rng.sample(sorted(a.silos), min(3, len(a.silos))):
        a.rebuild(n)
    # and now for segments
    if T > 4096:
        a.setconf(T + 3000)
        i = a.store(rng.randbytes(T + T // 2))
        r = [x for s in a.silos.values() for x in s[2] if x["id"] == i]
        over = T + 3000 - r[0]["blen"] if r else 3000
        for d in ds:
            a.setconf(T + over + d)
            look(a.store(rng.randbytes(T + T // rng.choice((2, 9))), how=rng.choice(("file", "stdin"))))
    a.audit()
    a.loseindex()
    a.reindex()
    a.getall(("",), ids=ids)


@family
def fam_align(ctx):
    """Silos in which all parts of records lie across the borders of the blocks somebody might read them in"""
    rng = ctx.rng
    B = rng.choice(ctx.p.get("blocks", (4096, 65536, 65536, 65536, 131072, 409600)))
    c = conf(rng, maxsize=min(B * 14, max(B * 3, 700000)), base="%08u.warc.gz", **ctx.p.get("conf", {}))
    a = ctx.archive(**c)
    over = 400
    ref = a.store(b"something %d" % rng.randrange(1 << 40))
    for k in range(ctx.p.get("n", 12)):
        if not a.silos:
            break
        n = max(a.silos)
        sz = os.path.getsize(a.path(n))
        gap = B - (sz + rng.randrange(-30, 720)) % B - over
        while gap < 1:
            gap += B
        if a.store(rng.randbytes(gap), how="file") and n == max(a.silos):
            over = os.path.getsize(a.path(n)) - sz - gap
        for _ in range(rng.randrange(1, 4)):
            d = content.make(rng, rng.choice(("rnd", "text", "zero")), rng.randrange(1, 90))
            if ref and rng.random() < 0.3:
                a.store(d, kind="metadata", ref=ref, how="file")
            else:
                a.store(d, how="file")
    for n in sorted(a.silos):
        a.rebuild(n)
    a.getall(("", rng.choice(("z", "cgi", "cgiz"))))
    a.audit()
    a.loseindex()
    a.reindex()
    a.getall(("",))


@family
def fam_big(ctx):
    """Big objects: lengths which take more bytes to write down"""
    rng = ctx.rng
    a = ctx.archive(**conf(rng, maxsize=rng.choice((1 << 30, 90000000, 2000000000)), **ctx.p.get("conf", {})))
    ref = a.store(b"something")
    for n in ctx.p.get("rnd", (17000000,)):
        a.store(rng.randbytes(n + rng.randrange(100)), how=rng.choice(("file", "stdin")))
        a.store(b"more %d" % n)
    for n in ctx.p.get("zero", ()):
        a.store(bytes(n + rng.randrange(100)), how=rng.choice(("file", "stdin")))
        a.store(b"still more %d" % n)
    a.getall(("", rng.choice(("z", "cgi", "cgiz"))))
    a.audit()
    if ctx.p.get("all"):
        for n in sorted(a.silos):
            a.rebuild(n)
    a.loseindex()
    a.reindex()
    a.getall(("",))


@family
def fam_huge(ctx):
    """Objects of more than four gigabytes, which compress well"""
    rng = ctx.rng
    a = ctx.archive(**conf(rng, maxsize=ctx.p["max"], idbits=rng.choice((96, 128, 256))))
    ref = a.store(b"something")
    b0, b1 = rng.randbytes(rng.randrange(1, 3000)), rng.randbytes(rng.randrange(1, 3000))
    n = (1 << 32) + rng.randrange(-3000, 1 << 24)

    def gen():
        yield b0
        z = bytes(1 << 20)
        for k in range(n >> 20):
            yield z
        yield bytes(n & 0xfffff) + b1
    i = a.storebulk(gen)
    a.store(b"something else")
    if i:
        a.log("get", 0, res=[a.fetchbulk(i, m) for m in ctx.p["modes"]])
    if ctx.p.get("audit"):
        a.audit()
    if ctx.p.get("reindex"):
        a.loseindex()
        a.reindex()
    a.getall(("", ), ids=[x for x in a.known if x != i])


@family
def fam_vast(ctx):
    """A silo of more than four gigabytes.  The record which makes it so is put there by hand: stored, not compressed, for speed"""
    rng, p = ctx.rng, ctx.p
    a = ctx.archive(**conf(rng, maxsize=5000000000, base="%08u.warc.gz", idbits=rng.choice((96, 128, 256))))
    a.lifted, a.patience = True, 240
    WIDE.append(1)
    try:
        i0 = a.store(b"before")
        a.enlarge(0, (1 << 32) + rng.randrange(-3000, 1 << 24), rng)
        a.loseindex()
        a.reindex()
        ids = [i0]
        for k in range(p.get("n", 3)):
            ids.append(a.store(rng.randbytes(rng.randrange(1, 5000))))
            ids.append(a.store(b"about %d" % k, kind="metadata", mime="text/plain", ref=ids[-1]))
        i = a.store(b"again", how="file")
        a.store(b"again", how="file")
        for m in p.get("modes", ("",)):
            a.getall((m, ), ids=a.known)
        a.lookups([x[:k] for x in a.known for k in (8, 24)])
        a.housekeep()
        a.store(rng.randbytes(3000))
        if p.get("reindex"):
            a.loseindex(rng.choice(("all", "appendix")))
            a.reindex()
        if p.get("audit"):
            a.audit()
        if p.get("rebuild"):
            a.rebuild(0)
        a.getall((rng.choice(("", "z", "cgi")), ), ids=a.known)
        a.settle(0)
        a.info()
    finally:
        del WIDE[:]


@family
def fam_sizes(ctx):
    """Every length around the point where a silo is full, for one kind of content"""
    rng, p = ctx.rng, ctx.p
    c = conf(rng, **p.get("conf", {}))
    a = ctx.archive(**c)
    M = c["maxsize"]
    kind = p["kind"]
    if kind == "zero":
        ns = [M * k + rng.randrange(-50, 50) for k in (1, 20, 100, 300, 700, 900, 1000, 1050, 1300)]
        ns = [n for n in ns if n < 24000000]
    else:
        x = int(M / p.get("ratio", 1.0))
        ns = sorted(x - rng.randrange(0, 1600) for _ in range(p.get("n", 12))) + [2 * x - rng.randrange(900, 3200) for _ in range(p.get("n", 12) // 2)]
    meta = None
    for n in ns:
        if len(a.silos) > 85:
            break
        d = content.make(rng, kind, max(1, n))
        i = a.store(d, how=rng.choice(("file", "stdin")))
        if i and rng.random() < 0.2:
            a.store(content.make(rng, kind, max(1, n - 10)), kind="metadata", ref=i, how="file")
    a.getall(("", rng.choice(("z", "cgi", "cgiz"))))
    a.audit()
    if p.get("rebuild"):
        rebuildsome(a, rng)


def rebuildsome(a, rng, k=12):
    for n in rng.sample(sorted(a.silos), min(k, len(a.silos))):
        a.rebuild(n)


@family
def fam_pack(ctx):
    """Small silos filled to the brim by appending"""
    rng = ctx.rng
    c = conf(rng, **dict(dict(maxsize=rng.choice((4096, 5000, 8192))), **ctx.p.get("conf", {})))
    a = ctx.archive(**c)
    M = c["maxsize"]
    ref = None
    for _ in range(ctx.p.get("n", 30)):
        if len(a.silos) > 80:
            break
        last = a.silos[max(a.silos)] if a.silos else None
        n = rng.randrange(1, M // 3)
        if last and rng.random() < 0.6:
            # aim at exactly what is left of some silo
            s = rng.choice(sorted(a.silos))
            left = M - len(a.silos[s][0])
            n = left - rng.randrange(560, 760)
        if n <= 0:
            n = rng.randrange(1, 60)
        d = rng.randbytes(n)
        if ref and rng.random() < 0.2:
            a.store(d, kind="metadata", ref=ref)
        else:
            ref = a.store(d) or ref
        r = rng.random()
        if r < 0.03:
            a.setcache(None)
        elif r < 0.06:
            a.housekeep()
    a.getall(("",))
    a.audit()
    a.lookups([None])


@family
def fam_chunks(ctx):
    """One content, fed in many ways to archives in different states, must be one object"""
    rng = ctx.rng
    c = conf(rng, **ctx.p.get("conf", {}))
    M = c["maxsize"]
    a = ctx.archive(**c)
    ds = [content.make(rng, rng.choice(content.KINDS), content.size(rng, M)) for _ in range(3)]
    ds.append(rng.randbytes(2 * M + 7) if M < 100000 else rng.randbytes(M // 3))
    for how in ("stdin", "file", "dash", "tfile", "chunks", "chunks", "fifo", "chunks"):
        ch = [rng.choice((1, 1, 2, 5, 511, 512, 513, 4095, 4096, 65535)) for _ in range(60)]
        rng.shuffle(ds)
        for d in ds:
            a.store(d, how=how, chunks=ch, mime=rng.choice((None, "text/plain")))
        if rng.random() < 0.3:
            a.housekeep()
    a.getall()
    # and the same in a different archive, where they go elsewhere
    b = ctx.archive(**dict(c, maxsize=rng.choice((4096, 15360, 300000)), base="%u"))
    b.store(rng.randbytes(300))
    for d in ds:
        b.store(d, how="chunks", chunks=[rng.randrange(1, 9999) for _ in range(20)])
    b.getall()


@family
def fam_meta(ctx):
    """Metadata about everything, including metadata"""
    rng = ctx.rng
    c = conf(rng, **ctx.p.get("conf", {}))
    a = ctx.archive(**c)
    M = c["maxsize"]
    n = c["idbits"] // 4
    objs = [a.store(content.make(rng, "rnd", k), how="file") for k in (5, 300, (M if M < 70000 else 3000) * 2)]
    texts = [b"{}\n", b"note %d" % rng.randrange(99), rng.randbytes(M + 999 if M < 70000 else 999)]
    for _ in range(ctx.p.get("n", 18)):
        if len(a.silos) > 80:
            texts = texts[:2]
        r = rng.random()
        ref = rng.choice(objs)
        if r < 0.12:
            a.store(rng.choice(texts), kind="metadata", ref=forcedid(rng, a))          # no such object
        elif r < 0.2 and a.silos:
            # IDs of records which are not objects
            ids = [x["id"] for s in a.silos.values() for x in s[2] if x["type"] in ("warcinfo", "continuation")]
            i = rng.choice(ids)
            if i not in a.known:
                a.store(rng.choice(texts), kind="metadata", ref=i)
        elif r < 0.35:
            d = rng.randbytes(20 if rng.random() < 0.6 or M > 70000 or len(a.silos) > 80 else rng.choice((M, 2 * M + 99, 3 * M)))
            i = a.store(d, kind="metadata", ref=ref, forced=forcedid(rng, a), forcedurl=rng.random() < 0.5, upper=rng.random() < 0.3)
            if i:
                objs.append(i)
        else:
            i = a.store(rng.choice(texts), kind="metadata", ref=ref, refurl=rng.choice((0, 0, 1, 1, 2, 3, 4)),
                        mime=rng.choice(("text/plain", "application/json")), how=rng.choice(("file", "stdin")))
            if i and rng.random() < 0.3:
                objs.append(i)
        if rng.random() < 0.1:
            a.reject(rng, cmds=("store",))
        if rng.random() < 0.07:
            a.housekeep()
    a.getall(("", "cgi", "n"))
    a.lookups([None] + [k[:rng.randrange(1, 12)] for k in a.known[:4]], ("", "resource", "metadata", "warcinfo"))
    a.audit()
    if ctx.p.get("rebuild"):
        rebuildsome(a, rng)
    if rng.random() < 0.4:
        a.loseindex()
        a.reindex()
        a.getall()


@family
def fam_reject(ctx):
    """Every kind of bad request, in different states of the archive"""
    rng = ctx.rng
    c = conf(rng, **ctx.p.get("conf", {}))
    a = ctx.archive(**c)
    a.rejectall(rng)
    i = a.store(b"one\n")
    a.store(rng.randbytes(c["maxsize"] * 2 if c["maxsize"] < 70000 else 5000), how="file")
    a.store(b"about one\n", kind="metadata", ref=i)
    a.rejectall(rng)
    a.getall()
    a.housekeep()
    a.rejectall(rng)
    a.store(b"two\n")
    a.getall()
    a.audit()


@family
def fam_reseg(ctx):
    """Segments all over the place, and the index lost"""
    rng = ctx.rng
    M = rng.choice((4096, 8192, 15360))
    c = conf(rng, maxsize=M, **ctx.p.get("conf", {}))
    a = ctx.archive(**c)
    L1, L2 = seglens(ctx, M, c["idbits"])
    B = [rng.randbytes(L2) for _ in range(3)]
    A = [rng.randbytes(L1) for _ in range(2)]
    ds = []
    for _ in range(ctx.p.get("n", 6)):
        d = rng.choice(A) + b"".join(rng.choice(B) for _ in range(rng.choice((1, 1, 2, 2, 3, 3, 9, 12))))
        if rng.random() < 0.5:
            d += rng.randbytes(rng.randrange(1, L2))
        ds.append(d)
    ds.append(B[0])
    held = []
    for d in ds:
        if len(a.silos) > 70:
            break
        for _ in range(rng.randrange(0, 4)):
            n = max(a.silos, default=0) + rng.randrange(1, 6)
            if n not in held:
                a.hold(n)
                held.append(n)
        i = a.store(d, how="file")
        if rng.random() < 0.6:
            for n in held:
                a.hold(n, False)
            held = []
        if i and rng.random() < 0.3:
            a.store(rng.choice(B) + b"m", kind="metadata", ref=i, how="file")
        if rng.random() < 0.2:
            a.housekeep()
    for n in held:
        a.hold(n, False)
    a.getall()
    for how in ctx.p.get("how", ("all", "appendix", "truncate")):
        if how == "truncate":
            a.store(b"more %d\n" % rng.randrange(10 ** 6))
        a.loseindex(how, rng.randrange(0, 9))
        if rng.random() < 0.5:
            a.reindexsome(rng)
        a.reindex()
        a.getall(("",), ids=rng.sample(a.known, min(5, len(a.known))))
        a.store(rng.choice(ds), how="file")     # still known
    a.reindex()
    a.audit()
    a.lookups([None, "", "7"])
    if ctx.p.get("rebuild"):
        rebuildsome(a, rng)


@family
def fam_renum(ctx):
    """The same silos under other numbers: segments in any order"""
    rng = ctx.rng
    M = rng.choice((4096, 8192))
    c = conf(rng, maxsize=M, base="%u", **ctx.p.get("conf", {}))
    a = ctx.archive(**c)
    ids = [a.store(rng.randbytes(rng.randrange(M, 5 * M)), how="file") for _ in range(3)]
    a.store(b"small\n")
    ns = sorted(a.silos)
    # A silo names itself in its warcinfo record, which is part of the data, so the numbers
    # are exchanged by exchanging the order of holds instead of renaming files
    for n in range(max(ns) + 1, max(ns) + 9):
        a.hold(n)
    order = list(range(max(ns) + 1, max(ns) + 9))
    rng.shuffle(order)
    for n in order[:4]:
        a.hold(n, False)
    a.store(rng.randbytes(int(3.5 * M)), how="file")
    for n in order[4:]:
        a.hold(n, False)
    a.setcache(struct.pack(">II", rng.randrange(0, 9), 0))
    a.store(rng.randbytes(int(2.5 * M)), how="file")
    a.getall()
    a.loseindex()
    a.reindex()
    a.getall()
    a.audit()


@family
def fam_far(ctx):
    """Silo numbers beyond a hundred, where the directories change"""
    rng = ctx.rng
    c = conf(rng, maxsize=rng.choice((4096, 8192)), **ctx.p.get("conf", {}))
    a = ctx.archive(**c)
    if rng.random() < 0.5:
        a.store(b"first\n")
    n = rng.choice((97, 98, 99))
    a.setcache(struct.pack(">II", n, rng.choice((0, n))))
    d = rng.randbytes(rng.choice((6, 11, 104)) * c["maxsize"])
    a.store(d, how="file")
    for _ in range(6):
        a.store(rng.randbytes(rng.randrange(1, 1500)))
    a.getall(("", "z"))
    a.store(d, how="file")
    a.housekeep()
    a.lookups([None, "", "a", "b"])
    a.audit()
    a.loseindex()
    a.reindex()
    a.getall()
    a.rebuild(rng.choice(sorted(a.silos)))


@family
def fam_rebuild(ctx):
    """Every silo of an archive with all kinds of contents, rebuilt"""
    rng = ctx.rng
    w = World(ctx, maxsilo=12, **ctx.p.get("conf", {}))
    for _ in range(ctx.p.get("n", 9)):
        w.store(what=rng.choice(("tiny", "small", "mid", "near", "multi")))
    for n in sorted(w.a.silos)[:10]:
        w.a.rebuild(n)
        if rng.random() < .5:
            w.a.rebuildold(n, rng)
    w.a.getall(("",))


@family
def fam_filter(ctx):
    """filter with every option"""
    rng = ctx.rng
    w = World(ctx, maxsilo=20, **ctx.p.get("conf", {}))
    w.forcep = rng.choice((0.15, 0.5, 0.9))
    for _ in range(3):
        for _ in range(rng.randrange(1, 6)):
            w.store(what=rng.choice(("tiny", "tiny", "small", "multi")))
        for opts in ((), ("r",), ("v",), ("s",), ("r", "s"), ("v", "s"), ("r", "v"), ("r", "v", "s")):
            w.a.filter(w.ids(rng.choice((1, 2, 5, 12))), opts, rng.choice(("stdin", "file", "two", "out")))
        if rng.random() < 0.6:
            w.a.housekeep()
    # IDs which only differ behind what the index has of them
    for _ in range(rng.choice((1, 2, 3))):
        w.a.store(b"%d" % rng.randrange(10 ** 9), kind="metadata", ref=rng.choice(w.a.known),
                  forced=forcedid(rng, w.a, (24, 25, w.a.idbits // 4 - 1)))
    # every known ID, and nothing else; then everything twice
    w.a.filter([(i, i) for i in w.a.known], ("r", "s"))
    w.a.filter([(i, i) for i in w.a.known])
    w.a.filter([(i, i) for i in w.a.known], ("r",))
    w.a.filter(sorted([(i, i) for i in w.a.known * 2]), ("r",))
    w.a.filter([], ())
    for bad in ("xyz", "1234", "g" * (w.a.idbits // 4), "http://other.example/" + "0" * (w.a.idbits // 4)):
        l = w.ids(3)
        l.insert(rng.randrange(len(l) + 1), (bad, ""))
        w.a.filter(l)


@family
def fam_modes(ctx):
    """Everything fetched in every way, under every spelling"""
    rng = ctx.rng
    c = conf(rng, **ctx.p.get("conf", {}))
    a = ctx.archive(**c)
    M = c["maxsize"]
    for k in ctx.p.get("kinds", ("tiny", "small", "near", "multi")):
        kind = rng.choice(content.KINDS)
        n = content.size(rng, M, k)
        if kind in ("zero", "rep") and k == "multi" and M < 70000:
            n *= rng.choice((1, 5, 60))
        i = a.store(content.make(rng, kind, n), how="file", mime=rng.choice((None, "text/plain")))
        if i:
            a.store(content.make(rng, rng.choice(content.KINDS), content.size(rng, M, rng.choice(("tiny", "multi")))),
                    kind="metadata", ref=i, how="file", mime=rng.choice(("text/plain", "application/json")))
    a.getall(GETMODES, extra=[rhex(rng, c["idbits"] // 4)])
    a.housekeep()
    for sp in (1, 2, 3):
        a.getall(rng.sample(GETMODES, 4), spell=sp)


@family
def fam_again(ctx):
    """The same things over and over, in every state of the archive"""
    rng = ctx.rng
    c = conf(rng, **dict(dict(maxsize=rng.choice((4096, 8192, 15360))), **ctx.p.get("conf", {})))
    a = ctx.archive(**c)
    M = c["maxsize"]
    L1, L2 = seglens(ctx, M, c["idbits"])
    P = rng.randbytes(L2)
    base = [b"x", rng.randbytes(100), bytes(3000), P, rng.randbytes(L1) + P, rng.randbytes(L1) + P + P,
            bytes(M * 30), rng.randbytes(3 * M + 5)]
    rng.shuffle(base)
    things = [(d, "resource", None) for d in base]
    for d in base[:5]:
        i = a.store(d, how="file")
        if i:
            things.append((rng.choice((b"{}", P, d)), "metadata", i))

    def round_():
        k = rng.sample(things, min(len(things), 6))
        for d, kind, ref in k:
            a.store(d, kind=kind, ref=ref, how=rng.choice(("file", "stdin", "dash")),
                    mime=rng.choice(("text/plain", None if kind == "resource" else "application/json")))
    for how in ("", "housekeep", "conf", "lose", "conf2", "hold", "cache", "protect", "housekeep"):
        if how.startswith("conf"):
            # what was one record would now be segments, and the other way round
            a.setconf({4096: 15360, 8192: rng.choice((4096, 65536)), 15360: rng.choice((4096, 50000))}.get(M, 4096)
                      if how == "conf" else M)
        elif how == "housekeep":
            a.housekeep()
        elif how == "lose":
            a.loseindex(rng.choice(("all", "appendix", "truncate")), 3)
            a.reindex()
        elif how == "hold":
            h = max(a.silos) + 1
            a.hold(h)
        elif how == "cache":
            a.setcache(rng.choice((None, struct.pack(">II", 0, 0), struct.pack(">II", 1, 1))))
        elif how == "protect":
            a.protect(min(a.silos))
        round_()
    a.hold(h, False)
    a.getall()
    a.lookups([None])


@family
def fam_readers(ctx):
    """Commands which only read, one after the other"""
    rng = ctx.rng
    w = World(ctx, maxsilo=20, **ctx.p.get("conf", {}))
    a = w.a
    for _ in range(3):
        for _ in range(3):
            w.store()
        if rng.random() < .5:
            a.housekeep()
        if rng.random() < .5 and w.a.silos:
            a.protect(min(a.silos)) if not a.silos[min(a.silos)][1] else None
        a.getall(GETMODES, ids=rng.sample(a.known, min(3, len(a.known))), extra=[rhex(rng, a.idbits // 4)])
        a.lookups(w.prefixes())
        a.byid(["", "0", "a", "5"])
        a.filter(w.ids(6), ("s",))
        a.audit()
        a.info()
        a.rebuild(rng.choice(sorted(a.silos)))
        for x in sorted(a.rejects(rng)):
            if not x.startswith("store"):
                a.reject_one(x, a.rejects(rng)[x])


@family
def fam_keys(ctx):
    """Index entries with keys to order: metadata with forced IDs, under and over what a bucket holds"""
    rng = ctx.rng
    c = conf(rng, **dict(dict(maxsize=65536, idbits=rng.choice((64, 96, 128)), sort=rng.choice((4096, 4128, 8192, 1 << 20))),
                         **ctx.p.get("conf", {})))
    a = ctx.archive(**c)
    n = c["idbits"] // 4
    ref = a.store(b"referenced\n")
    style = rng.choice(("low", "high", "ends", "same", "runs", "any"))

    def key():
        if style == "low":
            p = "%02x" % rng.randrange(0, 3)
        elif style == "high":
            p = "f" + rng.choice("ef")
        elif style == "ends":
            p = rng.choice(("00", "ff", "0000", "ffff"))
        elif style == "same":
            p = "7a7a7a7a7a7a"
        elif style == "runs":
            p = "%x" % rng.randrange(0, 16, 5) + "0123"[:rng.randrange(0, 4)]
        else:
            p = ""
        return (p + rhex(rng, n))[:n]
    ks = []
    for rnd in range(ctx.p.get("rounds", 3)):
        for _ in range(rng.choice((0, 1, 3, 8, 14))):
            k = key()
            if k not in ks:
                ks.append(k)
                a.store(b"%d" % rng.randrange(10 ** 9), kind="metadata", ref=ref, forced=k)
        ps = [None, ""]
        for k in rng.sample(ks, min(5, len(ks))):
            ps += [k[:rng.randrange(1, n + 1)], k]
        ps += ["0", "00", "000", "f", "ff", "fff", "7", "8", "7f", "80", rhex(rng, 3)]
        a.lookups(ps, ("", "metadata"))
        a.housekeep()
        a.lookups(ps, ("", "resource"))
        a.byid([p for p in ps if p is not None][:6])
        a.getall(("",), ids=[ref] + rng.sample(ks, min(3, len(ks))))
    a.housekeep()
    a.getall()
