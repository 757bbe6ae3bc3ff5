"""Index files of all kinds: entries nobody has records for, but which the index has to keep and find"""
import os, struct
from jobs import family
from aw import *
from scen import conf, rhex


def pack(e):
    return bytes.fromhex(e[0]) + struct.pack(">IIQ", e[1], e[2], e[3]) + bytes.fromhex(e[4])


FLAGS = (2, 4, 4, 4, 8, 8, 0x34, 0x10, 0x50, 0x38)


class Keys:
    """Keys which are close together, or at the ends of things"""

    def __init__(self, rng):
        self.rng = rng
        self.style = rng.choice(("low", "high", "ends", "same", "runs", "any", "any", "edges", "two"))
        self.base = rhex(rng, 24)
        self.have = []

    def key(self):
        rng, st = self.rng, self.style
        if self.have and rng.random() < 0.15:
            # the next one, or the one before
            k = (int(rng.choice(self.have), 16) + rng.choice((-1, 1, 1 << 64, -1 << 64))) % (1 << 96)
            return "%024x" % k
        if st == "low":
            p = "%02x" % rng.randrange(0, 3)
        elif st == "high":
            p = "f" + rng.choice("ef")
        elif st == "ends":
            p = rng.choice(("00" * 12, "ff" * 12, "00", "ff", "0000000000", "ffffffffff"))
        elif st == "same":
            p = self.base[:rng.choice((8, 22))]
        elif st == "runs":
            p = "%x" % rng.randrange(0, 16, 5) + "0123"[:rng.randrange(0, 4)]
        elif st == "edges":
            # where a bucket may begin
            p = "%02x" % (rng.randrange(0, 8) * 32 + rng.choice((-1, 0, 0)) & 255) + rng.choice(("0" * 22, "f" * 22, ""))
        elif st == "two":
            p = rng.choice(("3" * 24, "c" * 24, "3" * 24, ""))
        else:
            p = ""
        return (p + rhex(rng, 24))[:24]


@family
def fam_idxfile(ctx):
    """Entries straight into the index files, housekept in all kinds of ways"""
    rng = ctx.rng
    c = conf(rng, idbits=rng.choice((96, 128, 256, 64)), sort=rng.choice((4096, 4128, 4096 + 32 * 5, 65536)), **ctx.p.get("conf", {}))
    a = ctx.archive(**c)
    K = Keys(rng)
    nd = c["idbits"] // 4
    if rng.random() < 0.3:
        a.store(b"something real\n")
    a.env_event("loseindex", n=-1)
    mult = rng.random() < 0.5
    old = []

    def entry():
        r = rng.random()
        if old and r < 0.3:
            # like another, but for one thing
            e = list(rng.choice(old))
            w = rng.randrange(5)
            e[w] = (e[0][:23] + "%x" % (int(e[0][23], 16) ^ 1), rng.choice(FLAGS), e[2] ^ 1, e[3] ^ rng.choice((1, 1 << 20)),
                    "%08x" % (int(e[4], 16) ^ 1))[w]
            return tuple(e)
        if old and mult and r < 0.4:
            return rng.choice(old)
        return (K.key(), rng.choice(FLAGS), rng.randrange(rng.choice((4, 300))), rng.randrange(1 << rng.choice((8, 30))),
                rng.choice(("00000000", rhex(rng, 8))))

    def write(n, fn="index.appendix"):
        es = [entry() for _ in range(n)]
        if rng.random() < 0.3:
            es.sort(reverse=rng.random() < 0.5)
        for e in es:
            K.have.append(e[0])
        old.extend(es)
        with open(a.dir + fn, "ab") as f:
            f.write(b"".join(pack(e) for e in es))
        a.log("wrote", 0, es=[ent(e) for e in set(es)])

    def look():
        ps = [None, ""]
        for k in rng.sample(K.have, min(6, len(K.have))):
            ps += [k[:rng.randrange(1, 25)], k[:24]]
            if rng.random() < 0.3:
                ps.append("%024x" % ((int(k, 16) + rng.choice((-1, 1))) % (1 << 96)))
        ps += ["0", "00", "f", "ff", "7", "8", "7f", "80", rhex(rng, 3), rhex(rng, 24)]
        if ctx.p.get("bulk"):
            # (they take their time to judge)
            ps = [None] + rng.sample(ps[1:], 5)
        a.lookups([p and p[:nd] for p in ps], rng.sample(("", "metadata", "resource", "warcinfo"), 2))

    if ctx.p.get("bulk"):
        # Far more than what is sorted in one go, or fits in a buffer
        write(ctx.p["bulk"] + rng.randrange(4000))
        if rng.random() < 0.5:
            a.housekeep()
    total = 0
    for rnd in range(ctx.p.get("rounds", 4)):
        n = rng.choice((0, 1, 2, 3, 9, 31, 126, 127, 128, 129, 300, 600))
        if total + n > ctx.p.get("most", 900):
            n = 5
        total += n
        if n:
            write(n)
        if n and rng.random() < 0.4:
            # the last housekeeping did not get far
            os.rename(a.dir + "index.appendix", a.dir + "index.housekeep")
            a.env_event("interrupted")
            if rng.random() < 0.7:
                write(rng.choice((1, 2, 40)))
            if rng.random() < 0.4:
                with open(a.dir + "index.tmp.1", "wb") as f:
                    f.write(rng.randbytes(rng.choice((0, 32, 100))))
                a.env_event("interrupted")
        if rng.random() < 0.5:
            look()
        if rng.random() < 0.4:
            a.setconf(sort=rng.choice((4096, 4128, 8192, 1 << 20)))
        for _ in range(rng.choice((1, 1, 2))):
            a.housekeep()
        look()
    look()
