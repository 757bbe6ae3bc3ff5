"""Driver and raw measurement for one aardwarc archive.

Nothing in here judges anything: commands are run, and what they did and what the
archive's files then look like is written down as plain values, for the specifications
in ../spec to judge.  The parser for silos below is independent of the code under test.
"""
import hashlib, os, re, shutil, signal, subprocess, zlib

PREFIX = "http://ex.am/p/"
BIG = (1 << 31) - 1
HEX = set("0123456789abcdefABCDEF")


PART = 1 << 24
BULK = 1 << 29


class Bulk:
    """So much content that one would not like to have it in memory"""

    def __init__(self, n, dig, gz):
        self.n, self.dig, self.gz = n, dig, gz

    def __len__(self):
        return self.n

    def update(self, h):
        d = zlib.decompressobj(31)
        t = self.gz
        while not d.eof:
            h.update(d.decompress(t, PART))
            t = d.unconsumed_tail


def shas(bs):
    """Of a concatenation"""
    h = hashlib.sha256()
    for b in bs:
        if isinstance(b, Bulk):
            b.update(h)
        else:
            h.update(b)
    return h.hexdigest()


class Tail:
    """A file of which one does not want to have the first so many bytes in memory"""

    def __init__(self, base, mark, tail, recs=()):
        self.base, self.mark, self.tail, self.recs = base, mark, tail, recs

    def __len__(self):
        return self.base + len(self.tail)

    def __eq__(self, o):
        return isinstance(o, Tail) and (self.base, self.mark, self.tail) == (o.base, o.mark, o.tail)

    def __getitem__(self, k):
        if not isinstance(k, slice):
            return self.tail[k - self.base]
        if not k.start:
            return Tail(self.base, self.mark, self.tail[:max(0, k.stop - self.base)], self.recs)
        return self.tail[k.start - self.base:k.stop - self.base]


def sha(b):
    if isinstance(b, Bulk):
        return b.dig
    if isinstance(b, Tail):
        return hashlib.sha256(b.mark.encode() + b.tail).hexdigest()
    return hashlib.sha256(b).hexdigest()


def clip(n):
    """TLC's integers are 32 bits wide"""
    return n if WIDE or -BIG <= n <= BIG else BIG


WIDE = []               # something in it: lift() will do


def clip32(n):
    return n if -BIG <= n <= BIG else BIG


def lift(x):
    """What is beyond 4 GiB comes to lie behind 1 GiB, so that one can do sums with it"""
    if isinstance(x, dict):
        return {k: lift(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [lift(v) for v in x]
    if isinstance(x, int) and not isinstance(x, bool) and x >= 1 << 30:
        return clip32(x - (1 << 32) + (1 << 30)) if x >= 1 << 32 else 1 << 30
    return x


# ---------------------------------------------------------------------------------------
# Independent silo parser

def member(buf, off):
    """One gzip member at off: (content, length, Aa value or -1) or None"""
    if off + 18 > len(buf) or buf[off:off + 3] != b"\x1f\x8b\x08":
        return None
    aa = -1
    p = off + 10
    flg = buf[off + 3]
    if flg & 4:
        xl = int.from_bytes(buf[p:p + 2], "little")
        x = buf[p + 2:p + 2 + xl]
        while len(x) >= 4:
            sl = int.from_bytes(x[2:4], "little")
            if x[:2] == b"Aa" and sl == 8:
                aa = int.from_bytes(x[4:12], "little")
            x = x[4 + sl:]
    pos = off
    step = aa if 0 < aa <= len(buf) - off else 8192
    d = zlib.decompressobj(31)
    out, n, big, t = [], 0, None, b""
    try:
        while not d.eof:
            if not t and pos < len(buf):
                t = buf[pos:pos + step]
                pos += step
                step = 8192
            c = d.decompress(t, PART)
            t = d.unconsumed_tail
            if not c and not t and not d.eof and pos >= len(buf):
                return None
            n += len(c)
            if big is None:
                out.append(c)
                if n > BULK:
                    big = hashlib.sha256(b"".join(out))
                    out = []
            else:
                big.update(c)
    except zlib.error:
        return None
    end = min(pos, len(buf)) - len(d.unused_data)
    return (b"".join(out) if big is None else Bulk(n, big.hexdigest(), buf[off:end])), end - off, aa


UPPER = set()       # IDs which were given in upper case, which makes no difference


def anycase(i):
    return i.lower() if i.lower() in UPPER else i


def unref(v):
    """<prefix+id> -> id, anything else is marked"""
    if v is None:
        return ""
    if v.startswith("<" + PREFIX) and v.endswith(">"):
        return v[1 + len(PREFIX):-1]
    return "?" + v


def undig(v):
    if v is None:
        return ""
    return v[7:] if v.startswith("sha256:") else "?" + v


def num(v):
    if v is None:
        return -1
    return clip(int(v)) if re.fullmatch(r"[0-9]+", v) else -2


def parse_headers(h):
    """WARC header block -> (wellformed, version, [(name, value)])"""
    try:
        t = h.decode("utf-8")
    except UnicodeDecodeError:
        return False, "", []
    lines = t.split("\r\n")
    ok = len(lines) >= 3 and lines[-1] == "" and lines[-2] == ""
    hd = []
    for l in lines[1:-2]:
        m = re.fullmatch(r"([A-Za-z0-9-]+): (.*)", l)
        if not m:
            ok = False
        else:
            hd.append((m.group(1), m.group(2)))
    return ok, lines[0], hd


def describe(hd, ok, ver):
    """The header fields the specifications talk about"""
    g = {}
    dup = False
    for n, v in hd:
        if n.lower() in g:
            dup = True
        g[n.lower()] = v
    names = sorted(n for n, v in hd if n != "z")
    return dict(
        hok=ok and not dup, ver=ver, nh=names,
        id=anycase(unref(g.get("warc-record-id"))),
        type=g.get("warc-type", ""),
        mime=g.get("content-type", ""),
        clen=num(g.get("content-length")),
        cgz=num(g.get("content-length-gzip")),
        bdig=undig(g.get("warc-block-digest")),
        pdig=undig(g.get("warc-payload-digest")),
        refers=unref(g.get("warc-refers-to")),
        rawref=g.get("warc-refers-to", ""),
        segno=num(g.get("warc-segment-number")),
        segorig=anycase(unref(g.get("warc-segment-origin-id"))),
        segtot=num(g.get("warc-segment-total-length")),
        fname=g.get("warc-filename", ""),
        date=bool(re.fullmatch(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ", g.get("warc-date", ""))))


def record(buf, off, keep=None):
    """The record at off as a dictionary, or None"""
    h = member(buf, off)
    if h is None:
        return None
    b = member(buf, off + h[1])
    if b is None:
        return None
    p = off + h[1] + b[1]
    s = member(buf, p)
    sep = s is not None and s[0] == b"\r\n\r\n" and s[1] == 24
    ok, ver, hd = parse_headers(h[0])
    r = describe(hd, ok, ver)
    title = ""
    if r["type"] == "warcinfo":
        m = re.match(rb"title: (.*)\r\n", b[0])
        title = m.group(1).decode("latin1") if m else ""
    r.update(off=off, hlen=h[1], haa=clip(h[2]), blen=b[1], baa=clip(b[2]), sep=sep,
             len=h[1] + b[1] + (s[1] if s else 0), nbody=clip(len(b[0])), bd=sha(b[0]), title=title)
    if keep is not None:
        keep[off] = (hd, b[0])
    if s is None:
        return None
    # (the ID metadata gets by its own reference and body)
    r["idl"] = r["id"].lower()
    r["hd"] = sha(repr([(n, v) for n, v in hd if n not in ("z", "Content-Length-GZIP")]).encode())
    r["mdig"] = sha((r["rawref"] + "\n" + (r["pdig"] if r["segno"] == 1 else r["bd"]) + "\n").encode()) if r["rawref"] else ""
    return r


def records(buf, off=0, keep=None):
    """All records from off: (list, offset of the first byte that is not part of one)"""
    rs = []
    if isinstance(buf, Tail) and off < buf.base:
        rs, off = list(buf.recs), buf.base
    while off < len(buf):
        r = record(buf, off, keep)
        if r is None:
            return rs, off
        rs.append(r)
        off += r["len"]
    return rs, off


# ---------------------------------------------------------------------------------------

def silo_relname(n, base):
    def num_(lvl, x):
        s = num_(lvl + 1, x // 100) if x >= 100 else "%d/" % lvl
        if lvl > 0:
            s += "%02d/" % (x % 100)
        return s
    return num_(0, n) + base % n


class Enough(Exception):
    """It hangs again and again, no use to go on"""



class Archive:
    """An archive directory, its configuration, and the log of what was done to it"""

    def __init__(self, binary, top, idbits=128, maxsize=15360, sort=1 << 20,
                 base="%08u.warc.gz", extra="", mimes=None):
        self.bin = binary
        self.top = top
        self.dir = os.path.join(top, "a") + "/"
        os.makedirs(self.dir)
        self.cfgfn = os.path.join(top, "c")
        self.idbits, self.maxsize, self.base, self.sort, self.extra = idbits, maxsize, base, sort, extra
        self.maxsize0 = maxsize
        self.writeconf()
        self.events = []
        self.silos = {}         # number -> (bytes, mode-writable, [records], end of records)
        self.idx = {}           # entry tuple -> count
        self.files = []
        self.env = dict(os.environ, LC_ALL="C", TZ="UTC")
        for k in ("GATEWAY_INTERFACE", "REQUEST_METHOD", "PATH_INFO", "HTTP_ACCEPT_ENCODING", "AARDWARC_CONFIG"):
            self.env.pop(k, None)
        self.ncmd = 0
        self.names = {}
        self.holdnames = {}
        for n in range(0, 400):
            self.names[silo_relname(n, base)] = n
            self.holdnames[silo_relname(n, base) + ".hold"] = n
        self.bodies = {}        # (silo, offset) -> body, of segments
        self.misc0 = []
        self.aux0 = sha(b"")

    nhang = 0
    looking = False
    patience = 60
    lifted = False          # lengths and offsets beyond 4 GiB

    def writeconf(self):
        with open(self.cfgfn, "w") as f:
            f.write("WARC-Record-ID:\n\t%s\t%d\nwarcinfo.body:\n\tdescription:\ttest\n"
                    "silo.directory:\n\t%s\nsilo.basename:\n\t%s\nsilo.max_size:\n\t%d\nindex.sort_size:\n\t%d\n"
                    "resource.mime-types:\n\tapplication/octet-stream\n\ttext/plain\n"
                    "metadata.mime-types:\n\ttext/plain\n\tapplication/json\n%s" %
                    (PREFIX, self.idbits, self.dir, self.base, self.maxsize, self.sort, self.extra))

    # ---- running commands

    def run(self, *args, stdin=None, env=None, timeout=None, wrap=(), stdin_file=None, preexec=None, cwd=None):
        """(exit code, stdout, stderr); a signal is 1000+signo, a hang 2000"""
        self.ncmd += 1
        if self.nhang > 2 and not self.looking:
            raise Enough
        e = self.env if env is None else dict(self.env, **env)
        try:
            r = subprocess.run(list(wrap) + [self.bin, "-c", self.cfgfn] + list(args),
                               input=stdin, stdin=None if stdin is not None else (stdin_file or subprocess.DEVNULL),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout or self.patience,
                               preexec_fn=preexec, cwd=cwd)
        except subprocess.TimeoutExpired as x:
            self.nhang += 3 if self.lifted else 1
            return 2000, x.stdout or b"", x.stderr or b""
        rc = r.returncode if r.returncode >= 0 else 1000 - r.returncode
        return rc, r.stdout, r.stderr

    # ---- observing

    def path(self, n, hold=False):
        return self.dir + silo_relname(n, self.base) + (".hold" if hold else "")

    def scan(self):
        """Names of all files below the silo directory"""
        out = []
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                out.append(os.path.relpath(os.path.join(d, f), self.dir))
        return sorted(out)

    def dumpindex(self, *args):
        rc, out, err = self.run("dumpindex", *args)
        return rc, parse_index(out)

    def contents(self, n, p):
        return open(p, "rb").read()

    def observe(self, index=True):
        """What changed since the last time, for the trace"""
        d = dict(silos=[], gone=[], iadd=[], idel=[], idup=0, irc=0)
        files = self.scan()
        seen = set()
        misc = []
        for f in files:
            n = self.names.get(f)
            if n is None:
                misc.append(f)
                continue
            seen.add(n)
            p = self.dir + f
            b = self.contents(n, p)
            ro = not (os.stat(p).st_mode & 0o200)
            old = self.silos.get(n)
            keep = {}
            if old is not None and old[0] == b and old[1] == ro:
                continue
            if old is None:
                rs, end = records(b, 0, keep)
                frm, pre, ob = 0, sha(b""), b""
            else:
                ob = old[0]
                pre = sha(b[:len(ob)])
                if b[:len(ob)] == ob and old[3] == len(ob):
                    new, end = records(b, len(ob), keep)
                    frm = len(old[2])
                    rs = old[2] + new
                else:
                    rs, end = records(b, 0, keep)
                    frm = 0
            self.silos[n] = (b, ro, rs, end)
            for r in rs[frm:]:
                if r["segno"] > 0:
                    self.bodies[(n, r["off"])] = keep[r["off"]][1]
            d["silos"].append(dict(n=n, sz=clip(len(b)), dig=sha(b), osz=clip(len(ob)), pre=pre, ro=ro,
                                   frm=frm, recs=rs[frm:], junk=clip(len(b) - end), name=self.base % n,
                                   path=f))
        for n in sorted(set(self.silos) - seen):
            d["gone"].append(n)
            del self.silos[n]
        d["misc"] = [f for f in misc if f not in ("index.sorted", "index.appendix", "_.cache")]
        d["held"] = [self.holdnames[f] for f in misc if f in self.holdnames]
        d["aux"] = sha(b"".join(f.encode() + b"\0" + open(self.dir + f, "rb").read() + b"\0" for f in misc))
        d["cats"] = self.cats([x for x in d["silos"]])
        if index:
            self.looking = True
            rc, ix = self.dumpindex()
            self.looking = False
            d["irc"] = rc
            new = {}
            for e in ix:
                new[e] = new.get(e, 0) + 1
            d["iadd"] = [ent(e) for e in new if e not in self.idx]
            d["idel"] = [ent(e) for e in self.idx if e not in new]
            d["idup"] = sum(c - 1 for c in new.values())
            self.idx = new
        return d

    def cats(self, changed):
        """For objects with new segments: what the segments' bodies in order amount to"""
        ids = {(r["id"] if r["segno"] == 1 else r["segorig"]) for x in changed for r in x["recs"] if r["segno"] > 0}
        out = []
        for i in sorted(ids):
            segs = {}
            for n, sl in self.silos.items():
                for r in sl[2]:
                    if r["segno"] > 0 and (r["id"] if r["segno"] == 1 else r["segorig"]) == i:
                        segs[r["segno"]] = self.bodies.get((n, r["off"]), b"")
            out.append(dict(id=i, dig=shas(segs[k] for k in sorted(segs))))
        return out

    def log(self, op, rc, index=True, **kw):
        ev = dict(op=op, rc=rc, **kw)
        ev["d"] = self.observe(index)
        if self.lifted:
            ev = lift(ev)
        self.events.append(ev)
        return ev

    def trace(self, name):
        return dict(name=name, cfg=dict(idlen=self.idbits // 4, maxsize=lift(self.maxsize0) if self.lifted else self.maxsize0), misc=self.misc0,
                    aux=self.aux0, ev=self.events)


def parse_index(out):
    """dumpindex output -> list of (key, flags, silo, offset, cont)"""
    es = []
    for l in out.decode("latin1").splitlines():
        m = re.fullmatch(r"([0-9a-f]+) 0x([0-9a-f]{8}) +(\d+) +(-?\d+) ([0-9a-f]{8})", l)
        if m:
            es.append((m.group(1), int(m.group(2), 16), int(m.group(3)), int(m.group(4)), m.group(5)))
        else:
            es.append(("?" + l, 0, 0, 0, ""))
    return es


def ent(e):
    return dict(k=e[0], f=clip(e[1]), n=clip(e[2]), o=clip(e[3]), c=e[4])


def unid(s):
    """What store printed -> bare id, or marked"""
    s = s.decode("latin1")
    if s.startswith(PREFIX) and s.endswith("\n") and s.count("\n") == 1:
        return s[len(PREFIX):-1]
    return "" if s == "" else "?" + s[:80]


def gzmember(b, level=9, aa=False):
    """One gzip member"""
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    d = c.compress(b) + c.flush()
    t = zlib.crc32(b).to_bytes(4, "little") + (len(b) & 0xffffffff).to_bytes(4, "little")
    if not aa:
        return b"\x1f\x8b\x08\0\0\0\0\0\x02\x03" + d + t
    n = 24 + len(d) + 8
    return b"\x1f\x8b\x08\x04\0\0\0\0\x02\x03" + b"\x0c\0Aa\x08\0" + n.to_bytes(8, "little") + d + t


def oldfashioned(buf, which, rng):
    """The silo with some of its records as they were before WARC-Block-Digest: (file, [lower case names of the headers])"""
    keep = {}
    rs, end = records(buf, 0, keep)
    assert end == len(buf)
    out, names = b"", []
    for i, r in enumerate(rs):
        hd, body = keep[r["off"]]
        names.append(sorted(n.lower() for n, v in hd if n not in ("z", "Content-Length-GZIP")))
        if i not in which:
            out += buf[r["off"]:r["off"] + r["len"]]
            continue
        x = "%064x" % rng.getrandbits(256)
        hd = [(n, "<" + PREFIX + x[:len(r["id"])] + ">" if n == "WARC-Record-ID" else v) for n, v in hd if n != "WARC-Block-Digest"]
        hd.insert(rng.randrange(1, len(hd) + 1), (rng.choice(("WARC-record-digest", "WARC-Record-Digest")), "sha256:" + x))
        h = "WARC/1.1\r\n" + "".join("%s: %s\r\n" % a for a in hd) + "\r\n"
        out += gzmember(h.encode()) + gzmember(body, rng.choice((1, 6, 9)), True) + buf[r["off"] + r["len"] - 24:r["off"] + r["len"]]
    return out, names
