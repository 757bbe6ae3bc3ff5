"""Operations on an Archive, each one logging an event with what was asked and what came out."""
import hashlib, os, re, stat, subprocess, tempfile, threading, time, zlib
from aw import *


def gunzip_all(b):
    """Concatenated gzip members -> (content, members, rest ok)"""
    out, n = [], 0
    while b:
        d = zlib.decompressobj(31)
        try:
            out.append(d.decompress(b))
        except zlib.error:
            return b"".join(out), n, False
        if not d.eof:
            return b"".join(out), n, False
        b = d.unused_data
        n += 1
    return b"".join(out), n, True


NOHDR = dict(hok=False, ver="", nh=[], id="", type="", mime="", clen=-1, cgz=-1, bdig="", pdig="", refers="",
             rawref="", segno=-1, segorig="", segtot=-1, fname="", date=False)


def hdrblock(b):
    """A header block as get prints it"""
    if not b:
        return dict(NOHDR)
    ok, ver, hd = parse_headers(b)
    return describe(hd, ok, ver)


def num64(v):
    return int(v) if re.fullmatch("[0-9]+", v) else -1


OFFERS = dict(
    cgiz=[[("deflate", 1000, "deflate"), ("gzip", 1000, ", gzip"), ("br", 1000, ", br")],
          [("gzip", 1000, "gzip")],
          [("br", 1000, "br;q=1.0,"), ("gzip", 800, "gzip;q=0.8")],
          [("identity", 500, "identity;q=0.5"), ("gzip", 1, " , gzip ; q=0.001"), ("*", 0, ", *;q=0")],
          [("gzip", 1000, "GZIP")],
          [("*", 1000, "*")]],
    cgid=[[("deflate", 1000, "deflate"), ("br", 1000, ", br")],
          [("gzip", 0, "gzip;q=0")],
          [("deflate", 1000, "deflate"), ("gzip", 0, ", gzip; q=0.000"), ("br", 1000, ", br")],
          [("gzip", 0, "gzip;Q=0.0,"), ("*", 500, "*;q=0.5")],
          [("identity", 1000, "identity")],
          []])


class Ops(Archive):

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.known = []         # ids store has printed, in order
        self.noffer = 0

    # ---- store

    def store(self, data, kind="resource", mime=None, ref=None, forced=None, how="stdin", bad="", args=None,
              refurl=0, forcedurl=False, upper=False, chunks=None, **kw):
        a = ["store"]
        if kind == "metadata":
            a += ["-t", "metadata"]
        elif how.startswith("t"):
            a += ["-t", "resource"]
        if mime is None and kind == "metadata":
            mime = "text/plain"
        if mime is not None:
            a += ["-m", mime]
        if ref is not None:
            r = ref.upper() if refurl >= 2 else ref
            a += ["-r", ("", PREFIX, "", PREFIX, PREFIX.upper())[refurl] + r]
        if forced is not None:
            if upper:
                UPPER.add(forced)
            a += ["-i", (PREFIX if forcedurl else "") + (forced.upper() if upper else forced)]
        if args is not None:
            a = ["store"] + args
        rc, out, err = self.feed(a, data, how, chunks, **kw)
        i = anycase(unid(out))
        dig = sha(data)
        rawref = "<" + PREFIX + ref + ">" if ref is not None else ""
        ev = self.log("store", rc, kind=kind, dig=dig, len=clip(len(data)), mime=mime or "application/octet-stream",
                      ref=ref or "", forced=forced or "", bad=bad, id=i, how=how,
                      mdig=sha((rawref + "\n" + dig + "\n").encode()) if ref is not None else "")
        if rc == 0 and i and i not in self.known:
            self.known.append(i)
        return i if rc == 0 else None

    def feed(self, a, data, how="stdin", chunks=None, **kw):
        """Run with data as input: through a file, a pipe, or a pipe in given chunks"""
        if how.endswith("file"):
            fn = os.path.join(self.top, "in")
            with open(fn, "wb") as f:
                f.write(data)
            r = self.run(*a, fn, **kw)
            os.unlink(fn)
            return r
        if how.endswith("dash"):
            return self.run(*a, "-", stdin=data, **kw)
        if how.endswith("fifo"):
            # A pipe which has a name
            fn = os.path.join(self.top, "fifo")
            os.mkfifo(fn)

            def writer():
                fd = os.open(fn, os.O_WRONLY)
                try:
                    pos = 0
                    for c in chunks or ():
                        if pos < len(data):
                            pos += os.write(fd, data[pos:pos + c])
                            time.sleep(0.0005)
                    while pos < len(data):
                        pos += os.write(fd, data[pos:pos + 65536])
                except BrokenPipeError:
                    pass
                os.close(fd)

            t = threading.Thread(target=writer, daemon=True)
            t.start()
            try:
                return self.run(*a, fn, **kw)
            finally:
                # (in case nobody opened it, or read all of it)
                os.close(os.open(fn, os.O_RDONLY | os.O_NONBLOCK))
                t.join()
                os.unlink(fn)
        if how.endswith("chunks"):
            p = subprocess.Popen([self.bin, "-c", self.cfgfn] + a, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, env=self.env)
            self.ncmd += 1
            to = threading.Timer(60, p.kill)
            to.start()
            try:
                pos = 0
                for c in chunks:
                    if pos >= len(data):
                        break
                    os.write(p.stdin.fileno(), data[pos:pos + c])
                    pos += c
                    time.sleep(0.0005)
                while pos < len(data):
                    pos += os.write(p.stdin.fileno(), data[pos:pos + 65536])
            except BrokenPipeError:
                pass
            try:
                p.stdin.close()
            except BrokenPipeError:
                pass
            p.stdin = None
            out, err = p.communicate()
            to.cancel()
            rc = p.returncode if p.returncode >= 0 else 1000 - p.returncode
            return rc, out, err
        return self.run(*a, stdin=data, **kw)

    # ---- fetch

    def fetch(self, i, mode="", spell=0):
        """One get/cgi in some mode, as a result record"""
        raw = [i, PREFIX + i, i.upper(), PREFIX.upper() + i][spell]
        r = dict(id=i, mode=mode, rc=0, dig="", len=0, nmem=0, zok=True, h=dict(NOHDR), other=0,
                 status="", ct="", clen=-1, enc="", hb=True, offer=[])
        body = hdr = b""
        if mode == "o":
            fn = os.path.join(self.top, "out")
            if os.path.exists(fn):
                os.unlink(fn)
            r["rc"], hdr, err = self.run("get", "-o", fn, raw)
            body = open(fn, "rb").read() if os.path.exists(fn) else b""
            r["other"] = len(err)
        elif mode in ("", "q", "n", "z", "qz", "no"):
            fn = os.path.join(self.top, "out")
            a = ["get"] + (["-" + c for c in mode.replace("o", "")])
            if "o" in mode:
                a += ["-o", fn]
            r["rc"], body, hdr = self.run(*a, raw)
            if "o" in mode:
                hdr, body = body, open(fn, "rb").read() if os.path.exists(fn) else b""
            if "q" in mode:
                r["other"] = len(hdr)
                hdr = b""
            if "z" in mode and (r["rc"] == 0 or body):
                body, r["nmem"], r["zok"] = gunzip_all(body)
        else:
            env = dict(GATEWAY_INTERFACE="CGI/1.1", REQUEST_METHOD="GET", PATH_INFO="/" + raw)
            if mode != "cgi":
                # What the client offers: (coding, quality in thousandths, how it is written)
                l = OFFERS[mode]
                self.noffer += 1
                l = l[self.noffer % len(l)]
                env["HTTP_ACCEPT_ENCODING"] = "".join(x[2] for x in l)
                r["offer"] = [dict(c=x[0], q=x[1]) for x in l]
            r["rc"], out, err = self.run("cgi", env=env)
            head, sep, body = out.partition(b"\n\n")
            g = {}
            for l in head.decode("latin1").split("\n"):
                n, c, v = l.partition(": ")
                if not c or n.lower() in g:
                    r["hb"] = False
                g[n.lower()] = v
            r["status"] = g.get("status", "")[:3]
            r["ct"] = g.get("content-type", "")
            r["clen"] = num(g.get("content-length"))
            r["enc"] = g.get("content-encoding", "")
            r["blen"] = clip(len(body))
            if r["enc"] == "gzip":
                body, r["nmem"], r["zok"] = gunzip_all(body)
        if mode not in ("cgi", "cgiz", "cgid"):
            r["h"] = hdrblock(hdr) if r["rc"] == 0 and "q" not in mode else dict(NOHDR)
            r["blen"] = clip(len(body))
        r["dig"] = sha(body)
        r["len"] = clip(len(body))
        return r

    def getall(self, modes=("",), ids=None, extra=(), spell=0, index=False):
        res = []
        for i in (self.known if ids is None else ids):
            for m in modes:
                res.append(self.fetch(i, m, spell))
        for i in extra:
            for m in modes:
                res.append(self.fetch(i, m))
        return self.log("get", 0, index=True, res=res)

    # ---- what does not fit into memory

    def enlarge(self, n, size, rng):
        """Append a record with a body of that many bytes to a silo; what comes before it, and it, is from here on only looked at in passing"""
        r = record(self.silos[n][0], self.silos[n][2][-1]["off"])
        front = rng.randbytes(40000)
        z = bytes(1 << 24)
        h, crc = hashlib.sha256(front), zlib.crc32(front)
        k = size - len(front)
        while k:
            m = min(k, len(z))
            h.update(memoryview(z)[:m])
            crc = zlib.crc32(memoryview(z)[:m], crc)
            k -= m
        dig = h.hexdigest()
        nb = -(-size // 65535)
        blen = 24 + size + 5 * nb + 8
        hd = [("WARC-Record-ID", "<" + PREFIX + dig[:self.idbits // 4] + ">"), ("Content-Length", "%d" % size), ("Content-Length-GZIP", "%d" % blen),
              ("Content-Type", "application/octet-stream"), ("WARC-Block-Digest", "sha256:" + dig), ("WARC-Date", "2001-02-03T04:05:06Z"),
              ("WARC-Type", "resource")]
        head = gzmember(("WARC/1.1\r\n" + "".join("%s: %s\r\n" % x for x in hd) + "\r\n").encode())
        off = len(self.silos[n][0])
        with open(self.path(n), "r+b") as f:
            f.seek(0, 2)
            f.write(head)
            f.write(b"\x1f\x8b\x08\x04\0\0\0\0\x02\x03\x0c\0Aa\x08\0" + blen.to_bytes(8, "little"))
            p, k = f.tell(), size
            while k:
                m = min(k, 65535)
                k -= m
                f.seek(p)
                f.write(bytes((not k, m & 255, m >> 8, ~m & 255, ~m >> 8 & 255)))
                if front:
                    f.write(front)
                    front = b""
                p += 5 + m
            f.seek(p)
            f.write(crc.to_bytes(4, "little") + (size & 0xffffffff).to_bytes(4, "little"))
            f.write(self.silos[n][0][off - 24:])
            end = f.tell()
        f = dict(describe(hd, True, "WARC/1.1"), off=off, hlen=len(head), haa=-1, blen=blen, baa=blen, sep=True, len=len(head) + blen + 24,
                 nbody=size, bd=dig, title="", mdig="")
        f["idl"] = f["id"]
        f["hd"] = sha(repr([x for x in hd if x[0] != "Content-Length-GZIP"]).encode())
        assert end == off + f["len"] and set(f) == set(r)
        self.vast = dict(n=n, base=end, recs=self.silos[n][2] + [f])
        self.vast["deep"] = self.deep(n, end)

    def passing(self, n, end):
        """Some of the beginning of a file, and what it occupies"""
        h = hashlib.sha256()
        with open(self.path(n), "rb") as f:
            for p in (0, end // 3, end // 2, 2 * end // 3, end - 70000):
                f.seek(p)
                h.update(f.read(70000))
        return h.hexdigest()

    def deep(self, n, end):
        h = hashlib.sha256()
        with open(self.path(n), "rb") as f:
            while end:
                b = f.read(min(end, 1 << 22))
                if not b:
                    break
                h.update(b)
                end -= len(b)
        return h.hexdigest()

    def settle(self, n):
        """Now look at all of it"""
        v = self.vast
        if self.deep(n, v["base"]) != v["deep"]:
            v["mark2"] = "different"

    def contents(self, n, p):
        v = getattr(self, "vast", None)
        if v is None or v["n"] != n:
            return super().contents(n, p)
        with open(p, "rb") as f:
            f.seek(v["base"])
            t = f.read()
        end = min(v["base"], os.stat(p).st_size)
        b = Tail(v["base"], v.get("mark2") or self.passing(n, v["base"]), t, v["recs"])
        if end < v["base"]:
            b.mark = "truncated"
        return b


    def piped(self, args, feed=None, env=None, timeout=300):
        """Run with what feed() yields as input: (exit code, iterator of the output, function for the rest)"""
        self.ncmd += 1
        if self.nhang > 2:
            raise Enough
        err = tempfile.TemporaryFile(dir=self.top)
        p = subprocess.Popen([self.bin, "-c", self.cfgfn] + list(args), stdout=subprocess.PIPE, stderr=err,
                             stdin=subprocess.DEVNULL if feed is None else subprocess.PIPE, env=dict(self.env, **(env or {})))
        late = []

        def stop():
            late.append(1)
            p.kill()
        to = threading.Timer(timeout, stop)
        to.start()

        def writer():
            try:
                for b in feed:
                    p.stdin.write(b)
                p.stdin.close()
            except (BrokenPipeError, ValueError):
                pass
        t = threading.Thread(target=writer, daemon=True) if feed is not None else None
        if t:
            t.start()

        def out():
            while True:
                b = p.stdout.read(1 << 20)
                if not b:
                    return
                yield b

        def end():
            rc = p.wait()
            to.cancel()
            p.stdout.close()
            if t:
                t.join(10)
            err.seek(0)
            e = err.read()
            err.close()
            if late:
                self.nhang += 3
                return 2000, e
            return (rc if rc >= 0 else 1000 - rc), e
        return out(), end

    def storebulk(self, gen):
        h = hashlib.sha256()
        n = 0
        for b in gen():
            h.update(b)
            n += len(b)
        out, end = self.piped(["store", "-"], gen())
        o = b"".join(out)
        rc, err = end()
        i = anycase(unid(o))
        dig = h.hexdigest()
        self.log("store", rc, kind="resource", dig=dig, len=clip(n), mime="application/octet-stream",
                 ref="", forced="", bad="", id=i, how="bulk", mdig="")
        if rc == 0 and i and i not in self.known:
            self.known.append(i)
        return i

    def fetchbulk(self, i, mode=""):
        r = dict(id=i, mode=mode, rc=0, dig="", len=0, nmem=0, zok=True, h=dict(NOHDR), other=0,
                 status="", ct="", clen=-1, enc="", hb=True, offer=[], blen=0)
        if mode == "cgi":
            out, end = self.piped(["cgi"], env=dict(GATEWAY_INTERFACE="CGI/1.1", REQUEST_METHOD="GET", PATH_INFO="/" + i))
        else:
            out, end = self.piped(["get"] + ["-" + c for c in mode] + [i])
        h, n, nb, head, d = hashlib.sha256(), 0, 0, None, None
        if mode == "cgi":
            head = b""
        for b in out:
            if head is not None and b"\n\n" not in head:
                head += b
                if b"\n\n" not in head:
                    continue
                k = head.index(b"\n\n") + 2
                head, b = head[:k], head[k:]
            nb += len(b)
            if "z" not in mode:
                h.update(b)
                n += len(b)
                continue
            while b and r["zok"]:
                if d is None:
                    d = zlib.decompressobj(31)
                try:
                    c = d.decompress(b, PART)
                except zlib.error:
                    r["zok"] = False
                    break
                h.update(c)
                n += len(c)
                b = d.unconsumed_tail
                while not b and not d.eof and c:
                    c = d.decompress(b"", PART)
                    h.update(c)
                    n += len(c)
                if d.eof:
                    b = d.unused_data
                    d = None
                    r["nmem"] += 1
        r["rc"], err = end()
        if d is not None:
            r["zok"] = False
        if mode == "cgi":
            for l in (head or b"").decode("latin1").strip("\n").split("\n"):
                k, c, v = l.partition(": ")
                if not c:
                    r["hb"] = False
                elif k.lower() == "status":
                    r["status"] = v[:3]
                elif k.lower() == "content-type":
                    r["ct"] = v
                elif k.lower() == "content-length":
                    # (as far as it differs, which may be by more than there is room for)
                    r["clen"] = clip(nb) if num64(v) == nb else -3
                elif k.lower() == "content-encoding":
                    r["enc"] = v
        elif "q" in mode:
            r["other"] = len(err)
        else:
            r["h"] = hdrblock(err) if r["rc"] == 0 else dict(NOHDR)
        r["blen"] = clip(nb)
        r["dig"] = h.hexdigest()
        r["len"] = clip(n)
        return r

    # ---- lookups

    def lookups(self, prefixes, types=("",)):
        res = []
        for p in prefixes:
            for t in types:
                a = (["-t", t] if t else []) + ([p] if p is not None else [])
                rc, es = self.dumpindex(*a)
                res.append(dict(p=(p or "").lower(), t=t, rc=rc, es=[ent(e) for e in es]))
        return self.log("dumpindex", 0, res=res)

    def byid(self, prefixes, e=False, url=False):
        res = []
        for p in prefixes:
            rc, out, err = self.run("byid", *(["-e"] if e else []), (PREFIX if url else "") + p)
            ms = []
            for l in out.decode("latin1").splitlines():
                m = re.fullmatch(r"id (\S+) wt (\S+)", l)
                ms.append(dict(id=anycase(m.group(1)), wt=m.group(2)) if m else dict(id="?" + l, wt=""))
            res.append(dict(p=p.lower(), e=e, rc=rc, es=ms))
        return self.log("byid", 0, res=res)

    # ---- filter

    def filter(self, lines, opts=(), how="stdin"):
        """lines: (raw, bare id) pairs; bad lines have bare id '' """
        data = "".join(r + "\n" for r, i in lines).encode()
        a = ["filter"] + ["-" + o for o in opts]
        fn = os.path.join(self.top, "fl")
        ofn = os.path.join(self.top, "fo")
        if how == "file":
            open(fn, "wb").write(data)
            rc, out, err = self.run(*a, fn)
        elif how == "two":
            k = len(lines) // 2
            open(fn, "wb").write("".join(r + "\n" for r, i in lines[:k]).encode())
            rc, out, err = self.run(*a, fn, "-", stdin="".join(r + "\n" for r, i in lines[k:]).encode())
        elif how == "out":
            rc, out, err = self.run(*a, "-o", ofn, stdin=data)
            o2 = open(ofn, "rb").read() if os.path.exists(ofn) else b""
            out = o2 + (b"?extra on stdout" if out else b"")
        else:
            rc, out, err = self.run(*a, stdin=data)
        return self.log("filter", rc, r="r" in opts, v="v" in opts, s="s" in opts,
                        lines=[dict(raw=r, id=i.lower()) for r, i in lines],
                        out=out.decode("latin1").splitlines())

    # ---- maintenance

    def housekeep(self, n=1):
        pre = os.path.exists(self.dir + "index.appendix") or os.path.exists(self.dir + "index.housekeep")
        rc, out, err = self.run("housekeeping")
        post = [f for f in ("index.appendix", "index.housekeep", "index.hold") if os.path.exists(self.dir + f)]
        return self.log("housekeep", rc, pre=pre, post=post)

    def reindex(self, *silos, how="abs"):
        """silos by number; none means all of them"""
        cwd, fns = None, [self.path(n) for n in silos]
        if how == "rel" and silos:
            cwd = os.path.dirname(self.dir.rstrip("/"))
            fns = [os.path.relpath(fn, cwd) for fn in fns]
        elif how == "base" and len(silos) == 1:
            cwd, fn = os.path.split(fns[0])
            fns = [fn]
        rc, out, err = self.run("reindex", *fns, cwd=cwd)
        return self.log("reindex", rc, left=b"Leftovers" in out, full=not silos, which=list(silos))

    def reindexsome(self, rng):
        """Reindex silos by name, in groups"""
        ns = sorted(self.silos)
        for _ in range(rng.randrange(1, 4)):
            k = rng.choice((1, 1, 2, 3, len(ns)))
            g = rng.sample(ns, min(k, len(ns)))
            self.reindex(*g, how=rng.choice(("abs", "rel", "base")))

    def mksilo(self, n, arg=None):
        rc, out, err = self.run("mksilo", arg or str(n))
        return self.log("mksilo", rc, n=n)

    def audit(self, *silos, ignore=None):
        """silos by number; none means all of them.  Forced IDs of metadata are to be ignored on demand only"""
        if ignore is None:
            self.naudit = getattr(self, "naudit", 0) + 1
            ignore = self.naudit % 3 > 0
        rc, out, err = self.run("audit", *(("-i", "ignore-metadata-record-id") if ignore else ()), *[self.path(n) for n in silos])
        o = out.decode("latin1")
        errs = len(re.findall(r"^ERROR|Left on pending|^\s*ERROR", o, re.M))
        good = bad = nsil = 0
        for m in re.finditer(r"^(\d+) good (\d+) bad entries in this silo", o, re.M):
            good += int(m.group(1))
            bad += int(m.group(2))
            nsil += 1
        return self.log("audit", rc, problem=bool(errs or rc or bad), errs=errs, good=good, bad=bad, nsil=nsil, ig=ignore,
                        which=list(silos))

    def rebuild(self, n):
        src = self.path(n)
        new = src + "_"
        rc, out, err = self.run("rebuild", src)
        b = b""
        if os.path.exists(new):
            b = open(new, "rb").read()
            os.unlink(new)
        rs, end = records(b)
        return self.log("rebuild", rc, n=n, junk=clip(len(b) - end),
                        recs=[dict(hd=r["hd"], bd=r["bd"], r=r) for r in rs])

    def rebuildold(self, n, rng, which=None):
        """A copy of the silo, some of which is as it was before WARC-Block-Digest"""
        b = open(self.path(n), "rb").read()
        rs = records(b)[0]
        m = len(rs)
        if which is None:
            which = {i for i in range(m) if rs[i]["segno"] < 0 and rng.random() < .5} or {0}
        src = os.path.join(self.top, "old")
        b, names = oldfashioned(b, which, rng)
        with open(src, "wb") as f:
            f.write(b)
        rc, out, err = self.run("rebuild", src)
        b = b""
        if os.path.exists(src + "_"):
            b = open(src + "_", "rb").read()
            os.unlink(src + "_")
        os.unlink(src)
        rs, end = records(b)
        for i, r in enumerate(rs):
            r["same"] = i < len(names) and sorted(x.lower() for x in r["nh"] if x != "Content-Length-GZIP") == names[i]
        return self.log("rebuildold", rc, n=n, junk=clip(len(b) - end), old=[i + 1 for i in sorted(which)],
                        recs=[dict(hd=r["hd"], bd=r["bd"], r=r, same=r["same"]) for r in rs])

    # ---- requests which must be refused

    def rejects(self, rng):
        """name -> (arguments, stdin, environment)"""
        n = self.idbits // 4
        x = "".join(rng.choice("0123456789abcdef") for _ in range(n))
        while x in self.known:
            x = "".join(rng.choice("0123456789abcdef") for _ in range(n))
        k = self.known[0] if self.known else x
        none = os.path.join(self.top, "does-not-exist")
        short, long_, bad = x[:-1], x + "0", "g" + x[1:]
        d = b"something %s\n" % x.encode()
        c = {}
        for a, opts in dict(
                option=["-Q"], type=["-t", "warcinfo"], type2=["-t", ""], types=["-t", "resource", "-t", "resource"],
                help=["-h"], noarg=["-m"], mime=["-m", "image/png"], mime2=["-m", "text/plain "], mime3=["-m", ""],
                mime4=["-m", "application/json"],
                rres=["-r", k], ires=["-i", x], tr=["-t", "resource", "-r", k], ti=["-t", "resource", "-i", x],
                nor=["-t", "metadata", "-m", "text/plain"],
                unknown=["-t", "metadata", "-m", "text/plain", "-r", x],
                unknownurl=["-t", "metadata", "-m", "text/plain", "-r", PREFIX + x],
                shortr=["-t", "metadata", "-m", "text/plain", "-r", short],
                longr=["-t", "metadata", "-m", "text/plain", "-r", long_],
                badr=["-t", "metadata", "-m", "text/plain", "-r", bad],
                otherr=["-t", "metadata", "-m", "text/plain", "-r", "http://other.example/" + k],
                emptyr=["-t", "metadata", "-m", "text/plain", "-r", ""],
                twor=["-t", "metadata", "-m", "text/plain", "-r", k, "-r", k],
                shorti=["-t", "metadata", "-m", "text/plain", "-r", k, "-i", short],
                longi=["-t", "metadata", "-m", "text/plain", "-r", k, "-i", long_],
                badi=["-t", "metadata", "-m", "text/plain", "-r", k, "-i", bad],
                twoi=["-t", "metadata", "-m", "text/plain", "-r", k, "-i", x, "-i", x],
                mimem=["-t", "metadata", "-m", "application/octet-stream", "-r", k],
                mimed=["-t", "metadata", "-r", k],
                nofile=[none], isdir=[self.top], two=["-", "-"]).items():
            c["store-" + a] = (["store"] + opts, d, None)
        c["store-empty"] = (["store"], b"", None)
        c["store-emptyfile"] = (["store", "/dev/null"], None, None)
        c["store-emptym"] = (["store", "-t", "metadata", "-m", "text/plain", "-r", k], b"", None)
        for a, opts in dict(none=[], two=[k, k], unknown=[x], unknownz=["-z", x], unknownn=["-n", x], unknownq=["-q", x],
                            url=[PREFIX + x], short=[short], long=[long_], bad=[bad], option=["-Q", k], help=["-h"],
                            noarg=["-o"], other=["http://other.example/" + k], empty=[""]).items():
            c["get-" + a] = (["get"] + opts, None, None)
        for a, opts in dict(option=["-Q"], type=["-t", "segment"], help=["-h"], noarg=["-t"]).items():
            c["dumpindex-" + a] = (["dumpindex"] + opts, None, None)
        for a, opts in dict(bad=["xyz"], option=["-Q"], help=["-h"], other=["http://other.example/"]).items():
            c["byid-" + a] = (["byid"] + opts, None, None)
        for a, opts in dict(option=["-Q"], help=["-h"], nofile=[none], twice=["-", "-"]).items():
            c["filter-" + a] = (["filter"] + opts, b"", None)
        for a, l in dict(short=short, long="zz", other="http://other.example/" + x, bad=bad).items():
            c["filter-line-" + a] = (["filter"], (k + "\n" + l + "\n").encode(), None)
        for cmd in ("housekeeping", "reindex", "audit", "rebuild", "mksilo", "info", "stevedore", "stow"):
            c[cmd + "-option"] = ([cmd, "-Q"], b"", None)
            c[cmd + "-help"] = ([cmd, "-h"], b"", None)
        c["housekeeping-arg"] = (["housekeeping", "x"], None, None)
        c["info-arg"] = (["info", "x"], None, None)
        c["mksilo-none"] = (["mksilo"], None, None)
        for a, l in dict(word=["abc"], empty=[""], tail=["1x"], neg=["--", "-1"], huge=["99999999999"], mixed=["7777", "x"], space=["1 2"],
                         frac=["1.5"]).items():
            c["mksilo-" + a] = (["mksilo"] + l, None, None)
        c["audit-i"] = (["audit", "-i", "x"], None, None)
        c["unknown-command"] = (["frobnicate"], None, None)
        c["no-command"] = ([], None, None)
        c["json"] = (["-j", "store"], d, None)
        c["cgi-env"] = (["cgi"], None, {})
        c["cgi-post"] = (["cgi"], None, dict(GATEWAY_INTERFACE="CGI/1.1", REQUEST_METHOD="POST", PATH_INFO="/" + k))
        c["cgi-version"] = (["cgi"], None, dict(GATEWAY_INTERFACE="CGI/2.0", REQUEST_METHOD="GET", PATH_INFO="/" + k))
        c["cgi-path"] = (["cgi"], None, dict(GATEWAY_INTERFACE="CGI/1.1", REQUEST_METHOD="GET"))
        return c

    def reject_one(self, name, c):
        a, data, env = c
        rc, out, err = self.run(*a, stdin=data, env=env)
        return self.log("reject", rc, what=name)

    def reject(self, rng, cmds=None):
        c = self.rejects(rng)
        n = rng.choice([x for x in sorted(c) if cmds is None or x.split("-")[0] in cmds])
        return self.reject_one(n, c[n])

    def rejectall(self, rng):
        c = self.rejects(rng)
        for n in sorted(c):
            self.reject_one(n, c[n])

    def info(self):
        rc, out, err = self.run("info")
        return self.log("info", rc, nout=len(out))

    # ---- the world

    def env_event(self, what, **kw):
        return self.log("env", 0, what=what, **kw)

    def protect(self, n, on=True):
        os.chmod(self.path(n), 0o440 if on else 0o640)
        return self.env_event("protect" if on else "unprotect", n=n)

    def hold(self, n, on=True):
        p = self.path(n, True)
        if on:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.close(os.open(p, os.O_CREAT | os.O_EXCL | os.O_RDWR, 0o640))
        else:
            os.unlink(p)
        return self.env_event("hold" if on else "unhold", n=n)

    def setconf(self, maxsize=None, sort=None):
        """Somebody edits the configuration"""
        self.maxsize = maxsize or self.maxsize
        self.sort = sort or self.sort
        self.writeconf()
        return self.env_event("conf", max=self.maxsize)

    def setcache(self, b):
        p = self.dir + "_.cache"
        if b is None:
            if os.path.exists(p):
                os.unlink(p)
        else:
            with open(p, "wb") as f:
                f.write(b)
        return self.env_event("cache", n=-1)

    def loseindex(self, how="all", keep=None):
        for f in ("index.sorted", "index.appendix", "index.housekeep"):
            p = self.dir + f
            if how == "truncate" and f == "index.appendix" and os.path.exists(p):
                k = os.path.getsize(p) // 32 * 32
                with open(p, "r+b") as fh:
                    fh.truncate(keep * 32 if keep * 32 < k else k)
            elif how == "appendix" and f != "index.appendix":
                continue
            elif os.path.exists(p):
                os.unlink(p)
        return self.env_event("loseindex", n=-1)
