"""Archives which get damaged: what do audit and get make of it?"""
import json, os, struct, zlib
import content
from jobs import family
from aw import *
from scen import conf, rhex, seglens
import tlc


def mkmember(data, aa=0, level=9):
    """A gzip member; aa: None leaves the length field out, otherwise it is that much off"""
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    z = c.compress(data) + c.flush()
    tail = struct.pack("<II", zlib.crc32(data), len(data) & 0xffffffff)
    if aa is None:
        return b"\x1f\x8b\x08\0\0\0\0\0\x02\x03" + z + tail
    n = 24 + len(z) + 8
    return b"\x1f\x8b\x08\x04\0\0\0\0\x02\x03" + struct.pack("<H", 12) + b"Aa" + struct.pack("<HQ", 8, n + aa) + z + tail


def mkheader(hd, ver="WARC/1.1"):
    return mkmember((ver + "\r\n" + "".join("%s: %s\r\n" % x for x in hd) + "\r\n").encode(), None)


def flip(v, rng):
    """Another hex digit somewhere in the value's last 16"""
    p = [k for k, c in enumerate(v) if c in "0123456789abcdef"][-16:]
    p = rng.choice(p)
    return v[:p] + rng.choice([c for c in "0123456789abcdef" if c != v[p]]) + v[p + 1:]


HDR = dict(clen="Content-Length", bdig="WARC-Block-Digest", id="WARC-Record-ID", pdig="WARC-Payload-Digest",
           segno="WARC-Segment-Number", segorig="WARC-Segment-Origin-ID", segtot="WARC-Segment-Total-Length",
           type="WARC-Type", refers="WARC-Refers-To", mime="Content-Type", date="WARC-Date",
           cgz="Content-Length-GZIP")


def edit_header(hd, what, how, rng):
    """A list of headers with one edited, or None where that makes no sense"""
    n = HDR[what]
    hd = [x for x in hd if x[0] != "z"]
    v = dict(hd).get(n)
    if how == "drop":
        return [x for x in hd if x[0] != n] if v is not None else None
    if how == "add":
        return hd + [(n, {"segtot": "17", "segno": "2", "pdig": "sha256:" + "0" * 64,
                          "segorig": "<" + PREFIX + dict(hd)["WARC-Record-ID"][len(PREFIX) + 1:],
                          "refers": dict(hd)["WARC-Record-ID"]}[what])] if v is None else None
    if v is None:
        return None
    if how == "flip":
        w = flip(v, rng)
    elif how == "inc":
        w = str(int(v) + 1)
    elif how == "dec":
        w = str(int(v) - 1)
    elif how == "zero":
        w = "0"
    elif how == "junk":
        w = "x" + v
    elif how == "tail":
        w = v + "7"
    elif how == "alg":
        w = "sha1" + v[6:]
    elif how in ("resource", "metadata", "warcinfo", "continuation"):
        w = how
    elif how == "other":
        w = "text/other" if what == "mime" else "2001-01-01T00:00:00Z"
    else:
        raise ValueError(how)
    if w == v:
        return None
    return [(a, w if a == n else b) for a, b in hd]


def damage(case, buf, r, keep, rng):
    """-> (new bytes, from where to where of the old ones was changed or moved) or None"""
    part, how = case["part"], case["how"]
    o, h, b, s = r["off"], r["hlen"], r["blen"], r["len"] - r["hlen"] - r["blen"]
    e = o + r["len"]
    hd, body = keep[o]
    last = e == len(buf)

    def put(x):
        return buf[:o] + x + buf[e:], o, (e if len(x) == e - o else len(buf))
    H, B, S = buf[o:o + h], buf[o + h:o + h + b], buf[o + h + b:e]
    if part in HDR:
        nh = edit_header(hd, part, how, rng)
        return None if nh is None else put(mkheader(nh) + B + S)
    if part == "body":
        if how == "other":
            k = rng.randrange(len(body))
            return put(H + mkmember(body[:k] + bytes([body[k] ^ 1 << rng.randrange(8)]) + body[k + 1:]) + S)
        if how == "shorter":
            return put(H + mkmember(body[:-1]) + S)
        if how == "longer":
            return put(H + mkmember(body + b"\n") + S)
        if how == "empty":
            return put(H + mkmember(b"") + S)
        if how == "repack":
            return put(H + mkmember(body, level=rng.choice((0, 1, 6))) + S)
        if how == "aa-":
            return put(H + mkmember(body, aa=-1) + S)
        if how == "aa+":
            return put(H + mkmember(body, aa=1) + S)
        if how == "noaa":
            return put(H + mkmember(body, aa=None) + S)
        if how == "gone":
            return put(H + S)
        if how == "crc":
            return put(H + B[:-8] + bytes([B[-8] ^ 1]) + B[-7:] + S)
    if part == "sep":
        if how == "gone":
            return put(H + B)
        if how == "double":
            return put(H + B + S + S)
        if how == "flip":
            k = rng.randrange(len(S))
            return put(H + B + S[:k] + bytes([S[k] ^ 1 << rng.randrange(8)]) + S[k + 1:])
        if how == "other":
            return put(H + B + mkmember(b"\r\n\r\n", None))
    if part in ("hdrbytes", "bodybytes", "anybytes"):
        lo, hi = dict(hdrbytes=(o, o + h), bodybytes=(o + h, o + h + b), anybytes=(o, e))[part]
        k = rng.randrange(lo, hi)
        if how == "early":
            k = lo + min(rng.randrange(0, 24), hi - lo - 1)
        elif how == "late":
            k = hi - 1 - min(rng.randrange(0, 9), hi - lo - 1)
        if how in ("flip", "early", "late"):
            return buf[:k] + bytes([buf[k] ^ 1 << rng.randrange(8)]) + buf[k + 1:], o, e
        if how == "zero":
            n = min(rng.choice((1, 8, 100, 4096)), hi - k)
            return buf[:k] + bytes(n) + buf[k + n:], o, e
        if how == "insert":
            return buf[:k] + rng.randbytes(rng.choice((1, 10))) + buf[k:], o, len(buf)
        if how == "delete":
            n = min(rng.choice((1, 10)), hi - k)
            return buf[:k] + buf[k + n:], o, len(buf)
        if how == "cut":
            return buf[:k], o, len(buf)
    if part == "file":
        if how == "append1":
            return buf + rng.choice((b"\0", b"\n", b"\x1f")), len(buf), len(buf)
        if how == "append":
            return buf + rng.choice((bytes(24), b"junk" * 10, buf[:30])), len(buf), len(buf)
        if how == "cutrec":
            return (buf[:o], o, len(buf)) if o > 0 else None
        if how == "remove":
            return None, 0, len(buf)
        if how == "norec":
            return (buf[:o] + buf[e:], o, len(buf)) if o > 0 else None
    raise ValueError(case)


def cases(scratch):
    """The cases TLC enumerates"""
    rc, out = tlc.run("DamageMC", "DamageMC", scratch, workers=1)
    cs = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"CASE (.*)"$', out, re.M)]
    if not cs:
        raise tlc.TLCError(out[-2000:])
    return sorted(cs, key=lambda c: json.dumps(c, sort_keys=True))


def kinds(r):
    if r["type"] == "warcinfo":
        return "warcinfo"
    if r["segno"] > 0:
        return "first" if r["segno"] == 1 else "last" if r["segtot"] >= 0 else "middle"
    return r["type"]


@family
def fam_damage(ctx):
    rng, p = ctx.rng, ctx.p
    c = conf(rng, **dict(dict(maxsize=rng.choice((4096, 8192, 15360))), **p.get("conf", {})))
    a = ctx.archive(**c)
    M = c["maxsize"]
    mk = lambda w: content.make(rng, rng.choice(("rnd", "text", "mix", "rnd")), content.size(rng, M, w))
    i = a.store(mk("small"))
    a.store(mk("tiny"), kind="metadata", ref=i)
    j = a.store(rng.randbytes(int(M * rng.choice((1.5, 2.5)))), how="file")
    a.store(mk("small"), kind="metadata", ref=j)
    a.store(bytes(M * rng.choice((1, 10))) + mk("tiny"), how="file")
    if rng.random() < 0.4:
        a.store(rng.randbytes(int(2.7 * M)), kind="metadata", ref=i, how="file")
    a.store(mk("tiny"))
    if rng.random() < 0.5:
        a.housekeep()
    a.getall()
    a.audit(ignore=False)
    recs = {}
    keep = {}
    for n in a.silos:
        keep[n] = {}
        for r in records(a.silos[n][0], 0, keep[n])[0]:
            recs.setdefault(kinds(r), []).append((n, r))
    for case in p["cases"]:
        for n, r in rng.sample(recs.get(case["kind"], []), 1) if recs.get(case["kind"]) else ():
            buf = a.silos[n][0]
            d = damage(case, buf, r, keep[n], rng)
            if d is None or d[0] == buf:
                continue
            new, lo, hi = d
            one_damage(a, case, n, buf, new, lo, hi, rng)


def one_damage(a, case, n, buf, new, lo, hi, rng):
    fn = a.path(n)
    if new is None:
        os.unlink(fn)
    else:
        with open(fn, "wb") as f:
            f.write(new)
    res = []
    for i in a.known:
        res.append(a.fetch(i, ""))
        res.append(a.fetch(i, rng.choice(("q", "z", "cgi", "cgiz", "o", "qz"))))
    rc, out, err = a.run("audit")
    o = out.decode("latin1")
    nsil = len(re.findall(r"^\d+ good \d+ bad entries in this silo", o, re.M))
    problem = bool(rc or re.search(r"ERROR|Left on pending|[1-9]\d* bad entries", o))
    # the damaged silo by name
    rc1, out1, err1 = a.run("audit", fn)
    o1 = out1.decode("latin1")
    p1 = bool(rc1 or re.search(r"ERROR|Left on pending|[1-9]\d* bad entries", o1))
    keep = {}
    rs, end = records(new or b"", 0, keep)
    segs = {}
    for m, sl in list(a.silos.items()) + [(n, (0, 0, rs))]:
        for r in sl[2]:
            if r["segno"] > 0 and (m != n or sl[2] is rs):
                b = keep[r["off"]][1] if m == n else a.bodies.get((m, r["off"]), b"")
                segs.setdefault(r["id"] if r["segno"] == 1 else r["segorig"], {})[r["segno"]] = b
    cats = [dict(id=i, dig=sha(b"".join(x[k] for k in sorted(x)))) for i, x in sorted(segs.items())]
    hit = [r["off"] for r in a.silos[n][2] if lo < r["off"] + r["len"] and r["off"] < hi]
    with open(fn, "wb") as f:
        f.write(buf)
    os.chmod(fn, 0o640)
    a.log("damage", 0, case=case, n=n, gone=new is None, junk=clip(len(new or b"") - end), recs=rs, hit=hit,
          res=res, problem=problem, p1=p1, rca=rc, nsil=nsil,
          cats=cats)
