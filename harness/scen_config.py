"""Configuration files"""
import os, re, subprocess
import content
from jobs import family
from aw import clip, member, record, sha, silo_relname

BADBYTES = (0x00, 0xc0, 0xc1, 0xf5, 0xff)
MIMES = ("application/octet-stream", "text/plain", "application/json", "image/png", "x/y", "TEXT/html")
GOODSIZE = ("4096", "4000", "5k", "6K", "7kb", "8KB", "+5000", "9e3", "0.5e4", "1.1e4", "123e2", "12.5k", "0.01M", ".02M", "5000b", "15360",
            "4.k", "00008192", "40000e-1", "1M", "2.5m", "1G", "3.5G", "1T", "2Tb", "1p", "99999999999")
BADSIZE = ("x", "5kk", "-1", "-5k", "5q", "50%", "e5", ".", "5e", "5ek", "k", "1.2.3", "5b5", "0x5000", "5,000", "--5")
GOODBASE = ("%08u.warc.gz", "%u", "%4u.gz", "silo-%u.warc.gz", "a%%b%u%%", "%d.x", "%05d", "S%uS")
BADBASE = ("silo.gz", "%s", "%u.%u", "%", "%%", "%lu", "d/%u", "%u/x", "100%%", "%f", "%08", "%n")
GOODBITS = ("64", "96", "128", "100", "132", "256", "248")
BADBITS = ("0", "63", "60", "257", "260", "130", "65", "98", "abc", "-128", "1280")


def make(rng, dirname):
    """A good configuration: {section: [(name, argument or None)]} in some order"""
    prefix = rng.choice(("http://archive.example/", "file:///x/y/", "urn:x/", "HTTP://Example.Com/a:b/", "/"))
    c = [["WARC-Record-ID", [[prefix, rng.choice(GOODBITS) if rng.random() < 0.7 else None]]],
         ["silo.directory", [[dirname, None]]]]
    if rng.random() < 0.8:
        c.append(["silo.max_size", [[rng.choice(GOODSIZE[:19] if rng.random() < 0.7 else GOODSIZE), None]]])
    if rng.random() < 0.7:
        c.append(["silo.basename", [[rng.choice(GOODBASE), None]]])
    if rng.random() < 0.5:
        c.append(["index.sort_size", [[rng.choice(("4096", "4k", "4097", "5k", "10M", "1e6", "0.5M")), None]]])
    for n in ("resource", "metadata"):
        if rng.random() < 0.85:
            k = rng.choice((0, 1, 2, 3, 6))
            l = [[m, rng.choice((None, None, "/usr/bin/validator -x"))] for m in rng.sample(MIMES, k)]
            if rng.random() < 0.15:
                l.insert(rng.randrange(len(l) + 1), ["*", None])
            c.append([n + ".mime-types", l])
    if rng.random() < 0.85:
        l = []
        for k in range(rng.choice((0, 1, 2, 5))):
            n = rng.choice(("operator:", "description:", "Title:", "software:", "format:", "conformsto:", "publisher:", "http-header-from:",
                            "is-Part-Of:"))
            v = rng.choice(("me", "The Museum of Odd Things", "a  b\tc", "d\u00e9j\u00e0 vu".encode().decode("latin1"), "x" * 100, "key: value", "50%s %n",
                            None))
            l.append([n, v])
        c.append(["warcinfo.body", l])
    for k in range(rng.choice((0, 0, 1, 2))):
        c.append([rng.choice(("stow.job%d", "other%d", "silo.%d", "x y%d")) % k,
                  [[rng.choice(("directory", "cmd", "whatever")), rng.choice((None, "a b", "/tmp"))] for _ in range(rng.randrange(4))]])
    rng.shuffle(c)
    for s in c:
        if rng.random() < 0.15:
            s[0] = rng.choice((s[0].upper(), s[0].lower(), s[0].swapcase()))
    return c


def sect(c, n):
    for s in c:
        if s[0].lower() == n.lower():
            return s
    s = [n, []]
    c.append(s)
    return s


SINGLE = ("silo.directory", "silo.max_size", "silo.basename", "index.sort_size")


def spoil(rng, c):
    """Make it defective"""
    k = rng.choice(("drop", "dup", "size", "sort", "base", "bits", "slash", "two", "arg", "none", "twoid"))
    if k == "drop":
        c.remove(sect(c, rng.choice(("WARC-Record-ID", "silo.directory"))))
    elif k == "dup":
        s = rng.choice(c)
        n = s[0] if rng.random() < 0.6 else s[0].swapcase()
        c.insert(rng.randrange(len(c) + 1), [n, [list(x) for x in s[1]] if rng.random() < 0.6 else []])
    elif k == "size":
        sect(c, "silo.max_size")[1] = [[rng.choice(BADSIZE), None]]
    elif k == "sort":
        sect(c, "index.sort_size")[1] = [[rng.choice(BADSIZE + ("0", "1", "4095", "3k", "0.001M", "4.095e3")), None]]
    elif k == "base":
        sect(c, "silo.basename")[1] = [[rng.choice(BADBASE), None]]
    elif k == "bits":
        sect(c, "WARC-Record-ID")[1][0][1] = rng.choice(BADBITS)
    elif k == "slash":
        s = sect(c, rng.choice(("WARC-Record-ID", "silo.directory")))[1]
        s[0][0] = s[0][0].rstrip("/") or "x"
    else:
        if k == "twoid":
            s = sect(c, "WARC-Record-ID")[1]
            s.append(list(s[0]))
            return
        s = sect(c, rng.choice(SINGLE))[1]
        if not s:
            s.append(["5k", None])
        if k == "two":
            s.append([rng.choice((s[0][0], "6k", "x")), None])
        elif k == "arg":
            s[0][1] = rng.choice(("k", "x", "4096"))
        else:
            del s[:]


def write(rng, c):
    """Write it out, one way or another"""
    out = []
    ws = lambda: rng.choice(("\t", " ", "\t\t", "        ", " \t"))
    noise = rng.choice((0, 0.1, 0.4))

    def line(x):
        if rng.random() < noise:
            out.append(rng.choice(("", "# comment", "   ", "\t# x:", "#a:", "  \r", "#")))
        if rng.random() < noise:
            x += rng.choice((" ", "\t", "  # comment", "#x", "\r", " \t "))
        out.append(x)
    for n, es in c:
        line(n + ":")
        for e, a in es:
            line(ws() + e + (ws() + a if a is not None else ""))
    return out


def snap(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for x in ds:
            out[os.path.join(d, x)] = ""
        for x in fs:
            with open(os.path.join(d, x), "rb") as f:
                out[os.path.join(d, x)] = sha(f.read())
    return out


@family
def fam_config(ctx):
    """Configuration files of all kinds"""
    rng = ctx.rng
    ev = []
    for n in range(ctx.p.get("n", 12)):
        ev.append(one(ctx, rng, n))
    ctx.emit("ConfigTrace", dict(name="config:" + str(ctx.job["seed"]), ev=ev))


def one(ctx, rng, n):
    top = os.path.join(ctx.top, "k%d" % n)
    dirname = os.path.join(top, rng.choice(("a", "b-c", "d.e"))) + "/"
    os.makedirs(dirname)
    c = make(rng, dirname)
    if "/" == sect(c, "WARC-Record-ID")[1][0][0] and rng.random() < 0.9:
        sect(c, "WARC-Record-ID")[1][0][0] = "http://archive.example/"
    bad = rng.random() < 0.5
    text = None
    lines = None
    if bad:
        r = rng.random()
        if r < 0.6:
            spoil(rng, c)
            lines = write(rng, c)
        elif r < 0.85:
            lines = write(rng, c)
            x = rng.choice(("junk", "a: b", "silo.max_size: 5000", "silo.max_size = 5000", "two:colons:", "x", "no colon # :", "[section]"))
            lines.insert(rng.randrange(len(lines) + 1), x)
        elif r < 0.9:
            lines = ["\tentry"] + write(rng, c)
        else:
            text = rng.choice(("bytes", "bytes", "empty", "missing", "dir", "cut"))
            if text == "cut":
                c.remove(sect(c, "silo.basename"))
            lines = write(rng, c)
    if lines is None:
        lines = write(rng, c)
    home = rng.random() < 0.2 and not any(os.path.exists(x) for x in ("/etc/aardwarc.conf", "/usr/local/etc/aardwarc.conf"))
    cfg = os.path.join(top, ".aardwarc.conf" if home else "c")
    b = "\n".join(lines).encode("latin1") + (b"\n" if rng.random() < 0.9 else b"")
    if text == "bytes":
        k = rng.randrange(len(b))
        b = b[:k] + bytes([rng.choice(BADBYTES)]) + b[k:]
    elif text == "empty":
        b = b""
    elif text == "cut":
        b = b[:rng.randrange(len(b))]
    if text == "dir":
        os.mkdir(cfg)
    elif text != "missing":
        with open(cfg, "wb") as f:
            f.write(b)
    env = dict(os.environ, LC_ALL="C", TZ="UTC", HOME=top)
    before = snap(top)

    def run(*args, stdin=None):
        ctx.ncmd += 1
        try:
            r = subprocess.run([ctx.bin] + ([] if home else ["-c", cfg]) + list(args), input=b"" if stdin is None else stdin,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=20, cwd=top)
        except subprocess.TimeoutExpired:
            return 2000, b""
        return (r.returncode if r.returncode >= 0 else 1000 - r.returncode), r.stdout

    runs, mimes, gets, objs = [], [], [], []
    good = False

    def do(cmd, *args):
        rc, out = run(cmd, *args)
        runs.append(dict(cmd=cmd, rc=rc, out=out.decode("latin1").rstrip("\n") if cmd == "info" else ""))
        return rc
    good = do("info") == 0
    # Something for every type, and something which fills silos
    big = rng.random() < 0.6
    last = ""
    for k in range(rng.choice((2, 4, 6))):
        wt = "metadata" if last and rng.random() < 0.4 else "resource"
        l = [e for e, x in sect(c, wt + ".mime-types")[1] if e != "*"]
        m = rng.choice(l) if l and rng.random() < 0.6 else rng.choice(MIMES) if rng.random() < 0.9 else rng.choice(("IMAGE/PNG", "text/html", "application/pdf", "text/plai", "*", "Text/Plain"))
        d = content.make(rng, "rnd" if big and not k else "text", rng.randrange(30000, 60000) if big and not k else rng.randrange(1, 2000))
        a = ["store"]
        if wt == "metadata":
            a += ["-t", wt, "-r", last]
        if m != "application/octet-stream" or wt == "metadata" or rng.random() < 0.5:
            a += ["-m", m]
        rc, out = run(*a, stdin=d)
        out = out.decode("latin1").rstrip("\n")
        mimes.append(dict(wt=wt, mime=m, dig=sha(d), rc=rc, out=out))
        if rc == 0:
            objs.append((out, d))
            if wt == "resource":
                last = out
    if good and objs:
        # The same thing in other words
        if not bad and rng.random() < 0.5 and not text:
            rng.shuffle(c)
            with open(cfg, "wb") as f:
                f.write("\n".join(write(rng, c)).encode("latin1"))
        for i, d in objs:
            rc, out = run("get", "-q", i)
            gets.append(dict(rc=rc, same=out == d))
        do("audit")
        do("housekeeping")
        do("dumpindex")
    elif not good:
        do("mksilo", "1")
        do("housekeeping")
        do("reindex")
    after = snap(top)
    touched = {k: v for k, v in before.items() if k != cfg} != {k: v for k, v in after.items() if k != cfg}
    silos, indir = [], True
    base = sect(c, "silo.basename")[1]
    base = base[0][0] if base else "%08u.warc.gz"
    names = {}
    if good:
        try:
            names = {silo_relname(k, base): k for k in range(200)}
        except (TypeError, ValueError):
            pass
    for p in sorted(set(after) - set(before)):
        rel = os.path.relpath(p, dirname)
        if rel.startswith("../"):
            indir = False
            continue
        if after[p] == "" or os.path.basename(p) in ("index.sorted", "index.appendix", "_.cache"):
            continue
        with open(p, "rb") as f:
            b2 = f.read()
        s = dict(n=names.get(rel, -1), name=os.path.basename(p), sz=clip(len(b2)), title="", body=[])
        r = record(b2, 0)
        if r is not None:
            s["title"] = r["title"]
            x = member(b2, r["hlen"])[0].decode("latin1").split("\r\n")
            s["body"] = [l for l in x if l and not re.match(r"(title|format|conformsTo|software): ", l)]
        silos.append(s)
    if text == "dir":
        b = b""
    tl = b.decode("latin1").split("\n") if text != "missing" else []
    return dict(lines=tl, regular=text not in ("dir", "missing"), text=not any(x in (0, 0xc0, 0xc1) or x > 0xf4 for x in b),
                runs=runs, mimes=mimes, touched=touched, dir=indir, silos=silos, gets=gets, home=home, d=0)
