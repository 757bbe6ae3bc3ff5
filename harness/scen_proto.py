"""Sessions with stevedore, and stow"""
import fcntl, json, os, random, re, shutil, signal, stat, struct, subprocess, termios, threading, time
import content
from jobs import family
from aw import *
from scen import conf, rhex

COMPAT = "/opt/vp/compat/bin"


def frame(rng, cmd, data=b"", odd=False):
    n = len(data)
    if n == 0:
        return bytes([cmd])
    forms = []
    if n == 32:
        forms.append(bytes([1 << 6 | cmd]))
    elif n < 256:
        forms.append(bytes([2 << 6 | cmd, n]))
    if not forms or odd:
        if n < 256:
            forms.append(bytes([2 << 6 | cmd, n]))
        forms.append(bytes([3 << 6 | cmd]) + struct.pack(">I", n))
    return rng.choice(forms) + data


def replies(b):
    """The answers, taken apart"""
    out, p = [], 0
    while p < len(b):
        u = b[p]
        cmd, f = u & 7, u >> 6
        k = (1, 1, 2, 5)[f]
        if p + k > len(b):
            out.append(dict(t="junk", id="short", n=0))
            break
        n = (0, 32, b[p + 1] if f == 2 else 0, struct.unpack(">I", b[p + 1:p + 5])[0] if f == 3 else 0)[f]
        x = b[p + k:p + k + n]
        p += k + n
        if len(x) < n or (u & 0x38) or cmd > 3:
            out.append(dict(t="junk", id=x.decode("latin1")[:70], n=n))
        elif cmd == 0:
            out.append(dict(t="msg", id="", n=0))
        elif cmd == 1:
            if n == 0:
                out.append(dict(t="mark", id="", n=0))
            elif n == 4:
                out.append(dict(t="skip", id="", n=clip(struct.unpack(">I", x)[0])))
            else:
                out.append(dict(t="filter", id=x.decode("latin1").lower(), n=0))
        else:
            s = x.decode("latin1")
            out.append(dict(t="data" if cmd == 2 else "meta", id=s[len(PREFIX):] if s.startswith(PREFIX) else "?" + s, n=0))
    return out


def linger_on(pg, secs=5):
    """Wait for the last of a process group"""
    t = time.time()
    while time.time() - t < secs:
        try:
            os.killpg(pg, 0)
        except OSError:
            return
        alive = False
        for x in os.listdir("/proc"):
            if x.isdigit():
                try:
                    with open("/proc/%s/stat" % x) as f:
                        y = f.read().rpartition(")")[2].split()
                except OSError:
                    continue
                alive |= int(y[2]) == pg and y[0] not in "ZX"
        if not alive:
            return
        time.sleep(0.01)
    try:
        os.killpg(pg, signal.SIGKILL)
    except OSError:
        pass


def children(pid):
    try:
        return [int(x) for x in open("/proc/%d/task/%d/children" % (pid, pid)).read().split()]
    except OSError:
        return []


def freeze(pid, secs=0.3):
    """Stop the first child it gets"""
    end = time.time() + secs
    while time.time() < end:
        for c in children(pid):
            try:
                os.kill(c, signal.SIGSTOP)
                return [c]
            except OSError:
                pass
    return []


def drained(fd, secs=20):
    """Until all which was written has been read"""
    end = time.time() + secs
    while time.time() < end:
        if not struct.unpack("i", fcntl.ioctl(fd, termios.FIONREAD, b"0000"))[0]:
            break
        time.sleep(0.01)


def metadig(ref, dig):
    return sha(("<" + PREFIX + ref + ">\n" + dig + "\n").encode())


class Session:
    """What a client sends: frames, and the requests they complete"""

    def __init__(self, a, rng):
        self.a, self.rng, self.buf, self.done = a, rng, bytearray(), []
        self.open = None        # what has been sent of an unfinished request: (start, kind, body positions)
        self.bodies = []        # (first byte, last byte, kind, ref, offset of body in the request) of the frames with bodies

    def put(self, b):
        self.buf += b

    def req(self, **kw):
        """The request which ends here"""
        self.done.append((len(self.buf), dict(dict(t="", id="", dig="", mdig="", len=0, ref=""), **kw)))

    def filter(self, i, full=None):
        self.put(frame(self.rng, 1, (full or i).encode(), self.odd))
        self.req(t="filter", id=i.lower()[:self.a.idbits // 4])

    def mark(self):
        self.put(frame(self.rng, 1))
        self.req(t="mark")

    def pieces(self, d):
        rng, k, out = self.rng, 0, []
        big = rng.choice((1, 33, 300, 4096, 8192, 8193, 70000, 1 << 20))
        while k < len(d):
            n = rng.choice((1, 31, 32, 33, 255, 256, big, big)) if rng.random() < 0.3 or len(d) < 9999 else max(big, 300)
            out.append(d[k:k + n])
            k += n
        return out

    def data(self, d, between=()):
        n0 = len(self.buf)
        for k, x in enumerate(self.pieces(d)):
            h = frame(self.rng, 2, x, self.odd)
            self.bodies.append((len(self.buf) + len(h) - len(x), len(self.buf) + len(h), n0))
            self.put(h)
            if between and self.rng.random() < 0.3:
                self.filter(between.pop())
        self.put(frame(self.rng, 2))
        self.req(t="data", dig=sha(d), len=clip(len(d)))

    def meta(self, ref, d, full=None):
        self.put(frame(self.rng, 3, (full or ref).encode(), self.odd))
        n0 = len(self.buf)
        for x in self.pieces(d):
            h = frame(self.rng, 3, x, self.odd)
            self.bodies.append((len(self.buf) + len(h) - len(x), len(self.buf) + len(h), n0, ref))
            self.put(h)
        self.put(frame(self.rng, 3))
        self.req(t="meta", dig=sha(d), len=clip(len(d)), ref=ref, mdig=metadig(ref, sha(d)))

    def other(self):
        self.put(frame(self.rng, self.rng.randrange(4, 8), self.rng.randbytes(self.rng.choice((0, 1, 32, 100, 300, 9000)))))
        self.req(t="other")

    def cut(self, pos):
        """Only so much of it"""
        self.buf = self.buf[:pos]
        self.done = [x for x in self.done if x[0] <= pos]
        last = [x for x in self.bodies if x[0] < pos]
        part = dict(t="", id="", dig="", mdig="", len=0, ref="")
        if last:
            l = last[-1]
            if not any(e > l[1] - 1 and r["t"] in ("data", "meta") and e <= pos for e, r in self.done):
                body = b"".join(self.buf[x[0]:x[1]] for x in self.bodies if x[0] < pos and x[2] == l[2])
                part.update(t="data" if len(l) == 3 else "meta", dig=sha(body), len=clip(len(body)))
                if len(l) > 3:
                    part.update(ref=l[3], mdig=metadig(l[3], sha(body)))
        return part

    def run(self, cut=False, part=None, mal=False, slow=False, linger=False, pause=(), secs=20):
        """pause: what is started when so much had been sent, gets to go on when it has everything"""
        rng, a = self.rng, self.a
        a.ncmd += 1
        p = subprocess.Popen([a.bin, "-c", a.cfgfn, "stevedore"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, env=a.env, start_new_session=True)
        got = []

        def reader():
            while True:
                x = os.read(p.stdout.fileno(), rng2.choice((1, 7, 4096, 65536)) if slow else 65536)
                if not x:
                    break
                got.append(x)
        rng2 = random.Random(1)
        th = threading.Thread(target=reader, daemon=True)
        th.start()
        hung = []

        def tooslow():
            hung.append(1)
            os.killpg(p.pid, signal.SIGKILL)
        to = threading.Timer(secs, tooslow)
        to.start()
        k, held = 0, []
        try:
            for x in pause:
                while k < x:
                    k += os.write(p.stdin.fileno(), self.buf[k:x])
                held = freeze(p.pid)
                if held:
                    break
            while k < len(self.buf):
                n = rng.choice((1, 2, 3, 17, 100)) if slow and rng.random() < 0.6 and k < 3000 else rng.choice((5000, 65536, 1 << 20))
                k += os.write(p.stdin.fileno(), self.buf[k:k + n])
                if slow and rng.random() < 0.1:
                    time.sleep(0.001)
            if held:
                drained(p.stdin.fileno())
            if linger:
                time.sleep(0.02)
        except OSError:
            pass
        for x in held:
            try:
                os.kill(x, signal.SIGCONT)
            except OSError:
                pass
        try:
            p.stdin.close()
        except OSError:
            pass
        rc = p.wait()
        # (what it had started may still be at it)
        th.join(60)
        to.cancel()
        p.stdout.close()
        rc = 2000 if hung else rc if rc >= 0 else 1000 - rc
        ids = []
        for e, r in self.done:
            if r["t"] in ("data", "meta"):
                i = (r["dig"] if r["t"] == "data" else r["mdig"])[:a.idbits // 4]
                if i not in ids:
                    ids.append(i)
        if len(ids) > 14:
            ids = rng.sample(ids, 14)
        if rc:
            # what it left behind may take a moment
            linger_on(p.pid)
        res = []
        for i in ids:
            x = a.fetch(i, "")
            if x["rc"] == 0 or not cut:
                res.append({k: x[k] for k in ("id", "mode", "rc", "dig", "len")})
                if i not in a.known:
                    a.known.append(i)
        return a.log("session", rc, reqs=[r for e, r in self.done], reps=replies(b"".join(got)), cut=cut, part=part or dict(t="", id="", dig="", mdig="", len=0, ref=""), mal=mal, res=res)


def session(w, rng, n, a):
    s = Session(a, rng)
    s.odd = rng.random() < 0.3
    idl = a.idbits // 4
    w.setdefault("datas", [])
    w.setdefault("metas", [])
    coming = []

    def someid():
        r = rng.random()
        if a.known and r < 0.4:
            return rng.choice(a.known)
        if w["datas"] and r < 0.6:
            return sha(rng.choice(w["datas"]))[:idl]
        return rhex(rng, idl)
    style = rng.choice(("mix", "mix", "filter", "data", "stow"))
    for _ in range(n):
        op = rng.choices(("filter", "mark", "data", "meta", "other"),
                         dict(mix=(4, 2, 3, 2, 1), filter=(20, 3, 1, 0, 0), data=(1, 0, 6, 3, 1), stow=(8, 1, 3, 1, 0))[style])[0]
        if op == "filter":
            for _ in range(rng.choice((1, 1, 2, 5, 20))):
                i = someid()
                f = i + rhex(rng, 64 - idl) if rng.random() < 0.4 else i
                if rng.random() < 0.1:
                    f = f.upper()
                s.filter(i, f)
        elif op == "mark":
            s.mark()
        elif op == "data":
            if w["datas"] and rng.random() < 0.3:
                d = rng.choice(w["datas"])
            else:
                d = content.make(rng, rng.choice(content.KINDS), content.size(rng, a.maxsize, None if len(a.silos) < 60 else "tiny"))
                w["datas"].append(d)
            s.data(d, [someid() for _ in range(5)] if rng.random() < 0.4 else [])
            coming.append(sha(d)[:idl])
        elif op == "meta":
            refs = [i for i in a.known + coming]
            if not refs:
                continue
            if w["metas"] and rng.random() < 0.2:
                ref, d = rng.choice(w["metas"])
            else:
                ref, d = rng.choice(refs), rng.choice((b"{}\n", b"{\"a\": %d}" % rng.randrange(50), rng.randbytes(rng.choice((32, 300, 9000)))))
            if ref in refs:
                w["metas"].append((ref, d))
                s.meta(ref, d, ref + rhex(rng, 64 - idl) if rng.random() < 0.4 else None)
        else:
            s.other()
    return s


@family
def fam_sessions(ctx):
    """Sessions of all kinds, some of them cut off, some not making sense"""
    rng = ctx.rng
    c = conf(rng, **dict(dict(base="%08u.warc.gz"), **ctx.p.get("conf", {})))
    a = ctx.archive(**c)
    w = {}
    for _ in range(rng.randrange(3)):
        a.store(rng.randbytes(rng.choice((5, 500, c["maxsize"] if c["maxsize"] < 20000 else 900))), how="file")
    for _ in range(ctx.p.get("n", 5)):
        if len(a.silos) > 75:
            break
        s = session(w, rng, rng.choice((1, 3, 8, 15)), a)
        how = rng.choice(ctx.p.get("how", ("all", "all", "all", "cut", "bad")))
        slow = rng.random() < 0.4
        if how == "cut" and s.buf:
            pos = rng.choice([e for e, r in s.done] + [x[1] for x in s.bodies] + [rng.randrange(len(s.buf)) for _ in range(9)])
            part = s.cut(pos)
            s.run(cut=True, part=part, slow=slow, linger=rng.random() < 0.5)
        elif how == "bad":
            k = rng.choice(("short", "msg", "metaempty", "metaref", "dataend", "long", "notid", "metaend"))
            idl = a.idbits // 4
            if k == "short":
                s.put(frame(rng, 1, rhex(rng, idl - 1).encode()))
            elif k == "msg":
                s.put(frame(rng, 0, b"hello"))
            elif k == "metaempty":
                s.put(frame(rng, 3))
            elif k == "metaref":
                s.put(frame(rng, 3, rhex(rng, idl).encode()) + frame(rng, 3, b"{}") + frame(rng, 3))
            elif k == "dataend":
                s.put(frame(rng, 2))
            elif k == "long":
                s.put(frame(rng, 1, b"0" * 65))
            elif k == "notid":
                s.put(frame(rng, 1, b"x" * idl) + frame(rng, 1))
            elif k == "metaend":
                s.put(frame(rng, 3, b"") + frame(rng, 3, b"{}"))
            s.run(cut=True, mal=True, slow=slow)
        else:
            s.run(slow=slow, linger=rng.random() < 0.5)
        if rng.random() < 0.2:
            a.housekeep()
        for f in a.scan():
            # from one which was cut off
            if f.endswith(".hold"):
                os.unlink(a.dir + f)
                a.env_event("unhold")
    a.getall(ids=rng.sample(a.known, min(9, len(a.known))))
    a.audit()


@family
def fam_bulk(ctx):
    """More filter requests waiting than are taken care of in one go"""
    rng = ctx.rng
    c = conf(rng, **dict(dict(base="%08u.warc.gz"), **ctx.p.get("conf", {})))
    a = ctx.archive(**c)
    idl = a.idbits // 4
    for _ in range(2):
        a.store(rng.randbytes(rng.choice((5, 500))), how="file")
    s = Session(a, rng)
    s.odd = False
    pause = []
    for _ in range(10):
        s.filter(a.known[0])
        pause.append(len(s.buf))
    n = 40960
    k = n + rng.choice((-9, -3, 1, 15, 700, n + 9))
    marks = set(rng.sample(range(k), rng.choice((0, 0, 0, 2))))
    for j in range(k):
        if j in marks and abs(j % n - n / 2) < n / 2 - 50:
            s.mark()
            if rng.random() < 0.5:
                s.mark()
        if j in (0, k - 1) or j % n < 4 or -j % n < 14 or rng.random() < 0.0003:
            s.filter(rhex(rng, idl))
        else:
            s.filter(a.known[0] if j < k // 2 else a.known[1])
    if rng.random() < 0.5:
        s.mark()
    s.run(pause=pause, secs=60)
    a.getall()


@family
def fam_many(ctx):
    """Many objects, and index entries, between one housekeeping and the next"""
    rng = ctx.rng
    c = conf(rng, **dict(dict(base="%08u.warc.gz", maxsize=rng.choice((300000, 4000000)), sort=rng.choice((4096, 1 << 20))),
                         **ctx.p.get("conf", {})))
    a = ctx.archive(**c)
    idl = a.idbits // 4

    have = []

    def reads():
        a.getall(rng.sample(("", "q", "z", "cgi", "n"), 2), ids=rng.sample(a.known, 3), extra=[rhex(rng, idl)])
        ids = rng.sample(have, rng.choice((6, len(have) // 2, len(have)))) + [rhex(rng, idl) for _ in range(rng.choice((0, 3, 60)))]
        rng.shuffle(ids)
        a.filter([(i, i) for i in ids], rng.choice(((), ("r",), ("s",), ("v",))))
        a.byid([rng.choice(a.known)[:rng.randrange(1, 9)] for _ in range(3)])
        a.lookups([None, rng.choice(a.known)[:2]], ("", "resource"))
        a.reject(rng)
        a.info()
    for n in (ctx.p.get("n", rng.choice((140, 260))), 30):
        s = Session(a, rng)
        s.odd = False
        for k in range(n):
            d = b"%d %d\n" % (rng.randrange(10 ** 6), k)
            s.data(d)
            have.append(sha(d)[:idl])
            if rng.random() < 0.1:
                i = rng.choice(a.known) if a.known and rng.random() < 0.5 else sha(d)[:idl]
                s.meta(i, b"[%d]\n" % k)
        s.run(secs=300)
        reads()
        a.audit()
        if rng.random() < 0.7:
            a.housekeep()
            reads()
    a.rebuild(rng.choice(sorted(a.silos)))
    a.loseindex()
    a.reindex()
    reads()
    a.housekeep()


# ---------------------------------------------------------------------------------------
# stow

MTREE = """#!/bin/sh
# Takes down what mtree said, and then the world may change before anybody gets to see it
o="$MTLOG/$$"
d=
p=
for x in "$@"; do [ "$p" = -p ] && d="$x"; p="$x"; done
%s/mtree "$@" >"$o" || exit 1
mv "$o" "$MTLOG/$(basename "$d")"
[ -x "$MTLOG/hook" ] && "$MTLOG/hook" "$d"
exec dd if="$MTLOG/$(basename "$d")" bs=${MTBS:-4096} status=none
""" % COMPAT

NAMES = ("a", "b.txt", "with space", "tab\there", "new\nline", "#hash", "-dash", "star*", "back\\slash", "quo\"te", "d\u00e9j\u00e0", "eq=ual",
         "type=dir", "..x", ".dot", "semi;colon", "doll$ar", "per%cent", "x" * 120, "CAPS", "[br]", "sha256digest=0")


def tree(rng, top, n, a, datas):
    """Make up a directory tree: {path: data}"""
    files, dirs = {}, [top]
    os.makedirs(top)
    if rng.random() < 0.2:
        # A path which is not too long until mtree has spelled it out
        d = top
        for k in range(rng.randrange(15, 60)):
            d = os.path.join(d, rng.choice(("\u00e6\u00f8\u00e5" * 8, "\x01\x7f" * 20, " " * 30, "\\" * 30)) + "%d" % k)
            if len(os.fsencode(d)) > 3700:
                break
            os.mkdir(d)
            p = os.path.join(d, "f")
            if rng.random() < 0.4:
                files[p] = b"deep %d" % rng.randrange(1 << 40)
                with open(p, "wb") as f:
                    f.write(files[p])
    for k in range(n):
        if rng.random() < 0.25 and len(dirs) < 40:
            # (mtree is not up to newlines in the names of directories)
            d = os.path.join(rng.choice(dirs), rng.choice(NAMES)[:60].replace("\n", "_") + ("%d" % k if rng.random() < 0.7 else ""))
            if len(d) - len(top) < 600 and not os.path.lexists(d):
                os.mkdir(d)
                dirs.append(d)
            continue
        p = os.path.join(rng.choice(dirs), rng.choice(NAMES) + ("%d" % k if rng.random() < 0.7 else ""))
        if os.path.lexists(p) or len(p) - len(top) > 900:
            continue
        r = rng.random()
        if r < 0.05:
            os.symlink(rng.choice(("a", "/etc/passwd", "nowhere")), p)
        elif r < 0.08:
            os.mkfifo(p)
        elif r < 0.12:
            open(p, "w").close()
        elif r < 0.16 and files:
            os.link(rng.choice(sorted(files)), p)
            files[p] = open(p, "rb").read()
        else:
            if datas and rng.random() < 0.3:
                d = rng.choice(datas)
            else:
                d = content.make(rng, rng.choice(content.KINDS), content.size(rng, a.maxsize, rng.choice(("tiny", "tiny", "small", "mid", "near", "multi")))
                                 if len(files) < 40 else rng.randrange(1, 300))
                datas.append(d)
            with open(p, "wb") as f:
                f.write(d)
            files[p] = d
    return files


def stowrun(ctx, a, names, dirs, peer, bs=4096, ids=(), wantchanged=None):
    """Run it"""
    a.ncmd += 1
    log = os.path.join(ctx.top, "mt")
    env = dict(a.env, PATH=os.path.join(ctx.top, "bin") + ":" + COMPAT + ":/usr/bin:/bin", MTLOG=log, MTBS=str(bs))
    with open(os.path.join(ctx.top, "so"), "w+b") as so, open(os.path.join(ctx.top, "se"), "w+b") as se:
        p = subprocess.Popen([a.bin, "-c", a.cfgfn, "stow"] + names, stdin=subprocess.DEVNULL, stdout=so, stderr=se, env=env,
                             start_new_session=True)
        try:
            rc = p.wait(25)
            rc = rc if rc >= 0 else 1000 - rc
        except subprocess.TimeoutExpired:
            rc = 2000
        if rc:
            if rc == 2000:
                os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            linger_on(p.pid)
        se.seek(0)
        err = se.read().decode("latin1")
    metas = re.findall(r"STOWED as (\S+)", err)
    # What there is to store, by ID
    jobs, files, idl = [], {}, a.idbits // 4
    for k, n in enumerate(names):
        for path, d in sorted(dirs[n][1].items()):
            i = sha(d)
            files[i[:idl]] = dict(dig=i, len=clip(len(d)))
        m = b""
        mfn = os.path.join(log, os.path.basename(dirs[n][0]))
        if os.path.exists(mfn):
            m = open(mfn, "rb").read()
        files[sha(m)[:idl]] = dict(dig=sha(m), len=clip(len(m)))
        j = dict(name=n, man=sha(m), metaid="", mt="", target="", mdig="", mlen=0,
                 changed=[], wantchanged=(wantchanged or {}).get(n, []))
        if k < len(metas):
            x = metas[k]
            j["metaid"] = x[len(PREFIX):] if x.startswith(PREFIX) else "?" + x
            r, out, e2 = a.run("get", "-q", x)
            j["mdig"], j["mlen"] = sha(out), clip(len(out))
            try:
                js = json.loads(out)
                if js[0] == "STOW3.0":
                    j["mt"] = js[1]["mtree"].replace("sha256:", "", 1)
                    j["target"] = js[1]["target"]
                    j["changed"] = sorted([o[7:], v[3:]] for o, v in js[1].get("changed", {}).items())
            except (ValueError, KeyError, IndexError, TypeError):
                pass
        jobs.append(j)
    wire(ctx, a, rc)
    res = []
    for i in sorted(set(ids) | set(files)):
        x = a.fetch(i, "")
        if i in files:
            files[i]["got"] = {k: x[k] for k in ("id", "mode", "rc", "dig", "len")}
        else:
            res.append({k: x[k] for k in ("id", "mode", "rc", "dig", "len")})
        if x["rc"] == 0 and i not in a.known:
            a.known.append(i)
    return a.log("stow", rc, jobs=jobs, files=files, peer=peer, res=res, cmd=a.extra, err=err[-300:] if rc else "")


def stowsetup(ctx, a):
    os.makedirs(os.path.join(ctx.top, "bin"))
    os.makedirs(os.path.join(ctx.top, "mt"))
    os.makedirs(os.path.join(ctx.top, "wire"))
    fn = os.path.join(ctx.top, "bin", "mtree")
    with open(fn, "w") as f:
        f.write(MTREE)
    os.chmod(fn, 0o755)


def wire(ctx, a, rc):
    """What went over the wire in one run of stow"""
    d = os.path.join(ctx.top, "wire")
    for f in sorted(os.listdir(d)):
        ev = []
        with open(os.path.join(d, f)) as g:
            for l in g:
                e = json.loads(l)
                if e["t"] in ("stored", "metastored"):
                    e["id"] = e["id"][len(PREFIX):] if e["id"].startswith(PREFIX) else "?" + e["id"]
                elif "id" in e:
                    e["id"] = e["id"][:a.idbits // 4]
                ev.append(e)
        ev.append(dict(t="exit", rc=rc))
        ctx.emit("WireTrace", dict(name="wire:" + str(ctx.job["seed"]), ev=ev))
        os.unlink(os.path.join(d, f))


def peers(rng, a, kind, top):
    s = "%s -c %s stevedore" % (a.bin, a.cfgfn)

    def tap(how):
        return "exec python3 %s %d %s %s %s" % (os.path.join(os.path.dirname(os.path.abspath(__file__)), "proxy.py"), rng.randrange(1000),
                                                os.path.join(top, "wire", "w"), how, s)
    if kind == "ok":
        return rng.choice((s, s, "dd bs=%d status=none | %s" % (rng.choice((13, 1000)), s),
                           "%s | dd bs=%d status=none" % (s, rng.choice((1, 5, 700))),
                           "sleep 0.1 ; %s" % s, "echo hello >&2 ; %s ; echo bye >&2" % s,
                           "exec 2>/dev/null ; %s" % s, "exec 2>&- ; sleep 0.1 ; %s" % s)
                          + 5 * (tap("slow"), ) + 3 * (tap("fast"), )), "ok"
    if kind == "fail":
        return rng.choice(("exit 3", "true", "sleep 0.3 ; true", "sleep 0.2 ; exit 1", "kill -9 $$", "cat </dev/null",
                           "dd bs=1 count=%d status=none | %s" % (rng.choice((0, 1, 20, 60)), s),
                           "exec >/dev/null ; %s" % s, "exec >/dev/null ; cat", "%s ; exit 5" % s, "%s ; kill -9 $$" % s, "exec </dev/null ; %s" % s)), "fail"
    if rng.random() < 0.6:
        return tap("'%s%d'" % (rng.choice("<>"), rng.choice((rng.randrange(6), rng.randrange(30), rng.randrange(120))))), "any"
    # (Nothing which keeps the pipe open, or what goes through it to itself)
    return rng.choice(("dd bs=1 count=%d status=none | %s" % (rng.randrange(61, 30000), s),
                       "dd bs=1 count=%d status=none | %s" % (rng.randrange(61, 3000), s),
                       "timeout --foreground -s KILL 0.0%d %s" % (rng.randrange(1, 9), s))), "any"


@family
def fam_stow(ctx):
    """Directory trees of all kinds, stowed, changed, stowed again"""
    rng = ctx.rng
    c = conf(rng, **dict(dict(base="%08u.warc.gz", maxsize=rng.choice((15360, 65536, 300000))), **ctx.p.get("conf", {})))
    a = ctx.archive(**c)
    stowsetup(ctx, a)
    datas = []
    for _ in range(rng.randrange(4)):
        # some of it is there before
        d = content.make(rng, "rnd", rng.randrange(1, 3000))
        datas.append(d)
        a.store(d, how="file")
    many = ctx.p.get("many")
    dirs = {}
    nd = rng.choice((1, 1, 2, 3)) if not many else 1
    for k in range(nd):
        top = os.path.join(ctx.top, "t%d" % k)
        dirs["job%d" % k] = (top, tree(rng, top, rng.choice((0, 1, 2, 10, 30)), a, datas))
    if many:
        top = dirs["job0"][0]
        for k in range(many):
            p = "%s/n%d" % (top, k)
            d = b"%d of many, %s\n" % (k if rng.random() < 0.8 else rng.randrange(many), ctx.job["seed"].encode())
            with open(p, "wb") as f:
                f.write(d)
            dirs["job0"][1][p] = d
    excl = os.path.join(ctx.top, "excl")
    with open(excl, "w") as f:
        f.write("*.txt\n")
    kinds = ctx.p.get("kinds", ("ok", "ok", "ok", "change", "exclude", "fail", "any"))
    for rnd in range(ctx.p.get("rounds", 3)):
        kind = rng.choice(kinds) if rnd or many else kinds[0]
        if len(a.silos) > 80:
            break
        cmd, peer = peers(rng, a, kind if kind in ("ok", "fail", "any") else "ok", ctx.top)
        names = sorted(dirs) if rng.random() < 0.7 else [rng.choice(sorted(dirs))]
        if rng.random() < 0.2:
            names = names[::-1]
        x = ""
        for n in sorted(dirs):
            x += "stow.%s:\n\tdirectory\t%s\n\tcmd\t%s\n" % (n, dirs[n][0], cmd)
            if kind == "exclude":
                x += "\texclude\t%s\n" % excl
        a.extra = x
        a.writeconf()
        want = dirs
        if kind == "exclude":
            want = {n: (dirs[n][0], {p: d for p, d in dirs[n][1].items()
                                     if not any(q.endswith(".txt") for q in p[len(dirs[n][0]):].split("/"))}) for n in dirs}
        wc = {}
        hook = os.path.join(ctx.top, "mt", "hook")
        if kind == "change":
            # files nobody has seen before change after mtree has seen them
            l = []
            for n in names:
                for k in range(rng.choice((1, 2, 5)) if not ctx.p.get("changes") else ctx.p["changes"] + rng.randrange(50)):
                    p = "%s/changing%d.%d" % (dirs[n][0], rnd, k)
                    old, new = rng.randbytes(30) + p.encode(), rng.randbytes(rng.choice((5, 30, 3000)))
                    with open(p, "wb") as f:
                        f.write(old)
                    with open(p + ".new", "wb") as f:
                        f.write(new)
                    os.rename(p + ".new", os.path.join(ctx.top, "new.%s.%d" % (n, k)))
                    l.append('[ "$1" = "%s" ] && cp "%s" "%s"' % (dirs[n][0], os.path.join(ctx.top, "new.%s.%d" % (n, k)), p))
                    dirs[n][1][p] = new
                    datas.append(new)
                    wc.setdefault(n, []).append([sha(old), sha(new)[:a.idbits // 4]])
                wc[n].sort()
            with open(hook, "w") as f:
                f.write("#!/bin/sh\n" + "\n".join(l) + "\nexit 0\n")
            os.chmod(hook, 0o755)
        if rng.random() < 0.3 and kind in ("ok", "exclude", "fail"):
            # The manifest is there before what is in it
            for n in names:
                m = subprocess.run(["mtree", "-n", "-c", "-Ksha256digest", "-j", "-p", dirs[n][0]] + (["-X", excl] if kind == "exclude" else []),
                                   env=dict(a.env, PATH=COMPAT + ":/usr/bin:/bin"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
                a.store(m, how="file")
        ev = stowrun(ctx, a, names, want, peer, rng.choice((4096, 4096, 97, 8191)), ids=a.known[:12], wantchanged=wc)
        if kind == "change":
            os.unlink(hook)
            if ev["rc"]:
                break
        if ev["rc"] == 2000:
            break
        for f in a.scan():
            if f.endswith(".hold"):
                os.unlink(a.dir + f)
                a.env_event("unhold")
        r = rng.random()
        if r < 0.3:
            a.housekeep()
        elif r < 0.6:
            n = rng.choice(sorted(dirs))
            more = os.path.join(dirs[n][0], "more%d" % rnd)
            dirs[n][1].update(tree(rng, more, rng.choice((1, 5)), a, datas))
    a.audit()
