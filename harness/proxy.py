#!/usr/bin/env python3
"""A connection which takes down what goes over it:  proxy.py SEED LOG WHAT command...

WHAT is "fast"; "slow": some kinds of answers take their time (each kind still comes in order);
"<N" or ">N": it breaks after so many frames that way (and a part of the next one).

LOG gets a line for each frame before it is passed on."""
import hashlib, json, os, random, select, signal, subprocess, sys, threading, time
rng = random.Random(sys.argv[1])
what = sys.argv[3]
delay = rng.choice((0.005, 0.02, 0.06))
kinds = rng.choice(((1,), (1,), (2,), (3,), (1, 3), (0,))) if what == "slow" else ()
signal.signal(signal.SIGPIPE, signal.SIG_IGN)
# It breaks, or the machine there does
kill = what[0] in "<>" and rng.random() < 0.5
p = subprocess.Popen(sys.argv[4:], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
log = os.open("%s.%d" % (sys.argv[2], os.getpid()), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
t0 = time.monotonic()
dig, last = {}, {}
left = {d: int(what[1:]) if what[0] == d else -1 for d in "<>"}


def head(b):
    """(length of the head, of all) of the first frame, None if it is not there yet"""
    k = b[0] >> 6
    h = (1, 1, 2, 5)[k]
    if len(b) < h:
        return None
    n = (0, 32, b[1] if k == 2 else 0, int.from_bytes(b[1:5], "big") if k == 3 else 0)[k]
    return (h, h + n) if len(b) >= h + n else None


def ident(x):
    return x.decode("latin1").lower()[:80]


def note(d, f):
    """Take down a frame"""
    x, cmd = f[head(f)[0]:], f[0] & 0x3f
    e = dict(t="junk", dir=d)
    if d == ">":
        if cmd == 1:
            e = dict(t="filter", id=ident(x)) if x else dict(t="mark")
        elif cmd in (2, 3):
            n = "data" if cmd == 2 else "meta"
            if x:
                if n not in dig:
                    dig[n] = hashlib.sha256()
                dig[n].update(x)
                e = dict(t=n)
            else:
                e = dict(t=n + "end", id=dig.pop(n).hexdigest() if n in dig else "")
    elif cmd == 0:
        e = dict(t="msg")
    elif cmd == 1:
        e = dict(t="marked") if not x else dict(t="skip", n=min(int.from_bytes(x, "big"), 2000000000)) if len(x) == 4 else \
            dict(t="missing", id=ident(x))
    elif cmd in (2, 3):
        e = dict(t="stored" if cmd == 2 else "metastored", id=ident(x))
    if e["t"] == last.get(d) and e["t"] in ("data", "meta"):
        return
    last[d] = e["t"]
    os.write(log, (json.dumps(e) + "\n").encode())


def die():
    if kill:
        p.kill()
        p.wait()
    os._exit(1)


def put(fd, b):
    """-> whether it got there"""
    try:
        while b:
            b = b[os.write(fd, b):]
        return True
    except OSError:
        return False


def way(d, src, dst):
    buf, held, eof, ok = b"", [], False, True
    while held or not eof:
        t = time.monotonic()
        if select.select([] if eof else [src], [], [], max(0, held[0][0] - t) if held else None)[0]:
            x = os.read(src, 65536)
            eof = x == b""
            buf += x
            while buf and head(buf):
                n = head(buf)[1]
                f, buf = buf[:n], buf[n:]
                if left[d] == 0:
                    put(dst, f[:rng.randrange(len(f))])
                    die()
                left[d] -= 1
                if d == "<" and f[0] & 7 in kinds:
                    x = time.monotonic()
                    held.append((x + delay * rng.random() * (x - t0 < 1), f))
                else:
                    note(d, f)
                    ok = ok and put(dst, f)
        while held and held[0][0] <= time.monotonic():
            f = held.pop(0)[1]
            note(d, f)
            ok = ok and put(dst, f)
    if ok:
        put(dst, buf)
    os.close(dst)


th = threading.Thread(target=way, args=(">", 0, p.stdin.fileno()), daemon=True)
th.start()
way("<", p.stdout.fileno(), 1)
r = p.wait()
os._exit(r if r >= 0 else 1)
