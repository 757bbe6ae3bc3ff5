"""Contents of all kinds"""
import gzip, zlib

WORDS = ("the archive keeps every byte of what it was given and says so in plain words which anybody can read "
         "silo segment index header digest record payload warc info meta data").split()


def make(rng, kind, n):
    if n <= 0:
        n = 1
    if kind == "rnd":
        return rng.randbytes(n)
    if kind == "zero":
        return bytes([rng.randrange(256)]) * n
    if kind == "text":
        out, l = [], 0
        while l < n:
            w = rng.choice(WORDS) + rng.choice((" ", " ", " ", "\n"))
            out.append(w)
            l += len(w)
        return "".join(out).encode()[:n]
    if kind == "gz":
        b = gzip.compress(rng.randbytes(max(n - 40, 1)), mtime=0)
        return (b + rng.randbytes(max(0, n - len(b))))[:n]
    if kind == "rep":
        b = rng.randbytes(rng.choice((1, 3, 100, 1000, 4096, 32768, 40000)))
        return (b * (n // len(b) + 1))[:n]
    if kind == "mix":
        out = b""
        while len(out) < n:
            k = rng.randrange(1, max(2, n // 3))
            out += make(rng, rng.choice(("rnd", "zero", "text", "rep")), k)
        return out[:n]
    if kind == "warc":
        # things which look like the container's own
        b = rng.choice((b"\r\n\r\n", b"WARC/1.1\r\nWARC-Record-ID: <x>\r\n\r\n", bytes.fromhex("1f8b0800000000000203"),
                        b"\x1f\x8b\x08\x04Aa\x08\0"))
        return (b * (n // len(b) + 1))[:n]
    raise ValueError(kind)


KINDS = ("rnd", "rnd", "text", "zero", "gz", "rep", "mix", "warc")


def size(rng, M, what=None):
    """A length, in relation to the size M of silos"""
    what = what or rng.choice(("tiny", "tiny", "small", "small", "mid", "near", "multi"))
    if what == "tiny":
        return rng.choice((1, 2, 3, 23, 24, 25, rng.randrange(1, 100)))
    if what == "small":
        return rng.randrange(50, max(60, min(M // 8, 20000)))
    if what == "mid":
        return rng.randrange(M // 5, M // 2 + 1) if M < 400000 else rng.randrange(1000, 150000)
    if what == "near":
        return max(1, min(M - rng.randrange(300, 1500), 400000))
    if what == "multi":
        return rng.randrange(M, 4 * M) if M <= 100000 else rng.randrange(M, M + M // 3 + 2)
    raise ValueError(what)
