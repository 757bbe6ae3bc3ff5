"""Running commands one system call at a time"""
import os, select, shutil, signal, subprocess, time

MUT = ("write", "writev", "link", "unlink", "rename", "mkdir", "ftruncate", "fallocate", "chmod")


class Proc:
    """A command which is stopped before each system call of interest"""

    def __init__(self, a, args, stdin=None, env=None, out=None, root=None):
        """stdin: the name of a file"""
        self.a = a
        a.ncmd += 1
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.fin = open(stdin or "/dev/null", "rb")
        self.fout = out or open(os.path.join(a.top, "so%d" % a.ncmd), "w+b")
        self.ferr = open(os.path.join(a.top, "se%d" % a.ncmd), "w+b")
        e = a.env if env is None else dict(a.env, **env)
        self.p = subprocess.Popen([os.path.join(a.tools, "spy"), str(r1), str(w2), root or a.dir, a.bin, "-c", a.cfgfn] + list(args),
                                  pass_fds=(r1, w2), stdin=self.fin, stdout=self.fout, stderr=self.ferr, env=e)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.buf = b""
        self.nr = 0             # system calls let through
        self.rc = None
        self.at = None          # the one it is stopped before: (name, fd, length, path)
        self.last = None
        self._next()

    def _next(self):
        end = time.time() + 30
        while b"\n" not in self.buf:
            t = end - time.time()
            if t <= 0 or not select.select([self.r], [], [], t)[0]:
                self._end(2000)
                return
            x = os.read(self.r, 65536)
            if not x:
                self._end(2001)
                return
            self.buf += x
        l, self.buf = self.buf.split(b"\n", 1)
        f = l.decode("latin1").split(" ", 4)
        if f[0] == "X":
            st = int(f[1])
            self._end(os.WEXITSTATUS(st) if os.WIFEXITED(st) else 1000 + os.WTERMSIG(st))
        else:
            self.at = (f[1], int(f[2]), int(f[3]), f[4].replace(self.a.dir, "@/").replace("@//", "@/"))

    def _end(self, rc):
        self.rc, self.at = rc, None
        if rc >= 2000:
            self.p.kill()
        self.p.wait()
        os.close(self.w)
        os.close(self.r)
        self.fin.close()
        for n, f in (("out", self.fout), ("err", self.ferr)):
            f.seek(0)
            setattr(self, n, f.read())
            f.close()
            try:
                os.unlink(f.name)
            except OSError:
                pass

    def mutating(self):
        """Is what it is stopped before going to change something below the directory?"""
        n, fd, ln, path = self.at
        if not path.startswith("@"):
            return False
        return n in MUT or (n == "open" and ln & (os.O_CREAT | os.O_TRUNC) != 0)

    def go(self, how="c"):
        """Let it do what it is stopped before, and go to the next"""
        self.last = self.at
        self.nr += 1
        try:
            os.write(self.w, how.encode() + b"\n")
        except OSError:
            pass
        self._next()

    def finish(self):
        while self.rc is None:
            self.go()
        return self.rc

    def giveup(self):
        """It never ends"""
        self.kill()
        self.rc = 2000

    def kill(self):
        if self.rc is None:
            self.go("k")
        return self.rc


def clone(a, top):
    """A copy of the archive, and of what we know about it"""
    from ops import Ops
    b = Ops.__new__(Ops)
    b.__dict__.update(a.__dict__)
    b.top = top
    os.makedirs(top)
    b.dir = os.path.join(top, "a") + "/"
    b.cfgfn = os.path.join(top, "c")
    shutil.copytree(a.dir, b.dir, symlinks=True)
    with open(a.cfgfn) as f:
        c = f.read()
    with open(b.cfgfn, "w") as f:
        f.write(c.replace("\t" + a.dir + "\n", "\t" + b.dir + "\n"))
    b.silos, b.idx, b.bodies = dict(a.silos), dict(a.idx), dict(a.bodies)
    b.events, b.known = [], list(a.known)
    b.ncmd = 0
    return b
