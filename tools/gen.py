"""Seeded generators of harness scripts, one family per property.

A script is what the environment of the shell does: keystrokes, readiness of
the I/O interface, calls of the public API, behaviour of the callbacks.  There
is no oracle here: the recorded traces are judged by spec/Trace.tla.
"""
import random

CR, LF, TAB, ETX, BS, DEL, ESC = 13, 10, 9, 3, 8, 127, 27


def hx(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return "x" + bytes(b).hex()


class Script:
    force = None              # configuration to use whatever the family wants
    all = False               # all configurations are there

    def __init__(self, v=0):
        self.v = (v if Script.all else v % 5) if Script.force is None else Script.force
        self.l = []

    def op(self, *a):
        self.l.append(" ".join(str(x) for x in a))
        return self

    def inst(self, isz=64, osz=128, pmax=64, host="host", hook=1, iid=0):
        return self.op("I", iid, isz, osz, pmax, hx(host), hook)

    def fd(self, fid, name, desc=None, help=None, flags="-", content=b""):
        return self.op("fd", fid, hx(name), "-" if desc is None else hx(desc),
                       "-" if help is None else hx(help), flags or "-", hx(content))

    def type(self, b):
        return self.op("i", hx(b))

    def go(self):
        return self.op("g")

    def line(self, b, end=b"\r"):
        if isinstance(b, str):
            b = b.encode("latin-1")
        self.type(bytes(b) + end)
        return self.go()

    def text(self, name):
        return "T %s\n%s\n" % (name, "\n".join(self.l))


# ------------------------------------------------------------------ vocabulary
NAMES = ["a", "b", "ab", "abc", "abd", "file", "file1", "file2.bin", "f", "x", "data", "dat", "lsx", "l",
         "ls", "cat", "help", "e", "ech", "echo2", "h", "time", "time2", "zz", "Zz", "a.b", "..a", "x-y_z",
         "verylongfilename_beyond_alignment", "123456789012345", "1234567890123456", "12345678901234567"]
DNAMES = ["d", "dir", "dir1", "dir2", "dev", "d1", "etc", "bin", "b", "ab", "abc", "x", "a", "data", "e",
          "longdirectoryname0123456789", "..d", ".h", "s.d"]
def wname(r, base, isdir=False):
    """an unusual name made from an ordinary one"""
    k = r.random()
    if k < .2:
        return r.choice([".", "..", "...", "....", ".-"]) + base
    if k < .4:
        n = r.choice([14, 15, 16, 17, 20, 30])
        return ("common_prefix_of_many_names_in_here"[:n]) + r.choice(["", "a", "b", "ab", "abc", "1", "2", base])
    if k < .55:
        return base + r.choice([".", "..", ".txt", "1", "2", "_", "-", "~", "X", base])
    if k < .65:
        return base.upper()
    if k < .75:
        return r.choice(["\xe9", "\x80", "\xff", "\x01", "-", "#", "%s", "%", "$", "*", ">", "=", "'"]) + r.choice(["", base])
    if k < .85 and not isdir:
        return r.choice([base + " " + base, " " + base, base + '"', "\\" + base, base + "\\x41"])
    if k < .93:
        return r.choice("abcxyz") * r.choice([1, 15, 16, 17, 31, 32, 33, 40])
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789_-") for _ in range(r.choice([1, 2, 3, 5, 8, 13, r.randint(1, 40)])))


TEXTS = [None, "", "t", "100%", "%s%d%n", "\xe9\x80\x1b[0m\t", "some text", "usage: foo <bar>\r\n", "x" * 20, "line one\r\nline two\r\n", "y" * 70]


def rbytes(r, n):
    k = r.random()
    if k < .3:
        return bytes(r.randrange(256) for _ in range(n))
    if k < .6:
        return bytes(r.choice(b"abcdefgh \r\n\t\"\\xyz") for _ in range(n))
    return bytes(r.choice([0, 1, 31, 32, 33, 65, 126, 127, 128, 255]) for _ in range(n))


SIZES = [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300]


def content(r, big=False):
    k = r.random()
    if k < .25:
        return r.choice([b"hello", b"hello\r\n", b"1", b"", b"line\n"])
    n = r.choice(SIZES)
    if big and r.random() < .2:
        n = r.choice([511, 512, 513, 600, 700])
    return rbytes(r, n)


class World:
    """a random shell: files, directories, commands"""

    def __init__(self, r, s, iid=0, isz=None, osz=None, pmax=None, host=None, hook=None, nfiles=None, ndirs=None,
                 ngroups=None, names=NAMES, dnames=DNAMES, texts=TEXTS, big=False, flags=None, maxdepth=5, rich=True):
        self.r, self.s, self.iid = r, s, iid
        self.isz = isz or r.choice([48, 64, 80, 128])
        self.osz = osz or r.choice([32, 64, 128, 256])
        self.pmax = pmax or r.choice([48, 64, 96])
        self.hook = r.choice([0, 1]) if hook is None else hook
        self.host = r.choice(["host", "", "h", "device-17", "a b", "%s%n", "\xff/\xe9", "host" * 12]) if host is None else host
        s.inst(self.isz, self.osz, self.pmax, self.host, self.hook, iid)
        self.fid = 0
        self.gid = 0
        self.nid = 0
        self.cid = 0
        self.flags = flags
        self.names, self.dnames, self.texts, self.big = names, dnames, texts, big
        self.files = {}          # fid -> name
        self.dirs = {}           # path -> (nid, [fid])
        self.groups = {}         # cid -> gid
        self.maxdepth = maxdepth
        self.wide = r.random() < .25
        self.crowded = not big and r.random() < .06     # longer lists
        sz = lambda n: r.randrange(1, 21) if self.crowded and n and r.random() < .6 else n
        nfiles = sz(r.randrange(0, 5) if nfiles is None else nfiles)
        self.mount("/", self.mkgroup(nfiles))
        for _ in range(r.randrange(0, 6) if ndirs is None else ndirs):
            p = self.newdir()
            if p:
                self.mount(p, self.mkgroup(sz(r.choice([0, 0, 1, 2, 3]))))
        for _ in range(r.choice([0, 0, 1, 2]) if ngroups is None else ngroups):
            self.addcmds(self.mkgroup(max(1, sz(r.choice([1, 1, 2, 3])))))
        self.made, self.madec = dict(self.dirs), list(self.groups)

    def mkfile(self, name=None, flags=None):
        r = self.r
        self.fid += 1
        fl = flags if flags is not None else self.flags
        if fl is None:
            fl = "".join(c for c in "xgs" if r.random() < .6)
        if "x" in fl and r.random() < .3:
            fl += "p"
        nm = name or r.choice(self.names)
        if not name and self.wide and r.random() < .5:
            nm = wname(r, nm)
        if not name and self.crowded and r.random() < .8:
            nm += str(r.choice([self.fid, self.fid % 7]))
        self.s.fd(self.fid, nm, r.choice(self.texts), r.choice(self.texts), fl, content(r, self.big))
        self.files[self.fid] = nm
        return self.fid

    def group(self, fids):
        self.gid += 1
        self.s.op("gl", self.gid, *fids)
        self._fids = getattr(self, "_fids", {})
        self._fids[self.gid] = list(fids)
        return self.gid

    def mkgroup(self, n):
        return self.group([self.mkfile() for _ in range(n)])

    def newdir(self):
        r = self.r
        for _ in range(10):
            base = r.choice(list(self.dirs))
            name = r.choice(self.dnames)
            if self.wide and r.random() < .4:
                name = wname(r, name, True)
            if name in (".", ".."):
                continue
            p = (base if base != "/" else "") + "/" + name
            if len(p) + 1 <= self.pmax and p not in self.dirs and p.count("/") <= self.maxdepth:
                return p
        return None

    def mount(self, path, gid):
        self.nid += 1
        self.s.op("M", self.nid, hx(path), gid)
        if path == "/":
            self.rootid = self.nid
        self.dirs[path] = (self.nid, self._fids[gid])
        return self.nid

    def addcmds(self, gid):
        self.cid += 1
        self.s.op("A", self.cid, gid)
        self.groups[self.cid] = gid
        return self.cid

    # -- names to type
    def allfiles(self):
        out = []
        for p, (n, fs) in self.dirs.items():
            for f in fs:
                out.append((p if p != "/" else "") + "/" + self.files[f])
        return out

    def cmdnames(self):
        return [self.files[f] for g in self.groups.values() for f in self._fids[g]]

    def path(self, dirs=True, files=True):
        """some spelling of a path, existing or not"""
        r = self.r
        pool = []
        if dirs:
            pool += list(self.dirs)
        if files:
            pool += self.allfiles()
        k = r.random()
        if not pool or k < .1:
            return r.choice(["nope", "/nope", "a/b/c", "..", ".", "/", "//", "../..", "/..", "./", "...", "/.", "/d/nope", "d/", "-"])
        p = r.choice(pool)
        if k < .4:
            return p
        if k < .6 and p != "/":
            return p[1:]                       # relative to root
        if k < .8:
            return p.rsplit("/", 1)[1] or "/"
        return mangle(r, p)


def mangle(r, p):
    cs = p.split("/")[1:]
    out = []
    for c in cs:
        k = r.random()
        if k < .15:
            out.append(".")
        elif k < .3:
            out += [r.choice(["zz", "d", c]), ".."]
        elif k < .35:
            out.append("..")
        elif k < .4:
            out.append("")
        out.append(c)
    q = "/".join(out)
    if r.random() < .7:
        q = "/" + q
    k = r.random()
    if k < (.3 if ".." in q else .15):
        q += "/"
    elif k < .2:
        q += "/."
    elif k < .25:
        q += "/.."
    elif k < .28:
        q += "//"
    return q


def wander(r, p, n):
    """a long way round to p: in and out again"""
    cs = [c for c in p.split("/") if c]
    for _ in range(n):
        i = r.randrange(len(cs) + 1)
        cs[i:i] = r.choice([["d", ".."], ["a", ".."], ["x", ".."], ["."], ["..d", ".."], ["d", "a", "..", ".."]])
    return "/" + "/".join(cs) + r.choice(["", "", "", "/", "/.", "/.."])


def quote(r, a):
    """a way to type argument a (bytes)"""
    k = r.random()
    plain = all(c not in b' "\\' for c in a) and a
    if plain and k < .6:
        return a
    if k < .8:
        return b'"' + a.replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"'
    out = b""
    for c in a:
        if c in b' "\\':
            out += b"\\" + bytes([c])
        elif c != 120 and r.random() < .1:
            out += b"\\" + bytes([c])
        elif r.random() < .1:
            out += b'"' + bytes([c]) + b'"'
        else:
            out += bytes([c])
    return out or b'""'


def typ(r, p):
    """a way to type the path p"""
    b = p.encode("latin-1")
    if r.random() < .05 or any(c in b' "\\' for c in b):
        return quote(r, b)
    return b


def builtin_line(r, w):
    """a command line for the built-in commands"""
    b = builtin_words(r, w)
    if r.random() < .06 and len(b) + 2 < w.isz:             # any number of spaces
        i = b.find(b" ")
        b = b" " * r.randrange(w.isz - 1 - len(b)) + b if i < 0 or r.random() < .5 else b[:i] + b" " * r.randrange(w.isz - 1 - len(b)) + b[i:]
    return b + r.choice([b"\\", b'"', b" ", b'""', b" \\"]) if r.random() < .03 else b


def builtin_words(r, w):
    P = lambda: typ(r, w.path())
    D = lambda: typ(r, w.path(files=False))
    F = lambda: typ(r, w.path(dirs=r.random() < .1))
    k = r.choice(["ls", "ls", "cd", "cd", "pwd", "cat", "cat", "xxd", "echo", "echo", "help", "help", "run", "run"])
    if k == "ls":
        n = r.choice([0, 0, 1, 1, 1, 2])
        return b" ".join([b"ls"] + [D() for _ in range(n)])
    if k == "cd":
        n = r.choice([1, 1, 1, 1, 1, 0, 2])
        return b" ".join([b"cd"] + [D() for _ in range(n)])
    if k == "pwd":
        return b"pwd" + r.choice([b"", b"", b"", b" x"])
    if k == "cat":
        n = r.choice([1, 1, 1, 2, 2, 3, 0])
        return b" ".join([b"cat"] + [F() for _ in range(n)])
    if k == "xxd":
        n = r.choice([1, 1, 1, 1, 0, 2])
        return b" ".join([b"xxd"] + [F() for _ in range(n)])
    if k == "echo":
        t = quote(r, etext(r))
        n = r.choice([0, 1, 1, 3, 3, 3, 2, 4])
        rest = [[], [t], [t, b">"], [t, b">", F()], [t, b">", F(), b"x"]][n]
        if n == 3 and r.random() < .1:
            rest[1] = r.choice([b">>", b"<", b"=", b'"> "'])
        return b" ".join([b"echo"] + rest)
    if k == "help":
        n = r.choice([0, 0, 1, 1, 1, 2])
        pool = [b"ls", b"help", b"echo", b"cat", b"pwd", b"cd", b"xxd"] + [typ(r, c) for c in w.cmdnames()]
        return b" ".join([b"help"] + [r.choice([r.choice(pool), P()]) for _ in range(n)])
    names = [typ(r, c) for c in w.cmdnames()]
    nm = r.choice(names) if names and r.random() < .5 else P()
    return b" ".join([nm] + [quote(r, r.choice([b"1", b"ab", b"a b", b"", b"x"])) for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3, r.randrange(4, 9)]))])


HEXD = b"0123456789abcdefABCDEF"


def etext(r):
    """text for echo: escapes, legal and not"""
    out = b""
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8, r.randrange(6, 30)])):
        k = r.random()
        if k < .35:
            out += r.choice([b"a", b"text", b"0", b" ", b"xyz", b"A-Z"])
        elif k < .75:
            out += b"\\x" + bytes(r.choice(HEXD) for _ in range(2))
        elif k < .8:
            out += b"\\x00"
        elif k < .85:
            out += b"\\x" + bytes(r.choice(b"gG-1fF zx") for _ in range(2))
        elif k < .9:
            out += b"\\x" + bytes([r.choice(HEXD)])
        elif k < .95:
            out += b"\\" + bytes([r.choice(b"ntr\\\"0aX")])
        else:
            out += b"\xff"
    return out


END = [b"\r", b"\r", b"\r", b"\n"]


def pattern(r, n, p):
    return "".join("0" if r.random() < p else "1" for _ in range(n))


def api_msg(r, w, s, allow_buf=True):
    """an application message"""
    t = r.choice(["", "m", "msg", "message with spaces", "z" * r.choice([3, 10, 30, w.osz - 1, w.osz, w.osz + 5]), "l1\r\nl2",
                  "100%", "%s%d%n", "".join(r.choice("ab_ c.") for _ in range(r.randrange(1, 10))), "\xe9\x80\x1b[0m\t\x01", "".join(chr(r.randrange(1, 256)) for _ in range(r.randrange(1, 12)))])
    short = t[:w.osz - 1]
    k = r.choice(["P", "P", "N", "PO", "NO", "FL", "F", "F", "F", "ST", "FB"])
    if k == "F":
        s.op("F", r.choice([0, 0, 1, 2, 3]), hx(t))
        if r.random() < .4:
            for _ in range(r.choice([1, 1, 2, 5])):
                s.op("F", r.choice([0, 1, 2, 3]), hx(r.choice(["a", "bc", "more text ", "q" * r.randrange(1, w.osz + 2)])))
        if r.random() < .2:
            s.op("FB")
        elif r.random() < .15:
            s.op("FE", hx(r.choice([t, "e" * max(0, w.osz - len(t) - r.choice([17, 18, 19])), "e" * max(0, w.osz - r.choice([16, 17, 18, 19]))])))
            if r.random() < .4:
                api_msg(r, w, s)
    elif k == "ST":
        s.op("ST", r.randrange(0, 13))
    elif k in ("PO", "NO", "FL"):
        s.op(k, hx(short))
        if r.random() < .3:
            s.op("F", 0, hx("tail"))
    elif k == "FB":
        s.op("FL", hx(short))
        s.op("FB")
    else:
        s.op(k, hx(t))


def keystrokes(r, n, tabs=.0):
    out = b""
    for _ in range(n):
        k = r.random()
        if k < tabs:
            out += bytes([TAB])
        elif k < .5:
            out += bytes([r.choice(b"abcxyz012/.-")])
        elif k < .6:
            out += b" "
        elif k < .72:
            out += bytes([r.choice([BS, DEL])]) * r.choice([1, 1, 1, 2, 4])
        elif k < .82:
            out += r.choice([b"\x1b[A", b"\x1b[B", b"\x1b[C", b"\x1b[D", b"\x1bOA", b"\x1bOP", b"\x1b[H", b"\x1bq", b"\x1b\x1b[A",
                             b"\x1b[", b"\x1bO", b"\x1b", b"\x1b[\x1b[A", b"\x1b[\r", b"\x1b\r", b"\x1b[\x08", b"\x1b[\x03", b"\x1bO\n",
                             b"\x1b[3~", b"\x1b\x7fa", b"\x1b[\x7fab", b"\x1b\x03a"])
        elif k < .86:
            out += bytes([r.choice([34, 92, 34])])
        elif k < .90:
            out += bytes([ETX])
        elif k < .94:
            out += bytes([r.choice([0, 1, 2, 4, 7, 11, 12, 14, 26, 28, 31, 128, 155, 159, 200, 255, 91, 79])])
        else:
            out += r.choice(END)
    return out


# ------------------------------------------------------------------- families
def simple_world(r, s, **kw):
    kw.setdefault("nfiles", r.choice([0, 1, 2]))
    kw.setdefault("ndirs", r.choice([0, 0, 1, 2]))
    kw.setdefault("ngroups", r.choice([0, 0, 1]))
    kw.setdefault("hook", 1)
    return World(r, s, **kw)


def feed(r, s, b):
    """hand the bytes to the shell in one go, in pieces, or stepwise"""
    k = r.random()
    if k < .6:
        s.type(b).go()
        return
    i = 0
    while i < len(b):
        n = r.choice([1, 1, 2, 5, 20])
        s.type(b[i:i + n])
        if r.random() < .5:
            s.go()
        else:
            s.op("s", r.choice([1, 2, 3, 10]))
        i += n
    s.go()


def g01(r):                         # line editing
    s = Script(r.choice([0, 0, 0, 1, 2, 3, 4]))
    w = simple_world(r, s, isz=r.choice([16, 32, 64, 200, 300]))
    s.go()
    feed(r, s, keystrokes(r, r.choice([3, 6, 12, 25, 40]), tabs=r.choice([0, 0, .03])) + b"\r")
    if r.random() < .3:
        feed(r, s, keystrokes(r, 10) + b"\r")
    return s


def g02(r):                         # echo
    s = Script(r.choice([0, 0, 1, 2, 4]))
    w = simple_world(r, s, isz=r.choice([8, 16, 32, 64]))
    s.go()
    if r.random() < .5:
        s.op("w", pattern(r, 200, .3))
    feed(r, s, keystrokes(r, r.choice([4, 8, 16, 30]), tabs=r.choice([0, .05, .15])) + b"\r")
    return s


def g03(r):                         # overlong input
    s = Script(r.choice([0, 0, 1, 2, 3, 4]))
    isz = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20])
    w = simple_world(r, s, isz=isz, names=["a", "b", "ab", "c", "aaaa", "aaaaaaaa", "aaaaaaaaaaab"], flags="xgs")
    s.go()
    for _ in range(r.choice([1, 2, 3])):
        n = r.choice([isz - 3, isz - 2, isz - 1, isz, isz + 1, isz + 2, 2 * isz - 1, 2 * isz, 2 * isz + 1, 3 * isz])
        n = max(0, n)
        al = r.choice([b"a", b"ab", b"ab ", b"ab\"", b"a\\x", b"abcdefghij"])
        b = bytes(r.choice(al) for _ in range(n))
        if r.random() < .4:
            for _ in range(r.choice([1, 2, 3])):
                i = r.randrange(len(b) + 1)
                b = b[:i] + r.choice([b"\x08", b"\x7f", b"\t", b"\x1b[A", b"\x08\x08", b"\x03", b"\x00"]) + b[i:]
        if r.random() < .3 and isz > 6:
            b = r.choice([b"ls ", b"a ", b"pwd", b"echo "]) + b
        feed(r, s, b + r.choice(END))
        feed(r, s, r.choice([b"", b"a", b"a b", b"pwd"]) + b"\r")
    return s


def g04(r):                         # tokenising
    s = Script(r.choice([0, 0, 0, 2, 3]))
    w = simple_world(r, s, isz=r.choice([64, 128, 256, 400]), flags="xgs", names=["a", "ab", "x", "cmd"])
    s.go()
    for _ in range(r.choice([1, 2, 4])):
        k = r.random()
        if k < .5:
            b = bytes(r.choice(b' "\\xab0 "\\  ') for _ in range(r.choice([1, 2, 4, 8, 12, 20, 40])))
        elif k < .8:
            n = r.choice([1, 2, 3, 5, 9, 20, 30])
            args = [r.choice([b"a", b"", b"a b", b'q"q', b"\\", b"x", b"\\x41", b"\xff", b"  ", b'"', b"\t"]) for _ in range(n)]
            args = [a.replace(b"\t", b"") for a in args]
            b = (b" " * r.choice([1, 1, 1, 2])).join(quote(r, a) for a in args)
            b = b" " * r.choice([0, 0, 1, 3]) + r.choice([b"", b"a ", b"cmd "]) + b + b" " * r.choice([0, 0, 1, 3])
        else:
            b = b" ".join([r.choice([b"a", b"cmd"])] + [r.choice([b"1", b"22", b'"3 3"', b'4\\ 4', b'"', b"\\"]) for _ in range(r.choice([1, 10, 60, 100]))])
        s.line(b[:w.isz - 2], r.choice(END))
    return s


def cb_blocks(r, w, s):
    """give callbacks something to do"""
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        kind = r.choice(["exec", "exec", "exec", "hook", "set", "get"])
        if kind == "hook":
            if not w.hook:
                continue
            s.op("{", "hook")
        else:
            if not w.files:
                continue
            s.op("{", kind, r.choice(list(w.files)))
        if kind == "exec" and r.random() < .3:
            long_command(r, w, s, int(s.l.pop().split()[2]))
            continue
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < .25:
                ns_op(r, w, s)
            else:
                api_msg(r, w, s)
        s.op("}")


def ns_op(r, w, s):
    """change the tree or the registry; when and whether it happens is not known here"""
    k = r.random()
    dirs = [d for d in w.dirs if d != "/"]
    if k < .4 and dirs:
        s.op("U", hx(max(r.sample(dirs, min(2, len(dirs))), key=len)))
    elif k < .6 and w.groups:
        s.op("R", r.choice(list(w.groups)))
    elif k < .7:
        s.op("D", hx(r.choice(list(w.dirs))))
    elif k < .85:
        p = w.newdir()
        if p:
            w.nid += 1
            s.op("M", w.nid, hx(p), r.choice(list(w._fids)))
    elif any(w._fids.values()):
        w.cid += 1
        s.op("A", w.cid, r.choice([g for g in w._fids if w._fids[g]]))


def long_command(r, w, s, fid):
    """plan a command that goes on in its process callback"""
    s.op("{", "exec", fid)
    k = r.random()
    if k < .15:
        api_msg(r, w, s)
    s.op("PS")
    if k > .9:
        api_msg(r, w, s)
    elif k > .7:
        s.op(r.choice(["PW", "PB"]), hx(r.choice(TEXTS[1:])))
    s.op("}")
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        s.op("{", "proc", fid)
        k = r.random()
        if k < .5:
            s.op("PW", hx(r.choice(TEXTS[1:])))
        elif k < .65:
            s.op("PB", hx(content(r)))
        elif k < .75:
            api_msg(r, w, s)
        elif k < .8:
            s.op("PS")
        s.op("}")


def g05(r):                         # dispatch
    s = Script(r.choice([0, 0, 0, 1, 2, 3, 4]))
    w = World(r, s, names=["a", "b", "ab", "ls", "cat", "help", "run", "x", "file"], nfiles=r.choice([1, 2, 4]),
              ndirs=r.choice([0, 1, 3]), ngroups=r.choice([0, 1, 2, 3]), dnames=["a", "d", "ls", "x"], flags=None)
    cb_blocks(r, w, s)
    s.go()
    for _ in range(r.choice([2, 4, 7])):
        k = r.random()
        if k < .25:
            w_line = builtin_line(r, w)
        else:
            pool = w.cmdnames() + w.allfiles() + list(w.dirs) + [f.rsplit("/", 1)[1] for f in w.allfiles()] + ["nope", "/nope", "./a", "d/../a", "", "..", "/"]
            nm = r.choice(pool).encode("latin-1")
            w_line = b" ".join([quote(r, nm)] + [quote(r, r.choice([b"1", b"two", b"a b", b""])) for _ in range(r.choice([0, 0, 1, 2, 5]))])
        s.line(w_line, r.choice(END))
        if r.random() < .2:
            s.op("D", hx(r.choice(list(w.dirs)))).go()
    for nm in r.sample(w.cmdnames() + w.allfiles() + ["nope"], 1):
        s.op("?", hx(nm))
    return s


def g06(r):                         # paths
    s = Script(r.choice([0, 0, 0, 1, 2, 3]))
    pmax = r.choice([8, 12, 16, 24, 32, 64, 64, 100, 150])
    w = World(r, s, pmax=pmax, isz=r.choice([128, 200]), ndirs=r.choice([2, 5, 8]), nfiles=r.choice([0, 1, 2]), hook=0,
              dnames=["d", "e", "dir", "a", "bb", "..d", ".h"], names=["a", "f", "file", "d"], ngroups=r.choice([0, 0, 1]))
    s.go()
    for _ in range(r.choice([3, 6, 10])):
        p = w.path() if r.random() < .8 else mangle(r, r.choice(list(w.dirs)))
        if r.random() < .12:
            n = pmax + r.choice([-4, -3, -2, -1, 0, 1, 5])
            base = r.choice(list(w.dirs))
            p = (base + "/" if base != "/" else "/")
            while len(p) < n:
                p += r.choice(["x", "./", "../", "d/", "/"])
            p = p[:max(n, 1)]
        elif r.random() < .12:
            p = wander(r, r.choice(list(w.dirs)), r.randrange(1, 14))
        k = r.random()
        if k < .3:
            s.line(b"cd " + typ(r, p))
        elif k < .45:
            s.op("D", hx(p)).go()
        elif k < .55:
            s.op("?", hx(p))
        elif k < .62:
            s.op(r.choice(["n", "np"]), hx(p if p.startswith("/") else r.choice(list(w.dirs))))
        elif k < .63:
            s.op("ab", hx(p))
        elif k < .68:
            d = r.choice(list(w.dirs))
            q = (d if d != "/" else "") + "/" + "n" * max(1, pmax - len(d) + r.choice([-4, -3, -2, -1, 0, 1, 5, 40]))
            if q not in w.dirs:
                if len(q) < pmax:
                    w.mount(q, 1)
                else:
                    w.nid += 1
                    s.op("M", w.nid, hx(q), 1)
                    if r.random() < .5:
                        s.op("U", hx(q))
                    else:
                        s.op("?", hx(q))
        elif k < .75:
            s.line(b"ls " + typ(r, p))
        elif k < .8:
            s.line(b"cat " + typ(r, p))
        elif k < .85:
            s.line(b"help " + typ(r, p))
        elif k < .9:
            s.line(typ(r, p))
        else:
            s.line("pwd")
    s.line("pwd")
    return s


def g07(r):                         # namespace histories
    s = Script(r.choice([0, 0, 0, 1, 2]))
    w = World(r, s, ndirs=r.choice([1, 3, 5]), nfiles=r.choice([0, 1]), hook=r.choice([0, 0, 1]), ngroups=0, pmax=r.choice([32, 64]),
              dnames=["d", "e", "dd", "a", "f"], names=["a", "b", "f"], isz=64)
    s.go()
    cwd_games = r.random() < .5
    incb = r.random() < .2
    seen = []
    if incb:
        fid = w.mkfile("run", "xgs")
        g = w.group([fid])
        w.addcmds(g)

    def mut():
        k = r.random()
        if k < .4:
            p = w.newdir() if r.random() < .75 else r.choice(["/no/pe", "/q/r/s", "rel", "rel/a", r.choice(list(w.dirs)), "/d/e/f/g"])
            if p is None:
                return
            ok = p not in w.dirs and p.startswith("/") and (p.rsplit("/", 1)[0] or "/") in w.dirs
            gid = w.mkgroup(r.choice([0, 1, 2])) if not incb else r.choice(list(w._fids))
            if ok:
                w.mount(p, gid)
            else:
                w.nid += 1
                s.op("M", w.nid, hx(p), gid)
        elif k < .46:               # an object that is in use
            mount_again(r, w, s)
        elif k < .85:
            cand = [d for d in w.dirs if d != "/"]
            p = r.choice(cand) if cand and r.random() < .85 else r.choice(["/nope", "/d/nope", "rel"])
            s.op("U", hx(p))
            if p in w.dirs and not any(q.startswith(p + "/") for q in w.dirs):
                del w.dirs[p]
            if not cand and not incb and r.random() < .6:       # the root, too
                another_root(r, w, s)
        else:
            s.op("D", hx(r.choice(list(w.dirs))))

    for _ in range(r.choice([4, 8, 14])):
        if incb and r.random() < .5:
            s.op("{", "exec", fid)
            mut()
            s.op("}")
            s.line("run")
        else:
            mut()
        k = r.random()
        if k < .15:
            s.line("ls")
        elif k < .25:
            s.line(b"ls " + typ(r, r.choice(list(w.dirs))))
        elif k < .35:
            s.op("n", hx(r.choice(list(w.dirs))))
        elif k < .45:
            s.op("n", hx(r.choice(["/d", "/e", "/d/e", "/dd", "/a", "/f"])))
        elif k < .55 or (cwd_games and k < .7):
            s.op("D", hx(r.choice(list(w.dirs) + ["/d", "/e", "/d/e"])))
        elif k < .75:
            s.line(b"cd " + typ(r, r.choice(list(w.dirs) + [".."])))
        elif k < .8:
            s.line("pwd")
        elif k < .85:
            s.op("?", hx(r.choice(w.allfiles() or ["x"])))
        elif k < .9:
            s.line(r.choice(["cat a", "l\t", "\t", "/d/\t", "\t\t"]))
    for d in ["/", "/d", "/e", "/d/e"]:
        s.line("ls " + d)
    s.line("pwd")
    if r.random() < .3:
        s.op("DI")
    return s


def g08(r):                         # command registry
    s = Script(r.choice([0, 0, 1, 2, 3, 4]))
    w = World(r, s, ngroups=r.choice([0, 1]), ndirs=r.choice([0, 1]), nfiles=r.choice([0, 1, 2]), names=["a", "b", "ab", "ls", "help", "x"],
              texts=[None, "", "d1", "text"], hook=r.choice([0, 1]), isz=64, osz=128)
    pend = [w.mkgroup(r.choice([1, 2, 3])) for _ in range(5)]
    runner = w.mkfile("run", "x")
    grun = w.group([runner])
    s.go()
    removed = []

    def mut():
        k = r.random()
        if pend and k < .5:
            w.addcmds(pend.pop() if r.random() < .85 else r.choice([g for g in w._fids if w._fids[g]]))
        elif w.groups and k < .85:
            c = r.choice(list(w.groups))
            s.op("R", c)
            removed.append((c, w.groups.pop(c)))
        elif removed and k < .93:
            c, g = removed.pop(r.randrange(len(removed)))
            s.op("A", c, g)                       # the same node object again
            w.groups = {c: g, **w.groups}
        elif removed:
            s.op("R", removed[-1][0])            # not registered any more
        else:
            s.op("R", 77)
    if r.random() < .4:
        w.addcmds(grun)
    for _ in range(r.choice([3, 6, 10])):
        if runner and grun in w.groups.values() and r.random() < .4:
            s.op("{", "exec", runner)
            mut()
            s.op("}")
            s.line("run")
        else:
            mut()
        k = r.random()
        if k < .3:
            s.line("help")
        elif k < .7:
            s.line(r.choice(["a", "b", "ab", "ls", "x", "help a", "help ls", "help run", "cat a"]))
        elif k < .85:
            s.op("?", hx(r.choice(["a", "b", "ab", "ls", "x", "echo", "/a"])))
        else:
            s.line(r.choice([b"a\t", b"\t", b"x\t\t", b"l\t"]))
    s.line("help")
    if r.random() < .3:
        s.op("DI").op("RI").op("M", 99, hx("/"), 1)
        s.go()
        s.line("help")
    return s


def g09(r):                         # listings
    s = Script(r.choice([0, 0, 1, 1, 3, 4]))
    w = World(r, s, osz=r.choice([4, 5, 8, 16, 20, 24, 32, 64, 128]), nfiles=r.choice([0, 2, 5, 8]), ndirs=r.choice([0, 2, 5, 7]),
              ngroups=r.choice([0, 1, 2, 3]), hook=0)
    s.go()
    if r.random() < .3:
        s.op("w", pattern(r, 400, .2))
    for _ in range(r.choice([1, 2, 3])):
        k = r.random()
        if k < .45:
            s.line(b"ls " + typ(r, w.path() if r.random() < .2 else r.choice(list(w.dirs))))
        elif k < .55:
            s.line("ls")
        elif k < .75:
            s.line("help")
        elif k < .95:
            s.line(b"help " + typ(r, r.choice(w.cmdnames() + w.allfiles() + ["ls", "echo", "nope"])))
        else:
            s.line(r.choice(["ls a b", "help a b", "ls /nope", "help /nope"]))
        if r.random() < .3:
            s.op("D", hx(r.choice(list(w.dirs)))).go()
    return s


def g10(r):                         # cat and xxd
    s = Script(r.choice([0, 0, 1, 3, 4]))
    w = World(r, s, osz=r.choice([4, 8, 16, 24, 32, 64, 128, 256]), nfiles=r.choice([1, 2, 3]), ndirs=r.choice([0, 1, 2]), ngroups=r.choice([0, 0, 1]),
              names=["a", "b", "ab", "f1"], hook=0, flags=r.choice(["g", "g", "xgs", None]), big=True)
    if r.random() < .3:
        s.op("{", "get", r.choice(list(w.files)))
        k = r.random()
        if k < .3:
            api_msg(r, w, s)
        elif k < .7:
            ns_op(r, w, s)
        else:
            s.op("c", r.choice(list(w.files)), hx(content(r)))
        s.op("}")
    s.go()
    if r.random() < .25:
        s.op("w", pattern(r, 300, .2))
    for _ in range(r.choice([1, 2, 3])):
        k = r.random()
        fs = w.allfiles() + w.cmdnames()
        if k < .5:
            s.line(b"xxd " + typ(r, r.choice(fs)))
        elif k < .9:
            s.line(b"cat " + b" ".join(typ(r, r.choice(fs)) for _ in range(r.choice([1, 1, 2, 3, 3])))[:w.isz - 8])
        elif k < .95:
            s.line(b"cat " + typ(r, r.choice(fs)) + b" " + typ(r, w.path()))
        else:
            s.line(r.choice(["cat", "xxd", "xxd a a", "cat /", "xxd /"]))
        if r.random() < .3:
            s.op("c", r.choice(list(w.files)), hx(content(r, True)))
    return s


def g11(r):                         # echo
    s = Script(r.choice([0, 0, 0, 1, 4]))
    w = World(r, s, nfiles=r.choice([1, 2]), ndirs=r.choice([0, 1]), ngroups=r.choice([0, 1]), names=["a", "b", "f1"], isz=r.choice([32, 64, 128]),
              osz=r.choice([4, 8, 32, 128]), hook=r.choice([0, 0, 1]), flags=r.choice(["gs", "gs", "s", None]))
    s.go()
    for _ in range(r.choice([2, 3, 5])):
        t = quote(r, etext(r)) if r.random() < .8 else etext(r)
        k = r.random()
        f = r.choice(w.allfiles() + w.cmdnames())
        fb = typ(r, f)
        if k < .45:
            b = b"echo " + t
        elif k < .85:
            b = b"echo " + t + b" > " + (fb if r.random() < .9 else typ(r, w.path()))
        else:
            b = b"echo " + r.choice([b"", b"a b", b"a > ", b"a >f1", b"a >> /a", b"a > /a x", b'"" > ' + fb, b'""', b"a < " + fb])
        s.line(b, r.choice(END))
        if k > .4 and r.random() < .6:
            s.line((b"cat " if r.random() < .5 else b"xxd ") + fb)
    return s


def g12(r):                         # completion
    s = Script(r.choice([0, 0, 0, 1, 4, 2]))
    isz = r.choice([4, 6, 8, 10, 12, 16, 24, 32, 64, 64])
    w = World(r, s, isz=isz, nfiles=r.choice([0, 1, 3, 5]), ndirs=r.choice([0, 2, 4]), ngroups=r.choice([0, 1, 2]), hook=1,
              names=["a", "ab", "abc", "abd", "abcdef", "abcdefgh", "lsx", "l", "b", "bcd", "longname_file", "longname_filf", "e"] + r.choice([[], [], [], ["..x", "...", ".hy"]]),
              dnames=["a", "abc", "abx", "d", "dir", "dirx", "dirxyz", "l", "..d", ".h"] + r.choice([[], [], [], ["...", "..a", "..ab", ".hx"]]), pmax=r.choice([16, 32, 64]),
              texts=[None, "t"])
    s.go()
    if r.random() < .3:
        s.op("D", hx(r.choice(list(w.dirs)))).go()
    if r.random() < .2:
        s.op("w", pattern(r, 200, .3))
    pool = w.cmdnames() + w.allfiles() + list(w.dirs) + [p.rsplit("/", 1)[1] for p in w.allfiles() + list(w.dirs)] + ["ls", "help", "nope", "e", "c"]
    for _ in range(r.choice([1, 2, 4])):
        b = b""
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            b += r.choice([b"ls ", b"cat ", b"a ", b"x", b" ", b'"a', b"\x00"])
        p = r.choice(pool)
        b += p[:r.randrange(len(p) + 1)].encode("latin-1")
        if r.random() < .1:                     # far into the line
            b = b"y" * r.randrange(max(1, isz - len(b) - 1)) + b" " + b
        if r.random() < .05:
            b += r.choice([b" ", b""]) + r.choice([b".", b"..", b"..."])
        if r.random() < .2:
            b = b[:max(0, isz - r.choice([1, 2, 3]))]
        b += b"\t" * r.choice([1, 1, 1, 2, 3])
        if r.random() < .5:
            b += r.choice([b"a\t", b"b", b" \t", b"/\t", b"\x08\t", b"\x08\x08", b"\x00\t", b"\x1b[A\t", b"\t\t", b"\x03", b".\t"])
        s.type(b).go()
        if r.random() < .8:
            s.type(r.choice(END)).go()
        if r.random() < .2:
            s.line(r.choice(["cd d", "cd dir", "cd /", " ".join("a" * r.randrange(1, 8)), "echo " + "b" * r.randrange(max(1, isz - 6))]))
    s.type(b"\r").go()
    return s


def any_session(r, s, w, n=None):
    for _ in range(n or r.choice([1, 2, 4])):
        k = r.random()
        if k < .7:
            s.line(builtin_line(r, w), r.choice(END))
        elif k < .85:
            s.type(keystrokes(r, r.choice([3, 8, 15]), tabs=.15)).go()
            s.type(b"\r").go()
        elif k < .95:
            api_msg(r, w, s)
            s.go()
        else:
            s.op("D", hx(r.choice(list(w.dirs)))).go()


def g13(r):                         # schedules
    s = Script(r.choice([0, 0, 0, 1, 2, 3, 4]))
    w = World(r, s)
    cb_blocks(r, w, s)
    s.op("w", pattern(r, r.choice([100, 500, 1500]), r.choice([.1, .5, .8])))
    s.op("rp", pattern(r, r.choice([20, 100]), r.choice([.1, .5, .8])))
    if r.random() < .5:
        s.go()
    for _ in range(r.choice([2, 4])):
        k = r.random()
        b = builtin_line(r, w) + r.choice(END)
        if r.random() < .3:
            b = keystrokes(r, 6, tabs=.2) + b
        if k < .5:
            s.type(b).go()
        else:
            i = 0
            while i < len(b):
                n = r.choice([1, 2, 7])
                s.type(b[i:i + n])
                s.op(r.choice(["s", "W"]), r.choice([1, 2, 5, 17]))
                i += n
            if r.random() < .7:
                s.go()
        if r.random() < .3:
            s.op("w", pattern(r, 300, r.choice([.2, .6, .9])))
        if r.random() < .2:
            s.op("w", "0" * r.choice([5, 50, 300]) + pattern(r, 50, .5))
    s.go()
    return s


def g14(r):                         # service calls
    s = Script(r.choice([0, 0, 0, 1, 2, 3, 4]))
    w = World(r, s)
    if r.random() < .3:
        cb_blocks(r, w, s)
    for _ in range(r.choice([2, 4, 6])):
        b = builtin_line(r, w) + r.choice(END) if r.random() < .7 else keystrokes(r, 10, tabs=.2)
        s.type(b)
        for _ in range(r.choice([1, 3, 8])):
            s.op("s", r.choice([1, 1, 2, 3, 10, 40]))
            if r.random() < .1:
                s.op("w", pattern(r, 30, .7))
        if r.random() < .5:
            s.go()
            s.op("s", r.choice([1, 3]))
    s.go()
    s.op("s", 3)
    return s


def g15(r):                         # application messages
    s = Script(r.choice([0, 0, 0, 1, 2, 3, 4]))
    w = World(r, s, osz=r.choice([4, 8, 16, 19, 20, 21, 22, 32, 64, 128]), nfiles=r.choice([1, 2]), ndirs=r.choice([0, 1]), ngroups=r.choice([0, 1]), flags="xgs")
    cb_blocks(r, w, s)
    if r.random() < .2:
        s.op("w", pattern(r, 300, .3))
    if r.random() < .8:
        s.go()
    for _ in range(r.choice([2, 4, 7])):
        k = r.random()
        if k < .35:
            api_msg(r, w, s)
            if r.random() < .3:
                api_msg(r, w, s)
            s.go()
        elif k < .6:                # in the middle of something
            s.type(builtin_line(r, w) + b"\r")
            s.op("W", r.choice([0, 1, 2, 5, 10, 20, 40]))
            if r.random() < .4:
                s.op("s", r.choice([1, 2, 3]))
            api_msg(r, w, s)
            if r.random() < .5:
                s.op("W", r.choice([1, 3, 8]))
                api_msg(r, w, s)
            if r.random() < .9:
                s.go()
        elif k < .75:               # a half-typed line
            s.type(keystrokes(r, 5))
            s.go()
            api_msg(r, w, s)
            s.go()
        else:
            s.line(builtin_line(r, w))
    s.go()
    return s


def mount_again(r, w, s):            # always refused
    p = r.choice(list(w.dirs))
    s.op("M", w.dirs[p][0], hx(p if r.random() < .7 else r.choice(["/no/pe", "/q/r/s"])), r.choice(list(w._fids)))


def another_root(r, w, s):           # nothing else is mounted
    s.op("U", hx("/"))
    while r.random() < .3:
        k = r.random()
        if k < .5:
            s.op("M", 97, hx(r.choice(["/zz", "/zz/y"])), r.choice(list(w._fids)))
        else:
            s.op(r.choice("UD"), hx("/"))
    w.nid += 1
    w.rootid = r.choice([w.rootid, w.nid])
    s.op("M", w.rootid, hx("/"), r.choice(list(w._fids)))


def g16(r):                         # lifecycle
    s = Script(r.choice([0, 0, 1, 2, 3, 4]))
    w = World(r, s, host=r.choice(["", "h", "host name", "x" * 40, "\xe9"]))
    cb_blocks(r, w, s)
    early = r.random() < .2
    if not early:
        s.go()
    for _ in range(r.choice([2, 4, 6])):
        k = r.random()
        if k < .3:
            s.line(b"cd " + typ(r, r.choice(list(w.dirs))))
        elif k < .4:
            s.op("D", hx(r.choice(list(w.dirs)))).go()
        elif k < .6:
            if r.random() < .5:
                s.type(builtin_line(r, w) + r.choice([b"", b"\r"]))
                s.op("W", r.choice([0, 1, 5, 12, 30]))
            s.op("RS")
            s.go()
        elif k < .65:
            s.op("{", "hook").op("RS").op("}") if w.hook else None
        elif k < .68:
            s.go()
            for d in sorted((d for d in w.dirs if d != "/"), reverse=True):
                s.op("U", hx(d))
                del w.dirs[d]
            another_root(r, w, s)
            s.line(r.choice(["ls", "pwd", "cd /", "ls /"]))
        elif k < .75:
            s.type(keystrokes(r, 4) + b"\x03").go()
        else:
            s.line(builtin_line(r, w) if r.random() < .7 else "")
    if r.random() < .6:
        if r.random() < .3:
            s.type(b"ls\r")
            s.op("W", r.choice([1, 3, 9, 20]))
        s.op("DI")
        if r.random() < .8:
            s.op("RI")
            s.op("M", 1, hx("/"), r.choice(list(w._fids)))
            if r.random() < .6:
                s.op("M", r.choice([91] + [n for p, (n, _) in w.made.items() if p != "/"]), hx("/d"), r.choice(list(w._fids)))
            if r.random() < .5 and w._fids:
                s.op("A", r.choice([50] + w.madec), r.choice([g for g in w._fids if w._fids[g]] or [1])) if any(w._fids.values()) else None
            s.go()
            for t in ["ls", "help", "cd d", "pwd"]:
                if r.random() < .6:
                    s.line(t)
            if r.random() < .4:
                s.op("DI")
    return s


def g17(r):                         # several instances
    v = r.choice([0, 0, 0, 1, 2, 3, 4])
    s = Script(v)
    n = r.choice([2, 2, 3, 4])
    ws, todo = [], []
    for i in range(n):
        ws.append(World(r, s, iid=i, nfiles=r.choice([1, 2]), ndirs=r.choice([0, 1, 2]), ngroups=r.choice([0, 1, 2]),
                        isz=r.choice([8, 32, 64]), osz=r.choice([16, 32, 64])))
        if r.random() < .3:
            cb_blocks(r, ws[-1], s)
        if i < n - 1 and r.random() < .5:    # callbacks that drive another instance
            w = ws[-1]
            for _ in range(r.choice([1, 2, 4])):
                kind = r.choice(["exec", "set", "get", "hook"] if w.files else ["hook"])
                s.op("{", kind, *([] if kind == "hook" else [r.choice(list(w.files))]))
                for _ in range(r.choice([1, 2, 3])):
                    j = r.randrange(i + 1, n)
                    s.op("@", j, *r.choice([["g"], ["s", r.choice([1, 7, 40])], ["i", hx(r.choice(["ls\r", "x\t", "cat a b\r", "\x03", "echo a\r"]))],
                                            ["P", hx("other")], ["F", 1, hx("fmt")], ["RS"], ["?", hx("a")]]))
                s.op("}")
        if r.random() < .3:
            s.op("w", pattern(r, 200, .4))
    for i in range(n):
        s.op("S", i)
        if r.random() < .5:
            s.go()
    for _ in range(r.choice([6, 12, 20])):
        i = r.randrange(n)
        s.op("S", i)
        w = ws[i]
        k = r.random()
        if k < .55:
            s.type(builtin_line(r, w) + r.choice(END) if r.random() < .6 else keystrokes(r, 5, tabs=.1))
        elif k < .65:
            api_msg(r, w, s)
        if r.random() < .5:
            s.op("s", r.choice([1, 3, 9, 25]))
        elif r.random() < .5:
            s.go()
    di = r.random() < .3
    for i in r.sample(range(n), n):
        s.op("S", i).go()
        if di and r.random() < .5:
            s.op("DI")
            ws[i] = None
    for i in range(n):
        if ws[i]:
            s.op("S", i)
            s.line(r.choice(["pwd", "ls", "help", "a\t"]))
    return s


def g18(r):                         # extremes
    s = Script(r.choice([0, 0, 0, 1, 2, 3, 4]))
    kw = dict(isz=r.choice([2, 3, 4, 5, 8, 13, 64, 256]), osz=r.choice([4, 5, 6, 7, 8, 9, 16, 20, 64]), pmax=r.choice([2, 3, 4, 6, 8, 16, 200]),
              host=r.choice(["", "h", "H" * 100]), big=True)
    w = World(r, s, **kw)
    cb_blocks(r, w, s)
    s.go()
    for _ in range(r.choice([2, 4, 6])):
        k = r.random()
        if k < .35:
            s.type(builtin_line(r, w) + b"\r").go()
        elif k < .55:
            s.type(bytes(r.randrange(256) for _ in range(r.choice([5, 20, 80]))) + b"\r").go()
        elif k < .7:
            s.type(keystrokes(r, r.choice([5, 30]), tabs=.2) + b"\r").go()
        elif k < .85:
            api_msg(r, w, s)
            s.go()
        elif k < .9:
            s.op("?", hx(bytes(r.choice(b"/.ab") for _ in range(r.randrange(1, 30)))))
        else:
            s.op("D", hx(bytes(r.choice(b"/.ab") for _ in range(r.randrange(0, 30))))).go()
    return s


def g19(r):                         # configurations
    s = Script(r.randrange(15))
    w = World(r, s, names=["a", "ls", "cat", "echo", "help", "pwd", "cd", "xxd", "f"], nfiles=r.choice([1, 2, 4]))
    s.go()
    for _ in range(r.choice([2, 4, 6])):
        k = r.random()
        if k < .7:
            s.line(builtin_line(r, w))
        elif k < .85:
            s.type(r.choice([b"l\t", b"\t", b"e\tx", b"c\t\t", b"a\tb", b"x\t", b"a\x08\tc"])).go()
            s.type(b"\r").go()
        elif k < .9:
            s.op("ST", r.randrange(13)).go()
        else:
            s.op("?", hx(r.choice(["ls", "cat", "echo", "help", "pwd", "cd", "xxd"])))
    return s


def g20(r):                         # failing commands have no effect
    s = Script(r.choice([0, 0, 0, 1, 3, 4]))
    w = World(r, s, hook=r.choice([0, 0, 1]), nfiles=r.choice([2, 3]), ndirs=r.choice([1, 2, 3]), names=["a", "b", "c", "ro", "wo"],
              ngroups=r.choice([0, 1]), texts=[None, "t"])
    s.go()
    if r.random() < .5:
        s.op("D", hx(r.choice(list(w.dirs)))).go()
    for _ in range(r.choice([3, 6])):
        k = r.random()
        f = lambda: r.choice(w.allfiles() + w.cmdnames() + ["nope", "/", "/nope/a"])
        if k < .3:
            s.line(b"cat " + b" ".join(typ(r, f()) for _ in range(r.choice([1, 2, 3, 4])))[:w.isz - 8])
        elif k < .5:
            s.line(b"echo new > " + typ(r, f()))
        elif k < .6:
            s.line(b"xxd " + typ(r, f()))
        elif k < .7:
            s.line("cd " + r.choice([f(), "nope", "..", "a b", ""]))
        elif k < .8:
            s.line(f())
        elif k < .85:
            s.line(b"help " + typ(r, f()))
        elif k < .9:
            s.line(r.choice(["pwd x", "ls a b", "xxd", "cat", "cd", "help a b", "echo a > ", "echo a b c", "xxd a b", "echo a >> b", "ls nope"]))
        elif k < .95:
            s.op("U", hx(r.choice(["/nope"] + [d for d in w.dirs if any(q.startswith(d + "/") for q in w.dirs) and d != "/"])))
            s.op("M", 80, hx(r.choice(["/no/pe", r.choice(list(w.dirs))])), 1)
            mount_again(r, w, s)
        else:
            s.op("D", hx(r.choice(["/nope", "", "a/b/c"]))).go()
    s.line("pwd")
    s.line("ls")
    return s


# ------------------------------------------------------------- big numbers
def plain(n, r=None):
    return ("abcdefghijklmnopqrstuvwxyz0123456789" * (n // 36 + 1))[:n]


BIG = [254, 255, 256, 257, 258, 300]


def bign(r):
    return r.choice(BIG) if r.random() < .6 else r.randrange(5, 80)


def big_files(r, s):                # many files in one directory
    n = bign(r)
    w = World(r, s, nfiles=0, ndirs=r.choice([0, 1]), ngroups=0, isz=64, osz=r.choice([32, 128]), names=["a", "b"], hook=0)
    fs = [w.mkfile("f%d" % i, r.choice(["xgs", "g", "-"])) for i in range(n)]
    w.mount("/big", w.group(fs))
    s.go()
    for _ in range(r.choice([2, 3])):
        s.line(r.choice(["ls big", "cd big", "cat /big/f%d" % r.choice([0, n - 1, n // 2]), "/big/f%d" % (n - 1), "echo x > /big/f%d" % (n - 1)]))
    s.op("D", hx("/big")).go()
    s.type(r.choice([b"f", b"\t", b"cat f%d" % (n - 1), b"f25"]) + b"\t").go()
    s.line(" ./f%d" % (n - 1))
    s.op("?", hx("f%d" % r.choice([0, 255, 256, n - 1])))


def big_commands(r, s):             # many commands, many groups
    n = bign(r)
    w = World(r, s, nfiles=1, ndirs=0, ngroups=0, isz=64, osz=64, names=["a", "b"], hook=r.choice([0, 1]))
    fs = [w.mkfile("c%d" % i, "x") for i in range(n)]
    if r.random() < .5:
        w.addcmds(w.group(fs))
        ids = [1]
    else:
        ids = [w.addcmds(w.group([f])) for f in fs]
    s.go()
    for _ in range(2):
        s.line(r.choice(["help", "c%d a b" % (n - 1), "c0", "help c%d" % (n - 1), "c%d" % (n // 2)]))
    s.type(r.choice([b"c\t", b"c25\t", b"\t"])).go()
    s.type(b"\r").go()
    s.op("R", r.choice(ids))
    s.line("c%d" % (n - 1))
    s.op("?", hx("c%d" % r.choice([0, n - 1, 255])))


def big_dirs(r, s):                 # many directories side by side
    n = bign(r)
    w = World(r, s, nfiles=1, ndirs=0, ngroups=0, isz=64, osz=64, names=["a", "b"], hook=0)
    g = w.mkgroup(1)
    base = r.choice(["", "/d"])
    if base:
        w.mount(base, g)
    for i in range(n):
        w.mount(base + "/d%d" % i, g)
    s.go()
    s.line("ls " + (base or "/"))
    for _ in range(3):
        i = r.choice([0, n - 1, n // 2, 255, 254])
        if i >= n:
            continue
        k = r.random()
        if k < .3:
            s.line("cd %s/d%d" % (base, i))
        elif k < .6:
            s.op("U", hx(base + "/d%d" % i))
        elif k < .8:
            s.op("n", hx(base + "/d%d" % i))
        else:
            s.type(b"ls %s/d%s\t" % (base.encode(), str(i).encode()[:-1])).go()
            s.type(b"\r").go()
    s.line("pwd")


def big_depth(r, s):                # deep directories and long paths
    n = r.choice([17, 33, 65, 100, 129, 257, r.randrange(6, 40), r.randrange(6, 40)])
    nm = r.choice(["d", "dir", "e5"])
    pmax = r.choice([128, 256, 257, 300, 513, 1100])
    w = World(r, s, nfiles=1, ndirs=0, ngroups=0, pmax=pmax, isz=r.choice([300, 1200]), osz=64, names=["a", "b"], hook=0)
    g = w.mkgroup(1)
    p = ""
    ps = []
    for i in range(n):
        q = p + "/" + nm
        if len(q) + 1 > pmax:
            break
        p = q
        w.mount(p, g)
        ps.append(p)
    f = w.files[w._fids[g][0]]
    s.go()
    for _ in range(r.choice([3, 5])):
        q = r.choice(ps + ps[-2:])
        k = r.random()
        if k < .25:
            s.line(("cd " + q)[:w.isz - 2])
        elif k < .4:
            s.op("D", hx(q)).go()
        elif k < .5:
            s.line("cd " + "/".join([".."] * r.choice([1, 2, n // 2, n, n + 5]))[:w.isz - 8])
        elif k < .6:
            s.line(("cat " + q + "/" + f)[:w.isz - 2])
        elif k < .7:
            s.line("ls")
        elif k < .75:
            s.op("U", hx(q))
        elif k < .85:
            s.op("?", hx(q + "/" + f))
        elif k < .9:
            s.type(("ls " + q)[:w.isz - 4].encode() + b"\t").go()
            s.type(b"\r").go()
        else:
            s.line(("ls " + "/." * r.choice([10, 60, 127, 128, 300]))[:w.isz - 2])
    s.line("pwd")


def big_line(r, s):                 # long lines
    isz = r.choice([255, 256, 257, 300, 512, 513, 700, 2000])
    w = World(r, s, nfiles=1, ndirs=0, ngroups=1, isz=isz, osz=r.choice([64, 300]), names=["a", "b"], hook=1)
    s.go()
    for _ in range(r.choice([1, 2, 3])):
        n = r.choice([isz - 2, isz - 1, isz, isz + 1, 254, 255, 256, 257, 300, 2 * isz, r.randrange(1, isz)])
        n = min(n, 1300)
        al = r.choice([b"a", b"ab ", b"a b\\x", b'ab"', b"abcdefghij"])
        b = r.choice([b"", b"a ", b"echo ", b"cat "]) + bytes(r.choice(al) for _ in range(n))
        k = r.random()
        if k < .3:
            b += bytes([r.choice([BS, DEL])]) * r.choice([1, 2, 10, n - 1, n, n + 3])
            b += r.choice([b"", b"pwd", b"xyz"])
        elif k < .4:
            b += b"\t"
        elif k < .5:
            b += b"\x1b[A" * r.choice([1, 100, 260])
        elif k < .6:
            b += b"\x03"
        feed(r, s, b + r.choice(END))
    s.line("pwd")


def big_args(r, s):                 # many arguments
    isz = r.choice([600, 1000, 2000])
    w = World(r, s, nfiles=2, ndirs=0, ngroups=1, isz=isz, osz=64, names=["a", "b"], hook=r.choice([0, 1]), flags="xgs")
    s.go()
    c = r.choice((w.cmdnames() + w.allfiles()))
    for _ in range(r.choice([1, 2])):
        n = r.choice([16, 31, 32, 33, 63, 64, 100, 127, 128, 129, 254, 255, 256, 257, 280])
        a = r.choice([b"1", b"", b"a b", b"12", b"q"])
        l = [a if r.random() < .9 else r.choice([b"x", b"", b"yy"]) for _ in range(n)]
        b = r.choice([c.encode("latin-1"), b"echo", b"ls", b"help", b"cd"]) + b" " + b" ".join(quote(r, x) for x in l)
        if r.random() < .2:
            b = b"cat " + b" ".join([r.choice(w.allfiles()).encode("latin-1") for _ in range(n)])
        s.line(b[:isz - 2])
    s.line("pwd")


def big_texts(r, s):                # long names, descriptions, helps, messages
    n = lambda: r.choice([100, 254, 255, 256, 257, 300, 511, 512, 513, 1000])
    t = lambda: plain(n())
    w = World(r, s, nfiles=0, ndirs=0, ngroups=0, isz=r.choice([64, 600]), osz=r.choice([64, 254, 255, 256, 257, 300, 600, 1100, 1100, 2500]),
              pmax=r.choice([64, 600, 1100]), host=r.choice(["h", t()]), texts=[None, t(), t(), "x"], hook=r.choice([0, 1]))
    fs = [w.mkfile(r.choice(["a", "b", plain(r.choice([40, 100, 254, 255, 256, 257, 300]))]), "xgs") for _ in range(3)]
    if r.random() < .5:
        w.addcmds(w.group(fs))
    else:
        w.mount("/d", w.group(fs))
    if r.random() < .3:
        cb_blocks(r, w, s)
    s.go()
    for _ in range(r.choice([2, 4])):
        k = r.random()
        f = w.files[r.choice(fs)]
        if k < .2:
            s.line(r.choice(["help", "ls", "ls d"]))
        elif k < .4:
            s.line((r.choice(["help ", "cat ", "", "help /d/", "/d/"]) + f)[:w.isz - 2])
        elif k < .6:
            s.op(r.choice(["P", "N"]), hx(r.choice([t(), plain(5000)])))
            s.go()
        elif k < .8:
            for _ in range(r.choice([0, 1, 2, 4])):
                s.op("F", r.choice([0, 1, 2]), hx(r.choice([t(), "x", plain(w.osz - 1), plain(w.osz), plain(w.osz + 1)])))
            if r.random() < .6:
                s.op("FE", hx(r.choice(["", "x", t(), plain(max(0, min(n(), w.osz - 20)))])))
            s.go()
        elif k < .9:
            s.op(r.choice(["PO", "NO", "FL"]), hx(t()[:w.osz - 1]))
            s.go()
        else:
            s.type(("echo " + t())[:w.isz - 2].encode() + b"\r").go()
    s.line("")


def big_names(r, s):                # long names that share long beginnings
    w = World(r, s, nfiles=0, ndirs=0, ngroups=0, isz=r.choice([300, 600, 1100]), osz=r.choice([32, 64, 300]), pmax=r.choice([300, 700]),
              host="h", texts=[None], hook=0)
    stem = plain(r.choice([10, 120, 127, 128, 129, 250, 254, 255, 256, 257, 258, 300, 511, 513, 520]))
    names = [stem + t for t in r.choice([["a", "b"], ["", "b"], ["ab", "ac", "b"], [""], ["x" * 300, "x" * 280 + "y"]])] + r.choice([[], ["q"]])
    fs = [w.mkfile(n, "xg") for n in names]
    where = r.choice(["command", "root", "dir"])
    if where == "command":
        w.addcmds(w.group(fs))
    else:
        w.mount("/d" if where == "dir" else "/", w.group(fs))
    s.go()
    for _ in range(r.choice([2, 3, 4])):
        lead = r.choice(["", "cat ", "ls ", "help ", "/", "/d/", "cat d/", "x "])
        k = r.choice([0, 1, 1, 2, 5, len(stem) // 2, len(stem) - 1, len(stem)])
        s.type((lead + stem[:k]).encode()).go()
        for _ in range(r.choice([1, 2, 2, 3])):
            s.type("\t").go()
        if r.random() < .5:
            s.type(r.choice(["a", "b", "q", "x", "\x08"]) + "\t").go()
        s.type(r.choice(["\r", "\x03"])).go()


def big_content(r, s):              # large files
    w = World(r, s, nfiles=0, ndirs=0, ngroups=0, isz=64, osz=r.choice([32, 64, 300]), hook=0)
    kind = r.choice(["cat", "cat", "xxd"])
    n = r.choice([1000, 1024, 4095, 4096, 5000, 32768, 65535, 65536, 65537, 66000] if kind == "cat" else [500, 1024, 2049, 4096, 66000])
    f = w.mkfile("a", "g")
    g = w.mkfile("b", "g")
    s.op("c", f, hx(bytes(r.randrange(256) for _ in range(min(n, 997))) * (n // 997 + 1))[:1 + 2 * n])
    w.mount("/d", w.group([f, g]))
    s.go()
    s.line(kind + " /d/a")
    s.line("cat /d/b /d/a" if kind == "cat" else "xxd /d/b")


def big_wait(r, s):                 # long waits, long refusals, many commands
    w = World(r, s, nfiles=1, ndirs=1, ngroups=1, isz=32, osz=64, names=["a", "b"], hook=r.choice([0, 1]), flags="xgs")
    k = r.random()
    if k < .3:
        s.go()
        s.op("s", r.choice([255, 256, 257, 1000, 66000]))
        s.line("pwd")
    elif k < .6:
        s.type(r.choice([b"ls\r", b"a\r", b"\t", b"help\r", b"abc\x08"]))
        s.op("W", r.choice([0, 20, 30]))
        s.op("w", "0" * r.choice([255, 256, 257, 1000, 66000]) + "1")
        s.go()
        s.line("pwd")
    elif k < .7:
        s.go()
        s.op("rp", "0" * r.choice([255, 256, 257, 1000, 66000]) + "1")
        s.line("pwd")
    else:
        s.go()
        l = r.choice(["", "a", "nope", "pwd", "cd d", "ls", "echo a", "cat /a", "x\x03", "\t\t", "cd ..", "echo a > /a"])
        for _ in range(r.choice([255, 256, 257, 270])):
            s.line(l)
        s.line("pwd")


def big_echo(r, s):                 # long texts through echo
    isz = r.choice([600, 1300])
    w = World(r, s, nfiles=2, ndirs=0, ngroups=0, isz=isz, osz=r.choice([32, 300]), names=["a", "b"], hook=0, flags="gs")
    s.go()
    for _ in range(2):
        n = r.choice([63, 64, 127, 128, 254, 255, 256, 257, 290])
        t = b"".join(r.choice([b"\\x41", b"a", b"\\x00", b"\\xfF"]) for _ in range(n)) if r.random() < .7 else b"b" * n
        s.line((b"echo " + t[:isz - 14] + r.choice([b"", b" > /a", b" > /b"])))
        s.line(r.choice(["cat /a", "xxd /b"]))


def big_history(r, s):              # the same thing again and again
    w = World(r, s, nfiles=2, ndirs=2, ngroups=1, isz=32, osz=64, hook=r.choice([0, 1]), flags=r.choice([None, "xgs", "xp"]), maxdepth=2)
    g = w.mkgroup(1)
    d = r.choice(list(w.dirs))
    c = r.choice(w.allfiles() + w.cmdnames())
    one = r.choice([
        [["M", 900, hx("/zz"), g], ["U", hx("/zz")]], [["A", 901, g], ["R", 901]], [["D", hx(d)], ["D", hx("/")]], [["RS"]], [["RS"], ["g"]],
        [["M", 902, hx(d), g]], [["U", hx("/nope")]], [["P", hx("m")], ["g"]], [["F", 1, hx("m")], ["g"]], [["P", hx("m")]], [["i", hx("l\tx\x08")], ["g"]],
        [["i", hx(c + "\r")], ["g"]], [["i", hx("a\x08")], ["s", 3]], [["ST", 3], ["g"]], [["?", hx(c)], ["n", hx(d)]],
        [["DI"], ["RI"], ["M", w.rootid, hx("/"), g]], [["i", hx("\x03")], ["g"]], [["i", hx("\t")], ["g"]], [["i", hx("\x1b[A")], ["g"]],
        [["A", 901, g], ["g"], ["i", hx("help\r")], ["g"], ["R", 901]], [["D", hx(d)], ["i", hx("cd ..\r")], ["g"]]])
    first = r.random() < .5
    if first:
        s.go()
    for _ in range(r.choice([15, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 260])):
        for o in one:
            s.op(*o)
    s.go()
    if one[0][0] != "DI":
        for l in r.choice([["ls"], ["help"], ["pwd"], [c], ["cd " + d, "ls"]]):
            s.line(l)
    s.line("l\t\x03pwd")


LARGE = dict(history=big_history, files=big_files, commands=big_commands, dirs=big_dirs, depth=big_depth, line=big_line, args=big_args, texts=big_texts, names=big_names,
             content=big_content, wait=big_wait, echo=big_echo)


def g22(r):                         # commands that go on
    s = Script(r.choice([0, 0, 0, 1, 2, 3, 4]))
    w = World(r, s, flags=r.choice(["xp", "xpgs", "xpg", "x", "xgs"]), nfiles=r.choice([1, 2, 3]), ndirs=r.choice([0, 0, 1, 2]))
    s.go()
    for _ in range(r.choice([2, 4, 6, 10])):
        f = r.choice(w.allfiles() + w.cmdnames())
        fid = [i for i, n in w.files.items() if n == f.rsplit("/", 1)[-1]][0]
        for _ in range(r.choice([0, 1, 1, 2])):
            long_command(r, w, s, fid)
        s.type(typ(r, f) + r.choice([b"", b" 1", b" 1 2"]) + r.choice(END) + r.choice([b"", b"", b"ls\r", b"a\t", b"x" * 5, b"\x03"]))
        k = r.random()
        if k < .2:
            s.op("W", r.choice([1, 5, 10, 30]))
        elif k < .3:
            s.op("s", r.choice([10, 30, 60]))
        if k < .2:
            api_msg(r, w, s)
        elif k < .25:
            s.op("RS")
        s.go()
        if r.random() < .4:
            s.line(builtin_line(r, w))
    return s


def crowd(r):                       # many instances
    s = Script(r.choice([0, 0, 0, 1, 2, 3, 4]))
    n = r.choice([5, 6, 8, 9, 10, 16, 17, 20])
    ws = [World(r, s, iid=i, nfiles=r.choice([1, 2]), ndirs=r.choice([0, 1]), ngroups=r.choice([0, 1]), isz=r.choice([16, 32]), osz=r.choice([16, 32, 64]))
          for i in range(n)]
    for _ in range(r.choice([40, 80, 160])):
        i = r.choice([0, n - 1, r.randrange(n), r.randrange(n)])
        w = ws[i]
        s.op("S", i)
        k = r.random()
        if k < .45:
            s.type(builtin_line(r, w)[:w.isz - 2] + b"\r")
        elif k < .6:
            s.type(keystrokes(r, r.choice([1, 3, 8]), tabs=.15))
        elif k < .65:
            api_msg(r, w, s)
        elif k < .7:
            s.go().op("D", hx(r.choice(list(w.dirs))))
        elif k < .72:
            s.op("RS")
        s.op("s", r.choice([1, 3, 9, 30, 200]))
    for i in r.sample(range(n), n):
        s.op("S", i).go()
    for i in r.sample(range(n), n):
        s.op("S", i).line(r.choice(["pwd", "ls", "help", ""]))
    return s


def g21(r, kinds=None):
    s = Script(r.choice([0, 0, 0, 1, 4]))
    LARGE[r.choice(kinds or sorted(LARGE))](r, s)
    return s


# ------------------------------------------------------- everything together
def g00(r):                         # a long session with a bit of everything
    s = Script(r.choice([0, 0, 0, 0, 1, 2, 3, 4]))
    w = World(r, s, flags=r.choice([None, None, "xgs"]), ndirs=r.choice([1, 2, 4]), nfiles=r.choice([1, 2, 4]))
    cb_blocks(r, w, s)
    spare = [w.mkgroup(r.choice([1, 2])) for _ in range(3)]
    runner = w.mkfile("run", "x")
    w.addcmds(w.group([runner]))
    s.go()
    removed = []
    for _ in range(r.choice([5, 8, 12, 20])):
        k = r.random()
        if k < .45:
            b = builtin_line(r, w)
            if r.random() < .1:
                b = keystrokes(r, 5, tabs=.1) + b
            feed(r, s, b + r.choice(END))
        elif k < .52:
            s.type(b"run\r" if r.random() < .5 else builtin_line(r, w) + b"\r")
            s.op("W", r.choice([0, 1, 3, 7, 15, 40]))
            api_msg(r, w, s)
            s.go()
        elif k < .58:
            api_msg(r, w, s)
            s.go()
        elif k < .64:
            names = w.cmdnames() + w.allfiles() + list(w.dirs)
            nm = r.choice(names)
            s.type(r.choice([b"", b"ls ", b"cat "]) + nm[:r.randrange(len(nm) + 1)].encode("latin-1") + b"\t").go()
            s.type(r.choice([b"\r", b"\t\r", b"\x03", b"\x08\t\r"])).go()
        elif k < .70:
            p = w.newdir()
            if p:
                w.mount(p, r.choice(spare + [w.mkgroup(1)]))
        elif k < .75:
            leaf = [d for d in w.dirs if d != "/" and not any(q.startswith(d + "/") for q in w.dirs)]
            d = r.choice(leaf) if leaf and r.random() < .8 else r.choice(list(w.dirs)[1:] or ["/nope"])
            s.op("U", hx(d))
            if d in leaf:
                del w.dirs[d]
        elif k < .80:
            if spare and r.random() < .5:
                g = r.choice(spare)
                if g not in w.groups.values():
                    w.addcmds(g)
            elif w.groups:
                c = r.choice(list(w.groups))
                s.op("R", c)
                removed.append((c, w.groups.pop(c)))
            elif removed:
                c, g = removed.pop()
                s.op("A", c, g)
                w.groups[c] = g
        elif k < .86:
            s.op("D", hx(r.choice([w.path(files=False), r.choice(list(w.dirs))]))).go()
        elif k < .89:
            s.op("w", pattern(r, 200, r.choice([.2, .6, .9])))
            if r.random() < .5:
                s.op("rp", pattern(r, 50, .5))
        elif k < .91:
            if r.random() < .5:
                s.type(builtin_line(r, w) + b"\r")
                s.op("W", r.choice([1, 5, 12, 30]))
            s.op("RS").go()
        elif k < .94:
            s.op(r.choice(["?", "n", "np", "ab"]), hx(w.path()) if r.random() < .5 else hx("/" + r.choice(w.dnames)))
        elif k < .97:
            s.op("c", r.choice(list(w.files)), hx(content(r)))
        else:
            cb_blocks_late(r, w, s)
    s.line("pwd")
    if r.random() < .15:
        s.op("DI") if r.random() < .7 else None
        s.op("RI")
        s.op("M", 1, hx("/"), r.choice(list(w._fids))).go()
        s.line("ls")
        s.line("help")
    return s


def cb_blocks_late(r, w, s):
    """a callback with a planned message, and a line that calls it"""
    f = r.choice(w.allfiles() + w.cmdnames())
    fid = [i for i, n in w.files.items() if n == f.rsplit("/", 1)[-1]][0]
    kind = r.choice(["exec", "get", "set"])
    s.op("{", kind, fid)
    api_msg(r, w, s)
    s.op("}")
    s.line({"exec": typ(r, f), "get": b"cat " + typ(r, f), "set": b"echo a > " + typ(r, f)}[kind])


# ---------------------------------------------------------- transformations
def with_schedule(r, s):
    """the same script with an interface that is not always ready"""
    out = []
    depth = 0
    for l in s.l:
        depth += (l[0] == "{") - (l[0] == "}")
        if depth == 0 and l[0] in "ig" and r.random() < .3:
            out.append("w " + pattern(r, r.choice([10, 60, 300]), r.choice([.1, .5, .9])))
            if r.random() < .5:
                out.append("rp " + pattern(r, r.choice([5, 50]), r.choice([.2, .5, .9])))
        out.append(l)
    s.l = out
    return s


def with_steps(r, s):
    """the same script, served a few calls at a time"""
    out = []
    depth = 0
    for l in s.l:
        depth += (l[0] == "{") - (l[0] == "}")
        if depth == 0 and l == "g" and r.random() < .5:
            out.append("s %d" % r.choice([1, 2, 5, 20, 100]))
        out.append(l)
        if depth == 0 and l == "g" and r.random() < .3:
            out.append("s %d" % r.choice([1, 2, 3]))
    s.l = out
    return s


def turned_back(r, s):
    """the same script; the shell's memory is saved at some points and put back at others, with parts of the script
    done again or left out"""
    units, cur, n = [], [], 0           # what belongs together: callback blocks, an operation
    while n < len(s.l) and s.l[n].split(" ")[0] in ("I", "fd", "gl"):
        n += 1
    for m, l in enumerate(s.l[n:], n + 1):
        if l.startswith("U x2f") and not l[5:].replace("2f", "").strip():
            return s                    # a shell without a root can be served only so long
        cur.append(l)
        if cur[0][0] != "{" or l == "}":
            if l[0] == "i" and s.l[m:m + 1] == ["g"] and r.random() < .2:
                cur.append(r.choice(["s %d", "W %d"]) % r.choice([0, 1, 2, 5, 9, 20, 60]))
            units.append(cur)
            cur = []
    for u in units:                     # flushed text must have been put there just before
        u[:] = [l for m, l in enumerate(u) if l != "FB" or any(x[:2] in ("F ", "FL") for x in u[:m])]
    def root(lines):
        for l in reversed(lines):
            f = l.split(" ")
            if f[0] in ("DI", "RI") or f[0] == "M" and f[2] == "x2f":
                return f[0] == "M"
        return False
    out = s.l[:n]
    i, saved = 0, {}
    while i < len(units):
        if r.random() < .15 and root(out):
            k = r.randrange(8)
            if k not in saved:
                out.append("SV %d" % k)
                saved[k] = i
        if saved and r.random() < .12 and len(out) < 300:
            k = r.choice(list(saved))
            out.append("RT %d" % k)
            x = r.random()
            if x < .6:
                i = saved[k]            # all of it again
            elif x < .8:
                i = r.randint(min(saved[k], i), i)
            if x >= .6:
                out.append("g")
        out += units[i]
        i += 1
    s.l = out + (["g"] if saved else [])
    return s


def two(r, a, b):
    """two scripts of one configuration on two instances, interleaved"""
    def units(s, iid):
        out, cur = [], []
        for l in s.l:
            if l.startswith("I "):
                f = l.split(" ")
                f[1] = str(iid)
                l = " ".join(f)
            cur.append(l)
            if not any(x[0] == "{" for x in cur) or l == "}":
                out.append(cur)
                cur = []
        return out + ([cur] if cur else [])
    qa, qb = units(a, 0), units(b, 1)
    s = Script(a.v)
    s.l = qa.pop(0) + qb.pop(0)
    who = 1
    while qa or qb:
        i = 0 if qa and (not qb or r.random() < len(qa) / (len(qa) + len(qb))) else 1
        u = (qa if i == 0 else qb).pop(0)
        if i != who:
            s.op("S", i)
            who = i
        s.l += u
        while r.random() < .5 and (qa if i == 0 else qb):
            s.l += (qa if i == 0 else qb).pop(0)
    return s


SINGLE = ["g%02d" % i for i in range(0, 23) if i not in (17, 21)]

# what else exercises a property, besides its own family
RELATED = {
    1: "g02 g03 g13 g12 g04", 2: "g01 g03 g12 g13", 3: "g01 g18 g12", 4: "g05 g11 g01", 5: "g04 g08 g06 g20 g11 g15",
    6: "g07 g09 g12 g20 g18", 7: "g06 g09 g12 g20 g16", 8: "g05 g09 g12 g19", 9: "g07 g08 g10 g15", 10: "g11 g13 g20 g15",
    11: "g04 g10 g20", 12: "g02 g03 g07 g08 g18", 13: "*", 14: "*", 15: "g13 g14 g16 g05 g22", 16: "g15 g07 g08 g17", 17: "2",
    18: "*", 19: "*", 20: "g05 g06 g07 g08 g09 g10 g11",
    21: "g05 g14 g15 g16",
}
BIGS = {
    1: "line wait history", 2: "line wait", 3: "line names", 4: "args line", 5: "commands files args names", 6: "depth dirs", 7: "dirs depth files history", 8: "commands commands history",
    9: "files commands dirs texts", 10: "content args", 11: "echo line", 12: "files commands dirs names names names texts line", 13: "wait content texts",
    14: "wait content files history", 15: "texts texts texts history", 16: "wait texts depth history", 17: "", 18: "", 19: "files commands dirs line texts content", 20: "args wait files history", 21: "texts wait",
    22: "wait texts depth files names history",
}


def make(pid, r):
    k = int(pid[1:])
    Script.all = k == 19
    if k == 22:                 # any script, turned back
        y = r.random()
        s = globals()[r.choice(SINGLE)](r) if y < .7 else g00(r) if y < .97 else g21(r, BIGS[k].split())
        return turned_back(r, with_schedule(r, s) if r.random() < .2 else s)
    own = globals()["g%02d" % (22 if k == 21 else k)]
    x = r.random()
    if x < (.04 if k in (12, 15) else .02) and k != 17:
        return g21(r, BIGS[k].split())
    if x < .5:
        return own(r)
    rel = RELATED[k]
    fam = globals()[r.choice(SINGLE)] if rel in "*2" else globals()[r.choice(rel.split())] if x < .85 else g00
    if k == 17:
        if x > .985:
            return crowd(r)
        a = fam(r)
        Script.force = a.v
        try:
            b = globals()[r.choice(SINGLE)](r)
        finally:
            Script.force = None
        return two(r, a, b)
    if k == 19:
        Script.force = r.randrange(15)
        try:
            return fam(r)
        finally:
            Script.force = None
    s = fam(r)
    if k == 13:
        return with_schedule(r, s)
    if k == 14:
        return with_steps(r, s)
    y = r.random()
    return with_schedule(r, s) if y < .1 else with_steps(r, s) if y < .15 else s


def scripts(pid, seed, n, start=0):
    """n scripts of the family of pid: [(vcfg, name, text)]"""
    out = []
    for i in range(start, start + n):
        r = random.Random("%s/%s/%d" % (pid, seed, i))
        s = make(pid, r)
        name = "%s.%d.%d" % (pid, seed, i)
        out.append((s.v, name, s.text(name)))
    return out
