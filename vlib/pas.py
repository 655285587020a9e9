"""Pascal programs over files, strings, the heap and the clock, in an intermediate form (lists, so that a program is
JSON) that can be written out as Pascal text and executed by a small reference model.

The model knows nothing of the runtime: a text file is a sequence of bytes, a typed file a sequence of components
(represented by what the program prints for them), a file variable a name, a mode and a position."""

WS = b" \t\n\v\f\r"
ENUM = ["red", "green", "blue", "violet", "black", "white"]
STRMAX = 255


class Undefined(Exception):
    """The operation has no defined result in the present state: such programs are not generated."""


class Ended(Exception):
    def __init__(self, status, msg=False):
        self.status, self.msg = status, msg


class Stop(Exception):
    pass


# ------------------------------------------------------------------ component types
class CT:
    def __init__(self, name, decl, setc, show, line, bulk=0):
        self.name, self.decl, self.setc, self.show, self.line, self.bulk = name, decl, setc, show, line, bulk


def mkstr(n, k):
    return bytes(33 + (k + i * 13) % 223 for i in range(1, n + 1))


def _vrec(k):
    return "%d %d " % (k * 77 - 5, k % 3) + ("%d %d" % (k * 1000033 - 9, k * 11 % 256) if k % 3 == 0 else "%d %s" % (
        k % 13, "".join(chr(65 + (k + i) % 26) for i in range(1, k % 13 + 1))) if k % 3 == 1 else "%d %.3f" % (
            k * 13 % 256, k * .625 - 3))


def _rec(k):
    return "%d %d %.3f %d %d" % (k * 31 - 7, (k * 5) % 256, k * 3 / 8, k * 1000003, k % 2)


TYPES = {t.name: t for t in [
    CT("int", "integer", "v := k * 7919 - 100000;", "writeln(v:1);", lambda k: "%d" % (k * 7919 - 100000)),
    CT("char", "char", "v := chr((k * 37) mod 256);", "writeln(ord(v):1);", lambda k: "%d" % (k * 37 % 256)),
    CT("i64", "longint", "v := k; v := v * 1000003 * 1009 - 77;", "writeln(v:1);",
       lambda k: "%d" % (k * 1000003 * 1009 - 77)),
    CT("real", "real", "v := k * 0.375 - 11.0;", "writeln(v:1:3);", lambda k: "%.3f" % (k * 0.375 - 11)),
    CT("bool", "boolean", "v := odd(k);", "if v then writeln('yes') else writeln('no');",
       lambda k: "yes" if k % 2 else "no"),
    CT("enum", "en", "v := red; for i := 1 to k mod 6 do v := succ(v);", "writeln(ord(v):1);", lambda k: "%d" % (k % 6)),
    CT("sub", "sub", "v := 1 + (k * 11) mod 200;", "writeln(v:1);", lambda k: "%d" % (1 + k * 11 % 200)),
    CT("set", "bset", "v := [k mod 32, (k * 7) mod 32];",
       "for i := 0 to 31 do if i in v then write(i:1, ','); writeln;",
       lambda k: "".join("%d," % i for i in sorted({k % 32, k * 7 % 32}))),
    CT("rec", "rec", "v.a := k * 31 - 7; v.b := chr((k * 5) mod 256); v.c := k * 0.375; v.d := k; v.d := v.d * 1000003; "
       "v.e := odd(k);", "writeln(v.a:1, ' ', ord(v.b):1, ' ', v.c:1:3, ' ', v.d:1, ' ', ord(v.e):1);", _rec),
    CT("odd3", "odd3", "v.x := chr(k mod 256); v.y := chr((k * 3 + 1) mod 256); v.z := chr((k * 7 + 2) mod 256);",
       "writeln(ord(v.x):1, ' ', ord(v.y):1, ' ', ord(v.z):1);",
       lambda k: "%d %d %d" % (k % 256, (k * 3 + 1) % 256, (k * 7 + 2) % 256)),
    CT("arr", "arr", "for i := 1 to 5 do v[i] := k * 5 + i;",
       "for i := 1 to 5 do write(v[i]:1, ' '); writeln;", lambda k: "".join("%d " % (k * 5 + i) for i in range(1, 6))),
    CT("str", "str20", "v := ''; for i := 1 to k mod 21 do v := v + chr(97 + (k + i) mod 26);",
       "writeln(length(v):1, ' ', v);",
       lambda k: "%d %s" % (k % 21, "".join(chr(97 + (k + i) % 26) for i in range(1, k % 21 + 1)))),
    CT("carr", "carr", "for i := 1 to 7 do v[i] := chr(97 + (k + i * 3) mod 26);", "writeln(v);",
       lambda k: "".join(chr(97 + (k + i * 3) % 26) for i in range(1, 8))),
    CT("nest", "nest", "for i := 1 to 3 do begin v[i].a := k * 3 + i; v[i].b := chr((k + i) mod 256); v[i].c := k * 0.125; "
       "v[i].d := k - i; v[i].e := odd(k + i) end;",
       "for i := 1 to 3 do write(v[i].a:1, ' ', ord(v[i].b):1, ' ', v[i].c:1:3, ' ', v[i].d:1, ' ', ord(v[i].e):1, ';'); "
       "writeln;",
       lambda k: "".join("%d %d %.3f %d %d;" % (k * 3 + i, (k + i) % 256, k / 8, k - i, (k + i) % 2) for i in (1, 2, 3))),
    CT("tagd", "tagd", "v.a := k * 77 - 5; v.k := k mod 3; if v.k = 0 then begin v.x := k; v.x := v.x * 1000033 - 9; v.c := chr((k * 11) mod 256) end "
       "else if v.k = 1 then begin v.s := ''; for i := 1 to k mod 13 do v.s := v.s + chr(65 + (k + i) mod 26) end "
       "else begin v.e := chr((k * 13) mod 256); v.r := k * 0.625 - 3.0 end;",
       "write(v.a:1, ' ', v.k:1, ' '); if v.k = 0 then writeln(v.x:1, ' ', ord(v.c):1) "
       "else if v.k = 1 then writeln(length(v.s):1, ' ', v.s) else writeln(ord(v.e):1, ' ', v.r:1:3);", _vrec),
    CT("mat", "mat", "for c := 'a' to 'c' do for i := 1 to 4 do begin v[c, i] := ord(c) * 1000 + i; v[c, i] := v[c, i] * 10000019 + k end;",
       "for c := 'a' to 'c' do for i := 1 to 4 do write(v[c, i]:1, ' '); writeln;",
       lambda k: "".join("%d " % ((c * 1000 + i) * 10000019 + k) for c in (97, 98, 99) for i in (1, 2, 3, 4))),
    CT("cset", "cset", "v := [chr((k * 3) mod 256), chr((k * 7 + 11) mod 256), 'a'];",
       "for i := 0 to 255 do if chr(i) in v then write(i:1, ','); writeln;",
       lambda k: "".join("%d," % i for i in sorted({k * 3 % 256, (k * 7 + 11) % 256, 97}))),
    CT("ns", "ns", "v.n := chr((k * 3) mod 256); v.i.c := chr((k * 5 + 1) mod 256); v.i.l := k; v.i.l := -v.i.l * 100000007; "
       "v.z := chr((k * 9 + 2) mod 256);", "writeln(ord(v.n):1, ' ', ord(v.i.c):1, ' ', v.i.l:1, ' ', ord(v.z):1);",
       lambda k: "%d %d %d %d" % (k * 3 % 256, (k * 5 + 1) % 256, -k * 100000007, (k * 9 + 2) % 256)),
    CT("barr", "barr", "for i := 1 to 3 do v[i] := odd(k div i);", "for i := 1 to 3 do write(ord(v[i]):1); writeln;",
       lambda k: "".join("%d" % (k // i % 2) for i in (1, 2, 3))),
    CT("wset", "wset", "v := [k mod 101, (k * 7 + 50) mod 101, 100];",
       "for i := 0 to 100 do if i in v then write(i:1, ','); writeln;",
       lambda k: "".join("%d," % i for i in sorted({k % 101, (k * 7 + 50) % 101, 100}))),
    CT("earr", "earr", "for e := red to white do v[e] := k * 0.25 + ord(e);",
       "for e := red to white do write(v[e]:1:2, ' '); writeln;",
       lambda k: "".join("%.2f " % (k / 4 + i) for i in range(6))),
    CT("big", "big", "for i := 1 to 300 do v[i] := k * 300 + i;",
       "j := 0; for i := 1 to 300 do j := (j * 3 + v[i]) mod 9973; writeln(v[1]:1, ' ', v[300]:1, ' ', j:1);",
       lambda k: "%d %d %d" % (k * 300 + 1, k * 300 + 300, _cs(k * 300, 300)), 1),
    CT("huge", "huge", "for i := 1 to 1500 do v[i] := k * 1500 + i;",
       "j := 0; for i := 1 to 1500 do j := (j * 3 + v[i]) mod 9973; writeln(v[1]:1, ' ', v[1500]:1, ' ', j:1);",
       lambda k: "%d %d %d" % (k * 1500 + 1, k * 1500 + 1500, _cs(k * 1500, 1500)), 2),
]}


def _cs(b, n):
    j = 0
    for i in range(1, n + 1):
        j = (j * 3 + b + i) % 9973
    return j


_lines = {}


def line(t, k):
    r = _lines.get((t, k))
    if r is None:
        r = _lines[t, k] = TYPES[t].line(k).encode("latin1")
    return r


# ------------------------------------------------------------------ formatting, as write does it
def chars(s, w):
    if w is not None and w > 0:
        s = s[:w]
        return s.rjust(w)
    return s


def item(it):
    t, v, w, p = it
    if t in "il":
        return b"%*d" % (w or 0, v)
    if t == "F":
        return b"%*d" % (w or 0, v + 1)
    if t == "r":
        if p is not None:
            return b"%*.*f" % (w or 0, p, v)
        w = w or 13
        return b"% *.*E" % (w, w - 7 if w > 8 else 1, v)
    if t == "c":
        return bytes([v]).rjust(w or 1)
    if t == "b":
        s = b"TRUE" if v else b"FALSE"
        return chars(s, max(w or 0, len(s)))
    if t == "e":
        return chars(ENUM[v].encode(), w)
    if t in "sA":
        return chars(v.encode("latin1"), w)
    if t == "S":
        return mkstr(*v)
    raise Undefined(t)


def quoted(s):
    return "'" + s.replace("'", "''") + "'"


# ------------------------------------------------------------------ scanning, as read does it
class Scan:
    """Something that can be read as text"""

    def __init__(self, data, pos=0):
        self.data, self.pos = data, pos

    def need(self, pos):
        pass

    def cur(self):
        self.need(self.pos)
        return self.data[self.pos] if self.pos < len(self.data) else None

    def eof(self):
        return self.cur() is None

    def eoln(self):
        return self.cur() in (None, 10)

    def skip(self):
        while self.cur() is not None and self.cur() in WS:
            self.pos += 1

    def int(self, lo, hi):
        self.skip()
        n, sign, any_ = 0, 1, False
        if self.cur() in (43, 45):
            sign = -1 if self.cur() == 45 else 1
            self.pos += 1
        while self.cur() is not None and 48 <= self.cur() <= 57:
            n = n * 10 + self.cur() - 48
            any_ = True
            self.pos += 1
        if not any_ or not lo <= n * sign <= hi:
            raise Undefined("no integer")
        return n * sign

    def real(self):
        self.skip()
        t, digits = "", 0

        def take(s):
            nonlocal t
            c = self.cur()
            if c is not None and chr(c) in s:
                t += chr(c)
                self.pos += 1
                return True
            return False
        take("+-")
        while take("0123456789"):
            digits += 1
        if take("."):
            while take("0123456789"):
                digits += 1
        if take("eE"):
            take("+-")
            n = 0
            while take("0123456789"):
                n += 1
            if not n:
                raise Undefined("no real")
        if not digits or digits > 15:
            raise Undefined("no real")
        return float(t)

    def char(self):
        c = self.cur()
        if c is None:
            raise Undefined("read at end of file")
        self.pos += 1
        return c

    def string(self, cap):
        if self.cur() is None:
            raise Undefined("read at end of file")
        s = bytearray()
        while len(s) < cap and not self.eoln():
            s.append(self.cur())
            self.pos += 1
        return bytes(s)

    def bool(self):
        self.skip()
        s = bytearray()
        while self.cur() is not None and self.cur() not in WS:
            s.append(self.cur())
            self.pos += 1
            if len(s) > 90:
                raise Undefined("no boolean")
        if s.upper() not in (b"TRUE", b"FALSE"):
            raise Undefined("no boolean")
        return s.upper() == b"TRUE"

    def ln(self):
        while not self.eoln():
            self.pos += 1
        if self.cur() is not None:
            self.pos += 1
        else:
            raise Undefined("readln at end of file")

    def target(self, t):
        """Read one value and give what the program prints for it"""
        k = t[0]
        if k == "i":
            return b"i %d\n" % self.int(-2**31, 2**31 - 1)
        if k == "l":
            return b"l %d\n" % self.int(-2**63, 2**63 - 1)
        if k == "r":
            x = self.real() * 10 ** t[1]
            # where the last bit of the conversion does not matter
            if abs(x) >= 1e13 or abs(abs(x) % 1 - .5) < 1e-3:
                raise Undefined("too precise")
            return b"r %.*f\n" % (t[1], x / 10 ** t[1])
        if k == "c":
            return b"c %d\n" % nl32(self.char())
        if k == "b":
            return b"b %d\n" % self.bool()
        if k in "ST":
            s = self.string(255 if k == "S" else 20)
            return b"%c %d %s\n" % (ord(k), len(s), s)
        if k == "A":
            s = self.string(7)
            return b"A %s\n" % (s + b"......."[len(s):])
        raise Undefined(k)


def nl32(c):
    return 32 if c == 10 else c


# ------------------------------------------------------------------ the model
class Ent:
    """The contents of an external file"""
    __slots__ = ("type", "data")

    def __init__(self, type_, data):
        self.type, self.data = type_, data


class FV:
    """A file variable"""
    __slots__ = ("type", "name", "mode", "ent", "pos", "base", "bound", "scan", "acc")

    def __init__(self, type_):
        self.type, self.name, self.mode, self.ent, self.pos, self.base = type_, None, "", None, 0, 0
        self.scan, self.bound, self.acc = None, False, ""


class Stdin(Scan):
    def __init__(self, w, data):
        Scan.__init__(self, data)
        self.w, self.seen, self.lines = w, -1, []

    def need(self, pos):
        # when each line (or the end) is first asked for, and how much had been written by then
        while self.seen < pos and self.seen < len(self.data):
            self.seen += 1
            i = self.seen
            if i == 0 or self.data[i - 1] == 10 or i == len(self.data):
                self.lines.append((i, len(self.w.out)))


class World:
    def __init__(self, prog, fs=None, params=()):
        self.prog = prog
        self.vars = {i: FV(f[0]) for i, f in enumerate(prog["files"])}
        self.fs = {}
        for n, (t, d) in (fs if fs is not None else prog.get("fs0", {})).items():
            self.fs[n] = Ent(t, bytearray(d.encode("latin1") if isinstance(d, str) else d) if t == "text" else list(d))
        self.out = bytearray()
        self.marks, self.limit = 0, None
        self.status, self.msg, self.ended = 0, False, False
        self.tmp = 0
        self.openmax = 0
        self.ptrs = {}
        self.stdin = Stdin(self, prog.get("stdin", "").encode("latin1"))
        self.loopi = 0
        self.strs = {}
        self.gen = {}

    # -------------------------------------------------- running
    def run(self, limit=None):
        self.limit = limit
        try:
            if limit == 0:
                raise Stop
            if self.prog.get("unit"):
                self.say(b"unit\n")
            self.ops(self.prog["ops"])
        except Ended as e:
            self.status, self.msg, self.ended = e.status, e.msg, True
        except Stop:
            return self
        for f in self.vars.values():
            f.mode = ""      # everything is closed, or at least stored, when the program ends
        return self

    def ops(self, ops):
        for op in ops:
            self.op(op)

    def op(self, op):
        getattr(self, "o_" + op[0])(*op[1:])
        self.mark()

    def mark(self):
        self.marks += 1
        if self.limit is not None and self.marks >= self.limit:
            raise Stop

    def say(self, s):
        self.out += s

    # -------------------------------------------------- helpers
    def writers(self, name, but=None):
        return [v for v in self.vars.values() if v is not but and v.name == name and v.mode in ("write", "update")]

    def users(self, name, but=None):
        return [v for v in self.vars.values() if v is not but and v.name == name and v.mode]

    def fv(self, f, *modes):
        v = self.vars.get(f)
        if v is None:
            raise Undefined("no such variable")
        if modes and v.mode not in modes:
            raise Undefined("not open so")
        return v

    def text(self, f, *modes):
        v = self.fv(f, *modes)
        if v.type != "text":
            raise Undefined("not text")
        return v

    def typed(self, f, *modes):
        v = self.fv(f, *modes)
        if v.type == "text":
            raise Undefined("text")
        return v

    def unname(self, v):
        if v.name is None:
            self.tmp += 1
            v.name, v.bound = "\0%d" % self.tmp, False

    # -------------------------------------------------- operations on files
    def o_assign(self, f, name, how=0):
        v = self.fv(f)
        v.mode = ""
        v.name, v.bound = name, True

    def opening(self, v):
        if v.name == "":
            raise Undefined("unbound")
        self.unname(v)
        e = self.fs.get(v.name)
        if e and e.type != v.type:
            raise Undefined("another type of file")

    def opened(self):
        self.openmax = max(self.openmax, sum(1 for v in self.vars.values() if v.mode))

    def o_reset(self, f):
        v = self.fv(f)
        self.opening(v)
        if self.writers(v.name, v):
            raise Undefined("being written")
        v.mode = ""
        if v.name not in self.fs:
            raise Ended(1, True)
        v.ent = self.fs[v.name]
        v.mode, v.pos, v.acc = "read", 0, "r"
        v.scan = Scan(v.ent.data) if v.type == "text" else None
        self.opened()

    def o_rewrite(self, f):
        v = self.fv(f)
        self.opening(v)
        if self.users(v.name, v):
            raise Undefined("in use")
        v.ent = self.fs[v.name] = Ent(v.type, bytearray() if v.type == "text" else [])
        v.mode, v.base, v.acc = "write", 0, ""
        v.pos = 0
        self.gen[v.name] = self.gen.get(v.name, 0) + 1
        self.opened()

    def o_append(self, f):
        v = self.fv(f)
        self.opening(v)
        if self.users(v.name, v):
            raise Undefined("in use")
        if v.name not in self.fs:
            self.fs[v.name] = Ent(v.type, bytearray() if v.type == "text" else [])
            self.gen[v.name] = self.gen.get(v.name, 0) + 1
        v.ent = self.fs[v.name]
        v.mode, v.base, v.acc = "write", len(v.ent.data), ""
        v.pos = v.base
        self.opened()

    def o_close(self, f):
        v = self.fv(f, "read", "write", "update")
        v.mode = ""

    def dest(self, f):
        if f == -1:
            return self.out
        v = self.text(f, "write")
        return v.ent.data

    def o_w(self, f, items, nl=1):
        d = self.dest(f)
        for it in items:
            d += item(it)
        if nl:
            d += b"\n"

    def o_page(self, f):
        d = self.dest(f)
        d += b"\f"

    def o_wl(self, f, n, ln, step, k):
        """n lines of strings of various lengths"""
        d = self.dest(f)
        if n < 0:
            raise Undefined("n")
        for i in range(1, n + 1):
            d += mkstr((ln + i * step) % 256, k + i) + b"\n"

    def o_wc(self, f, n, k):
        """n characters and no line end"""
        d = self.dest(f)
        d += bytes(33 + (k + i * 7) % 90 for i in range(1, n + 1))

    def o_wi(self, f, n, per, k):
        """n integers, so many on a line"""
        d = self.dest(f)
        if per < 1:
            raise Undefined("per")
        for i in range(1, n + 1):
            d += b"%d" % (k + i * 7) + (b"\n" if i % per == 0 else b" ")

    def put(self, v, c):
        data = v.ent.data
        if v.pos < len(data):
            data[v.pos] = c
        else:
            data.append(c)
        v.pos += 1

    def canput(self, v, n=1):
        # within a file that was moved from its end, one after the other
        if v.pos > len(v.ent.data):
            raise Undefined("gap")

    def o_wt(self, f, k):
        v = self.typed(f, "write", "update")
        self.canput(v)
        self.put(v, line(v.type, k))

    o_wp = o_wt

    def o_wn(self, f, n, k):
        v = self.typed(f, "write", "update")
        self.canput(v)
        for i in range(1, n + 1):
            self.put(v, line(v.type, k + i))

    def source(self, f):
        if f == -2:
            return self.stdin
        return self.text(f, "read").scan

    def o_r(self, f, targets, nl=0):
        s = self.source(f)
        p = s.pos
        try:
            o = b"".join([s.target(t) for t in targets])
            if nl:
                s.ln()
        except Undefined:
            s.pos = p
            raise
        self.say(o)

    def o_rt(self, f):
        v = self.typed(f, "read", "update")
        if v.pos >= len(v.ent.data):
            raise Undefined("read at end of file")
        self.say(b"t " + v.ent.data[v.pos] + b"\n")
        v.pos += 1

    def o_g(self, f):
        if f == -2 or self.fv(f).type == "text":
            s = self.source(f)
            if s.eof():
                raise Undefined("get at end of file")
            s.pos += 1
        else:
            v = self.typed(f, "read", "update")
            if v.pos >= len(v.ent.data):
                raise Undefined("get at end of file")
            v.pos += 1

    def o_pk(self, f):
        if f == -2 or self.fv(f).type == "text":
            c = self.source(f).cur()
            if c is None:
                raise Undefined("f^ at end of file")
            self.say(b"p %d\n" % nl32(c))
        else:
            v = self.typed(f, "read", "update")
            if v.pos >= len(v.ent.data):
                raise Undefined("f^ at end of file")
            self.say(b"t " + v.ent.data[v.pos] + b"\n")

    def o_eof(self, f):
        if f == -2:
            r = self.stdin.eof()
        else:
            v = self.fv(f, "read", "write", "update")
            if v.mode == "write":
                # after a seek, like any other file; otherwise always
                r = True if not v.acc else v.pos >= len(v.ent.data)
            elif v.type == "text":
                r = v.scan.eof()
            else:
                r = v.pos >= len(v.ent.data)
        self.say(b"eof %d\n" % r)

    def o_eoln(self, f):
        s = self.source(f)
        if s.eof():
            raise Undefined("eoln at end of file")
        self.say(b"eoln %d\n" % s.eoln())

    def o_ra(self, f, how):
        """Read the rest"""
        if f != -2 and self.fv(f).type != "text":
            v = self.typed(f, "read", "update")
            n = 0
            while v.pos < len(v.ent.data):
                self.say(b"t " + v.ent.data[v.pos] + b"\n")
                v.pos += 1
                n += 1
            self.say(b"all %d\n" % n)
            return
        s = self.source(f)
        n = cs = ls = 0
        if how == 2:
            while not s.eof():
                st = s.string(255)
                self.say(b"%d:%s\n" % (len(st), st))
                self.rest(s)
                n += 1
            self.say(b"all %d\n" % n)
            return
        while not s.eof():
            c = s.char()
            if c == 10:
                ls += 1
            cs = (cs * 31 + nl32(c)) % 100003
            n += 1
        self.say(b"all %d %d %d\n" % (n, ls, cs))

    def rest(self, s):
        """readln, where the file may end without a line end"""
        while not s.eoln():
            s.pos += 1
        if s.cur() is not None:
            s.pos += 1

    def o_cp(self, f, g, how):
        """Copy the rest of a text file"""
        s = self.source(f)
        d = self.dest(g)
        if how in (0, 1):
            while not s.eof():
                while not s.eoln():
                    d.append(s.char())
                self.rest(s)
                d += b"\n"
        elif how == 2:
            while not s.eof():
                d += s.string(255)
                self.rest(s)
                d += b"\n"
        else:
            raise Undefined("how")

    def o_cpt(self, f, g, how):
        """Copy the rest of a typed file"""
        v = self.typed(f, "read")
        w = self.typed(g, "write")
        if v.type != w.type or v is w:
            raise Undefined("types")
        self.canput(w)
        for c in v.ent.data[v.pos:]:
            self.put(w, c)
        v.pos = len(v.ent.data)

    def o_sk(self, f, n, how):
        """Skip n characters"""
        s = self.source(f)
        for _ in range(n):
            if s.eof():
                raise Undefined("skip past the end")
            s.pos += 1

    def o_xr(self, f, targets, nl, where):
        raise Undefined("anything may come")

    o_xs = o_xl = o_xr

    # -------------------------------------------------- not as it should be
    def o_mis(self, op):
        """An operation on a file that is not open, or not so"""
        f = op[1]
        if f >= 0:
            v = self.fv(f)
            k = op[0]
            if k in ("w", "wl", "wc", "wi", "wt", "wp", "wn", "page"):
                bad = v.mode not in ("write", "update")
            elif k in ("r", "rt", "g", "ra", "eoln"):
                bad = v.mode not in ("read", "update")
            else:
                bad = not v.mode
            if not bad:
                raise Undefined("quite all right")
        elif (f == -1) != (op[0] in ("r", "g", "eoln", "ra")):
            raise Undefined("quite all right")
        if self.prog.get("harmless"):
            return
        raise Ended(1, True)

    # -------------------------------------------------- direct access
    def seek(self, f, n, mode, acc):
        v = self.typed(f, "read", "write", "update")
        if self.users(v.name, v) if "w" in acc else self.writers(v.name, v):
            raise Undefined("in use")
        if not 0 <= n <= len(v.ent.data):
            raise Ended(1, True)
        if acc not in v.acc:
            v.acc = acc
        v.mode, v.pos = mode, n
        v.base = None

    def o_sr(self, f, n):
        self.seek(f, n, "read", "r")

    def o_sw(self, f, n):
        self.seek(f, n, "write", "rw")

    def o_su(self, f, n):
        self.seek(f, n, "update", "rw")

    def o_pos(self, f):
        v = self.typed(f, "read", "write", "update")
        self.say(b"pos %d\n" % v.pos)

    def o_lpos(self, f):
        v = self.typed(f, "read", "write", "update")
        self.say(b"lpos %d\n" % (len(v.ent.data) - 1))

    def o_emp(self, f):
        v = self.typed(f, "read", "write", "update")
        self.say(b"emp %d\n" % (not v.ent.data))

    # -------------------------------------------------- binding
    def o_bind(self, f, name):
        v = self.fv(f)
        if v.name is None:
            raise Undefined("fresh variable")
        v.mode = ""
        v.name, v.bound = name, True

    def o_unb(self, f):
        v = self.fv(f)
        if v.name is None:
            raise Undefined("fresh variable")
        v.mode = ""
        v.name, v.bound = "", False

    def o_bq(self, f):
        v = self.fv(f)
        if v.name and v.bound:
            self.say(b"bound [" + v.name.encode("latin1") + b"]\n")
        else:
            self.say(b"not bound\n")

    # -------------------------------------------------- strings
    def o_ws(self, cap, items):
        s = b"".join(item(i) for i in items)
        s = s[:cap]
        self.say(b"s %d [%s]\n" % (len(s), s))

    def o_wz(self, cap, first, its, form):
        """writestr into a string that its own arguments use; what lies around it stays as it is"""
        old = first[:cap].encode("latin1")
        f = {"V": lambda v, w: chars(old, w), "L": lambda v, w: b"%*d" % (w or 0, len(old)), "K": lambda v, w: old[v - 1:v].rjust(w or 1),
             "D": lambda v, w: old + old}
        s = b"".join(f[i[0]](i[1], i[2]) if i[0] in f else item(i) for i in its)[:cap]
        self.say(b"z %d [%s] 11 22 33 44\n" % (len(s), s))

    def o_rs(self, text, targets):
        s = Scan(text.encode("latin1"))
        self.say(b"".join([s.target(t) for t in targets]))

    def o_rw(self, cap, items, targets):
        """writestr, and readstr what that gave"""
        t = b"".join(item(i) for i in items)
        if len(t) > cap:
            raise Undefined("long")
        s = Scan(t)
        self.say(b"".join([s.target(x) for x in targets]))

    def o_rn(self, vals, at, depth, same):
        a = [0] * 5
        for v, i in zip(vals, at):
            a[i - 1] = v
        self.say(b"rn" + b"".join(b" %d" % x for x in a) + b"\n")

    def o_mny(self, n, t, k):
        """An internal file that stays in use while n procedures, one after the other, use one each"""
        self.tmp += n + 1
        if t == "text":
            self.say(b"".join(b"m %d\n" % (k + i) for i in (1, 2, 3)))
        else:
            self.say(b"".join(b"t " + line(t, k + i) + b"\n" for i in (1, 2, 3)))
        self.openmax = max(self.openmax, sum(1 for v in self.vars.values() if v.mode) + 2)

    # -------------------------------------------------- structure
    def o_cyc(self, n, body):
        for _ in range(n):
            self.ops(body)

    def o_blk(self, files, body):
        ids = sorted(i for i, t, w in files)
        for i, t, w in files:
            if i in self.vars:
                raise Undefined("twice")
            self.vars[i] = FV(t)
        self.ops(body)
        for i in ids:
            del self.vars[i]

    def o_rec(self, depth, t, n, k):
        """A recursive procedure with a file of its own in each activation"""
        self.tmp += depth
        if t == "text":
            self.say(b"".join(b"rec %d%s\n" % (d, b"".join(b" %d" % (k + d * 100 + i) for i in range(1, n + 1)))
                              for d in range(1, depth + 1)))
        else:
            self.say(b"".join(b"t " + line(t, k + d * 100 + i) + b"\n" for d in range(1, depth + 1) for i in range(1, n + 1)))
        self.openmax = max(self.openmax, sum(1 for v in self.vars.values() if v.mode) + depth)

    def o_via(self, op):
        if op[0] in ("cyc", "blk", "rec", "via", "end", "cp", "cpt"):
            raise Undefined("via")
        getattr(self, "o_" + op[0])(*op[1:])

    # -------------------------------------------------- heap
    def o_new(self, p, t, k):
        if p in self.ptrs:
            raise Undefined("lost")
        self.ptrs[p] = (t, k)

    def o_setp(self, p, k):
        if p not in self.ptrs:
            raise Undefined("nil")
        self.ptrs[p] = (self.ptrs[p][0], k)

    def o_chk(self, p):
        if p not in self.ptrs:
            raise Undefined("nil")
        t, k = self.ptrs[p]
        self.say(b"h " + line(t, k) + b"\n")

    def o_dis(self, p):
        if p not in self.ptrs:
            raise Undefined("nil")
        del self.ptrs[p]

    def o_list(self, n, t, k, every):
        """Build a list, dispose of every so-manyth element, check the rest, dispose of all"""
        if every < 2:
            raise Undefined("every")
        left = [i for i in range(1, n + 1) if i % every]
        for i in reversed(left):
            self.say(b"h " + line(t, k + i) + b"\n")

    # -------------------------------------------------- endings
    def o_end(self, kind, arg=0, depth=0, how=0, msg="stopped here"):
        if kind == "halt":
            raise Ended(arg % 256)
        if kind == "panic":
            raise Ended(11, msg.encode("latin1") + b"\n")
        if kind == "range":
            raise Ended(12, True)
        if kind == "open":
            raise Ended(1, True)
        if kind == "normal":
            raise Ended(0)
        raise Undefined(kind)

    def o_after(self):
        self.say(b"AFTER\n")


# ------------------------------------------------------------------ emission
class Emit:
    def __init__(self, prog):
        self.prog = prog
        self.types, self.decls, self.procs, self.vars = {}, [], [], {}
        self.nproc = 0
        self.marks = prog.get("marks", 1)
        self.acc = {}
        self.ftypes = {}
        self.depth = 0
        self.used = set()

    def need(self, t):
        if t != "text":
            self.types[t] = 1
        return t

    def ftype(self, t):
        if t == "text":
            return "text"
        self.need(t)
        self.ftypes["f" + t] = "file of " + TYPES[t].decl
        return "f" + t

    def var(self, name, typ):
        self.vars[name] = typ
        return name

    def declare(self, i, t, where):
        ft = self.ftype(t)
        n = "f%d" % i
        if where == "field":
            self.ftypes["rf%d" % i] = "record pad: integer; f: %s; q: longint end" % ft
            self.acc[i] = "r%d.f" % i
            return ["r%d: rf%d" % (i, i)], []
        if where == "elem":
            self.acc[i] = "a%d[%d]" % (i, i % 3 + 1) if i % 2 else "a%d[ix%d]" % (i, i)
            d = ["a%d: array[1..3] of %s" % (i, ft)]
            if i % 2 == 0:
                d.append("ix%d: integer" % i)
                return d, ["ix%d := %d" % (i, i % 3 + 1)]
            return d, []
        if where == "heap":
            self.ftypes["pf" + t] = "^" + ft
            self.acc[i] = "p%d^" % i
            return ["p%d: pf%s" % (i, t)], ["new(p%d)" % i]
        if where == "hrec":
            self.ftypes["hr%d" % i] = "record pad: char; f: %s; q: char end" % ft
            self.ftypes["ph%d" % i] = "^hr%d" % i
            self.acc[i] = "p%d^.f" % i
            return ["p%d: ph%d" % (i, i)], ["new(p%d)" % i]
        self.acc[i] = n
        return ["%s: %s" % (n, ft)], []

    def f(self, i):
        return "output" if i == -1 else "input" if i == -2 else self.acc[i]

    def ftyp(self, i):
        return "text" if i < 0 else self.tof[i]

    def big(self, x, v):
        """Give x a value that does not fit an integer"""
        a = abs(v)
        h, m, l = a // 10**18, a // 10**9 % 10**9, a % 10**9
        sg = "-" if v < 0 else "+"
        return ["%s := %s%d; %s := %s * 1000000000 %s %d; %s := %s * 1000000000 %s %d" % (x, sg.strip("+"), h, x, x, sg, m, x, x, sg, l)]

    def items(self, items):
        pre, out = [], []
        for n, (t, v, w, p) in enumerate(items):
            if t in "il":
                if -2**31 < v < 2**31:
                    e = "%d" % v if v >= 0 else "(%d)" % v
                elif t == "i":
                    e = self.var("wi%d" % n, "integer")
                    pre.append("%s := -2147483647; %s := %s - 1" % (e, e, e))
                else:
                    e = self.var("wl%d" % n, "longint")
                    pre += self.big(e, v)
            elif t == "F":
                self.used.add("num")
                e = "num(%d)" % v
            elif t == "r":
                e = ("%.9f" % v) if v >= 0 else "(%.9f)" % v
            elif t == "c":
                e = "chr(%d)" % v
            elif t == "b":
                e = self.var("wb%d" % n, "boolean")
                pre.append("%s := %s" % (e, "true" if v else "false"))
            elif t == "e":
                e = self.var("we%d" % n, "en")
                pre.append("%s := %s" % (e, ENUM[v]))
            elif t == "s":
                e = quoted(v)
            elif t == "A":
                e = self.var("wa%d" % n, "packed array[1..%d] of char" % len(v))
                e = self.var("wa%d_%d" % (n, len(v)), "packed array[1..%d] of char" % len(v))
                self.vars.pop("wa%d" % n)
                pre.append("%s := %s" % (e, quoted(v)))
            elif t == "S":
                self.used.add("mkstring")
                e = self.var("ws%d" % n, "string")
                pre.append("mkstring(%s, %d, %d)" % (e, v[0], v[1]))
            elif t == "V":
                e = self.zq
            elif t == "L":
                e = "length(%s)" % self.zq
                w = w or 1
            elif t == "K":
                e = "%s[%d]" % (self.zq, v)
            elif t == "D":
                e = "%s + %s" % (self.zq, self.zq)
            if w is not None:
                e += ":%d" % w
                if p is not None:
                    e += ":%d" % p
            out.append(e)
        return pre, out

    def targets(self, targets):
        pre, args, post = [], [], []
        for n, t in enumerate(targets):
            k = t[0]
            if k == "i":
                v = self.var("ri%d" % n, "integer")
                post.append("writeln('i ', %s:1)" % v)
            elif k == "l":
                v = self.var("rl%d" % n, "longint")
                post.append("writeln('l ', %s:1)" % v)
            elif k == "r":
                v = self.var("rr%d" % n, "real")
                post.append("writeln('r ', %s:1:%d)" % (v, t[1]))
            elif k == "c":
                v = self.var("rc%d" % n, "char")
                post.append("writeln('c ', nl(%s):1)" % v)
                self.used.add("nl")
            elif k == "b":
                v = self.var("rb%d" % n, "boolean")
                post.append("writeln('b ', ord(%s):1)" % v)
            elif k == "S":
                v = self.var("rs%d" % n, "string")
                post.append("writeln('S ', length(%s):1, ' ', %s)" % (v, v))
            elif k == "T":
                v = self.var("rt%d" % n, "str20")
                post.append("writeln('T ', length(%s):1, ' ', %s)" % (v, v))
            else:
                v = self.var("ra%d" % n, "carr")
                pre.append("%s := '.......'" % v)
                # an array of characters is written up to its first chr(0)
                post.append("showca(%s)" % v)
                self.used.add("showca")
            args.append(v)
        return pre, args, post

    def body(self, ops):
        o = []
        for op in ops:
            o += self.stmt(op)
            if self.marks:
                o.append("zz := clock")
        return o

    def proc(self, head, decls, stmts):
        self.procs.append("procedure %s;\n%sbegin\n  %s\nend;\n" % (head, "".join("var %s;\n" % d for d in decls),
                                                                   ";\n  ".join(stmts)))

    def stmt(self, op):
        return getattr(self, "e_" + op[0])(*op[1:])

    # ---- simple ones
    def e_assign(self, f, name, how=0):
        if how == 1:
            s = self.var("nm", "string")
            return ["%s := %s" % (s, quoted(name)), "assign(%s, %s)" % (self.f(f), s)]
        return ["assign(%s, %s)" % (self.f(f), quoted(name))]


    def e_w(self, f, items, nl=1):
        pre, a = self.items(items)
        if f == -1 and (len(items) + nl) % 2:
            args = ", ".join(a)
        else:
            args = ", ".join([self.f(f)] + a)
        if not items and not nl:
            return []
        return pre + ["write%s%s" % ("ln" if nl else "", "(%s)" % args if args else "")]

    def e_wl(self, f, n, ln, step, k):
        self.used.add("mkstring")
        i, s = self.var("li", "integer"), self.var("ls", "string")
        return ["for %s := 1 to %d do begin mkstring(%s, (%d + %s * %d) mod 256, %d + %s); writeln(%s, %s) end" % (
            i, n, s, ln, i, step, k, i, self.f(f), s)]

    def e_wc(self, f, n, k):
        i = self.var("li", "integer")
        return ["for %s := 1 to %d do write(%s, chr(33 + (%d + %s * 7) mod 90))" % (i, n, self.f(f), k, i)]

    def e_wi(self, f, n, per, k):
        i = self.var("li", "integer")
        return ["for %s := 1 to %d do begin write(%s, (%d + %s * 7):1); if %s mod %d = 0 then writeln(%s) else write(%s, ' ') "
                "end" % (i, n, self.f(f), k, i, i, per, self.f(f), self.f(f))]

    def tv(self, t):
        self.need(t)
        return self.var("v" + t, TYPES[t].decl)

    def e_wt(self, f, k):
        t = self.ftyp(f)
        v = self.tv(t)
        return ["set%s(%s, %d)" % (t, v, k), "write(%s, %s)" % (self.f(f), v)]

    def e_wp(self, f, k):
        t = self.ftyp(f)
        if k % 2:
            v = self.tv(t)
            return ["set%s(%s, %d)" % (t, v, k), "%s^ := %s" % (self.f(f), v), "put(%s)" % self.f(f)]
        self.need(t)
        return ["set%s(%s^, %d)" % (t, self.f(f), k), "put(%s)" % self.f(f)]

    def e_wn(self, f, n, k):
        t = self.ftyp(f)
        i, v = self.var("li", "integer"), self.tv(t)
        return ["for %s := 1 to %d do begin set%s(%s, %d + %s); write(%s, %s) end" % (i, n, t, v, k, i, self.f(f), v)]

    def e_r(self, f, targets, nl=0):
        pre, a, post = self.targets(targets)
        if f == -2 and (len(targets) + nl) % 2:
            args = ", ".join(a)
        else:
            args = ", ".join([self.f(f)] + a)
        if not targets and not nl:
            return []
        return pre + ["read%s%s" % ("ln" if nl else "", "(%s)" % args if args else "")] + post

    def e_rt(self, f):
        t = self.ftyp(f)
        v = self.tv(t)
        return ["read(%s, %s)" % (self.f(f), v), "write('t ')", "show%s(%s)" % (t, v)]

    def e_pk(self, f):
        t = self.ftyp(f)
        if t == "text":
            self.used.add("nl")
            return ["writeln('p ', nl(%s^):1)" % self.f(f)]
        v = self.tv(t)
        return ["%s := %s^" % (v, self.f(f)), "write('t ')", "show%s(%s)" % (t, v)]

    def e_eof(self, f):
        if f == -2:
            return ["writeln('eof ', ord(eof):1)"]
        return ["writeln('eof ', ord(eof(%s)):1)" % self.f(f)]

    def e_eoln(self, f):
        if f == -2:
            return ["writeln('eoln ', ord(eoln):1)"]
        return ["writeln('eoln ', ord(eoln(%s)):1)" % self.f(f)]

    def e_ra(self, f, how):
        t, x = self.ftyp(f), self.f(f)
        n = self.var("rn", "integer")
        if t != "text":
            v = self.tv(t)
            get = "read(%s, %s)" % (x, v) if how % 2 == 0 else "%s := %s^; get(%s)" % (v, x, x)
            return ["%s := 0" % n, "while not eof(%s) do begin %s; write('t '); show%s(%s); %s := %s + 1 end" % (
                x, get, t, v, n, n), "writeln('all ', %s:1)" % n]
        if how == 2:
            s = self.var("ls", "string")
            return ["%s := 0" % n, "while not eof(%s) do begin readln(%s, %s); writeln(length(%s):1, ':', %s); %s := %s + 1 "
                    "end" % (x, x, s, s, s, n, n), "writeln('all ', %s:1)" % n]
        c, ls, cs = self.var("ch", "char"), self.var("rln", "integer"), self.var("rcs", "longint")
        self.used.add("nl")
        get = "read(%s, %s)" % (x, c) if how == 0 else "%s := %s^; get(%s)" % (c, x, x)
        return ["%s := 0; %s := 0; %s := 0" % (n, ls, cs),
                "while not eof(%s) do begin if eoln(%s) then %s := %s + 1; %s; %s := (%s * 31 + nl(%s)) mod 100003; "
                "%s := %s + 1 end" % (x, x, ls, ls, get, cs, cs, c, n, n),
                "writeln('all ', %s:1, ' ', %s:1, ' ', %s:1)" % (n, ls, cs)]

    def e_cp(self, f, g, how):
        x, y = self.f(f), self.f(g)
        if how == 2:
            s = self.var("ls", "string")
            return ["while not eof(%s) do begin readln(%s, %s); writeln(%s, %s) end" % (x, x, s, y, s)]
        c = self.var("ch", "char")
        if how == 0:
            inner = "read(%s, %s); write(%s, %s)" % (x, c, y, c)
        else:
            inner = "%s^ := %s^; put(%s); get(%s)" % (y, x, y, x) if g != -1 else "write(%s, %s^); get(%s)" % (y, x, x)
        return ["while not eof(%s) do begin while not eoln(%s) do begin %s end; readln(%s); writeln(%s) end" % (
            x, x, inner, x, y)]

    def e_cpt(self, f, g, how):
        x, y, t = self.f(f), self.f(g), self.ftyp(f)
        v = self.tv(t)
        if how == 0:
            return ["while not eof(%s) do begin read(%s, %s); write(%s, %s) end" % (x, x, v, y, v)]
        return ["while not eof(%s) do begin %s^ := %s^; put(%s); get(%s) end" % (x, y, x, y, x)]

    def e_sk(self, f, n, how):
        x = self.f(f)
        i, c = self.var("li", "integer"), self.var("ch", "char")
        st = {0: "read(%s, %s)" % (x, c), 1: "get(%s)" % x, 2: "if odd(%s) then read(%s, %s) else get(%s)" % (i, x, c, x),
              3: "if not eof(%s) then begin %s := %s^; get(%s) end" % (x, c, x, x),
              4: "if eoln(%s) then readln(%s) else read(%s, %s)" % (x, x, x, c)}[how]
        return ["for %s := 1 to %d do %s" % (i, n, st)]

    def e_mis(self, op):
        k, f = op[0], op[1]
        q = {"eof": "eof", "eoln": "eoln", "pos": "position", "lpos": "lastposition", "emp": "empty"}.get(k)
        if q:
            v = self.var("qq" + k, "longint" if k in ("pos", "lpos") else "boolean")
            return ["%s := %s(%s)" % (v, q, self.f(f)), "writeln('Q ', %s)" % v]
        if k == "pk" and self.ftyp(f) == "text":
            v = self.var("qqc", "char")
            return ["%s := %s^" % (v, self.f(f)), "writeln('Q ', %s)" % v]
        return self.stmt(op)

    XT = {"i": "integer", "l": "longint", "r": "real", "c": "char", "b": "boolean", "S": "string", "T": "str20",
          "U": "string[5]", "V": "string[1]", "A": "carr", "B": "packed array[1..2] of char",
          "C": "packed array[1..90] of char", "D": "packed array[1..300] of char", "s": "sub"}

    def xtargets(self, targets, where):
        """Targets between guards, that say what became of them"""
        pre, args, post, locs = [], [], [], []
        for n, t in enumerate(targets):
            k = t[0]
            u = k if k.islower() else "u" + k.lower()
            self.ftypes["xg" + u] = "record g: integer; a: char; v: %s; b: char; h: integer end" % self.XT[k]
            self.ftypes["xp" + u] = "^xg" + u
            nm = "x%s%d%s" % (u, n, "gfhl"[where])
            if where == 2:
                v = self.var(nm, "xp" + u) + "^"
                pre.append("new(%s)" % v[:-1])
            elif where == 1:
                v = self.var(nm, "array[1..3] of xg" + u) + "[2]"
                pre.append("%s[1].g := 77; %s[1].h := 78; %s[3].g := 79; %s[3].a := 'p'" % (nm, nm, nm, nm))
                post.append("if (%s[1].g <> 77) or (%s[1].h <> 78) or (%s[3].g <> 79) or (%s[3].a <> 'p') then writeln('GUARD "
                            "array')" % (nm, nm, nm, nm))
            elif where == 3:
                locs.append("%s: xg%s" % (nm, u))
                v = nm
            else:
                v = self.var(nm, "xg" + u)
            pre.append("%s.g := 12345; %s.a := 'q'; %s.b := 'z'; %s.h := 54321" % (v, v, v, v))
            if k in "ilrsb":
                pre.append("%s.v := %s" % (v, {"r": "1.5", "b": "true"}.get(k, "1")))
            elif k in "STUV":
                pre.append("%s.v := 'u'" % v)
            elif k == "c":
                pre.append("%s.v := 'c'" % v)
            else:
                i = "xi" if where == 3 else self.var("xi", "integer")
                m = {"A": 7, "B": 2, "C": 90, "D": 300}[k]
                if where == 3 and "xi: integer" not in locs:
                    locs.append("xi: integer")
                pre.append("for %s := 1 to %d do %s.v[%s] := '.'" % (i, m, v, i))
            post.append("if (%s.g <> 12345) or (%s.a <> 'q') or (%s.b <> 'z') or (%s.h <> 54321) then writeln('GUARD %s')" % (
                v, v, v, v, k))
            x = v + ".v"
            if k in "ils":
                post.append("writeln('%s ', %s:1)" % (k, x))
            elif k == "r":
                post.append("if abs(%s) < 1.0e15 then writeln('r ', %s:1:4) else writeln('r big')" % (x, x))
            elif k == "c":
                post.append("writeln('c ', ord(%s):1)" % x)
            elif k == "b":
                post.append("writeln('b ', ord(%s):1)" % x)
            elif k in "STUV":
                m = {"S": 255, "T": 20, "U": 5, "V": 1}[k]
                post.append("if length(%s) > %d then writeln('GUARD length')" % (x, m))
                post.append("writeln('%s ', length(%s):1, ' [', %s, ']')" % (k, x, x))
            else:
                post.append("write('%s ['); for %s := 1 to %d do write(%s[%s]); writeln(']')" % (k, i, m, x, i))
            if where == 2:
                post.append("dispose(%s)" % v[:-1])
            args.append(x)
        return pre, args, post, locs

    def wild(self, x, targets, where, first, cond):
        pre, a, post, locs = self.xtargets(targets, where)
        st = pre + ["%s(%s)" % (first, ", ".join([x] + a))] + post
        if where == 3:
            self.nproc += 1
            n = "wild%d" % self.nproc
            self.proc(n, locs, st)
            st = [n]
        if cond:
            return ["if not eof(%s) then begin %s end" % (x, "; ".join(st))]
        return st

    def e_xr(self, f, targets, nl, where, cond=1):
        return self.wild(self.f(f), targets, where, "readln" if nl else "read", cond)

    def e_xs(self, text, targets, where):
        s = self.var("xs0", "string")
        return ["%s := ''" % s] + ["%s := %s + chr(%d)" % (s, s, ord(c)) for c in text] + self.wild(s, targets, where, "readstr", 0)

    def e_xl(self, f, how, n):
        """Up to n steps over whatever there is"""
        x = self.f(f)
        i, c = self.var("li", "integer"), self.var("ch", "char")
        st = {0: "read(%s, %s); write(ord(%s):1, ' ')" % (x, c, c),
              1: "if eoln(%s) then begin writeln('eol'); readln(%s) end else begin read(%s, %s); write(ord(%s):1, ' ') end" % (
                  x, x, x, c, c),
              2: "%s := %s^; write(ord(%s):1, ' '); get(%s)" % (c, x, c, x)}[how]
        return ["%s := 0" % i, "while not eof(%s) and (%s < %d) do begin %s; %s := %s + 1 end" % (x, i, n, st, i, i), "writeln"]

    def seekto(self, what, f, n):
        if 0 <= n < 2**31 and n % 3:
            return ["%s(%s, %d)" % (what, self.f(f), n)]
        x = self.var("sk", "longint")
        return self.big(x, n) + ["%s(%s, %s)" % (what, self.f(f), x)]

    def e_sr(self, f, n):
        return self.seekto("seekread", f, n)

    def e_sw(self, f, n):
        return self.seekto("seekwrite", f, n)

    def e_su(self, f, n):
        return self.seekto("seekupdate", f, n)

    def e_pos(self, f):
        return ["writeln('pos ', position(%s):1)" % self.f(f)]

    def e_lpos(self, f):
        return ["writeln('lpos ', lastposition(%s):1)" % self.f(f)]

    def e_emp(self, f):
        return ["writeln('emp ', ord(empty(%s)):1)" % self.f(f)]

    def e_bind(self, f, name):
        b = self.var("bt", "bindingtype")
        t = self.ftyp(f)
        self.nbd = getattr(self, "nbd", 0) + 1
        if self.nbd == 1:
            return ["%s.Name := %s" % (b, quoted(name)), "bind(%s, %s)" % (self.f(f), b)]
        if ("bd", t) not in self.used:
            self.used.add(("bd", t))
            self.proc("dobind%s(var g: %s)" % (t, self.ftype(t)), [], ["bind(g, %s)" % b])
        return ["%s.Name := %s" % (b, quoted(name)), "dobind%s(%s)" % (t, self.f(f))]

    def e_bq(self, f):
        # the code for this takes long to compile
        self.nbq = getattr(self, "nbq", 0) + 1
        t = self.ftyp(f)
        x, b = ("g", "b") if self.nbq > 1 else (self.f(f), self.var("bq", "bindingtype"))
        st = ["%s := binding(%s)" % (b, x),
              "if %s.Bound then writeln('bound [', %s.Name, ']') else writeln('not bound')" % (b, b)]
        if self.nbq == 1:
            return st
        if ("bq", t) not in self.used:
            self.used.add(("bq", t))
            self.proc("askb%s(var g: %s)" % (t, self.ftype(t)), ["b: bindingtype"], st)
        return ["askb%s(%s)" % (t, self.f(f))]

    def e_ws(self, cap, items):
        pre, a = self.items(items)
        s = self.var("os%d" % cap, "string" if cap == 255 else "string[%d]" % cap)
        return pre + ["writestr(%s, %s)" % (s, ", ".join(a)), "writeln('s ', length(%s):1, ' [', %s, ']')" % (s, s)]

    def e_wz(self, cap, first, its, form):
        self.ftypes["zs%d" % cap] = "string" if cap == 255 else "string[%d]" % cap
        t = "zt%d" % cap
        self.ftypes[t] = "record a, b: integer; s: array[1..3] of zs%d; c, d: longint end" % cap
        n = self.zn = getattr(self, "zn", 0) + 1
        z, k = (self.var("z%d" % cap, t), 2) if form != 3 else ("z", 3)
        if form == 2:
            self.ftypes["pz%d" % cap] = "^" + t
            z = self.var("pz%d_" % cap, "pz%d" % cap) + "^"
        q = "%s.s[%d]" % (z, k)
        self.zq = {1: "q", 4: "s[%d]" % k}.get(form, q)
        pre, a = self.items(its)
        st = ["writestr(%s, %s)" % (self.zq, ", ".join(a))]
        if form == 1:
            self.proc("zpar%d(var q: zs%d)" % (n, cap), [], st)
            st = ["zpar%d(%s)" % (n, q)]
        elif form == 4:
            st = ["with %s do %s" % (z, st[0])]
        nb = [i for i in (1, 2, 3) if i != k]
        o = ["%s.a := 11; %s.b := 22; %s.c := 33; %s.d := 44" % (z, z, z, z)]
        o += ["%s.s[%d] := 'n%d'" % (z, i, i % 10) for i in nb] if cap > 1 else ["%s.s[%d] := 'n'" % (z, i) for i in nb]
        o += ["%s := %s" % (q, quoted(first))] + st
        want = ["'n%d'" % i for i in nb] if cap > 1 else ["'n'"] * 2
        o += ["if %s then writeln('what lies beside it is changed')" % " or ".join("(%s.s[%d] <> %s)" % (z, i, w) for i, w in zip(nb, want)),
              "writeln('z ', length(%s):1, ' [', %s, '] ', %s.a:1, ' ', %s.b:1, ' ', %s.c:1, ' ', %s.d:1)" % (q, q, z, z, z, z)]
        if form == 2:
            o = ["new(%s)" % z[:-1]] + o + ["dispose(%s)" % z[:-1]]
        if form == 3:
            self.proc("zproc%d" % n, ["z: " + t], pre + o)
            return ["zproc%d" % n]
        return pre + o

    def e_rs(self, text, targets):
        pre, a, post = self.targets(targets)
        s = self.var("is0", "string")
        return pre + ["%s := %s" % (s, quoted(text)), "readstr(%s, %s)" % (s, ", ".join(a))] + post

    def e_rw(self, cap, items, targets):
        p1, a = self.items(items)
        p2, b, post = self.targets(targets)
        s = self.var("os%d" % cap, "string" if cap == 255 else "string[%d]" % cap)
        return p1 + p2 + ["writestr(%s, %s)" % (s, ", ".join(a)), "readstr(%s, %s)" % (s, ", ".join(b))] + post

    # ---- structure
    def e_cyc(self, n, body):
        self.depth += 1
        i = self.var("ci%d" % self.depth, "integer")
        b = self.body(body)
        self.depth -= 1
        return ["for %s := 1 to %d do begin\n    %s\n  end" % (i, n, ";\n    ".join(b))]

    def e_blk(self, files, body):
        self.nproc += 1
        name = "blk%d" % self.nproc
        decls, init = [], []
        for i, t, w in files:
            self.tof[i] = t
            d, s = self.declare(i, t, w)
            decls += d
            init += s
        b = self.body(body)
        end = ["dispose(%s)" % s[4:-1] for s in init if s.startswith("new(")]
        self.proc(name, decls, init + b + end)
        return [name]

    def e_rec(self, depth, t, n, k):
        self.nproc += 1
        name = "rec%d" % self.nproc
        ft = self.ftype(t)
        st = ["rewrite(f)"]
        if t == "text":
            st += ["for i := 1 to %d do writeln(f, (%d + d * 100 + i):1)" % (n, k)]
        else:
            v = self.tv(t)
            st += ["for i := 1 to %d do begin set%s(%s, %d + d * 100 + i); write(f, %s) end" % (n, t, v, k, v)]
        st += ["if d > 1 then %s(d - 1)" % name, "reset(f)"]
        if t == "text":
            st += ["write('rec ', d:1)",
                   "while not eof(f) do begin readln(f, i); write(' ', i:1) end", "writeln", "close(f)"]
        else:
            st += ["while not eof(f) do begin read(f, %s); write('t '); show%s(%s) end" % (v, t, v)]
        self.proc("%s(d: integer)" % name, ["f: " + ft, "i: integer"], st)
        return ["%s(%d)" % (name, depth)]

    def e_rn(self, vals, at, depth, same):
        """f(k) = k, by way of reading it from a string"""
        st = self.var("ist", "string")
        arr = self.var("iarr", "array[1..5] of integer")
        i = self.var("li", "integer")
        if "pick0" not in self.used:
            self.used.add("pick0")
            for d in range(4):
                inner = "b" if d == 0 else "c[pick%d(2)]" % (d - 1)
                self.procs.append(
                    "function pick%d(k: integer): integer;\nvar t: string; a, b: integer; c: array[1..3] of integer;\nbegin\n"
                    "  writestr(t, k + 7:1, ' ', %s:4);\n  readstr(t, a, %s);\n  %s\nend;\n" % (
                        d, "k * 2" if d == 0 else "pick%d(k) * 2" % (d - 1), inner,
                        "pick%d := b - a + 7" % d if d == 0 else "pick%d := c[2] - a + 7" % d))
            self.procs.append("function again(k: integer): integer;\nvar a, b: integer;\nbegin\n  readstr(ist, a);\n"
                              "  readstr(ist, b);\n  if a = b then again := k else again := 5\nend;\n")
        f = "again" if same else "pick%d" % depth
        return ["for %s := 1 to 5 do %s[%s] := 0" % (i, arr, i),
                "%s := %s" % (st, quoted(" ".join("%d" % v for v in vals))),
                "readstr(%s, %s)" % (st, ", ".join("%s[%s(%d)]" % (arr, f, k) for k in at)),
                "write('rn')", "for %s := 1 to 5 do write(' ', %s[%s]:1)" % (i, arr, i), "writeln"]

    def e_mny(self, n, t, k):
        self.nproc += 1
        ft = self.ftype(t)
        leaf, top = "leaf%d" % self.nproc, "mny%d" % self.nproc
        if t == "text":
            put = "writeln(f, %s:1)"
            st = ["rewrite(f)", "writeln(f, x:1)", "reset(f)", "readln(f, y)", "if x <> y then writeln('differs ', x:1, ' ', y:1)"]
            get = ["while not eof(f) do begin readln(f, i); writeln('m ', i:1) end"]
            fill = ["for i := 1 to 3 do writeln(f, (%d + i):1)" % k]
        else:
            v = self.tv(t)
            st = ["rewrite(f)", "set%s(%s, x)" % (t, v), "write(f, %s)" % v, "reset(f)", "read(f, %s)" % v,
                  "if not eof(f) then writeln('more')"]
            fill = ["for i := 1 to 3 do begin set%s(%s, %d + i); write(f, %s) end" % (t, v, k, v)]
            get = ["while not eof(f) do begin read(f, %s); write('t '); show%s(%s) end" % (v, t, v)]
        self.proc("%s(x: integer)" % leaf, ["f: " + ft, "y: integer"], st)
        self.proc(top, ["f: " + ft, "i: integer"], ["rewrite(f)"] + fill + ["for i := 1 to %d do %s(i)" % (n, leaf), "reset(f)"] + get)
        return [top]

    def e_via(self, op):
        f = op[1]
        if f < 0:
            return self.stmt(op)
        self.nproc += 1
        name = "via%d" % self.nproc
        old = self.acc[f]
        self.acc[f] = "g"
        st = self.stmt(op)
        self.acc[f] = old
        self.proc("%s(var g: %s)" % (name, self.ftype(self.tof[f])), [], st)
        return ["%s(%s)" % (name, old)]

    # ---- heap
    def e_new(self, p, t, k):
        self.need(t)
        self.ftypes["p" + t] = "^" + TYPES[t].decl
        v = self.var("h%d%s" % (p, t), "p" + t)
        self.pt[p] = t
        return ["new(%s)" % v, "set%s(%s^, %d)" % (t, v, k)]

    def e_setp(self, p, k):
        t = self.pt[p]
        return ["set%s(h%d%s^, %d)" % (t, p, t, k)]

    def e_chk(self, p):
        t = self.pt[p]
        return ["write('h ')", "show%s(h%d%s^)" % (t, p, t)]

    def e_dis(self, p):
        return ["dispose(h%d%s)" % (p, self.pt[p])]

    def e_list(self, n, t, k, every):
        self.need(t)
        self.nproc += 1
        x = self.nproc
        self.ftypes["pl%s" % t] = "^rl%s" % t
        self.ftypes["rl%s" % t] = "record v: %s; i: integer; next: pl%s end" % (TYPES[t].decl, t)
        self.proc("list%d" % x, ["h, p, q: pl%s" % t, "i: integer"], [
            "h := nil",
            "for i := 1 to %d do begin new(p); set%s(p^.v, %d + i); p^.i := i; p^.next := h; h := p end" % (n, t, k),
            "p := h; q := nil",
            "while p <> nil do if p^.i mod %d = 0 then begin if q = nil then h := p^.next else q^.next := p^.next; "
            "dispose(p); if q = nil then p := h else p := q^.next end else begin q := p; p := p^.next end" % every,
            "p := h",
            "while p <> nil do begin write('h '); show%s(p^.v); q := p^.next; dispose(p); p := q end" % t])
        return ["list%d" % x]

    # ---- endings
    def e_end(self, kind, arg=0, depth=0, how=0, msg="stopped here"):
        if kind == "normal":
            return []
        s = None
        if kind == "halt":
            s = "halt(%d)" % arg if arg else "halt"
            if how == 1:
                v = self.var("hl", "longint")
                s = "%s := %d; halt(%s)" % (v, arg, v)
            elif how == 2:
                v = self.var("hs", "-40000..70000")
                s = "%s := %d; halt(%s)" % (v, arg, v)
            elif how == 3 and arg < 2:
                v = self.var("hb", "boolean")
                s = "%s := %s; halt(%s)" % (v, "true" if arg else "false", v)
            elif how == 4 and arg < 5:
                v = self.var("he", "en")
                s = "%s := %s; halt(%s)" % (v, ENUM[arg], v)
            elif how == 5:
                v = self.var("hi", "integer")
                s = "%s := %d; halt(%s * 2 + 1)" % (v, (arg - 1) // 2, v) if arg % 2 else "%s := %d; halt(%s + 1)" % (v, arg - 1, v)
        elif kind == "panic":
            s = "panic(%s)" % quoted(msg)
            if how in (1, 2, 3) and len(msg) <= 60:
                v = self.var("ps", "string[60]" if how < 3 else "string")
                s = "%s := %s; panic(%s)" % (v, quoted(msg), v)
                if how == 2 and len(msg) > 1:
                    s = "%s := %s; panic(%s + %s)" % (v, quoted(msg[:-1]), v, quoted(msg[-1]))
            elif how == 4 and len(msg) == 1:
                v = self.var("pc", "char")
                s = "%s := %s; panic(%s)" % (v, quoted(msg), v)
            elif how == 5 and len(msg) == 12:
                v = self.var("pa", "packed array[1..12] of char")
                s = "%s := %s; panic(%s)" % (v, quoted(msg), v)
        if kind == "range":
            v = self.var("rg", "array[1..3] of integer")
            i = self.var("rgi", "integer")
            s = "%s := %d; %s[%s] := 1" % (i, arg, v, i)
        if kind == "open":
            v = self.var("ef", "text")
            s = "assign(%s, 'no/such/file'); reset(%s)" % (v, v)
        if depth:
            self.nproc += 1
            n = "stop%d" % self.nproc
            self.proc("%s(d: integer)" % n, [], ["if d > 0 then %s(d - 1) else begin %s end" % (n, s)])
            return ["%s(%d)" % (n, depth)]
        return [s]

    def e_after(self):
        return ["writeln('AFTER')"]

    # ---- the whole
    def text(self):
        p = self.prog
        self.tof = {i: f[0] for i, f in enumerate(p["files"])}
        self.pt = {}
        decls, init = [], []
        for i, (t, w) in enumerate(p["files"]):
            d, s = self.declare(i, t, w)
            decls += d
            init += s
        main = self.body(p["ops"])
        o = ["type",
             "  en = (%s);" % ", ".join(ENUM), "  sub = 1..200;", "  bset = set of 0..31;",
             "  rec = record a: integer; b: char; c: real; d: longint; e: boolean end;",
             "  odd3 = record x, y, z: char end;", "  arr = array[1..5] of integer;", "  str20 = string[20];",
             "  carr = packed array[1..7] of char;", "  nest = array[1..3] of rec;",
             "  tagd = record a: integer; case k: integer of 0: (x: longint; c: char); 1: (s: string[12]); 2: (e: char; r: real) end;",
             "  mat = array['a'..'c', 1..4] of longint;", "  cset = set of char;", "  inner = record c: char; l: longint end;",
             "  ns = record n: char; i: inner; z: char end;", "  barr = packed array[1..3] of boolean;",
             "  wset = set of 0..100;", "  earr = array[en] of real;",
             "  big = array[1..300] of integer;", "  huge = array[1..1500] of integer;"]
        o += ["  %s = %s;" % kv for kv in sorted(self.ftypes.items(), key=lambda kv: (rank(kv[0]), kv[0]))]
        o.append("var")
        o += ["  %s;" % d for d in decls]
        o += ["  %s: %s;" % kv for kv in sorted(self.vars.items())]
        o.append("  zz: longint;")
        head, help_ = o, []
        o = help_
        if "mkstring" in self.used:
            o.append("procedure mkstring(var s: string; n, k: integer);\nvar i: integer;\nbegin\n  s := '';\n"
                     "  for i := 1 to n do s := s + chr(33 + (k + i * 13) mod 223)\nend;")
        if "nl" in self.used:
            o.append("function nl(c: char): integer;\nbegin\n  if ord(c) = 10 then nl := 32 else nl := ord(c)\nend;")
        if "showca" in self.used:
            o.append("procedure showca(var v: carr);\nvar i: integer;\nbegin\n  write('A ');\n  for i := 1 to 7 do write(v[i]);\n"
                     "  writeln\nend;")
        if "num" in self.used:
            o.append("function num(n: integer): integer;\nvar t: string; k, l: integer;\nbegin\n"
                     "  writestr(t, n:5, ' ', n * 2);\n  readstr(t, k, l);\n  num := l - k + 1\nend;")
        for t in sorted(self.types):
            c = TYPES[t]
            o.append("procedure set%s(var v: %s; k: integer);\nvar i: integer; c: char; e: en;\nbegin\n  %s\nend;" % (t, c.decl, c.setc))
            o.append("procedure show%s(var v: %s);\nvar i, j: integer; c: char; e: en;\nbegin\n  %s\nend;" % (t, c.decl, c.show))
        if p.get("unit"):
            # the files, what they are made of and the small helpers are a unit's
            sig = [l.split("\n")[0] for l in help_]
            u = ["unit gu;", "interface"] + head + sig + ["implementation"] + help_ + ["begin", "  " + ";\n  ".join(["writeln('unit')"] + init), "end."]
            o = ["program g(input, output);", "uses gu;"] + self.procs + ["begin", "  " + ";\n  ".join(main), "end."]
            return "\n".join(o) + "\n" + UNITMARK + "\n".join(u) + "\n"
        o = ["program g(input, output);"] + head + help_ + self.procs + ["begin", "  " + ";\n  ".join(init + main), "end."]
        return "\n".join(o) + "\n"


for _n in ("reset", "rewrite", "append", "close", "page", "g", "unb"):
    setattr(Emit, "e_" + _n, (lambda p: lambda self, f: ["%s(%s)" % (p, self.f(f))])({"g": "get", "unb": "unbind"}.get(_n, _n)))


UNITMARK = "{======== gu.pas}\n"


def rank(n):
    return 0 if n.startswith("f") else 1 if n.startswith("p") else 2


def emit(prog):
    return Emit(prog).text()


def dumper(t):
    """A program that prints all components of the typed files named as its arguments"""
    e = Emit({"files": [], "ops": []})
    e.prog["files"] = [[t, "global"]]
    s = e.text()
    c = TYPES[t]
    e = Emit({"files": [[t, "global"]], "ops": []})
    v = e.tv(t)
    e.var("i", "integer")
    e.prog["ops"] = []
    s = e.text()
    body = ("  for i := 1 to paramcount do begin\n    assign(f0, paramstr(i)); reset(f0);\n"
            "    while not eof(f0) do begin read(f0, %s); show%s(%s) end;\n    close(f0); writeln('---')\n  end\nend.\n" % (
                v, t, v))
    return s[:s.rindex("begin")] + "begin\n" + body
