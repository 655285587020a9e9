"""Random programs in the intermediate form of pas.py.  A profile says what a program is made of; the model runs along,
so that every program that is generated has a defined result."""
import pickle, random

from . import pas
from .pas import Ended, Stop, Undefined, World

SMALL = ["int", "char", "i64", "real", "bool", "enum", "sub", "set", "rec", "odd3", "arr", "str", "carr", "nest",
         "tagd", "mat", "cset", "ns", "barr", "wset", "earr"]
ALLT = SMALL + ["big", "huge"]
WHERE = ["global", "global", "field", "elem", "heap", "hrec"]
NAMES = ["a.txt", "b", "data.dat", "c.c.c", "with space", "UPPER", "x1", "y2", "z3"]
ODD = ["x1 ", " x1", "b  ", "it's", "-n", "..d", "%s%n", "UPPER.", "upper", "n" * 200, "m" * 240, "\xe9t\xe9", "a;b", "$x", "a\\b", "?", "*x"]


def word(rng, n=None):
    n = n or rng.choice([1, 2, 3, 5, 8, 13])
    return "".join(rng.choice("abcdefghijklmnopqrstuvwxyzABCXYZ_.,;!?'\"#$%&()*+/<=>@[]^`{|}~") for _ in range(n))


def integer(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([0, 1, -1, 9, 10, 2147483647, -2147483647, -2147483648, 99999, -10])
    if k == 1:
        return rng.randrange(-2**31 + 1, 2**31)
    return rng.randrange(-999, 10000)


def longint(rng):
    if rng.random() < .3:
        return integer(rng)
    if rng.random() < .12:
        return rng.choice([2**63 - 1, -2**63, -2**63, -2**63, -2**63 + 1, 2**63 - 2, 2**32, -2**32, 2**31, -2**31 - 1, 2**53 + 1, 10**18,
                           rng.randrange(2**62, 2**63), -rng.randrange(2**62, 2**63)])
    return rng.choice([1, -1]) * rng.randrange(10**rng.randrange(1, 18))


def real(rng):
    k = rng.randrange(4)
    if k == 0:
        return rng.randrange(-4000, 4000) / 8
    if k == 1:
        return rng.randrange(-10**6, 10**6) / 64
    if k == 2:
        return float(rng.randrange(-100, 100))
    return rng.randrange(-10**9, 10**9) / 512


def width(rng):
    k = rng.randrange(8)
    if k == 7 and rng.random() < .15:
        return rng.choice([127, 128, 250, 255, 256, 257, 300, 511, 512, 1000])
    return None if k < 4 else rng.randrange(0, 14) if k < 7 else rng.randrange(14, 90)


def text_item(rng, kinds="ilrcbesASF"):
    t = rng.choice(kinds)
    w, p = width(rng), None
    if t == "i":
        v = integer(rng)
    elif t == "l":
        v = longint(rng)
    elif t == "r":
        v = real(rng)
        if rng.random() < .6:
            w, p = w or 1, rng.randrange(0, 7)
    elif t == "c":
        v = rng.choice([32, 48, 65, 97, 126, 127, 128, 160, 200, 254, 255, 9, 1, 0, 0, 33 + rng.randrange(90), rng.randrange(256)])
    elif t == "b":
        v = rng.randrange(2)
    elif t == "e":
        v = rng.randrange(6)
    elif t == "s":
        v = word(rng) if rng.random() < .9 else word(rng, rng.randrange(20, 120))
    elif t == "A":
        v = word(rng, rng.choice([2, 3, 5, 7, 9, 30]))
    elif t == "S":
        v, w = [rng.choice([0, 1, 5, 20, 80, 200, 254, 255]), rng.randrange(200)], None
    else:
        v = rng.randrange(0, 3000)
    return [t, v, w, p]


def wide(d, p):
    """Is this a number that no integer can hold?"""
    q = p + 1 if d[p] in b"+-" else p
    e = q
    while e < len(d) and 48 <= d[e] <= 57:
        e += 1
    return e - q > 10 or e - q == 10 and not -2**31 <= int(d[p:e]) < 2**31


def items(rng, n, kinds="ilrcbesASF", sep=.6):
    o = []
    for i in range(n):
        if i and rng.random() < sep:
            o.append(["c", 32, None, None])
        o.append(text_item(rng, kinds))
    return o


def stdin_text(rng, size=None):
    size = size if size is not None else rng.choice([0, 1, 10, 60, 300, 1100, 3000])
    o, n = [], 0
    style = rng.randrange(4)
    while n < size:
        k = rng.randrange(10)
        if style == 0 or k < 4:
            l = " ".join(str(integer(rng) if rng.random() < .9 else longint(rng)) for _ in range(rng.randrange(1, 6)))
        elif k < 6:
            l = " ".join(rng.choice([word(rng), "%.3f" % real(rng), str(integer(rng)), "true", "FALSE", "%.3E" % real(rng)])
                         for _ in range(rng.randrange(0, 6)))
        elif k == 6:
            l = ""
        elif k == 7:
            l = word(rng, rng.choice([100, 254, 255, 256, 300, 1023, 1024, 1025]) if size > 200 else rng.randrange(1, 40))
        elif k == 8:
            l = " " * rng.randrange(4) + "\t" * rng.randrange(2) + str(integer(rng)) + " " * rng.randrange(3)
        else:
            l = "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(128, 256), rng.choice([0, 0, 1, 8, 11, 12, 13, 26, 27, 127])]))
                        for _ in range(rng.randrange(30)))
        o.append(l)
        n += len(l) + 1
    s = "\n".join(o)
    if o and rng.random() < .85:
        s += "\n"
    return s


class Gen:
    """weights: operation -> weight"""

    def __init__(self, rng, weights, types=("text",), nfiles=(1, 3), nops=(8, 25), where=WHERE, names=NAMES, stdin=None,
                 vol=1.0, end=None, fs0=None, tail=None, unnamed=.15, maxcomp=60):
        self.rng, self.wt, self.types = rng, weights, list(types)
        if rng.random() < .15:
            names = [n for n in names if n in (fs0 or {})] or list(names[:2])
            names += rng.sample(ODD, rng.randint(1, 3))
        self.nfiles, self.nops, self.where, self.names = nfiles, nops, where, names
        self.vol, self.end, self.unnamed, self.tail, self.maxcomp = vol, end, unnamed, tail, maxcomp
        self.prog = {"files": [], "ops": [], "stdin": stdin if stdin is not None else "", "fs0": fs0 or {}, "marks": 1}
        self.nblk = 0
        self.nptr = 0

    def build(self):
        rng = self.rng
        p = self.prog
        for _ in range(rng.randint(*self.nfiles)):
            p["files"].append([rng.choice(self.types), rng.choice(self.where)])
        if rng.random() < .1:
            p["unit"] = 1
        self.w = World(p)
        self.typed_names = {}
        for n, (t, d) in p["fs0"].items():
            self.typed_names[n] = t
        n = rng.randint(*self.nops)
        ended = self.fill(p["ops"], self.w, n, 0)
        if self.tail:
            for op in self.tail(self, rng):
                if self.attempt(p["ops"], self.w, op) == 2:
                    ended = True
        if not ended and self.end:
            e = rng.choice(self.end)
            if e[0] != "normal":
                p["ops"].append(["end"] + list(e))
                p["ops"].append(["after"])
        return p

    def fill(self, ops, w, n, level):
        rng = self.rng
        kinds = [k for k in self.wt if k[0] != "_" and (level == 0 or k not in ("blk", "cyc"))]
        weights = [self.wt[k] for k in kinds]
        done = tries = 0
        while done < n and tries < n * 8:
            tries += 1
            k = rng.choices(kinds, weights)[0]
            op = getattr(self, "g_" + k)(w, level)
            if not op:
                continue
            for o in (op if isinstance(op[0], list) else [op]):
                if rng.random() < .12 and o[0] not in ("cyc", "blk", "rec", "mny", "cp", "cpt", "end", "list") and len(o) > 1 and \
                        isinstance(o[1], int) and o[1] >= 0 and o[0] in ("assign", "reset", "rewrite", "append", "close", "w",
                                                                       "wl", "wc", "wi", "wt", "wp", "wn", "r", "rt", "g", "pk",
                                                                       "eof", "eoln", "ra", "pos", "sr", "sw", "su", "page"):
                    o = ["via", o]
                r = self.attempt(ops, w, o)
                if r == 0:
                    break
                done += 1
                if r == 2:
                    return True
        return False

    def attempt(self, ops, w, op):
        try:
            w.op(op)
        except Undefined:
            return 0
        except Ended:
            ops.append(op)
            return 2
        ops.append(op)
        return 1

    # ------------------------------------------------ choosing
    def pick(self, w, pred):
        c = [i for i, v in w.vars.items() if pred(v)]
        return self.rng.choice(c) if c else None

    def g_open(self, w, level):
        """Give a file variable a file and open it"""
        rng = self.rng
        if not w.vars:
            return None
        i = self.pick(w, lambda v: not v.mode)
        if i is None or rng.random() < .15:
            i = rng.choice(list(w.vars))
        v = w.vars[i]
        o = []
        name = v.name
        if v.name is None or v.name == "" or rng.random() < .3:
            if rng.random() < self.unnamed and v.name is None:
                name = None
            else:
                c = [n for n in self.names if self.typed_names.get(n, v.type) == v.type]
                if not c:
                    return None
                name = rng.choice(c)
                if rng.random() < .7:
                    c2 = [n for n in c if n in w.fs]
                    if c2:
                        name = rng.choice(c2)
                self.typed_names[name] = v.type
                o.append(["assign", i, name, rng.randrange(2)])
        ex = name is not None and name in w.fs
        how = rng.choices(["reset", "rewrite", "append"], [self.wt.get("_reset", 4) if ex else 0, self.wt.get("_rewrite", 3),
                                                        self.wt.get("_append", 1.5)])[0]
        o.append([how, i])
        return o

    def g_reopen(self, w, level):
        i = self.pick(w, lambda v: v.name is not None and (v.mode == "write" or v.name in w.fs))
        if i is None:
            return None
        return [self.rng.choice(["reset", "reset", "reset", "append", "rewrite"]), i]

    def g_openmissing(self, w, level):
        i = self.pick(w, lambda v: not v.mode)
        if i is None:
            return None
        return [["assign", i, self.rng.choice(["missing", "no/such/dir/f", "gone.txt"]), 0], ["reset", i]]

    def g_assign(self, w, level):
        i = self.rng.choice(list(w.vars))
        v = w.vars[i]
        c = [n for n in self.names if self.typed_names.get(n, v.type) == v.type]
        if not c:
            return None
        n = self.rng.choice(c)
        self.typed_names[n] = v.type
        return ["assign", i, n, self.rng.randrange(2)]

    def g_close(self, w, level):
        i = self.pick(w, lambda v: v.mode)
        return None if i is None else ["close", i]

    def wr(self, w):
        i = self.pick(w, lambda v: v.type == "text" and v.mode == "write")
        return i

    def g_out(self, w, level):
        return ["w", -1, items(self.rng, self.rng.randrange(0, 4)), int(self.rng.random() < .8)]

    def g_outv(self, w, level):
        """a lot of output"""
        rng = self.rng
        return ["wl", -1, int(rng.randrange(1, 30) * self.vol) + 1, rng.randrange(256), rng.randrange(256), rng.randrange(200)]

    def g_w(self, w, level):
        i = self.wr(w)
        if i is None:
            return None
        return ["w", i, items(self.rng, self.rng.randrange(0, 5)), int(self.rng.random() < .7)]

    def g_wv(self, w, level):
        i = self.wr(w)
        if i is None:
            return None
        rng = self.rng
        k = rng.randrange(3)
        if k == 0:
            return ["wl", i, int(rng.randrange(1, 30) * self.vol) + 1, rng.randrange(256), rng.randrange(256), rng.randrange(200)]
        if k == 1:
            n = rng.choice([1, 7, 100, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097])
            return ["wc", i, max(1, int(n * min(self.vol, 1))) if n > 100 else n, rng.randrange(90)]
        return ["wi", i, int(rng.randrange(1, 200) * self.vol) + 1, rng.choice([1, 3, 7, 1000]), rng.randrange(-300, 30000)]

    def g_wx(self, w, level):
        """the ends of the integers"""
        i = self.wr(w)
        if i is None:
            return None
        it = []
        for _ in range(self.rng.randint(1, 4)):
            it += [["l", self.rng.choice([2**63 - 1, -2**63, -2**63 + 1, 2**31, -2**31 - 1, 2**31 - 1, -2**31, longint(self.rng)]), None, None],
                   ["c", 32, None, None]]
        return ["w", i, it, int(self.rng.random() < .7)]

    def g_page(self, w, level):
        i = self.wr(w)
        return None if i is None else ["page", i]

    def tw(self, w, modes=("write", "update")):
        i = self.pick(w, lambda v: v.type != "text" and v.mode in modes)
        return i

    def g_wt(self, w, level):
        i = self.tw(w)
        return None if i is None else [self.rng.choice(["wt", "wt", "wp"]), i, self.rng.randrange(1000)]

    def g_wn(self, w, level):
        i = self.tw(w)
        if i is None:
            return None
        b = pas.TYPES[w.vars[i].type].bulk
        n = self.rng.choice([1, 2, 3, 5] if b else [1, 2, 3, 10, self.maxcomp])
        return ["wn", i, n, self.rng.randrange(1000)]

    def rd(self, w, text):
        i = self.pick(w, lambda v: (v.type == "text") == text and v.mode in ("read", "update"))
        return i

    def rin(self, w, p=.5):
        if self.prog["stdin"] or self.wt.get("_in"):
            if self.rng.random() < self.wt.get("_in", .5):
                return -2
        return self.rd(w, True)

    def targets(self, s):
        """Targets that suit what comes next"""
        rng = self.rng
        p = s.pos
        d = s.data
        while p < len(d) and d[p] in pas.WS:
            p += 1
        t = []
        n = rng.choice([0, 1, 1, 1, 2, 3])
        num = p < len(d) and chr(d[p]) in "+-0123456789"
        for _ in range(n):
            if num and len(t) == 0 and wide(d, p):
                t.append(rng.choice([["l"], ["l"], ["l"], ["S"], ["T"], ["r", 2]]))
            elif num:
                t.append(rng.choice([["i"], ["i"], ["l"], ["r", 2], ["c"], ["T"], ["S"]]))
            else:
                t.append(rng.choice([["c"], ["c"], ["S"], ["T"], ["A"], ["b"], ["i"]]))
            num = rng.random() < .6
        return t

    def g_r(self, w, level):
        i = self.rin(w)
        if i is None:
            return None
        s = w.stdin if i == -2 else w.vars[i].scan
        for _ in range(5):
            t, nl = self.targets(s), int(self.rng.random() < .4)
            if not t and not nl:
                continue
            p = s.pos
            try:
                sc = pas.Scan(s.data, p)
                for x in t:
                    sc.target(x)
                if nl:
                    sc.ln()
            except Undefined:
                continue
            return ["r", i, t, nl]
        return None

    def g_rt(self, w, level):
        i = self.rd(w, False)
        return None if i is None else ["rt", i]

    def anyread(self, w):
        if self.rng.random() < .5:
            i = self.rin(w)
            if i is not None:
                return i
        i = self.rd(w, self.rng.random() < .5)
        return i

    def g_g(self, w, level):
        i = self.anyread(w)
        return None if i is None else ["g", i]

    def g_pk(self, w, level):
        i = self.anyread(w)
        return None if i is None else ["pk", i]

    def g_eof(self, w, level):
        i = self.anyread(w)
        if i is None or self.rng.random() < .7:
            i = self.pick(w, lambda v: v.mode)
        return None if i is None else ["eof", i]

    def g_eoln(self, w, level):
        i = self.rin(w)
        return None if i is None else ["eoln", i]

    def g_ra(self, w, level):
        i = self.anyread(w)
        return None if i is None else ["ra", i, self.rng.randrange(3)]

    def g_cp(self, w, level):
        i, j = self.rin(w), self.wr(w)
        if i is None:
            return None
        if j is None or self.rng.random() < .2:
            j = -1
        return ["cp", i, j, self.rng.randrange(3)]

    def g_cpt(self, w, level):
        j = self.tw(w, ("write",))
        if j is None:
            return None
        t = w.vars[j].type
        i = self.pick(w, lambda v: v.type == t and v.mode == "read")
        return None if i is None else ["cpt", i, j, self.rng.randrange(2)]

    def g_sk(self, w, level):
        i = self.rin(w)
        if i is None:
            return None
        s = w.stdin if i == -2 else w.vars[i].scan
        left = len(s.data) - s.pos
        n = self.rng.choice([1, 5, 100, 1000, 1020, 1022, 1023, 1024, 1025, 2000, 4090, 4096])
        if n > left:
            if not left:
                return None
            n = self.rng.randint(1, left)
        return ["sk", i, n, self.rng.randrange(5)]

    # direct access
    def g_seek(self, w, level):
        i = self.pick(w, lambda v: v.type != "text" and v.mode)
        if i is None:
            return None
        n = len(w.vars[i].ent.data)
        k = self.rng.choice([0, n, n - 1, self.rng.randrange(n + 1), self.rng.randrange(n + 1)])
        if k < 0:
            k = 0
        return [self.rng.choice(["sr", "sw", "su"]), i, k]

    def g_seekbad(self, w, level):
        i = self.pick(w, lambda v: v.type != "text" and v.mode)
        if i is None:
            return None
        n = len(w.vars[i].ent.data)
        return [self.rng.choice(["sr", "sw", "su"]), i, self.rng.choice([n + 1, n + 2, n + 10, n + 100000, -1, -1, -n - 1, 2**32 + n,
                                                                         2**32, 2**40 + n, -2**32 + n, 2**63 - 1, -2**63,
                                                                         2**61 + n, 2**31, -2**31, 2**62 // max(1, n)])]

    def g_ask(self, w, level):
        i = self.pick(w, lambda v: v.type != "text" and v.mode)
        return None if i is None else [self.rng.choice(["pos", "lpos", "emp", "eof"]), i]

    # binding
    def g_bind(self, w, level):
        i = self.pick(w, lambda v: v.name is not None)
        if i is None:
            return None
        v = w.vars[i]
        c = [n for n in self.names if self.typed_names.get(n, v.type) == v.type]
        if not c:
            return None
        n = self.rng.choice(c)
        self.typed_names[n] = v.type
        return ["bind", i, n]

    def g_unb(self, w, level):
        i = self.pick(w, lambda v: v.name is not None)
        return None if i is None else ["unb", i]

    def g_bq(self, w, level):
        return ["bq", self.rng.choice(list(w.vars))]

    # strings
    def g_ws(self, w, level):
        rng = self.rng
        its = items(rng, rng.randrange(1, 6))
        if rng.random() < .2:
            its.insert(rng.randrange(2) * len(its), text_item(rng, "ilrcbs"))
            i = rng.choice([j for j, x in enumerate(its) if x[0] in "ilrcbs"])
            its[i][2] = rng.choice([200, 250, 253, 254, 255, 256, 257, 300, 1000])
        return ["ws", rng.choice([255, 255, 255, 255, 80, 20, 5, 1]), its]

    def g_wz(self, w, level):
        rng = self.rng
        cap = rng.choice([255, 255, 80, 20, 5, 1])
        first = "".join(chr(rng.choice([65, 97, 48]) + rng.randrange(10)) for _ in range(rng.randrange(min(cap, 90) + 1)))
        its = [x for x in items(rng, rng.randrange(0, 4))]
        for _ in range(rng.randrange(1, 4)):
            k = rng.choice("VVLKD")
            if k == "K" and not first:
                continue
            its.insert(rng.randrange(len(its) + 1), [k, rng.randint(1, max(1, len(first))), None if k in "DV" else rng.choice([None, None, 3, 12]), None])
        if rng.random() < .15:
            its.append(["i", 7, rng.choice([100, 250, 256]), None])
        return ["wz", cap, first, its, rng.randrange(5)] if its else None

    def g_rs(self, w, level):
        rng = self.rng
        for _ in range(6):
            t = stdin_text(rng, rng.choice([5, 20, 60])).split("\n")[0]
            t = "".join(c for c in t if 32 <= ord(c) < 127)[:255]
            if not t:
                continue
            s = pas.Scan(t.encode("latin1"))
            tg = self.targets(s)
            if not tg:
                continue
            try:
                for x in tg:
                    s.target(x)
            except Undefined:
                continue
            return ["rs", t, tg]
        return None

    def g_rw(self, w, level):
        rng = self.rng
        its, tg = [], []
        for _ in range(rng.randrange(1, 5)):
            k = rng.choice("ilrbeF")
            if its:
                its.append(["c", 32, None, None])
            it = text_item(rng, k)
            if k == "r":
                it[2], it[3] = it[2] or 1, rng.randrange(1, 6)
                tg.append(["r", it[3]])
            elif k == "e":
                it = ["s", word(rng, 4).replace(" ", "x"), None, None]
                if tg:
                    tg.append(["c"])
                tg.append(["T"])
                its.append(it)
                break
            elif k == "F":
                tg.append(["i"])
            else:
                tg.append([k])
            its.append(it)
        return ["rw", 255, its, tg]

    def g_rn(self, w, level):
        """readstr whose variables are chosen by functions that themselves use readstr and writestr"""
        rng = self.rng
        n = rng.randint(1, 4)
        return ["rn", [integer(rng) for _ in range(n)], [rng.randint(1, 5) for _ in range(n)], rng.randrange(4), rng.randrange(2)]

    def g_mny(self, w, level):
        """One internal file after another, while an early one is in use"""
        rng = self.rng
        t = rng.choice([x for x in self.types if x == "text" or not pas.TYPES[x].bulk] or ["text"])
        return ["mny", rng.choice([5, 12, 101, 130, 260, 300] if rng.random() < .9 else [1001, 1030]), t, rng.randrange(500)]

    # heap
    def g_new(self, w, level):
        self.nptr += 1
        return ["new", self.nptr, self.rng.choice(self.heapt()), self.rng.randrange(1000)]

    def heapt(self):
        t = [x for x in self.types if x != "text"]
        return t or SMALL

    def ptr(self, w):
        return self.rng.choice(list(w.ptrs)) if w.ptrs else None

    def g_chk(self, w, level):
        p = self.ptr(w)
        return None if p is None else ["chk", p]

    def g_dis(self, w, level):
        p = self.ptr(w)
        return None if p is None else ["dis", p]

    def g_setp(self, w, level):
        p = self.ptr(w)
        return None if p is None else ["setp", p, self.rng.randrange(1000)]

    def g_list(self, w, level):
        rng = self.rng
        t = rng.choice(self.heapt())
        n = rng.choice([1, 3, 8, 20]) if pas.TYPES[t].bulk else rng.choice([1, 5, 20, 100])
        return ["list", n, t, rng.randrange(500), rng.randrange(2, 6)]

    # structure
    def g_rec(self, w, level):
        rng = self.rng
        t = rng.choice(self.types)
        b = t != "text" and pas.TYPES[t].bulk
        return ["rec", rng.choice([1, 2, 3, 6, 12]), t, rng.choice([1, 2]) if b else rng.choice([0, 1, 3, 10]), rng.randrange(500)]

    def g_blk(self, w, level):
        rng = self.rng
        self.nblk += 1
        ids = [100 * self.nblk + i for i in range(rng.randint(1, 2))]
        files = [[i, rng.choice(self.types), rng.choice(["global", "field", "elem", "heap", "hrec"])] for i in ids]
        w2 = pickle.loads(pickle.dumps(w))
        for i, t, _ in files:
            w2.vars[i] = pas.FV(t)
        body = []
        if self.fill(body, w2, rng.randint(3, 8), level + 1):
            return None
        if not body:
            return None
        return ["blk", files, body]

    def g_cyc(self, w, level):
        w2 = pickle.loads(pickle.dumps(w))
        body = []
        if self.fill(body, w2, self.rng.randint(2, 5), level + 1) or not body:
            return None
        op = ["cyc", self.rng.choice([2, 3, 5]), body]
        w3 = pickle.loads(pickle.dumps(w))
        try:
            w3.op(op)
        except (Undefined, Ended):
            return None
        if len(w3.out) > 60000 or sum(len(e.data) for e in w3.fs.values() if e.type == "text") > 100000:
            return None
        return op
