"""Random programs with nested procedures, recursion, loops, records, pointers, sets, strings and files, for comparing the
build modes with one another.  They have no undefined behaviour: everything is initialised, every subscript is reduced to its
range, every product is small, every loop and recursion is bounded."""


class Ctl:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.procs = []          # texts
        self.subs = []           # (name, kind, params): callable from the place where we are
        self.fuel = rng.randint(25, 70)

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---- expressions: the scope is a dict kind -> list of names
    def ivar(self, sc):
        r = self.r
        k = r.random()
        if k < .55:
            return r.choice(sc["i"])
        if k < .75:
            return "arr[%s]" % self.idx(sc)
        if k < .85:
            return "rc.a"
        if k < .93:
            return "pt^.a"
        return "mat[%s, %s]" % (self.idx(sc, 3), self.idx(sc, 4))

    def idx(self, sc, n=8):
        return self.r.choice([str(self.r.randrange(n)), "abs(%s) mod %d" % (self.r.choice(sc["i"]), n)])

    def iexp(self, sc, d=2):
        r = self.r
        if d <= 0 or r.random() < .25:
            k = r.random()
            return str(r.choice([0, 1, 2, 7, 100, 255, 256, 32767, 65536, 99991])) if k < .3 else self.ivar(sc) if k < .93 else "mark"
        k = r.randrange(14)
        a = lambda: self.iexp(sc, d - 1)  # noqa
        if k < 4:
            return "(%s %s %s)" % (a(), r.choice("+-"), a())
        if k == 4:
            return "((%s mod 1000) * (%s mod 1000))" % (a(), a())
        if k == 5:
            return "(%s %s %d)" % (a(), r.choice(["div", "mod"]), r.choice([1, 2, 3, 7, 8, 10, 16, 1000]))
        if k == 6:
            return "abs(%s)" % a()
        if k == 7:
            return "ord(%s)" % self.cexp(sc)
        if k == 8:
            return "ord(%s)" % self.bexp(sc, d - 1)
        if k == 9:
            return "length(%s)" % r.choice(["s1", "s2", "rc.s"])
        if k == 10:
            return "trunc(%s)" % self.rexp(sc)
        if k == 11:
            return "(%s shl %d)" % ("(abs(%s) mod 1000)" % a(), r.randrange(8)) if r.random() < .3 else "sqr(%s mod 200)" % a()
        fs = [s for s in self.subs if s[1] == "f"]
        return self.call(sc, r.choice(fs), d - 1) if fs else a()

    def bounded(self, sc, d=1):
        """One that stays small however often it is assigned"""
        return "(%s) mod %d" % (self.iexp(sc, d), self.r.choice([10, 97, 1000, 99991]))

    def bexp(self, sc, d=1):
        r = self.r
        k = r.randrange(8)
        if d <= 0 or k < 3:
            return "(%s %s %s)" % (self.iexp(sc, d - 1), r.choice(["<", "<=", ">", ">=", "=", "<>"]), self.iexp(sc, d - 1))
        if k == 3:
            return "(%s %s %s)" % (self.bexp(sc, d - 1), r.choice(["and", "or", "xor"] if r.random() < .5 else ["and", "or"]), self.bexp(sc, d - 1))
        if k == 4:
            return "not %s" % self.bexp(sc, d - 1)
        if k == 5:
            return "odd(%s)" % self.iexp(sc, d - 1)
        if k == 6:
            return "(abs(%s) mod 32 in st)" % self.iexp(sc, d - 1)
        return "(%s %s %s)" % (self.sexp(sc), r.choice(["=", "<", "<>", ">="]), self.sexp(sc))

    def cexp(self, sc):
        r = self.r
        return r.choice(["ch", "'x'", "chr(32 + abs(%s) mod 90)" % r.choice(sc["i"]), "rc.c"])

    def sexp(self, sc):
        r = self.r
        return r.choice(["s1", "s2", "'abc'", "''", "'a longer constant'", "rc.s"])

    def rexp(self, sc):
        r = self.r
        return r.choice(["x1", "x2", "0.25", "-1.5", "(x1 + x2)", "(x1 - 0.5)", "(%s mod 100) * 0.25" % r.choice(sc["i"])])

    def call(self, sc, s, d=1):
        name, kind, params, depth = s
        args = []
        for p in params:
            if p == "v":
                args.append(self.iexp(sc, d))
            elif p == "r":
                args.append(self.r.choice(sc["w"]) if self.r.random() < .6 else "arr[%s]" % self.idx(sc))
            elif p == "n":
                args.append(depth or str(self.r.randrange(4)))
            elif p == "s":
                args.append(self.sexp(sc))
            elif p == "a":
                args.append("arr")
            elif p == "p":
                args.append(self.r.choice(["show", "twice"]))
        return name + ("(%s)" % ", ".join(args) if args else "")

    # ---- statements
    def block(self, sc, d, n=None):
        return "begin %s end" % "; ".join(self.stmt(sc, d) for _ in range(n or self.r.randint(1, 3)))

    def stmt(self, sc, d):
        r = self.r
        self.fuel -= 1
        k = r.random()
        if d <= 0 or self.fuel < 0 or k < .5:
            return self.simple(sc)
        k = r.randrange(9)
        if k < 2:
            s = "if %s then %s" % (self.bexp(sc), self.block(sc, d - 1))
            return s + (" else %s" % self.block(sc, d - 1) if r.random() < .6 else "")
        if k == 2 or k == 3:
            v = self.loopvar(sc)
            if not v:
                return self.simple(sc)
            sc2 = dict(sc, l=[x for x in sc["l"] if x != v], i=sc["i"] + [v])
            a, b = r.randrange(4), r.randrange(5)
            if r.random() < .5:
                return "for %s := %d to %s do %s" % (v, a, r.choice([str(a + b), "%d + abs(%s) mod 3" % (a, r.choice(sc["i"]))]),
                                                     self.block(sc2, d - 1))
            return "for %s := %d downto %d do %s" % (v, a + b, a, self.block(sc2, d - 1))
        if k == 4:
            v = self.loopvar(sc)
            if not v:
                return self.simple(sc)
            sc2 = dict(sc, l=[x for x in sc["l"] if x != v], i=sc["i"] + [v])
            return "begin %s := %d; while (%s > 0) and %s do begin %s; %s := %s - 1 end end" % (
                v, r.randint(1, 5), v, self.bexp(sc2), self.block(sc2, d - 1), v, v)
        if k == 5:
            v = self.loopvar(sc)
            if not v:
                return self.simple(sc)
            sc2 = dict(sc, l=[x for x in sc["l"] if x != v], i=sc["i"] + [v])
            return "begin %s := 0; repeat %s; %s := %s + 1 until (%s >= %d) or %s end" % (
                v, self.block(sc2, d - 1), v, v, v, r.randint(1, 4), self.bexp(sc2))
        if k == 6:
            ls = r.sample(range(6), 3)
            return "case abs(%s) mod 6 of %s otherwise %s end" % (
                self.iexp(sc), " ".join("%s: %s;" % (l if i else "%d" % l, self.block(sc, d - 1, 1)) for i, l in enumerate(ls)),
                self.simple(sc))
        if k == 7:
            return "with rc do begin a := %s; %s end" % (self.bounded(sc), self.simple(sc))
        return self.block(sc, d - 1)

    def loopvar(self, sc):
        # (ISO leaves them undefined after the loop, so they are known only inside)
        return self.r.choice(sc["l"]) if sc["l"] else None

    def simple(self, sc):
        r = self.r
        k = r.randrange(26)
        ps = [s for s in self.subs]
        if k < 5:
            return "%s := %s" % (r.choice(sc["w"]), self.bounded(sc, 2))
        if k == 5:
            return "arr[%s] := %s" % (self.idx(sc), self.bounded(sc))
        if k == 6:
            return "rc.%s" % r.choice(["a := " + self.bounded(sc), "c := " + self.cexp(sc), "s := " + self.sexp(sc)])
        if k == 7:
            return "pt^.a := %s" % self.bounded(sc)
        if k == 8:
            return "%s := %s" % (r.choice(["s1", "s2"]), self.sexp(sc))
        if k == 9:
            return r.choice(["x1", "x2"]) + " := " + r.choice(["0.5", "(%s mod 64) * 0.25" % r.choice(sc["i"]), "x1 * 0.5 + 1.0"
                                                               if r.random() < .2 else "2.75"])
        if k == 10:
            return "st := st %s [abs(%s) mod 32]" % (r.choice("+-"), self.iexp(sc, 1))
        if k < 15:
            items = [r.choice([self.iexp(sc, 2) + ":1", self.cexp(sc), self.sexp(sc), self.bexp(sc, 1), self.rexp(sc) + ":1:3",
                               "'%s'" % r.choice(["x", "it", "-", " "])]) for _ in range(r.randint(1, 3))]
            return "writeln('%s ', %s)" % (self.fresh("L"), ", ' ', ".join(items))
        if k == 15:
            return "write(%s:%d)" % (self.iexp(sc, 2), r.randint(1, 9))
        if k == 16:
            return "writeln(tf, %s:1, ' ', %s)" % (self.iexp(sc, 2), self.sexp(sc))
        if k == 17:
            return "write(nf, %s)" % self.iexp(sc, 2)
        if k == 18:
            return "if not eof then begin readln(%s); writeln('got ', %s:1) end" % ((r.choice(sc["w"]),) * 2)
        if k == 19:
            return "if mark > %d then %s" % (r.randint(20, 150), r.choice(["halt(%d)" % r.randrange(256), "halt"]))
        if k == 20 and sc.get("main"):
            # (not in what may be called while pt^ is being assigned to)
            return "begin dispose(pt); new(pt); pt^.a := %s; pt^.c := ch; pt^.s := s1 end" % self.bounded(sc)
        if k == 21:
            return "ch := %s" % self.cexp(sc)
        if k == 22:
            return "writestr(s2, %s:1, '-', %s)" % (self.iexp(sc, 1), self.cexp(sc))
        if ps:
            s = r.choice(ps)
            c = self.call(sc, s)
            return c if s[1] == "p" else "%s := (%s) mod 99991" % (r.choice(sc["w"]), c)
        return "show(%s)" % self.iexp(sc, 1)

    # ---- procedures
    def sub(self, sc, d, nest=0):
        r = self.r
        kind = r.choice("pf")
        name = self.fresh("f" if kind == "f" else "p")
        params = [r.choice("vvrrsap") for _ in range(r.randrange(4))]
        rec = r.random() < .3
        if rec:
            params.append("n")
        decl, sc2 = [], {"i": list(sc["i"]), "w": list(sc["w"]), "l": []}
        hasp = []
        for p in params:
            v = self.fresh("a")
            if p == "v":
                decl.append("%s : integer" % v)
                sc2["i"].append(v)
            elif p == "r":
                decl.append("var %s : integer" % v)
                sc2["i"].append(v)
                sc2["w"].append(v)
            elif p == "n":
                decl.append("%s : integer" % v)
                level = v
            elif p == "s":
                decl.append("%s : str40" % v)
            elif p == "a":
                decl.append("%s%s : arrt" % (r.choice(["", "var "]), v))
            else:
                decl.append("procedure %s(k : integer)" % v)
                hasp.append(v)
        loc = [self.fresh("v") for _ in range(3)]
        sc2["i"].append(loc[2])
        sc2["w"].append(loc[2])
        sc2["l"] = loc[:2]
        head = "%s %s%s%s;\n" % ("function" if kind == "f" else "procedure", name, "(%s)" % "; ".join(decl) if decl else "",
                                 " : integer" if kind == "f" else "")
        saved = list(self.subs)
        inner = ""
        if nest < 2 and r.random() < .4:
            inner = self.sub(dict(sc2, l=[]), d, nest + 1)
        body = ["mark := mark + 1"] + ["%s := %s" % (v, self.r.choice(["0", "1", "mark"])) for v in loc]
        if kind == "f":
            body.append("%s := %s" % (name, self.bounded(sc2)))
        body += [self.stmt(sc2, d) for _ in range(r.randint(1, 4))]
        for v in hasp:
            body.append("%s(%s)" % (v, self.iexp(sc2, 1)))
        if rec:
            c = self.call(sc2, (name, kind, params, level + " - 1"))
            c = c.replace("show", hasp[0]) if hasp and r.random() < .5 else c
            body.append("if %s > 0 then %s" % (level, c if kind == "p" else "%s := (%s) mod 99991" % (loc[2], c)))
        if kind == "f" and r.random() < .6:
            body.append("%s := (%s) mod 99991" % (name, self.iexp(sc2, 2)))
        self.subs = saved + [(name, kind, params, None)]
        return head + "var %s : integer;\n%sbegin\n  if mark > 300 then begin writeln('enough'); halt(9) end;\n  %s\nend;\n" % (
            ", ".join(loc), inner, ";\n  ".join(body))

    def program(self):
        r = self.r
        glob = ["g0", "g1", "g2", "g3"]
        sc = {"i": glob + ["mark"], "w": list(glob), "l": ["l0", "l1", "l2"], "main": 1}
        subs = ""
        for _ in range(r.randint(1, 5)):
            scp = {"i": list(glob), "w": list(glob), "l": []}
            self.fuel = max(self.fuel, 12)
            subs += self.sub(scp, 2)
        self.fuel = r.randint(15, 50)
        main = [self.stmt(sc, 3) for _ in range(r.randint(4, 12))]
        tail = ["writeln('end ', g0:1, ' ', g1:1, ' ', g2:1, ' ', g3:1, ' ', mark:1)",
                "for l0 := 0 to 7 do write(arr[l0]:1, ' ')", "writeln(s1, '|', s2, '|', ch, '|', x1:1:3, ' ', x2:1:3)",
                "for l0 := 0 to 31 do if l0 in st then write(l0:1, ' ')", "writeln"]
        return """program ctl(input, output);
type
  str40 = string[40];
  arrt = array [0..7] of integer;
  rect = record a : integer; c : char; s : str40 end;
var
  g0, g1, g2, g3, mark, l0, l1, l2 : integer;
  arr : arrt;
  mat : array [0..2, 0..3] of integer;
  rc : rect;
  pt : ^rect;
  s1, s2 : str40;
  ch : char;
  x1, x2 : real;
  st : set of 0..31;
  tf : text;
  nf : file of integer;
procedure show(k : integer);
begin
  mark := mark + 1;
  writeln('show ', k:1)
end;
procedure twice(k : integer);
begin
  write('twice '); show(k)
end;
%sbegin
  g0 := %d; g1 := %d; g2 := 0; g3 := 1; mark := 0; l0 := 0; l1 := 0; l2 := 0;
  for l0 := 0 to 7 do arr[l0] := l0 * 3;
  for l0 := 0 to 2 do for l1 := 0 to 3 do mat[l0, l1] := l0 * 4 + l1;
  rc.a := 5; rc.c := 'r'; rc.s := 'field'; new(pt); pt^.a := 6; pt^.c := 'p'; pt^.s := 'heap';
  s1 := 'one'; s2 := 'two'; ch := 'q'; x1 := 0.5; x2 := 2.25; st := [1, 3, 31];
  assign(tf, 'tf.txt'); rewrite(tf); assign(nf, 'nf.dat'); rewrite(nf);
  %s
end.
""" % (subs, r.randrange(100), r.randrange(100), ";\n  ".join(main + tail))


def program(rng):
    return Ctl(rng).program()


# ------------------------------------------------------------------ nested routines that use variables of many types
KINDS = {
    # name: (declared type, put, get): k stands for a small number that is not negative
    "int": ("integer", "@ := (@ + $) mod 9973", "@"),
    "lng": ("longint", "@ := (@ + $) mod 9973", "@"),
    "chr": ("char", "@ := chr(32 + ($) mod 90)", "ord(@)"),
    "boo": ("boolean", "@ := odd($)", "ord(@)"),
    "rea": ("real", "@ := ($) * 0.5", "trunc(@ * 2)"),
    "st4": ("str40", "@ := 'a' + chr(65 + ($) mod 26)", "length(@) * 100 + ord(@[2])"),
    "st9": ("str9", "@ := chr(65 + ($) mod 26)", "length(@) * 100 + ord(@[1])"),
    "rc1": ("rect", "@.a := $; @.c := chr(32 + ($) mod 90)", "@.a + ord(@.c)"),
    "rc2": ("rec2", "@.y := ($) * 0.25; @.z[($) mod 3] := $", "trunc(@.y * 4)"),
    "ar1": ("arrt", "@[($) mod 8] := $", "@[3]"),
    "ar2": ("arr2", "@[($) mod 3, red] := $", "@[1, red] + @[2, red]"),
    "set": ("sets", "@ := @ + [($) mod 32]", "ord(5 in @) + ord(17 in @)"),
    "enu": ("enum", "if odd($) then @ := succ(red) else @ := blue", "ord(@)"),
    "pti": ("pint", "@^ := $", "@^"),
    "ptr": ("prec", "@^.a := $", "@^.a"),
    "sub": ("subr", "@ := 1 + ($) mod 200", "@"),
}


def closures(rng):
    n = [0]

    def fresh(p):
        n[0] += 1
        return "%s%d" % (p, n[0])

    def use(vs, k):
        out = []
        for v, t in rng.sample(vs, min(len(vs), rng.randint(1, 6))):
            v = rng.choice([v, v, v, v.upper()])
            e = rng.choice([k, "%s + %d" % (k, rng.randrange(9)), str(rng.randrange(300))])
            if rng.random() < .6:
                out.append("; ".join(x.replace("@", v).replace("$", e) for x in KINDS[t][1].split("; ")))
                if out[-1].startswith("if"):
                    out[-1] = "begin %s end" % out[-1]
            else:
                out.append("acc := (acc * 3 + %s) mod 9973" % KINDS[t][2].replace("@", v))
        return out

    def names(k):
        ws = ["a", "B", "zeta", "x", "count", "Total", "q", "m", "vv", "longer_name", "Key", "i", "j", "n", "o", "h", "result1"]
        rng.shuffle(ws)
        return [fresh(w + "_") for w in ws[:k]]

    def routine(outer, depth, callable_):
        """(text, name, kind); outer: variables of the routines around"""
        kind, name = rng.choice("ppf"), fresh("rt")
        own = [(v, rng.choice(sorted(KINDS))) for v in names(rng.randint(1, 6) if depth < 3 else 1)]
        # some have the name of one of those around, with another type perhaps
        for i in range(len(own)):
            if outer and rng.random() < .2:
                v = rng.choice(outer)[0]
                if v.lower() not in [x.lower() for x, _ in own]:
                    own[i] = rng.choice([v, v.upper()]), own[i][1]
        subs, calls = "", []
        vis = [o for o in outer if o[0].lower() not in [v.lower() for v, _ in own]] + own
        if depth < 3:
            for _ in range(rng.choice([1, 1, 2, 3]) if depth < 2 else rng.randrange(2)):
                t, nm, kd = routine(vis, depth + 1, callable_ + calls)
                subs += t
                calls.append((nm, kd))
        head = "%s %s(k : integer)%s;\nvar\n" % ("function" if kind == "f" else "procedure", name, " : integer" if kind == "f" else "")
        head += "".join("  %s : %s;\n" % (v, KINDS[t][0]) for v, t in own)
        b = []
        for v, t in own:
            if t in ("pti", "ptr"):
                b.append("new(%s)" % v)
            if t == "set":
                b.append("%s := []" % v)
            elif t == "int" or t == "lng":
                b.append("%s := k" % v)
            elif t in ("ar1",):
                b.append("for gl := 0 to 7 do %s[gl] := gl" % v)
            elif t == "ar2":
                b.append("for gl := 0 to 2 do begin %s[gl, red] := gl; %s[gl, green] := 1 end" % (v, v))
            for x in KINDS[t][1].split("; "):
                x = x.replace("@", v).replace("$", "k + 1")
                b.append("begin %s end" % x if x.startswith("if") else x)
        b += use(vis, "k")
        for nm, kd in rng.sample(calls + callable_, min(len(calls + callable_), rng.randint(1, 3))):
            e = rng.choice(["k + 1", "k", str(rng.randrange(50))])
            b.append("if depth < 40 then begin depth := depth + 1; %s; depth := depth - 1 end" % (
                ("pass(%s, %s)" if rng.random() < .15 else "%s(%s)") % (nm, e) if kd == "p" else "acc := (acc + %s(%s)) mod 9973" % (nm, e)))
            b += use(vis, "k")
        if kind == "f":
            b.append("%s := (acc + k) mod 9973" % name)
        b += ["acc := (acc * 7 + %s) mod 9973" % KINDS[t][2].replace("@", v) for v, t in own]
        b.append("writeln('%s ', acc:1)" % name)
        return "%s%sbegin\n  %s\nend;\n" % (head, subs, ";\n  ".join(b)), name, kind

    body, main, cs = "", [], []
    for _ in range(rng.randint(1, 3)):
        t, nm, kd = routine([], 0, list(cs))
        body += t
        cs.append((nm, kd))
        main.append("%s(%d)" % (nm, rng.randrange(20)) if kd == "p" else "acc := %s(%d)" % (nm, rng.randrange(20)))
    types = ["  str40 = string[40];", "  str9 = string[9];", "  enum = (red, green, blue);",
             "  rect = record a : integer; c : char; s : string[40] end;", "  rec2 = record y : real; z : array [0..2] of integer end;",
             "  arrt = array [0..7] of integer;", "  arr2 = array [0..2, red..green] of integer;", "  sets = set of 0..31;",
             "  pint = ^integer;", "  subr = 1..200;"]
    k = types.pop(2)
    rng.shuffle(types)
    types = [k] + types + ["  prec = ^rect;"]
    return ("program cl(output);\ntype\n%s\nvar\n  acc, depth, gl : integer;\n"
            "procedure pass(procedure p(k : integer); k : integer);\nbegin\n  p(k)\nend;\n%sbegin\n  acc := 1; depth := 0;\n  %s;\n  writeln('end ', acc:1)\nend.\n") % (
                "\n".join(types), body, ";\n  ".join(main))
