"""C18: dates, times, the processor clock and random numbers.  The programs are lists of operations like those of pas.py, but
all they do is to ask for the time and for random numbers, with other work in between."""
import os, time

from .drive import Family
from .rt import OPTS64, STDIN, Bad, benign, sane, short
from .sim import Plan

NS = 10**9
SLOTS = ["g1", "g2", "ar[1]", "ar[2]", "rc.ts", "p1^", "p2^.ts", "mx[2].ts"]
ZONES = ["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "NST3:30NDT,M3.2.0,M11.1.0", "LINT-14", "AoE12",
         "ACST-9:30ACDT,M10.1.0,M4.1.0/3", "IST-2IDT,M3.4.4/26,M10.5.0"]

HEAD = """program g(output);
type
  s80 = string[80];
  rec = record a : char; ts : timestamp; b : integer end;
var
  g1, g2, tmp : timestamp;
  ar : array [1..2] of timestamp;
  rc : rec;
  mx : array [1..3] of rec;
  p1 : ^timestamp;
  p2 : ^rec;
  s : string;
  s10 : string[10];
  zz : int64;
  f : file of timestamp;
  t : text;
  i : integer;
  q : ^integer;

procedure stamp(var x : timestamp); begin gettimestamp(x) end;
procedure fields(x : timestamp);
begin
  writeln('F ', ord(x.DateValid):1, ' ', ord(x.TimeValid):1, ' ', x.Year:1, ' ', x.Month:1, ' ', x.Day:1, ' ', x.Hour:1, ' ',
          x.Minute:1, ' ', x.Second:1, ' ', x.MicroSecond:1)
end;
procedure pdate(x : timestamp); begin writeln('D ', date(x)) end;
procedure ptime(var x : timestamp); begin writeln('T ', time(x)) end;
function dated(var x : timestamp) : s80; begin dated := date(x) end;
"""


def emit(ops):
    o = ["new(p1)", "new(p2)", "rewrite(f)", "zz := clock", "writeln('C ', zz:1)"]
    procs = ""
    n = 0
    for op in ops:
        k = op[0]
        if k == "ts":
            o.append(("stamp(%s)" if op[2] else "gettimestamp(%s)") % op[1])
        elif k == "tsl":
            n += 1
            procs += ("procedure loc%d; var a : char; x : timestamp; y : integer; begin a := 'q'; y := 77; gettimestamp(x); "
                      "fields(x); pdate(x); ptime(x); if (a <> 'q') or (y <> 77) then writeln('damaged') end;\n" % n)
            o.append("loc%d" % n)
        elif k == "f":
            o.append("fields(%s)" % op[1])
        elif k == "d":
            v, how = op[1], op[2]
            o += [["writeln('D ', date(%s))" % v], ["s := date(%s)" % v, "writeln('D ', s)"],
                  ["s10 := date(%s)" % v, "writeln('D ', s10)"], ["pdate(%s)" % v],
                  ["writestr(s, date(%s))" % v, "writeln('D ', s)"], ["writeln('D ', dated(%s))" % v]][how]
        elif k == "t":
            v, how = op[1], op[2]
            o += [["writeln('T ', time(%s))" % v], ["s := time(%s)" % v, "writeln('T ', s)"], ["ptime(%s)" % v],
                  ["s10 := time(%s)" % v, "writeln('T ', s10)"], ["s := 'x' + time(%s)" % v, "writeln('T ', copy(s, 2))"],
                  ["writestr(s, time(%s))" % v, "writeln('T ', s)"]][how]
        elif k == "cp":
            o.append("%s := %s" % (op[2], op[1]))
        elif k == "set":
            v, y, m, d, h, mi, se = op[1:]
            o += ["%s.%s := %d" % (v, a, b) for a, b in zip(("Year", "Month", "Day", "Hour", "Minute", "Second"),
                                                            (y, m, d, h, mi, se))]
            o += ["%s.DateValid := true" % v, "%s.TimeValid := true" % v, "%s.MicroSecond := 0" % v]
        elif k == "sv":
            o += ["rewrite(f)", "write(f, %s)" % op[1], "reset(f)", "read(f, tmp)", "%s := tmp" % op[2]]
        elif k == "clk":
            o.append("writeln('K ', clock:1)" if op[1] else "zz := clock; writeln('K ', zz:1)")
        elif k == "rz":
            o.append("randomize")
        elif k == "rs":
            o.append("randomize(%d)" % op[1] if -2**31 < op[1] < 2**31 else
                     "zz := %d; zz := zz * 65536 * 16 + %d; randomize(zz)" % (op[1] // 2**20, op[1] % 2**20))
        elif k == "ri":
            o.append("writeln('R ', random(%d):1)" % op[1] if not op[2] else
                     "for i := 1 to %d do writeln('R ', random(%d):1)" % (op[2], op[1]))
        elif k == "rr":
            o.append("writeln('Q ', random:25:20)")
        elif k == "nx":
            o += [["new(q)", "q^ := 3", "dispose(q)"], ["rewrite(t)", "writeln(t, 5)"], ["reset(f)"], ["page(output)"],
                  ["writeln('N ', 4.5:8:2)"], ["s := 'abc'", "s := s + 'd'"], ["zz := clock", "zz := clock"]][op[1]]
            if op[1] == 6:
                o += ["writeln('X2')"]
        else:
            raise ValueError(op)
        if k in ("ts", "tsl", "rz"):
            o += ["zz := clock", "writeln('C ', zz:1)"]
    o += ["dispose(p1)", "dispose(p2)", "writeln('end')"]
    return HEAD + procs + "begin\n  " + ";\n  ".join(o) + "\nend.\n"


INV = pow(1103515245, -1, 2**32)


def edge_seed(rng):
    """A seed after which the first or second draw is at the end of the generator's range (were it another generator, it is a
    seed like any other)"""
    u = rng.choice([0xFFFFFFFF, 0xFFFFFFFF, 0, 0x80000000, 0x7FFFFFFF, 0xFFFFFFFE, 1, 0xFFFFFF80])
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        u = (u - 12345) * INV % 2**32
    return u


def make_ops(rng):
    ops, stamped = [], []
    for _ in range(rng.randint(6, 26)):
        k = rng.choice(["ts"] * 3 + ["tsl", "f", "f", "d", "d", "t", "t", "cp", "sv", "set", "clk", "clk", "rz", "rz", "rs", "rs",
                                     "ri", "ri", "ri", "ri", "rr", "rr", "rr", "nx", "nx"])
        if k in ("f", "d", "t", "cp", "sv") and not stamped:
            k = "ts"
        if k == "ts":
            v = rng.choice(SLOTS)
            ops.append(["ts", v, rng.randrange(2)])
            stamped.append(v)
        elif k == "f":
            ops.append(["f", rng.choice(stamped)])
        elif k == "d":
            ops.append(["d", rng.choice(stamped), rng.randrange(6)])
        elif k == "t":
            ops.append(["t", rng.choice(stamped), rng.randrange(6)])
        elif k in ("cp", "sv"):
            v = rng.choice(SLOTS)
            ops.append([k, rng.choice(stamped), v])
            stamped.append(v)
        elif k == "set":
            v = rng.choice(SLOTS)
            ops.append(["set", v, rng.choice([1, 99, 987, 1899, 2000, 2026, 9999]), rng.choice([1, 9, 10, 12]), rng.choice([1, 9, 10, 31]),
                        rng.choice([0, 9, 12, 13, 23]), rng.choice([0, 9, 10, 59]), rng.choice([0, 9, 10, 59, 60])])
            stamped.append(v)
        elif k == "clk":
            ops.append(["clk", rng.randrange(2)])
        elif k == "rs":
            e = edge_seed(rng)
            ops.append(["rs", rng.choice([0, 1, 42, 4711, 2**31 - 1, rng.randrange(2**31)] + [e, e, e, e - 2**32])])
            if rng.random() < .5:
                ops += [["ri", rng.choice([1, 2, 6, 100, 65536, 1000000, 2**31 - 1]), rng.choice([0, 3])]]
                continue
        elif k == "ri":
            ops.append(["ri", rng.choice([1, 2, 6, 10, 100, 256, 65536, 1000000, 2**31 - 1, rng.randint(1, 10**9)]),
                        rng.choice([0, 0, 3, 20])])
        elif k == "nx":
            ops.append(["nx", rng.randrange(7)])
        else:
            ops.append([k])
        # the same seed once more: what follows it must be the same again
        if k in ("rs", "rz") and rng.random() < .7:
            ops += [["ri", 1000000, 3], ["rr"]]
    return ops


DUSK = [0, 951782399, 951868799, 1709164799, 1711846799, 1711846800, 1729990799, 1729994400, 1735689599, 1735689600, 2147483000,
        1000000000, 1709251199, 1710054000, 68169600 - 1, 4107542399, 4133980799, 7258118399]


def clock_env(rng, model):
    e = benign(rng, rng.randrange(3))
    s = e["set"]
    top = 2147400000 if model == 32 else 9 * 10**9
    k = rng.randrange(4)
    t = rng.choice([x for x in DUSK if x < top]) if k < 2 else rng.randrange(top)
    s["time"] = max(0, t * NS - rng.choice([0, 0, 20, 1000, rng.randrange(NS), 3 * NS]))
    s["tick"] = rng.choice([0, 1, 50, 10**6, NS // 3, NS, 5 * NS, 100 * NS])
    s["tz"] = rng.choice(ZONES)
    if rng.random() < .4:
        s["cpu0"] = rng.randrange(2**31 - 10**7 if model == 32 else 2**rng.choice([20, 33, 45, 60]))
    if rng.random() < .15:
        # randomize with what puts the generator to its end
        t = edge_seed(rng)
        if t < top:
            s["time"], s["tick"] = t * NS, rng.choice([0, 1])
    if rng.random() < .35:
        # the processor clock steps back (another processor), stands still or leaps
        e["cjumps"] = [[rng.randint(1, 40), rng.choice([-1, -1, -1, 1]) * rng.choice([1, 30, 10**4, 10**6, 3 * 10**9 if model == 64 else 10**7])]
                       for _ in range(rng.randint(1, 4))]
    if rng.random() < .6:
        # the clock is set
        e["tjumps"] = [[rng.randint(1, 40), rng.choice([-1, 1]) * rng.choice([1, NS, 3600 * NS, 86400 * NS, rng.randrange(40 * 86400 * NS)])]
                       for _ in range(rng.randint(1, 3))]
        if s["time"] < 200 * 86400 * NS:
            e["tjumps"] = [[a, abs(b)] for a, b in e["tjumps"]]
        if model == 32:
            s["time"] = min(s["time"], 2147400000 * NS - 130 * 86400 * NS)
    return e


def local(t, tz):
    old = os.environ.get("TZ")
    os.environ["TZ"] = tz
    time.tzset()
    try:
        l = time.localtime(t)
        return [l.tm_year, l.tm_mon, l.tm_mday, l.tm_hour, l.tm_min, l.tm_sec]
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()


def judge_run(case, nd, clocks, tz, memo):
    """One execution: the history must be explained by the clock readings that the simulator gave out"""
    sane(nd)
    if nd.val:
        raise Bad("exit status %d" % nd.val, short(nd.stderr))
    lines = nd.stdout.decode("latin1").replace("\f", "").split("\n")
    at = [0]
    # readings by segment; segments are divided by the processor clock readings
    segs, cpu = [[]], []
    for _, what, v, _ in clocks:
        if what == "clock":
            segs.append([])
            cpu.append(v)
        else:
            segs[-1].append((v if what == "time" else v // NS, v))
    ci = [0]
    micros = {m for sg in segs for _, v in sg if v >= 10 ** 15 for m in (v // 1000 % 1000000, v // 1000000 % 1000 * 1000)}

    def line(tag):
        if at[0] >= len(lines) or not lines[at[0]].startswith(tag):
            raise Bad("line %d is not the expected '%s'" % (at[0], tag), repr(lines[at[0]:at[0] + 3]))
        at[0] += 1
        return lines[at[0] - 1][len(tag):].strip(" " if tag != "D " and tag != "T " else "")

    def cpuval(tag):
        v = int(line(tag))
        if ci[0] >= len(cpu) or v != cpu[ci[0]]:
            raise Bad("clock gives %d" % v, "the processor clock was %s" % (cpu[ci[0]] if ci[0] < len(cpu) else "not asked"))
        ci[0] += 1

    def now():
        s = segs[ci[0]]
        if not s:
            raise Bad("the clock was not asked for the time")
        return s

    def fld():
        w = [int(x) for x in line("F ").split()]
        if len(w) != 9 or w[0] != 1 or w[1] != 1:
            raise Bad("the time stamp is not valid", str(w))
        if not 0 <= w[8] <= 999999:
            raise Bad("microseconds out of range", str(w))
        if w[8] and w[8] not in micros:
            raise Bad("the time stamp has microseconds that the clock did not show", str(w))
        return w[2:8]

    def same(a, b, what):
        if a != b:
            raise Bad("%s is not that of the time stamp" % what, "expected %s, got %s" % (b, a))

    val, key, seq = {}, ("initial",), []
    dstr = lambda v: "%04d-%02d-%02d" % tuple(v[:3])     # noqa
    tstr = lambda v: "%02d:%02d:%02d" % tuple(v[3:])     # noqa
    cpuval("C ")
    for op in case["ops"]:
        k = op[0]
        if k == "ts":
            # what was stored is seen when it is used; until then any reading will do
            val[op[1]] = ("one", [local(s[0], tz) for s in now()])
            cpuval("C ")
        elif k == "tsl":
            can = [local(s[0], tz) for s in now()]
            v = fld()
            if v not in can:
                raise Bad("the time stamp is not the current time", "expected %s, got %s" % (can, v))
            same(line("D "), dstr(v), "date")
            same(line("T "), tstr(v), "time")
            cpuval("C ")
        elif k in ("f", "d", "t"):
            v = val[op[1]]
            if k == "f":
                got = fld()
                ok = [x for x in v[1] if x == got]
            elif k == "d":
                got = line("D ")
                ok = [x for x in v[1] if dstr(x) == got]
            else:
                got = line("T ")
                ok = [x for x in v[1] if tstr(x) == got]
            if not ok:
                raise Bad("%s of a time stamp is wrong" % {"f": "a field", "d": "date", "t": "time"}[k],
                          "expected %s, got %s" % (v[1], got))
            v[1][:] = ok
        elif k in ("cp", "sv"):
            val[op[2]] = (val[op[1]][0], list(val[op[1]][1]))
        elif k == "set":
            val[op[1]] = ("one", [list(op[2:8])])
        elif k == "clk":
            cpuval("K ")
        elif k == "rz":
            s = now()
            key, seq = ("time", s[-1][1] if len(s) == 1 else tuple(x[1] for x in s)), []
            cpuval("C ")
        elif k == "rs":
            key, seq = ("seed", op[1]), []
        elif k in ("ri", "rr"):
            for _ in range(max(1, op[2]) if k == "ri" else 1):
                if k == "ri":
                    got = int(line("R "))
                    if not 0 <= got < op[1]:
                        raise Bad("random(%d) gives %d" % (op[1], got))
                    seq.append(op[1])
                else:
                    got = line("Q ")
                    if not 0 <= float(got) <= 1:
                        raise Bad("random gives %s" % got)
                    seq.append(0)
                m = memo.setdefault((key, tuple(seq)), got)
                if m != got:
                    raise Bad("the random sequence is not a function of the seed",
                              "after %s, draw %d of %s: once %s, once %s" % (key, len(seq), seq[-6:], m, got))
        elif k == "nx":
            if op[1] == 4:
                line("N ")
            elif op[1] == 6:
                ci[0] += 2
                line("X2")
    line("end")


def random_enough(memo):
    """randomize makes a difference, and what comes is not always the same"""
    by = {}
    for (key, seq), v in memo.items():
        if len(seq) >= 3 and seq[:3] == (1000000,) * 3 and len(seq) == 3:
            by[key] = tuple(memo.get((key, seq[:n])) for n in (1, 2, 3))
    for k, v in by.items():
        if len(set(v)) == 1:
            raise Bad("random(1000000) gives the same number three times", "%s %s" % (k, v))
    times = [(k[1], v) for k, v in by.items() if k[0] == "time" and isinstance(k[1], int)]
    for i, (t, v) in enumerate(times):
        for t2, v2 in times[i + 1:]:
            if v == v2 and abs(t - t2) > 1 and abs(t - t2) < 2**31:
                raise Bad("randomize does not depend on the time", "at %d and at %d: %s" % (t, t2, v))
        for k, v2 in by.items():
            if k[0] == "initial" and v == v2:
                raise Bad("randomize does not change the sequence", "at %d: %s" % (t, v))


def judge(ctx, case):
    rn = ctx.rn
    memo = {}
    for run in case["runs"]:
        so = rn.compile(emit(case["ops"]), run["opts"], run["model"])
        if so is None:
            raise Bad("the program does not compile", rn.why(emit(case["ops"]), run["opts"], run["model"])[:600])
        env = run["env"]
        p = Plan(env.get("seed", 1), run["model"])
        p.set(**env["set"])
        for j in env.get("tjumps", []):
            p.tjumps.append(j)
        for j in env.get("cjumps", []):
            p.cjumps.append(j)
        p.node(so)
        r = rn.run(p)
        if env.get("cjumps"):
            rn.st["fault:clock/cpujump"] += len([j for j in env["cjumps"] if j[0] <= r.steps])
        if env.get("tjumps"):
            rn.st["fault:clock/jump"] += len([j for j in env["tjumps"] if j[0] <= r.steps])
        judge_run(case, r[0], r.clocks, env["set"].get("tz", "UTC0"), memo)
    random_enough(memo)
    return "explained"


def make(rng, ctx):
    ops = make_ops(rng)
    o64 = rng.choice(OPTS64)
    runs = []
    for i in range(rng.randint(4, 7)):
        m = 32 if rng.random() < .3 else 64
        runs.append({"model": m, "opts": o64 if m == 64 else ["-O1"], "env": clock_env(rng, m)})
    if rng.random() < .3:
        # another optimisation in the same surroundings
        runs.append(dict(runs[0], opts=rng.choice(OPTS64) if runs[0]["model"] == 64 else ["-O0"]))
    yield {"ops": ops, "runs": runs}


def shrink(case):
    ops = case["ops"]
    for i in range(len(case["runs"])):
        if len(case["runs"]) > 1:
            yield dict(case, runs=case["runs"][:i] + case["runs"][i + 1:])
    k = len(ops) // 2
    while k:
        for i in range(0, len(ops) - k + 1):
            c = ops[:i] + ops[i + k:]
            st = set()
            ok = True
            for op in c:
                if op[0] in ("f", "d", "t", "cp", "sv"):
                    ok = ok and op[1] in st
                if op[0] in ("ts", "set"):
                    st.add(op[1])
                if op[0] in ("cp", "sv"):
                    st.add(op[2])
            if ok:
                yield dict(case, ops=c)
        k //= 2


C18 = [Family("clocks", make, judge, shrink, quick=800, thorough=20000,
              rule="a random program that asks for time stamps, dates, processor time and random numbers, run under several clocks, "
              "time zones, clock jumps and in several build modes; every line it prints must be explained by a reading that the "
              "simulated clock gave at that call, and the random numbers of all runs by one function of the seed")]
