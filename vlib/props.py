"""The checks of the properties about compiled programs (C06 to C24)."""
import collections, copy, json, os, random, re

from . import gen, pas
from .drive import Family
from .gen import ALLT, Gen, SMALL, stdin_text, word
from .pas import Ended, Undefined, World
from .rt import (Bad, OPTS64, STDIN, baseline, benign, extra, firstdiff, judge_exact, judge_files, judge_kill, judge_partial, mkplan,
                 run_case, sane, short)
from .sim import (EACCES, EDQUOT, EFBIG, EIO, EISDIR, EMFILE, ENFILE, ENOENT, ENOMEM, ENOSPC, EROFS, ESTALE, Plan)

END_NORMAL = [["normal"]]
END_ALL = [["normal"], ["halt", 0], ["halt", 1], ["halt", 3], ["halt", 255], ["halt", 256], ["halt", 300], ["halt", 7, 4],
           ["panic"], ["panic", 0, 3], ["open"], ["open", 0, 5], ["halt", 42, 20],
           ["halt", -1], ["halt", 1, 0, 3], ["halt", 2 * 10**9 + 77, 0, 1], ["halt", 10**10 + 5, 0, 1], ["halt", -3 * 10**9, 2, 1],
           ["halt", 65539, 0, 2], ["halt", -300, 3, 2], ["halt", 4, 0, 4], ["halt", 513, 0, 5], ["halt", 514, 4, 5]] + [
           ["panic", 0, i % 3, i % 6, m] for i, m in enumerate(["x", "it's over", "twelve chars", "y", "q", "twelve chars",
                                                                "z" * 60, "a\"b", "ab" * 10, "no room", "u", "Twelve%s%d%n"] )]


def defined(prog):
    try:
        World(prog).run()
        return True
    except (Undefined, KeyError, IndexError, TypeError, AttributeError):
        return False


# ------------------------------------------------------------------ making smaller cases
def smaller_ops(ops):
    """Shorter or simpler lists of operations"""
    n = len(ops)
    k = n // 2
    while k >= 1:
        for i in range(0, n - k + 1, max(1, k)):
            yield ops[:i] + ops[i + k:]
        k //= 2
    for i, op in enumerate(ops):
        if op[0] == "via":
            yield ops[:i] + [op[1]] + ops[i + 1:]
        if op[0] == "cyc":
            yield ops[:i] + op[2] + ops[i + 1:]
            if op[1] > 1:
                yield ops[:i] + [["cyc", op[1] // 2, op[2]]] + ops[i + 1:]
            for b in smaller_ops(op[2]):
                yield ops[:i] + [["cyc", op[1], b]] + ops[i + 1:]
        if op[0] == "blk":
            for b in smaller_ops(op[2]):
                yield ops[:i] + [["blk", op[1], b]] + ops[i + 1:]
        if op[0] in ("w", "ws") and len(op[2]) > 1:
            for j in range(len(op[2])):
                yield ops[:i] + [[op[0], op[1], op[2][:j] + op[2][j + 1:]] + op[3:]] + ops[i + 1:]
        if op[0] == "r" and len(op[2]) > 1:
            for j in range(len(op[2])):
                yield ops[:i] + [[op[0], op[1], op[2][:j] + op[2][j + 1:]] + op[3:]] + ops[i + 1:]
        if op[0] in ("wn", "wl", "wc", "wi", "list", "rec", "mny"):
            j = 2 if op[0] not in ("list", "rec", "mny") else 1
            if op[j] > 1:
                for m in (1, op[j] // 2, op[j] - 1):
                    yield ops[:i] + [op[:j] + [m] + op[j + 1:]] + ops[i + 1:]


def shrink_prog(prog):
    for o in smaller_ops(prog["ops"]):
        p = dict(prog, ops=o)
        if defined(p):
            yield p
    if prog.get("stdin"):
        s = prog["stdin"]
        k = len(s) // 2
        while k >= 1:
            for i in range(0, len(s) - k + 1, k):
                p = dict(prog, stdin=s[:i] + s[i + k:])
                if defined(p):
                    yield p
            k //= 2
    for i, f in enumerate(prog["files"]):
        if f[1] != "global":
            yield dict(prog, files=prog["files"][:i] + [[f[0], "global"]] + prog["files"][i + 1:])


def shrink_env(env):
    for k in ("faults", "kills"):
        for i in range(len(env.get(k, []))):
            if len(env[k]) > 1:
                yield dict(env, **{k: env[k][:i] + env[k][i + 1:]})
    for k in list(env.get("set", {})):
        if k != "disk":
            yield dict(env, set={a: b for a, b in env["set"].items() if a != k})
    for i, f in enumerate(env.get("faults", [])):
        if f[3] > 1:
            for n in (1, f[3] // 2, f[3] - 1):
                yield dict(env, faults=env["faults"][:i] + [f[:3] + [n] + f[4:]] + env["faults"][i + 1:])
    for i, k in enumerate(env.get("kills", [])):
        for n in (k[1] // 2, k[1] - 1):
            if n > 0:
                yield dict(env, kills=env["kills"][:i] + [[k[0], n, k[2]]] + env["kills"][i + 1:])
    i = env.get("in")
    if i and i[0] == "stream" and len(i[3]) > 1:
        for j in range(len(i[3])):
            ev = copy.deepcopy(i[3])
            e = ev.pop(j)
            if j < len(ev):
                ev[j][2] += e[2]
            yield dict(env, **{"in": i[:3] + [ev] + i[4:]})


def shrink(case):
    for p in shrink_prog(case["prog"]):
        yield dict(case, prog=p)
    for e in shrink_env(case["env"]):
        yield dict(case, env=e)
    if case.get("opts", ["-O1"]) != ["-O1"]:
        yield dict(case, opts=["-O1"])


# ------------------------------------------------------------------ families
def judge_case(ctx, case):
    return run_case(ctx.rn, case)


def build(rng, **kw):
    """A program with a defined result, or None"""
    for _ in range(3):
        p = Gen(rng, **kw).build()
        if p["ops"] and defined(p):
            return p
    return None


def modes(rng, m32=.25):
    if rng.random() < m32:
        return {"model": 32, "opts": rng.choice([["-O0"], ["-O2"], ["-O1"], ["-g", "-O0"]])}
    return {"model": 64, "opts": rng.choice(OPTS64)}


def plain(rng, prog, i):
    return benign(rng, i)


def exact(name, profile, nenv=6, m32=.25, envs=None, prep=None, opts=None, rule=None, **kw):
    """envs(rng, prog, i) gives the surroundings of run i; prep(rng, prog) may change the program"""
    def make(rng, ctx):
        p = build(rng, **profile(rng))
        if p is not None and prep:
            p = prep(rng, p)
        if p is None:
            return
        mode = modes(rng, m32)
        if opts:
            mode["opts"] = mode["opts"] + opts
        for i in range(nenv):
            yield dict(mode, prog=p, mode="exact", env=(envs or plain)(rng, p, i))
    return Family(name, make, judge_case, shrink, rule=rule or "a random program that is run in several fault-free surroundings (split "
                  "transfers, buffer sizes, allocator behaviour) and must do exactly what the model does", **kw)


WERR = [EIO, ENOSPC, EFBIG, EDQUOT]
OERR = [ENOENT, EACCES, EMFILE, ENFILE, ENOMEM, EROFS, EIO]


def choose(rng, ev, ops, pred=lambda e: True):
    """One of the events of these kinds, evenly over the kinds and paths: (op, path, nth)"""
    c = collections.defaultdict(int)
    for e in ev:
        if e[0] in ops and pred(e):
            c[e] += 1
    if not c:
        return None
    e = rng.choice(sorted(c))
    return e[0], e[1], rng.randint(1, c[e])


def write_fault(rng, ev, prog):
    """(faults, affected) of some failure to store output"""
    x = choose(rng, ev, ("write", "write", "close"), lambda e: e[1] not in ("<stdin>", "<stderr>", STDIN))
    if x is None:
        return None
    op, path, nth = x
    f = [[0, op, path, nth, "err", rng.choice(WERR), int(op == "write" and rng.random() < .6)]]
    if op == "write" and rng.random() < .4:
        # what fits is still taken
        f.insert(0, [0, "write", path, nth, "short", rng.randint(1, 40), 0])
        f[1][3] = nth + 1
    return f, [path]


def fault_family(name, profile, faults, nenv=10, m32=.2, **kw):
    def make(rng, ctx):
        p = build(rng, **profile(rng))
        if p is None:
            return
        mode = modes(rng, m32)
        env = benign(rng, rng.randrange(3))
        case = dict(mode, prog=p, mode="exact", env=env)
        yield case
        r, ev = baseline(ctx.rn, case)
        for _ in range(nenv):
            e = faults(rng, ev, p, dict(env, set=dict(env["set"])), r)
            if e:
                yield dict(mode, prog=p, mode="fault", env=e)
    return Family(name, make, judge_case, shrink, rule="a random program is run once without faults and then with failures "
                  "injected into operations that it is known to perform; it must either do all of its work or stop with a "
                  "message and a status that tells, having stored exactly what it should have by then", **kw)


# ---- C06
TYPED = dict(open=7, reopen=3, close=3, wt=10, wn=6, rt=8, g=3, pk=3, eof=3, ra=4, cpt=2, out=1)


def p06(rng):
    small = rng.random() < .7
    return dict(weights=TYPED, types=rng.sample(SMALL if small else ALLT, rng.randint(1, 3)), nfiles=(1, 3), nops=(8, 26),
                names=["a.dat", "b.dat", "c"], maxcomp=rng.choice([20, 60, 300] if small else [6]))


def two_runs(name, profile, nenv=4, **kw):
    """The same files are used by one program after another, each in its own process"""
    def make(rng, ctx):
        p = build(rng, **profile(rng))
        if p is None:
            return
        w = World(p).run()
        fs = {n: (w.fs[n].type, w.fs[n].data) for n in pas_visible(w)}
        if not fs:
            return
        q = None
        for _ in range(3):
            kw2 = profile(rng)
            g = Gen(rng, **kw2)
            types = sorted({t for t, _ in fs.values()})
            g.types = types
            g.wt = dict(g.wt, _reset=9)
            try:
                q = later(g, fs, rng)
            except Undefined:
                q = None
            if q:
                break
        if not q:
            return
        m1, m2 = modes(rng, 0), modes(rng, 0)
        for i in range(nenv):
            yield {"prog": p, "prog2": q, "opts": m1["opts"], "opts2": m2["opts"], "model": 64, "env": benign(rng, i)}

    def judge(ctx, case):
        rn = ctx.rn
        rn.model = case["model"]
        p, q = case["prog"], case["prog2"]
        so1 = compiled(rn, p, case["opts"])
        so2 = compiled(rn, q, case["opts2"])
        plan = mkplan(case, so1, case["env"])
        plan.node(so2, phase=1, nid=1)
        r = rn.run(plan)
        w = World(p).run()
        f = dict(r.phases[0])
        f.pop(STDIN, None)
        judge_exact(rn, w, r[0], f)
        fs = {n: (w.fs[n].type, w.fs[n].data) for n in pas_visible(w)}
        w2 = World(q, fs).run()
        f = {n: d for n, d in r.phases[1].items() if n != STDIN and not (w.tmp and n not in w2.fs)}
        judge_exact(rn, w2, r[1], f)
        return "both"

    def shr(case):
        for p in shrink_prog(case["prog"]):
            w = World(p).run()
            try:
                World(case["prog2"], {n: (w.fs[n].type, w.fs[n].data) for n in pas_visible(w)}).run()
            except (Undefined, KeyError, AttributeError, IndexError):
                continue
            yield dict(case, prog=p)
        w = World(case["prog"]).run()
        fs = {n: (w.fs[n].type, w.fs[n].data) for n in pas_visible(w)}
        for o in smaller_ops(case["prog2"]["ops"]):
            q = dict(case["prog2"], ops=o)
            try:
                World(q, fs).run()
            except (Undefined, KeyError, AttributeError, IndexError):
                continue
            yield dict(case, prog2=q)
        for e in shrink_env(case["env"]):
            yield dict(case, env=e)
    return Family(name, make, judge, shr, rule="two different programs, one after the other, on the same files", **kw)


def pas_visible(w):
    return [n for n in w.fs if not n.startswith("\0")]


def later(g, fs, rng):
    """A program that starts with these files"""
    p = g.prog
    for _ in range(rng.randint(*g.nfiles)):
        p["files"].append([rng.choice(g.types), rng.choice(g.where)])
    g.typed_names = {n: t for n, (t, d) in fs.items()}
    g.names = sorted(set(list(fs)[:4] + g.names[:1]))
    g.w = World(p, fs)
    g.fill(p["ops"], g.w, rng.randint(*g.nops), 0)
    if not p["ops"]:
        return None
    World(p, fs).run()
    return p


def compiled(rn, prog, opts, model=64):
    src = pas.emit(prog)
    so = rn.compile(src, opts, model)
    if so is None:
        raise Bad("the program does not compile", rn.why(src, opts, model)[:600])
    return so


C06 = [exact("typed", p06, quick=420, thorough=9000), two_runs("runs", p06, quick=110, thorough=2500)]

# ---- C07
TEXT = dict(open=7, reopen=3, close=3, w=12, wx=2, wv=4, r=14, ra=2, cp=1.5, eof=1, eoln=1, page=.3, out=1)


def p07(rng):
    fs0 = {n: ["text", stdin_text(rng, rng.choice([10, 60, 300, 1100]))] for n in ("a.txt", "b")[:rng.randrange(3)]} \
        if rng.random() < .4 else None
    return dict(weights=TEXT, types=["text"], nfiles=(1, 3), nops=(8, 26), vol=rng.choice([.2, 1, 1, 3]), fs0=fs0)


C07 = [exact("text", p07, quick=1500, thorough=30000), two_runs("runs", p07, quick=300, thorough=8000)]


# ---- deliveries of standard input
def chunks(rng, n, lines=None):
    """How n bytes are divided: lengths"""
    k = rng.randrange(6)
    out, left = [], n
    while left > 0:
        if k == 0:
            c = 1
        elif k == 1:
            c = rng.randint(1, 5)
        elif k == 2:
            c = rng.randint(1, 80)
        elif k == 3:
            c = rng.choice([1, 2, 511, 1023, 1024, 1025, 4095, 4096, 4097])
        elif k == 4:
            c = left
        else:
            c = rng.choice([1, 1, 2, 7, 100, 1000])
        c = min(c, left)
        out.append(c)
        left -= c
    return out


def delay(rng):
    return rng.choice([0, 0, 1000, 10**6, 10**8, 3 * 10**9, rng.randrange(10**10)])


def more(rng):
    """What is typed after the end of input, if anything"""
    return [[delay(rng), rng.choice(["\n", "7\n", "1 2 3 x 4\n5\n"])]] if rng.random() < .4 else []


def delivery(rng, prog, i):
    """Some way for standard input to arrive"""
    env = benign(rng, i)
    if i:
        n = len(prog["stdin"])
        c = chunks(rng, n)
        if len(c) > 1500:
            c = c[:1500]
        env["in"] = ["stream", rng.randrange(2), 0, [[0, delay(rng), x] for x in c], 0, delay(rng)]
        if sum(x[2] for x in env["in"][3]) == n:
            env["in"] += [1, n] + more(rng)
        if rng.random() < .3:
            env["out"] = ["sink", -1, 1]
    return env


# ---- C08
STDINW = dict(r=16, g=3, pk=3, eof=3, eoln=3, ra=1, cp=.6, w=3, out=2, open=1.5, close=.5, _in=.85)


def p08(rng):
    return dict(weights=STDINW, types=["text"], nfiles=(0, 2) if rng.random() < .6 else (1, 2), nops=(8, 30),
                stdin=stdin_text(rng, rng.choice([0, 3, 30, 100, 400, 1100, 2500, 5000])), vol=.3)


def sk(rng, p):
    """Skip part of standard input, so that what follows is elsewhere relative to the buffers"""
    n = len(p["stdin"])
    for m in rng.sample([1000, 1020, 1023, 1024, 2040, 2047, 4090, 4095], 4):
        if n > m + 20:
            q = dict(p, ops=[["sk", -2, m + rng.randrange(-3, 4), rng.randrange(4)]] + p["ops"])
            if defined(q):
                return q
    return p


def garbage(rng, n=None):
    n = n if n is not None else rng.choice([0, 1, 5, 30, 150, 600, 1500])
    k = rng.randrange(5)
    if k == 0:
        s = "".join(chr(rng.randrange(256)) for _ in range(n))
    elif k == 1:
        s = "".join(rng.choice("0123456789+-.eE \n\t") for _ in range(n))
    elif k == 2:
        s = "".join(rng.choice("ab \n\x00\xff\r\x1a\x7f") for _ in range(n))
    elif k == 3:
        s = stdin_text(rng, n)
        for _ in range(rng.randint(1, 8)):
            i = rng.randrange(len(s) + 1)
            s = s[:i] + rng.choice(["\xff", "\x00", "\x1a", "\x04", "\n", "\r\n", "99999999999999999999999", "-", "1e", "1.", "x" * 300]) \
                + s[i + rng.randrange(3):]
    else:
        s = "".join(word(rng, rng.choice([1, 19, 20, 21, 254, 255, 256, 700])) + rng.choice(["\n", "\n", " ", ""])
                    for _ in range(n // 50 + 1))
    # no exponents that take for ever
    return re.sub(r"([eE][-+]?[0-9]{3})[0-9]+", r"\1", s)


XK = "iiillrrccbSSTTUVABCDs"


def xprog(rng, ncond=1.0):
    """A program that reads whatever is there, and says what it got"""
    nf = rng.randrange(0, 3)
    p = {"files": [["text", rng.choice(gen.WHERE)] for _ in range(nf)], "ops": [], "stdin": garbage(rng), "fs0": {}, "marks": 1}
    o = p["ops"]
    fs = [-2, -2]
    for i in range(nf):
        p["fs0"]["g%d" % i] = ["text", garbage(rng)]
        o += [["assign", i, "g%d" % i, 0], ["reset", i]]
        fs.append(i)
    for _ in range(rng.randint(4, 14)):
        f = rng.choice(fs)
        k = rng.randrange(10)
        if k < 7:
            o.append(["xr", f, [[rng.choice(XK)] for _ in range(rng.randint(1, 3))], int(rng.random() < .4), rng.randrange(4),
                      int(rng.random() < ncond)])
        elif k == 7:
            o.append(["xl", f, rng.randrange(3), rng.choice([1, 5, 30])])
        elif k == 8:
            o.append(["eof", f])
        else:
            t = garbage(rng, rng.choice([1, 5, 30, 100]))[:250]
            o.append(["xs", t, [[rng.choice(XK)] for _ in range(rng.randint(1, 3))], rng.randrange(4)])
    return p


def shrink_wild(case):
    p = case["prog"]
    for o in smaller_ops(p["ops"]):
        yield dict(case, prog=dict(p, ops=o))
    for i, op in enumerate(p["ops"]):
        if op[0] in ("xr", "xs") and len(op[2]) > 1:
            for j in range(len(op[2])):
                yield dict(case, prog=dict(p, ops=p["ops"][:i] + [op[:2] + [op[2][:j] + op[2][j + 1:]] + op[3:]] + p["ops"][i + 1:]))
    for s2 in halves(p["stdin"]):
        yield dict(case, prog=dict(p, stdin=s2))
    for n in p["fs0"]:
        for s2 in halves(p["fs0"][n][1]):
            yield dict(case, prog=dict(p, fs0=dict(p["fs0"], **{n: ["text", s2]})))
    if len(case["envs"]) > 2:
        for i in range(1, len(case["envs"])):
            yield dict(case, envs=[case["envs"][0], case["envs"][i]])


def halves(s):
    k = len(s) // 2
    while k >= 1:
        for i in range(0, len(s) - k + 1, k):
            yield s[:i] + s[i + k:]
        k //= 2


def observed(r, nd):
    f = {n: d for n, d in r.files.items() if n != STDIN}
    return nd.ending, nd.stdout, bool(nd.stderr), f


def judge_wild(ctx, case):
    """The same in all surroundings; the guards around the targets are in order"""
    rn = ctx.rn
    rn.model = case["model"]
    so = compiled(rn, case["prog"], case["opts"], case["model"])
    first = None
    for env in case["envs"]:
        r = rn.run(mkplan(case, so, env))
        nd = r[0]
        sane(nd)
        if nd.val and not nd.stderr:
            raise Bad("exit status %d without a message" % nd.val)
        if b"GUARD" in nd.stdout:
            raise Bad("reading changed another variable", short(nd.stdout[max(0, nd.stdout.index(b"GUARD") - 60):], 300))
        o = observed(r, nd)
        if first is None:
            first = o
        elif o != first:
            for a, b, what in zip(first, o, ("ending", "output", "message", "files")):
                if a != b:
                    raise Bad("%s depends on how the input arrives" % what,
                              firstdiff(a, b) if isinstance(a, bytes) else "%s, then %s" % (str(a)[:300], str(b)[:300]))
    return "same"


def wild(name, ncond, nenv, **kw):
    def make(rng, ctx):
        p = xprog(rng, ncond)
        yield dict(modes(rng), prog=p, envs=[delivery(rng, p, i) for i in range(nenv)])
    return Family(name, make, judge_wild, shrink_wild, rule="arbitrary reads of arbitrary bytes, compared between deliveries", **kw)


C08 = [exact("stdin", p08, nenv=8, envs=delivery, prep=sk, quick=1300, thorough=30000,
             rule="a program that reads standard input, which arrives as a file, a terminal or a pipe, divided and delayed at "
                  "random"),
       exact("textfiles", lambda rng: dict(p07(rng), weights=dict(TEXT, pk=3, g=3, r=20)), quick=300, thorough=6000),
       wild("wild", .9, 5, quick=500, thorough=10000)]


# ---- C09
def dialogue(rng, prog, i):
    """A peer at a terminal that sends each line when it has seen everything up to the read that needs it"""
    env = benign(rng, i)
    w = World(prog).run()
    data = prog["stdin"].encode("latin1")
    at = dict(w.stdin.lines)
    starts = [0] + [j + 1 for j in range(len(data)) if data[j] == 10]
    if starts[-1] == len(data):
        starts.pop()
    ev = []
    slow = rng.random() < .5
    for k, b in enumerate(starts):
        if b not in at:
            break
        e = starts[k + 1] if k + 1 < len(starts) else len(data)
        if e == len(data) and data[-1:] != b"\n":
            # the end is what ends the last line
            pass
        aw = at[b]
        if e - b > 1 and rng.random() < .3:
            m = rng.randint(1, e - b - 1)
            ev.append([aw, delay(rng) if slow else 0, m])
            ev.append([0, delay(rng), e - b - m])
        else:
            ev.append([aw, delay(rng) if slow else 0, e - b])
    need_eof = len(data) in at or (data and data[-1:] != b"\n" and starts[-1] in at)
    open_end = data and data[-1:] != b"\n"
    env["in"] = ["stream", 1, 0 if need_eof else 1, ev, at.get(len(data), 0) if need_eof and not open_end else 0, delay(rng),
                 int(bool(need_eof)),
                 sum(x[2] for x in ev)]
    if env["in"][6] and env["in"][7] == len(data):
        env["in"] += more(rng)
    env["out"] = ["sink", -1, 1]
    if rng.random() < .25:
        # output goes elsewhere, and the peer sends on its own: still no line is asked for that is not needed
        env["in"][3] = [[0, d, n] for _, d, n in ev]
        env["in"][4] = 0
        env["out"] = ["sink", -1, 0]
    return env


TALK = dict(r=14, g=2, pk=1.5, eof=2, eoln=2.5, out=12, open=.5, w=1, close=.3, ra=.2, ws=.5, rs=.5, rw=.3, _in=.95)


def p09(rng):
    t = stdin_text(rng, rng.choice([20, 60, 150, 400]))
    if rng.random() < .9 and t and t[-1] != "\n":
        t += "\n"
    return dict(weights=TALK, types=["text"], nfiles=(0, 1) if rng.random() < .3 else (0, 0), nops=(6, 24), stdin=t, vol=.05)


C09 = [exact("dialogue", p09, nenv=6, envs=dialogue, quick=1500, thorough=30000,
             rule="a peer at a terminal sends each line only when it has seen all output that precedes the first read that needs "
                  "this line; the program must not wait for more than that")]


# ---- C10
OUTPUT = dict(open=7, reopen=2, close=3, w=9, wv=7, wt=7, wn=7, page=.3, out=3, outv=3, r=2, rt=2, cp=.5, cpt=.6,
              rec=.4, blk=.7, assign=.4)


def p10(rng):
    if rng.random() < .2:
        return dict(p15(rng), weights=dict(DIRECT, seekbad=0, out=1, assign=.2), end=END_NORMAL)
    return dict(weights=OUTPUT, types=rng.sample(["text", "text", "int", "rec", "odd3", "str", "tagd", "mat", "ns", "barr", "cset", "big", "huge"], 3) + ["text"],
                nfiles=(1, 3), nops=(5, 18), vol=rng.choice([.3, 1, 4, 10]), end=END_ALL if rng.random() < .4 else END_NORMAL,
                names=["a.txt", "b", "c.c"], maxcomp=300)


def f10(rng, ev, p, env, r):
    k = rng.random()
    if k < .2:
        w = World(p).run()
        # the disk fills up
        total = sum(len(d) for n, d in r.files.items() if n != STDIN) + len(p.get("stdin", ""))
        if not total:
            return None
        cap = rng.randrange(total)
        e = dict(env, set=dict(env["set"], disk=max(1, cap)), affected=["*"])
        return e
    if k < .3:
        # a program that opens files must not be started so: they would get the descriptor of standard output
        if b"" == r[0].stdout or any(e[0] == "open" for e in ev):
            return dict(env, faults=[[0, "write", "<stdout>", rng.randint(1, 3), "err", rng.choice(WERR), 1]],
                        affected=["<stdout>"])
        return dict(env, out=["closed"], affected=["<stdout>"])
    x = write_fault(rng, ev, p)
    if not x:
        return None
    return dict(env, faults=x[0], affected=x[1])


def out_file(rng, ev, p, env, r):
    """Standard output is a file"""
    n = len(r[0].stdout)
    if not n:
        return None
    return dict(env, out=["file", "\x01out"], set=dict(env["set"], disk=rng.randrange(1, n + 1)), affected=["*"])


def p10d(rng):
    """Direct access, mostly with buffers that hold little, so that much is written between two seeks"""
    return dict(p15(rng), weights=dict(DIRECT, seekbad=0, seek=20, wt=5, wn=10, rt=3, g=1, pk=1, eof=1, ask=3, out=1, assign=.2),
                end=END_NORMAL, nops=(8, 24))


def f10d(rng, ev, p, env, r):
    """A write that fails, and mostly succeeds when it is tried again"""
    if rng.random() < .3:
        return f10(rng, ev, p, env, r)
    env = dict(env, set=dict(env["set"], bufsz=rng.choice([16, 64, 64, 100, 256])))
    x = choose(rng, ev, ("write",), lambda e: e[1] not in ("<stdin>", "<stderr>", "<stdout>", STDIN))
    if not x:
        return None
    return dict(env, faults=[[0, "write", x[1], rng.randint(1, x[2] * 3), "err", rng.choice(WERR), int(rng.random() < .15)]], affected=[x[1]])


C10 = [fault_family("writes", p10, f10, quick=900, thorough=20000), fault_family("seeks", p10d, f10d, quick=1200, thorough=20000)]


# ---- C11
INPUTW = dict(open=8, openmissing=.6, reopen=4, close=3, w=5, wv=2, wt=4, wn=3, r=9, rt=6, ra=3, cp=2, cpt=1, g=2, pk=2, eof=3,
              eoln=2, out=4, rec=.3, blk=.8, _in=.4, _reset=9)


def p11(rng):
    return dict(weights=INPUTW, types=rng.sample(["text", "text", "int", "rec", "odd3", "str", "tagd", "earr", "ns", "wset", "big"], 2) + ["text"],
                nfiles=(1, 3), nops=(8, 24), vol=rng.choice([.3, 1, 3]), stdin=stdin_text(rng) if rng.random() < .6 else None,
                names=["a.txt", "b", "c.c"],
                fs0={n: ["text", stdin_text(rng, rng.choice([10, 300, 1100, 3000]))] for n in ("a.txt", "pre")[:rng.randrange(3)]})


def f11(rng, ev, p, env, r):
    k = rng.random()
    if k < .45:
        x = choose(rng, ev, ("read",), lambda e: e[1] != "<stdin>" or 1)
        if not x:
            return None
        op, path, nth = x
        f = [[0, "read", path, nth, "err", rng.choice([EIO, ESTALE, EISDIR, ENOMEM]), int(rng.random() < .5)]]
        if rng.random() < .4:
            f.insert(0, [0, "read", path, nth, "short", rng.randint(1, 50), 0])
            f[1][3] = nth + 1
        return dict(env, faults=f)
    if k < .8:
        x = choose(rng, ev, ("open",))
        if not x:
            return None
        op, path, nth = x
        return dict(env, faults=[[0, "open", path, nth, "err", rng.choice(OERR), int(rng.random() < .5)]])
    if k < .86:
        x = choose(rng, ev, ("malloc",))
        if not x:
            return None
        return dict(env, faults=[[0, "malloc", None, x[2], "err", ENOMEM, int(rng.random() < .5)]])
    if k < .93:
        return dict(env, fdlimit=rng.randint(3, 6))
    n = rng.choice(["a.txt", "b", "c.c"])
    if n in p["fs0"]:
        return dict(env, modes={n: 0})
    return dict(env, dirs=[n])


def p11d(rng):
    return dict(p15(rng), weights=dict(DIRECT, seekbad=0, seek=16, rt=12, open=8, reopen=4, ask=6, _reset=9, out=1, assign=.2))


C11 = [fault_family("reads", p11, f11, quick=900, thorough=20000), fault_family("seeks", p11d, f11, quick=500, thorough=15000)]



# ---- C12
KILLW = dict(open=8, reopen=3, close=4, w=9, wv=6, wt=6, wn=6, r=3, rt=3, ra=1, cp=1, cpt=.6, out=2, rec=.4, blk=.7, page=.2,
             assign=.5)


def p12(rng):
    return dict(weights=KILLW, types=rng.sample(["text", "text", "int", "rec", "odd3", "str", "tagd", "mat", "ns", "cset", "big", "char"], 2) + ["text"],
                nfiles=(1, 4), nops=(6, 22), vol=rng.choice([.3, 1, 4]), names=["a.txt", "b", "c.c", "d"],
                fs0={n: ["text", stdin_text(rng, rng.choice([10, 300, 3000]))] for n in ("a.txt", "pre")[:rng.randrange(3)]})


def judge_killed(ctx, case):
    """Kill the program, look at what survives, and run it (or another) again on that"""
    rn = ctx.rn
    rn.model = case["model"]
    prog = case["prog"]
    so = compiled(rn, prog, case["opts"], case["model"])
    plan = mkplan(case, so, case["env"])
    again = case.get("again")
    if again:
        plan.node(so, phase=1, nid=1, inp=("file", STDIN))
    r = rn.run(plan)
    nd = r[0]
    f0 = {n: d for n, d in r.phases[0].items() if n != STDIN}
    if nd.end == "killed":
        rn.st["fault:kill"] += 1
    if nd.end == "blocked":
        raise Bad("the program ended by blocked")
    lab = judge_kill(rn, prog, nd, f0)
    if again and nd.end == "killed":
        # the second run starts from what is there
        types = {n: "text" for n in f0}
        w = World(prog).run()
        for x in (World(prog).run(nd.marks), World(prog).run(nd.marks + 1)):
            for n, e in x.fs.items():
                if n in f0:
                    types[n] = e.type
        comps = rn.contents(f0, {n: t for n, t in types.items() if t != "text"})
        fs = {n: (types[n], comps[n] if n in comps else f0[n]) for n in f0}
        left = {n for n in f0 if n not in w.fs and n not in prog["fs0"]}
        for n in left:
            fs.pop(n)
        try:
            w2 = World(prog, fs).run()
        except Undefined:
            return lab + ", not judged again"
        f1 = {n: d for n, d in r.phases[1].items() if n != STDIN and n not in left}
        judge_exact(rn, w2, r[1], f1)
        return lab + " and run again"
    return lab


def f12(name, again, nenv=12, **kw):
    def make(rng, ctx):
        p = build(rng, **p12(rng))
        if p is None:
            return
        mode = modes(rng, .2)
        env = benign(rng, rng.randrange(3))
        case = dict(mode, prog=p, mode="exact", env=env)
        r, ev = baseline(ctx.rn, case)
        writes = [e for e in ev if e[0] == "write"]
        for _ in range(nenv):
            e = dict(env)
            k = rng.random()
            if k < .55 or not writes:
                e["kills"] = [[0, rng.randint(1, max(1, r.steps)), int(rng.random() < .3)]]
            else:
                x = choose(rng, ev, ("write", "open", "close", "read") if k < .9 else ("write",))
                if not x:
                    continue
                e["faults"] = [[0, x[0], x[1], x[2], "killmid" if x[0] == "write" and rng.random() < .6 else "kill",
                                rng.randint(0, 3000), 0]]
            yield dict(mode, prog=p, mode="kill", env=e, again=int(again))
    return Family(name, make, judge_killed, shrink, rule="a random program that is killed at a random step, or in the middle of "
                  "a transfer; the files must hold what the model says survives" + (", and the program is run again on them"
                                                                                 if again else ""), **kw)


C12 = [f12("kill", 0, quick=450, thorough=12000), f12("again", 1, quick=450, thorough=12000)]


# ---- C13
MANY = dict(open=12, reopen=6, close=3, w=6, wv=1, wt=6, wn=3, r=6, rt=6, ra=1, g=4, pk=4, eof=3, eoln=2, cp=.5, cpt=.6, rec=1.2,
            blk=2.5, cyc=.6, mny=.35, assign=1, out=.5, seek=.7, ask=.7)


def p13(rng):
    k = rng.random()
    ty = ["text"] + rng.sample(SMALL, rng.randint(1, 3)) if k < .8 else ["text"] if k < .9 else rng.sample(ALLT, 2)
    return dict(weights=MANY, types=ty, nfiles=(3, 10), nops=(14, 40), vol=.2, unnamed=rng.choice([.1, .5, .9]), maxcomp=10,
                names=["a", "b", "c", "d", "e", "f"])


def prefixed(prog, pre):
    """The same program with other names for its files"""
    def ren(op):
        if op[0] in ("assign", "bind"):
            return op[:2] + [pre + op[2]] + op[3:]
        if op[0] == "via":
            return ["via", ren(op[1])]
        if op[0] in ("cyc", "blk"):
            return op[:2] + [[ren(o) for o in op[2]]]
        return op
    return dict(prog, ops=[ren(o) for o in prog["ops"]], fs0={pre + n: v for n, v in prog["fs0"].items()})


def judge_together(ctx, case):
    rn = ctx.rn
    rn.model = case["model"]
    plan = Plan(case["env"]["seed"], case["model"]).set(**case["env"]["set"])
    for i, p in enumerate(case["progs"]):
        so = compiled(rn, p, case["opts"], case["model"])
        for n, (t, d) in p["fs0"].items():
            plan.file(n, d.encode("latin1"))
        plan.file(STDIN + str(i), p["stdin"].encode("latin1"))
        plan.node(so, inp=("file", STDIN + str(i)))
    for k in case["env"].get("kills", []):
        plan.kills.append(k)
    r = rn.run(plan)
    dead = [k[0] for k in case["env"].get("kills", [])]
    seen = {n: d for n, d in r.files.items() if not n.startswith(STDIN)}
    for i, p in enumerate(case["progs"]):
        w = World(p).run()
        pre = case["pre"][i]
        w.tmp = 1
        f = {n: d for n, d in seen.items() if n.startswith(pre)}
        if r[i].end == "killed" and i in dead:
            rn.st["fault:kill"] += 1
            continue
        judge_exact(rn, w, r[i], f)
    if not any(World(p).run().tmp for p in case["progs"]):
        for n in seen:
            if not any(n.startswith(x) for x in case["pre"]):
                raise Bad("unexpected file %r" % n)
    return "together"


def together(name, profile, nenv=5, kill=.2, **kw):
    def make(rng, ctx):
        ps, pre = [], []
        for i in range(rng.randint(2, 4)):
            p = build(rng, **profile(rng))
            if p:
                pre.append("%c_" % (97 + len(ps)))
                ps.append(prefixed(p, pre[-1]))
        if len(ps) < 2:
            return
        mode = modes(rng, .2)
        for _ in range(nenv):
            env = benign(rng, rng.randrange(3))
            env["set"]["stick"] = rng.choice([0, 0, 50, 90])
            # processes whose numbers have much in common
            env["set"]["pid0"] = rng.choice([2, 100, 4000, 32767, 65535, 99999, 1000000, 4000000, rng.randrange(2, 4 * 10**6)])
            env["set"]["pidd"] = rng.choice([1, 1, 10, 100, 256, 1000, 1024, 10000, 32768, 65536, 100000, 1000000])
            if rng.random() < kill:
                env["kills"] = [[rng.randrange(len(ps)), int(10 ** rng.uniform(0, 4)), 0]]
            yield dict(mode, progs=ps, pre=pre, env=env)

    def shr(case):
        if len(case["progs"]) > 2:
            for i in range(len(case["progs"])):
                if not case["env"].get("kills"):
                    yield dict(case, progs=case["progs"][:i] + case["progs"][i + 1:], pre=case["pre"][:i] + case["pre"][i + 1:])
        for i, p in enumerate(case["progs"]):
            for q in shrink_prog(p):
                yield dict(case, progs=case["progs"][:i] + [q] + case["progs"][i + 1:])
        for e in shrink_env(case["env"]):
            yield dict(case, env=e)
    return Family(name, make, judge_together, shr, rule="several programs at the same time in one directory, switched at "
                  "random system calls; each must do what it does alone", **kw)


C13 = [exact("many", p13, nenv=3, quick=1500, thorough=30000),
       together("together", lambda rng: dict(p13(rng), unnamed=.8, nfiles=(1, 3), nops=(5, 15)), quick=150, thorough=4000)]


# ---- C14
CYC = dict(open=9, reopen=4, close=5, w=5, wt=4, wn=2, r=3, rt=3, ra=1, eof=2, rec=1, blk=3, assign=2, g=1, pk=1, bind=.6, unb=.5,
           seek=.7, new=.0, list=.4, ws=.3, rs=.3, rw=.5, cp=.3, out=.3)


def p14(rng):
    return dict(weights=CYC, types=["text"] + rng.sample(SMALL, 2), nfiles=(1, 3), nops=(3, 10), vol=.1, unnamed=.6, maxcomp=4,
                names=["a", "b", "c"])


def judge_cycles(ctx, case):
    """Many times the same: as exact as few, and with no more descriptors and memory"""
    rn = ctx.rn
    rn.model = case["model"]
    res = []
    for n in case["n"]:
        p = dict(case["prog"], ops=case["prog"]["head"] + [["cyc", n, case["prog"]["body"]]])
        so = compiled(rn, p, case["opts"], case["model"])
        r = rn.run(mkplan(dict(case, prog=p), so, case["env"]))
        f = {k: d for k, d in r.files.items() if k != STDIN}
        w = World(p).run()
        judge_exact(rn, w, r[0], f)
        res.append(r[0])
    a, b = res
    if b.maxfd > a.maxfd:
        raise Bad("descriptors are used up: %d after %d rounds, %d after %d" % (a.maxfd, case["n"][0], b.maxfd, case["n"][1]))
    if b.maxlive > a.maxlive + 40 + len(str(case["n"][1])) * 8:
        raise Bad("memory is used up: %d blocks after %d rounds, %d after %d" % (a.maxlive, case["n"][0], b.maxlive, case["n"][1]))
    return "bounded"


def cycles(name, **kw):
    def make(rng, ctx):
        for _ in range(6):
            p = build(rng, **p14(rng))
            if not p:
                continue
            k = rng.randrange(0, len(p["ops"]))
            head, body = p["ops"][:k], p["ops"][k:]
            p = dict(p, head=head, body=body)
            hi = rng.choice([60, 400, 1100])
            try:
                # what grows with every round would take too long
                w = World(dict(p, ops=head + [["cyc", 4, body]])).run()
                w4 = len(w.out) + sum(len(e.data) for e in w.fs.values())
                w = World(dict(p, ops=head + [["cyc", 24, body]])).run()
                w24 = len(w.out) + sum(len(e.data) for e in w.fs.values())
                if (w24 - w4) / 20 * hi > 150000:
                    hi = 60
                if (w24 - w4) > 40000 or sum(len(e.data) for e in w.fs.values()) > 30000:
                    continue
                if w.tmp / 24 * hi > 2500:
                    hi = 60 if w.tmp < 24 * 40 else 30
                World(dict(p, ops=head + [["cyc", hi, body]])).run()
            except (Undefined, KeyError):
                continue
            mode = modes(rng)
            for i in range(2):
                env = benign(rng, i)
                env["set"]["cpums"] = 20000
                yield dict(mode, prog=p, n=[4, hi], env=env)
            return

    def shr(case):
        p = case["prog"]
        for part in ("body", "head"):
            for o in smaller_ops(p[part]):
                q = dict(p, **{part: o})
                if q["body"] and all(defined(dict(q, ops=q["head"] + [["cyc", n, q["body"]]])) for n in case["n"]):
                    yield dict(case, prog=q)
    return Family(name, make, judge_cycles, shr, rule="a random piece of program that uses files, repeated a few and many times; "
                  "the number of descriptors and of live heap blocks must not grow", **kw)


def limits(name, **kw):
    """More files open than there can be"""
    def make(rng, ctx):
        p = build(rng, **dict(p13(rng), nops=(6, 16), nfiles=(2, 6)))
        if not p:
            return
        w = World(p).run()
        mode = modes(rng, .15)
        big = rng.random() < .12
        if big:
            t = rng.choice(["text", "int"])
            p = dict(p, ops=p["ops"] + [["rec", rng.choice([900, 960, 996, 998, 1000, 1001, 1100]), t, 1, 5]])
            yield dict(mode, prog=p, mode="fault" if World(p).run().openmax > 900 else "exact", env=benign(rng, 1))
            return
        if w.openmax < 1:
            return
        env = benign(rng, 1)
        yield dict(mode, prog=p, mode="exact", env=dict(env, fdlimit=3 + w.openmax))
        for _ in range(3):
            yield dict(mode, prog=p, mode="fault", env=dict(env, fdlimit=rng.randint(3, 3 + w.openmax)))
    return Family(name, make, judge_case, shrink, rule="programs with as many files as descriptors, and with more", **kw)


C14 = [cycles("cycles", quick=450, thorough=10000), limits("limits", quick=350, thorough=8000)]


# ---- C15
DIRECT = dict(open=6, reopen=2, close=1.5, wt=8, wn=5, rt=8, g=3, pk=3, eof=3, ra=1, seek=14, ask=12, cpt=.5, seekbad=.3, assign=.3)


def p15(rng):
    return dict(weights=DIRECT, types=rng.sample(SMALL if rng.random() < .75 else ALLT, rng.randint(1, 2)), nfiles=(1, 3),
                nops=(12, 34), names=["a.dat", "b.dat"], maxcomp=rng.choice([5, 40, 200]))


C15 = [exact("direct", p15, quick=1800, thorough=40000), two_runs("runs", p15, quick=200, thorough=6000)]


# ---- C16
BIND = dict(open=7, openmissing=.1, reopen=3, close=2, w=4, r=3, wt=3, rt=3, ra=1.5, bind=7, unb=4, bq=10, assign=4, eof=1, blk=1,
            cyc=.4)


def p16(rng):
    return dict(weights=BIND, types=["text"] + rng.sample(SMALL, rng.randint(0, 1)), nfiles=(2, 6), nops=(12, 34), vol=.2, unnamed=.4,
                names=["a", "b.txt", "with space", "x" * rng.choice([1, 100, 254, 255]), "q'uote", "a ", " a", "a\t"], maxcomp=5)


C16 = [exact("bind", p16, nenv=4, quick=2000, thorough=40000)]


# ---- C17
HEAP = dict(new=14, chk=12, dis=8, setp=6, list=3, out=1, w=1, r=1, open=1.5, close=.7, wt=1, rt=1, blk=.5, rec=.3, ws=.5, rs=.5,
            rw=.7)


def p17(rng):
    return dict(weights=HEAP, types=["text"] + rng.sample(ALLT, rng.randint(2, 6)), nfiles=(0, 2), nops=(14, 50), vol=.2, maxcomp=4)


def e17(rng, prog, i):
    e = benign(rng, 1)
    e["set"]["reuse"] = rng.choice([0, 1, 2])
    return e


def f17(rng, ev, p, env, r):
    n = sum(1 for e in ev if e[0] == "malloc")
    if not n:
        return None
    if rng.random() < .3 and r[0].maxlive > 0:
        hi = max(64, r[0].livebytes if r[0].livebytes else 4096)
        return dict(env, memlimit=rng.randint(200, max(400, hi * 3)))
    return dict(env, faults=[[0, "malloc", None, rng.randint(1, n), "err", ENOMEM, int(rng.random() < .5)]])


C17 = [exact("heap", p17, nenv=4, envs=e17, quick=1300, thorough=30000),
       fault_family("exhausted", p17, f17, nenv=12, quick=500, thorough=12000)]


# ---- C19
ENDW = dict(open=7, reopen=2, close=2, w=7, wv=5, wt=5, wn=5, r=2, rt=2, out=6, outv=3, rec=.5, blk=1.2, page=.2, new=.5, list=.3)
END_RANGE = [["range", 0], ["range", 4, 3], ["range", -7, 10]]


def p19(rng):
    return dict(weights=ENDW, types=["text", "text"] + rng.sample(ALLT, 2), nfiles=(1, 5), nops=(4, 20), vol=rng.choice([.1, 1, 4]),
                end=END_ALL, maxcomp=100)


def within(rng, p):
    """The end comes inside a procedure, or a loop"""
    ops = p["ops"]
    if len(ops) < 2 or ops[-1][0] != "after":
        return p
    k = rng.random()
    e, a = ops[-2], ops[-1]
    n = 5000 + rng.randrange(100)
    body = [["rewrite", n], ["w", n, [["i", 5, None, None]], 1], ["w", -1, [["i", 17, 4, None]], int(rng.random() < .5)], e, a]
    if k < .3:
        q = dict(p, ops=ops[:-2] + [["blk", [[n, "text", rng.choice(["global", "field", "elem", "heap"])]], body], a])
    elif k < .45:
        q = dict(p, ops=ops[:-2] + [["cyc", 3, [["w", -1, [["s", "round", None, None]], 0], e, a]], a])
    else:
        return p
    return q if defined(q) else p


def range_end(rng, p):
    ops = p["ops"]
    if ops and ops[-1][0] == "after":
        ops = ops[:-2]
    e = rng.choice(END_RANGE)
    return within(rng, dict(p, ops=ops + [["end"] + e, ["after"]]))


def out_as(rng, prog, i):
    e = benign(rng, i)
    k = rng.randrange(4)
    if k == 1:
        e["out"] = ["sink", -1, 1]
    return e


C19 = [exact("ends", p19, nenv=4, envs=out_as, prep=within, quick=1500, thorough=30000),
       exact("range", p19, nenv=4, envs=out_as, prep=range_end, opts=["-Cr"], quick=350, thorough=8000),
       fault_family("faults", lambda rng: dict(p19(rng), nfiles=(1, 3)), f10, nenv=6, quick=200, thorough=5000)]


# ---- C21
STRW = dict(ws=10, wz=6, rs=12, rw=9, rn=4, w=5, r=5, open=5, reopen=2, close=2, out=2, eof=1, eoln=1, pk=1, g=1, cp=.4, wt=1, rt=1, wn=.5, new=.4,
            list=.3, rec=.3, blk=.8, cyc=.4)


def p21(rng):
    return dict(weights=STRW, types=["text", "text", rng.choice(SMALL)], nfiles=(0, 3), nops=(12, 36), vol=.3, maxcomp=5,
                stdin=stdin_text(rng) if rng.random() < .4 else None)


C21 = [exact("strings", p21, nenv=4, envs=e17, quick=1800, thorough=40000)]


# ---- C22
LOOK = dict(pk=14, eof=12, eoln=10, g=12, r=12, rt=8, ra=.6, reopen=1.5, open=3, sk=9, seek=.8, _in=.3)


def p22(rng):
    return dict(weights=LOOK, types=rng.sample(["text", "text", "text", "int", "char", "rec", "odd3", "str", "tagd", "ns", "barr"], 2) + ["text"],
                nfiles=(1, 3), nops=(14, 44), names=["t0", "t1", "b0"], maxcomp=rng.choice([3, 30, 300]),
                fs0={n: ["text", stdin_text(rng, rng.choice([0, 1, 20, 1020, 1024, 2046, 2050, 4094, 5000]))] for n in ("t0", "t1")},
                stdin=stdin_text(rng, rng.choice([5, 100, 1030, 4100])) if rng.random() < .5 else None)


def p22t(rng):
    """Typed files that are there to be read"""
    return dict(weights=dict(LOOK, wn=6, wt=3, sk=0, open=6), types=rng.sample(SMALL, 2), nfiles=(1, 2), nops=(14, 40),
                names=["b0", "b1"], maxcomp=rng.choice([3, 30, 300, 1100]))


C22 = [exact("look", p22, nenv=5, envs=delivery, quick=1500, thorough=30000),
       exact("typed", p22t, nenv=4, quick=400, thorough=8000)]


# ---- C23
ANY = dict(open=7, reopen=2, close=5, w=4, wt=4, r=3, rt=3, g=1, pk=1, eof=1, out=3, assign=2, blk=1, unb=.7, bind=.5, seek=.4, rec=.2)


def p23(rng):
    return dict(weights=ANY, types=["text", rng.choice(SMALL)], nfiles=(2, 5), nops=(3, 16), vol=.2, unnamed=.4, maxcomp=5)


def misuse_ops(rng, i, t):
    k = ["open", "eof", "close", "pk", "g"]
    if t == "text":
        o = [["w", i, gen.items(rng, rng.randint(1, 3)), int(rng.random() < .6)], ["w", i, [], 1], ["wl", i, 3, 4, 5, 6],
             ["page", i], ["r", i, [["i"]], 0], ["r", i, [["S"]], 1], ["r", i, [["c"]], 0], ["r", i, [["r", 2]], 0],
             ["r", i, [["A"]], 0], ["r", i, [["b"]], 0], ["r", i, [], 1], ["eoln", i], ["eof", i], ["close", i], ["g", i], ["pk", i]]
        if i == -1:
            o = [x for x in o if x[0] in ("r", "g", "eoln")]
        elif i == -2:
            o = [x for x in o if x[0] in ("w", "wl", "page")]
    else:
        o = [["wt", i, 5], ["wp", i, 6], ["wp", i, 7], ["wn", i, 3, 9], ["rt", i], ["g", i], ["eof", i], ["pos", i], ["lpos", i],
             ["emp", i], ["sr", i, 0], ["sw", i, 0], ["su", i, 0], ["close", i], ["pk", i]]
    return rng.choice(o)


def misuse(rng, p):
    """One operation that must not work, at the end of the program, of a procedure or in the second round of a loop"""
    for _ in range(12):
        ids = list(range(len(p["files"]))) + [-1, -2]
        i = rng.choice(ids)
        t = "text" if i < 0 else p["files"][i][0]
        op = misuse_ops(rng, i, t)
        k = rng.randrange(7)
        if k == 6 and i >= 0:
            # open or not, it has another file now
            pre = rng.choice([["unb", i], ["bind", i, "zz"], ["assign", i, "zz", rng.randrange(2)]])
            ops = p["ops"] + [pre, ["mis", op], ["after"]]
        elif k == 0 and i >= 0:
            # the first round leaves the file open, in the second it is a new variable
            n = 6000
            t = rng.choice([p["files"][i][0], "text"])
            op = misuse_ops(rng, n, t)
            ops = p["ops"] + [["blk", [[n, t, rng.choice(gen.WHERE)]], [["rewrite", n]]],
                              ["blk", [[n + 1, t, rng.choice(gen.WHERE)]], [["mis", op[:1] + [n + 1] + op[2:]]]], ["after"]]
        else:
            ops = p["ops"] + [["mis", op], ["after"]]
        q = dict(p, ops=ops)
        if defined(q) and World(q).run().marks < World(dict(q, harmless=1)).run().marks:
            return q
    return None


def judge_misuse(ctx, case):
    rn = ctx.rn
    rn.model = case["model"]
    prog = case["prog"]
    so = compiled(rn, prog, case["opts"], case["model"])
    r = rn.run(mkplan(case, so, case["env"]))
    nd = r[0]
    f = {n: d for n, d in r.files.items() if n != STDIN}
    sane(nd)
    if nd.val and not nd.stderr:
        raise Bad("exit status %d without a message" % nd.val)
    w = World(prog).run()
    if nd.val == 0:
        op = [o for o in flat(prog["ops"]) if o[0] == "mis"][0][1]
        if op[0] != "close":
            raise Bad("%s on a file that is not open so is not an error" % op[0], "%s stdout %s" % (op, short(nd.stdout[-80:])))
        w = World(dict(prog, harmless=1)).run()
    else:
        w.status = nd.val
        if b"AFTER" in nd.stdout:
            raise Bad("the error comes too late", short(nd.stdout[-80:]))
    judge_exact(rn, w, nd, f)
    return "error" if nd.val else "no effect"


def flat(ops):
    for o in ops:
        yield o
        if o[0] in ("blk", "cyc"):
            yield from flat(o[2])


def misuses(name, **kw):
    def make(rng, ctx):
        p = build(rng, **p23(rng))
        p = p and misuse(rng, p)
        if not p:
            return
        mode = modes(rng)
        for i in range(3):
            yield dict(mode, prog=p, env=benign(rng, i))

    def shr(case):
        for c in shrink(case):
            if [o for o in flat(c["prog"]["ops"]) if o[0] == "mis"]:
                yield c
    return Family(name, make, judge_misuse, shr, rule="a random program in which finally one operation is asked of a file that is "
                  "not open, or open the other way", **kw)


C23 = [misuses("misuse", quick=2000, thorough=40000)]


# ---- C24
LONG = dict(r=18, open=4, reopen=3, eof=1, eoln=1, rs=4, ra=.3, _in=.5)


def p24(rng):
    t = lambda: "".join(word(rng, rng.choice([1, 6, 7, 8, 19, 20, 21, 100, 254, 255, 256, 300, 1023, 1024, 1025])) +  # noqa
                        rng.choice(["\n", " "]) for _ in range(rng.randint(1, 8))) + "\n"
    return dict(weights=LONG, types=["text"], nfiles=(1, 2), nops=(8, 24), names=["t0", "t1"], fs0={n: ["text", t()] for n in ("t0", "t1")},
                stdin=t())


C24 = [exact("long", p24, nenv=4, envs=delivery, quick=700, thorough=15000), wild("guards", .8, 3, quick=1200, thorough=30000)]

from .clockfam import C18  # noqa: E402
from .modesfam import C20  # noqa: E402

ALL = {k: v for k, v in globals().items() if re.fullmatch(r"C\d\d", k)}
ASSUME = ["The simulated kernel behaves as POSIX describes for the calls that the runtime makes.",
          "The 64-bit and 32-bit object code runs under the simulator as it runs as a process: it is linked with the C "
          "library's stdio on simulated descriptors."]
