"""C20: the same program in the same surroundings, built in all ways, must show the same history."""
import copy, glob, json, os, random

from . import ctl, pas
from .build import REPO
from .drive import Family
from .pas import World
from .rt import (OPTS64, STDIN, Bad, baseline, benign, firstdiff, judge_exact, judge_fault, judge_kill, mkplan, sane, short)
from .sim import Plan

M64 = [[64, o] for o in OPTS64]
M32 = [[32, ["-O0"]], [32, ["-O2"]], [32, ["-g", "-O0"]]]


def compiled(rn, src, opts, model):
    rn.model = model
    so = rn.compile(src, opts, model)
    if so is None:
        raise Bad("the program does not compile with %s for %d bit" % (" ".join(opts), model), rn.why(src, opts, model)[:600])
    return so


def history(r):
    nd = r[0]
    return {"end": nd.ending, "stdout": nd.stdout, "stderr": nd.stderr,
            "files": {n: d for n, d in r.files.items() if n != STDIN}}


def compare(a, b, what, stderr=True):
    for k in ("end", "stdout", "stderr"):
        if a[k] != b[k] and (k != "stderr" or stderr):
            raise Bad("build modes differ in %s: %s" % ({"end": "how the program ends"}.get(k, k), what),
                      "%s / %s" % (a[k], b[k]) if k == "end" else firstdiff(a[k], b[k]) + " ends %s / %s" % (a["end"], b["end"]))
    if sorted(a["files"]) != sorted(b["files"]):
        raise Bad("build modes differ in which files there are: %s" % what, "%s / %s" % (sorted(a["files"]), sorted(b["files"])))
    for n in a["files"]:
        if a["files"][n] != b["files"][n]:
            raise Bad("build modes differ in the contents of file %r: %s" % (n, what), firstdiff(a["files"][n], b["files"][n]))


def across(rn, case, runs, portable, typed=()):
    """runs: [(model, opts, history)].  Those of one model must agree in everything; with portable data, all."""
    first = {}
    for m, o, h in runs:
        k = 0 if portable else m
        if k not in first:
            first[k] = (m, o, h)
            continue
        m0, o0, h0 = first[k]
        # (the parts of components that hold nothing are not defined)
        for n in typed:
            if n in h["files"] and n in h0["files"] and len(h["files"][n]) == len(h0["files"][n]):
                h["files"][n] = h0["files"][n]
        compare(h0, h, "%d bit %s, %d bit %s" % (m0, " ".join(o0) or "default", m, " ".join(o) or "default"), stderr=m == m0)


# ------------------------------------------------------------------ programs of pas.py, with faults
def judge_files(ctx, case):
    rn = ctx.rn
    prog = case["prog"]
    src = pas.emit(prog)
    runs = []
    for m, o in case["modes"]:
        so = compiled(rn, src, o, m)
        r = rn.run(mkplan(dict(case, model=m), so, case["env"]))
        for f, fired in zip(case["env"].get("faults", []), r.faults):
            if fired:
                rn.st["fault:%s/%s" % (f[1], f[4])] += 1
        h = history(r)
        nd = r[0]
        texts = {n for n, e in World(prog).run().fs.items() if e.type == "text"}
        # and with what the program means
        if case["mode"] == "exact":
            judge_exact(rn, World(prog).run(), nd, h["files"])
        elif case["mode"] == "fault":
            judge_fault(rn, prog, nd, h["files"], case["env"].get("affected", []), case["env"].get("strict", 1))
        else:
            judge_kill(rn, prog, nd, h["files"])
            if nd.end == "killed":
                rn.st["fault:kill"] += 1
        runs.append((m, o, h))
    portable = all(t == "text" for t, _ in prog["files"]) and not prog_typed(prog) and "memlimit" not in case["env"]
    across(rn, case, runs, portable, {n for h in runs for n, d in h[2]["files"].items() if n not in texts})
    return case["mode"]


def prog_typed(prog):
    s = json.dumps(prog["ops"])
    return any(k in s for k in ('"wt"', '"wn"', '"rec"', '"blk"', '"new"', '"list"', '"cpt"', '"rt"'))


# ------------------------------------------------------------------ control flow
def judge_src(ctx, case):
    rn = ctx.rn
    for env in case["envs"]:
        runs = []
        for m, o in case["modes"]:
            so = compiled(rn, case["src"], o, m)
            p = Plan(env.get("seed", 1), m)
            p.set(**env.get("set", {}))
            data = env.get("stdin", "").encode("latin1")
            if env.get("chunks"):
                at, ev = 0, []
                for n in env["chunks"]:
                    if data[at:at + n]:
                        ev.append((0, 1000, data[at:at + n]))
                    at += n
                if data[at:]:
                    ev.append((0, 0, data[at:]))
                inp = ("stream", 0, 0, ev + [(0, 0, "eof")])
            else:
                p.file(STDIN, data)
                inp = ("file", STDIN)
            for n, d in case.get("fs0", {}).items():
                p.file(n, d.encode("latin1"))
            p.node(so, inp=inp, args=case.get("args", []))
            for f in env.get("faults", []):
                p.fault(*f)
            for k in env.get("kills", []):
                p.kills.append(k)
            r = rn.run(p)
            for f, fired in zip(env.get("faults", []), r.faults):
                if fired:
                    rn.st["fault:%s/%s" % (f[1], f[4])] += 1
            if r[0].end == "killed":
                rn.st["fault:kill"] += 1
            elif not case.get("anyend"):
                sane(r[0])
            runs.append((m, o, history(r)))
        across(rn, case, runs, case.get("portable", 0))
    return "same"


def ctl_env(rng, i):
    e = benign(rng, i)
    e["stdin"] = "".join("%d%s" % (rng.choice([0, 1, 7, -3, 100, 32767, rng.randrange(-10**6, 10**6)]), rng.choice(["\n", "\n", " 5\n"]))
                         for _ in range(rng.randint(0, 30)))
    if rng.random() < .4:
        e["chunks"] = [rng.choice([1, 2, 3, 10]) for _ in range(20)]
    k = rng.random()
    if k < .25:
        e["faults"] = [[0, "write", rng.choice(["tf.txt", "nf.dat", "<stdout>", None]), rng.randint(1, 3), "err", rng.choice([5, 28]), 1]]
    elif k < .4:
        e["kills"] = [[0, rng.randint(1, 60), rng.randrange(2)]]
    elif k < .5:
        e["faults"] = [[0, "malloc", None, rng.randint(1, 6), "err", 12, rng.randrange(2)]]
    elif k < .55:
        e["faults"] = [[0, "open", rng.choice(["tf.txt", "nf.dat"]), 1, "err", 13, 0]]
    elif k < .65:
        e["faults"] = [[0, "read", None, rng.randint(1, 2), "err", 5, 1]]
    return e


def make_ctl(rng, ctx):
    src = ctl.program(rng) if rng.random() < .7 else ctl.closures(rng)
    ms = rng.sample(M64, 3) + rng.sample(M32, 1)
    if not any("-O0" in o for m, o in ms[:3]):
        ms[0] = [64, ["-O0"]]
    yield {"src": src, "modes": ms, "envs": [ctl_env(rng, i) for i in range(4)], "portable": 0}


def shrink_src(case):
    for i in range(len(case["envs"])):
        if len(case["envs"]) > 1:
            yield dict(case, envs=[case["envs"][i]])
    if len(case["modes"]) > 2:
        for i in range(len(case["modes"])):
            for j in range(i):
                yield dict(case, modes=[case["modes"][j], case["modes"][i]])
    for i, e in enumerate(case["envs"]):
        for k in ("faults", "kills", "chunks"):
            if e.get(k):
                yield dict(case, envs=case["envs"][:i] + [{a: b for a, b in e.items() if a != k}] + case["envs"][i + 1:])


# ------------------------------------------------------------------ the programs that come with the compiler
# Excluded: those that take long, are given parameters, or print what ISO Pascal leaves undefined.
SKIP = {"dhry", "whet", "param", "randtest", "time", "size", "mt", "typeof", "linefile"}
STDINS = {"hungrymouse": "hungrymouse.txt", "hist": "hist.pas", "case2": "case2.in", "recursion": "recursion.txt",
          "test20": "test20.in", "test21": "test21.in", "qsort": "numbers.txt", "calcwords": "word-list.txt", "general": "general.in",
          "minmax": "minmax.in", "sign": "sign.in", "course": "course.in", "readchars": "readchars.txt", "gol": "gol.txt",
          "readbool": "readbool.txt"}


def suite():
    d = os.path.join(REPO, "test", "Basic")
    out = []
    for p in sorted(glob.glob(os.path.join(d, "*.pas"))):
        n = os.path.basename(p)[:-4]
        src = open(p, encoding="latin1").read()
        if n in SKIP or "uses" in src.lower() or not src.lower().lstrip().startswith(("program", "{", "(*", "//")) or "\nunit" in src.lower():
            continue
        i = os.path.join(d, STDINS.get(n, "-"))
        out.append((n, src, open(i, encoding="latin1").read() if os.path.exists(i) else ""))
    return out


def make_suite(rng, ctx):
    s = suite()
    if not s:
        return
    n, src, stdin = rng.choice(s)
    ms = rng.sample(M64, 2) + rng.sample(M32, 1)
    envs = []
    for i in range(3):
        e = ctl_env(rng, i)
        e["stdin"] = stdin
        e["set"]["cpums"] = 10000
        envs.append(e)
    yield {"name": n, "src": src, "modes": ms, "envs": envs, "portable": 0, "anyend": 1}


# ------------------------------------------------------------------ generated programs that use files
def make_files(rng, ctx):
    from . import props
    k = rng.random()
    if k < .3:
        prof = props.p06(rng)
    elif k < .55:
        prof = props.p07(rng)
    elif k < .7:
        prof = props.p17(rng)
    elif k < .8:
        prof = props.p15(rng)
    elif k < .9:
        prof = props.p21(rng)
    else:
        prof = props.p13(rng)
    p = props.build(rng, **prof)
    if p is None:
        return
    ms = rng.sample(M64, 2) + rng.sample(M32, rng.choice([1, 1, 2]))
    if k % .1 < .03:
        # what is defined in one is defined in all; the others see more of one thing
        ms = rng.sample(M64, 4)
    env = benign(rng, rng.randrange(3))
    case = {"prog": p, "modes": ms, "mode": "exact", "env": env}
    yield case
    r, ev = baseline(ctx.rn, dict(case, model=64, opts=["-O1"]))
    if any('"%s"' % o in json.dumps(p["ops"]) for o in ("su", "sw", "sr")):
        return              # (how far an update in place had come when it was interrupted is left open)
    for i in range(2):
        e = dict(env, set=dict(env["set"]))
        x = rng.choice([props.f10, props.f11])(rng, ev, p, e, r)
        if x and not any(f[1] == "malloc" for f in x.get("faults", [])):
            yield dict(case, mode="fault", env=x)
    yield dict(case, mode="kill", env=dict(env, kills=[[0, rng.randint(1, max(2, r.steps)), rng.randrange(2)]]))


def shrink_files(case):
    from . import props
    for i in range(len(case["modes"])):
        if len(case["modes"]) > 2:
            yield dict(case, modes=case["modes"][:i] + case["modes"][i + 1:])
    for p in props.shrink_prog(case["prog"]):
        yield dict(case, prog=p)
    for e in props.shrink_env(case["env"]):
        yield dict(case, env=e)


C20 = [Family("control", make_ctl, judge_src, shrink_src, quick=330, thorough=6000,
              rule="a random program of control flow, records, sets, strings and nested routines; all build modes must do the same "
                   "under the same schedule of input, faults and kill"),
       Family("files", make_files, judge_files, shrink_files, quick=220, thorough=5000,
              rule="a random program using files, run by every chosen build mode under the same faults or kill; each is judged "
                   "against the model and all against each other"),
       Family("suite", make_suite, judge_src, shrink_src, quick=90, thorough=1500,
              rule="a program from test/Basic, run by several build modes under the same input, faults and kill")]
