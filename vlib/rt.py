"""Running generated programs under simhost and judging what they did against the model."""
import collections, hashlib, json, os, random, re

from . import pas
from .pas import Ended, Undefined, World
from .sim import EACCES, EDQUOT, EFBIG, EIO, EISDIR, EMFILE, ENFILE, ENOENT, ENOMEM, ENOSPC, EROFS, ESTALE, Hosts, Plan

STDIN = "\x01stdin"     # where the bytes of standard input live in the simulated file system
OPTS64 = [["-O0"], ["-O1"], ["-O2"], ["-g", "-O0"], ["-g", "-O2"], []]


class Bad(Exception):
    """A property was violated: what, detail"""

    def __init__(self, what, detail=""):
        Exception.__init__(self, what)
        self.what, self.detail = what, detail


class Runner:
    """Compiles and runs; one per worker"""

    def __init__(self, kit, scratch):
        self.kit, self.scratch = kit, scratch
        os.makedirs(scratch, exist_ok=True)
        self.hosts = Hosts(kit)
        self.sos = collections.OrderedDict()
        self.dump = {}
        self.n = 0
        self.st = collections.Counter()
        self.keys = set()
        self.fail = {}
        self.model = 64     # of the program that is being judged

    def compile(self, src, opts, model=64):
        h = hashlib.sha256(repr((src, opts, model)).encode()).hexdigest()[:16]
        if h in self.sos:
            self.sos.move_to_end(h)
            return self.sos[h]
        if h in self.fail:
            return None
        d = os.path.join(self.scratch, "p")
        os.makedirs(d, exist_ok=True)
        f, so = os.path.join(d, "g.pas"), os.path.join(self.scratch, h + ".so")
        parts = src.split(pas.UNITMARK)
        for n, t in zip(("g.pas", "gu.pas"), parts):
            with open(os.path.join(d, n), "w", encoding="latin1") as o:
                o.write(t)
        ok, txt = self.kit.compile(f, so, opts, model)
        self.st["compilations"] += 1
        if not ok:
            self.fail[h] = txt
            return None
        self.sos[h] = so
        # the host keeps a limited number of images loaded
        while len(self.sos) > 24:
            _, old = self.sos.popitem(last=False)
            if os.path.exists(old) and old not in self.dump.values():
                os.unlink(old)
        return so

    def why(self, src, opts, model=64):
        return self.fail.get(hashlib.sha256(repr((src, opts, model)).encode()).hexdigest()[:16], "")

    def run(self, plan):
        r = self.hosts.run(plan)
        self.st["runs"] += 1
        if r.hosterror:
            self.st["hosterrors"] += 1
            raise HostError(str(r.raw)[:300])
        self.st["steps"] += r.steps
        self.st["simns"] += r.simns
        self.st["switches"] += r.switches
        self.keys.add(r.hash)
        return r

    def dumper(self, t):
        m = self.model
        if (t, m) not in self.dump:
            so = self.compile(pas.dumper(t), ["-O1"], m)
            if so is None:
                raise Bad("the program that reads a file of %s does not compile" % t, self.why(pas.dumper(t), ["-O1"], m))
            # not to be pushed out
            keep = os.path.join(self.scratch, "dump_%s%d.so" % (t, m))
            os.rename(so, keep)
            for k in [k for k, v in self.sos.items() if v == so]:
                del self.sos[k]
            self.dump[t, m] = keep
        return self.dump[t, m]

    def contents(self, files, types):
        """The components of the typed files: name -> list of lines, None when the reader fails"""
        by = collections.defaultdict(list)
        for n, t in types.items():
            if n in files:
                by[t].append(n)
        out = {}
        for t, names in by.items():
            p = Plan(1, self.model)
            for n in names:
                p.file(n, files[n])
            p.node(self.dumper(t), args=names)
            r = self.run(p)
            nd = r[0]
            parts = nd.stdout.split(b"---\n")
            for i, n in enumerate(names):
                if nd.ending != "exit:0" or len(parts) != len(names) + 1:
                    out[n] = ["unreadable: %s" % nd.ending]
                else:
                    out[n] = parts[i].split(b"\n")[:-1]
        return out

    def close(self):
        self.hosts.close()
        for so in list(self.sos.values()) + list(self.dump.values()):
            if os.path.exists(so):
                os.unlink(so)
        self.sos.clear()
        self.dump.clear()


class HostError(Exception):
    pass


# ------------------------------------------------------------------ plans
def stdin_plan(env, prog):
    data = prog.get("stdin", "").encode("latin1")
    k = env.get("in")
    if not k or k[0] == "file":
        return ("file", STDIN), data
    if k[0] == "stream":
        # ["stream", tty, hold, [[await, delay, length]...], eofawait, eofdelay]
        ev, at = [], 0
        for aw, dl, n in k[3]:
            if at >= len(data):
                break
            ev.append((aw, dl, data[at:at + n]))
            at += n
        if at < len(data) and len(k) < 7:
            ev.append((0, 0, data[at:]))
        # a peer that has no more to say, but does not go away
        if len(k) < 7 or k[6]:
            ev.append((k[4], k[5], "eof"))
            if k[1] and len(k) > 8 and (not data or data.endswith(b"\n")):
                # at a terminal, more can be typed after the end of input
                ev += [(0, k[8][0], k[8][1].encode("latin1")), (0, 0, "eof")]
        return ("stream", k[1], k[2], ev), None
    raise ValueError(k)


def mkplan(case, so, env, trace=0):
    prog = case["prog"]
    p = Plan(env.get("seed", 1), case.get("model", 64))
    p.set(**env.get("set", {}))
    if trace:
        p.set(trace=1)
    for n, (t, d) in prog.get("fs0", {}).items():
        p.file(n, d.encode("latin1"))
    for n in env.get("dirs", []):
        p.dirs.append((n, 0o700))
    for n, m in env.get("modes", {}).items():
        for f in p.files:
            if f[0] == n:
                f[1] = m
    inp, data = stdin_plan(env, prog)
    if data is not None:
        p.file(STDIN, data)
    kw = {}
    for k in ("memlimit", "fdlimit", "stack"):
        if k in env:
            kw[k] = env[k]
    if env.get("out"):
        kw["out"] = tuple(env["out"])
    p.node(so, inp=inp, **kw)
    for f in env.get("faults", []):
        p.fault(*f)
    for k in env.get("kills", []):
        p.kills.append(k)
    for j in env.get("tjumps", []):
        p.tjumps.append(j)
    return p


def benign(rng, i=0):
    """Surroundings in which everything works: transfers are split, buffers are small, memory is recycled"""
    s = {}
    if i:
        s["shortr"] = rng.choice([0, 0, 20, 60, 100])
        s["shortw"] = rng.choice([0, 0, 20, 60, 100])
        s["bufsz"] = rng.choice([0, 0, 0, 16, 64, 100, 512, 1024, 8192])
        s["reuse"] = rng.choice([0, 50, 100])
    return {"seed": rng.randrange(1, 10**9), "set": {k: v for k, v in s.items() if v}}


# ------------------------------------------------------------------ judging
def short(b, n=160):
    b = bytes(b)
    return repr(b if len(b) <= n else b[:n]) + ("..." if len(b) > n else "")


def firstdiff(a, b):
    """Where two byte strings differ, for people"""
    n = min(len(a), len(b))
    i = next((i for i in range(n) if a[i] != b[i]), n)
    return "at %d: expected %s, got %s" % (i, short(a[max(0, i - 20):i + 60]), short(b[max(0, i - 20):i + 60]))


def namestate(w, name):
    """(contents, open for writing, base, generation) of a file in the model"""
    e = w.fs.get(name)
    if e is None:
        return None
    op = [v for v in w.vars.values() if v.name == name and v.mode in ("write", "update")]
    base = op[0].base if op else 0
    return e.data, bool(op), base, w.gen.get(name, 0)


def visible(w):
    return [n for n in w.fs if not n.startswith("\0")]


def sane(nd):
    if nd.end != "exit":
        raise Bad("the program ended by %s" % nd.ending, "stdout %s stderr %s" % (short(nd.stdout[-200:]), short(nd.stderr)))
    if nd.memerr:
        raise Bad("the program damaged its memory", str(nd.memerr)[:300])


def judge_exact(rn, w, nd, files, types=None):
    sane(nd)
    if nd.stdout != bytes(w.out):
        raise Bad("wrong output", firstdiff(bytes(w.out), nd.stdout) + " stderr %s" % short(nd.stderr))
    if nd.val != w.status:
        raise Bad("exit status %d instead of %d" % (nd.val, w.status), short(nd.stderr))
    if w.msg and not nd.stderr:
        raise Bad("exit status %d without a message" % nd.val)
    if isinstance(w.msg, bytes) and w.msg not in nd.stderr:
        raise Bad("the message is missing", "%s instead of %s" % (short(nd.stderr), short(w.msg)))
    judge_files(rn, w, files)


def judge_files(rn, w, files, vis=None):
    types = {n: w.fs[n].type for n in visible(w) if w.fs[n].type != "text"}
    comps = rn.contents(files, types) if types else {}
    for n in visible(w):
        if n not in files:
            raise Bad("file %r is missing" % n)
        if n in types:
            if comps[n] != w.fs[n].data:
                raise Bad("wrong components in file %r" % n, "expected %s, got %s" % (w.fs[n].data[:30], comps[n][:30]))
        elif files[n] != bytes(w.fs[n].data):
            raise Bad("wrong contents of file %r" % n, firstdiff(bytes(w.fs[n].data), files[n]))
    extra(w, files)


def extra(w, files):
    if not w.tmp:
        for n in files:
            if n not in w.fs and n != STDIN:
                raise Bad("unexpected file %r" % n, short(files[n]))


def gapped(c, full):
    """full without one piece, or the beginning of that: what a failed transfer took with it"""
    i = next((i for i in range(min(len(c), len(full))) if c[i] != full[i]), min(len(c), len(full)))
    rest = bytes(c[i:])
    # (what precedes the gap may agree with what follows it for longer than it should)
    return not rest or any(bytes(full).find(bytes(c[k:]), k) >= 0 for k in range(max(0, i - 64), i + 1))


def allowed(c, m, n, strict):
    """Is c a possible content when the program stopped between states m and n?"""
    if c is None:
        return m is None
    if m is not None and not m[1] and (n is not None and n[3] == m[3]) and not n[1]:
        return c == m[0]
    if m is not None:
        if c == m[0]:
            return True
        if m[1] and not strict and m[2] is not None and len(c) >= m[2] and c == m[0][:len(c)]:
            return True
    if m is not None and n is not None and n[3] == m[3] and isinstance(c, list) and len(c) == len(m[0]) and any(
            c == n[0][:k] + m[0][k:] for k in range(len(c) + 1)):
        return True             # some of what overwrites
    if n is not None and c == n[0][:len(c)]:
        if m is not None and n[3] == m[3]:
            lo = len(m[0]) if strict or not m[1] else m[2] or 0
            return len(c) >= lo
        return len(c) >= (n[2] or 0) if n[1] else True
    return False


def judge_partial(rn, prog, nd, files, affected, strict, fs=None):
    """The program stopped early.  affected: paths that a write failure may have hit ('*': all), for which any prefix
    will do; strict: everything done before is stored."""
    m = World(prog, fs).run(nd.marks)
    n = World(prog, fs).run(nd.marks + 1)
    out_ok = strict and "*" not in affected and "<stdout>" not in affected
    direct = any('"%s"' % k in json.dumps(prog["ops"]) for k in ("sw", "su", "sr", "emp", "lpos", "pos"))
    o = nd.stdout
    if direct and affected:
        return m, n             # what is in a file changes what later operations find: only that it ends with an error counts
    lossy = [] if strict is False else affected
    if o != bytes(n.out[:len(o)]) and not ("<stdout>" in lossy and gapped(o, bytes(n.out))):
        raise Bad("output is not what was written", firstdiff(bytes(n.out[:len(o)]), o))
    if out_ok and len(o) < len(m.out):
        raise Bad("output made before is lost", "%d of %d bytes: %s" % (len(o), len(m.out), firstdiff(bytes(m.out), o)))
    names = set(visible(m)) | set(visible(n))
    types = {x: (n.fs.get(x) or m.fs.get(x)).type for x in names if (n.fs.get(x) or m.fs.get(x)).type != "text"}
    comps = rn.contents(files, types) if types else {}
    for x in sorted(names):
        sm, sn = namestate(m, x), namestate(n, x)
        c = comps.get(x) if x in types else files.get(x)
        if x not in types:
            sm, sn = [s and (bytes(s[0]),) + s[1:] for s in (sm, sn)]
        st = strict and "*" not in affected and x not in affected
        if not st and ("*" in lossy or x in lossy) and c is not None and sn is not None and not allowed(c, sm, sn, st):
            if x in types or gapped(c, sn[0]):
                continue
        if not allowed(c, sm, sn, st):
            raise Bad("file %r does not hold %s" % (x, "what was written" if st else "a prefix of what was written"),
                      "has %s; before the interrupted operation %s; after it %s" % tuple(
                          "nothing" if s is None else ("%d " % len(s)) + (short(s) if isinstance(s, bytes) else str(s[:20]))
                          for s in (c, sm and sm[0], sn and sn[0])))
    n.tmp = max(n.tmp, m.tmp)
    extra(n, {k: v for k, v in files.items() if k not in m.fs})
    return m, n


def judge_fault(rn, prog, nd, files, affected, strict=True):
    sane(nd)
    w = World(prog).run()
    try:
        judge_exact(rn, w, nd, files)
        return "absorbed"
    except Bad as b:
        if nd.val == 0:
            raise Bad("the failure was silent: status 0, but " + b.what, b.detail)
    if not nd.stderr:
        raise Bad("exit status %d without a message" % nd.val)
    judge_partial(rn, prog, nd, files, affected, strict)
    return "reported"


def judge_kill(rn, prog, nd, files):
    if nd.end == "killed":
        judge_partial(rn, prog, nd, files, (), False)
        return "killed"
    judge_exact(rn, World(prog).run(), nd, files)
    return "finished"


# ------------------------------------------------------------------ cases
def run_case(rn, case, prep=False):
    """Run a case and judge it: returns a label, raises Bad"""
    prog = case["prog"]
    src = pas.emit(prog)
    opts, model = case.get("opts", ["-O1"]), case.get("model", 64)
    rn.model = model
    so = rn.compile(src, opts, model)
    if so is None:
        raise Bad("the program does not compile", rn.why(src, opts, model)[:600])
    env = case["env"]
    plan = mkplan(case, so, env)
    r = rn.run(plan)
    case["_r"] = r
    if prep:
        return r
    nd = r[0]
    for f, fired in zip(env.get("faults", []), r.faults):
        if fired:
            rn.st["fault:%s/%s" % (f[1], f[4])] += 1
    files = dict(r.files)
    files.pop(STDIN, None)
    mode = case["mode"]
    if mode == "exact":
        judge_exact(rn, World(prog).run(), nd, files)
        return "exact"
    if mode == "fault":
        lab = judge_fault(rn, prog, nd, files, env.get("affected", []), env.get("strict", 1))
    elif mode == "kill":
        lab = judge_kill(rn, prog, nd, files)
        if nd.end == "killed":
            rn.st["fault:kill"] += 1
    else:
        raise ValueError(mode)
    rn.st["outcome:" + lab] += 1
    return lab


def baseline(rn, case):
    """Run without faults, judge exactly, and return what happens when: [(op, path)]"""
    c = dict(case, mode="exact", env={"seed": case["env"].get("seed", 1), "set": case["env"].get("set", {}),
                                      **{k: v for k, v in case["env"].items() if k in ("in", "out")}})
    src = pas.emit(c["prog"])
    rn.model = c.get("model", 64)
    so = rn.compile(src, c.get("opts", ["-O1"]), c.get("model", 64))
    if so is None:
        raise Bad("the program does not compile", rn.why(src, c.get("opts", ["-O1"]), c.get("model", 64))[:600])
    r = rn.run(mkplan(c, so, c["env"], trace=1))
    files = dict(r.files)
    files.pop(STDIN, None)
    judge_exact(rn, World(c["prog"]).run(), r[0], files)
    ev = []
    for l in r.trace.split("\n"):
        w = l.split(" ", 2)
        if len(w) == 3:
            m = re.match(r"(.*) (-?\d+) (-?\d+) (\d+)$", w[2])
            ev.append((w[1], m.group(1) if m else ""))
    return r, ev
