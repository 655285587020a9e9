"""Checks C01 to C05: the compiler itself under simulation."""
import errno, json, random, re

from .cc import CPlan, DEFENV
from .ccfam import (EXEOPTS, IROPTS, OPTS, UNIT, USER, corpus, events, generated, good, made, outputs, put, smaller_text, source,
                    text)
from .drive import Family
from .rt import Bad

ASSUME = ["system calls happen one at a time, in the order the scheduler chose; nothing happens between two of them",
          "the stand-in for clang reads its arguments as clang does and fails where clang would",
          "LLVM's own code is deterministic for given input where the simulator has fixed memory, clock and environment"]
ICE = (b"Internal compiler error", b"LLVM ERROR")
STDOPT = [[], [], [], ["-std=iso7185"], ["-std=iso10206"], ["-Cr"], ["-g"], ["-O0"], ["-m32"]]


def lit(x):
    """Bytes as they are kept in cases"""
    return x if isinstance(x, str) else x.decode("latin1")


# ------------------------------------------------------------------ the structure of a source text
LEX = re.compile(r"""(?P<c>\{[^}]*\}?|\(\*.*?(?:\*\)|$(?![\s\S]))|//[^\n]*)|(?P<s>'[^'\n]*'?|"[^"\n]*"?)|(?P<w>[A-Za-z_]\w*)"""
                 r"""|(?P<n>\d[\w]*|\$[0-9a-fA-F]+)|(?P<b>\s+)|(?P<p>\.\.|:=|<>|<=|>=|><|\*\*|\(\.|\.\)|[^\w\s])""", re.S)


def lex(t):
    """[(kind, text, position)]"""
    return [(m.lastgroup, m.group(), m.start()) for m in LEX.finditer(t)]


def finaldot(t):
    """Where the full stop of the final end is, if nothing but blanks and comments follows it, or -1"""
    k = [x for x in lex(t) if x[0] not in "cb"]
    if len(k) < 3 or k[-1][1] != "." or k[-2][1].lower() != "end":
        return -1
    return k[-1][2]


def intact(files):
    return all(finaldot(t) >= 0 for t in files.values())


def comments(rng, t):
    """The same program with comments of all kinds between its tokens"""
    at = [p for k, x, p in lex(t) if k == "b" and len(x) < 200]
    for p in sorted(rng.sample(at, min(len(at), rng.choice([1, 2, 5, 20]))), reverse=True):
        c = "".join(rng.choice(["it's", "*", "(", ")", " ", "end.", "begin", "**", "/", "\"", ";", "x", "\xe6", "..", ":="])
                    for _ in range(rng.choice([0, 1, 2, 5, 30])))
        k = rng.randrange(3)
        e = "// %s\n" % c if k == 0 else "{%s}" % c if k == 1 else "(*%s *)" % c.replace("*)", "*").replace("*", "*-")
        t = t[:p] + " " + e + t[p:]
    return t


def anysource(rng, errors=.1):
    """Sources that are worth damaging: ({file: text}, main)"""
    files, main = anysource0(rng, errors)
    if rng.random() < .03:
        # a program that does nothing
        t, d = files[main], finaldot(files[main])
        b = [p for k, w, p in lex(t) if k == "w" and w.lower() == "begin"]
        e = [x for x in lex(t[:max(0, d)]) if x[0] not in "cb"]
        if d >= 0 and b and re.match(r"(?i)\s*program\b", t):
            last, n = None, 0
            for k, w, p in reversed(e):
                w = w.lower()
                n += (w in ("end",)) - (w in ("begin", "case", "record"))
                if n == 0:
                    last = p if w == "begin" else None
                    break
            if last is not None:
                files = dict(files, **{main: t[:last] + "begin\nend" + t[d:]})
    if rng.random() < .3:
        files = {n: comments(rng, t) if sum(map(len, files.values())) < 20000 else t for n, t in files.items()}
    return files, main


def anysource0(rng, errors):
    if rng.random() < .6:
        c = corpus()
        n = rng.choice(sorted(c))
        files, main = c[n]
        if sum(map(len, files.values())) < 7000 or rng.random() < .15:
            files = dict(files)
            if len(files) == 1:
                files = {"p.pas": files[main]}
                main = "p.pas"
            return files, main
    return source(rng, .25)


# ------------------------------------------------------------------ C01
def verdict1(r, node=0):
    """How a compilation ended; Bad if it may not end so, whatever the source"""
    n = r[node]
    if n.end == "work":
        raise Bad("the compiler does not stop", "it was stopped after too much work (%s): %s" % (n.work, n.site[:200]))
    if n.end == "signal":
        if n.val == 6 and any(k in n.stderr for k in ICE):
            return "ice"
        raise Bad("the compiler crashes with signal %d" % n.val, "%s\n%s" % (n.site[:300], text(n.stderr)))
    if n.end != "exit" or n.val not in (0, 1):
        raise Bad("the compiler ends with %s" % n.ending, text(n.stderr))
    if n.val and not n.stderr.strip():
        raise Bad("refused without a diagnostic", "status %d and nothing on standard error" % n.val)
    return "accepted" if n.ok else "refused"


def refused(v, r, why):
    if v == "accepted":
        raise Bad("a source that %s is accepted" % why, "status 0; standard error: " + text(r[0].stderr))
    if v == "ice":
        raise Bad("internal compiler error for a source that %s" % why, text(r[0].stderr))


def plan1(case):
    p = CPlan(case.get("seed2", 1)).set(hashonly=1, trace=1)
    put(p, case["files"])
    p.node(list(case["opts"]) + [case["main"]], layout=case.get("layout", 1))
    for f in case.get("faults", []):
        p.fault(*f)
    for k in ("shortr",):
        if case.get(k):
            p.set(**{k: case[k]})
    return p


def judge_cut(ctx, case):
    files = dict(case["files"])
    n = case["cut"]
    files[n] = files[n][:case["at"]]
    r = ctx.cc.run(plan1(dict(case, files=files)))
    refused(verdict1(r), r, "ends before its final end")
    return "refused"


def make_cut(rng, ctx):
    files, main = anysource(rng)
    if not intact(files):
        return
    n = rng.choice(sorted(files))
    d = finaldot(files[n])
    toks = [x for x in lex(files[n]) if x[0] != "b" and x[2] <= d]
    opts = ["-emit=llvm"] + rng.choice(STDOPT)
    at = set()
    for i in range(5):
        at.add(rng.randrange(d + 1))
    for i in range(5):
        k, s, p = rng.choice(toks)
        at.add(min(d, p + rng.randrange(len(s) + 1)))
    c = [x for x in toks if x[0] == "c" and len(x[1]) > 2]
    if c:
        k, s, p = rng.choice(c)
        at.add(min(d, p + rng.randrange(2, len(s) + 1)))
    at.add(d - rng.choice([0, 0, 1, 2, 3]))
    for a in sorted(at):
        yield {"files": files, "main": main, "opts": opts, "cut": n, "at": max(0, a), "layout": rng.randint(1, 9)}


def shrink_cut(case):
    f = case["files"]
    kept = f[case["cut"]][:case["at"]]
    for k in (1, 0):
        for s in smaller_text(kept):
            if k:
                yield dict(case, files=dict(f, **{case["cut"]: s + f[case["cut"]][case["at"]:]}), at=len(s))
    yield from shrink_opts(case)


def shrink_opts(case):
    for i in range(len(case["opts"])):
        yield dict(case, opts=case["opts"][:i] + case["opts"][i + 1:])
    for n in case["files"]:
        if n != case["main"] and n != case.get("cut"):
            yield dict(case, files={k: v for k, v in case["files"].items() if k != n})


def judge_readfail(ctx, case):
    r = ctx.cc.run(plan1(case))
    v = verdict1(r)
    ev = events(r)
    got, failed = {}, {}
    size = {n: len(t) for n, t in case["files"].items()}
    for op, path, n, act, arg in ev:
        if op == "open":
            got[path] = 0
        if op == "read":
            if act == 1 and arg != errno.EINTR:
                failed.setdefault(path, got.get(path, 0))
            elif act in (0, 2):
                got[path] = got.get(path, 0) + max(0, min(n if act == 0 else arg, size.get(path, 0) - got.get(path, 0)))
    for path, at in failed.items():
        if path in case["files"] and at <= finaldot(case["files"][path]):
            refused(v, r, "becomes unreadable before its final end")
    if not failed:
        # interrupted calls and short transfers are no failures
        b = ctx.cc.alone(case["files"], case["main"], case["opts"])
        if verdict1(b) != v or made(r, case["files"]) != made(b, case["files"]):
            raise Bad("an interrupted read changes the result", "%s instead of %s\n%s" % (v, verdict1(b), text(r[0].stderr)))
    return v


def make_readfail(rng, ctx):
    files, main = anysource(rng)
    if not intact(files):
        return
    opts = ["-emit=llvm"] + rng.choice(STDOPT)
    for i in range(6):
        n = rng.choice(sorted(files))
        size = len(files[n])
        sh = rng.choice([0, 50, 100, 100, 100])
        reads = 2 if not sh else max(2, size // 32)
        e = rng.choice([errno.EIO, errno.EIO, errno.EISDIR, errno.ESTALE, errno.EINTR, errno.EBADF, errno.ETIMEDOUT])
        yield {"files": files, "main": main, "opts": opts, "shortr": sh, "layout": rng.randint(1, 9), "seed2": rng.randrange(1 << 30),
               "faults": [[0, "read", n, rng.randint(1, reads), "err", e, 0 if e == errno.EINTR else rng.randrange(2)]]}


def shrink_readfail(case):
    if case["shortr"]:
        yield dict(case, shortr=0, faults=[f[:3] + [1] + f[4:] for f in case["faults"]])
    for n in case["files"]:
        for s in smaller_text(case["files"][n]):
            if finaldot(s) >= 0:
                yield dict(case, files=dict(case["files"], **{n: s}))
    yield from shrink_opts(case)


def damage(rng, b):
    k, n = rng.randrange(10), len(b)
    if n < 4:
        return b + "x"
    i = rng.randrange(n)
    if k == 0:
        return b[:i]
    if k == 1:
        return b[:i] + chr(ord(b[i]) ^ (1 << rng.randrange(8))) + b[i + 1:]
    if k == 2:
        return b[:i] + b[i + 1:]
    if k == 3:
        return b[:i] + b[i + rng.randrange(1, 40):]
    if k == 4:
        return b[:i + rng.randrange(1, 40)] + b[i:]
    if k == 5:
        return b[:i] + chr(rng.randrange(256)) + b[i + 1:]
    if k == 6:
        w = re.findall(r"\w+|\s+|[^\w\s]", b)
        a, r = rng.randrange(len(w)), rng.randrange(3)
        if r == 0:
            del w[a]
        elif r == 1:
            c = rng.randrange(len(w))
            w[a], w[c] = w[c], w[a]
        else:
            w.insert(a, w[rng.randrange(len(w))])
        return "".join(w)
    if k == 7:
        return b[:i] + b[rng.randrange(n)] + b[i + 1:]
    if k == 8:
        # a block that was never written, or that is another one's
        j = i // 512 * 512
        return b[:j] + (rng.choice(["\0", "\xff", b[:1]]) * min(512, n - j) if rng.random() < .6 else b[:512]) + b[j + 512:]
    ls = b.split("\n")
    a, r = rng.randrange(len(ls)), rng.randrange(3)
    if r == 0:
        del ls[a]
    elif r == 1:
        ls.insert(a, ls[rng.randrange(len(ls))])
    else:
        c = rng.randrange(len(ls))
        ls[a], ls[c] = ls[c], ls[a]
    return "\n".join(ls)


def judge_damage(ctx, case):
    return verdict1(ctx.cc.run(plan1(case)))


def make_damage(rng, ctx):
    files, main = anysource(rng)
    for i in range(8):
        f = dict(files)
        n = rng.choice(sorted(f)) if rng.random() < .5 else main
        f[n] = damage(rng, f[n])
        while rng.random() < .2:
            f[n] = damage(rng, f[n])
        if rng.random() < .1:
            # all is well up to the end, and then comes something else
            f[n] = files[n] + rng.choice(["//", "// x", "{", "{ x", "(*", "(* *", "(*)", "'", "'x", "\"", "}", "*)", "(", "/", ".", "end.", "begin",
                                          "\0", "\x1a", "$", "1", "1.", "1e", "$f", "16#", "\xff", "program", " //\n//", "{}{", "{}//"])
        yield {"files": f, "main": main, "opts": (["-emit=llvm"] if rng.random() < .9 else []) + rng.choice(STDOPT),
               "layout": rng.randint(1, 1000)}


def shrink_damage(case):
    for n in case["files"]:
        for s in smaller_text(case["files"][n]):
            yield dict(case, files=dict(case["files"], **{n: s}))
    yield from shrink_opts(case)


def judge_illegal(ctx, case):
    r = ctx.cc.run(plan1(case))
    v = verdict1(r)
    refused("refused" if v == "ice" else v, r, "lost or gained " + case["why"])
    return v


def make_illegal(rng, ctx):
    """Damage after which the text cannot be legal: brackets or begin and end do not pair, or there is a character that
    no token has"""
    files, main = anysource(rng)
    if not intact(files):
        return
    opts = ["-emit=llvm"] + rng.choice(STDOPT)
    for i in range(8):
        n = rng.choice(sorted(files))
        t = files[n]
        d = finaldot(t)
        toks = [x for x in lex(t) if x[0] != "b" and x[2] <= d]
        code = [x for x in toks if x[0] != "c"]
        k = rng.random()
        unit = code[0][1].lower() != "program"
        if k < .4:
            # (a unit may have 'begin end' at its end or not)
            c = [x for x, y in zip(code, code[1:]) if x[1].lower() in ("begin", "end", "(", ")", "[", "]") and
                 not (unit and x[1].lower() == "begin" and y[1].lower() == "end")]
            if not c:
                continue
            x = rng.choice(c)
            new, why = t[:x[2]] + " " + t[x[2] + len(x[1]):], "a '%s'" % x[1]
        elif k < .75:
            x = rng.choice(code)
            w = rng.choice(["begin", "end", "(", ")", "[", "]", ")", "]"])
            if (w == "end" and x[1] == ".") or (unit and w == "begin" and x[1].lower() == "end"):
                continue        # (the text would end there; or see above)
            new, why = t[:x[2]] + " " + w + " " + t[x[2]:], "a '%s'" % w
        else:
            x = rng.choice(code)
            c = rng.choice("!?`~\\%&|\x01\x7f\x80\xff")
            new, why = t[:x[2]] + c + t[x[2]:], "a character %r" % c
        yield {"files": dict(files, **{n: new}), "main": main, "opts": opts, "layout": rng.randint(1, 9), "why": why}


C01 = [Family("cut", make_cut, judge_cut, shrink_cut, quick=800, thorough=20000,
              rule="a source or used unit that ends before the full stop of its final end, at a random byte or token"),
       Family("readfail", make_readfail, judge_readfail, shrink_readfail, quick=300, thorough=6000,
              rule="a read of the source or of a used unit fails, with reads divided at random"),
       Family("illegal", make_illegal, judge_illegal, None, quick=600, thorough=12000,
              rule="damage that takes or adds a bracket, a begin or an end, or adds a character that no token has"),
       Family("damage", make_damage, judge_damage, shrink_damage, quick=3000, thorough=100000,
              rule="flipped, lost, repeated, exchanged bytes, tokens, lines and blocks")]


# ------------------------------------------------------------------ C02
EWR = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]
EOP = [errno.EACCES, errno.EMFILE, errno.ENFILE, errno.EIO, errno.ENOENT, errno.ENOMEM, errno.EPERM, errno.ELOOP]
ECR = [errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMFILE, errno.ETXTBSY, errno.EIO, errno.EPERM]
ESP = [errno.EAGAIN, errno.ENOMEM, errno.ENOENT, errno.EACCES, errno.EMFILE, errno.E2BIG]
ENVS = {"none": [], "nopath": [["PATH", "$SCRATCH/w"]], "onlyhome": [["HOME", "/nonexistent"]]}


def tree(p, case):
    """What is in the directory before; returns the number of the node that is judged"""
    put(p, case["files"], phase=-1)
    pr = case.get("prior")
    if pr and pr["kind"] == "older":
        put(p, pr["files"], phase=-1)
        p.node(list(pr["opts"]) + [case["main"]], phase=0, layout=3)
        put(p, case["files"], phase=1)
        return 1
    if pr:
        for n, mode, d in pr["have"]:
            p.file("w/" + n, d, mode=mode)
    return 0


def prior(rng, files, main, opts, dirs=True):
    k = rng.random()
    if k < .35:
        return None
    st = main[:-4]
    if k < .65:
        t = files[main]
        old = dict(files)
        # an older version of the same program
        m = list(re.finditer(r"\b\d\b", t))
        if m:
            x = rng.choice(m)
            old[main] = t[:x.start()] + str((int(x.group()) + 1) % 10) + t[x.end():]
        if rng.random() < .3:
            old = {main: "program older(output);\nbegin\n  writeln('older')\nend.\n", **{n: t for n, t in files.items() if n != main}}
        return {"kind": "older", "files": old, "opts": opts if rng.random() < .7 else rng.choice(OPTS)}
    have = []
    for n in outputs(main, opts) + ([st + ".ll"] if rng.random() < .3 else []):
        r = rng.random()
        if r < .5:
            have.append([n, rng.choice([0o644, 0o755, 0o444]), "left over from something else\n" * rng.choice([1, 1, 300])])
        elif r < .65 and dirs:
            have.append([n, -2, ""])
    return {"kind": "other", "have": have} if have else None


def plan2(case):
    p = CPlan(case.get("seed2", 1)).set(hashonly=1, trace=1)
    k = tree(p, case)
    env = [list(e) for e in DEFENV] if case.get("env", "") == "" else ENVS[case["env"]]
    p.node(list(case["opts"]) + [case["main"]], nid=k, phase=k, layout=case.get("layout", 1), env=env,
           fdlimit=case.get("fdlimit", 0))
    for f in case.get("faults", []):
        p.fault(*([k] + f[1:]))
    for h in ("shortr", "shortw"):
        if case.get(h):
            p.set(**{h: case[h]})
    return p, k


def honest(case, r, k, want, ref):
    """The ending of one compilation that may have met with faults"""
    n = r[k]
    out = made(r, case["files"])
    if n.end in ("signal", "work"):
        raise Bad("the compiler %s under faults" % ("crashes" if n.end == "signal" else "does not stop"),
                  "%s %s %s\n%s" % (n.ending, case.get("faults"), n.site[:200], text(n.stderr)))
    if n.ok:
        for f in want:
            if out.get(f) != ref.get(f):
                raise Bad("status 0 although %s is not what it should be" % ("the output"),
                          "%s is %.60s, should be %.60s; faults %s" % (f, out.get(f), ref.get(f), case.get("faults")))
    else:
        if not n.stderr.strip():
            raise Bad("failed without a message", "%s, nothing on standard error; faults %s" % (n.ending, case.get("faults")))
    if n.links and out.get(want[0]) != ref.get(want[0]):
        raise Bad("an object that is not this program's was handed to the linker",
                  "%s is %.60s, should be %.60s; faults %s" % (want[0], out.get(want[0]), ref.get(want[0]), case.get("faults")))
    return "done" if n.ok else "failed"


def judge_status(ctx, case):
    ref = ctx.cc.alone(case["files"], case["main"], case["opts"])
    if not ref[0].ok:
        return "not compilable"
    p, k = plan2(case)
    r = ctx.cc.run(p)
    v = honest(case, r, k, outputs(case["main"], case["opts"]), made(ref, case["files"]))
    if v == "failed" and not any(x for x in r.fired) and not case.get("env") and not case.get("fdlimit") and \
            not any(h[1] == -2 for h in (case.get("prior") or {}).get("have", [])):
        raise Bad("fails although nothing went wrong", "%s\n%s" % (r[k].ending, text(r[k].stderr)))
    return v


def onefault(rng, ev, files):
    """A fault that can fire in a run with these events"""
    seen, can = {}, []
    for op, path, n, act, arg in ev:
        seen[(op, path)] = seen.get((op, path), 0) + 1
        if op in ("open", "read", "create", "write", "close", "spawn", "ldstart", "lseek"):
            can.append((op, path, seen[(op, path)], n))
    kinds = sorted({c[0] for c in can})
    op = rng.choice(kinds + [o for o in ("write", "create", "ldstart", "close", "read") if o in kinds])
    op, path, nth, n = rng.choice([c for c in can if c[0] == op])
    if op == "open":
        return [0, op, path, nth, "err", rng.choice(EOP), 0]
    if op == "read":
        return [0, op, path, nth, "err", rng.choice([errno.EIO, errno.EIO, errno.EINTR, errno.EISDIR]), 0]
    if op == "create":
        return [0, op, path, nth, "err", rng.choice(ECR), 0]
    if op == "write":
        e = rng.choice(EWR + [errno.EINTR, 0])
        if e == 0:
            return [0, op, path, nth, "short", rng.randint(1, max(1, n - 1)), 0]
        return [0, op, path, nth, "err", e, 0 if e == errno.EINTR else rng.randrange(2)]
    if op in ("close", "lseek"):
        return [0, op, path, nth, "err", rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT]), 0]
    if op == "spawn":
        return [0, op, path, nth, "err", rng.choice(ESP), 0]
    k = rng.randrange(3)
    if k == 0:
        return [0, op, path, nth, "err", rng.choice([1, 1, 1, 2, 16, 64, 126, 127, 128, 192, 254, 255]), 0]
    return [0, op, path, nth, "sig" if k == 1 else "sigmid", rng.choice([9, 11, 15, 6, 13]), 0]


def compilable(rng, ctx, tries=4):
    for i in range(tries):
        files, main = source(rng)
        opts = rng.choice(OPTS)
        ref = ctx.cc.alone(files, main, opts)
        if ref[0].ok:
            return files, main, opts, ref
    return None


def make_status(rng, ctx):
    x = compilable(rng, ctx)
    if not x:
        return
    files, main, opts, ref = x
    ev = events(ref)
    for i in range(9):
        pr = prior(rng, files, main, opts)
        case = {"files": files, "main": main, "opts": opts, "prior": pr, "layout": rng.randint(1, 9), "seed2": rng.randrange(1 << 30)}
        k = rng.random()
        if k < .06:
            case["env"] = rng.choice(sorted(ENVS))
        elif k < .1:
            case["fdlimit"] = rng.randint(3, 6)
        if k > .06:
            case["faults"] = [onefault(rng, ev, files) for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 2, 3]))]
        if rng.random() < .3:
            case["shortw"] = rng.choice([30, 100])
        if rng.random() < .2:
            case["shortr"] = rng.choice([30, 100])
        yield case


def shrink_status(case):
    for k in ("env", "fdlimit", "shortw", "shortr", "prior"):
        if case.get(k):
            yield {a: b for a, b in case.items() if a != k}
    for i in range(len(case.get("faults", []))):
        yield dict(case, faults=case["faults"][:i] + case["faults"][i + 1:])
    small = {"p.pas": "program p(output);\nbegin\n  writeln('p')\nend.\n"}
    if case["files"] != small and case["main"] == "p.pas":
        yield dict(case, files=small)
    yield from shrink_opts(case)


def judge_source(ctx, case):
    """The source itself cannot be had"""
    p = CPlan(case["seed2"]).set(hashonly=1, trace=1)
    put(p, case["files"])
    for n, mode, d in case["have"]:
        p.file("w/" + n, d, mode=mode)
    p.node(list(case["opts"]) + [case["main"]], layout=case["layout"], fdlimit=case.get("fdlimit", 0))
    for f in case.get("faults", []):
        p.fault(*f)
    r = ctx.cc.run(p)
    n = r[0]
    if n.end != "exit" or n.val == 0 or not n.stderr.strip():
        raise Bad("a source that cannot be read: " + ("status 0" if n.ok else "no proper refusal"),
                  "%s %s\n%s" % (n.ending, case["why"], text(n.stderr)))
    if n.links:
        raise Bad("a source that cannot be read: something was linked", str(n.links))
    return "refused"


def make_source(rng, ctx):
    files = {"helper.pas": UNIT % (2, 3), "p.pas": USER % 5}
    opts = rng.choice(OPTS)
    obj = [["p.o", 0o644, "\177ELF" + "left over " * 30], ["p", 0o755, "left over"]]
    for i in range(4):
        case = {"files": dict(files), "main": "p.pas", "opts": opts, "have": obj if rng.random() < .6 else [], "layout": rng.randint(1, 9),
                "seed2": rng.randrange(1 << 30)}
        n = rng.choice(sorted(files))
        k = rng.randrange(5)
        if k == 0:
            del case["files"][n]
            case["why"] = n + " is missing"
        elif k == 1:
            del case["files"][n]
            case["have"] = case["have"] + [[n, -2, ""]]
            case["why"] = n + " is a directory"
        elif k == 2:
            case["files"][n] = rng.choice(["", " \n", "{ nothing }\n"])
            case["why"] = n + " is empty"
        elif k == 3:
            e = rng.choice(EOP)
            case["faults"] = [[0, "open", n, 1, "err", e, 1]]
            case["why"] = "%s cannot be opened: %s" % (n, errno.errorcode[e])
        else:
            case["faults"] = [[0, "read", n, 1, "err", errno.EIO, 1]]
            case["why"] = n + " cannot be read"
        yield case


def judge_wrong(ctx, case):
    """A source that may have errors, where an older one has been compiled"""
    ref = ctx.cc.alone(case["files"], case["main"], case["opts"])
    want = outputs(case["main"], case["opts"])
    if ref[0].end == "work":
        return "no end"                  # (that is C01's)
    a = made(ref, case["files"])
    if ref[0].ok and any(f not in a for f in want):
        raise Bad("status 0 without output", "%s of %s; %s" % (sorted(a), want, text(ref[0].stderr)))
    if not ref[0].ok and ref[0].links:
        raise Bad("something was linked for a source that is refused", "%s\n%s" % (ref[0].links, text(ref[0].stderr)))
    p, k = plan2(case)
    r = ctx.cc.run(p)
    n = r[k]
    if n.ending != ref[0].ending:
        raise Bad("the status depends on what is there already", "%s instead of %s\n%s" % (n.ending, ref[0].ending, text(n.stderr)))
    if n.links and not n.ok:
        raise Bad("something was linked for a source that is refused", "%s\n%s" % (n.links, text(n.stderr)))
    if n.ok:
        out = made(r, case["files"])
        for f in want:
            if out.get(f) != a.get(f):
                raise Bad("status 0 although the output is not what it should be", "%s is %.60s, should be %.60s" % (f, out.get(f), a.get(f)))
    elif n.end == "exit" and not n.stderr.strip():
        raise Bad("failed without a message", n.ending)
    return "accepted" if n.ok else "refused"


def wrong(rng, t):
    """The same text with other names or values in some places"""
    k = [x for x in lex(t) if x[0] in "wns"]
    kw = ("begin", "end", "program", "var", "procedure", "function", "do", "then", "of", "to", "type", "const")
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randrange(len(k))
        a, b = k[i], rng.choice(k)
        if a[1].lower() in kw or b[1].lower() in kw or a[2] < 12:
            continue
        n = b[1] if rng.random() < .6 else rng.choice(["'text'", "1.5", "nosuch", "true", "99999999999999999999", "0", "nil", "[1]", "'c'"])
        t = t[:a[2]] + n + t[a[2] + len(a[1]):]
        k = [x for x in lex(t) if x[0] in "wns"]
    return t


def make_wrong(rng, ctx):
    files, main = anysource(rng)
    opts = rng.choice(OPTS)
    if main.endswith(".pas") and len(lex(files[main])) > 12:
        for i in range(4):
            n = rng.choice(sorted(files)) if rng.random() < .3 else main
            f = dict(files, **{n: wrong(rng, files[n])})
            pr = {"kind": "older", "files": files, "opts": opts} if rng.random() < .4 else prior(rng, files, main, opts, False)
            yield {"files": f, "main": main, "opts": opts, "prior": pr, "layout": rng.randint(1, 9), "seed2": rng.randrange(1 << 30)}


def shrink_wrong(case):
    if case["prior"]:
        yield dict(case, prior=None)
    yield from shrink_damage(case)


C02 = [Family("wrong", make_wrong, judge_wrong, shrink_wrong, quick=400, thorough=8000,
              rule="a source in which names and values have been exchanged for others, where an older one has perhaps been compiled"),
       Family("status", make_status, judge_status, shrink_status, quick=450, thorough=15000,
              rule="program, options, what is there already, and up to three faults at system calls that the compilation makes"),
       Family("nosource", make_source, judge_source, None, quick=120, thorough=2000,
              rule="the source or a used unit is missing, a directory, empty or unreadable")]


# ------------------------------------------------------------------ C03
VARS = [["LANG", "de_DE.UTF-8"], ["LC_ALL", "tr_TR.UTF-8"], ["TZ", "Asia/Kathmandu"], ["TMPDIR", "/nonexistent"], ["HOME", "/"],
        ["USER", "somebody"], ["COLUMNS", "7"], ["TERM", "xterm-256color"], ["CLICOLOR_FORCE", "1"], ["PWD", "/elsewhere"],
        ["SOURCE_DATE_EPOCH", "1"], ["LACSAP", "x"], ["LACSAP_OPTIONS", "-O3"], ["LD_DEBUG", ""], ["MALLOC_PERTURB_", "77"],
        ["LLVM_PROFILE_FILE", "x"], ["LONG", "y" * 3000], ["CPATH", "/x"], ["LIBRARY_PATH", "/x"]]


def judge_same(ctx, case):
    files, main, opts = case["files"], case["main"], case["opts"]
    ref = ctx.cc.alone(files, main, opts)
    want = made(ref, files)
    for v in case["ways"]:
        p = CPlan(v["seed"]).set(hashonly=1)
        if v.get("shortr"):
            p.set(shortr=v["shortr"])
        if v.get("shortw"):
            p.set(shortw=v["shortw"])
        k = tree(p, dict(case, prior=v.get("prior")))
        p.node(list(opts) + [main], nid=k, phase=k, layout=v["layout"], clock=tuple(v["clock"]), env=[list(e) for e in DEFENV] + v["env"])
        for f in v.get("faults", []):
            p.fault(*([k] + f[1:]))
        r = ctx.cc.run(p)
        a, b = ref[0], r[k]
        if a.ending != b.ending:
            raise Bad("the ending differs between two compilations", "%s and %s\n%s\n%s" % (a.ending, b.ending, text(a.stderr), text(b.stderr)))
        if a.end == "signal":
            continue            # (an abort prints addresses)
        if a.stderr != b.stderr or a.stdout != b.stdout:
            raise Bad("the diagnostics differ between two compilations", "%s\nand\n%s" % (text(a.stderr + a.stdout), text(b.stderr + b.stdout)))
        out = made(r, files)
        for f in outputs(main, opts):
            if a.ok and out.get(f) != want.get(f):
                raise Bad("the output differs between two compilations", "%s: %.80s and %.80s" % (f, want.get(f), out.get(f)))
    return "same" if ref[0].ok else "same, refused"


def make_same(rng, ctx):
    k = rng.random()
    if k < .25:
        files, main = anysource(rng)
        files = dict(files)
        n = rng.choice(sorted(files))
        for _ in range(rng.choice([1, 1, 2, 4])):
            files[n] = damage(rng, files[n])
    elif k < .5:
        files, main = corpus()[rng.choice(sorted(corpus()))]
    else:
        files, main = source(rng)
    opts = rng.choice(OPTS + IROPTS) + rng.choice([[], [], [], ["-g"], ["-Cr"], ["-std=iso7185"], ["-std=iso10206"]])
    opts = [o for i, o in enumerate(opts) if o not in opts[:i]]
    ways = []
    for i in range(4):
        v = {"seed": rng.randrange(1 << 30), "layout": rng.choice([0, rng.randrange(1, 1 << 30), rng.randrange(1, 1 << 30), rng.randrange(1, 1 << 30)]),
             "clock": rng.choice([[0, 0], [rng.randrange(2 * 10 ** 9), rng.choice([1, 1000, 10 ** 6, -10 ** 6])]]),
             "env": rng.sample(VARS, rng.choice([0, 0, 2, 5]))}
        if rng.random() < .5:
            v["shortr"] = rng.choice([20, 100])
        if rng.random() < .5:
            v["shortw"] = rng.choice([20, 100])
        if rng.random() < .4:
            v["prior"] = prior(rng, files, main, opts, dirs=False)
        ways.append(v)
    yield {"files": files, "main": main, "opts": opts, "ways": ways}


def shrink_same(case):
    for i in range(len(case["ways"])):
        if len(case["ways"]) > 1:
            yield dict(case, ways=[case["ways"][i]])
    if len(case["ways"]) == 1:
        v = case["ways"][0]
        for k in ("shortr", "shortw", "prior"):
            if v.get(k):
                yield dict(case, ways=[{a: b for a, b in v.items() if a != k}])
        for i in range(len(v["env"])):
            yield dict(case, ways=[dict(v, env=v["env"][:i] + v["env"][i + 1:])])
        if v["clock"] != [0, 0]:
            yield dict(case, ways=[dict(v, clock=[0, 0])])
        if v["layout"] != 1:
            yield dict(case, ways=[dict(v, layout=1)])
    for n in case["files"]:
        for s in smaller_text(case["files"][n]):
            yield dict(case, files=dict(case["files"], **{n: s}))
    yield from shrink_opts(case)


C03 = [Family("same", make_same, judge_same, shrink_same, quick=1500, thorough=20000,
              rule="a source, intact or damaged, compiled five times: with other memory, clock, environment, read and write sizes "
                   "and left-overs")]


# ------------------------------------------------------------------ C04
NEAR = ["p.s", "p.obj", "p.pas~", "P.o", "p.bak", "p.o.old", "helper.o", "helper.ll", "helper", "a.out", "q.pas", "q.o", "q", "p.txt",
        "p.ii", "core", "p.d", "p.bc", "p.tmp", "x.o", "p.pas.o", "pp.o", "sub/p.o"]


def bystanders(rng):
    return {n: "%s belongs to somebody\n" % n * rng.choice([1, 1, 30]) for n in rng.sample(NEAR, rng.randint(2, 8))}


def untouched(r, phase, keep, allowed, what, before=None):
    """Nothing but these may have appeared or changed"""
    now = r.phases[phase]
    for n, d in keep.items():
        got = now.get("w/" + n)
        if got is None or got[0] != "f" or (got[1:] != d and not (got[1:2] == "#" and got[1:] == hashed(d))):
            raise Bad("a file that is none of the outputs was changed", "%s: %s is now %.80s" % (what, n, got))
    for n in now:
        if n.startswith("w/"):
            n = n[2:]
            if n not in keep and n not in allowed and not any(k.startswith(n + "/") for k in keep):
                raise Bad("a file that is none of the outputs was made", "%s: %s" % (what, n))
        elif n != "w" and not n.startswith(("tools", "inst")):
            raise Bad("a file outside the directory was made", "%s: %s" % (what, n))
        elif n.startswith(("tools", "inst")):
            raise Bad("a file beside the compiler was changed", "%s: %s" % (what, n))


def hashed(d):
    b = d.encode("latin1")
    h = 1469598103934665603
    for c in b:
        h = ((h ^ c) * 1099511628211) & (1 << 64) - 1
    return "#%016x.%d" % (h, len(b))


def allof(main):
    return [main[:-4] + ".o", main[:-4], main[:-4] + ".ll"]


def sameresult(n, out, ref, refout, want, what):
    a = ref[0]
    if n.ending != a.ending or n.stderr != a.stderr or n.stdout != a.stdout:
        raise Bad("another result than alone", "%s: %s instead of %s\n%s\n%s" % (what, n.ending, a.ending, text(n.stderr), text(a.stderr)))
    for f in want:
        if a.ok and out.get(f) != refout.get(f):
            raise Bad("another output than alone", "%s: %s is %.80s instead of %.80s" % (what, f, out.get(f), refout.get(f)))


def judge_again(ctx, case):
    """Compilations that are killed or fail, and then one that is left in peace"""
    files, main, keep = case["files"], case["main"], dict(case["files"], **case["keep"])
    p = CPlan(case["seed2"]).set(hashonly=1, shortw=case.get("shortw", 0), shortr=case.get("shortr", 0))
    put(p, keep)
    for n, mode, d in case.get("have", []):
        p.file("w/" + n, d, mode=mode)
    for i, c in enumerate(case["runs"]):
        p.node(list(c["opts"]) + [main], nid=i, phase=i, layout=c["layout"])
        for f in c.get("faults", []):
            p.fault(*([i] + f[1:]))
        if c.get("kill"):
            p.kills.append([i] + c["kill"])
    r = ctx.cc.run(p)
    allowed = allof(main)
    k = 0
    for i, c in enumerate(case["runs"]):
        k += r[i].end == "killed"
        untouched(r, i, keep, allowed, "run %d (%s)" % (i, r[i].ending))
        if not c.get("kill") and not c.get("faults"):
            ref = ctx.cc.alone(files, main, c["opts"])
            sameresult(r[i], made(r, keep, phase=i), ref, made(ref, files), outputs(main, c["opts"]), "run %d after %s" % (
                i, [x.ending for x in r.nodes[:i]]))
    return "%d killed" % k


def make_again(rng, ctx):
    x = compilable(rng, ctx)
    if not x:
        return
    files, main, opts, ref = x
    if main != "p.pas":
        return
    if rng.random() < .15:
        n = rng.choice(sorted(files))
        files = dict(files, **{n: damage(rng, files[n])})
    ev = events(ref)
    for i in range(7):
        runs = []
        for j in range(rng.choice([1, 1, 2, 3])):
            c = {"opts": opts if rng.random() < .8 else rng.choice(OPTS), "layout": rng.randint(1, 9)}
            if rng.random() < .7:
                c["kill"] = [rng.randint(1, ref[0].steps), rng.choice([0, 0, 1, rng.randint(1, 700)])]
            else:
                c["faults"] = [onefault(rng, ev, files) for _ in range(rng.choice([1, 1, 2]))]
            runs.append(c)
        runs.append({"opts": opts, "layout": rng.randint(1, 9)})
        have = []
        pr = prior(rng, files, main, opts, dirs=False)
        if pr and pr["kind"] == "other":
            have = pr["have"]
        yield {"files": files, "main": main, "keep": {n: t for n, t in bystanders(rng).items() if n not in files}, "runs": runs,
               "have": have, "seed2": rng.randrange(1 << 30), "shortw": rng.choice([0, 0, 40]), "shortr": rng.choice([0, 0, 60])}


def shrink_again(case):
    for i in range(len(case["runs"]) - 1):
        yield dict(case, runs=case["runs"][:i] + case["runs"][i + 1:])
    for n in case["keep"]:
        yield dict(case, keep={k: v for k, v in case["keep"].items() if k != n})
    for k in ("shortw", "shortr"):
        if case.get(k):
            yield dict(case, **{k: 0})
    if case.get("have"):
        yield dict(case, have=[])
    for i, c in enumerate(case["runs"]):
        for j in range(len(c.get("faults", []))):
            if len(c["faults"]) > 1:
                yield dict(case, runs=case["runs"][:i] + [dict(c, faults=c["faults"][:j] + c["faults"][j + 1:])] + case["runs"][i + 1:])
    small = {"p.pas": "program p(output);\nbegin\n  writeln('p')\nend.\n"}
    if case["files"] != small:
        yield dict(case, files=small)


def judge_together(ctx, case):
    """Several programs compiled at the same time in one directory"""
    keep = dict(case["files"], **case["keep"])
    p = CPlan(case["seed2"]).set(hashonly=1, stick=case["stick"], shortw=case.get("shortw", 0), shortr=case.get("shortr", 0))
    put(p, keep)
    for n, mode, d in case.get("have", []):
        p.file("w/" + n, d, mode=mode)
    for i, c in enumerate(case["nodes"]):
        p.node(list(c["opts"]) + [c["main"]], nid=i, layout=c["layout"])
        for f in c.get("faults", []):
            p.fault(*([i] + f[1:]))
        if c.get("kill"):
            p.kills.append([i] + c["kill"])
    r = ctx.cc.run(p)
    untouched(r, -1, keep, sum((allof(c["main"]) for c in case["nodes"]), []), "together")
    out = made(r, keep)
    for i, c in enumerate(case["nodes"]):
        mine = {n: case["files"][n] for n in c["uses"] + [c["main"]]}
        ref = ctx.cc.alone(mine, c["main"], c["opts"])
        want = outputs(c["main"], c["opts"])
        if c.get("kill"):
            continue
        if c.get("faults"):
            if ref[0].ok:
                sub = dict(case, faults=c["faults"], files=keep)
                honest(sub, r, i, want, made(ref, mine))
            continue
        sameresult(r[i], out, ref, made(ref, mine), want, "%s among %d" % (c["main"], len(case["nodes"])))
    return "%d programs" % len(case["nodes"])


def make_together(rng, ctx):
    files, nodes = {}, []
    if rng.random() < .7:
        files["helper.pas"] = UNIT % (rng.randint(2, 9), rng.randrange(100))
    names = rng.sample(["p.pas", "q.pas", "pp.pas", "p1.pas", "prog.pas", "a.pas", "P.pas", "p.o.pas.pas", "a.b.pas"], rng.choice([2, 2, 3, 4]))
    for n in names:
        uses = []
        if "helper.pas" in files and rng.random() < .6:
            files[n] = (USER % rng.randint(1, 20)).replace("writeln(", "writeln('%s ', " % n)
            uses = ["helper.pas"]
        elif rng.random() < .4:
            c = corpus()[rng.choice(good())][0]
            files[n] = list(c.values())[0] if len(c) == 1 else USER % 3
            uses = [] if len(c) == 1 else ["helper.pas"]
        else:
            files[n] = generated(rng)
        if uses and "helper.pas" not in files:
            files["helper.pas"] = UNIT % (2, 5)
        if rng.random() < .12:
            files[n] = damage(rng, files[n])
        nodes.append({"main": n, "uses": uses, "opts": rng.choice(OPTS), "layout": rng.randint(1, 9)})
    refs = [ctx.cc.alone({n: files[n] for n in c["uses"] + [c["main"]]}, c["main"], c["opts"]) for c in nodes]
    for i in range(3):
        nn = [dict(c) for c in nodes]
        if rng.random() < .5:
            v = rng.randrange(len(nn))
            if rng.random() < .6:
                nn[v]["kill"] = [rng.randint(1, max(1, refs[v][0].steps)), rng.randrange(2)]
            elif refs[v][0].ok:
                nn[v]["faults"] = [onefault(rng, events(refs[v]), files)]
        yield {"files": files, "nodes": nn, "keep": {n: t for n, t in bystanders(rng).items() if n not in files and not any(
            n in allof(m) for m in names)}, "seed2": rng.randrange(1 << 30), "stick": rng.choice([0, 0, 50, 90]),
            "shortw": rng.choice([0, 40]), "shortr": rng.choice([0, 60])}


def shrink_together(case):
    for i in range(len(case["nodes"])):
        if len(case["nodes"]) > 1:
            yield dict(case, nodes=case["nodes"][:i] + case["nodes"][i + 1:])
    for i, c in enumerate(case["nodes"]):
        if c.get("kill") or c.get("faults"):
            yield dict(case, nodes=case["nodes"][:i] + [{k: v for k, v in c.items() if k not in ("kill", "faults")}] + case["nodes"][i + 1:])
    if case["keep"]:
        yield dict(case, keep={})
    for k in ("shortw", "shortr", "stick"):
        if case.get(k):
            yield dict(case, **{k: 0})


C04 = [Family("again", make_again, judge_again, shrink_again, quick=260, thorough=8000,
              rule="one to three compilations that are killed at a random step or fail, with other files around, and one in peace"),
       Family("together", make_together, judge_together, shrink_together, quick=260, thorough=8000,
              rule="two to four different programs compiled at the same time in one directory, one perhaps killed or failing")]


# ------------------------------------------------------------------ C05
WORDS = ["p", "a b", " lead", "trail ", "it's", 'say "hi"', "$(touch pwned)", "a;touch pwned", "`touch pwned`", "a|b", "a&b", "x>pwned", "<in",
         "(x)", "[x]", "{a,b}", "*", "?", "~", "#x", "!x", "%s%n", "$HOME", "${PATH}", "a\\b", "\\", "-x", "-o", "-lm", "--", "@p", "a.b",
         "..a", ".hidden", "a.pas", "a.o", ".pas.pas", "\xe6\xf8\xe5", "\xff\xfe", "tab\there", "new\nline", "a=b", "a,b", "a:b", "^x", "'", '"', "''",
         "p;", "p&", "p'$(touch pwned)'", "-Wl,-z", "lib", "libruntime", "runtime", "clang", "con", "L", "x" * 100, "x" * 180]
PLAIN = ["p", "prog", "a1", "Hello", "x_y"]


def escape5(n):
    return n not in ("", ".", "..") and "/" not in n and "\0" not in n


def judge_names(ctx, case):
    stem, d, cwd, inst = case["stem"], case["dir"], case["cwd"], case["inst"]
    src = case["src"]
    p = CPlan(1).set(hashonly=1, trace=1)
    base = (d + "/" if d else "") + stem
    p.file("w", b"", mode=-2)
    p.file(cwd, b"", mode=-2)
    p.file(base + ".pas", src)
    keep = {base + ".pas": src}
    for n, t in case.get("units", {}).items():
        p.file(d + "/" + n, t)
        keep[d + "/" + n] = t
    if inst != "inst/bin":
        p.file(inst + "/lacsap", b"the compiler\n", mode=0o755)
        p.file(inst + "/libruntime.a", b"RUNTIME 64\n")
        p.file(inst + "/libruntime-m32.a", b"RUNTIME 32\n")
        for n, t in (("lacsap", "the compiler\n"), ("libruntime.a", "RUNTIME 64\n"), ("libruntime-m32.a", "RUNTIME 32\n")):
            keep[inst + "/" + n] = t
        # beside the usual place there is something else
        p.file("inst/bin/libruntime.a", b"RUNTIME 64 wrong\n")
        p.file("inst/bin/libruntime-m32.a", b"RUNTIME 32 wrong\n")
    for n, t in case.get("decoys", {}).items():
        p.file(n, t)
        keep[n] = t
    env = [["PATH", "$SCRATCH/tools:$SCRATCH/" + inst]] + DEFENV[1:]
    p.node(list(case["opts"]) + case["arg"], exe=inst + "/lacsap", cwd=cwd, env=env, argv0=case["argv0"], layout=case["layout"])
    r = ctx.cc.run(p)
    n = r[0]
    if n.end != "exit":
        raise Bad("compiling a file of this name ends with a crash", "%r: %s\n%s" % (base, n.ending, text(n.stderr)))
    if not n.ok:
        raise Bad("a file of this name cannot be compiled", "%r: %s\n%s" % (base, n.ending, text(n.stderr)))
    files = r.phases[-1]
    emit = "-emit=llvm" in case["opts"]
    m32, dbg = "-m32" in case["opts"], "-g" in case["opts"]
    want = [base + ".ll"] if emit else [base + ".o", base]
    for f in want:
        if f not in files or files[f] == "d":
            raise Bad("the output is not where it should be", "%r is missing; there are %r" % (f, sorted(set(files) - set(keep))[:9]))
    dirs = set()
    for f in list(keep) + want + [cwd + "/x", inst + "/x", "inst/bin/x", "tools/x", "w/x"]:
        for k in range(1, f.count("/") + 1):
            dirs.add("/".join(f.split("/")[:k]))
    for f, c in files.items():
        if c == "d" and f in dirs or f in want:
            continue
        if f.startswith(("inst/bin", "tools")) and f not in keep:
            if inst != "inst/bin" and f.startswith("inst/bin/libruntime") or f == "inst/bin/lacsap":
                continue
        if f not in keep:
            raise Bad("something else was made", "%r: %.60r; compiling %r" % (f, c, base))
        if c[1:] != keep[f] and c[1:] != hashed(keep[f]):
            raise Bad("something else was changed", "%r; compiling %r" % (f, base))
    if emit:
        if n.links or "spawn" in [e[0] for e in events(r)]:
            raise Bad("a command was executed that is not the link step", str(n.links))
        return "ll"
    ev = [e[0] for e in events(r)]
    if len(n.links) != 1 or ev.count("ldstart") != 1 or ev.count("ldcreate") != 1:
        raise Bad("not exactly one link step", "%s for %r" % (n.links, base))
    o = files[base + ".o"]
    exe = files[base]
    if exe[0] != "x":
        raise Bad("the executable is not one", exe[:80])
    h = o[2:].split(".") if o[1:2] == "#" else hashed(o[1:])[1:].split(".")
    lines = exe[1:].split("\n")[:-1]
    model = "32" if m32 else "64"
    exp = ["EXE " + model, "OBJ %s %s" % tuple(h), "RUNTIME " + model]
    if sorted(l for l in lines if l != "G") != sorted(exp):
        raise Bad("the executable is made of other things", "%s instead of %s, for %r" % (lines, exp, base))
    if dbg and "G" not in lines:
        raise Bad("the debug switch does not reach the link step", str(n.links))
    if ("-v=1" in case["opts"]) != (b"-v" in n.links[0]):
        raise Bad("the verbosity switch does not reach the link step", str(n.links))
    return "exe"


def make_names(rng, ctx):
    stem = rng.choice(WORDS) if rng.random() < .85 else rng.choice(PLAIN)
    if rng.random() < .15:
        stem = (stem + rng.choice(WORDS))[:180]
    parts = [rng.choice(WORDS + PLAIN)[:60] for _ in range(rng.choice([0, 0, 1, 1, 2, 4]))]
    if not all(escape5(x) for x in parts + [stem]) or parts[:1] in (["clang"], ["lib"]):
        return
    d = "/".join(["w"] + parts)
    ncwd = rng.randint(0, len(parts))
    cwd = "/".join(["w"] + parts[:ncwd])
    k = rng.randrange(4)
    rel = "/".join(parts[ncwd:] + [stem + ".pas"])
    if k == 0:
        arg = "$SCRATCH/" + d + "/" + stem + ".pas"
    elif k == 1:
        arg = "./" + rel
    elif k == 2 and ncwd:
        arg = "../" + parts[ncwd - 1] + "/" + rel
    else:
        arg = rel
    if "$SCRATCH" in stem or any("$SCRATCH" in x for x in parts):
        return
    if arg.startswith("@") or arg == "-":
        arg = "./" + arg
    args = [arg]
    if arg.startswith("-"):
        args = ["--", arg] if rng.random() < .5 else ["./" + arg]
    inst = "inst/bin"
    if rng.random() < .5:
        inst = "opt/" + "/".join(rng.choice(WORDS + PLAIN)[:40] for _ in range(rng.choice([1, 2])))
        if not all(escape5(x) for x in inst.split("/")):
            inst = "inst/bin"
    up = "/".join([".."] * (1 + ncwd))
    argv0 = rng.choice(["$SCRATCH/" + inst + "/lacsap", up + "/" + inst + "/lacsap", "lacsap", "anything", "./lacsap", "/lacsap", "",
                        "-", "/nonexistent/lacsap", "lacsap;touch pwned"])
    if rng.random() < .25:
        src = USER % rng.randint(1, 9)
        units = {"helper.pas": UNIT % (2, 3)}
    else:
        src, units = "program p(output);\nbegin\n  writeln('%d')\nend.\n" % rng.randrange(100), {}
    decoys = {}
    for n in (["p.o", "a.out", "x.o", "libruntime.a", "libm.a", "-o", "pwn", "lib"]):
        if rng.random() < .3:
            decoys[cwd + "/" + n] = "belongs to somebody\n"
    if rng.random() < .2:
        decoys["libruntime.a"] = "RUNTIME 64 wrong\n"
    base = d + "/" + stem
    busy = {base + ".pas", base + ".o", base, base + ".ll", inst, "tools"} | {"/".join((d + "/x").split("/")[:k]) for k in range(1, 9)}
    decoys = {n: t for n, t in decoys.items() if n not in busy}
    # the executable must not be a directory that is there already
    pre = {"/".join((d + "/x").split("/")[:k]) for k in range(1, 12)} | {cwd}
    if base in pre or base + ".o" in pre or base + ".ll" in pre:
        return
    opts = []
    if rng.random() < .2:
        opts.append("-emit=llvm")
    for o, q in (("-m32", .35), ("-g", .35), ("-v=1", .2), ("-O0", .3), ("-Cr", .1)):
        if rng.random() < q:
            opts.append(o)
    yield {"stem": stem, "dir": d, "cwd": cwd, "inst": inst, "src": src, "units": units, "opts": opts, "arg": args, "argv0": argv0,
           "decoys": decoys, "layout": rng.randint(1, 9)}


def shrink_names(case):
    for k in ("decoys", "units"):
        if case[k] and k != "units":
            yield dict(case, **{k: {}})
    for i in range(len(case["opts"])):
        yield dict(case, opts=case["opts"][:i] + case["opts"][i + 1:])
    if case["inst"] != "inst/bin":
        yield dict(case, inst="inst/bin", argv0="$SCRATCH/inst/bin/lacsap")
    if case["stem"] != "p":
        yield dict(case, stem="p", arg=["$SCRATCH/" + case["dir"] + "/p.pas"])
    if case["dir"] != "w" or case["cwd"] != "w":
        yield dict(case, dir="w", cwd="w", arg=["./" + case["stem"] + ".pas"])


def judge_impossible(ctx, case):
    p = CPlan(1).set(hashonly=1, trace=1)
    keep = {}
    for n, mode, t in case["have"]:
        p.file(n, t, mode=mode)
        if mode >= 0:
            keep[n] = t
    p.node(list(case["opts"]) + case["arg"], layout=case["layout"])
    r = ctx.cc.run(p)
    n = r[0]
    if n.end != "exit" or n.val == 0 or not n.stderr.strip():
        raise Bad("an impossible name is not refused properly", "%r: %s\n%s" % (case["arg"], n.ending, text(n.stderr)))
    for f, c in r.phases[-1].items():
        if c[0] not in "dl" and f not in keep and not f.startswith(("inst", "tools")) and f not in case["may"]:
            raise Bad("an impossible name leaves a file", "%r: %r %.60s" % (case["arg"], f, c))
    if n.links and not case["may"]:
        raise Bad("an impossible name is linked", str(n.links))
    return "refused"


def make_impossible(rng, ctx):
    good = "program p(output);\nbegin\n  writeln('p')\nend.\n"
    opts = rng.choice(OPTS)
    k = rng.randrange(7)
    have, may, arg = [], [], None
    if k == 0:
        nm = rng.choice(["p", "p.pa", "pas", "p.pas ", "p.PAS", "p.pasx", "a", "ab", "abc", "p.p", "p.txt", ".pa", "x.pas.txt", "p.pas.", "\xff", "as"])
        have, arg = [["w/" + nm, 0o644, good]], [nm]
    elif k == 1:
        arg = [rng.choice(["nothere.pas", "no/where.pas", "/nonexistent/p.pas", "", "x" * 300 + ".pas", "x/" * 3000 + "p.pas", "p.pas/", "../w", ".", "/"])]
        have = [["w/p.pas", 0o644, good]]
    elif k == 2:
        have, arg = [["w/p.pas", -2, ""]], ["p.pas"]
    elif k == 3:
        have, arg = [["w/p.pas", 0o644, good], ["w/q.pas", 0o644, good]], rng.choice([[], ["p.pas", "q.pas"], ["-nosuchoption", "p.pas"], ["-emit=nothing", "p.pas"]])
    elif k == 4:
        # the place of an output is taken by a directory
        have = [["w/p.pas", 0o644, good]] + [[n, -2, ""] for n in (["w/p.ll"] if "-emit=llvm" in opts else rng.choice([["w/p"], ["w/p.o"], ["w/p", "w/p.o"]]))]
        arg, may = ["p.pas"], ["w/p.o"]
    elif k == 5:
        have, arg = [["w/l.pas", -3, "l.pas"]], ["l.pas"]
    else:
        if "-emit=llvm" in opts:
            opts = ["-O0"]
        have, arg, may = [["w/.pas", 0o644, good]], ["./.pas"] if rng.random() < .5 else [".pas"], ["w/.o"]
    yield {"have": have, "arg": arg, "opts": opts, "may": may, "layout": rng.randint(1, 9)}


C05 = [Family("names", make_names, judge_names, shrink_names, quick=2600, thorough=60000,
              rule="a name, a directory, a working directory, a place and a name of the compiler, options, and other files around"),
       Family("impossible", make_impossible, judge_impossible, None, quick=600, thorough=4000,
              rule="names that cannot be compiled and output places that cannot be written")]


ALL = {"C01": C01, "C02": C02, "C03": C03, "C04": C04, "C05": C05}
