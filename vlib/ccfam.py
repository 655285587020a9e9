"""Running simulated compilations and judging them: what the checks C01 to C05 share."""
import collections, glob, json, os, random, re

from . import ctl, pas
from .build import REPO
from .cc import CHost, CPlan
from .gen import ALLT, Gen, SMALL
from .rt import Bad, HostError


class CRunner:
    """One per worker"""

    def __init__(self, kit):
        self.host = CHost(kit)
        self.st, self.keys = collections.Counter(), set()
        self.cache = collections.OrderedDict()

    def run(self, plan):
        r = self.host.run(plan)
        self.st["runs"] += 1
        if r.hosterror:
            self.st["hosterrors"] += 1
            raise HostError(str(r.hosterror)[:300])
        self.st["steps"] += r.steps
        self.st["switches"] += r.switches
        for k, v in r.fired.items():
            self.st["fault:" + k] += v
        if r.shorts:
            self.st["fault:short transfers"] += r.shorts
        self.keys.add(r.hash)
        return r

    def alone(self, files, main, opts, layout=1):
        """What a compilation by itself, without faults, in a directory that has only these files, does"""
        k = json.dumps([sorted(files.items()), main, opts, layout])
        if k in self.cache:
            self.cache.move_to_end(k)
            return self.cache[k]
        p = CPlan(1).set(hashonly=1, trace=1)
        put(p, files)
        p.node(list(opts) + [main], layout=layout)
        r = self.run(p)
        self.cache[k] = r
        if len(self.cache) > 60:
            self.cache.popitem(last=False)
        return r

    def close(self):
        self.host.close()


def put(p, files, phase=-1, where="w/"):
    for n, d in files.items():
        p.file(where + n, d.encode("latin1"), phase=phase)


def made(r, files, where="w/", phase=-1):
    """The files that are there besides these: name -> contents"""
    f = r.phases[phase]
    # (permissions of an object that was there already stay as they were)
    return {n[len(where):]: "f" + d[1:] if n.endswith((".o", ".ll")) and d[0] == "x" else d for n, d in f.items()
            if n.startswith(where) and n[len(where):] not in files and d != "d"}


def events(r, node=0):
    """[(op, path, n, action, arg)] of a traced run"""
    out = []
    for l in r.trace.split("\n"):
        m = re.match(r"(\d+) (\w+) (.*) (-?\d+) -> (\d+) (-?\d+)$", l)
        if m and int(m.group(1)) == node:
            out.append((m.group(2), m.group(3), int(m.group(4)), int(m.group(5)), int(m.group(6))))
    return out


def text(b, n=400):
    return b.decode("latin1")[-n:]


# ------------------------------------------------------------------ what is compiled
_corpus = {}


def corpus():
    """name -> ({file: text}, main): the programs of the test suite with the units that they use"""
    if not _corpus:
        for p in sorted(glob.glob(os.path.join(REPO, "test", "*", "*.pas"))):
            d = os.path.dirname(p)
            files = {}
            todo = [os.path.basename(p)]
            while todo:
                n = todo.pop()
                q = os.path.join(d, n)
                if n in files or not os.path.exists(q):
                    continue
                files[n] = open(q, encoding="latin1").read()
                todo += [u.lower() + ".pas" for u in re.findall(r"(?i)\buses\s+(\w+)", files[n]) if u.lower() != "math"]
            _corpus[os.path.basename(d) + "/" + os.path.basename(p)] = (files, os.path.basename(p))
    return _corpus


def good():
    """Those that compile, and not the largest"""
    c = corpus()
    return sorted(n for n, (f, m) in c.items() if n.startswith("Basic/") and "\nunit " not in "\n" + f[m].lower() and
                  sum(map(len, f.values())) < 20000 and not re.match(r"(?i)\s*unit\b", f[m]))


def generated(rng):
    k = rng.random()
    if k < .35:
        return ctl.program(rng)
    if k < .55:
        return ctl.closures(rng)
    for _ in range(5):
        from .props import ANY
        p = Gen(rng, weights=ANY, types=rng.sample(ALLT, 3) + ["text"], nfiles=(1, 4), nops=(4, 25)).build()
        if p and p["ops"]:
            return pas.emit(dict(p, unit=0))
    return ctl.program(rng)


UNIT = """unit helper;
interface
var total: integer;
procedure addto(k: integer);
function twice(x: integer): integer;
implementation
procedure addto(k: integer);
begin
  total := total + k
end;
function twice(x: integer): integer;
begin
  twice := x * %d
end;
begin
  total := %d
end.
"""
USER = """program user(output);
uses helper;
var i, j: integer;
begin
  for i := 1 to %d do begin addto(i); j := twice(i) end;
  writeln(total:1, ' ', j:1)
end.
"""


def source(rng, units=.15):
    """({file: text}, main)"""
    k = rng.random()
    if k < units:
        return {"helper.pas": UNIT % (rng.randint(2, 9), rng.randrange(100)), "p.pas": USER % rng.randint(1, 20)}, "p.pas"
    if k < .55:
        files, main = corpus()[rng.choice(good())]
        files = dict(files)
        if main != "p.pas" and len(files) == 1:
            files["p.pas"] = files.pop(main)
            main = "p.pas"
        return files, main
    return {"p.pas": generated(rng)}, "p.pas"


OPTS = [["-emit=llvm"], ["-emit=llvm", "-O0"], ["-emit=llvm", "-O2"], ["-emit=llvm", "-g"], ["-emit=llvm", "-m32"],
        ["-emit=llvm", "-Cr"], [], ["-O0"], ["-O2"], ["-g"], ["-m32"], ["-m32", "-g", "-O0"], ["-Cr", "-O0"], ["-O3"]]
IROPTS = [o for o in OPTS if "-emit=llvm" in o]
EXEOPTS = [o for o in OPTS if "-emit=llvm" not in o]


def outputs(main, opts):
    st = main[:-4]
    return [st + ".ll"] if "-emit=llvm" in opts else [st + ".o", st]


def smaller_text(s):
    """Texts with some lines, or some characters, left out"""
    ls = s.split("\n")
    k = len(ls) // 2
    while k:
        for i in range(0, len(ls), k):
            yield "\n".join(ls[:i] + ls[i + k:])
        k //= 2
    if len(s) < 400:
        k = len(s) // 2
        while k:
            for i in range(0, len(s), k):
                yield s[:i] + s[i + k:]
            k //= 2
