"""Plans for ccsim (the compiler under simulation) and the connection to it."""
import json, os, select, shutil, subprocess, tempfile

from .sim import hx

DEFENV = [("PATH", "$SCRATCH/tools"), ("HOME", "/nonexistent"), ("LANG", "C")]
INST = "inst/bin"


class CPlan:
    """Simulated compilations, completely described"""

    def __init__(self, seed=1):
        self.head = {"seed": seed}
        self.files = []     # [phase, path, mode, bytes]   phase -1: before; mode -1: remove, -2: directory, -3: link
        self.nodes = []     # dicts: id, phase, args, env, exe, cwd, layout, clock, fdlimit
        self.faults = []    # [node, op, path, nth, kind, arg, sticky]
        self.kills = []     # [node, step, mid]

    def set(self, **kw):
        self.head.update(kw)
        return self

    def file(self, path, data, mode=0o644, phase=-1):
        if isinstance(data, str):
            data = data.encode("latin1")
        self.files.append([phase, path, mode, data])

    def node(self, args, nid=None, phase=0, env=None, exe=INST + "/lacsap", cwd="w", layout=1, clock=(0, 0), fdlimit=0,
             argv0=None):
        nid = len(self.nodes) if nid is None else nid
        self.nodes.append(dict(id=nid, phase=phase, args=[argv0 or "$SCRATCH/" + exe] + list(args),
                               env=[list(e) for e in (DEFENV if env is None else env)], exe=exe, cwd=cwd, layout=layout,
                               clock=list(clock), fdlimit=fdlimit))
        return nid

    def fault(self, node, op, path, nth, kind, arg=0, sticky=0):
        self.faults.append([node, op, path, nth, kind, arg, sticky])

    def text(self, base, scratch):
        o = ["%s %s" % kv for kv in self.head.items()]
        for ph, p, m, d in base + self.files:
            o.append("file %d %s %d %s" % (ph, hx(p), m, hx(d.replace("$SCRATCH", scratch) if isinstance(d, str) else d)))
        for n in self.nodes:
            i = n["id"]
            o.append("node %d %d %s %s %s" % (i, n["phase"], hx(n["exe"]), hx(n["cwd"]), " ".join(hx(a) for a in n["args"])))
            for k, v in n["env"]:
                o.append("env %d %s %s" % (i, hx(k), hx(v.replace("$SCRATCH", scratch))))
            o.append("layout %d %d" % (i, n["layout"]))
            if n["clock"][1]:
                o.append("clock %d %d %d" % (i, n["clock"][0], n["clock"][1]))
            if n["fdlimit"]:
                o.append("fdlimit %d %d" % (i, n["fdlimit"]))
        for nd, op, path, nth, kind, arg, st in self.faults:
            o.append("fault %d %s %s %d %s %d %d" % (-1 if nd is None else nd, op, "*" if path in (None, "*") else hx(path),
                                                     nth, kind, arg, st))
        for k in self.kills:
            o.append("kill %d %d %d" % tuple(k))
        return "\n".join(o) + "\n"

    def to_json(self):
        def enc(x):
            if isinstance(x, (bytes, bytearray)):
                return {"b": bytes(x).decode("latin1")}
            if isinstance(x, (list, tuple)):
                return [enc(y) for y in x]
            if isinstance(x, dict):
                return {k: enc(v) for k, v in x.items()}
            return x
        return enc(self.__dict__)

    @staticmethod
    def from_json(j):
        def dec(x):
            if isinstance(x, dict):
                if set(x) == {"b"}:
                    return x["b"].encode("latin1")
                return {k: dec(v) for k, v in x.items()}
            if isinstance(x, list):
                return [dec(y) for y in x]
            return x
        p = CPlan()
        p.__dict__.update(dec(j))
        return p

    def copy(self):
        return CPlan.from_json(json.loads(json.dumps(self.to_json())))


class CNode:
    def __init__(self, d):
        self.__dict__.update(d)
        self.stdout, self.stderr = bytes.fromhex(d["stdout"]), bytes.fromhex(d["stderr"])
        self.links = [bytes.fromhex(x).split(b"\0")[:-1] for x in d["links"]]

    @property
    def ok(self):
        return self.end == "exit" and self.val == 0

    @property
    def ending(self):
        return "%s:%s" % (self.end, self.work or self.val)


class CResult:
    def __init__(self, j, base):
        self.hosterror = j.get("hosterror", 0) or next((n["work"] for n in j.get("nodes", []) if n["work"] == "no simulated heap"), 0)
        if self.hosterror:
            self.nodes, self.phases, self.hash = [], [], "hosterror"
            self.fired, self.steps, self.sched, self.switches, self.shorts, self.trace = {}, 0, "", 0, 0, ""
            return
        self.nodes = [CNode(n) for n in j["nodes"]]
        self.phases = []
        for p in j["phases"]:
            d = {}
            for k, v in p.items():
                k = k.encode("latin1").decode("latin1")
                if k.split("/")[0] in ("tools", "inst") and k in base:
                    if base[k] == "l" or v == base[k]:
                        continue
                d[k] = v[0] + v[1:] if v[1:2] == "#" else v[0] + bytes.fromhex(v[1:]).decode("latin1")
            self.phases.append(d)
        self.files = self.phases[-1] if self.phases else {}
        self.hash, self.sched, self.fired = j["hash"], j["sched"], j["fired"]
        self.steps, self.switches, self.shorts, self.trace = j["steps"], j["switches"], j["shorts"], j.get("trace", "")

    def __getitem__(self, i):
        for n in self.nodes:
            if n.id == i:
                return n
        raise KeyError(i)


def scratchroot():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK | os.X_OK):
            return d
    return "/tmp"


class CHost:
    """A ccsim process with its own scratch directory"""

    def __init__(self, kit, rt64=b"RUNTIME 64\n", rt32=b"RUNTIME 32\n"):
        self.kit, self.p = kit, None
        self.scratch = tempfile.mkdtemp(prefix="lacsap-cc-", dir=scratchroot())
        base = [[-1, "w", -2, b""], [-1, "tools", -2, b""]]
        for t in ("clang", "gcc", "cc", "clang++", "g++", "c++"):
            base.append([-1, "tools/" + t, -3, kit.ccsim])
        base += [[-1, INST + "/lacsap", 0o755, b"the compiler\n"], [-1, INST + "/libruntime.a", 0o644, rt64],
                 [-1, INST + "/libruntime-m32.a", 0o644, rt32]]
        self.base = base
        self.known = {}
        for ph, p, m, d in base:
            self.known[p] = "l" if m == -3 else "d" if m == -2 else ("x" if m & 0o100 else "f") + d.hex()
        self.known[INST] = self.known["inst"] = "d"

    def run(self, plan, timeout=120):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([self.kit.ccsim, self.scratch], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      env={"PATH": "/usr/bin:/bin", "LANG": "C", "TZ": "UTC0"}, cwd="/")
        t = plan.text(self.base, self.scratch).encode("latin1")
        try:
            self.p.stdin.write(b"%d\n" % len(t) + t)
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                raise OSError("timeout")
            n = self.p.stdout.readline()
            if not n:
                raise OSError("ended")
            return CResult(json.loads(self.p.stdout.read(int(n))), self.known)
        except (OSError, ValueError) as e:
            self.p.kill()
            self.p.wait()
            self.p = None
            return CResult({"hosterror": str(e)}, {})

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:  # noqa
                self.p.kill()
            self.p = None
        shutil.rmtree(self.scratch, ignore_errors=True)
