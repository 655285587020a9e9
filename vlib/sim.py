"""Plans for simhost and the connection to it."""
import json, os, select, signal, subprocess, time


def hx(b):
    if isinstance(b, str):
        b = b.encode("latin1")
    return b.hex() if b else "-"


EIO, ENOSPC, EACCES, EMFILE, ENOMEM, ENOENT, EFBIG, EAGAIN, EDQUOT, EROFS, ENFILE, EINTR, EISDIR, ESTALE = (
    5, 28, 13, 24, 12, 2, 27, 11, 122, 30, 23, 4, 21, 116)


class Plan:
    """An execution, completely described.  JSON-able, so that it can be kept as a replay file."""

    def __init__(self, seed=1, model=64):
        self.model = model
        self.head = {"seed": seed}
        self.files = []      # (path, mode, bytes)
        self.dirs = []
        self.setfiles = []   # (phase, path, mode, bytes) or (phase, path, None, None)
        self.nodes = []      # dicts
        self.faults = []     # [node, op, path or None, nth, kind, arg, sticky]
        self.kills = []      # [node, step, mid]
        self.tjumps = []
        self.cjumps = []

    def set(self, **kw):
        self.head.update(kw)
        return self

    def file(self, path, data, mode=0o600):
        self.files.append([path, mode, bytes(data)])

    def node(self, so, nid=None, phase=0, args=(), **kw):
        nid = len(self.nodes) if nid is None else nid
        self.nodes.append(dict(id=nid, phase=phase, so=so, args=list(args), **kw))
        return nid

    def fault(self, node, op, path, nth, kind, arg=0, sticky=0):
        self.faults.append([node, op, path, nth, kind, arg, sticky])

    def copy(self):
        return Plan.from_json(json.loads(json.dumps(self.to_json())))

    def text(self):
        o = []
        for k, v in self.head.items():
            o.append("%s %s" % (k, v))
        for p, m, d in self.files:
            o.append("file %s %o %s" % (hx(p), m, hx(d)))
        for p, m in self.dirs:
            o.append("dir %s %o" % (hx(p), m))
        for ph, p, m, d in self.setfiles:
            o.append("rmfile %d %s" % (ph, hx(p)) if m is None else "setfile %d %s %o %s" % (ph, hx(p), m, hx(d)))
        for j in self.tjumps:
            o.append("tjump %d %d" % tuple(j))
        for j in self.cjumps:
            o.append("cjump %d %d" % tuple(j))
        for n in self.nodes:
            i = n["id"]
            o.append("node %d %d %s %s" % (i, n["phase"], n["so"], " ".join(hx(a) for a in n["args"])))
            for k in ("memlimit", "fdlimit", "stack"):
                if n.get(k) is not None:
                    o.append("%s %d %d" % (k, i, n[k]))
            inp = n.get("inp")
            if inp is None:
                o.append("in %d null" % i)
            elif inp[0] == "file":
                o.append("in %d file %s" % (i, hx(inp[1])))
            elif inp[0] == "stream":
                # ("stream", tty, hold, [(await, delay, data|"eof"|("err", n))])
                o.append("in %d stream %d %d" % (i, inp[1], inp[2]))
                for aw, dl, d in inp[3]:
                    if d == "eof":
                        t = "eof"
                    elif isinstance(d, (tuple, list)):
                        t = "err %d" % d[1]
                    else:
                        if not d:
                            continue
                        t = hx(d)
                    o.append("ev %d %d %d %s" % (i, aw, dl, t))
            elif inp[0] == "pipe":
                o.append("in %d pipe %d %d" % (i, inp[1], inp[2]))
            elif inp[0] == "closed":
                o.append("in %d closed" % i)
            out = n.get("out")
            if out:
                if out[0] == "sink":
                    o.append("out %d sink %d %d" % (i, out[1], out[2]))
                elif out[0] == "file":
                    o.append("out %d file %s" % (i, hx(out[1])))
                else:
                    o.append("out %d %s" % (i, out[0]))
        for nd, op, path, nth, kind, arg, st in self.faults:
            o.append("fault %s %s %s %d %s %d %d" % ("*" if nd is None else nd, op, "*" if path is None else hx(path), nth,
                                                     kind, arg, st))
        for nd, st, mid in self.kills:
            o.append("kill %d %d %d" % (nd, st, mid))
        return "\n".join(o) + "\n"

    def to_json(self):
        def enc(x):
            if isinstance(x, (bytes, bytearray)):
                return {"b": bytes(x).decode("latin1")}
            if isinstance(x, (list, tuple)):
                return [enc(y) for y in x]
            if isinstance(x, dict):
                return {k: enc(v) for k, v in x.items()}
            return x
        return enc(self.__dict__)

    @staticmethod
    def from_json(j):
        def dec(x):
            if isinstance(x, dict):
                if set(x) == {"b"}:
                    return x["b"].encode("latin1")
                return {k: dec(v) for k, v in x.items()}
            if isinstance(x, list):
                return [dec(y) for y in x]
            return x
        p = Plan()
        p.__dict__.update(dec(j))
        return p


class NodeRes:
    def __init__(self, d):
        self.__dict__.update(d)
        self.stdout = bytes.fromhex(d["stdout"])
        self.stderr = bytes.fromhex(d["stderr"])

    @property
    def ending(self):
        return "%s:%d" % (self.end, self.val) if self.end in ("exit", "signal") else self.end


class Result:
    def __init__(self, j):
        self.hosterror = j.get("hosterror", 0) or j.get("hostsignal", 0)
        self.raw = j
        if self.hosterror:
            self.nodes, self.phases, self.hash = [], [], "hosterror%s/%s" % (j.get("hosterror"), j.get("hostsignal"))
            self.faults, self.steps, self.simns, self.sched, self.clocks, self.switches = [], 0, 0, "", [], 0
            return
        self.nodes = [NodeRes(n) for n in j["nodes"]]
        self.phases = [{k: bytes.fromhex(v) for k, v in p.items()} for p in j["phases"]]
        self.files = self.phases[-1]
        self.hash, self.sched, self.faults = j["hash"], j["sched"], j["faults"]
        self.steps, self.simns, self.switches, self.clocks = j["steps"], j["simns"], j["switches"], j["clocks"]
        self.trace = bytes.fromhex(j.get("trace", "")).decode("latin1")

    def __getitem__(self, i):
        for n in self.nodes:
            if n.id == i:
                return n
        raise KeyError(i)


class Hosts:
    """One simulator process per model; restarted when it breaks"""

    def __init__(self, kit):
        self.kit, self.p = kit, {}
        self.runs = 0

    def _get(self, model):
        p = self.p.get(model)
        if p is None or p.poll() is not None:
            env = {"PATH": "/usr/bin:/bin", "TZ": "UTC0", "LANG": "C"}
            p = self.p[model] = subprocess.Popen([self.kit.host[model]], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                                 env=env, cwd="/")
        return p

    def run(self, plan, timeout=60):
        p = self._get(plan.model)
        t = plan.text().encode("latin1")
        self.runs += 1
        try:
            p.stdin.write(b"%d\n" % len(t) + t)
            p.stdin.flush()
            r, _, _ = select.select([p.stdout], [], [], timeout)
            if not r:
                raise OSError("timeout")
            n = p.stdout.readline()
            if not n:
                raise OSError("host ended")
            data = p.stdout.read(int(n))
            return Result(json.loads(data))
        except (OSError, ValueError) as e:
            p.kill()
            p.wait()
            self.p[plan.model] = None
            return Result({"hosterror": 1, "hostsignal": str(e)})

    def close(self):
        for p in self.p.values():
            if p:
                p.stdin.close()
                p.wait()
        self.p = {}
