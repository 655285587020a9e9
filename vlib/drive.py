"""What all checks share: dividing the work, replaying, minimising, reporting, evidence."""
import collections, hashlib, json, multiprocessing, os, random, shutil, signal, sys, tempfile, time, traceback

from . import build
from .rt import Bad, HostError, Runner

VERIF = build.VERIF
BUDGET = {"quick": 420, "thorough": 3000}     # seconds after which no further cases are started


def scratchroot():
    return "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


class Family:
    """A kind of case.  make(rng, ctx) -> case (JSON-able); judge(ctx, case) -> label or raises Bad;
    shrink(case) -> iterator of smaller cases."""

    def __init__(self, name, make, judge, shrink=None, quick=100, thorough=2000, rule="", weight=1):
        self.name, self.make, self.judge, self.shrink = name, make, judge, shrink
        self.n = {"quick": quick, "thorough": thorough}
        self.rule = rule


class Ctx:
    """What a worker has"""

    def __init__(self, kit, scratch):
        self.kit, self.scratch = kit, scratch
        self.st = collections.Counter()
        self.keys = set()
        self._rn = self._cc = None
        self.labels = collections.Counter()

    @property
    def rn(self):
        if self._rn is None:
            self._rn = Runner(self.kit, os.path.join(self.scratch, "rt"))
            self._rn.st, self._rn.keys = self.st, self.keys
        return self._rn

    @property
    def cc(self):
        if self._cc is None:
            from .ccfam import CRunner
            self._cc = CRunner(self.kit)
            self._cc.st, self._cc.keys = self.st, self.keys
        return self._cc

    def close(self):
        if self._rn:
            self._rn.close()
        if self._cc:
            self._cc.close()


def rng_for(seed, prop, fam, i):
    return random.Random("%s/%s/%s/%d" % (seed, prop, fam, i))


def judged(ctx, fam, case):
    """None or (what, detail)"""
    try:
        if "remake" in case:
            # it was seen while the cases were being made: in the run without faults
            for _ in fam.make(rng_for(case["seed"][0], case["remake"], fam.name, case["seed"][1]), ctx):
                pass
            return None
        fam.judge(ctx, json.loads(json.dumps(case)))
    except Bad as b:
        return b.what, b.detail
    return None


def worker(w, nw, kit, prop, fams, seed, tier, q, t0, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    scratch = tempfile.mkdtemp(prefix="lacsap-w-", dir=scratchroot())
    ctx = Ctx(kit, scratch)
    res = {"bad": [], "done": collections.Counter(), "samples": [], "skipped": 0, "err": None, "hosterr": []}
    try:
        work = [(f, i) for f in fams for i in range(f.n[tier])][w::nw]
        random.Random(7).shuffle(work)
        for f, i in work:
            if time.time() - t0 > BUDGET[tier] or stop and stop.is_set():
                res["skipped"] += 1
                continue
            rng = rng_for(seed, prop, f.name, i)
            try:
                for case in f.make(rng, ctx):
                    if case is None:
                        continue
                    case = json.loads(json.dumps(case))
                    case["family"], case["seed"] = f.name, [seed, i]
                    try:
                        lab = f.judge(ctx, json.loads(json.dumps(case)))
                        ctx.labels[f.name + ":" + str(lab)] += 1
                        if len(res["samples"]) < 2 and rng.random() < .1:
                            res["samples"].append(case)
                    except Bad as b:
                        res["bad"].append((f.name, i, case, b.what, b.detail))
                        if stop:
                            stop.set()
                        if len(res["bad"]) >= 4:
                            res["skipped"] = -1
                            break
            except Bad as b:
                # while making the cases, without faults
                res["bad"].append((f.name, i, {"family": f.name, "seed": [seed, i], "remake": prop}, b.what, b.detail))
            except HostError as e:
                res["hosterr"].append("%s %d: %s" % (f.name, i, e))
            res["done"][f.name] += 1
            if res["skipped"] == -1 or len(res["hosterr"]) > 20:
                break
    except Exception:  # noqa
        res["err"] = traceback.format_exc()
    res["st"], res["keys"], res["labels"] = dict(ctx.st), list(ctx.keys), dict(ctx.labels)
    try:
        ctx.close()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    q.put(res)


def minimise(ctx, fam, case, what, limit):
    """Smaller cases that show the same kind of violation"""
    end = time.time() + limit
    kind = what.split(":")[0].split(" at ")[0][:30]
    best, n = case, 0
    again = "remake" not in case
    while again and time.time() < end and fam.shrink:
        again = False
        for c in fam.shrink(best):
            if time.time() > end:
                break
            n += 1
            try:
                b = judged(ctx, fam, c)
            except (HostError, Exception):  # noqa
                continue
            if b and b[0].split(":")[0].split(" at ")[0][:30] == kind:
                best, again = c, True
                break
    return best, n


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l[len("known: property=%s " % prop):])
    return out


def main(prop, fams, argv, level="exploration", kitargs=None, assumptions=()):
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(argv) > 0 and argv[0] in ("quick", "thorough"):
        tier = argv[0]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    kit = build.Kit(**(kitargs or {}))
    tb = time.time() - t0
    fams = [f for f in fams if f.n[tier] or argv[:1] == ["replay"]]
    if argv[:1] == ["replay"]:
        return replay(prop, fams, kit, argv[1])
    for a in argv:
        if a.startswith("family="):
            fams = [f for f in fams if f.name in a[7:].split(",")]
        if a.startswith("n="):
            for f in fams:
                f.n[tier] = int(a[2:])
        if a.startswith("scale="):
            for f in fams:
                f.n[tier] = max(8, int(f.n[tier] * float(a[6:])))
    fast = "fast" in argv          # the first violation will do, as it is
    stop = multiprocessing.Event()
    nw = int(os.environ.get("VERIF_WORKERS") or min(8, os.cpu_count() or 8))
    q = multiprocessing.Queue()
    t1 = time.time()
    ps = [multiprocessing.Process(target=worker, args=(w, nw, kit, prop, fams, seed, tier, q, t1, stop if fast else None)) for w in range(nw)]
    for p in ps:
        p.start()
    res = []
    while len(res) < nw:
        try:
            res.append(q.get(timeout=5))
        except Exception:  # noqa
            if all(not p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        p.join(10)
    wall = time.time() - t1
    errs = [r["err"] for r in res if r["err"]]
    hosterr = [h for r in res for h in r["hosterr"]]
    bad = sorted((b for r in res for b in r["bad"]), key=lambda b: (b[2] is None, b[0], b[1]))
    st, labels, done, keys = collections.Counter(), collections.Counter(), collections.Counter(), set()
    for r in res:
        st.update(r["st"])
        labels.update(r["labels"])
        done.update(r["done"])
        keys.update(r["keys"])
    status, nviol = 0, 0
    if bad and fast:
        print("VIOLATION property=%s replay=none %s %s" % (prop, bad[0][3], bad[0][4][:200]))
        return 1
    if bad:
        known = load_known(prop)
        status, nviol = report(prop, fams, kit, bad, known, tier)
    if not bad and (errs or len(res) < nw):
        sys.stderr.write("check error: %s\n" % (errs[0] if errs else "a worker died"))
        status = 3
    if not status and hosterr:
        sys.stderr.write("%d runs gave no answer, for example %s\n" % (len(hosterr), hosterr[0]))
        if len(hosterr) > 5:
            status = 3
    samples = [s for r in res for s in r["samples"]][:3]
    evidence(prop, tier, seed, level, fams, st, labels, done, keys, samples, time.time() - t0, wall, tb, nviol, kit,
             assumptions, nw, sum(max(0, r["skipped"]) for r in res), hosterr)
    faults = {k[6:]: v for k, v in st.items() if k.startswith("fault:")}
    print("%s %s seed %d: %d cases, %d runs in %.1f s (build %.1f s); %d distinct executions; faults %s; %s" % (
        prop, tier, seed, sum(done.values()), st["runs"], wall, tb, len(keys), faults or "none",
        "OK" if not status else "violations: %d" % nviol))
    return status


def report(prop, fams, kit, bad, known, tier):
    """Reproduce, minimise and report the violations"""
    byname = {f.name: f for f in fams}
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="lacsap-r-", dir=scratchroot())
    ctx = Ctx(kit, scratch)
    n, seen, flaky = 0, set(), 0
    t = time.time()
    try:
        for fam, i, case, what, detail in bad[:12]:
            if case is None:
                continue
            f = byname[fam]
            kind = (fam, what[:25])
            if kind in seen or (n and time.time() - t > 120):
                continue
            again = [judged(ctx, f, case) for _ in range(2)]
            if not all(again):
                flaky += 1
                sys.stderr.write("not reproducible: %s %d: %s %s\n" % (fam, i, what, detail))
                continue
            seen.add(kind)
            small, tries = minimise(ctx, f, case, what, 60 if n == 0 else 20)
            b = judged(ctx, f, small) or (what, detail)
            small["what"], small["detail"] = b
            small["property"] = prop
            h = hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(d, "%s-%s.json" % (prop, h))
            if any(k.split("|")[0].strip() in b[0] and k.split("|")[-1].strip() in b[1] for k in known):
                print("KNOWN-FINDING: property=%s %s" % (prop, b[0]))
                continue
            with open(path, "w") as o:
                json.dump(small, o, indent=1, sort_keys=True)
            # and once more in a fresh process
            rc = os.spawnve(os.P_WAIT, sys.executable, [sys.executable, os.path.join(VERIF, "check.py"), prop, "replay", path],
                            dict(os.environ, VERIF_QUIET="1"))
            if rc != 1:
                flaky += 1
                sys.stderr.write("does not replay in a fresh process: %s\n" % path)
                continue
            n += 1
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  family %s, case %d: %s" % (fam, i, b[0]))
            print("  " + b[1][:700].replace("\n", "\n  "))
            sys.stdout.flush()
    finally:
        ctx.close()
        shutil.rmtree(scratch, ignore_errors=True)
    if n:
        return 1, n
    if flaky:
        return 3, 0
    if any(c is None for _, _, c, _, _ in bad):
        sys.stderr.write("check error: %s\n" % (bad[0][3:],))
        return 3, 0
    return 0, 0


def replay(prop, fams, kit, path):
    case = json.load(open(path))
    f = {f.name: f for f in fams}[case["family"]]
    scratch = tempfile.mkdtemp(prefix="lacsap-r-", dir=scratchroot())
    ctx = Ctx(kit, scratch)
    try:
        b = judged(ctx, f, case)
    finally:
        ctx.close()
        shutil.rmtree(scratch, ignore_errors=True)
    quiet = os.environ.get("VERIF_QUIET")
    if b:
        if not quiet:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % b)
        return 1
    if not quiet:
        print("%s: no violation" % path)
    return 0


def evidence(prop, tier, seed, level, fams, st, labels, done, keys, samples, total, wall, tb, nviol, kit, assumptions, nw,
             skipped, hosterr):
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault:")}
    cov = {
        "evaluations": st["runs"], "distinct_nontrivial": len(keys),
        "rule": "One evaluation is one simulated execution of real code from one plan (program, input, schedule, faults, all "
                "derived from the seed). Two are the same when the hashes of their complete event logs (every call that "
                "reached the simulated kernel, its result and the step at which it happened) agree; only distinct ones are "
                "counted. " + " ".join("[%s: %s]" % (f.name, f.rule) for f in fams if f.rule),
        "samples": samples or ["none drawn"],
        "cases": dict(done), "outcomes": dict(labels), "faults_fired": faults, "compilations": st["compilations"],
        "simulated_steps": st["steps"], "simulated_seconds": round(st["simns"] / 1e9, 3),
        "context_switches": st["switches"], "runs_per_hour": int(st["runs"] / max(wall, .001) * 3600),
        "seeds_per_hour": int(sum(done.values()) / max(wall, .001) * 3600),
        "workers": nw, "build_s": round(tb, 1), "cases_not_started_for_time": skipped, "runs_without_answer": len(hosterr),
        "counters": {k: v for k, v in sorted(st.items()) if k.startswith(("n:", "outcome:"))},
        "real_components": REAL, "stubbed_components": STUB,
    }
    e = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(total, 2),
         "violations": nviol, "assumptions": list(assumptions)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json.tmp"), "w") as o:
        json.dump(e, o, indent=1, default=str)
    os.rename(os.path.join(d, prop + ".json.tmp"), os.path.join(d, prop + ".json"))


REAL = ["the compiler and the runtime library, built from /repo's working tree", "code generated by LLVM for the program",
        "the C library's stdio, printf and string code"]
STUB = ["kernel (files, descriptors, terminals, pipes, clocks): simulated in memory", "malloc: simulated arena",
        "process start and end", "time zone conversion by the C library's localtime on simulated time"]
