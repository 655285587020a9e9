"""Builds, from /repo's working tree, everything the checks run: the compiler, the runtime (64 and 32 bit), and the
simulators that host them.  Results are cached under /verif/.build by the contents of the sources, so that a check
that follows another on the same tree need not build again; nothing is written inside /repo."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LACSAP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LLVM = "/usr/lib/llvm-18/bin/llvm-config"
ENVPATH = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
CXX, CC, LD = "/usr/bin/clang++", "/usr/bin/clang", "/usr/bin/ld"


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["PATH"] = ENVPATH
    e["LANG"] = "C.UTF-8"
    e["CCACHE_DISABLE"] = "1"
    for k in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "C_INCLUDE_PATH"):
        e.pop(k, None)
    return e


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env(), **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("latin1")[-4000:]))
    return p.stdout.decode("latin1")


def _parallel(cmds, jobs=8, then=(), gate=None):
    """Run the commands side by side; those in `then` may start as soon as command number `gate` has succeeded."""
    procs, errs, env = [], [], _env()
    wait = list(cmds)
    gatecmd = wait[gate] if gate is not None else None
    held = list(then)
    while wait or procs:
        while wait and len(procs) < jobs:
            c = wait.pop(0)
            f = __import__("tempfile").TemporaryFile()
            procs.append((c, subprocess.Popen(c, stdout=f, stderr=subprocess.STDOUT, env=env), f))
        time.sleep(0.005)
        for x in list(procs):
            c, p, f = x
            if p.poll() is None:
                continue
            procs.remove(x)
            if p.returncode:
                f.seek(0)
                errs.append("%s\n%s" % (" ".join(c), f.read().decode("latin1")[-3000:]))
            elif c is gatecmd:
                wait += held
                held = []
            f.close()
    if errs:
        raise BuildError("\n".join(errs))


def _objects(makefile, ext):
    """The objects a Makefile lists; everything that matches if that cannot be read."""
    d = os.path.dirname(makefile)
    have = {os.path.basename(p)[:-len(ext)] for p in glob.glob(os.path.join(d, "*" + ext))}
    try:
        t = open(makefile).read().replace("\\\n", " ")
        m = re.search(r"^OBJECTS\s*=(.*)$", t, re.M)
        names = [w[:-2] for w in m.group(1).split() if w.endswith(".o")]
        names = [n for n in names if n in have]
        if names:
            return names
    except (OSError, AttributeError):
        pass
    return sorted(have)


def _hash(paths, *extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:20]


def _locked(name, make, log):
    """make(dir) once per name; the directory appears complete or not at all"""
    os.makedirs(BUILD, exist_ok=True)
    final = os.path.join(BUILD, name)
    if os.path.exists(os.path.join(final, ".done")):
        os.utime(final)
        return final
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, ".done")):
            return final
        if os.path.exists(final):
            shutil.rmtree(final)
        os.makedirs(final)
        t = time.time()
        make(final)
        open(os.path.join(final, ".done"), "w").close()
        log.append((name.split("-")[0], round(time.time() - t, 1)))
    _prune(name.split("-")[0])
    return final


def _prune(kind):
    ds = [d for d in glob.glob(os.path.join(BUILD, kind + "-*")) if os.path.isdir(d)]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-4]:
        if time.time() - os.path.getmtime(d) > 1200:
            shutil.rmtree(d, ignore_errors=True)
            try:
                os.unlink(d + ".lock")
            except OSError:
                pass


RTFLAGS = ["-g0", "-w", "-std=c11", "-O2", "-fPIC", "-fsanitize=array-bounds", "-fsanitize-trap=all"]


def wraps(host):
    out = subprocess.run(["nm", "--defined-only", host], stdout=subprocess.PIPE, check=True).stdout.decode()
    return sorted({l.split()[-1][len("__wrap_"):] for l in out.splitlines() if l.split()[-1].startswith("__wrap_")})


class Kit:
    """What the checks use: paths of the built artefacts"""

    def __init__(self, compiler=True, runtime=True, ccsim=False):
        self.log = []
        sim = sorted(glob.glob(os.path.join(VERIF, "sim", "*")))
        sim = [p for p in sim if os.path.isfile(p)]
        res, errs = {}, []

        def part(key, name, make):
            try:
                res[key] = _locked(name, make, self.log)
            except Exception as e:  # noqa
                errs.append(e)

        # the host simulators depend only on /verif
        parts = [("host", "host-" + _hash(sim), self._host)]
        if runtime:
            rt = glob.glob(os.path.join(REPO, "runtime", "*.[ch]")) + [os.path.join(REPO, "runtime", "Makefile")]
            parts.append(("rt", "rt-" + _hash(rt, RTFLAGS), self._runtime))
        if compiler or ccsim:
            src = glob.glob(os.path.join(REPO, "*.cpp")) + glob.glob(os.path.join(REPO, "*.h")) + [
                os.path.join(REPO, "Makefile")]
            parts.append(("cc", "cc-" + _hash(src + sim), self._compiler))
        ts = [threading.Thread(target=part, args=p) for p in parts]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        host = res["host"]
        self.host = {64: os.path.join(host, "simhost"), 32: os.path.join(host, "simhost32")}
        self.stubdir = os.path.join(host, "stub")
        self.wraps = open(os.path.join(host, "wraps")).read().split()
        if runtime:
            d = self.rtdir = res["rt"]
            self.rt = {m: sorted(glob.glob(os.path.join(d, "m%d" % m, "*.o"))) for m in (64, 32)}
            self.gcc = {m: os.path.join(d, "libgcc%d.a" % m) for m in (64, 32)}
        if compiler or ccsim:
            d = self.ccdir = res["cc"]
            self.lacsap = os.path.join(d, "bin", "lacsap")
            self.ccsim = os.path.join(d, "ccsim")

    def _host(self, d):
        s = os.path.join(VERIF, "sim")
        cmds = [[CC, "-O1", "-g", "-w", "-rdynamic", "-o", d + "/simhost", s + "/simhost.c", "-ldl", "-lm"],
                [CC, "-m32", "-O1", "-g", "-w", "-rdynamic", "-o", d + "/simhost32", s + "/simhost.c", "-ldl", "-lm"]]
        os.makedirs(d + "/stub")
        _parallel(cmds)
        with open(d + "/stub/clang", "w") as f:
            f.write("#!/bin/sh\nexit 0\n")
        os.chmod(d + "/stub/clang", 0o755)
        with open(d + "/wraps", "w") as f:
            f.write("\n".join(wraps(d + "/simhost")))

    def _runtime(self, d):
        names = _objects(os.path.join(REPO, "runtime", "Makefile"), ".c")
        cmds = []
        for m in (64, 32):
            os.makedirs("%s/m%d" % (d, m))
            fl = ["-m32"] if m == 32 else []
            for n in names:
                cmds.append([CC] + RTFLAGS + fl + ["-c", os.path.join(REPO, "runtime", n + ".c"), "-o",
                                                   "%s/m%d/%s.o" % (d, m, n)])
        _parallel(cmds)
        for m in (64, 32):
            lib = _run(["/usr/bin/gcc"] + (["-m32"] if m == 32 else []) + ["-print-libgcc-file-name"]).strip()
            shutil.copy(lib, "%s/libgcc%d.a" % (d, m))

    def _compiler(self, d):
        names = _objects(os.path.join(REPO, "Makefile"), ".cpp")
        fl = _run([LLVM, "--cxxflags"]).split()
        fl = [f for f in fl if not re.match(r"-(O|g|W|DNDEBUG)", f)]
        cxx = [CXX, "-std=c++17", "-O0", "-w", "-DNDEBUG=1"] + fl + ["-fno-exceptions", "-fno-rtti"]
        # LLVM's headers are most of the work: those that several files share are compiled once
        count = {}
        files = [os.path.join(REPO, n + ".cpp") for n in names if n != "lacsap"] + glob.glob(os.path.join(REPO, "*.h"))
        for f in files:
            for h in set(re.findall(r"^\s*#\s*include\s*<([^>]+)>", open(f, errors="replace").read(), re.M)):
                count[h] = count.get(h, 0) + (2 if f.endswith(".h") else 1)
        with open(d + "/pch.h", "w") as f:
            f.write("".join("#if __has_include(<%s>)\n#include <%s>\n#endif\n" % (h, h) for h in sorted(count) if count[h] > 1))
        os.makedirs(d + "/bin")
        with open(d + "/main.cpp", "w") as f:
            f.write("int lacsap_main(int, char**);\nint main(int c, char** v) { return lacsap_main(c, v); }\n")
        inst = ["-fpch-instantiate-templates"]
        main = ["-Dmain=lacsap_main", "-c", os.path.join(REPO, "lacsap.cpp"), "-o", d + "/lacsap.o"]
        first = [cxx + inst + ["-x", "c++-header", d + "/pch.h", "-o", d + "/pch.h.pch"],
                 [CXX, "-O0", "-c", d + "/main.cpp", "-o", d + "/main.o"]]
        if "lacsap" in names:
            first.insert(1, cxx + main)
        cs = os.path.join(VERIF, "sim", "ccsim.cpp")
        if os.path.exists(cs):
            first.append([CXX, "-std=c++17", "-O1", "-g", "-w", "-c", cs, "-o", d + "/ccsim.o"])
        rest = []
        for n in sorted(names, key=lambda n: -os.path.getsize(os.path.join(REPO, n + ".cpp"))):
            if n != "lacsap":
                rest.append(cxx + inst + ["-include-pch", d + "/pch.h.pch", "-c", os.path.join(REPO, n + ".cpp"), "-o",
                                          "%s/%s.o" % (d, n)])
        try:
            _parallel(first, then=rest, gate=0)
        except BuildError:
            # without the precompiled header, in case that is what broke it
            drop = {"-include-pch", d + "/pch.h.pch"} | set(inst)
            _parallel([c for c in first[1:]] + [[a for a in c if a not in drop] for c in rest])
        objs = ["%s/%s.o" % (d, n) for n in names]
        link = _run([LLVM, "--ldflags", "--libs", "--system-libs"]).split()
        cmds = [[CXX, "-fuse-ld=lld", "-rdynamic", "-o", d + "/bin/lacsap"] + objs + [d + "/main.o"] + link]
        if os.path.exists(cs):
            cmds.append([CXX, "-fuse-ld=lld", "-rdynamic", "-o", d + "/ccsim"] + objs + [d + "/ccsim.o"] + link +
                        ["-ldl", "-lpthread"])
        _parallel(cmds)
        for n in names:
            os.unlink("%s/%s.o" % (d, n))
        if os.path.exists(d + "/pch.h.pch"):
            os.unlink(d + "/pch.h.pch")

    # ------------------------------------------------------------------ programs
    def compile(self, src, outso, opts=("-O1",), model=64, keep=None, timeout=20):
        """Compile the Pascal file src and link it with the runtime into a shared object for the simulator.
        Returns (ok, text)."""
        d = os.path.dirname(src)
        env = {"PATH": self.stubdir, "LANG": "C.UTF-8"}
        cmd = [self.lacsap] + list(opts) + (["-m32"] if model == 32 else []) + [os.path.basename(src)]
        try:
            p = subprocess.run(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            return False, "compiler timed out"
        txt = p.stdout.decode("latin1")
        obj = src[:-4] + ".o"
        if p.returncode or not os.path.exists(obj):
            return False, "status %d: %s" % (p.returncode, txt)
        q = self.link(obj, outso, model)
        if q:
            return False, q
        if not keep:
            os.unlink(obj)
        return True, txt

    def link(self, obj, outso, model):
        cmd = [LD, "-shared", "-Bsymbolic", "-z", "norelro", "-z", "now", "-z", "notext", "--warn-unresolved-symbols",
               "-z", "execstack", "-m", "elf_x86_64" if model == 64 else "elf_i386", "-o", outso, obj]
        cmd += self.rt[model] + [self.gcc[model]] + ["--wrap=" + w for w in self.wraps]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env())
        return p.stdout.decode("latin1") if p.returncode else ""


def cleanup_scratch(d):
    shutil.rmtree(d, ignore_errors=True)
