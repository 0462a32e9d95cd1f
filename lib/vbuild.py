"""Builds /repo's libraries and programs (from its current working tree) and the harnesses of /verif.

Objects are cached in /verif/.build by the content of every file they depend on (-MD), so a change
anywhere in /repo/src is always seen; nothing of /repo/_build is used."""
import hashlib, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
OUT = os.path.join(VERIF, ".build")
NPROC = os.cpu_count() or 8
X264 = ["/usr/lib/x86_64-linux-gnu/libx264.a", "-lpthread", "-lm", "-ldl"]

class BuildError(Exception):
    pass

_hcache = {}
def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return "missing"
    k = (p, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in _hcache:
        _hcache[k] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    return _hcache[k]

VARIANTS = {
    # the way the project is built by default
    "opt": dict(flags=["-O2", "-g0"], ndebug=True, simd=True),
    # the same code with assertions on
    "dbg": dict(flags=["-O1", "-g0"], ndebug=False, simd=True),
    # the portable (no SSE2) kernels
    "portable": dict(flags=["-O2", "-g0"], ndebug=True, simd=False),
    # sanitizers (SIMD kernels are assembly: not instrumented, still executed)
    "san": dict(flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-std=c++17",
                       "-fno-sanitize=vptr,alignment,shift", "-fno-sanitize-recover=undefined"],
                ndebug=True, simd=True),
    "sanport": dict(flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-std=c++17",
                           "-fno-sanitize=vptr,alignment,shift", "-fno-sanitize-recover=undefined"],
                    ndebug=True, simd=False),
}
VARIANTS["tsan"] = dict(flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"], ndebug=True, simd=False)
LIBS = ["decoder", "encoder", "util", "net", "input"]

def sources(libdir):
    """The *_SOURCES of a library's Makefile.am."""
    d = os.path.join(SRC, libdir)
    txt = open(os.path.join(d, "Makefile.am")).read().replace("\\\n", " ")
    r = []
    for m in re.finditer(r"^lib\w+_a_SOURCES\s*=(.*)$", txt, re.M):
        r += [os.path.join(d, f) for f in m.group(1).split() if f.endswith((".cc", ".asm"))]
    return r

class Builder:
    def __init__(self, variant="opt", log=None):
        self.variant = variant
        self.v = VARIANTS[variant]
        self.dir = os.path.join(OUT, variant)
        os.makedirs(self.dir, exist_ok=True)
        cfg = os.path.join(self.dir, "config.h")
        txt = "#define ARCH_X86_64 1\n" + ("#define HAVE_SSE2 1\n" if self.v["simd"] else "/* no SSE2 */\n") \
            + '#define PACKAGE_VERSION "0.1"\n'
        if not os.path.exists(cfg) or open(cfg).read() != txt:
            open(cfg, "w").write(txt)
        self.inc = ["-I" + self.dir] + ["-I" + os.path.join(SRC, d) for d in
                    ("util", "decoder", "encoder", "net", "input")] + ["-I" + os.path.join(VERIF, "lib")]

    def cxxflags(self, src):
        f = ["-std=c++14", "-pthread", "-w", "-include", "cstdint"] + self.v["flags"]
        # as in the project: everything but net is compiled with NDEBUG
        if self.v["ndebug"] and not src.startswith(os.path.join(SRC, "net") + "/"):
            f.append("-DNDEBUG")
        return f

    def compile(self, src, extra=(), std=None, tag=""):
        """Compiles one source; returns (obj, error or None)."""
        asm = src.endswith(".asm")
        if asm:
            cmd = ["yasm", "-f", "elf64", "-I", os.path.dirname(src) + "/", src]
        else:
            fl = self.cxxflags(src)
            if std:
                fl[0] = "-std=" + std
            # extra include paths come first (stand-ins for headers of the project)
            pre = [e for e in extra if e.startswith("-iquote")]
            post = [e for e in extra if not e.startswith("-iquote")]
            cmd = ["g++"] + fl + pre + self.inc + post + ["-c", src]
        key = hashlib.sha256(json.dumps([cmd, tag]).encode()).hexdigest()[:20]
        base = os.path.basename(src).rsplit(".", 1)[0]
        obj = os.path.join(self.dir, f"{base}-{key}.o")
        man = obj + ".deps"
        if os.path.exists(obj) and os.path.exists(man):
            try:
                deps = json.load(open(man))
                if all(fhash(p) == h for p, h in deps.items()):
                    return obj, None
            except ValueError:
                pass
        tmp = obj + f".tmp{os.getpid()}"
        if asm:
            p = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
            dl = [src] + [os.path.join(os.path.dirname(src), f) for f in
                          ("config.asm", "x86inc.asm", "x86_abi_support.asm")]
        else:
            p = subprocess.run(cmd + ["-o", tmp, "-MD", "-MF", tmp + ".d"], capture_output=True, text=True)
            dl = []
            if p.returncode == 0:
                d = open(tmp + ".d").read().replace("\\\n", " ")
                dl = [x for x in d.split(":", 1)[1].split() if not x.startswith("/usr/")]
                os.unlink(tmp + ".d")
        if p.returncode:
            return obj, f"{' '.join(cmd)}\n{p.stderr[-6000:]}"
        os.replace(tmp, obj)
        json.dump({f: fhash(f) for f in dl}, open(man, "w"))
        return obj, None

    def compile_all(self, jobs):
        """jobs: list of (src, extra, tag)."""
        with ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(lambda j: self.compile(j[0], j[1], tag=j[2]), jobs))
        errs = [e for _, e in rs if e]
        if errs:
            raise BuildError("\n".join(errs))
        return [o for o, _ in rs]

    def lib_jobs(self, libs=("decoder", "encoder", "util", "net")):
        j = []
        for l in libs:
            for s in sources(l):
                j.append((s, (), ""))
        return j

    def program(self, name, srcs, libs=("decoder", "encoder", "util"), extra=(), ldextra=(), whole=False):
        """srcs: list of path or (path, extra flags). Builds libs + srcs in parallel, links."""
        jobs = []
        for s in srcs:
            if isinstance(s, str):
                jobs.append((s, tuple(extra), ""))
            else:
                jobs.append((s[0], tuple(extra) + tuple(s[1]), ""))
        n = len(jobs)
        # big ones first
        lj = sorted(self.lib_jobs(libs), key=lambda j: -os.path.getsize(j[0]) if "encoder.cc" not in j[0] else -10**9)
        objs = self.compile_all(jobs + lj)
        main, lib = objs[:n], objs[n:]
        exe = os.path.join(self.dir, name)
        h = hashlib.sha256(json.dumps([name, list(ldextra), whole, [(o, fhash(o)) for o in objs]]).encode()).hexdigest()
        stamp = exe + ".stamp"
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
            return exe
        ar = exe + ".a"
        if os.path.exists(ar):
            os.unlink(ar)
        p = subprocess.run(["ar", "rcs", ar] + lib, capture_output=True, text=True)
        if p.returncode:
            raise BuildError(p.stderr)
        fl = [f for f in self.v["flags"] if f.startswith("-fsanitize")]
        a = [ar]
        p = subprocess.run(["g++", "-pthread", "-no-pie", "-Wl,-z,muldefs"] + fl + main + a + list(ldextra) + X264 + ["-ljpeg", "-o", exe],
                           capture_output=True, text=True)
        os.unlink(ar)
        if p.returncode:
            raise BuildError("link: " + p.stderr[-6000:])
        open(stamp, "w").write(h)
        return exe
