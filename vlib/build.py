"""Content-addressed build of /repo's sources (and of our harness drivers).

Nothing depends on time stamps or on /repo/_build: every object is keyed by the
text of its source, of every header of the tree, and of the flags.
"""
import hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(REPO, "src")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def _sources(subdir, var):
    """Source list of an automake _SOURCES variable (plus nothing generated)."""
    txt = open(os.path.join(SRC, subdir, "Makefile.am"), errors="replace").read()
    txt = txt.replace("\\\n", " ")
    m = re.search(r"^\s*%s\s*=(.*)$" % re.escape(var), txt, re.M)
    if not m:
        raise BuildError("no %s in src/%s/Makefile.am" % (var, subdir))
    return [os.path.normpath(os.path.join(subdir, s)) for s in m.group(1).split()]


GROUPS = {
    "tools": lambda: _sources("tools", "libtools_la_SOURCES") + ["tools/Thread.cpp"],
    "math": lambda: _sources("math", "libmath_la_SOURCES"),
    "linalg": lambda: _sources("linalg", "liblinalg_la_SOURCES"),
    "fft": lambda: _sources("fft", "libfft_la_SOURCES"),
    "qdlib": lambda: _sources("qdlib", "libqd_la_SOURCES"),
    "slatec": lambda: _sources("slatec", "libslatecmin_la_SOURCES"),
    "modules": lambda: _sources("modules", "libModuleLoader_la_SOURCES"),
    "main": lambda: _sources("", "qdng_SOURCES"),
    "simplexml": lambda: ["simpleXml/Simple2Xml.cpp"],
}
GENERATED = {
    "tools": ["tools/FileSingleHeader.pb.cc"],
    "qdlib": ["qdlib/GridSystem.pb.cc"],
    "main": ["IACmds.pb.cc"],
    "simplexml": ["simpleXml/grammar.cc", "simpleXml/simpleXml.cc"],
}
LIB = ["tools", "math", "linalg", "fft", "qdlib", "slatec", "modules"]
ALL = LIB + ["main", "simplexml"]

LIBS = ["-llapack", "-lblas", "-lfftw3_omp", "-lfftw3", "-lxml2", "-lprotobuf", "-lbz2", "-lz",
        "-lgfortran", "-ldl", "-lpthread", "-lm"]

VARIANTS = {
    "o0": ["-O0", "-g1"],
    "asan": ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment",
             "-fno-omit-frame-pointer"],
    "ndebug": ["-O0", "-g1", "-DNDEBUG"],
}


class Builder:
    def __init__(self, variant="o0", extra_cxx=(), tag=""):
        self.variant = variant
        self.flags = VARIANTS[variant] + list(extra_cxx)
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        self.gen = self._generate()
        self._hdr = None

    # -- generated sources -------------------------------------------------
    def _generate(self):
        ins = ["IACmds.proto", "qdlib/GridSystem.proto", "tools/FileSingleHeader.proto",
               "simpleXml/grammar.yy", "simpleXml/simpleXml.ll"]
        h = hashlib.sha256()
        for i in ins:
            h.update(open(os.path.join(SRC, i), "rb").read())
        h.update(open(os.path.join(VERIF, "harness", "config.h"), "rb").read())
        gen = os.path.join(BUILD, "gen-" + h.hexdigest()[:20])
        if os.path.isfile(os.path.join(gen, ".done")):
            return gen
        shutil.rmtree(gen, ignore_errors=True)
        for d in ("tools", "qdlib", "simpleXml"):
            os.makedirs(os.path.join(gen, d))
        shutil.copy(os.path.join(VERIF, "harness", "config.h"), gen)
        _run(["protoc", "--proto_path=" + SRC, "--cpp_out=" + gen, os.path.join(SRC, "IACmds.proto")])
        _run(["protoc", "--proto_path=" + SRC + "/qdlib", "--cpp_out=" + gen + "/qdlib",
              SRC + "/qdlib/GridSystem.proto"])
        _run(["protoc", "--proto_path=" + SRC + "/tools", "--cpp_out=" + gen + "/tools",
              SRC + "/tools/FileSingleHeader.proto"])
        _run(["bison", "-d", "-o", gen + "/simpleXml/grammar.cc", SRC + "/simpleXml/grammar.yy"])
        _run(["flex", "-o", gen + "/simpleXml/simpleXml.cc", SRC + "/simpleXml/simpleXml.ll"])
        open(os.path.join(gen, ".done"), "w").close()
        return gen

    def _headers_hash(self):
        if self._hdr is None:
            h = hashlib.sha256()
            for root in (SRC, self.gen):
                for d, ds, fs in sorted(os.walk(root)):
                    ds.sort()
                    for f in sorted(fs):
                        if f.endswith((".h", ".hh", ".hpp")):
                            p = os.path.join(d, f)
                            h.update(os.path.relpath(p, root).encode())
                            h.update(open(p, "rb").read())
            self._hdr = h.hexdigest()
        return self._hdr

    def _includes(self):
        return ["-I" + self.gen, "-I" + self.gen + "/qdlib", "-I" + self.gen + "/tools",
                "-I" + self.gen + "/simpleXml", "-I" + SRC, "-I" + SRC + "/simpleXml",
                "-I/usr/include/libxml2", "-I" + os.path.join(VERIF, "harness")]

    def _cmd(self, path):
        if path.endswith(".f"):
            return ["gfortran", "-O1", "-fPIC", "-w", "-c"]
        return (["g++", "-std=gnu++17", "-w", "-fopenmp", "-DHAVE_CONFIG_H"] + self.flags +
                self._includes() +
                ['-DQD_SYS_MOD_PATH="/nonexistent/qdng"', '-DQDNG_BUILD_DATE="d"',
                 '-DQDNG_BUILD_HOST="h"', '-DQDNG_BUILD_MACH="m"', '-DQDNG_REV="r"', "-c"])

    def compile(self, path, extra=()):
        cmd = self._cmd(path)
        cmd = cmd[:-1] + list(extra) + ["-c"]
        h = hashlib.sha256()
        h.update("\0".join(cmd).encode())
        h.update(path.encode())
        h.update(open(path, "rb").read())
        if not path.endswith(".f"):
            h.update(self._headers_hash().encode())
            if path.startswith(os.path.join(VERIF, "harness")):
                for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
                    if f.endswith(".h"):
                        h.update(open(os.path.join(VERIF, "harness", f), "rb").read())
        obj = os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")
        if not os.path.isfile(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            _run(cmd + ["-o", tmp, path])
            os.rename(tmp, obj)
        return obj

    def sources(self, groups):
        out = []
        for g in groups:
            for s in GROUPS[g]():
                p = os.path.join(SRC, s)
                if s == "qdng.cpp":
                    continue
                if not p.endswith((".cpp", ".f", ".cc")):
                    continue
                out.append(p)
            out += [os.path.join(self.gen, s) for s in GENERATED.get(g, [])]
        return sorted(set(out), key=lambda p: -os.path.getsize(p))

    def archive(self, groups):
        srcs = self.sources(groups)
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(self.compile, srcs))
        key = hashlib.sha256("".join(sorted(objs)).encode()).hexdigest()[:24]
        ar = os.path.join(BUILD, "lib-%s.a" % key)
        if not os.path.isfile(ar):
            tmp = ar + ".%d" % os.getpid()
            _run(["ar", "crs", tmp] + objs)
            os.rename(tmp, ar)
        return ar

    def program(self, name, sources, groups, extra=(), link=()):
        """Build an executable from harness (or /repo) sources + library groups."""
        with ThreadPoolExecutor(2) as ex:
            far = ex.submit(self.archive, groups)
            objs = [self.compile(s if os.path.isabs(s) else os.path.join(VERIF, "harness", s), extra)
                    for s in sources]
            ar = far.result()
        key = hashlib.sha256(("".join(objs) + ar + " ".join(link)).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, "%s-%s-%s" % (name, self.variant, key))
        if not os.path.isfile(exe):
            tmp = exe + ".%d" % os.getpid()
            san = [f for f in self.flags if f.startswith("-fsanitize")]
            _run(["g++", "-fopenmp", "-rdynamic"] + san + objs + ["-Wl,--start-group", ar, "-Wl,--end-group"] +
                 LIBS + list(link) + ["-o", tmp])
            os.rename(tmp, exe)
        return exe


def qdng(builder=None):
    """The qdng binary itself, built from the current tree."""
    b = builder or Builder()
    return b.program("qdng", [os.path.join(SRC, "qdng.cpp")], ALL)
