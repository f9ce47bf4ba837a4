"""Incremental, content-addressed builds of the code under test and the harnesses.

Everything is compiled from /repo's current working tree (mirrored, and translated to
Python 3 where needed, by sync.py).  An object file is reused only when the hash of every
file it could depend on is unchanged, so a check always judges the current tree."""

import hashlib
import os
import re
import subprocess
import sys
import glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("VT_BUILD", os.path.join(V, "build"))
TREE = os.path.join(B, "tree")
PY = "/usr/bin/python3"
NIW_SRC = "src/models/niw.cc"
LIB_SRC = ["src/common.cc", "src/special.cc", "src/random.cc", "src/vector_math.cc", "src/clustering.cc",
           "src/models/nich.cc", "src/models/gp.cc"]
PB_SRC = "src/io/schema.pb.cc"

FAST = "-ffast-math -funsafe-math-optimizations"
BASE = "-std=c++17 -mfpmath=sse -msse4.1 -w -I%s/include -I%s/cpp -I/usr/include/eigen3" % (TREE, V)
PROD = "-fPIC -std=c++0x -mfpmath=sse -O3 -msse4.1 %s -w -DDIST_DEBUG_LEVEL=3 -DDIST_THROW_ON_ERROR -I%s/include -I/usr/include/eigen3" % (FAST, TREE)
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
TSAN = "-fsanitize=thread -Wno-tsan"
VARIANTS = {
    # name: (compiler, library flags, harness flags, link flags)
    "rel": ("g++", BASE + " -O2 " + FAST + " -DDIST_DEBUG_LEVEL=0", BASE + " -O2 " + FAST + " -DDIST_DEBUG_LEVEL=0", ""),
    "san": ("g++", BASE + " -O1 -g1 -DDIST_DEBUG_LEVEL=3 " + SAN, BASE + " -O1 -g1 -DDIST_DEBUG_LEVEL=3 -DVT_SAN " + SAN, SAN),
    # checking on and reported by exceptions, as setup.py builds the Python modules
    "chk": ("g++", BASE + " -O1 " + FAST + " -DDIST_DEBUG_LEVEL=3 -DDIST_THROW_ON_ERROR", BASE + " -O1 " + FAST + " -DDIST_DEBUG_LEVEL=3 -DDIST_THROW_ON_ERROR", ""),
    # data races
    "tsan": ("g++", BASE + " -O1 -g1 -DDIST_DEBUG_LEVEL=0 " + FAST + " " + TSAN, BASE + " -O1 -g1 -DDIST_DEBUG_LEVEL=0 " + FAST + " " + TSAN, TSAN),
    "fuzz": ("clang++", BASE + " -O1 -g1 -DDIST_DEBUG_LEVEL=3 -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=undefined -fno-sanitize=function,vptr",
             BASE + " -O1 -g1 -DDIST_DEBUG_LEVEL=3 -DVT_SAN -DENGINE_FUZZER -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=undefined -fno-sanitize=function,vptr",
             "-fsanitize=fuzzer,address,undefined"),
}


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("%s\n%s" % (cmd, p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def sync():
    env = dict(os.environ, VT_TREE=TREE, VT_CACHE=os.path.join(B, "2to3-cache"), PYTHONDONTWRITEBYTECODE="1")
    sh("%s %s/tools/sync.py" % (PY, V), env=env)
    # generated protobuf code: what 'make protobuf' does
    stamp = os.path.join(B, "protoc.stamp")
    proto = open(os.path.join(TREE, "distributions/io/schema.proto")).read()
    outs = [os.path.join(TREE, x) for x in ("include/distributions/io/schema.pb.cc", "include/distributions/io/schema.pb.h",
                                            "src/io/schema.pb.cc", "distributions/io/schema_pb2.py")]
    if not (os.path.exists(stamp) and open(stamp).read() == proto and all(map(os.path.exists, outs))):
        sh("protoc --cpp_out=include --python_out=. distributions/io/schema.proto && mkdir -p src/io && "
           "cp include/distributions/io/schema.pb.cc src/io/", cwd=TREE)
        with open(stamp, "w") as f:
            f.write(proto)


    lib_sources()


def lib_sources():
    """the library's sources, as src/CMakeLists.txt lists them"""
    try:
        text = open(os.path.join(TREE, "src/CMakeLists.txt")).read()
        m = re.search(r"set\(DISTRIBUTIONS_SOURCE_FILES\s+([^)$]*)\)", text)
        found = ["src/" + f for f in m.group(1).split()]
    except (OSError, AttributeError):
        return
    if found and all(os.path.exists(os.path.join(TREE, f)) for f in found):
        LIB_SRC[:] = [f for f in found if f not in (NIW_SRC, PB_SRC)]


def headers():
    r = []
    for top in ("include", "src"):
        for d, _, fs in os.walk(os.path.join(TREE, top)):
            r += [os.path.join(d, f) for f in fs if top == "include" or not f.endswith(".cc")]
    return r


class Builder:
    """Collects compile jobs, runs them 8 at a time (longest first), then links."""

    def __init__(self):
        os.makedirs(os.path.join(B, "obj"), exist_ok=True)
        self.lib_dep = headers()
        self.e_dep = glob.glob(os.path.join(V, "cpp", "*.hpp"))
        self.h_dep = self.lib_dep + glob.glob(os.path.join(V, "cpp", "*.hpp"))
        self.jobs = {}
        self.post = []
        self.hcache = {}

    def _dig(self, deps_key, deps, src, cmd):
        if deps_key not in self.hcache:
            self.hcache[deps_key] = digest(deps)
        return digest([src], self.hcache[deps_key] + cmd)

    def obj(self, src, compiler, flags, deps_key, deps, cost):
        cmd = "%s %s -c %s" % (compiler, flags, src)
        out = os.path.join(B, "obj", "%s-%s.o" % (os.path.basename(src), self._dig(deps_key, deps, src, cmd)))
        if not os.path.exists(out):
            self.jobs[out] = (cost, "%s -o %s.tmp%d && mv %s.tmp%d %s" % (cmd, out, os.getpid(), out, os.getpid(), out))
        return out

    def library(self, variant, niw):
        comp, lib, _, _ = VARIANTS[variant]
        srcs = [(s, 4) for s in LIB_SRC] + [(PB_SRC, 5)] + ([(NIW_SRC, 30)] if niw else [])
        objs = []
        for s, cost in srcs:
            f = lib
            if s == PB_SRC:
                f = lib.replace("-O2", "-O1")
                if variant != "rel":
                    f = f.replace(SAN, "").replace("-fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=undefined -fno-sanitize=function,vptr", "")
            if s == NIW_SRC:
                f = lib.replace("-O2", "-O1")
            objs.append(self.obj(os.path.join(TREE, s), comp, f, "lib", self.lib_dep, cost))
        return objs

    def harness(self, name, variant, parts):
        """parts: list of PART numbers; 2 and 3 need niw."""
        comp, _, hf, lf = VARIANTS[variant]
        niw = any(p in (2, 3) for p in parts)
        objs = self.library(variant, niw)
        plain = hf.replace(FAST, "")
        for e in ("engine.cc", "oracle.cc"):
            objs.append(self.obj(os.path.join(V, "cpp", e), comp, plain, "e", self.e_dep, 6))
        src = os.path.join(V, "cpp", name + ".cc")
        for p in parts:
            f = hf.replace("-O2", "-O1") if p in (2, 3) else hf
            objs.append(self.obj(src, comp, f + " -DPART=%d" % p, "h", self.h_dep, 25 if p in (2, 3) else 15))
        out = os.path.join(B, "bin", "%s-%s-%s" % (name, variant, "".join(map(str, parts))))
        self.post.append((objs, out, "%s %s -o %s %s -lprotobuf -lm -lpthread" % (comp, " ".join(objs), out, lf)))
        return out

    def pylib(self):
        """libdistributions_shared.so with production flags, for the Cython modules"""
        objs = []
        for s in LIB_SRC + [PB_SRC, NIW_SRC]:
            f = PROD
            if s in (PB_SRC, NIW_SRC):
                f = PROD.replace("-O3", "-O1")
            objs.append(self.obj(os.path.join(TREE, s), "g++", f, "lib", self.lib_dep, 30 if s == NIW_SRC else 5))
        out = os.path.join(B, "cc", "libdistributions_shared.so")
        self.post.append((objs, out, "g++ -shared %s -o %s -lprotobuf -lm" % (" ".join(objs), out)))
        return out

    def exts(self, names):
        """Cython modules, by dotted name; compiled with setup.py's own flags at -O1"""
        names = sorted(set(names))
        lib = self.pylib()
        dep = []
        for d, _, fs in os.walk(os.path.join(TREE, "distributions")):
            dep += [os.path.join(d, f) for f in fs if f.endswith((".pxd", ".hpp"))]
        dep += self.lib_dep
        key = digest(dep)
        self.hcache["ext"] = key
        suffix = sh("%s -c \"import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))\"" % PY).strip()
        inc = sh("%s -c \"import sysconfig,numpy;print(sysconfig.get_paths()['include'], numpy.get_include())\"" % PY).split()
        env_cy = "PYTHONPATH=/opt/vp/cython029 PYTHONDONTWRITEBYTECODE=1"
        os.makedirs(os.path.join(B, "ext"), exist_ok=True)
        keep = {os.path.join(TREE, n.replace(".", "/") + suffix) for n in names}
        for so in glob.glob(TREE + "/distributions/**/*.so", recursive=True):
            if so not in keep:
                os.remove(so)  # never import a module built from an older tree
        for n in names:
            src = os.path.join(TREE, n.replace(".", "/") + ".pyx")
            flags = ("-fPIC -std=c++0x -O1 -mfpmath=sse -msse4.1 %s -w -DDIST_DEBUG_LEVEL=3 -DDIST_THROW_ON_ERROR "
                     "-I%s/include -I%s/distributions -I/usr/include/eigen3 %s" % (FAST, TREE, TREE, " ".join("-I" + i for i in inc)))
            dig = digest([src], key + flags + "no-as-needed")
            cpp = os.path.join(B, "ext", n + "-" + dig + ".cpp")
            so = cpp[:-4] + ".so"
            tmp = "%s.tmp%d" % (so, os.getpid())
            dst = os.path.join(TREE, n.replace(".", "/") + suffix)
            if not os.path.exists(so):
                self.jobs[so] = (20, "cd %s && %s %s -m cython -2 --cplus -I . %s -o %s && g++ %s -shared %s -o %s -L%s/cc -Wl,-rpath,%s/cc -Wl,--no-as-needed -ldistributions_shared -lprotobuf -lm && mv %s %s"
                                 % (TREE, env_cy, PY, n.replace(".", "/") + ".pyx", cpp, flags, cpp, tmp, B, B, tmp, so), lib)
            self.post.append(([so], dst, "cp %s %s" % (so, dst)))

    def run(self):
        os.makedirs(os.path.join(B, "bin"), exist_ok=True)
        os.makedirs(os.path.join(B, "cc"), exist_ok=True)
        jobs = sorted(self.jobs.items(), key=lambda kv: -kv[1][0])
        # Cython modules link against the shared library: give the linker a stub when it is not built yet
        stub = os.path.join(B, "cc", "libdistributions_shared.so")
        if any(len(j) > 2 for _, j in jobs) and not os.path.exists(stub):
            sh("echo '' | g++ -shared -x c++ - -o " + stub)
        with ThreadPoolExecutor(int(os.environ.get("VT_JOBS", "8"))) as pool:
            list(pool.map(lambda kv: sh(kv[1][1]), jobs))
            list(pool.map(self._link, self.post))
        self.clean()

    def _link(self, item):
        objs, out, cmd = item
        stamp = out + ".stamp"
        key = hashlib.sha256((" ".join(objs) + cmd).encode()).hexdigest()
        if out.endswith(".so") and "/tree/" in out:
            # replaced by rename, so that a process which has it mapped keeps the old file
            if os.path.exists(out) and open(out, "rb").read() == open(objs[0], "rb").read():
                return
            sh("cp %s %s.tmp%d && mv %s.tmp%d %s" % (objs[0], out, os.getpid(), out, os.getpid(), out))
            return
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
            return
        sh(cmd.replace("-o " + out, "-o %s.tmp%d" % (out, os.getpid())))
        os.replace("%s.tmp%d" % (out, os.getpid()), out)
        with open(stamp, "w") as f:
            f.write(key)

    def clean(self):
        """keeps the cache below 3 GB"""
        fs = []
        for d in ("obj", "ext"):
            for f in glob.glob(os.path.join(B, d, "*")):
                s = os.stat(f)
                fs.append((s.st_atime, s.st_size, f))
        total = sum(x[1] for x in fs)
        for _, size, f in sorted(fs):
            if total < 3 << 30:
                break
            try:
                os.remove(f)
            except OSError:
                pass
            total -= size
