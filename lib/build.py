"""Compiles /repo's current sources to LLVM bitcode and flattens entry points."""
import concurrent.futures, glob, hashlib, json, os, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "clang++-18"


class AnalysisError(Exception):
    """The check could not be carried out (neither held nor broken)."""


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name)

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def _digest(paths, extra=""):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(extra.encode())
    return h.hexdigest()[:20]


def build_tool(name="irx"):
    """Builds /verif/tool/<name>.cc unless an up-to-date binary is there."""
    src = os.path.join(VERIF, "tool", name + ".cc")
    out = os.path.join(BUILD, "%s-%s" % (name, _digest([src])))
    with Lock("." + name + ".lock"):
        if not os.path.exists(out):
            cxx = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
            cxx = [x for x in cxx if not x.startswith("-std=")]
            ld = subprocess.check_output(["llvm-config-18", "--ldflags"], text=True).split()
            libs = ["-lLLVM-18"]
            if name.startswith("ast"):
                libs = ["-lclang-cpp", "-lLLVM-18"]
            tmp = out + ".tmp%d" % os.getpid()
            _run([CLANG, "-std=c++17", "-O1", "-fno-rtti"] + cxx + [src, "-o", tmp] + ld + libs)
            os.rename(tmp, out)
    return out


def build_lib(name):
    """Builds /verif/tool/<name>.cc as a shared library for the analyses."""
    src = os.path.join(VERIF, "tool", name + ".cc")
    out = os.path.join(BUILD, "%s-%s.so" % (name, _digest([src])))
    if not os.path.exists(out):
        with Lock("." + name + ".lock"):
            if not os.path.exists(out):
                tmp = out + ".tmp%d" % os.getpid()
                _run([CLANG, "-std=c++17", "-O2", "-shared", "-fPIC", src, "-o", tmp])
                os.rename(tmp, out)
    return out


def repo_sources():
    """Every library source (tests, benchmark and examples excluded)."""
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "ruy", "*.cc"))):
        b = os.path.basename(p)
        if b.endswith("_test.cc") or b.startswith("test_") or b == "benchmark.cc" or b == "pmu.cc":
            continue
        out.append(p)
    return out


def profiler_sources():
    return [os.path.join(REPO, "ruy", "profiler", b) for b in ("instrumentation.cc", "profiler.cc", "treeview.cc")]


def repo_files():
    fs = []
    for d in ("ruy", "ruy/profiler"):
        for ext in ("*.cc", "*.h"):
            fs += glob.glob(os.path.join(REPO, d, ext))
    return fs


def isa_flags(path):
    b = os.path.basename(path)
    if "_avx512" in b:
        return ["-mavx512f", "-mavx512vl", "-mavx512cd", "-mavx512bw", "-mavx512dq"]
    if "_avx2_fma" in b:
        return ["-mavx2", "-mfma"]
    if "_avx" in b:
        return ["-mavx"]
    return []


def base_flags(path, ndebug):
    fl = ["-std=gnu++14", "-I" + REPO, "-DCPUINFO_SUPPORTED_PLATFORM=1", "-w",
          "-fno-exceptions", "-g", "-O1", "-Xclang", "-disable-llvm-passes"]
    if os.path.basename(path) == "cpuinfo.cc":
        fl.append("-DRUY_HAVE_CPUINFO")
    if ndebug:
        fl.append("-DNDEBUG")
    return fl + isa_flags(path)


def bitcode(ndebug=True, sources=None, extra_flags=(), tag="lib"):
    """Compiles to bitcode; returns {source path: bitcode path}."""
    srcs = sources if sources is not None else repo_sources() + [os.path.join(VERIF, "probe", "probe.cc")]
    key = _digest(repo_files() + [s for s in srcs if s.startswith(VERIF)],
                  json.dumps([ndebug, list(extra_flags), srcs, base_flags("x", ndebug)]))
    d = os.path.join(BUILD, "bc", "%s-%s" % (tag, key))
    out = {s: os.path.join(d, os.path.basename(s) + ".bc") for s in srcs}
    with Lock(".bc-%s-%s.lock" % (tag, key)):
        if not os.path.exists(os.path.join(d, "done")):
            os.makedirs(d, exist_ok=True)

            def one(s):
                _run([CLANG] + base_flags(s, ndebug) + list(extra_flags) +
                     ["-emit-llvm", "-c", s, "-o", out[s]])
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                list(ex.map(one, srcs))
            open(os.path.join(d, "done"), "w").close()
    return out


def compiles(src, extra_flags=()):
    """(accepted by the compiler, its messages)."""
    r = subprocess.run([CLANG] + base_flags(src, True) + list(extra_flags) + ["-fsyntax-only", src],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def flatten(roots=(), keep=(), bcs=None, ndebug=True, flags=(), tag="f"):
    """Runs irx and returns the parsed JSON."""
    tool = build_tool("irx")
    if bcs is None:
        bcs = list(bitcode(ndebug).values())
    args = []
    for r in roots:
        args.append("--root=" + r)
    for k in keep:
        args.append("--keep=" + k)
    args += list(flags)
    key = hashlib.sha256(json.dumps([tool, args, bcs]).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "json")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s.json" % (tag, key))
    with Lock(".json-%s.lock" % key):
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            _run([tool] + args + list(bcs) + ["-o=" + tmp])
            os.rename(tmp, out)
    with open(out) as f:
        return json.load(f)


def prune_cache(max_bytes=3 << 30):
    """Keeps /verif/build from growing without limit over many source versions."""
    ents = []
    for sub in ("json", "bc"):
        for root, _, files in os.walk(os.path.join(BUILD, sub)):
            for f in files:
                p = os.path.join(root, f)
                try:
                    st = os.stat(p)
                    ents.append((st.st_mtime, st.st_size, p))
                except OSError:
                    pass
    tot = sum(e[1] for e in ents)
    if tot <= max_bytes:
        return
    import shutil
    shutil.rmtree(os.path.join(BUILD, "json"), ignore_errors=True)
    shutil.rmtree(os.path.join(BUILD, "bc"), ignore_errors=True)


if __name__ == "__main__":
    build_tool("irx")
    build_lib("lp")
    bitcode(True)
