"""Builds the library from /repo's working tree, outside /repo, in the variants the checks use.

plain  every source with the scheduler shim force-included, -O1
inst   the same, each memory access reported to the scheduler (-fsanitize=thread, compile only)
asan   the same as plain with AddressSanitizer and UBSan's bounds checks
real   no shim: the library as it is shipped (used where the shim cannot be compiled in)
full   the same as plain with the sources /opt/vp/build.sh leaves out, against the system's Eigen
       and stand-ins for fsph and voro++ (mc/standin)

The sources are mirrored into .build/src, only changed files being touched, so that a second
build in the same place is incremental; the mirror is compared by content.
"""
import fcntl
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
SHIM = os.path.join(VERIF, "mc", "shim")
PY = "/opt/venv/bin/python"
TARGETS = ["_box", "_cluster", "_density", "_diffraction", "_environment", "_locality",
           "_order", "_parallel", "_pmft", "_util"]
SKIP_EXT = (".so", ".pyc", ".pyo")


class BuildError(Exception):
    pass


def _walk(root, tops):
    for top in tops:
        p = os.path.join(root, top)
        if os.path.isfile(p):
            yield top
            continue
        for d, dirs, files in os.walk(p):
            dirs[:] = [x for x in dirs if x not in ("__pycache__", ".git", "build")]
            for f in files:
                if not f.endswith(SKIP_EXT):
                    yield os.path.relpath(os.path.join(d, f), root)


def _same(a, b):
    try:
        if os.path.getsize(a) != os.path.getsize(b):
            return False
        with open(a, "rb") as fa, open(b, "rb") as fb:
            return fa.read() == fb.read()
    except OSError:
        return False


def sync(dst, tops):
    """Mirror the given parts of the repository into dst, touching only what differs."""
    want = set()
    for rel in _walk(REPO, tops):
        want.add(rel)
        s, d = os.path.join(REPO, rel), os.path.join(dst, rel)
        if not _same(s, d):
            os.makedirs(os.path.dirname(d), exist_ok=True)
            if os.path.islink(d) or os.path.isdir(d):
                raise BuildError("unexpected " + d)
            shutil.copyfile(s, d)
    for rel in list(_walk(dst, [t for t in tops if os.path.exists(os.path.join(dst, t))])):
        if rel not in want:
            os.remove(os.path.join(dst, rel))


def _run(cmd, log, env=None):
    with open(log, "a") as f:
        f.write("$ " + " ".join(cmd) + "\n")
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env,
                           stdin=subprocess.DEVNULL)
    return r.returncode


def _put(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def libsched(inst, log):
    out = os.path.join(BUILD, "lib-" + ("inst" if inst else "plain"))
    os.makedirs(out, exist_ok=True)
    so = os.path.join(out, "libvpsched.so")
    srcs = [os.path.join(SHIM, f) for f in ("vpsched.cpp", "vpsched.h")]
    if not os.path.exists(so) or any(os.path.getmtime(s) > os.path.getmtime(so) for s in srcs):
        cmd = ["g++", "-std=c++17", "-O2", "-fPIC", "-shared", "-o", so + ".tmp", srcs[0],
               "-ldl", "-lpthread"]
        if inst:
            cmd.insert(1, "-DVPS_INST")
        if _run(cmd, log):
            raise BuildError("libvpsched")
        os.replace(so + ".tmp", so)
    return so


def precompile(variant, b, inc, log):
    """One precompiled header per distinct set of compiler options; failures only cost time."""
    import hashlib
    import json
    import shlex
    hdr = os.path.join(SHIM, "vp_pre.h")
    srcs = [os.path.join(SHIM, f) for f in ("vp_pre.h", "vp_tbb.h", "vpsched.h")]
    key = hashlib.sha1("".join(open(f).read() for f in srcs).encode()).hexdigest()
    sets = {}
    for e in json.load(open(os.path.join(b, "compile_commands.json"))):
        w = shlex.split(e["command"])
        o = []
        skip = False
        for x in w[1:]:
            if skip:
                skip = False
            elif x in ("-o", "-c", "-include"):
                skip = True
            elif not (x.startswith("-D") and x.endswith("_EXPORTS")):
                o.append(x)
        if "-DNB_BUILD" not in o:
            sets.setdefault(tuple(o), []).append(w[0])
    d = os.path.join(inc, "vp_pre.h.gch")
    os.makedirs(d, exist_ok=True)
    ps = []
    for o, cc in sets.items():
        if len(cc) < 3:
            continue
        out = os.path.join(d, hashlib.sha1((key + cc[0] + " ".join(o)).encode()).hexdigest())
        if not os.path.exists(out):
            ps.append((out, subprocess.Popen(
                [cc[0], *o, "-x", "c++-header", hdr, "-o", out + ".tmp"], cwd=b,
                stdout=subprocess.DEVNULL, stderr=open(log, "a"), stdin=subprocess.DEVNULL)))
    if ps:      # meanwhile, what does not use them
        _run(["/usr/bin/cmake", "--build", b, "-j", "5", "--target", "nanobind-static-abi3"], log)
    for out, p in ps:
        if p.wait() == 0:
            os.replace(out + ".tmp", out)
        elif os.path.exists(out + ".tmp"):
            os.remove(out + ".tmp")


def build(variant="plain", quiet=True):
    """Returns (package directory for PYTHONPATH, path of libvpsched.so or None)."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(variant)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(variant):
    src = os.path.join(BUILD, "src")
    log = os.path.join(BUILD, "log-%s.txt" % variant)
    if os.path.exists(log):
        os.remove(log)
    sync(src, ["CMake", "CMakeLists.txt", "freud", "extern", "LICENSE", "README.rst",
               "pyproject.toml"])
    b = os.path.join(BUILD, "b-" + variant)
    pkg = os.path.join(BUILD, "pkg-" + variant)
    os.makedirs(os.path.join(pkg, "freud"), exist_ok=True)
    cxx = "-O1 -DNDEBUG"
    link = ""
    so = None
    if variant != "real":
        so = libsched(variant == "inst", log)
        libdir = os.path.dirname(so)
        inc = os.path.join(BUILD, "pre-" + variant)
        os.makedirs(inc, exist_ok=True)
        # beside the precompiled ones, and what is used when none fits
        _put(os.path.join(inc, "vp_pre.h"), '#include "%s/vp_pre.h"\n' % SHIM)
        cxx += " -I%s -include %s/vp_pre.h" % (SHIM, inc)
        link = "-L%s -Wl,--no-as-needed -lvpsched -Wl,--as-needed -Wl,-rpath,%s" % (
            libdir, libdir)
    if variant == "inst":
        cxx += " -fsanitize=thread -g1"
        # Not -fsanitize=thread at link time: the entry points come from libvpsched.
        link += " -fno-sanitize=thread" + "".join(" -Wl,--wrap=" + s for s in
                        ("memcpy", "memmove", "memset", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"))
    if variant == "asan":
        cxx += " -g1 -fsanitize=address,bounds -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS"
        link += " -fsanitize=address,bounds"
    include = "/opt/vp/cmake/partial.cmake"
    if variant == "full":
        standin = os.path.join(VERIF, "mc", "standin")
        include = os.path.join(standin, "full.cmake")
        eig = os.path.join(BUILD, "eigen")
        os.makedirs(eig, exist_ok=True)
        if not os.path.islink(os.path.join(eig, "Eigen")):
            os.symlink("/usr/include/eigen3", os.path.join(eig, "Eigen"))
        cxx += " -isystem %s -isystem %s" % (eig, standin)
    cmd = ["/usr/bin/cmake", "-G", "Ninja", "-S", src, "-B", b, "-DCMAKE_BUILD_TYPE=Release",
           "-DCMAKE_CXX_FLAGS_RELEASE=" + cxx,
           "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
           "-DPython_EXECUTABLE=" + PY,
           "-DCMAKE_PROJECT_freud_INCLUDE=" + include,
           "-DCMAKE_LIBRARY_OUTPUT_DIRECTORY=" + os.path.join(pkg, "freud"),
           "-DCMAKE_MODULE_LINKER_FLAGS=" + link]
    env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    stamp = os.path.join(b, "vp-configured")
    want = " ".join(cmd)
    have = open(stamp).read() if os.path.exists(stamp) else None
    if have != want or not os.path.exists(os.path.join(b, "build.ninja")):
        if _run(cmd, log, env):
            raise BuildError("cmake failed: see " + log)
        _put(stamp, want)
    if variant != "real":
        precompile(variant, b, inc, log)
    if _run(["/usr/bin/cmake", "--build", b, "-j", str(os.cpu_count() or 8), "--target"]
            + TARGETS, log, env):
        raise BuildError("compilation failed: see " + log)
    # the Python half of the package
    d = os.path.join(pkg, "freud")
    keep = set()
    for rel in _walk(src, ["freud"]):
        if rel.endswith(".py"):
            t = os.path.join(pkg, rel)
            keep.add(t)
            if not _same(os.path.join(src, rel), t):
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(os.path.join(src, rel), t)
    for dd, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        for f in files:
            p = os.path.join(dd, f)
            if f.endswith(".py") and p not in keep:
                os.remove(p)
    return pkg, so


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        t = time.time()
        print(v, build(v), "%.1fs" % (time.time() - t))
