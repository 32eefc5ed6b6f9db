"""Builds /repo's current tree out of tree (never inside /repo) together with the harnesses of /verif.

Products live in /verif/build/<variant>-<content hash>; the hash covers every source, header and build
file of /repo that takes part and the harness sources, so a changed tree is always rebuilt."""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TRAX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

class BuildError(Exception):
    pass

def _sources():
    out = []
    for base in ("CMakeLists.txt", "VERSION", "trax-config.cmake.in", "include", "src", "support"):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            out.append(p)
        else:
            for d, dirs, files in os.walk(p):
                dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "build"))
                for f in sorted(files):
                    out.append(os.path.join(d, f))
    return out

def tree_hash(extra=()):
    h = hashlib.sha256()
    for p in list(_sources()) + list(extra):
        h.update(os.path.relpath(p, "/").encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:16]

def _run(cmd, cwd=None, log=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if log:
        with open(log, "a") as f:
            f.write("$ " + " ".join(cmd) + "\n" + r.stdout)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))

VARIANTS = {
    # name: (compiler flags)
    "asan": "-O1 -g -fsanitize=address -fno-omit-frame-pointer",
    "plain": "-O1 -g",
    "tsan": "-O1 -g -fsanitize=thread",
}

def _harness_files():
    d = os.path.join(VERIF, "harness")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith((".cpp", ".h", ".c", ".py", ".m"))]

def library(variant):
    """Directory with libtraxstatic.a, libtrax_client_static.a, libtrax.so, traxclient of the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, "%s-%s" % (variant, tree_hash()))
        if os.path.exists(os.path.join(d, ".done-so")):
            return d
        _prune(variant)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        flags = VARIANTS[variant]
        log = os.path.join(d, "build.log")
        env_cc = ["-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++"]
        _run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
              "-DCMAKE_C_FLAGS=" + flags, "-DCMAKE_CXX_FLAGS=" + flags, "-DBUILD_DATE=2024-04-20",
              "-DBUILD_CLIENT=ON", "-DBUILD_TESTS=OFF", "-Wno-dev", "-Wno-deprecated"] + env_cc, log=log)
        targets = ["traxstatic", "trax_client_static"]
        if variant == "plain": targets += ["traxclient"]
        if variant != "tsan": targets += ["trax"]
        _run(["ninja", "-C", d] + targets, log=log)
        open(os.path.join(d, ".done-so"), "w").close()
        return d

def _prune(variant):
    """Drops older builds of the same variant, keeping the two newest."""
    ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith(variant + "-")]
    ds.sort(key=lambda p: os.path.getmtime(p))
    for p in ds[:-2]:
        shutil.rmtree(p, ignore_errors=True)

WRAPS = {
    "trxh": ["read", "write", "recv", "send"],
    "trxpp": [], "trxproc": [],
    "trxpert": ["pthread_mutex_lock", "pthread_mutex_unlock", "read", "write", "send", "recv", "select", "poll", "accept", "close", "kill", "waitpid", "pipe", "posix_spawnp", "pthread_create", "socket"],
}
NEEDS_CLIENT = {"trxproc", "trxpert"}
PARTS = {"trxpert": ["trxproc.cpp"]}

def harness(name, variant="asan"):
    """Path of the harness executable linked against the current tree."""
    lib = library(variant)
    src = os.path.join(VERIF, "harness", name + ".cpp")
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256()
        for p in [src] + [x for x in _harness_files() if x.endswith(".h") or os.path.basename(x) in PARTS.get(name, ())]:
            h.update(open(p, "rb").read())
        h.update(repr(WRAPS.get(name)).encode())
        exe = os.path.join(lib, "%s-%s" % (name, h.hexdigest()[:12]))
        if os.path.exists(exe):
            return exe
        cmd = ["g++", "-std=gnu++17"] + VARIANTS[variant].split() + ["-w", "-DTRAX_STATIC_DEFINE",
               "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "support", "client", "include"),
               "-I" + os.path.join(VERIF, "harness"), "-o", exe + ".tmp", src]
        if WRAPS.get(name):
            cmd += ["-Wl," + ",".join("--wrap=" + w for w in WRAPS[name])]
        if name in NEEDS_CLIENT:
            cmd += [os.path.join(lib, "support", "client", "libtrax_client_static.a")]
        cmd += [os.path.join(lib, "libtraxstatic.a"), "-lpthread", "-lm"]
        _run(cmd, log=os.path.join(lib, "build.log"))
        os.rename(exe + ".tmp", exe)
        return exe

def program(name, flags=(), libs=True, variant="plain", client=False, lang="c++"):
    """Builds a helper program from /verif/harness/<name> against the current tree."""
    lib = library(variant)
    src = os.path.join(VERIF, "harness", name)
    h = hashlib.sha256(open(src, "rb").read() + repr(flags).encode()).hexdigest()[:12]
    exe = os.path.join(lib, "%s-%s" % (os.path.splitext(name)[0], h))
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        cmd = (["g++", "-std=gnu++17"] if lang == "c++" else ["gcc"]) + VARIANTS[variant].split() + ["-w", "-DTRAX_STATIC_DEFINE",
               "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "support", "client", "include"), "-I" + os.path.join(VERIF, "harness"),
               "-o", exe + ".tmp", src] + list(flags)
        if client:
            cmd += [os.path.join(lib, "support", "client", "libtrax_client_static.a")]
        if libs:
            cmd += [os.path.join(lib, "libtraxstatic.a"), "-lpthread", "-lm"]
        _run(cmd, log=os.path.join(lib, "build.log"))
        os.rename(exe + ".tmp", exe)
        return exe

def python(name, variant="asan"):
    """Executable that runs /verif/harness/<name>.py with the Python bindings of the current tree."""
    lib = library(variant)
    src = os.path.join(VERIF, "harness", name + ".py")
    exe = os.path.join(lib, "%s-%s" % (name, hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]))
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        d = os.path.join(lib, "pytrax", "trax")
        if not os.path.exists(d):
            shutil.copytree(os.path.join(REPO, "support", "python", "trax"), d + ".tmp", ignore=shutil.ignore_patterns("__pycache__", "*.so"))
            shutil.copy(os.path.realpath(os.path.join(lib, "libtrax.so")), os.path.join(d + ".tmp", "libtrax.so"))
            os.rename(d + ".tmp", d)
        shutil.copy(src, exe + ".py")
        pre = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip() if variant == "asan" else ""
        with open(exe + ".tmp", "w") as f:
            f.write("#!/bin/sh\nexport PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 PYTHONMALLOC=malloc\n%sexec /usr/bin/python3 %s.py \"$@\"\n" %
                    (os.path.dirname(d), "export LD_PRELOAD=%s\n" % os.path.realpath(pre) if pre else "", exe))
        os.chmod(exe + ".tmp", 0o755); os.rename(exe + ".tmp", exe)
        return exe

def octave(variant="asan"):
    """Executable that runs scripts on the Octave bindings of the current tree (harness/trxoct.py, trxoct.m)."""
    lib = library(variant)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = [os.path.join(VERIF, "harness", x) for x in ("trxoct.py", "trxoct.m")]
        d = os.path.join(lib, "octave-" + hashlib.sha256(b"".join(open(x, "rb").read() for x in src)).hexdigest()[:12])
        exe = os.path.join(d, "run")
        if os.path.exists(exe): return exe
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        m = os.path.join(REPO, "support", "matlab")
        e = dict(os.environ, CXXFLAGS=VARIANTS[variant] + " -w")
        jobs = []
        for name, libs in (("traxserver", []), ("traxclient", [os.path.join(lib, "support", "client", "libtrax_client_static.a")])):
            t = os.path.join(d, name + ".tmp"); os.makedirs(t)      # object files go to the working directory
            jobs.append((name, subprocess.Popen(["mkoctfile", "-mex", "-DOCTAVE", "-DTRAX_STATIC_DEFINE", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "support", "client", "include"), "-o", os.path.join(d, name + ".mex"),
                         os.path.join(m, name + ".cpp"), os.path.join(m, "helpers.cpp")] + libs + [os.path.join(lib, "libtraxstatic.a"), "-lpthread"], cwd=t, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for name, p in jobs:
            o = p.communicate()[0]
            if p.returncode or not os.path.exists(os.path.join(d, name + ".mex")): raise BuildError("mkoctfile %s failed:\n%s" % (name, o[-4000:]))
        for x in src: shutil.copy(x, d)
        pre = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip() if variant == "asan" else ""
        with open(exe + ".tmp", "w") as f:
            f.write("#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 OCT_PRELOAD=%s\nexec /usr/bin/python3 %s/trxoct.py \"$@\"\n" % (os.path.realpath(pre) if pre else "", d))
        os.chmod(exe + ".tmp", 0o755); os.rename(exe + ".tmp", exe)
        return exe
