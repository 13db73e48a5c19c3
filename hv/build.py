"""Builds hilapp and HILA programs from /repo's working tree, out of tree.

Every object is keyed by the content of everything it is made from, so a cached object is only reused for
identical inputs.  The cache directory (.cache, ignored by git) merely speeds up repeated runs in one place; a run
in a fresh copy starts with it empty and builds everything.
"""
import concurrent.futures as cf
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HV_REPO", "/repo")
CACHE = os.environ.get("HV_CACHE", os.path.join(VERIF, ".cache"))
NJ = os.cpu_count() or 8
LLVM = "/usr/lib/llvm-18"

VARIANTS = {
    # flags mirror libraries/target_arch/*.mk without -march=native
    "vanilla": dict(hilapp=[], defs=[], cxx="-x c++ --std=c++17 -fno-rtti -O1 -mavx2 -mfma", noopt="-x c++ --std=c++17 -fno-rtti",
                    layout="setup_layout_generic", libs="-lfftw3 -lfftw3f -lm"),
    "avx2": dict(hilapp=["-target:AVX"], defs=["-DAVX", "-DSUBNODE_LAYOUT"],
                 cxx="-O1 -x c++ --std=c++17 -mavx2 -mfma -fabi-version=0 -fomit-frame-pointer",
                 noopt="-x c++ --std=c++17 -mavx2 -mfma -O1", layout="setup_layout_vector", libs="-lfftw3 -lfftw3f -lm"),
    "openmp": dict(hilapp=["-target:openmp", "-DOPENMP"], defs=["-DOPENMP"],
                   cxx="-x c++ --std=c++17 -fno-rtti -fopenmp -O1 -mavx2 -mfma", noopt="-x c++ --std=c++17 -fno-rtti -fopenmp",
                   layout="setup_layout_generic", libs="-lfftw3 -lfftw3f -lm -lgomp"),
    "asan": dict(hilapp=[], defs=[],
                 cxx="-x c++ --std=c++17 -O1 -g1 -fsanitize=address -ftrivial-auto-var-init=pattern -fno-omit-frame-pointer -mavx2 -mfma",
                 noopt="-x c++ --std=c++17 -fsanitize=address", layout="setup_layout_generic",
                 libs="-lfftw3 -lfftw3f -lm -fsanitize=address"),
}
LIB_SOURCES = ["initialize", "input", "cmdline", "random", "lattice", "map_node_layout", "memalloc", "timing",
               "test_gathers", "com_mpi", "memory_pool", "fft"]


class BuildError(Exception):
    def __init__(self, what, log):
        super().__init__(what)
        self.what, self.log = what, log


def _tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, sub, files in os.walk(d):
            sub[:] = sorted(s for s in sub if s not in ("build", "bin", ".git"))
            for f in sorted(files):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()


def env():
    e = dict(os.environ)
    for k in ("MAKEFLAGS", "MFLAGS", "CXXFLAGS", "CFLAGS", "LLVM_VERSION", "NDIM", "ARCH", "OPTS"):
        e.pop(k, None)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(OMPI_CXX="g++", OMPI_CC="gcc", LANG="C.UTF-8", HOME=e.get("HOME", "/root"))
    return e


_pool = cf.ThreadPoolExecutor(NJ)
_sem = threading.Semaphore(NJ)


def sh(cmd, cwd=None, timeout=800):
    with _sem:
        p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def _publish(tmp, dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.replace(tmp, dst)


def _prune():
    """keep the local cache below 3 GB"""
    try:
        ent = []
        for root, _, files in os.walk(CACHE):
            for f in files:
                p = os.path.join(root, f)
                st = os.stat(p)
                ent.append((st.st_atime, st.st_size, p))
        tot = sum(e[1] for e in ent)
        for a, s, p in sorted(ent):
            if tot < 3 << 30:
                break
            if time.time() - a > 3600:
                os.unlink(p)
                tot -= s
    except OSError:
        pass


# ---------------------------------------------------------------------------------------------------------------
_hilapp_lock = threading.Lock()
_hilapp = None


def hilapp_key():
    return _sha(_tree_hash([REPO + "/hilapp/src"], (".cpp", ".h")),
                open(REPO + "/libraries/hila_signatures.h", "rb").read())


def _prebuilt_ok():
    """/repo/hilapp/bin/hilapp was made by /opt/vp/build.sh from exactly the current sources?  (build.sh records the
    checksum of every source in _build/.manifest and then builds.)"""
    man, binf = REPO + "/_build/.manifest", REPO + "/hilapp/bin/hilapp"
    if not (os.path.isfile(man) and os.access(binf, os.X_OK)) or os.environ.get("HV_NO_PREBUILT"):
        return False
    rec = {}
    for line in open(man, errors="replace"):
        line = line.rstrip("\n")
        p = line[66:]
        if p.startswith("hilapp/") or p == "libraries/hila_signatures.h":
            rec[p] = line[:64]
    cur = {}
    for root, sub, files in os.walk(REPO + "/hilapp"):
        sub[:] = [s for s in sub if s != "build"]
        for f in files:
            if f.endswith((".cpp", ".h", ".hpp", ".mk")) or f.startswith("Makefile"):
                p = os.path.join(root, f)
                cur[os.path.relpath(p, REPO)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    p = "libraries/hila_signatures.h"
    cur[p] = hashlib.sha256(open(os.path.join(REPO, p), "rb").read()).hexdigest()
    return rec == cur


def hilapp():
    """path of a hilapp built from the current /repo/hilapp/src"""
    global _hilapp
    with _hilapp_lock:
        if _hilapp:
            return _hilapp
        key = hilapp_key()
        dst = os.path.join(CACHE, "hilapp", key)
        if os.path.exists(dst):
            os.utime(dst)
        elif _prebuilt_ok():
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            tmp = dst + ".tmp%d" % os.getpid()
            shutil.copy2(REPO + "/hilapp/bin/hilapp", tmp)
            _publish(tmp, dst)
        else:
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            with open(os.path.join(CACHE, "hilapp", ".lock"), "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                if not os.path.exists(dst):
                    _build_hilapp(dst)
        _hilapp = dst
        return dst


def _build_hilapp(dst):
    src = REPO + "/hilapp/src"
    cxx = LLVM + "/bin/clang++"
    flags = ["-fno-rtti", "-std=c++17", "-O0"] + subprocess.run(
        [LLVM + "/bin/llvm-config", "--cxxflags"], stdout=subprocess.PIPE, check=True).stdout.decode().split()
    d = tempfile.mkdtemp(prefix="hilapp_", dir=os.path.dirname(dst))
    try:
        pch = os.path.join(d, "pch.h")
        with open(pch, "w") as f:
            f.write("".join("#include %s\n" % h for h in (
                "<string>", "<vector>", "<list>", "<iostream>", "<sstream>", "<map>", '"clang/AST/AST.h"',
                '"clang/AST/ASTConsumer.h"', '"clang/AST/RecursiveASTVisitor.h"', '"clang/Frontend/ASTConsumers.h"',
                '"clang/Frontend/FrontendActions.h"', '"clang/Frontend/CompilerInstance.h"',
                '"clang/Tooling/Tooling.h"', '"clang/Rewrite/Core/Rewriter.h"')))
        rc, log = sh([cxx] + flags + ["-x", "c++-header", pch, "-o", pch + ".pch", "-fpch-instantiate-templates"])
        use_pch = ["-include-pch", pch + ".pch"] if rc == 0 else []

        def one(f):
            o = os.path.join(d, f[:-4] + ".o")
            base = [cxx, "-c"] + flags + ['-DGIT_SHA="local"']
            rc, log = sh(base + use_pch + [os.path.join(src, f), "-o", o], cwd=REPO + "/hilapp")
            if rc and use_pch:
                rc, log = sh(base + [os.path.join(src, f), "-o", o], cwd=REPO + "/hilapp")
            if rc:
                raise BuildError("hilapp/src/" + f, log)
            return o
        objs = list(cf.ThreadPoolExecutor(NJ).map(one, sorted(f for f in os.listdir(src) if f.endswith(".cpp"))))
        ld = subprocess.run([LLVM + "/bin/llvm-config", "--ldflags", "--libs", "--system-libs"],
                            stdout=subprocess.PIPE, check=True).stdout.decode().split()
        out = os.path.join(d, "hilapp")
        rc, log = sh([cxx] + flags + objs + [LLVM + "/lib/libclang-cpp.so.18.1"] + ld + ["-o", out])
        if rc:
            raise BuildError("link hilapp", log)
        _publish(out, dst)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------------------------------------------
_libs_hash = None


def libs_hash():
    global _libs_hash
    if _libs_hash is None:
        _libs_hash = _tree_hash([REPO + "/libraries"], (".h", ".cpp", ".hpp", ".inc"))
    return _libs_hash


def _includes(extra=()):
    L = REPO + "/libraries"
    return ["-I" + x for x in extra] + ["-I" + L, "-I" + L + "/plumbing", "-I" + L + "/datatypes", "-I" + L + "/tools"]


def translate(srcfile, out, variant, ndim, defs=(), incs=(), hilapp_opts=()):
    """run hilapp only; returns (rc, log)"""
    v = VARIANTS[variant]
    cmd = [hilapp(), "-std=c++17"] + v["hilapp"] + list(hilapp_opts) + ["-DNDIM=%d" % ndim] + v["defs"] + list(defs) + \
        _includes(incs) + [srcfile, "-o", out]
    return sh(cmd)


def compile_obj(srcfile, variant, ndim, defs=(), incs=(), hilapp_opts=(), opt=None, noopt=False, text=None, name=None):
    """hilapp + g++ on one source; returns the object's path"""
    v = VARIANTS[variant]
    cxx = (v["noopt"] if noopt else v["cxx"])
    if opt:
        cxx = cxx.replace("-O1", opt)
    src = text if text is not None else open(srcfile).read()
    inc_h = _tree_hash(list(incs), (".h", ".hpp"))
    key = _sha(hilapp(), libs_hash(), src, inc_h, repr((variant, v, ndim, tuple(defs), tuple(hilapp_opts), cxx)))
    dst = os.path.join(CACHE, "obj", key[:2], key + ".o")
    if os.path.exists(dst):
        os.utime(dst)
        return dst
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    d = tempfile.mkdtemp(prefix="b_", dir=CACHE)
    try:
        base = name or os.path.splitext(os.path.basename(srcfile))[0]
        s = os.path.join(d, base + ".cpp")
        if text is not None:
            with open(s, "w") as f:
                f.write(text)
        else:
            s = srcfile
        cpt, o = os.path.join(d, base + ".cpt"), os.path.join(d, base + ".o")
        rc, log = translate(s, cpt, variant, ndim, defs, incs, hilapp_opts)
        if rc or not os.path.exists(cpt):
            raise BuildError("hilapp %s (%s, NDIM=%d)" % (base, variant, ndim), log)
        rc, log2 = sh(["mpic++", "-DNDIM=%d" % ndim] + v["defs"] + list(defs) + _includes(incs) + cxx.split() +
                      [cpt, "-c", "-o", o])
        if rc:
            raise BuildError("g++ %s (%s, NDIM=%d)" % (base, variant, ndim), log2)
        _publish(o, dst)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dst


def lib_futures(variant, ndim, defs=(), extra=(), opt=None):
    L = REPO + "/libraries"
    srcs = [(L + "/plumbing/%s.cpp" % n, False) for n in LIB_SOURCES + [VARIANTS[variant]["layout"]]]
    srcs.append((L + "/datatypes/extended.cpp", True))
    srcs += [(L + "/" + e, False) for e in extra]
    hilapp()
    libdefs = [d for d in defs] + ["-DGIT_SHA_HILA_VALUE=local", "-DGIT_SHA_VALUE=local"]
    return [_pool.submit(compile_obj, s, variant, ndim, libdefs, (), (), opt, n) for s, n in srcs]


def program(name, sources, variant, ndim, defs=(), incs=(), hilapp_opts=(), extra_libs=(), opt=None, outdir=None):
    """sources: list of paths or (name, text).  Returns a future-like callable giving the executable's path."""
    libs = lib_futures(variant, ndim, defs, extra_libs, opt)
    objs = []
    for s in sources:
        if isinstance(s, tuple):
            objs.append(_pool.submit(compile_obj, None, variant, ndim, defs, incs, hilapp_opts, opt, False, s[1], s[0]))
        else:
            objs.append(_pool.submit(compile_obj, s, variant, ndim, defs, incs, hilapp_opts, opt))

    def finish():
        o = [f.result() for f in objs] + [f.result() for f in libs]
        out = os.path.join(outdir or workdir(), "%s_%s%d" % (name, variant, ndim))
        rc, log = sh(["mpic++"] + o + VARIANTS[variant]["libs"].split() + ["-o", out])
        if rc:
            raise BuildError("link " + name, log)
        return out
    return finish


_work = None


def workdir():
    global _work
    if _work is None:
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="w_", dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
        _prune()
    return _work
