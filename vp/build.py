"""Builds instrumented variants of the library from /repo's working tree, and drivers against them."""
import hashlib, os, re, shutil, subprocess, sys, sysconfig, tempfile, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
JOBS = os.cpu_count() or 4

ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
# name: compiler, flags, letter bits, sparse hash
VARIANTS = {
    "asan":  ("clang++", ["-O1", "-g"] + ASAN + ["-D_GLIBCXX_ASSERTIONS"], 16, True),
    "u32":   ("clang++", ["-O1", "-g"] + ASAN + ["-D_GLIBCXX_ASSERTIONS"], 32, False),
    "rel":   ("g++", ["-O2", "-g", "-DNDEBUG"], 16, False),
    "rel32": ("g++", ["-O2", "-g", "-DNDEBUG"], 32, True),
    "dbg":   ("g++", ["-O0", "-g"], 16, True),
    "dbgstd":("g++", ["-O1", "-g"], 16, False),
    "tsan":  ("clang++", ["-O1", "-g", "-fsanitize=thread", "-fno-omit-frame-pointer"], 16, True),
    "tsanstd":("clang++", ["-O1", "-g", "-fsanitize=thread", "-fno-omit-frame-pointer"], 16, False),
    "cov":   ("clang++", ["-O0", "-g", "-fprofile-instr-generate", "-fcoverage-mapping"], 16, True),
    "pic":   ("g++", ["-O1", "-g", "-fPIC"], 16, True),
}
LINK = ["-licuuc", "-licudata", "-lpthread"]
CXX_ENV = dict(os.environ, LC_ALL="C.UTF-8")


class BuildError(Exception):
    pass


def _tree_hash(h, root, exts=None):
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if exts and not f.endswith(exts):
                continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())


def repo_hash():
    h = hashlib.sha256()
    for s in ("src", "include"):
        _tree_hash(h, os.path.join(REPO, s))
    return h.hexdigest()


def core_header(bits, sparse):
    s = open(os.path.join(REPO, "include", "ColumbusCore.hh.in")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()

    def cmvar(name, default):
        m = re.search(r'set\(\s*%s\s+"?([^")\s]+)"?\s*\)' % name, cm)
        return m.group(1) if m and "$" not in m.group(1) else default
    major, minor, patch = cmvar("SO_VERSION_MAJOR", "1"), cmvar("SO_VERSION_MINOR", "1"), cmvar("SO_VERSION_PATCH", "0")
    subst = {"SO_VERSION": "%s.%s.%s" % (major, minor, patch), "ABI_VERSION": cmvar("ABI_VERSION", "1"),
             "CMAKE_INSTALL_PREFIX": "/usr/local", "COL_LIB_BASENAME": cmvar("COL_LIB_BASENAME", "columbus"),
             "SO_VERSION_MAJOR": major, "LETTER_TYPE": "uint%d_t" % bits,
             "INTERNAL_ENCODING": "UTF-%dLE" % bits}
    s = re.sub(r"\$\{(\w+)\}", lambda m: subst.get(m.group(1), ""), s)
    s = re.sub(r"#cmakedefine\s+HAS_SPARSE_HASH.*", "#define HAS_SPARSE_HASH" if sparse else "/* no HAS_SPARSE_HASH */", s)
    s = re.sub(r"#cmakedefine\s+(\w+)(.*)", r"/* #undef \1 */", s)
    return s


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=CXX_ENV)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def _prune(prefix, keep):
    """Drop outdated products of one variant, but only old ones: another check may still use a recent one."""
    try:
        for n in os.listdir(BUILD):
            p = os.path.join(BUILD, n)
            if n.startswith(prefix + "-") and n not in keep and time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)
    except OSError:
        pass


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock-" + name), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def lib(variant):
    """Returns (directory with gen/ and objects, list of objects)."""
    comp, flags, bits, sparse = VARIANTS[variant]
    h = hashlib.sha256((repo_hash() + core_header(bits, sparse) + comp + " ".join(flags)).encode()).hexdigest()[:16]
    name = "lib_%s-%s" % (variant, h)
    out = os.path.join(BUILD, name)
    with _Lock("lib_" + variant):
        if not os.path.exists(os.path.join(out, "done")):
            os.makedirs(BUILD, exist_ok=True)
            tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
            try:
                os.mkdir(os.path.join(tmp, "gen"))
                with open(os.path.join(tmp, "gen", "ColumbusCore.hh"), "w") as f:
                    f.write(core_header(bits, sparse))
                src = os.path.join(REPO, "src")
                ccs = sorted(f for f in os.listdir(src) if f.endswith(".cc"))
                pch = os.path.join(src, "pch", "columbus_pch.hh")
                base = [comp, "-std=c++11", "-w", "-DBUILDING_COLUMBUS", "-I" + os.path.join(tmp, "gen"), "-I" + os.path.join(REPO, "include")] + flags
                if os.path.exists(pch):
                    base += ["-include", pch]
                with ThreadPoolExecutor(JOBS) as ex:
                    list(ex.map(lambda f: _run(base + ["-c", os.path.join(src, f), "-o", os.path.join(tmp, f[:-3] + ".o")]), ccs))
                open(os.path.join(tmp, "done"), "w").close()
                shutil.rmtree(out, ignore_errors=True)
                os.rename(tmp, out)
            except BaseException:
                shutil.rmtree(tmp, ignore_errors=True)
                raise
            _prune("lib_" + variant, [name])
    os.utime(out)
    return out, sorted(os.path.join(out, f) for f in os.listdir(out) if f.endswith(".o"))


def driver(variant, source, extra=()):
    """Compiles harness/<source>.cc against a variant; returns the executable."""
    comp, flags, bits, sparse = VARIANTS[variant]
    libdir, objs = lib(variant)
    h = hashlib.sha256((os.path.basename(libdir) + source + " ".join(extra)).encode())
    py = source == "pyhost"
    extra_src, extra_inc = [], []
    if py:
        pydir = os.path.join(REPO, "python")
        _tree_hash(h, pydir)
        extra_src = sorted(os.path.join(pydir, f) for f in os.listdir(pydir) if f.endswith(".cc"))
        extra_inc = ["-I" + sysconfig.get_path("include"), '-DVP_SCRIPT="%s"' % os.path.join(HARNESS, "pycases.py")]
        extra = list(extra) + ["-lboost_python%d%d" % sys.version_info[:2], "-lpython%d.%d" % sys.version_info[:2]]
    for f in sorted(os.listdir(HARNESS)):
        if f.endswith(".hh") or f == source + ".cc":
            h.update(open(os.path.join(HARNESS, f), "rb").read())
    name = "drv_%s_%s-%s" % (source, variant, h.hexdigest()[:16])
    out = os.path.join(BUILD, name)
    exe = os.path.join(out, source)
    with _Lock("drv_%s_%s" % (source, variant)):
        if not os.path.exists(exe):
            os.makedirs(out, exist_ok=True)
            tmp = exe + ".tmp"
            inc = ["-I" + os.path.join(libdir, "gen"), "-I" + os.path.join(REPO, "include"), "-I" + HARNESS] + extra_inc
            for i, f in enumerate(extra_src):
                _run([comp, "-std=c++11", "-w"] + inc + flags + ["-c", f, "-o", os.path.join(out, "x%d.o" % i)])
            def link(defs):
                _run([comp, "-std=c++17", "-w"] + defs + inc + flags +
                     [os.path.join(HARNESS, source + ".cc")] + [os.path.join(out, "x%d.o" % i) for i in range(len(extra_src))] + objs + ["-o", tmp] + LINK + list(extra))
            try:
                link([])
            except BuildError as e:
                try:
                    link(["-DVP_NO_INTERNAL"])  # classes that the library does not export may have changed
                except BuildError:
                    raise e
            os.rename(tmp, exe)
            _prune("drv_%s_%s" % (source, variant), [name])
    os.utime(out)
    return exe


def tool(variant, name):
    """Compiles /repo/tools/<name>.cc against a variant; returns the executable."""
    comp, flags, bits, sparse = VARIANTS[variant]
    libdir, objs = lib(variant)
    src = os.path.join(REPO, "tools", name + ".cc")
    h = hashlib.sha256(os.path.basename(libdir).encode())
    _tree_hash(h, os.path.join(REPO, "tools"))
    d = "tool_%s_%s-%s" % (name, variant, h.hexdigest()[:16])
    out = os.path.join(BUILD, d)
    exe = os.path.join(out, name)
    with _Lock("tool_%s_%s" % (name, variant)):
        if not os.path.exists(exe):
            os.makedirs(out, exist_ok=True)
            _run([comp, "-std=c++11", "-w", "-I" + os.path.join(libdir, "gen"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "tools")] + flags + [src] + objs + ["-o", exe + ".tmp"] + LINK)
            os.rename(exe + ".tmp", exe)
            _prune("tool_%s_%s" % (name, variant), [d])
    os.utime(out)
    return exe
