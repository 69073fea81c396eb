"""Build the native extensions of /repo's current tree outside /repo, and import pyEdgeEval with them."""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".build")
PY = "/opt/venv/bin/python"
EXTS = ("correspond_pixels", "nms")
SRC_EXT = (".pyx", ".pxd", ".pxi", ".cc", ".hh", ".h", ".c", ".cpp", ".hpp")

FLAVORS = {
    "normal": {},
    "asan": {
        # the last arguments: CFLAGS do not reach C++ everywhere, and Python's own flags make overflow wrap, which hides it
        "VERIF_POSTARGS": "-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero -fno-sanitize-recover=all "
                          "-fno-omit-frame-pointer -O1 -g -UNDEBUG -D_GLIBCXX_ASSERTIONS -fno-wrapv -fno-wrapv-pointer",
        "LDFLAGS": "-fsanitize=address,undefined",
    },
}


class BuildError(Exception):
    pass


def _sources():
    out = []
    lib = os.path.join(REPO, "pyEdgeEval", "_lib")
    for d, _, fs in os.walk(lib):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            if not f.endswith(SRC_EXT):
                continue
            if d == lib and f in ("correspond_pixels.cpp", "nms.cpp"):
                continue  # cython output
            out.append(rel)
    for f in ("setup.py", "pyproject.toml", "setup.cfg", "README.md", "pyEdgeEval/info.py", "pyEdgeEval/_lib/__init__.py"):
        if os.path.exists(os.path.join(REPO, f)):
            out.append(f)
    return sorted(out)


def build(flavor="normal"):
    """Return the folder holding the built extensions of the current sources."""
    srcs = _sources()
    h = hashlib.sha256()
    h.update(repr((flavor, FLAVORS[flavor], sys.version)).encode())
    for rel in srcs:
        if rel == "README.md":
            continue
        h.update(rel.encode() + b"\0")
        with open(os.path.join(REPO, rel), "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    out = os.path.join(CACHE, h.hexdigest()[:24] + "-" + flavor)
    if os.path.isdir(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=CACHE)
    try:
        src = os.path.join(tmp, "src")
        for rel in srcs:
            dst = os.path.join(src, rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, rel), dst)
        open(os.path.join(src, "pyEdgeEval", "__init__.py"), "w").close()
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
        env.update(CC="/usr/bin/gcc", CXX="/usr/bin/g++", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin")
        env.update(FLAVORS[flavor])
        suffix = sysconfig.get_config_var("EXT_SUFFIX")
        dst = os.path.join(tmp, "out")
        os.makedirs(dst)
        # one tree per extension: they share object file names
        procs = []
        for e in EXTS:
            tree = os.path.join(tmp, "tree-" + e)
            shutil.copytree(src, tree)
            log = open(os.path.join(tmp, e + ".log"), "wb")
            p = subprocess.Popen([PY, os.path.join(VERIF, "vlib", "pbuild.py"), e, "-q", "build_ext", "--inplace"], cwd=tree, env=env,
                                 stdout=log, stderr=subprocess.STDOUT)
            procs.append((e, tree, p))
        failed = False
        for e, tree, p in procs:
            rc = p.wait(600)
            so = os.path.join(tree, "pyEdgeEval", "_lib", e + suffix)
            if rc == 0 and os.path.exists(so):
                shutil.copyfile(so, os.path.join(dst, e + suffix))
            else:
                failed = True
        if failed:  # plainly, as the repository does it
            if "VERIF_POSTARGS" in env:
                env.update(CFLAGS=env["VERIF_POSTARGS"], CXXFLAGS=env["VERIF_POSTARGS"])
            r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace"], cwd=src, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            for e in EXTS:
                so = os.path.join(src, "pyEdgeEval", "_lib", e + suffix)
                if r.returncode != 0 or not os.path.exists(so):
                    raise BuildError("building the extensions failed:\n" + r.stdout.decode(errors="replace")[-4000:])
                shutil.copyfile(so, os.path.join(dst, e + suffix))
        if "asan" in flavor:
            for e in EXTS:
                with open(os.path.join(dst, e + suffix), "rb") as f:
                    so = f.read()
                if b"__asan_report" not in so or b"__ubsan_handle" not in so:
                    raise BuildError("the extension %s was built without its sanitizers" % e)
        try:
            os.rename(dst, out)
        except OSError:
            if not os.path.isdir(out):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, folder):
        self.folder = folder

    def find_spec(self, name, path=None, target=None):
        parts = name.split(".")
        if len(parts) == 3 and parts[0] == "pyEdgeEval" and parts[1] == "_lib" and parts[2] in EXTS:
            so = os.path.join(self.folder, parts[2] + sysconfig.get_config_var("EXT_SUFFIX"))
            loader = importlib.machinery.ExtensionFileLoader(name, so)
            return importlib.util.spec_from_file_location(name, so, loader=loader)
        return None


def install(folder):
    """Make `import pyEdgeEval` mean /repo's Python with the extensions of `folder`."""
    sys.meta_path.insert(0, _Finder(folder))
    sys.path.insert(0, REPO)
    import pyEdgeEval

    assert os.path.dirname(os.path.dirname(os.path.abspath(pyEdgeEval.__file__))) == os.path.abspath(REPO)


def asan_env():
    libs = []
    for n in ("libasan.so", "libubsan.so"):
        libs.append(subprocess.run(["g++", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip())
    return {
        "LD_PRELOAD": ":".join(libs),
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:max_malloc_fill_size=4000000:malloc_fill_byte=190",
        "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
    }
