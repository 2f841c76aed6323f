"""Binds the checks to the hatchet working tree under /repo.

* hatchet's Python sources are always imported from /repo (HATCHET_REPO overrides, for scratch copies).
* the two Cython extensions are taken from an out-of-tree build of /repo's *current* .pyx files.  The in-tree
  .so files are used only when build.sh's stamp says they were made from exactly these inputs.
"""
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("HATCHET_REPO", "/repo")
HOME = os.environ.get("VERIF_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CY = os.path.join(REPO, "hatchet", "cython_modules")
EXTS = ("graphframe_modules", "reader_modules")


def _pyx_hash(name):
    h = hashlib.sha256()
    with open(os.path.join(CY, name + ".pyx"), "rb") as f:
        h.update(f.read())
    h.update(sys.version.encode())
    return h.hexdigest()[:24]


def _stamp_ok():
    stamp = os.path.join(REPO, "build", ".ext-inputs.sha256")
    try:
        text = open(stamp).read()
    except OSError:
        return False
    for name in EXTS:
        p = os.path.join(CY, name + ".pyx")
        digest = hashlib.sha256(open(p, "rb").read()).hexdigest()
        if "%s  hatchet/cython_modules/%s.pyx" % (digest, name) not in text:
            return False
    return True


def _intree(name):
    d = os.path.join(CY, "libs")
    try:
        c = [f for f in os.listdir(d) if f.startswith(name + ".") and f.endswith(".so")]
    except OSError:
        return None
    return os.path.join(d, c[0]) if len(c) == 1 else None


def _compile(name, out):
    """Compile one .pyx out of tree, atomically placing the result at `out`."""
    tmp = tempfile.mkdtemp(prefix="hxcy-")
    try:
        shutil.copy(os.path.join(CY, name + ".pyx"), os.path.join(tmp, name + ".pyx"))
        setup = (
            "import numpy\nfrom setuptools import setup, Extension\nfrom Cython.Build import cythonize\n"
            "setup(name='x', ext_modules=cythonize([Extension(%r, [%r], include_dirs=[numpy.get_include()])],"
            "compiler_directives={'language_level': '3'}), script_args=['-q', 'build_ext', '--inplace'])\n"
            % (name, name + ".pyx")
        )
        with open(os.path.join(tmp, "mk.py"), "w") as f:
            f.write(setup)
        r = subprocess.run([sys.executable, "mk.py"], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        so = [f for f in os.listdir(tmp) if f.startswith(name + ".") and f.endswith(".so")]
        if r.returncode or not so:
            raise RuntimeError("building %s failed:\n%s" % (name, r.stdout.decode(errors="replace")))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        t2 = out + ".%d" % os.getpid()
        shutil.copy(os.path.join(tmp, so[0]), t2)
        os.replace(t2, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def extensions():
    """name -> path of an extension built from the current .pyx."""
    res = {}
    ok = _stamp_ok()
    for name in EXTS:
        p = _intree(name) if ok else None
        if p is None:
            p = os.path.join(HOME, ".build", "%s-%s.so" % (name, _pyx_hash(name)))
            if not os.path.exists(p):
                _compile(name, p)
        res[name] = p
    return res


class _Finder:
    def __init__(self, paths):
        self.paths = paths

    def find_spec(self, fullname, path=None, target=None):
        pre = "hatchet.cython_modules.libs."
        if fullname.startswith(pre) and fullname[len(pre):] in self.paths:
            p = self.paths[fullname[len(pre):]]
            return importlib.util.spec_from_file_location(
                fullname, p, loader=importlib.machinery.ExtensionFileLoader(fullname, p)
            )
        return None


_done = False


def bind():
    """Make `import hatchet` mean the current working tree; returns the module."""
    global _done
    if not _done:
        sys.meta_path.insert(0, _Finder(extensions()))
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        _done = True
    import warnings

    warnings.simplefilter("ignore")
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        import hatchet

    f = os.path.realpath(hatchet.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("hatchet imported from %s, not from %s" % (f, REPO))
    return hatchet
