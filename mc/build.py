"""Builds a private copy of the library from /repo's working tree.

Nothing that was built in /repo before is used: the Python sources are copied,
and the Cython extensions are compiled from the copied .pyx files if a check
needs them.  The copy lives in a temporary directory removed at exit.
"""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("MC_REPO", "/repo")

SETUP = """
import numpy as np
from Cython.Build import cythonize
from setuptools import Extension, setup
ext = [Extension("pykrige.lib." + n, ["pykrige/lib/%s.pyx" % n],
                 include_dirs=[np.get_include()],
                 define_macros=[("NPY_NO_DEPRECATED_API", "NPY_1_7_API_VERSION")],
                 extra_compile_args=["-O1", "-w"])
       for n in ("cok", "variogram_models")]
setup(name="pykrige-scratch", ext_modules=cythonize(ext, nthreads=2, quiet=True),
      script_args=["-q", "build_ext", "--inplace", "-j2"])
"""


class BuildError(Exception):
    pass


def build(ext):
    """Copies (and compiles) the library, puts it first on sys.path."""
    src = os.path.join(REPO, "src", "pykrige")
    if not os.path.isdir(src):
        raise BuildError("no sources at " + src)
    tmp = tempfile.mkdtemp(prefix="mc-pykrige-")
    owner = os.getpid()

    def cleanup():
        if os.getpid() == owner:
            shutil.rmtree(tmp, ignore_errors=True)

    atexit.register(cleanup)
    shutil.copytree(
        src,
        os.path.join(tmp, "pykrige"),
        ignore=shutil.ignore_patterns("*.so", "*.c", "*.pyd", "__pycache__"),
    )
    if ext:
        with open(os.path.join(tmp, "s.py"), "w") as f:
            f.write(SETUP)
        p = subprocess.run(
            [sys.executable, "s.py"], cwd=tmp, capture_output=True, text=True
        )
        if p.returncode != 0:
            raise BuildError("extensions do not compile:\n" + p.stderr[-4000:])
    sys.path.insert(0, tmp)
    import pykrige

    if not os.path.realpath(pykrige.__file__).startswith(os.path.realpath(tmp)):
        raise BuildError("wrong pykrige imported: " + pykrige.__file__)
    if ext:
        import pykrige.lib.cok as cok

        if not os.path.realpath(cok.__file__).startswith(os.path.realpath(tmp)):
            raise BuildError("wrong extension imported: " + cok.__file__)
    return tmp
