"""setup.py of the current directory, for one extension only, with its sources compiled in parallel.

usage: pbuild.py EXTENSION (argv of setup.py follows)
"""
import os
import sys
from concurrent.futures import ThreadPoolExecutor

which = sys.argv[1]
sys.argv = ["setup.py"] + sys.argv[2:]

import setuptools  # noqa: E402
import Cython.Build  # noqa: E402

_cythonize = Cython.Build.cythonize
_setup = setuptools.setup


def cythonize(exts, *a, **k):
    return _cythonize([e for e in exts if e.name.endswith("." + which)], *a, **k)


def compile_parallel(self, sources, output_dir=None, macros=None, include_dirs=None, debug=0, extra_preargs=None,
                     extra_postargs=None, depends=None):
    # last, where nothing overrides them
    extra_postargs = list(extra_postargs or []) + os.environ.get("VERIF_POSTARGS", "").split()
    macros, objects, extra_postargs, pp_opts, build = self._setup_compile(output_dir, macros, include_dirs, sources, depends, extra_postargs)
    cc_args = self._get_cc_args(pp_opts, debug, extra_preargs)

    def one(obj):
        if obj in build:
            src, ext = build[obj]
            self._compile(obj, src, ext, cc_args, extra_postargs, pp_opts)

    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, objects))
    return objects


Cython.Build.cythonize = cythonize
from distutils import ccompiler  # noqa: E402

ccompiler.CCompiler.compile = compile_parallel
exec(compile(open("setup.py").read(), "setup.py", "exec"), {"__name__": "__main__", "__file__": "setup.py"})
