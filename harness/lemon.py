"""Compiles /repo's C++ matching extension into a scratch directory and makes it importable.

The in-tree build product is git-ignored and may be stale, so checks never use it.
"""
import atexit
import glob
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

from harness.bootstrap import HarnessError, REPO

_installed = False
built = None  # the compiled extension of this run


def _includes():
    inc = [sysconfig.get_paths()["include"]]
    for pat in ("/opt/vp/cmake/pybind11/include", "/opt/vp/cmake/pybind11*/include", "/usr/include/pybind11/..",
                "/opt/vp/**/pybind11/pybind11.h", "/opt/venv/lib/python3*/site-packages/pybind11/include",
                "/opt/veriftools/pyvenv/lib/python3*/site-packages/pybind11/include"):
        for hit in sorted(glob.glob(pat, recursive=True)):
            if hit.endswith("pybind11.h"):
                hit = os.path.dirname(os.path.dirname(hit))
            if os.path.exists(os.path.join(hit, "pybind11", "pybind11.h")):
                return inc + [hit]
    raise HarnessError("pybind11 headers not found")


def install(prebuilt=None):
    """Build the extension from the working tree and register it as flamingpy.cpp.lemonpy.

    Must run before anything from flamingpy is imported.  A child process of a check passes the path of its parent's build.
    """
    global _installed, built
    if _installed:
        return
    out = built = prebuilt or compile_extension()

    class Finder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name != "flamingpy.cpp.lemonpy":
                return None
            loader = importlib.machinery.ExtensionFileLoader(name, out)
            return importlib.util.spec_from_file_location(name, out, loader=loader)

    sys.meta_path.insert(0, Finder)
    if any(name.startswith("flamingpy") for name in sys.modules):
        raise HarnessError("flamingpy was imported before the matching extension was built")
    import flamingpy.cpp.lemonpy as lp

    if os.path.realpath(lp.__file__) != os.path.realpath(out):
        raise HarnessError("wrong matching extension loaded: " + lp.__file__)
    _installed = True


def compile_extension():
    src = os.path.join(REPO, "flamingpy", "cpp", "lemonpy.cpp")
    tmp = tempfile.mkdtemp(prefix="verif-lemon-")
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(tmp, ignore_errors=True))
    out = os.path.join(tmp, "lemonpy" + sysconfig.get_config_var("EXT_SUFFIX"))
    cmd = ["g++", "-O1", "-std=c++17", "-shared", "-fPIC", "-fvisibility=hidden", "-w"]
    cmd += ["-I" + d for d in _includes()] + [src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise HarnessError("the matching extension does not compile:\n" + r.stderr[-2000:])
    return out
