"""Makes hypothesis and the code under test importable, offline and without installing anything."""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
DEPS = os.path.join(VERIF, ".deps")
_done = False


class HarnessError(Exception):
    """Something is wrong with the harness or the sandbox, not with the code under test."""


def _unpack():
    wheels = "/opt/veriftools/wheels"
    tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
    need = [f"hypothesis-*-{tag}-{tag}-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"]
    tmp = tempfile.mkdtemp(prefix=".deps-", dir=VERIF)
    found = 0
    for pat in need:
        hits = sorted(glob.glob(os.path.join(wheels, pat)))
        if hits:
            found += 1
            with zipfile.ZipFile(hits[-1]) as z:
                z.extractall(tmp)
    if not glob.glob(os.path.join(tmp, "hypothesis")):
        venv = glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")
        for sp in venv:
            for name in ("hypothesis", "sortedcontainers", "attr", "attrs", "_hypothesis_globals.py", "_hypothesis_pytestplugin.py"):
                src = os.path.join(sp, name)
                if os.path.isdir(src):
                    shutil.copytree(src, os.path.join(tmp, name), dirs_exist_ok=True)
                elif os.path.exists(src):
                    shutil.copy(src, tmp)
    try:
        os.rename(tmp, DEPS)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)


def ensure():
    global _done
    if _done:
        return
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        _unpack()
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        raise HarnessError("hypothesis is not available")
    sys.path.insert(0, DEPS)
    sys.path.insert(0, REPO)
    os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(tempfile.gettempdir(), "verif-hyp"))
    _done = True
