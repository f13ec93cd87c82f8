"""Make `hypothesis` importable in the interpreter that has skops' deps.

Only the packages named in ALLOWED are served from the tooling venv (or, if
that is missing, from the wheelhouse unpacked to a private temp dir), so
nothing there can shadow numpy & co.
"""
import glob
import importlib.machinery
import os
import sys
import tempfile
import zipfile

ALLOWED = {
    "hypothesis", "_hypothesis_globals", "_hypothesis_ftz_detector",
    "sortedcontainers", "attr", "attrs",
}
VENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


class _Finder:
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if top not in ALLOWED or path is not None:
            return None
        return importlib.machinery.PathFinder.find_spec(name, [self.path])


def setup():
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    if os.path.isdir(os.path.join(VENV, "hypothesis")):
        base = VENV
    else:
        tag = "cp%d%d" % sys.version_info[:2]
        base = tempfile.mkdtemp(prefix="pbt-hyp-")
        for pat in (f"hypothesis-*-{tag}-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
            for whl in glob.glob(os.path.join(WHEELS, pat)):
                with zipfile.ZipFile(whl) as z:
                    z.extractall(base)
    sys.meta_path.append(_Finder(base))
    import hypothesis  # noqa
