"""Private scratch directories, removed when the run ends."""
import contextlib
import os
import shutil
import tempfile

_worker_dir = None
base_dir = None


@contextlib.contextmanager
def session(cid):
    global base_dir
    base = base_dir = tempfile.mkdtemp(prefix=f"pbt-{cid}-", dir="/tmp")
    try:
        yield base
    finally:
        shutil.rmtree(base, ignore_errors=True)
        shutil.rmtree(os.path.join("/dev/shm", os.path.basename(base)), ignore_errors=True)  # see cli.roots


def enter_worker(base, tag):
    """Give this worker its own cwd and temp dir."""
    global _worker_dir
    d = os.path.join(base, f"wd{tag}")
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    os.environ["TMPDIR"] = d
    os.environ["HOME"] = d
    tempfile.tempdir = None
    _worker_dir = d


def leave_worker():
    if _worker_dir:
        os.chdir("/")
        shutil.rmtree(_worker_dir, ignore_errors=True)


@contextlib.contextmanager
def case_dir(parent=None):
    """Fresh empty directory for one case."""
    d = tempfile.mkdtemp(prefix="case-", dir=parent or _worker_dir)
    d = os.path.realpath(d)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
