"""Runs command line calls in forked children, with crashes and faults at chosen points, and file snapshots."""
from __future__ import annotations

import contextlib
import errno
import os
import pickle
import resource
import signal
import sys
import tempfile

from . import scratch

SHM = "/dev/shm"
EVENTS = ("open", "os.", "shutil.", "tempfile.", "pathlib.")
CLEANUP = ("os.remove", "os.rmdir", "shutil.rmtree", "os.scandir", "os.listdir", "os.unlink")
KILLED = 86


@contextlib.contextmanager
def roots():
    """Two scratch directories, on different file systems if possible."""
    with scratch.case_dir() as root:
        if os.path.isdir(SHM) and os.access(SHM, os.W_OK) and os.stat(SHM).st_dev != os.stat(root).st_dev:
            base = os.path.join(SHM, os.path.basename(scratch.base_dir))
            os.makedirs(base, exist_ok=True)
            with scratch.case_dir(base) as other:
                yield root, other, True
        else:
            other = os.path.join(root, "other")
            os.mkdir(other)
            yield root, other, False


def snapshot(*tops):
    out = {}
    for top in tops:
        for d, dirs, files in os.walk(top):
            for n in dirs:
                p = os.path.join(d, n)
                out[p] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir",)
            for n in files:
                p = os.path.join(d, n)
                if os.path.islink(p):
                    out[p] = ("link", os.readlink(p))
                else:
                    with open(p, "rb") as f:
                        out[p] = ("file", f.read())
    return out


def changed(before, after):
    """Paths that differ."""
    return sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))


def writes(event, args):
    if event == "open":
        mode, flags = args[1], args[2]
        return bool(mode and set(mode) & set("wax+")) or bool(isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR) and not (flags & os.O_DIRECTORY == os.O_DIRECTORY))
    return event in ("os.rename", "os.mkdir", "os.link", "os.symlink")


class Fault:
    """What happens to the child: None, ["event", k], ["line", k], ["fsize", n, kill], ["raise", k, errno]."""

    def __init__(self, spec):
        self.spec = spec
        self.n = 0
        self.lines = 0
        self.log = []
        self.on = False

    def hook(self, event, args):
        if not self.on or not event.startswith(EVENTS):
            return
        if event == "open" and isinstance(args[0], (str, bytes)) and os.fsdecode(args[0]).endswith((".py", ".pyc", ".so")):
            return
        k, self.n = self.n, self.n + 1
        if self.spec is None:
            self.log.append((event, bool(writes(event, args))))
        elif self.spec[0] == "event" and k == self.spec[1]:
            os._exit(KILLED)
        elif self.spec[0] == "raise" and k == self.spec[1]:
            raise OSError(self.spec[2], os.strerror(self.spec[2]))

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if "/skops/cli/" in f or f.endswith(("/skops/io/_persist.py", "/shutil.py", "/tempfile.py", "/pathlib.py")):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line":
            k, self.lines = self.lines, self.lines + 1
            if self.spec is not None and self.spec[0] == "line" and k == self.spec[1]:
                os._exit(KILLED)
        return self.line


class Outcome:
    def __init__(self, status, error=None, log=(), lines=0, records=(), extra=None):
        self.status, self.error, self.log, self.lines, self.records, self.extra = status, error, log, lines, records, extra


def child(fn, cwd, tmp, fault=None, timeout=60, records=False):
    """Call fn() in a forked process -> Outcome(status: ok | error | killed | signal N)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if not pid:
        code = 4
        try:
            os.close(r)
            signal.alarm(timeout)
            os.chdir(cwd)
            os.umask(0o022)
            os.environ["TMPDIR"] = tmp
            tempfile.tempdir = None
            f = Fault(fault)
            recs = []
            if records:
                import logging

                class H(logging.Handler):
                    def emit(self, record):
                        recs.append((record.levelno, record.getMessage()))

                logging.getLogger().addHandler(H())
            sys.addaudithook(f.hook)
            if fault and fault[0] == "fsize":
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fault[2] else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fault[1], fault[1]))
            error = extra = None
            if fault is None or fault[0] == "line":
                sys.settrace(f.trace)
            f.on = True
            try:
                extra = fn()
            except SystemExit as e:
                error = f"SystemExit {e.code}" if e.code not in (0, None) else None
            except BaseException as e:
                error = f"{type(e).__name__}: {e}"[:600]
            f.on = False
            sys.settrace(None)
            data = pickle.dumps((error, f.log, f.lines, recs, extra))
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig == signal.SIGALRM:
            return Outcome("timeout")
        return Outcome("killed" if sig == signal.SIGXFSZ else f"signal {sig}")
    code = os.WEXITSTATUS(st)
    if code == KILLED:
        return Outcome("killed")
    if code:
        raise RuntimeError(f"child exits with {code}")
    error, log, lines, recs, extra = pickle.loads(b"".join(chunks))
    return Outcome("error" if error else "ok", error, log, lines, recs, extra)


ERRNOS = [errno.ENOSPC, errno.EACCES, errno.EXDEV, errno.EIO]
