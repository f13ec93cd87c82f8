"""Harness-owned modules, classes and functions that record being used, plus
an audit hook and sys.monitoring watch over calls made by skops.io."""
from __future__ import annotations

import importlib.abc
import importlib.machinery
import sys
import types

PREFIX = "pbtcan"
PRELOADED = ("pbtcan_pre", "pbtcan_pre.sub")
ledger = []          # (event, fully qualified name)


class Meta(type):
    def __call__(cls, *a, **k):
        ledger.append(("call", cls.__dict__.get("_fqn", "?")))
        return super().__call__(*a, **k)


class Base(metaclass=Meta):
    def __new__(cls, *a, **k):
        ledger.append(("new", cls._fqn))
        return object.__new__(cls)

    def __init__(self, *a, **k):
        pass

    def __setstate__(self, st):
        ledger.append(("setstate", self._fqn))
        if isinstance(st, dict):
            self.__dict__.update(st)

    def danger(self, *a, **k):
        ledger.append(("call", self._fqn + ".danger"))

    def other(self):
        ledger.append(("call", self._fqn + ".other"))

    @property
    def prop(self):
        ledger.append(("resolve", self._fqn + ".prop"))
        return eval


def _make(mod, name):
    fqn = f"{mod}.{name}"
    if name.startswith("fn"):
        def fn(*a, **k):
            ledger.append(("call", fqn))
            return None

        fn.__name__ = fn.__qualname__ = name
        fn.__module__ = mod
        return fn
    return Meta(name, (Base,), {"_fqn": fqn, "__module__": mod})


class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        ledger.append(("resolve", f"{self.__name__}.{name}"))
        obj = _make(self.__name__, name)
        self.__dict__[name] = obj
        return obj


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if not name.startswith(PREFIX):
            return None
        ledger.append(("import", name))
        return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        m = _Module(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, module):
        pass


def reset():
    ledger.clear()
    for m in [m for m in sys.modules if m.startswith(PREFIX)]:
        del sys.modules[m]
    # modules which are imported already: looking anything up in them is noticed
    for name in PRELOADED:
        m = _Module(name)
        m.__path__ = []
        sys.modules[name] = m


# ---------------------------------------------------------------------------
# audit hook

_armed = False
events = []
_BAD = ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty", "pty.spawn",
        "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chown", "os.link", "os.symlink",
        "os.kill", "os.putenv", "os.unsetenv", "os.chdir", "os.utime", "shutil.", "tempfile.", "socket.", "ctypes.", "webbrowser.",
        "urllib.", "ftplib.", "http.", "smtplib.", "pickle.find_class", "code.__new__", "marshal.", "os.startfile", "mmap.__new__",
        "sqlite3.", "glob.", "os.walk", "cpython.run_", "builtins.input", "builtins.breakpoint",
        "signal.pthread_kill", "resource.", "syslog.", "telnetlib.", "winreg.", "os.setxattr", "fcntl.")


def _hook(event, args):
    global _armed
    if not _armed:
        return
    if event == "open":
        if args[0] in ("<string>", "<unknown>"):
            return  # the interpreter looking for the source line of a SyntaxError
        events.append(("open", repr(args[0])))
    elif event == "import":
        events.append(("import", args[0]))
    elif event == "exec" and not args[0].co_filename.startswith("<"):
        pass  # body of a module being imported; the import itself is an event
    elif event == "marshal.loads" and sys._getframe(1).f_code.co_filename == "<frozen importlib._bootstrap_external>":
        pass  # likewise
    elif event == "exec" or event.startswith(_BAD):
        events.append((event, repr(args)[:300]))
        _armed = False
        raise PermissionError(f"pbt: blocked {event}")


class Guard:
    """with Guard(): everything dangerous is recorded (and blocked)."""

    def __enter__(self):
        global _armed
        events.clear()
        _armed = True
        return events

    def __exit__(self, *exc):
        global _armed
        _armed = False
        return False


# ---------------------------------------------------------------------------
# calls made by skops.io code

TOOL = 3
calls = []
_watching = False


def _on_call(code, offset, callee, arg0):
    if _watching:
        if isinstance(arg0, types.ModuleType):
            arg0 = "module:" + getattr(arg0, "__name__", "?")
        calls.append((callee, arg0 if isinstance(arg0, str) else None))


def _skops_codes():
    seen = []

    def rec(code):
        seen.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                rec(c)

    def of(obj, mod):
        if isinstance(obj, types.FunctionType):
            if (obj.__module__ or "").startswith("skops.io"):
                rec(obj.__code__)
                w = getattr(obj, "__wrapped__", None)
                if w is not None:
                    of(w, mod)
        elif isinstance(obj, type) and (obj.__module__ or "").startswith("skops.io"):
            for v in vars(obj).values():
                if isinstance(v, (staticmethod, classmethod)):
                    v = v.__func__
                if isinstance(v, property):
                    v = v.fget
                of(v, mod)

    for name, m in list(sys.modules.items()):
        if name.startswith("skops.io") and ".tests" not in name:
            for v in list(vars(m).values()):
                if not isinstance(v, type) or v.__module__ == name:
                    of(v, name)
    return {id(c): c for c in seen}.values()


class Watch:
    def __enter__(self):
        global _watching
        calls.clear()
        _watching = True
        return calls

    def __exit__(self, *exc):
        global _watching
        _watching = False
        return False


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.meta_path.insert(0, _Finder())
    sys.addaudithook(_hook)
    import skops.io  # noqa

    mon = sys.monitoring
    mon.use_tool_id(TOOL, "pbt")
    mon.register_callback(TOOL, mon.events.CALL, _on_call)
    for code in _skops_codes():
        mon.set_local_events(TOOL, code, mon.events.CALL)
