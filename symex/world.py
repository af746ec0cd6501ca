"""A World is one private copy of the package under test, loaded from the working tree of the repository: instrumented
(mode "sym") or exactly as it is (mode "conc", used for replaying counterexamples and validating sampled paths).
The environment (sockets, serial ports, clock, threads, logging) is replaced by the stubs of stubs.py in both modes."""
import builtins
import os
import sys
import types
from . import core, instrument, runtime, structmodel

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "modbus_tk"
_CODE = {}


def code_for(path, modname, mode, attr_hooks=False, merge=True):
    key = (path, mode, attr_hooks, merge)
    c = _CODE.get(key)
    if c is None:
        with open(path, "rb") as f:
            src = f.read()
        if mode == "sym":
            c = instrument.instrument(src, path, modname, attr_hooks, merge)
        else:
            c = compile(src, path, "exec", dont_inherit=True)
        _CODE[key] = c
    return c


class World(object):
    def __init__(self, mode, stubs, attr_hooks=False, merge=True, extra=()):
        self.mode = mode
        self.mods = {}
        self.stubs = stubs
        self.attr_hooks = attr_hooks
        self.merge = merge
        self.extra = dict(extra)
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["__locals__"] = builtins.locals
        self.builtins = b
        if mode == "sym":
            self.stubs = dict(stubs)
            self.stubs["struct"] = structmodel

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "pkg":
            return self.load(PKG)
        return self.load(PKG + "." + name)

    def path_of(self, name):
        rel = name.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.exists(base + ".py"):
            return base + ".py", False
        return None, False

    def exists(self, name):
        return self.path_of(name)[0] is not None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent = None
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        path, is_pkg = self.path_of(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        if self.mode == "sym":
            m.__dict__["__S__"] = runtime
        self.mods[name] = m
        try:
            exec(code_for(path, name, self.mode, self.attr_hooks, self.merge), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent is not None:
            setattr(parent, name.rpartition(".")[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            name = ".".join(parts + ([name] if name else []))
        if name == PKG or name.startswith(PKG + "."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and hasattr(m, "__path__") and self.exists(name + "." + f):
                        self.load(name + "." + f)
                return m
            return self.load(PKG)
        s = self.stubs.get(name)
        if s is not None:
            return s
        return builtins.__import__(name, globals, locals, fromlist, 0)


def load_native(path, modname, mode):
    """a harness module (static, one copy per mode and process)"""
    m = types.ModuleType(modname)
    m.__file__ = path
    b = dict(vars(builtins))
    b["__locals__"] = builtins.locals

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name.startswith("harness"):
            if name == "harness":
                class NS(object):
                    pass
                ns = NS()
                for f in fromlist:
                    setattr(ns, f, harness_module(f, mode))
                return ns
            return harness_module(name.split(".")[1], mode)
        if name == "struct" and mode == "sym":
            return structmodel
        return builtins.__import__(name, globals, locals, fromlist, level)
    b["__import__"] = imp
    m.__dict__["__builtins__"] = b
    if mode == "sym":
        m.__dict__["__S__"] = runtime
    exec(code_for(path, modname, mode), m.__dict__)
    return m


_HARN = {}


def harness_module(name, mode):
    k = (name, mode)
    if k not in _HARN:
        _HARN[k] = load_native(os.path.join(VERIF, "harness", name + ".py"), "harness." + name, mode)
    return _HARN[k]
