"""Fresh, isolated instances of the package under test.

Every simulated run imports its own instance of fast_bss_eval straight from the
working tree (compiled code is cached per file content, module state never is),
so that no state can travel from one run to the next inside the package.
"""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import boot

PKG = "fast_bss_eval"
_code_cache = {}
PKG_CODES = []          # every code object of the package, in a stable order
_seen_codes = set()
_listeners = []         # called with each new code object (monitor.py)


def on_new_code(fn):
    _listeners.append(fn)
    for c in PKG_CODES:
        fn(c)


def _walk(code):
    yield code
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            yield from _walk(k)


def _register(code):
    for c in _walk(code):
        if id(c) not in _seen_codes:
            _seen_codes.add(id(c))
            PKG_CODES.append(c)
            for fn in _listeners:
                fn(c)


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.path
        with open(path, "rb") as f:
            src = f.read()
        key = (path, src)
        code = _code_cache.get(key)
        if code is None:
            code = compile(src, path, "exec", dont_inherit=True)
            _code_cache[key] = code
            _register(code)
        return code


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = os.path.join(boot.REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init),
                submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_Loader(fullname, base + ".py"))
        return None


_finder = _Finder()


def install():
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)


def _mine():
    return [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]


def detach():
    """Take the current instance out of sys.modules and return it."""
    return {m: sys.modules.pop(m) for m in _mine()}


def attach(saved):
    detach()
    sys.modules.update(saved)


def fresh():
    """Import a brand-new instance and leave it installed."""
    install()
    detach()
    return importlib.import_module(PKG)
