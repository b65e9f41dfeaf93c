"""A fresh copy of polog (all of its state included) for every case, compiled from /repo's current tree.

The source files are compiled once per process and executed again for every case; no .pyc file is read or
written, so a stale one can never hide a change.
"""
import atexit
import builtins
import importlib.abc
import importlib.util
import logging
import os
import sys

from vlib.core import REPO

# Modules polog uses: loaded before it, so that a substituted module never leaks into them.
import abc, asyncio, collections, contextlib, contextvars, dataclasses, datetime, email.mime.text, fcntl, functools, gc, inspect, json, multiprocessing, pathlib, queue, random, shutil, smtplib, threading, time, traceback, types, typing, weakref  # noqa

_codes = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _codes.get(self.path)
        if code is None:
            with open(self.path, encoding='utf-8') as file:
                code = compile(file.read(), self.path, 'exec', dont_inherit=True)
            _codes[self.path] = code
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'polog' and not name.startswith('polog.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        package = os.path.join(base, '__init__.py')
        if os.path.isfile(package):
            return importlib.util.spec_from_file_location(name, package, loader=_Loader(package), submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=_Loader(base + '.py'))
        if os.path.isdir(base):
            spec = importlib.util.spec_from_loader(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


_installed = False
exit_functions = []
_real_register = atexit.register


def _install():
    global _installed
    if not _installed:
        sys.meta_path.insert(0, _Finder())
        # The functions polog wants to run at exit belong to thrown away copies. They are kept aside.
        atexit.register = _register
        _installed = True


def _register(function, *args, **kwargs):
    exit_functions.append((function, args, kwargs))
    return function


def purge():
    for name in [x for x in sys.modules if x == 'polog' or x.startswith('polog.')]:
        del sys.modules[name]


_current = None


def load(substitutes=None, extra=()):
    """Import polog anew. substitutes: modules that polog must see instead of the real ones, by name."""
    global _current
    _install()
    unload()
    for item in list(logging.root.filters):
        logging.root.removeFilter(item)
    if hasattr(builtins, 'log'):
        del builtins.log
    del exit_functions[:]
    saved = {}
    substitutes = substitutes or {}
    for name, module in substitutes.items():
        saved[name] = sys.modules.get(name)
        sys.modules[name] = module
    try:
        import polog
        for name in ('polog.handlers.memory.saver', 'polog.handlers.file.writer', 'polog.handlers.smtp.sender',
                     'polog.core.log_item', 'polog.core.engine.engine', 'polog.core.stores.settings.settings_store',
                     'polog.handlers.abstract.base', 'polog.errors') + tuple(extra):
            importlib.import_module(name)
    finally:
        for name, module in saved.items():
            if module is None:
                del sys.modules[name]
            else:
                sys.modules[name] = module
    _current = polog
    return polog


def unload():
    """Stop the workers of the current copy and forget it."""
    global _current
    polog, _current = _current, None
    if polog is None:
        return
    try:
        polog.config.set(max_queue_size=0)
        polog.config.set(pool_size=0)
    except Exception:
        pass
    purge()


def abandon():
    """Forget the current copy without touching its workers (they belong to a finished scheduler)."""
    global _current
    _current = None
    purge()


def module(name):
    return importlib.import_module(name)
