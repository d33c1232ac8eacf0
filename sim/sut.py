"""The system under test: pdfsyntax compiled from /repo's working tree, in memory, once per process,
and executed afresh for every simulated process.

Nothing is written (no byte-code files), nothing is read from an installed copy.
"""
import importlib.abc
import importlib.util
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'pdfsyntax'
_codes = {}          # module name -> (code, filename, is_package)
MON = sys.monitoring
TOOL = 3


class Budget(BaseException):
    """The simulated process executed more steps than any bounded work would need."""


def _locate(name):
    p = os.path.join(REPO, *name.split('.'))
    if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
        return os.path.join(p, '__init__.py'), True
    if os.path.exists(p + '.py'):
        return p + '.py', False
    return None, False


def _code(name):
    if name not in _codes:
        fn, pkg = _locate(name)
        if fn is None:
            return None
        with _real_open(fn, 'rb') as f:
            src = f.read()
        _codes[name] = (compile(src, fn, 'exec', dont_inherit=True), fn, pkg)
    return _codes[name]


_real_open = open


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        c = _code(name)
        if c is None:
            return None
        spec = importlib.util.spec_from_loader(name, self, origin=c[1], is_package=c[2])
        if c[2]:
            spec.submodule_search_locations = [os.path.dirname(c[1])]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        c = _code(module.__name__)
        module.__file__ = c[1]
        if METER.on:
            METER.watch(c[0])
        exec(c[0], module.__dict__)


def walk(code):
    yield code
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            yield from walk(k)


class Meter:
    """Counts executed steps of library code and calls hooks on them.

    One sys.monitoring tool.  mode 'jump': function starts and jumps (cheap, for the step budget).
    mode 'line': every executed source line (interruption points and thread switch points).
    """
    def __init__(self):
        self.on = False
        self.steps = 0
        self.limit = None
        self.hook = None
        self.watched = {}
        self.extra = {}
        self.events = 0

    def start(self):
        MON.use_tool_id(TOOL, 'pdfsyntax-simulator')
        E = MON.events
        MON.register_callback(TOOL, E.LINE, self._line)
        MON.register_callback(TOOL, E.JUMP, self._jump)
        MON.register_callback(TOOL, E.PY_START, self._start)
        self.on = True

    def set_mode(self, mode):
        E = MON.events
        ev = {'jump': E.JUMP | E.PY_START, 'line': E.LINE, None: 0}[mode]
        if ev != self.events:
            self.events = ev
            for c in self.watched.values():
                MON.set_local_events(TOOL, c, ev)

    def watch(self, code):
        for c in walk(code):
            if id(c) not in self.watched:
                self.watched[id(c)] = c
                MON.set_local_events(TOOL, c, self.events)

    def set_extra(self, on):
        """Also see the lines of the standard library's copy module, where objects are half copied."""
        import copy
        if not self.extra:
            for f in vars(copy).values():
                if isinstance(f, types.FunctionType):
                    self.extra[id(f.__code__)] = f.__code__
        for c in self.extra.values():
            MON.set_local_events(TOOL, c, MON.events.LINE if on else 0)

    def reset(self, limit=None, hook=None, mode='jump'):
        self.steps = 0
        self.limit = limit
        self.hook = hook
        self.set_mode(mode)

    def _line(self, code, line):
        self.steps += 1
        if self.hook is not None:
            self.hook(code, line)
        if self.limit is not None and self.steps > self.limit:
            raise Budget(f'more than {self.limit} steps')

    def _jump(self, code, a, b):
        self.steps += 1
        if self.limit is not None and self.steps > self.limit:
            raise Budget(f'more than {self.limit} steps')

    def _start(self, code, a):
        self.steps += 1
        if self.limit is not None and self.steps > self.limit:
            raise Budget(f'more than {self.limit} steps')


METER = Meter()
_installed = False


def install():
    global _installed
    if not _installed:
        sys.meta_path.insert(0, Finder())
        METER.start()
        _installed = True


def fresh():
    """A new simulated process image: pdfsyntax imported anew, all its module state gone."""
    install()
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + '.')]:
        del sys.modules[k]
    old, METER.limit = METER.limit, None
    import importlib
    m = importlib.import_module(PKG)
    importlib.import_module(PKG + '.cli')
    importlib.import_module(PKG + '.filestruct')
    METER.limit = old
    return m
