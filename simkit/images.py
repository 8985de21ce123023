"""Process images: every simulated process has its own copy of the modules of
the code under test, so that what a module keeps in its globals (caches,
counters, sessions) belongs to one process and dies with it.

The copy imported by the simulator itself (`base`) is run by no simulated
process; oracles use it.
"""
import contextlib
import importlib.util
import sys

PACKAGE = 'sbclassifier'

_codes = {}         # module name -> (code, spec), in the order of import
_base = None
_active = None


class Image:
    def __init__(self):
        self.modules = {}
        self.signal = None


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name not in _codes:
            return None
        origin = _codes[name][1]
        spec = importlib.util.spec_from_loader(
            name, _Finder, origin=origin.origin,
            is_package=origin.submodule_search_locations is not None)
        if spec.submodule_search_locations is not None:
            spec.submodule_search_locations.extend(
                origin.submodule_search_locations)
        spec.has_location = True
        return spec

    @staticmethod
    def create_module(spec):
        return None

    @staticmethod
    def exec_module(module):
        exec(_codes[module.__name__][0], module.__dict__)


def _mine(name):
    return name == PACKAGE or name.startswith(PACKAGE + '.')


def install():
    """The code under test has been imported: that is the base image."""
    global _base, _active
    import blinker
    _base = _active = Image()
    _base.signal = blinker.signal
    for name, m in list(sys.modules.items()):
        if _mine(name):
            _codes[name] = m.__spec__.loader.get_code(name), m.__spec__
            _base.modules[name] = m
    sys.meta_path.insert(0, _Finder)


def _switch(image):
    global _active
    if image is _active:
        return
    import blinker
    for name in [n for n in sys.modules if _mine(n)]:
        # (a module imported late belongs to the image that did it)
        _active.modules[name] = sys.modules.pop(name)
    sys.modules.update(image.modules)
    blinker.signal = image.signal
    _active = image


def activate(proc):
    """Let `proc` (None: the simulator) see its own modules."""
    if _base is None:
        return
    if proc is None:
        _switch(_base)
        return
    if proc.image is None:
        from . import patches
        import blinker
        proc.image = image = Image()
        image.signal = blinker.Namespace().signal
        _switch(image)
        before, patches.importing = patches.importing, True
        try:
            for name in _codes:
                if name not in sys.modules:
                    __import__(name)
        finally:
            patches.importing = before
        for fn in proc.kernel.on_image:
            fn()
    else:
        _switch(proc.image)


@contextlib.contextmanager
def oracle():
    """Imports in this block are those of the simulator."""
    before = _active
    _switch(_base)
    try:
        yield
    finally:
        _switch(before)


class Mod:
    """A module of the code under test: always that of the process that
    asks."""

    def __init__(self, name):
        object.__setattr__(self, '_name', PACKAGE + '.' + name)

    def __getattr__(self, attr):
        return getattr(sys.modules[self._name], attr)

    def __setattr__(self, attr, value):
        setattr(sys.modules[self._name], attr, value)
