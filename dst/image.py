"""Package images: a fresh copy of all flamingpy modules per simulated process.

Code objects are compiled once from the current sources under FP_REPO (default /repo); .pyc files
are never used.  While an image is active, sys.modules holds its modules."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import pathlib
import sys
import types

from . import seams
from .core import HarnessError

ROOT = pathlib.Path(os.environ.get("FP_REPO", "/repo"))
PREFIX = "flamingpy"
_code = {}  # module name -> (code, is_package, filename)
_lemon = None
lemon_path = None
HASH_SEAM = True


def load_sources():
    """Compile every module of the package (once, in the parent process)."""
    if _code:
        return
    import warnings

    warnings.simplefilter("ignore", SyntaxWarning)
    base = ROOT / PREFIX
    for f in sorted(base.rglob("*.py")):
        rel = f.relative_to(ROOT).with_suffix("")
        parts = rel.parts
        pkg = parts[-1] == "__init__"
        name = ".".join(parts[:-1] if pkg else parts)
        src = f.read_bytes()
        try:
            _code[name] = (compile(src, str(f), "exec", dont_inherit=True), pkg, str(f))
        except SyntaxError as e:
            raise HarnessError(f"{f} does not compile: {e}") from e
    if not _code:
        raise HarnessError(f"no sources under {base}")


def source(name):
    return _code[name]


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Serves flamingpy and mpi4py modules to the active image."""

    def __init__(self):
        self.active = None

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        img = self.active
        if top == "mpi4py":
            if img is not None and img.mpi is not None:
                return importlib.machinery.ModuleSpec(name, self, is_package=(name == "mpi4py"))
            if img is not None and img.mpi_error is not None:
                raise img.mpi_error(f"injected: cannot import {name}")
            return None
        if top != PREFIX or img is None:
            return None
        if name == "flamingpy.cpp.lemonpy":
            if img.lemon_error is not None:
                raise img.lemon_error("injected: cannot import flamingpy.cpp.lemonpy")
            if lemon_path is None:
                raise ImportError("flamingpy.cpp.lemonpy is not built for this run")
            return importlib.machinery.ModuleSpec(name, self)
        if name in _code:
            return importlib.machinery.ModuleSpec(
                name, self, origin=_code[name][2], is_package=_code[name][1])
        if name == "flamingpy.cpp":
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        img = self.active
        if spec.name.startswith("mpi4py"):
            return img.mpi.module(spec.name)
        if spec.name == "flamingpy.cpp.lemonpy":
            return _load_lemon()
        return types.ModuleType(spec.name)

    def exec_module(self, module):
        name = module.__spec__.name if module.__spec__ else module.__name__
        if name in _code:
            code, pkg, filename = _code[name]
            module.__file__ = filename
            if pkg:
                module.__path__ = [os.path.dirname(filename)]
            module.__dict__["id"] = self.active.sim_id
            exec(code, module.__dict__)
            self.active.patch_hash(module)
        elif name == "flamingpy.cpp":
            module.__path__ = []
        elif name == "mpi4py":
            module.__path__ = []


def _load_lemon():
    global _lemon
    if _lemon is None:
        loader = importlib.machinery.ExtensionFileLoader("lemonpy", lemon_path)
        spec = importlib.util.spec_from_file_location("lemonpy", lemon_path, loader=loader)
        _lemon = importlib.util.module_from_spec(spec)
        loader.exec_module(_lemon)
    m = types.ModuleType("flamingpy.cpp.lemonpy")
    for k in dir(_lemon):
        if not k.startswith("__"):
            setattr(m, k, getattr(_lemon, k))
    return m


FINDER = _Finder()


def install():
    if FINDER in sys.meta_path:
        return
    sys.meta_path.insert(0, FINDER)
    # Import locks are process-wide; simulated processes must not wait for each other's.
    mgr = sys.modules["_frozen_importlib"]._ModuleLockManager
    enter, leave = mgr.__enter__, mgr.__exit__

    def __enter__(self):
        self._dst_skip = _ours(self._name) and seams.cur() is not None
        if not self._dst_skip:
            return enter(self)
        return None

    def __exit__(self, *a):
        if not self._dst_skip:
            return leave(self, *a)
        return None

    mgr.__enter__, mgr.__exit__ = __enter__, __exit__


def _ours(name):
    return name == PREFIX or name.startswith(PREFIX + ".") or name == "mpi4py" or \
        name.startswith("mpi4py.")


class Image:
    """One simulated process's copy of the package."""

    def __init__(self, mpi=None, mpi_error=None, lemon_error=None, hash_seed=0):
        self.modules = {}
        self.mpi = mpi
        self.mpi_error = mpi_error or (None if mpi else ImportError)
        self.lemon_error = lemon_error
        self.hash_seed = hash_seed
        self.hash_count = 0
        self.rx_count = 0
        self.main = None
        self._saved_main = None
        self._on = 0
        self._patched = set()
        self._ids = {}

    def activate(self):
        self._on += 1
        if self._on > 1:
            return
        if FINDER.active is not None:
            raise HarnessError("two active images")
        for n in [n for n in sys.modules if _ours(n)]:
            del sys.modules[n]
        sys.modules.update(self.modules)
        if self.main is not None:
            self._saved_main = sys.modules["__main__"]
            sys.modules["__main__"] = self.main
        FINDER.active = self

    def deactivate(self):
        self._on -= 1
        if self._on:
            return
        self.modules = {n: m for n, m in sys.modules.items() if _ours(n)}
        for n in self.modules:
            del sys.modules[n]
        if self._saved_main is not None:
            sys.modules["__main__"] = self._saved_main
            self._saved_main = None
        FINDER.active = None

    def __enter__(self):
        self.activate()
        return self

    def __exit__(self, *e):
        self.deactivate()

    def get(self, name):
        """Import a module of this image (which must be active)."""
        if FINDER.active is not self:
            raise HarnessError("image is not active")
        __import__(name)
        return sys.modules[name]

    def run_main(self, name):
        """Execute a module's source as __main__ of this process."""
        code, _, filename = _code[name]
        m = types.ModuleType("__main__")
        m.__file__ = filename
        self.main = m
        if self._saved_main is None:
            self._saved_main = sys.modules["__main__"]
        sys.modules["__main__"] = m
        exec(code, m.__dict__)
        return m

    def sim_id(self, obj):
        """id() as the package sees it: a seeded function of the order of first use."""
        hit = self._ids.get(id(obj))
        if hit is None:
            x = ((len(self._ids) + 1) * 0x9E3779B97F4A7C15 + self.hash_seed * 0xD6E8FEB86659FD93) & (2**64 - 1)
            x ^= x >> 29
            hit = self._ids[id(obj)] = ((x * 0xBF58476D1CE4E5B9) & (2**47 - 1), obj)
        return hit[0]

    # -- object identity ---------------------------------------------------------------
    def patch_hash(self, module):
        """Make hash() of plain objects a seeded function of their first-use order instead of
        their memory address (equality stays identity)."""
        if not HASH_SEAM:
            return
        for obj in list(vars(module).values()):
            if (isinstance(obj, type) and obj.__module__ == module.__name__
                    and obj not in self._patched and obj.__hash__ is object.__hash__
                    and obj.__eq__ is object.__eq__ and getattr(obj, "__dictoffset__", 0)
                    and not issubclass(obj, BaseException)):
                self._patched.add(obj)
                try:
                    obj.__hash__ = _make_hash(self)
                except TypeError:
                    pass


def _make_hash(img):
    def __hash__(self):
        d = self.__dict__
        h = d.get("_dst_h")
        if h is None:
            img.hash_count += 1
            x = (img.hash_count * 0x9E3779B97F4A7C15 + img.hash_seed * 0xBF58476D1CE4E5B9) & (2**64 - 1)
            x ^= x >> 31
            x = (x * 0x94D049BB133111EB) & (2**64 - 1)
            h = d["_dst_h"] = (x ^ (x >> 29)) & (2**60 - 1)
        return h

    return __hash__
