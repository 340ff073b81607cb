"""Fresh, isolated copies ("worlds") of the code under test, loaded from /repo's working tree.

A world is the package `wiz` (plus, on demand, the helper scripts) executed anew, so that module and
class state starts pristine: a simulated process.  Code objects are compiled once per real process and
shared by all worlds, so that line/call events can be switched on once.  World modules see their own
`__import__`, which is the seam for clocks and locks."""
import builtins
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get('DST_REPO', '/repo')

EXTRA = {   # scripts which are not importable as part of the package
    'wiz_abl': 'wiz/article_blockage/helper_functions.py',
    'wiz_coupling': 'coupling_examples/helper_functions.py',
    'wiz_tictoc': 'wiz/examples/tictoc.py',
    'wiz_task1': 'wiz/article_blockage/Task01_Contours_NonYawed.py',
    'wiz_task2': 'wiz/article_blockage/Task02_Axis_And_Rotor.py',
    'wiz_task3': 'wiz/article_blockage/Task03_Axis_And_Rotor_Yaw.py',
    'wiz_task4': 'wiz/article_blockage/Task04_Countours_Yawed.py',
}

_codes = {}      # path -> code
_sources = {}    # path -> source text


def _compile(path):
    c = _codes.get(path)
    if c is None:
        import warnings
        with open(path, 'rb') as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c = compile(src, path, 'exec', dont_inherit=True)
        _codes[path] = c
        _sources[path] = src
    return c


def all_codes():
    """every code object of the loaded sources, nested ones included"""
    out = []
    stack = list(_codes.values())
    while stack:
        c = stack.pop()
        out.append(c)
        stack.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    return out


def preload():
    """compile everything up front (in the parent, before forking workers)"""
    d = os.path.join(REPO, 'wiz')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('test_'):
            _compile(os.path.join(d, f))
    for p in EXTRA.values():
        p = os.path.join(REPO, p)
        if os.path.exists(p):
            _compile(p)


class _Loader:
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        w = World.loading
        module.__dict__['__builtins__'] = w.builtins
        module.__file__ = self.path
        exec(_compile(self.path), module.__dict__)


class _Finder:
    """finds `wiz` and its submodules while a world is being loaded or is active"""
    names = set()        # every module name ever asked for

    def find_spec(self, name, path=None, target=None):
        if World.loading is None or not (name == 'wiz' or name.startswith('wiz.')):
            return None
        self.names.add(name)
        rel = name.replace('.', '/')
        p = os.path.join(REPO, rel)
        if os.path.isdir(p):
            init = os.path.join(p, '__init__.py')
            if os.path.exists(init):
                spec = importlib.machinery.ModuleSpec(name, _Loader(init), origin=init, is_package=True)
            else:
                spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        p += '.py'
        if os.path.exists(p):
            return importlib.machinery.ModuleSpec(name, _Loader(p), origin=p)
        return None


_finder = _Finder()


def install():
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)


class _Floris:
    """stand-in for the (absent) floris package used by the coupling examples"""
    @staticmethod
    def modules():
        def mod(n):
            m = types.ModuleType(n)
            m.__path__ = []
            return m
        f, t, u = mod('floris'), mod('floris.tools'), mod('floris.utilities')

        class Vec3:
            def __init__(self, *a):
                self.a = a
        u.Vec3 = Vec3
        f.tools, f.utilities = t, u
        return {'floris': f, 'floris.tools': t, 'floris.utilities': u}


_floris = _Floris.modules()


class World:
    """one simulated process image of the code under test"""
    loading = None      # the active world (also the one that lazy imports belong to)

    def __init__(self, modules=('WindTurbine', 'WindFarm'), overrides=None):
        install()
        from .engine import sim_threading
        self.overrides = {'threading': sim_threading()}
        self.overrides.update(overrides or {})
        self.mods = {}
        self.extra = {}
        b = dict(builtins.__dict__)
        b['__import__'] = self._import
        b['open'] = lambda *a, **k: builtins.open(*a, **k)      # the simulated disk, when there is one
        b['breakpoint'] = lambda *a, **k: None
        self.builtins = b
        with self:
            for m in modules:
                importlib.import_module('wiz.' + m)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name in self.overrides:
                return self.overrides[name]
            if name == 'floris' or name.startswith('floris.'):
                for k, v in _floris.items():
                    sys.modules.setdefault(k, v)
        return builtins.__import__(name, globals, locals, fromlist, level)

    # --- sys.modules holds the active world's modules
    _stack = []

    def __enter__(self):
        prev = World.loading
        if prev is not None:
            prev._stash()
        else:
            for n in _finder.names:
                sys.modules.pop(n, None)
        World._stack.append(prev)
        sys.modules.update(self.mods)
        World.loading = self
        return self

    def _stash(self):
        self.mods = {n: sys.modules[n] for n in _finder.names if n in sys.modules}
        for n in self.mods:
            del sys.modules[n]

    def __exit__(self, *a):
        self._stash()
        prev = World._stack.pop()
        if prev is not None:
            sys.modules.update(prev.mods)
        World.loading = prev
        return False

    def __getattr__(self, name):
        if name.startswith('_') or name in ('mods', 'extra'):
            raise AttributeError(name)
        return self.mod(name)

    def mod(self, name):
        """module wiz.<name>"""
        full = 'wiz.' + name
        if World.loading is self:
            return importlib.import_module(full)
        m = self.mods.get(full)
        if m is None:
            with self:
                m = importlib.import_module(full)
        return m

    def script(self, key):
        """one of the helper scripts, executed in this world"""
        m = self.extra.get(key)
        if m is None:
            path = os.path.join(REPO, EXTRA[key])
            with self:
                m = types.ModuleType(key)
                m.__dict__['__builtins__'] = self.builtins
                m.__file__ = path
                sys.modules[key] = m
                exec(_compile(path), m.__dict__)
            self.extra[key] = m
        return m
