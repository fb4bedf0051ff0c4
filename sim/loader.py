"""Loads the code under test from the repository's working tree, one private copy of every module per simulated process.

A module is found in the directories on the process's (simulated) import path, so helper modules added to the
repository are picked up too.  Nothing is written next to the sources.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import core, seams
from .seams import cur

REPO = os.environ.get('SIM_REPO', '/repo')
SIM_REPO_DIR = '/sim/repo'
_code = {}
_real_isfile = os.path.isfile
_real_isdir = os.path.isdir


def real_path(simpath):
    assert simpath.startswith(SIM_REPO_DIR)
    return REPO + simpath[len(SIM_REPO_DIR):]


def code_for(path):
    """Compiled code of a real source file (cached)."""
    c = _code.get(path)
    if c is None:
        with seams.REAL['open'](path, 'rb', 0) as f:
            src = f.read()
        sim = SIM_REPO_DIR + path[len(REPO):]
        tree = ast.fix_missing_locations(_Sets().visit(ast.parse(src, sim)))
        c = _code[path] = compile(tree, sim, 'exec', dont_inherit=True)
    return c


class _Sets(ast.NodeTransformer):
    """Set displays become calls of set(), so that their iteration order is the simulator's (see SimSet)."""
    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__simset__', ast.Load()), [ast.List(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__simset__', ast.Load()), [ast.ListComp(node.elt, node.generators)], []), node)


def _has_text(o):
    return isinstance(o, (str, bytes)) or isinstance(o, tuple) and any(_has_text(x) for x in o)


class _SetMeta(type(set)):
    def __instancecheck__(cls, o):
        return isinstance(o, cls.__mro__[1])

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.__mro__[1])


def _salted_iter(base):
    def it(self):
        r = base.__iter__(self)
        p = cur()
        if p is None:
            return r
        xs = list(r)
        if len(xs) < 2 or not any(_has_text(x) for x in xs):
            return iter(xs)
        return iter(sorted(xs, key=lambda x: core.h64(p.world.seed, p.entropy, 'set', x)))
    return it


class SimSet(set, metaclass=_SetMeta):
    """Sets that contain text iterate in an order that differs from process to process (hash randomisation)."""
    __iter__ = _salted_iter(set)

    def pop(self):
        for x in self:
            self.remove(x)
            return x
        raise KeyError('pop from an empty set')


class SimFrozenSet(frozenset, metaclass=_SetMeta):
    __iter__ = _salted_iter(frozenset)


def _wrap_ops(cls, base):
    for nm in ('__or__', '__and__', '__sub__', '__xor__', '__ror__', '__rand__', '__rsub__', '__rxor__', 'union', 'intersection',
               'difference', 'symmetric_difference', 'copy'):
        def mk(f):
            def op(self, *a):
                r = f(self, *a)
                return r if r is NotImplemented else cls(r)
            return op
        setattr(cls, nm, mk(getattr(base, nm)))


_wrap_ops(SimSet, set)
_wrap_ops(SimFrozenSet, frozenset)


def prepare(ns):
    ns['__simset__'] = ns['set'] = SimSet
    ns['frozenset'] = SimFrozenSet


class RepoLoader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path, self.is_pkg = path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        p = cur()
        p.modules[module.__name__] = module
        module.__file__ = SIM_REPO_DIR + self.path[len(REPO):]
        p.noswitch += 1
        try:
            prepare(module.__dict__)
            exec(code_for(self.path), module.__dict__)
        finally:
            p.noswitch -= 1

    def is_package(self, name):
        return self.is_pkg


class StubLoader(importlib.abc.Loader):
    def __init__(self, src):
        self.src = src

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        cur().modules[module.__name__] = module
        for k, v in vars(self.src).items():
            if not k.startswith('__'):
                setattr(module, k, v)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        p = cur()
        if p is None:
            return None
        top = name.split('.')[0]
        if top == 'kgraph':
            if not p.has_kgraph:
                raise ModuleNotFoundError("No module named 'kgraph'", name='kgraph')
            from .stubs import kgraph
            return importlib.machinery.ModuleSpec(name, StubLoader(kgraph))
        rel = name.replace('.', '/')
        for d in p.import_dirs:
            base = real_path(d) + '/' + rel
            if _real(_real_isfile, base + '/__init__.py'):
                spec = importlib.machinery.ModuleSpec(name, RepoLoader(base + '/__init__.py', True), is_package=True)
                spec.submodule_search_locations = [d + '/' + rel]
                return spec
            if _real(_real_isfile, base + '.py'):
                return importlib.machinery.ModuleSpec(name, RepoLoader(base + '.py', False))
            if '.' not in name and _real(_real_isdir, base) and top in ('exps', 'nonasymptotic'):
                spec = importlib.machinery.ModuleSpec(name, NamespaceLoader(), is_package=True)
                spec.submodule_search_locations = [d + '/' + rel]
                return spec
        return None


class NamespaceLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        cur().modules[module.__name__] = module


def _real(fn, path):
    """Run a path predicate against the real file system."""
    try:
        st = seams.REAL['os.stat'](path)
    except OSError:
        return False
    import stat
    return stat.S_ISREG(st.st_mode) if fn is _real_isfile else stat.S_ISDIR(st.st_mode)


def install():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


def run_script(p, simpath):
    """Run a repository script as the process's main program."""
    m = types.ModuleType('__main__')
    m.__file__ = simpath
    m.__builtins__ = __builtins__
    p.modules['__main__'] = m
    sys.modules['__main__'] = m
    prepare(m.__dict__)
    exec(code_for(real_path(simpath)), m.__dict__)


def run_notebook(p, simpath):
    """Run the code cells of a notebook, in order, as the process's main program."""
    import json
    m = types.ModuleType('__main__')
    m.__builtins__ = __builtins__
    p.modules['__main__'] = m
    sys.modules['__main__'] = m
    prepare(m.__dict__)
    with seams.REAL['open'](real_path(simpath), 'rb', 0) as f:
        cells = json.loads(f.read())['cells']
    for i, c in enumerate(cells):
        if c['cell_type'] == 'code':
            src = ''.join(c['source'])
            tree = ast.fix_missing_locations(_Sets().visit(ast.parse(src, simpath)))
            exec(compile(tree, '%s[%d]' % (simpath, i), 'exec', dont_inherit=True), m.__dict__)


def load(p, name):
    """Import a repository module inside process p and return it."""
    import importlib
    return importlib.import_module(name)
