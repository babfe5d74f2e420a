"""The code under verification: /repo's current working tree.

* `translated(modname)`  Python 3 text of a module, by the build's own translator (vendored copy in vendor/).
* `install()`            import hook: `import eustace...` / `import eumopps...` executes the current tree.
                         .pyx and .c extension modules are compiled from the current tree into a scratch directory.
Nothing is ever read from a previous build, and nothing is written under /repo.
"""
import atexit, glob, importlib, importlib.abc, importlib.machinery, importlib.util
import os, re, shutil, subprocess, sys, sysconfig, tempfile, types, threading

REPO = os.environ.get('VF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
ROOTS = ('eumopps', 'eustace', 'eustaceconfig')

from .vendor import py2compat   # noqa  defines the _py2_* builtins exactly as the build's sitecustomize does
from .vendor import translate as _tr

_cache = {}
_scratch = None

def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf_ext_')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def locate(modname):
    """-> (path, kind) with kind in pkg, py, pyx, c or (None, None)"""
    base = os.path.join(SRC, *modname.split('.'))
    if os.path.isfile(os.path.join(base, '__init__.py')):
        return os.path.join(base, '__init__.py'), 'pkg'
    for ext, kind in (('.py', 'py'), ('.pyx', 'pyx'), ('.c', 'c')):
        if os.path.isfile(base + ext):
            return base + ext, kind
    if os.path.isdir(base):
        return base, 'ns'
    return None, None

def raw(modname):
    path, kind = locate(modname)
    with open(path, 'rb') as f:
        return f.read().decode('utf-8').replace('\r\n', '\n')

def translated(modname):
    if modname not in _cache:
        path, kind = locate(modname)
        assert kind in ('py', 'pkg'), modname
        text = raw(modname)
        _cache[modname] = _tr.translate_python(text, path) if text.strip() else text
    return _cache[modname]

def build_extension(modname):
    path, kind = locate(modname)
    out = scratch()
    name = modname.rsplit('.', 1)[-1]
    wd = os.path.join(out, modname)
    os.makedirs(wd, exist_ok=True)
    text = raw(modname)
    import numpy
    if kind == 'pyx':
        text = '# cython: language_level=2\n' + _tr.siblings_relative(text, path)
        src = os.path.join(wd, name + '.pyx')
        with open(src, 'w') as f:
            f.write(text)
        csrc = os.path.join(wd, name + '.c')
        subprocess.run([sys.executable, '-m', 'cython', '-3' if False else '-2', '--module-name', modname, '-o', csrc, src],
                       check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, PYTHONPATH=''))
    else:
        csrc = os.path.join(wd, name + '.c')
        with open(csrc, 'w') as f:
            f.write(_tr.c_module(text))
    so = os.path.join(wd, name + sysconfig.get_config_var('EXT_SUFFIX'))
    subprocess.run(['gcc', '-shared', '-fPIC', '-O2', '-fno-strict-aliasing', '-fwrapv', '-w', '-I' + sysconfig.get_paths()['include'],
                    '-I' + numpy.get_include(), csrc, '-o', so, '-lm'],
                   check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return so

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname.split('.')[0] not in ROOTS:
            return None
        p, kind = locate(fullname)
        if p is None:
            return None
        if kind == 'ns':
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        if kind in ('pyx', 'c'):
            so = build_extension(fullname)
            return importlib.util.spec_from_file_location(fullname, so)
        spec = importlib.machinery.ModuleSpec(fullname, self, origin=p, is_package=(kind == 'pkg'))
        spec.has_location = True
        if kind == 'pkg':
            spec.submodule_search_locations = [os.path.dirname(p)]
        return spec
    def create_module(self, spec):
        return None
    def exec_module(self, module):
        text = translated(module.__spec__.name)
        code = compile(text, module.__spec__.origin, 'exec', dont_inherit=True)
        exec(code, module.__dict__)

def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    sys.dont_write_bytecode = True

def cimport(modname):
    """import the concrete (CPython) module of the current tree"""
    install()
    return importlib.import_module(modname)
