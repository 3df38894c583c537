'''
Loads the hylaa sources from /repo into a private set of modules whose imports of numpy, scipy, swiglpk and math are the
symbolic stand-ins.  Every path gets a fresh set of modules, so module level state cannot leak between paths.
'''

import builtins
import importlib
import os
import types

from . import sym, npshim, spshim, glpkshim
from .sym import Sym, Unsupported

REPO = os.environ.get('HYLAA_REPO', '/repo')

_CODE = {}


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class IntShim(metaclass=_IntMeta):
    'the builtin "int" seen by the code under test'

    dtype = npshim.np.dtype(int)

    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            if x.is_const():
                return int(x.const())
            return npshim.sym_trunc(x)
        return int(x, *a)

    from_bytes = int.from_bytes


def _round(x, n=None):
    if isinstance(x, Sym):
        if n is not None:
            if x.is_const():
                return round(float(x.const()), n)
            if n >= 9:
                return x        # rounding that is finer than the margins
            raise Unsupported('round to %r digits of a symbolic value' % n)
        if x.is_const():
            return round(x.const())
        return npshim.sym_round(x)
    return round(x) if n is None else round(x, n)


def _no_open(*_a, **_k):
    raise Unsupported('open() in the symbolic world')


def code_for(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    c = _CODE.get(k)
    if c is None:
        with open(path, encoding='utf-8') as f:
            c = compile(f.read(), path, 'exec')
        _CODE[k] = c
    return c


class SymModules:
    'one private import space'

    def __init__(self, sympy_shim=None):
        self.np = npshim.NumpyShim()
        self.sp = spshim.ScipyShim()
        self.glpk = glpkshim.Glpk()
        self.math = npshim.MathShim()
        self.sympy_shim = sympy_shim
        self.mods = {}
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['float'] = npshim.FloatShim
        b['int'] = IntShim
        b['round'] = _round
        b['print'] = lambda *a, **k: None
        b['open'] = _no_open
        self.builtins = b
        self.roots = {'numpy': self.np, 'scipy': self.sp, 'math': self.math, 'swiglpk': self.glpk}
        if sympy_shim is not None:
            self.roots['sympy'] = sympy_shim

    def load(self, name):
        'load hylaa.<name> (name "" is the package)'
        full = 'hylaa.' + name if name else 'hylaa'
        m = self.mods.get(full)
        if m is not None:
            return m
        m = types.ModuleType(full)
        self.mods[full] = m
        path = os.path.join(REPO, 'hylaa', *(name.split('.') if name else ['__init__']))
        path += '.py'
        if not os.path.exists(path):
            del self.mods[full]
            raise ModuleNotFoundError("No module named '%s'" % full)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = 'hylaa'
        if not name:
            m.__path__ = [os.path.join(REPO, 'hylaa')]
            m.__version__ = '0'
            return m          # the package file only computes version strings
        pkg = self.load('')
        try:
            exec(code_for(path), m.__dict__)      # pylint: disable=exec-used
        except BaseException:
            self.mods.pop(full, None)
            raise
        setattr(pkg, name, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            name = 'hylaa' + ('.' + name if name else '')
        parts = name.split('.')
        if parts[0] == 'hylaa':
            pkg = self.load('')
            m = pkg
            if len(parts) > 1:
                m = self.load('.'.join(parts[1:]))
            if fromlist:
                if m is pkg:
                    for f in fromlist:
                        if f != '*' and f not in pkg.__dict__:
                            self.load(f)
                return m
            return pkg
        if parts[0] in self.roots:
            root = self.roots[parts[0]]
            m = root
            for p in parts[1:]:
                m = getattr(m, p)
            return m if fromlist else root
        if parts[0] == 'matplotlib':
            os.environ.setdefault('MPLBACKEND', 'Agg')
        return importlib.__import__(name, None, None, fromlist or (), 0)
