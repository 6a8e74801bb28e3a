'''Loads the repository's modules instrumented, in a private module table.'''
import builtins
import os
import types
from . import hooks, shims, transform
from .path import MergeAbort
from .values import SInt, SBool, Sym

CODE = {}        # (path, mtime, modname) -> code object


def ints(t):
    for v in t:
        if type(v) not in (int, SInt, bool, SBool):
            raise MergeAbort()
    return t


HOOKS = {
    '__sx_call__': hooks.call,
    '__sx_getitem__': hooks.getitem,
    '__sx_in__': hooks.contains,
    '__sx_notin__': hooks.not_contains,
    '__sx_not__': hooks.not_,
    '__sx_mod__': hooks.mod,
    '__sx_ifexp__': hooks.ifexp,
    '__sx_fstr__': hooks.fstr,
    '__sx_fn__': hooks.fn,
    '__sx_test__': hooks.test,
    '__sx_merge__': hooks.merge,
    '__sx_fork__': hooks.fork,
    '__sx_spec_begin__': hooks.spec_begin,
    '__sx_spec_end__': hooks.spec_end,
    '__sx_ints__': ints,
    '__sx_abort__': (MergeAbort, Exception),
    '__sx_slice__': slice,
}

SHIMS = {'hashlib': shims.make_hashlib(), 'struct': shims.make_struct(),
         'binascii': shims.make_binascii(), 'io': shims.make_io(),
         '_io': shims.make_io()}


class Loader:
    '''one instance per explored path: module state is fresh'''

    def __init__(self, roots, overrides=None):
        self.roots = roots            # package name -> directory
        self.mods = {}
        self.overrides = overrides or {}   # module name -> module factory
        self.b = dict(vars(builtins))
        self.b.update(HOOKS)
        self.b['__import__'] = self.imp

    def find(self, name):
        parts = name.split('.')
        root = self.roots.get(parts[0])
        if root is None:
            return None
        base = os.path.join(root, *parts[1:]) if len(parts) > 1 else root
        p = os.path.join(base, '__init__.py')
        if os.path.isfile(p):
            return p, True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        if os.path.isdir(base):
            return None, True
        return None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if '.' in name:
            self.load(name.rpartition('.')[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        ov = self.overrides.get(name)
        if ov is not None:
            m = ov(self)
            self.mods[name] = m
        else:
            f = self.find(name)
            if f is None:
                raise ModuleNotFoundError('No module named %r' % name)
            path, pkg = f
            m = types.ModuleType(name)
            m.__file__ = path
            if pkg:
                m.__path__ = [os.path.dirname(path)] if path else []
                m.__package__ = name
            else:
                m.__package__ = name.rpartition('.')[0]
            m.__dict__['__builtins__'] = self.b
            self.mods[name] = m
            if path is not None:
                try:
                    exec(self.code(path, name), m.__dict__)
                except BaseException:
                    self.mods.pop(name, None)
                    raise
        par, _, leaf = name.rpartition('.')
        if par:
            setattr(self.mods[par], leaf, m)
        return m

    def code(self, path, name):
        st = os.stat(path)
        k = (path, st.st_mtime_ns, st.st_size)
        c = CODE.get(k)
        if c is None:
            with open(path, encoding='utf-8') as f:
                c = transform.instrument(f.read(), name, path)
            CODE[k] = c
        return c

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if top in self.roots:
            m = self.load(name)
            if fromlist:
                for a in fromlist:
                    if a == '*':
                        continue
                    if not hasattr(m, a) and self.find(name + '.' + a):
                        self.load(name + '.' + a)
                return m
            return self.load(top)
        if name in SHIMS:
            return SHIMS[name]
        return builtins.__import__(name, globals, locals, fromlist, 0)
