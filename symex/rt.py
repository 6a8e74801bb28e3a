'''What a harness sees: symbolic and native runtimes with one interface.'''
import os
import sys
import types
import builtins
from . import terms as T
from . import path as P
from . import values as V
from . import hooks
from .loader import Loader

REPO = os.environ.get('RIEMANN_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def exc_name(e):
    return type(e).__name__


class NoInput(BaseException):
    '''a native run went past the end of the explored path'''


class Inputs(dict):
    def __missing__(self, name):
        raise NoInput(name)


class SkipRest(BaseException):
    '''native run: an assumption does not hold'''


class Failed(BaseException):
    '''native run: a required call raised'''


# ---------------------------------------------------------------- symbolic

def blake_stub(loader):
    '''riemann.blake256 with uninterpreted digests'''
    m = types.ModuleType('riemann.blake256')

    class BLAKE:
        def __init__(self, hashbitlen):
            if hashbitlen not in (224, 256, 384, 512):
                raise Exception('unknown hash bit length')
            self.n = hashbitlen
            self.els = []

        def addsalt(self, salt):
            raise P.Unsupported('BLAKE salt')

        def update(self, data):
            self.els.extend(V.bytes_els(data))

        def final(self, data=b''):
            if V.bytes_els(data):
                self.update(data)
            return V.digest('BLAKE-%d' % self.n, (), tuple(self.els),
                            self.n // 8)
        digest = final

        def hexdigest(self, data=b''):
            return self.final(data).hex()

    def blake_hash(data):
        e = V.bytes_els(data)
        if e is None:
            raise TypeError('bytes expected')
        return V.digest('BLAKE-256', (), e, 32)
    m.BLAKE = BLAKE
    m.blake_hash = blake_hash
    return m


class SymRT:
    symbolic = True

    def __init__(self, path, real_blake=False):
        self.p = path
        ov = {} if real_blake else {'riemann.blake256': blake_stub}
        self.loader = Loader({'riemann': os.path.join(REPO, 'riemann'),
                              'harness': os.path.join(ROOT, 'harness')}, ov)

    def mod(self, name):
        return self.loader.load(name)

    # ------------------------------------------------------------ inputs
    def _in(self, name, spec):
        if name in self.p.inputs and self.p.inputs[name] != spec:
            raise AssertionError('input %s redefined' % name)
        self.p.inputs[name] = spec

    def bytes(self, name, n):
        self._in(name, ('bytes', n))
        return V.mkbytes([T.var('%s.%d' % (name, i), 255)
                          for i in range(n)])

    def bytearray(self, name, n):
        self._in(name, ('bytearray', n))
        return V.SByteArray([T.var('%s.%d' % (name, i), 255)
                             for i in range(n)])

    def int(self, name, lo, hi):
        self._in(name, ('int', lo, hi))
        if lo == hi:
            return lo
        return V.mkint(T.add(T.var(name, hi - lo), lo))

    def bool(self, name):
        self._in(name, ('bool',))
        return bool(V.mkb(T.eq0(T.sub(T.var(name, 1), 1))))

    def choice(self, name, options):
        options = list(options)
        self._in(name, ('choice', len(options)))
        if len(options) == 1:
            return options[0]
        return options[V.conc(V.mkint(T.var(name, len(options) - 1)))]

    def text(self, name, n, alphabet=None):
        '''n characters: of an alphabet, or any ASCII'''
        if alphabet is None:
            self._in(name, ('text', n, None))
            return V.mkstr([T.var('%s.%d' % (name, i), 127)
                            for i in range(n)])
        self._in(name, ('text', n, alphabet))
        t = tuple(map(ord, alphabet))
        return V.mkstr([T.tab(0, t, T.var('%s.%d' % (name, i),
                                          len(t) - 1)) for i in range(n)])

    # ------------------------------------------------------- obligations
    def term(self, c):
        if type(c) is bool:
            return T.mkbool(c)
        if type(c) is V.SBool:
            return c.b
        if type(c) is V.SInt:
            return T.bnot(T.eq0(c.x))
        return T.mkbool(bool(c))

    def assume(self, c):
        self.p.assume(self.term(c))

    def check(self, label, c):
        self.p.check(label, self.term(c))

    def attempt(self, f, *a, **k):
        try:
            v = hooks.call(f, *a, **k)
        except Exception as e:
            self.p.events.append(('exc', exc_name(e)))
            return 'exc', e
        self.p.events.append(('ok', snap(v)))
        return 'ok', v

    def do(self, label, f, *a, **k):
        '''call that must not raise'''
        try:
            return hooks.call(f, *a, **k)
        except Exception as e:
            self.p.check(label, T.FALSE)
            raise P.Stop()

    def observe(self, label, v):
        self.p.events.append(('obs', label, snap(v)))

    def eq(self, a, b):
        '''equality without forking'''
        return a == b

    def conc(self, v):
        '''a concrete int (forks over the values)'''
        return V.conc(v)

    def all(self, cs):
        '''conjunction without forking'''
        return V.mkb(T.band_([self.term(c) for c in cs]))

    def any(self, cs):
        return V.mkb(T.bor_([self.term(c) for c in cs]))

    def note(self, s):
        self.p.labels.append('note:' + s)


def snap(v):
    '''a comparable snapshot of a value made of terms'''
    t = type(v)
    if t in (int, bool, str, bytes, type(None)):
        return v
    if t is bytearray:
        return ('ba', bytes(v))
    if t is V.SInt:
        return V.mkint(v.x)
    if t is V.SBool:
        return v
    if t is V.SBytes:
        return v
    if t is V.SByteArray:
        return ('ba', V.mkbytes(v.els))
    if t is V.SStr:
        if V.POISON in v.els:
            return None
        return v
    if t in (list, tuple):
        return (t.__name__,) + tuple(snap(x) for x in v)
    return ('obj', t.__name__)


def snap_native(v):
    t = type(v)
    if t in (int, bool, str, bytes, type(None)):
        return v
    if t is bytearray:
        return ('ba', bytes(v))
    if t in (list, tuple):
        return (t.__name__,) + tuple(snap_native(x) for x in v)
    return ('obj', t.__name__)


POISONED = object()


def concretise(s, ev):
    '''value of a snapshot under an evaluation'''
    t = type(s)
    if t is V.SInt:
        return ev.lin(s.x)
    if t is V.SBool:
        return ev.bool(s.b)
    if t is V.SBytes:
        return bytes(ev.lin(e) for e in s.els)
    if t is V.SStr:
        out = []
        for e in s.els:
            if type(e) is V.Tok:
                out.append(e.table[ev.lin(e.idx) - e.lo])
            else:
                out.append(chr(ev.lin(e)))
        return ''.join(out)
    if t is tuple:
        return tuple(concretise(x, ev) for x in s)
    return s


# ------------------------------------------------------------------ native

class NatLoader(Loader):
    '''the unmodified modules, fresh module state, real builtins'''

    NCODE = {}

    def __init__(self, roots):
        self.roots = roots
        self.mods = {}
        self.overrides = {}
        self.b = dict(vars(builtins))
        self.b['__import__'] = self.imp

    def code(self, path, name):
        st = os.stat(path)
        k = (path, st.st_mtime_ns, st.st_size)
        c = self.NCODE.get(k)
        if c is None:
            with open(path, encoding='utf-8') as f:
                c = compile(f.read(), path, 'exec', dont_inherit=True)
            self.NCODE[k] = c
        return c

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if top in self.roots:
            m = self.load(name)
            if fromlist:
                for a in fromlist:
                    if a != '*' and not hasattr(m, a) \
                            and self.find(name + '.' + a):
                        self.load(name + '.' + a)
                return m
            return self.load(top)
        return builtins.__import__(name, globals, locals, fromlist, 0)


class NatRT:
    '''runs a harness on concrete inputs against the real modules'''
    symbolic = False

    def __init__(self, inputs, loader=None):
        self.inputs = Inputs(inputs)          # name -> value
        self.events = []
        self.failed = []
        self.loader = loader

    def mod(self, name):
        if self.loader is not None:
            return self.loader.load(name)
        import importlib
        return importlib.import_module(name)

    def bytes(self, name, n):
        return bytes(self.inputs[name])

    def bytearray(self, name, n):
        return bytearray(self.inputs[name])

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return self.inputs[name]

    def bool(self, name):
        return bool(self.inputs[name])

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.inputs[name]]

    def text(self, name, n, alphabet=None):
        return self.inputs[name]

    def assume(self, c):
        if not c:
            raise SkipRest()

    def check(self, label, c):
        c = bool(c)
        self.events.append(('check', label, c))
        if not c:
            self.failed.append(label)

    def attempt(self, f, *a, **k):
        try:
            v = f(*a, **k)
        except Exception as e:
            self.events.append(('exc', exc_name(e)))
            return 'exc', e
        self.events.append(('ok', snap_native(v)))
        return 'ok', v

    def do(self, label, f, *a, **k):
        try:
            return f(*a, **k)
        except Exception as e:
            self.events.append(('check', label, False))
            self.failed.append(label)
            self.why = '%s: %s' % (type(e).__name__, e)
            raise Failed()

    def observe(self, label, v):
        self.events.append(('obs', label, snap_native(v)))

    def eq(self, a, b):
        return a == b

    def conc(self, v):
        return v

    def all(self, cs):
        return all(list(cs))

    def any(self, cs):
        return any(list(cs))

    def note(self, s):
        pass


def native_loader():
    return NatLoader({'riemann': os.path.join(REPO, 'riemann'),
                      'harness': os.path.join(ROOT, 'harness')})
