'''
Symbolic stand-ins for int, bool, bytes, bytearray and str.
'''
from . import terms as T
from . import path as P
from .path import Unsupported

WS = frozenset((9, 10, 11, 12, 13, 32, 28, 29, 30, 31, 133, 160))


def mkint(x):
    return x if type(x) is int else SInt(x)


def mkb(b):
    if b is T.TRUE:
        return True
    if b is T.FALSE:
        return False
    return SBool(b)


def lin(v):
    '''term of a (symbolic or concrete) int or bool, or None'''
    t = type(v)
    if t is int:
        return v
    if t is SInt:
        return v.x
    if t is bool:
        return int(v)
    if t is SBool:
        return T.cond_lin(v.b)
    if isinstance(v, int):
        return int(v)
    return None


def conc(v):
    '''concrete int from a possibly symbolic one (forks)'''
    if type(v) is SInt:
        return P.CURRENT.choose_value(v.x)
    if type(v) is SBool:
        return int(bool(v))
    return v


class Sym:
    __slots__ = ()
    _real = object

    def __getattr__(self, name):
        if hasattr(self._real, name):
            raise Unsupported('%s.%s on a symbolic value'
                              % (self._real.__name__, name))
        raise AttributeError("'%s' object has no attribute '%s'"
                             % (self._real.__name__, name))

    def __hash__(self):
        raise Unsupported('hash of symbolic %s' % self._real.__name__)

    def __repr__(self):
        return '<%s>' % type(self).__name__

    def __str__(self):
        raise Unsupported('str of symbolic %s' % self._real.__name__)

    def __format__(self, spec):
        raise Unsupported('format of symbolic %s' % self._real.__name__)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def truth(b):
    return P.CURRENT.decide(b)


# --------------------------------------------------------------------- int

def _intop(name, f):
    def op(self, other):
        o = lin(other)
        if o is None:
            return NotImplemented
        return mkint(f(self.x, o))

    def rop(self, other):
        o = lin(other)
        if o is None:
            return NotImplemented
        return mkint(f(o, self.x))
    return op, rop


def _nonneg_for_bits(x):
    '''ensure x >= 0 on this path (forking when undecided)'''
    if type(x) is int:
        return x
    if T.rng(x)[0] >= 0:
        return x
    if not truth(T.ge0(x)):
        return None
    return x


def _bitop(f, name):
    def op(x, y):
        if (type(x) is int and x < 0) or (type(y) is int and y < 0):
            if name == 'and':
                if type(x) is int and x < 0:
                    x, y = y, x
                return T.band(x, y)
            raise Unsupported('%s with a negative number' % name)
        a, b = _nonneg_for_bits(x), _nonneg_for_bits(y)
        if a is None or b is None:
            if name == 'and' and type(y) is int and y & (y + 1) == 0:
                return T.mod(x, y + 1)
            if name == 'and' and (a is None) != (b is None):
                # x & ~z == x - (x & z)
                p, q = (y, x) if a is None else (x, y)
                return T.sub(p, f(p, T.sub(-1, q)))
            raise Unsupported('%s of a negative number' % name)
        return f(a, b)
    return op


def _divc(x, y, f):
    y = T.refresh(y)
    if type(y) is not int:
        if truth(T.eq0(y)):
            raise ZeroDivisionError('integer division or modulo by zero')
        y = P.CURRENT.choose_value(y)
    if y == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    return f(x, y)


def _shl(x, y):
    y = y if type(y) is int else P.CURRENT.choose_value(y)
    if y < 0:
        raise ValueError('negative shift count')
    return T.shl(x, y)


def _shr(x, y):
    y = y if type(y) is int else P.CURRENT.choose_value(y)
    if y < 0:
        raise ValueError('negative shift count')
    return T.shr(x, y)


class SInt(Sym):
    __slots__ = ('x',)
    _real = int

    def __init__(self, x):
        self.x = x

    __add__, __radd__ = _intop('add', T.add)
    __sub__, __rsub__ = _intop('sub', T.sub)
    _mul, _rmul = _intop('mul', T.mul)
    __and__, __rand__ = _intop('and', _bitop(T.band, 'and'))
    __or__, __ror__ = _intop('or', _bitop(T.bor, 'or'))
    __xor__, __rxor__ = _intop('xor', _bitop(T.bxor, 'xor'))
    __floordiv__, __rfloordiv__ = _intop(
        'floordiv', lambda x, y: _divc(x, y, T.floordiv))
    __mod__, _rmod = _intop('mod', lambda x, y: _divc(x, y, T.mod))
    __lshift__, __rlshift__ = _intop('shl', _shl)
    __rshift__, __rrshift__ = _intop('shr', _shr)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes, bytearray,
                          SBytes, SByteArray, SStr)):
            return o * conc(self)
        return self._mul(o)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __rmod__(self, o):
        return self._rmod(o)

    def __divmod__(self, o):
        q = self.__floordiv__(o)
        if q is NotImplemented:
            return q
        return q, self.__mod__(o)

    def __rdivmod__(self, o):
        q = self.__rfloordiv__(o)
        if q is NotImplemented:
            return q
        return q, self.__rmod__(o)

    def __pow__(self, o, m=None):
        o = conc(o)
        if o < 0 or m is not None:
            raise Unsupported('pow')
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        return o ** conc(self)

    def __neg__(self):
        return mkint(T.scale(self.x, -1))

    def __pos__(self):
        return self

    def __invert__(self):
        return mkint(T.sub(-1, self.x))

    def __abs__(self):
        return self if truth(T.ge0(self.x)) else -self

    def __eq__(self, o):
        o = lin(o)
        if o is None:
            return NotImplemented
        return mkb(T.eq0(T.sub(self.x, o)))

    def __ne__(self, o):
        o = lin(o)
        if o is None:
            return NotImplemented
        return mkb(T.bnot(T.eq0(T.sub(self.x, o))))

    def __ge__(self, o):
        o = lin(o)
        if o is None:
            return NotImplemented
        return mkb(T.ge0(T.sub(self.x, o)))

    def __le__(self, o):
        o = lin(o)
        if o is None:
            return NotImplemented
        return mkb(T.ge0(T.sub(o, self.x)))

    def __gt__(self, o):
        o = lin(o)
        if o is None:
            return NotImplemented
        return mkb(T.ge0(T.sub(T.sub(self.x, o), 1)))

    def __lt__(self, o):
        o = lin(o)
        if o is None:
            return NotImplemented
        return mkb(T.ge0(T.sub(T.sub(o, self.x), 1)))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return truth(T.bnot(T.eq0(self.x)))

    def __index__(self):
        return conc(self)

    def __int__(self):
        raise Unsupported('int() of a symbolic int in native code')

    def bit_length(self):
        x = self.x
        if not truth(T.ge0(x)):
            x = T.scale(x, -1)
        return mkint(T.bit_length(x))

    def bit_count(self):
        return sum((self >> i) & 1
                   for i in range(conc(self.bit_length())))

    def conjugate(self):
        return self

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        return int_to_bytes(self.x, length, byteorder, signed)

    def as_integer_ratio(self):
        return self, 1


def int_to_bytes(x, length, byteorder, signed):
    length = conc(length)
    if length < 0:
        raise ValueError('length argument must be non-negative')
    if byteorder not in ('big', 'little'):
        raise ValueError("byteorder must be either 'little' or 'big'")
    if signed:
        h = 1 << max(0, 8 * length - 1) if length else 1
        if length == 0:
            ok = T.eq0(x)
        else:
            ok = T.band_([T.ge0(T.add(x, h)), T.ge0(T.sub(h - 1, x))])
        if not truth(ok):
            raise OverflowError('int too big to convert')
        if length and not truth(T.ge0(x)):
            x = T.add(x, 1 << (8 * length))
    else:
        if not truth(T.ge0(x)):
            raise OverflowError("can't convert negative int to unsigned")
        if not truth(T.ge0(T.sub((1 << (8 * length)) - 1, x))):
            raise OverflowError('int too big to convert')
    x = T.refresh(x)
    if type(x) is int:
        return x.to_bytes(length, byteorder)
    bs = T.need_bits(x)
    # bits beyond the (path) range are zero
    bs = bs + [0] * (8 * length - len(bs))
    els = [T.from_bits(bs[8 * i:8 * i + 8]) for i in range(length)]
    if byteorder == 'big':
        els.reverse()
    return mkbytes(els)


def int_from_bytes(els, byteorder, signed):
    if byteorder not in ('big', 'little'):
        raise ValueError("byteorder must be either 'little' or 'big'")
    els = list(els)
    if byteorder == 'big':
        els.reverse()
    n = len(els)
    x = T.addn([T.scale(e, 1 << (8 * i)) for i, e in enumerate(els)])
    if signed and n:
        if truth(T.ge0(T.sub(els[-1], 128))):
            x = T.sub(x, 1 << (8 * n))
    return mkint(x)


# -------------------------------------------------------------------- bool

class SBool(Sym):
    __slots__ = ('b',)
    _real = bool

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return truth(self.b)

    def _i(self):
        return mkint(T.cond_lin(self.b))

    def __eq__(self, o):
        if type(o) is bool:
            return self if o else mkb(T.bnot(self.b))
        if type(o) is SBool:
            return mkb(T.bor_([
                T.band_([self.b, o.b]),
                T.band_([T.bnot(self.b), T.bnot(o.b)])]))
        if lin(o) is None:
            return NotImplemented
        return self._i() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if type(r) is bool:
            return not r
        return mkb(T.bnot(r.b))

    __hash__ = Sym.__hash__

    def __and__(self, o):
        if type(o) is bool:
            return self if o else False
        if type(o) is SBool:
            return mkb(T.band_([self.b, o.b]))
        return self._i() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is bool:
            return True if o else self
        if type(o) is SBool:
            return mkb(T.bor_([self.b, o.b]))
        return self._i() | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (bool, SBool):
            return self != o
        return self._i() ^ o

    __rxor__ = __xor__

    def __index__(self):
        return int(bool(self))

    def to_bytes(self, *a, **k):
        return bool(self).to_bytes(*a, **k)

    def bit_length(self):
        return int(bool(self)).bit_length()


def _delegate(name):
    def f(self, *a):
        return getattr(SInt, name)(SInt(_aslin(self)), *a)

    def _aslin(self):
        x = T.cond_lin(self.b)
        return x
    f.__name__ = name
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'floordiv',
           'rfloordiv', 'mod', 'rmod', 'lshift', 'rlshift', 'rshift',
           'rrshift', 'neg', 'pos', 'invert', 'abs', 'divmod', 'rdivmod',
           'lt', 'le', 'gt', 'ge', 'pow', 'rpow'):
    setattr(SBool, '__%s__' % _n, _delegate('__%s__' % _n))


# ------------------------------------------------------------------- bytes

def bytes_els(v):
    '''elements of a bytes-like value, or None'''
    t = type(v)
    if t is bytes or t is bytearray:
        return tuple(v)
    if t is SBytes:
        return v.els
    if t is SByteArray:
        return tuple(v.els)
    if t is memoryview or isinstance(v, (bytes, bytearray)):
        return tuple(v)
    return None


def mkbytes(els):
    for e in els:
        if type(e) is not int:
            return SBytes(tuple(els))
    return bytes(els)


def byte_el(v):
    '''checked byte element'''
    x = lin(v)
    if x is None:
        if hasattr(v, '__index__'):
            x = v.__index__()
        else:
            raise TypeError("'%s' object cannot be interpreted as an integer"
                            % type(v).__name__)
    ok = T.band_([T.ge0(x), T.ge0(T.sub(255, x))])
    if not truth(ok):
        raise ValueError('byte must be in range(0, 256)')
    return T.refresh(x)


def eq_els(a, b):
    '''equality of two element sequences as a term'''
    if len(a) != len(b):
        return T.FALSE
    out = []
    pairs = None
    for x, y in zip(a, b):
        if x is y:
            continue
        tx, ty = type(x), type(y)
        if tx is int and ty is int:
            if x != y:
                return T.FALSE
            continue
        if tx is T.Lin and ty is T.Lin and len(x.ts) == 1 \
                and len(y.ts) == 1:
            p, q = x.ts[0][0], y.ts[0][0]
            if p.kind == 'dig' and q.kind == 'dig' and x.c == 0 \
                    and y.c == 0 and x.ts[0][1] == 1 and y.ts[0][1] == 1:
                h, k = p.args
                g, j = q.args
                if k == j and h is not g and h.alg == g.alg \
                        and h.params == g.params:
                    if pairs is None:
                        pairs = {}
                    pairs.setdefault((h, g), []).append(k)
                    continue
        e = T.eq0(T.sub(x, y))
        if e is T.FALSE:
            return e
        if e is not T.TRUE:
            out.append(e)
    if pairs:
        for (h, g), ks in pairs.items():
            if len(ks) >= 4 or len(ks) >= h.n:
                e = eq_els(h.pre, g.pre)
                if e is T.FALSE:
                    return e
                out.append(e)
            else:
                for k in ks:
                    out.append(T.eq0(T.sub(h.digit(k), g.digit(k))))
    return T.band_(out)


def slice_bounds(s, n):
    '''concrete (start, stop, step) for a slice with symbolic parts'''
    step = conc(s.step) if s.step is not None else 1

    def clamp(v, default):
        if v is None:
            return default
        if type(v) in (SInt, SBool):
            x = lin(v)
            if not truth(T.ge0(x)):
                # negative index
                x = T.add(x, n)
                if not truth(T.ge0(x)):
                    return 0
            if truth(T.ge0(T.sub(x, n))):
                return n
            return P.CURRENT.choose_value(x)
        v = v.__index__()
        if v < 0:
            v += n
            if v < 0:
                v = 0
        return min(v, n)
    if step == 1:
        a = clamp(s.start, 0)
        b = clamp(s.stop, n)
        return a, max(a, b), 1
    a = conc(s.start) if s.start is not None else None
    b = conc(s.stop) if s.stop is not None else None
    return slice(a, b, step).indices(n)


def index_of(v, n, what):
    '''concrete index from a concrete or symbolic int'''
    if type(v) in (SInt, SBool):
        x = lin(v)
        ok = T.band_([T.ge0(T.add(x, n)), T.ge0(T.sub(n - 1, x))])
        if not truth(ok):
            raise IndexError('%s index out of range' % what)
        return P.CURRENT.choose_value(x)
    return v


def tab_index(v, vals):
    '''vals[v] for symbolic v and a list of terms, as a term'''
    x = lin(v)
    n = len(vals)
    ok = T.band_([T.ge0(T.add(x, n)), T.ge0(T.sub(n - 1, x))])
    if not truth(ok):
        raise IndexError('index out of range')
    if not truth(T.ge0(x)):
        x = T.add(x, n)
    x = T.refresh(x)
    if type(x) is int:
        return vals[x]
    if all(type(e) is int for e in vals):
        return T.tab(0, tuple(vals), x)
    return vals[P.CURRENT.choose_value(x)]


def contains_run(els, sub, start=0, end=None):
    '''terms for "sub occurs at position i"'''
    n, m = len(els), len(sub)
    if end is None:
        end = n
    return [(i, eq_els(els[i:i + m], sub))
            for i in range(start, end - m + 1)]


def find_els(els, sub, start, end, last=False):
    n = len(els)
    a, b, _ = slice_bounds(slice(start, end), n)
    if start is not None and type(start) is int and start > n:
        return -1
    if len(sub) == 1 and type(sub[0]) is not int and b - a > 1 \
            and all(type(e) is int for e in els[a:b]):
        x = T.refresh(sub[0])
        if type(x) is not int and x.lo >= 0 and x.hi < 256:
            at = {}
            for i in (range(a, b) if last else range(b - 1, a - 1, -1)):
                at[els[i]] = i
            return mkint(T.tab(0, tuple(at.get(v, -1)
                                        for v in range(x.hi + 1)), x))
        sub = [x]
    occ = contains_run(els, sub, a, b)
    if not occ:
        return -1
    if last:
        occ.reverse()
        f = T.first([c for _, c in occ])
        # occ[k] is position p0 - k;  first = k+1
        p0 = occ[0][0]
        if type(f) is int:
            return -1 if f == 0 else p0 - (f - 1)
        if occ[-1][1] is T.TRUE or not truth(T.eq0(f)):
            return mkint(T.sub(p0 + 1, f))
        return -1
    f = T.first([c for _, c in occ])
    if type(f) is int:
        return -1 if f == 0 else a + f - 1
    if a == 0:
        return mkint(T.sub(f, 1))
    if truth(T.eq0(f)):
        return -1
    return mkint(T.add(f, a - 1))


HEXLO = tuple(ord(c) for c in '0123456789abcdef')
_HV = [None] * 128
for _i, _c in enumerate('0123456789abcdef'):
    _HV[ord(_c)] = _i
for _i, _c in enumerate('ABCDEF'):
    _HV[ord(_c)] = 10 + _i
HEXVAL = tuple(_HV)
HEXSET = frozenset(i for i, v in enumerate(HEXVAL) if v is not None)


def hex_els(els):
    out = []
    for e in els:
        if type(e) is int:
            out.append(HEXLO[e >> 4])
            out.append(HEXLO[e & 15])
        else:
            bs = T.need_bits(e)
            bs = bs + [0] * (8 - len(bs))
            out.append(T.tab(0, HEXLO, T.from_bits(bs[4:8])))
            out.append(T.tab(0, HEXLO, T.from_bits(bs[:4])))
    return out


def fromhex(s):
    '''bytes.fromhex for a symbolic string'''
    for e in s.els:
        # a token that is no hex whatever surrounds it
        if type(e) is Tok and truth(tok_is(e, lambda v: any(
                c not in '0123456789abcdefABCDEF \t\n\r\x0b\x0c'
                for c in v))):
            raise ValueError('non-hexadecimal number found in fromhex()')
    els = s.flat()
    out = []
    i = 0
    n = len(els)
    while i < n:
        c = els[i]
        ws = T.member(c, WS)
        if truth(ws):
            i += 1
            continue
        if not truth(T.member(c, HEXSET)):
            raise ValueError('non-hexadecimal number found in fromhex()')
        i += 1
        if i >= n:
            raise ValueError('non-hexadecimal number found in fromhex()')
        d = els[i]
        if not truth(T.member(d, HEXSET)):
            raise ValueError('non-hexadecimal number found in fromhex()')
        i += 1
        out.append(T.add(T.scale(_hexval(c), 16), _hexval(d)))
    return mkbytes(out)


def _hexval(c):
    if type(c) is int:
        return HEXVAL[c]
    return T.tab(0, HEXVAL, c)


class _BytesBase(Sym):
    __slots__ = ()

    def __len__(self):
        return len(self.els)

    def __iter__(self):
        for e in tuple(self.els):
            yield mkint(e)

    def _mk(self, els):
        raise NotImplementedError

    def __getitem__(self, i):
        if type(i) is slice:
            a, b, st = slice_bounds(i, len(self.els))
            if st == 1:
                return self._mk(self.els[a:b])
            return self._mk([self.els[k] for k in range(a, b, st)])
        if type(i) in (SInt, SBool):
            return mkint(tab_index(i, list(self.els)))
        return mkint(self.els[i])

    def __add__(self, o):
        e = bytes_els(o)
        if e is None:
            return NotImplemented
        return self._mk(tuple(self.els) + e)

    def __radd__(self, o):
        e = bytes_els(o)
        if e is None:
            return NotImplemented
        els = e + tuple(self.els)
        if isinstance(o, bytearray) or type(o) is SByteArray:
            return SByteArray(els)
        return mkbytes(els)

    def __mul__(self, k):
        k = conc(k)
        if type(k) is not int:
            return NotImplemented
        return self._mk(tuple(self.els) * k)

    __rmul__ = __mul__

    def __eq__(self, o):
        e = bytes_els(o)
        if e is None:
            return NotImplemented
        return mkb(eq_els(tuple(self.els), e))

    def __ne__(self, o):
        e = bytes_els(o)
        if e is None:
            return NotImplemented
        return mkb(T.bnot(eq_els(tuple(self.els), e)))

    __hash__ = Sym.__hash__

    def _lt(self, o, strict):
        e = bytes_els(o)
        if e is None:
            return NotImplemented
        a = tuple(self.els)
        for x, y in zip(a, e):
            if truth(T.eq0(T.sub(x, y))):
                continue
            return truth(T.ge0(T.sub(T.sub(y, x), 1)))
        return len(a) < len(e) if strict else len(a) <= len(e)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else not r

    def __contains__(self, v):
        return bool(self.contains(v))

    def contains(self, v):
        x = lin(v)
        if x is not None:
            return mkb(T.bor_([T.eq0(T.sub(e, x)) for e in self.els]))
        sub = bytes_els(v)
        if sub is None:
            raise TypeError("a bytes-like object is required, not '%s'"
                            % type(v).__name__)
        if not sub:
            return True
        return mkb(T.bor_([c for _, c in
                           contains_run(tuple(self.els), sub)]))

    def _sub(self, v):
        x = lin(v)
        if x is not None:
            return (byte_el(v),)
        e = bytes_els(v)
        if e is None:
            raise TypeError(
                "argument should be integer or bytes-like object, not '%s'"
                % type(v).__name__)
        return e

    def find(self, sub, start=None, end=None):
        return find_els(tuple(self.els), self._sub(sub), start, end)

    def rfind(self, sub, start=None, end=None):
        return find_els(tuple(self.els), self._sub(sub), start, end, True)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r == -1:
            raise ValueError('subsection not found')
        return r

    def count(self, sub):
        e = self._sub(sub)
        if len(e) != 1:
            raise Unsupported('bytes.count')
        return mkint(T.addn([T.cond_lin(T.eq0(T.sub(x, e[0])))
                             for x in self.els]))

    def startswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return mkb(T.bor_([_b(self.startswith(q, start, end))
                               for q in p]))
        e = bytes_els(p)
        if e is None:
            raise TypeError('startswith first arg must be bytes')
        a, b, _ = slice_bounds(slice(start, end), len(self.els))
        x = tuple(self.els)[a:b]
        if len(e) > len(x):
            return False
        return mkb(eq_els(x[:len(e)], e))

    def endswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return mkb(T.bor_([_b(self.endswith(q, start, end))
                               for q in p]))
        e = bytes_els(p)
        if e is None:
            raise TypeError('endswith first arg must be bytes')
        a, b, _ = slice_bounds(slice(start, end), len(self.els))
        x = tuple(self.els)[a:b]
        if len(e) > len(x):
            return False
        return mkb(eq_els(x[len(x) - len(e):], e))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self._mk(self.els)

    def removesuffix(self, p):
        return (self[:len(self) - len(p)] if len(p) and self.endswith(p)
                else self._mk(self.els))

    def hex(self, *a):
        if a:
            raise Unsupported('hex with separator')
        return mkstr(hex_els(self.els))

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('utf-8', 'utf8', 'ascii', 'us-ascii'):
            for e in self.els:
                if not truth(T.ge0(T.sub(127, e))):
                    if enc in ('ascii', 'us-ascii'):
                        raise UnicodeDecodeError('ascii', b'\xff', 0, 1,
                                                 'ordinal not in range(128)')
                    raise Unsupported('decoding non-ASCII symbolic bytes')
        elif enc not in ('latin-1', 'latin1', 'iso-8859-1'):
            raise Unsupported('decode ' + encoding)
        return mkstr(self.els)

    def join(self, it):
        out = []
        sep = tuple(self.els)
        for i, v in enumerate(it):
            if i:
                out.extend(sep)
            e = bytes_els(v)
            if e is None:
                raise TypeError('sequence item %d: expected a bytes-like '
                                'object' % i)
            out.extend(e)
        return self._mk(out)

    def _strip(self, chars, left, right):
        cs = WS if chars is None else None
        if cs is None:
            ce = bytes_els(chars)
        els = list(self.els)

        def hit(e):
            if cs is not None:
                return truth(T.member(e, cs & frozenset(range(128))))
            return truth(T.bor_([T.eq0(T.sub(e, c)) for c in ce]))
        if left:
            while els and hit(els[0]):
                els.pop(0)
        if right:
            while els and hit(els[-1]):
                els.pop()
        return self._mk(els)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def _just(self, width, fill, left):
        n = max(0, conc(width) - len(self.els))
        f = bytes_els(fill) * n
        return self._mk(tuple(self.els) + f if left else f + tuple(self.els))

    def ljust(self, width, fill=b' '):
        return self._just(width, fill, True)

    def rjust(self, width, fill=b' '):
        return self._just(width, fill, False)

    def __format__(self, spec):
        raise Unsupported('format of symbolic bytes')


def _b(v):
    if type(v) is bool:
        return T.mkbool(v)
    return v.b


class SBytes(_BytesBase):
    __slots__ = ('els',)
    _real = bytes

    def __init__(self, els):
        self.els = els

    def _mk(self, els):
        return mkbytes(els)

    def __bytes__(self):
        raise Unsupported('bytes() of symbolic bytes in native code')


class SByteArray(_BytesBase):
    '''bytearray() of instrumented code (elements may all be concrete)'''
    __slots__ = ('els',)
    _real = bytearray

    def __init__(self, els=()):
        self.els = list(els)

    def _mk(self, els):
        return SByteArray(els)

    def __iter__(self):
        i = 0
        while i < len(self.els):
            yield mkint(self.els[i])
            i += 1

    def append(self, v):
        self.els.append(byte_el(v))

    def extend(self, it):
        e = bytes_els(it)
        if e is None:
            if isinstance(it, (str, SStr)):
                raise TypeError("expected iterable of integers; got: 'str'")
            e = [byte_el(v) for v in it]
        self.els.extend(e)

    def insert(self, i, v):
        self.els.insert(conc(i), byte_el(v))

    def pop(self, i=-1):
        return mkint(self.els.pop(conc(i)))

    def remove(self, v):
        for i, e in enumerate(self.els):
            if truth(T.eq0(T.sub(e, lin(v)))):
                del self.els[i]
                return
        raise ValueError('value not found in bytearray')

    def reverse(self):
        self.els.reverse()

    def clear(self):
        self.els.clear()

    def copy(self):
        return SByteArray(self.els)

    def __iadd__(self, o):
        e = bytes_els(o)
        if e is None:
            raise TypeError("can't concat %s to bytearray"
                            % type(o).__name__)
        self.els.extend(e)
        return self

    def __imul__(self, k):
        self.els = self.els * conc(k)
        return self

    def __setitem__(self, i, v):
        if type(i) is slice:
            a, b, st = slice_bounds(i, len(self.els))
            e = bytes_els(v)
            if e is None:
                e = [byte_el(x) for x in v]
            if st == 1:
                self.els[a:b] = e
            else:
                self.els[slice(i.start, i.stop, i.step)] = e
            return
        self.els[index_of(i, len(self.els), 'bytearray')] = byte_el(v)

    def __delitem__(self, i):
        if type(i) is slice:
            a, b, st = slice_bounds(i, len(self.els))
            del self.els[a:b:st]
            return
        del self.els[index_of(i, len(self.els), 'bytearray')]

    def __repr__(self):
        if all(type(e) is int for e in self.els):
            return repr(bytearray(self.els))
        return '<symbolic bytearray>'

    def __str__(self):
        return repr(self)


# --------------------------------------------------------------------- str

class Tok:
    '''a string taken from a table by a symbolic index (interned)'''
    __slots__ = ('lo', 'table', 'idx')
    memo = {}

    def __repr__(self):
        return 'Tok'


def mktok(lo, table, idx):
    '''table: tuple of str or None'''
    idx = T.refresh(idx)
    if type(idx) is int:
        return tuple(ord(c) for c in table[idx - lo])
    l2, h2 = T.rng(idx)
    live = {v for j, v in enumerate(table)
            if v is not None and l2 <= lo + j <= h2}
    if len(live) == 1:
        return tuple(ord(c) for c in live.pop())
    if all(len(v) == 1 for v in table if v is not None):
        return (T.tab(lo, tuple(None if v is None else ord(v)
                                for v in table), idx),)
    k = (lo, table, idx)
    t = Tok.memo.get(k)
    if t is None:
        t = Tok()
        t.lo, t.table, t.idx = k
        Tok.memo[k] = t
    return (t,)


class Poison:
    '''text whose content is not modelled (error messages)'''

    def __repr__(self):
        return 'Poison'


POISON = Poison()


def mkstr(els):
    for e in els:
        if type(e) is not int:
            return SStr(tuple(els))
    return ''.join(map(chr, els))


def str_els(v):
    if type(v) is SStr:
        return v.els
    if isinstance(v, str):
        return tuple(map(ord, v))
    return None


def _tok_domain(t):
    idx = T.refresh(t.idx)
    if type(idx) is int:
        return {t.table[idx - t.lo]}
    lo, hi = T.rng(idx)
    return {v for j, v in enumerate(t.table)
            if v is not None and lo <= t.lo + j <= hi}


def tok_is(t, pred):
    '''term: the token satisfies pred'''
    return T.member(t.idx, {t.lo + j for j, v in enumerate(t.table)
                            if v is not None and pred(v)})


def tok_conc(t):
    dom = sorted(_tok_domain(t))
    for s in dom[:-1]:
        if truth(tok_is(t, lambda v: v == s)):
            return tuple(map(ord, s))
    return tuple(map(ord, dom[-1]))


def tok_eq(x, y):
    if x.idx is y.idx or x.idx == y.idx:
        d = {x.lo + j: v for j, v in enumerate(x.table) if v is not None}
        e = {y.lo + j: v for j, v in enumerate(y.table) if v is not None}
        return T.member(x.idx, {k for k in d if d[k] == e.get(k)})
    if x.table == y.table and x.lo == y.lo \
            and len(set(x.table)) == len(x.table):
        return T.eq0(T.sub(x.idx, y.idx))
    return T.bor_([T.band_([tok_is(x, lambda v: v == s),
                            tok_is(y, lambda v: v == s)])
                   for s in sorted(_tok_domain(x) & _tok_domain(y))])


def eq_str(a, b):
    '''equality of element tuples as a term'''
    if a == b and all(type(e) is int for e in a):
        return T.TRUE
    if POISON in a or POISON in b:
        raise Unsupported('comparison of unmodelled text')
    ta = any(type(e) is Tok for e in a)
    tb = any(type(e) is Tok for e in b)
    if not ta and not tb:
        return eq_els(a, b)
    # strip identical ends
    a, b = list(a), list(b)
    while a and b and a[0] is b[0]:
        a.pop(0)
        b.pop(0)
    while a and b and a[-1] is b[-1]:
        a.pop()
        b.pop()
    if not a and not b:
        return T.TRUE
    if len(a) == 1 and type(a[0]) is Tok and \
            all(type(e) is int for e in b):
        s = ''.join(map(chr, b))
        return tok_is(a[0], lambda v: v == s)
    if len(b) == 1 and type(b[0]) is Tok and \
            all(type(e) is int for e in a):
        s = ''.join(map(chr, a))
        return tok_is(b[0], lambda v: v == s)
    if len(a) == len(b):
        out = []
        for k, (x, y) in enumerate(zip(a, b)):
            if x is y:
                continue
            tx, ty = type(x) is Tok, type(y) is Tok
            if tx and ty:
                # aligned: what follows is the end, or one literal that
                # occurs in neither token
                if k + 1 < len(a):
                    d = a[k + 1]
                    if type(d) is not int or d != b[k + 1]:
                        break
                    d = chr(d)
                    if any(d in v for v in x.table + y.table
                           if v is not None):
                        break
                out.append(tok_eq(x, y))
            elif tx or ty:
                break
            else:
                out.append(T.eq0(T.sub(x, y)))
        else:
            return T.band_(out)
    return eq_els(flat(a), flat(b))


def flat(els):
    '''replace tokens by their (forked) text'''
    out = []
    for e in els:
        if type(e) is Tok:
            out.extend(tok_conc(e))
        elif e is POISON:
            raise Unsupported('unmodelled text')
        else:
            out.append(e)
    return tuple(out)


_LOWER = tuple(ord(chr(i).lower()) for i in range(128))
_UPPER = tuple(ord(chr(i).upper()) for i in range(128))


class SStr(Sym):
    __slots__ = ('els',)
    _real = str

    def __init__(self, els):
        self.els = els

    def flat(self):
        f = flat(self.els)
        self.els = f
        return f

    def __len__(self):
        return len(self.flat())

    def __iter__(self):
        for e in self.flat():
            yield mkstr((e,))

    def __getitem__(self, i):
        if len(self.els) == 1 and type(self.els[0]) is Tok:
            t = self.els[0]
            if type(i) is slice:
                if all(x is None or type(x) is int
                       for x in (i.start, i.stop, i.step)):
                    return mkstr(mktok(t.lo, tuple(
                        None if v is None else v[i] for v in t.table),
                        t.idx))
            elif type(i) is int:
                n = i + 1 if i >= 0 else -i
                if truth(tok_is(t, lambda v: len(v) >= n)):
                    return mkstr(mktok(t.lo, tuple(
                        None if v is None or len(v) < n else v[i]
                        for v in t.table), t.idx))
                raise IndexError('string index out of range')
        els = self.flat()
        if type(i) is slice:
            a, b, st = slice_bounds(i, len(els))
            return mkstr([els[k] for k in range(a, b, st)])
        if type(i) in (SInt, SBool):
            return mkstr((tab_index(i, list(els)),))
        return mkstr((els[i],))

    def __add__(self, o):
        e = str_els(o)
        if e is None:
            return NotImplemented
        return mkstr(self.els + e)

    def __radd__(self, o):
        e = str_els(o)
        if e is None:
            return NotImplemented
        return mkstr(e + self.els)

    def __mul__(self, k):
        return mkstr(self.els * conc(k))

    __rmul__ = __mul__

    def __eq__(self, o):
        e = str_els(o)
        if e is None:
            return NotImplemented
        return mkb(eq_str(self.els, e))

    def __ne__(self, o):
        e = str_els(o)
        if e is None:
            return NotImplemented
        return mkb(T.bnot(eq_str(self.els, e)))

    __hash__ = Sym.__hash__

    def _lt(self, o, strict):
        e = str_els(o)
        if e is None:
            return NotImplemented
        a, e = self.flat(), flat(e)
        for x, y in zip(a, e):
            if truth(T.eq0(T.sub(x, y))):
                continue
            return truth(T.ge0(T.sub(T.sub(y, x), 1)))
        return len(a) < len(e) if strict else len(a) <= len(e)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else not r

    def __contains__(self, v):
        return bool(self.contains(v))

    def contains(self, v):
        sub = str_els(v)
        if sub is None:
            raise TypeError("'in <string>' requires string as left operand")
        sub = flat(sub)
        if not sub:
            return True
        if len(self.els) == 1 and type(self.els[0]) is Tok \
                and all(type(e) is int for e in sub):
            s = ''.join(map(chr, sub))
            return mkb(tok_is(self.els[0], lambda t: s in t))
        els = self.flat()
        if len(sub) == 1 and all(type(e) is int for e in els):
            return mkb(T.member(sub[0], set(els)))
        return mkb(T.bor_([c for _, c in contains_run(els, sub)]))

    def _map(self, table, f):
        out = []
        for e in self.els:
            if type(e) is int:
                s = f(chr(e))
                out.extend(map(ord, s))
            elif type(e) is Tok:
                out.extend(mktok(e.lo, tuple(None if v is None else f(v)
                                             for v in e.table), e.idx))
            elif e is POISON:
                out.append(e)
            else:
                if not truth(T.ge0(T.sub(127, e))):
                    raise Unsupported('case of non-ASCII symbolic text')
                out.append(T.tab(0, table, e))
        return mkstr(out)

    def lower(self):
        return self._map(_LOWER, str.lower)

    def upper(self):
        return self._map(_UPPER, str.upper)

    casefold = lower

    def _cls(self, pred, empty):
        els = self.flat()
        if not els:
            return empty
        ok = {i for i in range(128) if pred(chr(i))}
        for e in els:
            if not truth(T.ge0(T.sub(127, e))):
                raise Unsupported('non-ASCII symbolic text')
        return mkb(T.band_([T.member(e, ok) for e in els]))

    def isdigit(self):
        return self._cls(str.isdigit, False)

    isdecimal = isnumeric = isdigit

    def isalnum(self):
        return self._cls(str.isalnum, False)

    def isalpha(self):
        return self._cls(str.isalpha, False)

    def isascii(self):
        return mkb(T.band_([T.ge0(T.sub(127, e)) for e in self.flat()]))

    def isspace(self):
        return self._cls(str.isspace, False)

    def islower(self):
        els = self.flat()
        up = {i for i in range(128) if chr(i).isupper()}
        lo = {i for i in range(128) if chr(i).islower()}
        return mkb(T.band_([
            T.band_([T.bnot(T.member(e, up)) for e in els]),
            T.bor_([T.member(e, lo) for e in els])]))

    def isupper(self):
        els = self.flat()
        up = {i for i in range(128) if chr(i).isupper()}
        lo = {i for i in range(128) if chr(i).islower()}
        return mkb(T.band_([
            T.band_([T.bnot(T.member(e, lo)) for e in els]),
            T.bor_([T.member(e, up) for e in els])]))

    def find(self, sub, start=None, end=None):
        e = str_els(sub)
        if e is None:
            raise TypeError('must be str, not %s' % type(sub).__name__)
        return find_els(self.flat(), flat(e), start, end)

    def rfind(self, sub, start=None, end=None):
        e = str_els(sub)
        if e is None:
            raise TypeError('must be str, not %s' % type(sub).__name__)
        return find_els(self.flat(), flat(e), start, end, True)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def count(self, sub):
        e = flat(str_els(sub))
        if len(e) != 1:
            raise Unsupported('str.count')
        return mkint(T.addn([T.cond_lin(T.eq0(T.sub(x, e[0])))
                             for x in self.flat()]))

    def startswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return mkb(T.bor_([_b(self.startswith(q, start, end))
                               for q in p]))
        if start is None and end is None and len(self.els) == 1 \
                and type(self.els[0]) is Tok and type(p) is str:
            return mkb(tok_is(self.els[0], lambda v: v.startswith(p)))
        e = str_els(p)
        if e is None:
            raise TypeError('startswith first arg must be str')
        # a literal prefix may be decided without expanding later tokens
        els = self.els
        if start is None and end is None and not any(
                type(x) is Tok or x is POISON for x in els[:len(e)]):
            if len(els) >= len(e):
                return mkb(eq_els(els[:len(e)], flat(e)))
        els = self.flat()
        a, b, _ = slice_bounds(slice(start, end), len(els))
        x = els[a:b]
        if len(e) > len(x):
            return False
        return mkb(eq_els(x[:len(e)], flat(e)))

    def endswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return mkb(T.bor_([_b(self.endswith(q, start, end))
                               for q in p]))
        e = flat(str_els(p))
        els = self.flat()
        a, b, _ = slice_bounds(slice(start, end), len(els))
        x = els[a:b]
        if len(e) > len(x):
            return False
        return mkb(eq_els(x[len(x) - len(e):], e))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out = []
            cur = []
            for e in self.els:
                if type(e) is int:
                    ws = e in WS or chr(e).isspace()
                elif type(e) is Tok:
                    ws = False
                    if any(v is not None and (not v or v.split() != [v])
                           for v in e.table):
                        raise Unsupported('split of token text')
                elif e is POISON:
                    raise Unsupported('split of unmodelled text')
                else:
                    ws = truth(T.member(e, WS))
                if ws and maxsplit < 0 or ws and len(out) < maxsplit:
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                else:
                    cur.append(e)
            if cur:
                out.append(mkstr(cur))
            return out
        s = flat(str_els(sep))
        if not s:
            raise ValueError('empty separator')
        els = self.flat()
        out = []
        i = st = 0
        while i + len(s) <= len(els):
            if (maxsplit < 0 or len(out) < maxsplit) \
                    and truth(eq_els(els[i:i + len(s)], s)):
                out.append(mkstr(els[st:i]))
                i += len(s)
                st = i
            else:
                i += 1
        out.append(mkstr(els[st:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit')
        parts = self.split(sep)
        if len(parts) <= maxsplit + 1:
            return parts
        k = len(parts) - maxsplit
        if len(flat(str_els(sep))) != 1:
            raise Unsupported('rsplit')
        els = list(str_els(parts[0]))
        for x in parts[1:k]:
            els += list(str_els(sep)) + list(str_els(x))
        head = mkstr(els)
        return [head] + parts[k:]

    def partition(self, sep):
        p = self.split(sep, 1)
        if len(p) == 1:
            return p[0], '', ''
        return p[0], sep, p[1]

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        if len(p) == 1:
            return '', '', p[0]
        return p[0], sep, p[1]

    def _strip(self, chars, left, right):
        els = list(self.els)
        if chars is None:
            cs = WS
        else:
            cs = set(flat(str_els(chars)))

        def hit(e):
            if type(e) is Tok:
                if chars is None and all(
                        v is None or v.strip() == v != ''
                        for v in e.table):
                    return False
                raise Unsupported('strip of token text')
            return truth(T.member(e, cs))
        if left:
            while els and hit(els[0]):
                els.pop(0)
        if right:
            while els and hit(els[-1]):
                els.pop()
        return mkstr(els)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) \
            else self

    def replace(self, old, new, count=-1):
        parts = self.split(old, count)
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(str_els(new))
            out.extend(str_els(p))
        return mkstr(out)

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        lim = 255 if enc in ('latin-1', 'latin1') else 127
        utf = enc in ('utf-8', 'utf8', 'u8')
        out = []
        for e in self.flat():
            if utf and type(e) is int:
                out.extend(chr(e).encode('utf-8', errors))
                continue
            if not truth(T.ge0(T.sub(lim, e))):
                if enc in ('ascii', 'us-ascii'):
                    raise UnicodeEncodeError('ascii', '\xff', 0, 1, 'range')
                raise Unsupported('encoding non-ASCII symbolic text')
            out.append(e)
        return mkbytes(tuple(out))

    def join(self, it):
        out = []
        for i, v in enumerate(it):
            if i:
                out.extend(self.els)
            e = str_els(v)
            if e is None:
                raise TypeError('sequence item %d: expected str instance, '
                                '%s found' % (i, type(v).__name__))
            out.extend(e)
        return mkstr(out)

    def zfill(self, w):
        els = self.flat()
        return mkstr((48,) * max(0, conc(w) - len(els)) + els)

    def ljust(self, w, fill=' '):
        els = self.flat()
        return mkstr(els + (ord(fill),) * max(0, conc(w) - len(els)))

    def rjust(self, w, fill=' '):
        els = self.flat()
        return mkstr((ord(fill),) * max(0, conc(w) - len(els)) + els)

    def format(self, *a, **k):
        raise Unsupported('format with a symbolic template')

    def __str__(self):
        # only reached from native code printing an exception
        return ''.join(chr(e) if type(e) is int else '?' for e in self.els)

    def __repr__(self):
        return '<sym %r>' % str(self)


def is_sym(v):
    return isinstance(v, Sym)


REAL = {SInt: int, SBool: bool, SBytes: bytes, SByteArray: bytearray,
        SStr: str}


# ------------------------------------------------------------------ hashes

class HashNode:
    __slots__ = ('id', 'alg', 'params', 'pre', 'n', '_real')
    memo = {}

    def digit(self, k):
        return T.lin_of_atom(T.atom('dig', (self, k), 255))

    def __repr__(self):
        return 'H%d' % self.id


def digest(alg, params, pre, n):
    '''uninterpreted digest of a preimage (tuple of byte terms)'''
    pre = tuple(T.refresh(e) for e in pre)
    key = (alg, params, pre)
    h = HashNode.memo.get(key)
    p = P.CURRENT
    if h is None or h not in p.hashes:
        # the same preimage, written before more was known on this path
        for g in p.hashes:
            if g.alg == alg and g.params == params and len(g.pre) == len(pre) \
                    and all(x is y or T.refresh(x) == y
                            for x, y in zip(g.pre, pre)):
                return mkbytes([g.digit(k) for k in range(n)])
    if h is None:
        h = HashNode()
        h.id = len(HashNode.memo)
        h.alg, h.params, h.pre, h.n = alg, params, pre, n
        h._real = None
        HashNode.memo[key] = h
    if h not in p.hashes:
        p.hashes.append(h)
        P.COUNT.hashes += 1
    return mkbytes([h.digit(k) for k in range(n)])
