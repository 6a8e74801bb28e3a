'''
Run-time hooks that instrumented code calls (calls, subscripts, membership,
formatting, branches).
'''
import builtins
import functools
import operator
import re
import string
import types
from . import terms as T
from . import path as P
from .path import Unsupported, MergeAbort
from .values import (
    SInt, SBool, SBytes, SByteArray, SStr, Sym, REAL, POISON, Tok, mkint, mkb,
    mkbytes, mkstr, mktok, lin, conc, bytes_els, str_els, byte_el, fromhex,
    int_from_bytes, tab_index, truth, flat, is_sym, _b, WS)

FUNCS = set()           # qualified names of repository functions executed


def fn(name):
    FUNCS.add(name)


SYMT = (SInt, SBool, SBytes, SByteArray, SStr)
FT = types.FunctionType
MT = types.MethodType
BT = types.BuiltinFunctionType
SEQ = (str, bytes, bytearray)


# ----------------------------------------------------------- constructors

def c_bytes(*a, **k):
    if k or len(a) > 1:
        src = a[0] if a else k.get('source', '')
        if isinstance(src, SStr):
            return src.encode(*a[1:], **{x: y for x, y in k.items()
                                         if x != 'source'})
        return bytes(*a, **k)
    if not a:
        return b''
    v = a[0]
    if type(v) in (SBytes, SByteArray):
        return mkbytes(v.els)
    if type(v) in (bytes, bytearray):
        return bytes(v)
    if type(v) is SStr or type(v) is str:
        raise TypeError('string argument without an encoding')
    if type(v) in (SInt, int, SBool, bool):
        n = conc(v)
        return bytes(n)
    m = getattr(type(v), '__bytes__', None)
    if m is not None:
        return m(v)
    return mkbytes([byte_el(x) for x in v])


def c_bytearray(*a, **k):
    if not a and not k:
        return SByteArray()
    if isinstance(a[0], (str, SStr)):
        if len(a) == 1 and not k:
            raise TypeError('string argument without an encoding')
        return SByteArray(bytes_els(call(a[0].encode, *a[1:], **k)))
    e = bytes_els(a[0])
    if e is not None:
        return SByteArray(e)
    if type(a[0]) in (int, SInt, bool):
        return SByteArray([0] * conc(a[0]))
    return SByteArray([byte_el(x) for x in a[0]])


def c_int(*a, **k):
    if not a:
        return int(**k)
    v = a[0]
    if type(v) is SInt:
        return v
    if type(v) is SBool:
        return mkint(lin(v))
    if type(v) is SStr:
        base = conc(a[1]) if len(a) > 1 else k.get('base', 10)
        return str_to_int(v, base)
    if type(v) in (SBytes, SByteArray):
        base = conc(a[1]) if len(a) > 1 else k.get('base', 10)
        return str_to_int(mkstr(v.els), base)
    return int(*a, **k)


def str_to_int(v, base):
    els = list(v.strip().flat()) if isinstance(v, SStr) else None
    if els is None or not els:
        return int(v, base)
    if base not in (10, 16, 2, 8):
        raise Unsupported('int() base %r' % base)
    neg = False
    if truth(T.eq0(T.sub(els[0], 45))):
        neg = True
        els = els[1:]
    elif truth(T.eq0(T.sub(els[0], 43))):
        els = els[1:]
    if base == 16 and len(els) > 2 and truth(T.eq0(T.sub(els[0], 48))) \
            and truth(T.member(els[1], {120, 88})):
        els = els[2:]
    dom = {}
    for i, c in enumerate('0123456789abcdef'[:base]):
        dom[ord(c)] = i
        dom[ord(c.upper())] = i
    t = tuple(dom.get(i) for i in range(128))
    s = 0
    if not els:
        raise ValueError('invalid literal for int()')
    for e in els:
        if not truth(T.member(e, set(dom))):
            if truth(T.eq0(T.sub(e, 95))):
                raise Unsupported('underscore in number text')
            raise ValueError('invalid literal for int()')
        s = T.add(T.scale(s, base), t[e] if type(e) is int
                  else T.tab(0, t, e))
    return mkint(T.scale(s, -1) if neg else s)


def c_str(*a, **k):
    if not a:
        return str(**k)
    v = a[0]
    if len(a) > 1 or k:
        if type(v) in (SBytes, SByteArray):
            return v.decode(*a[1:], **k)
        return str(*a, **k)
    return to_str(v)


def to_str(v):
    t = type(v)
    if t is SStr:
        return v
    if t in SYMT:
        if t is SBool:
            return 'True' if v else 'False'
        if t is SByteArray and all(type(e) is int for e in v.els):
            return str(bytearray(v.els))
        if t is SInt:
            x = T.refresh(v.x)
            if type(x) is int:
                return str(x)
            lo, hi = T.rng(x)
            if 0 <= lo and hi < 1024:
                tb = tuple(str(i) for i in range(hi + 1))
                return mkstr(mktok(0, tb, x))
        return mkstr((POISON,))
    if has_sym(v):
        return mkstr((POISON,))
    m = t.__dict__.get('__str__') if isinstance(t, type) else None
    if isinstance(v, BaseException):
        return mkstr((POISON,)) if has_sym(v.args) else str(v)
    if is_inst(v):
        f = getattr(t, '__str__', None)
        if isinstance(f, FT):
            return f(v)
        f = getattr(t, '__repr__', None)
        if isinstance(f, FT):
            return f(v)
    return str(v)


def is_inst(v):
    return isinstance(type(v), type) and type(v).__module__ != 'builtins' \
        and not isinstance(v, type)


def has_sym(v, depth=3):
    if isinstance(v, Sym):
        return True
    if depth and type(v) in (list, tuple, set, frozenset):
        return any(has_sym(x, depth - 1) for x in v)
    if depth and type(v) is dict:
        return any(has_sym(x, depth - 1) for x in v.values())
    return False


def c_bool(*a):
    if not a:
        return False
    v = a[0]
    if type(v) is SBool:
        return v
    if type(v) is SInt:
        return mkb(T.bnot(T.eq0(v.x)))
    return bool(v)


class SRange:
    '''range() with a symbolic end, expanded lazily'''

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        while True:
            c = (i < self.stop) if self.step > 0 else (i > self.stop)
            if not c:
                return
            yield i
            i = i + self.step

    def __len__(self):
        raise Unsupported('len of a symbolic range')

    def contains(self, v):
        if self.step != 1:
            raise Unsupported('in range() with a step')
        return mkb(T.band_([T.ge0(T.sub(lin(v), lin(self.start))),
                            T.ge0(T.sub(T.sub(lin(self.stop), lin(v)), 1))]))

    def __reversed__(self):
        n = [conc(x) for x in (self.start, self.stop, self.step)]
        return reversed(range(*n))


def c_range(*a):
    if any(type(x) in (SInt, SBool) for x in a):
        a = [mkint(T.refresh(lin(x))) for x in a]
        if all(type(x) is int for x in a):
            return range(*a)
        if len(a) == 1:
            return SRange(0, a[0], 1)
        if len(a) == 2:
            return SRange(a[0], a[1], 1)
        st = conc(a[2])
        if st == 0:
            raise ValueError('range() arg 3 must not be zero')
        return SRange(a[0], a[1], st)
    return range(*a)


def c_map(f, *its):
    return map(lambda *a: call(f, *a), *its)


def c_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(lambda a: call(f, a), it)


def c_type(*a):
    if len(a) == 1:
        return REAL.get(type(a[0])) or type(a[0])
    return type(*a)


def c_memoryview(v):
    if type(v) in (SBytes, SByteArray):
        return mkbytes(v.els)
    return memoryview(v)


def c_dict(*a, **k):
    return dict(*a, **k)


CLS = {bytes: c_bytes, bytearray: c_bytearray, int: c_int, str: c_str,
       bool: c_bool, range: c_range, map: c_map, filter: c_filter,
       type: c_type, memoryview: c_memoryview}


# -------------------------------------------------------------- functions

def f_isinstance(v, c):
    r = REAL.get(type(v))
    if r is None:
        if type(v) is SRange:
            return isinstance(range(0), c)
        return isinstance(v, c)
    if type(c) is tuple:
        return any(f_isinstance(v, x) for x in c)
    if isinstance(c, types.UnionType):
        return any(f_isinstance(v, x) for x in c.__args__)
    if isinstance(c, type):
        return issubclass(r, c) or isinstance(v, c) and c is not object \
            or c is object
    return isinstance(v, c)


def f_len(v):
    return len(v)


def f_ord(v):
    if type(v) is SStr:
        e = v.flat()
        if len(e) != 1:
            raise TypeError('ord() expected a character')
        return mkint(e[0])
    if type(v) in (SBytes, SByteArray):
        if len(v.els) != 1:
            raise TypeError('ord() expected a character')
        return mkint(v.els[0])
    return ord(v)


def f_chr(v):
    if type(v) is SInt:
        ok = T.band_([T.ge0(v.x), T.ge0(T.sub(0x10ffff, v.x))])
        if not truth(ok):
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr((T.refresh(v.x),))
    return chr(v)


def f_hash(v):
    if isinstance(v, Sym):
        raise Unsupported('hash of symbolic value')
    return hash(v)


def f_format(v, spec=''):
    return fmt_value(v, spec)


def f_repr(v):
    if has_sym(v):
        if type(v) is SByteArray and all(type(e) is int for e in v.els):
            return repr(bytearray(v.els))
        return mkstr((POISON,))
    return repr(v)


def f_hex(v):
    if type(v) is SInt:
        return mkstr((POISON,))
    return hex(v)


def f_pow(*a):
    if any(is_sym(x) for x in a):
        if len(a) == 3:
            return pow(a[0], conc(a[1])) % a[2]
        return a[0] ** a[1]
    return pow(*a)


def f_round(v, *a):
    if type(v) is SInt:
        if a:
            raise Unsupported('round')
        return v
    return round(v, *a)


def f_sum(it, start=0):
    s = start
    for x in it:
        s = s + x
    return s


def f_print(*a, **k):
    return None


def f_callable(v):
    return False if isinstance(v, Sym) else callable(v)


def f_all(it):
    for x in it:
        if not x:
            return False
    return True


def f_any(it):
    for x in it:
        if x:
            return True
    return False


def f_sorted(it, *, key=None, reverse=False):
    if key is None:
        return sorted(it, reverse=reverse)
    return sorted(it, key=lambda v: call(key, v), reverse=reverse)


def f_min(*a, **k):
    if 'key' in k:
        kf = k['key']
        k = dict(k, key=lambda v: call(kf, v))
    return min(*a, **k)


def f_max(*a, **k):
    if 'key' in k:
        kf = k['key']
        k = dict(k, key=lambda v: call(kf, v))
    return max(*a, **k)


def f_reduce(f, *a):
    return functools.reduce(lambda x, y: call(f, x, y), *a)


BF = {isinstance: f_isinstance, ord: f_ord, chr: f_chr, hash: f_hash,
      format: f_format, repr: f_repr, hex: f_hex, bin: f_hex, oct: f_hex,
      pow: f_pow, round: f_round, sum: f_sum, print: f_print,
      callable: f_callable, all: f_all, any: f_any, sorted: f_sorted,
      min: f_min, max: f_max, functools.reduce: f_reduce}


def _int_from_bytes(b, byteorder='big', *, signed=False):
    e = bytes_els(b)
    if e is None:
        e = [byte_el(x) for x in b] if not isinstance(b, (int, str, SStr,
                                                          SInt)) else None
        if e is None:
            raise TypeError("cannot convert '%s' object to bytes"
                            % c_type(b).__name__)
    if all(type(x) is int for x in e):
        return int.from_bytes(bytes(e), byteorder, signed=bool(signed))
    return int_from_bytes(e, byteorder, bool(signed))


def _bytes_fromhex(s):
    if type(s) is SStr:
        return fromhex(s)
    return bytes.fromhex(s)


def _bytearray_fromhex(s):
    return c_bytearray(_bytes_fromhex(s))


CLSM = {(int, 'from_bytes'): _int_from_bytes,
        (bool, 'from_bytes'): _int_from_bytes,
        (bytes, 'fromhex'): _bytes_fromhex,
        (bytearray, 'fromhex'): _bytearray_fromhex}


def wrap(v):
    if isinstance(v, str):
        return SStr(tuple(map(ord, v)))
    if isinstance(v, bytes):
        return SBytes(tuple(v))
    if isinstance(v, bytearray):
        return SByteArray(v)
    return v


def call(f, *a, **k):
    t = type(f)
    if t is FT or t is MT:
        return f(*a, **k)
    if t is BT:
        s = f.__self__
        if s is builtins or type(s) is types.ModuleType or s is None:
            h = BF.get(f) or OPERATOR.get(f)
            if h is not None:
                return h(*a, **k)
            return native(f, a, k)
        if isinstance(s, type):
            h = CLSM.get((s, f.__name__))
            if h is not None:
                return h(*a, **k)
            if f.__name__ == 'maketrans' or not _any_sym(a, k):
                return f(*a, **k)
            return native(f, a, k)
        if f.__name__ in DUNDER and a:
            return DUNDER[f.__name__](s, a[0])
        if isinstance(s, SEQ):
            name = f.__name__
            if name == 'join':
                items = list(a[0])
                if any(isinstance(x, Sym) for x in items):
                    return wrap(s).join(items)
                return f(items)
            if name == 'format':
                return str_format(s, a, k)
            if _any_sym(a, k):
                return getattr(wrap(s), name)(*a, **k)
            return f(*a, **k)
        if isinstance(s, dict):
            name = f.__name__
            if name in ('get', 'pop', 'setdefault') and a \
                    and isinstance(a[0], Sym):
                if name != 'get':
                    raise Unsupported('dict.%s of a symbolic key' % name)
                if truth(_b(dict_has(s, a[0]))):
                    return dict_get(s, a[0])
                return a[1] if len(a) > 1 else None
            return f(*a, **k)
        if isinstance(s, int) and not isinstance(s, bool) \
                and _any_sym(a, k):
            return getattr(SInt(int(s)), f.__name__)(*a, **k)
        return f(*a, **k)
    if t is type:
        h = CLS.get(f)
        if h is not None:
            return h(*a, **k)
        return f(*a, **k)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType \
            or t is types.ClassMethodDescriptorType:
        # e.g. str.lower, bytes.__getitem__
        if a and isinstance(a[0], Sym):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and isinstance(a[0], SEQ) and _any_sym(a, k):
            return getattr(wrap(a[0]), f.__name__)(*a[1:], **k)
        return f(*a, **k)
    if t is types.MethodWrapperType and f.__name__ in DUNDER and a:
        # e.g. ALPHABET.__getitem__
        return DUNDER[f.__name__](f.__self__, a[0])
    if t is operator.itemgetter:
        keys = f.__reduce__()[1]
        if len(keys) == 1:
            return getitem(a[0], keys[0])
        return tuple(getitem(a[0], i) for i in keys)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **dict(f.keywords, **k))
    return f(*a, **k)


DUNDER = {'__getitem__': lambda c, i: getitem(c, i),
          '__contains__': lambda c, x: contains(x, c)}
OPERATOR = {operator.getitem: lambda c, i: getitem(c, i),
            operator.contains: lambda c, x: contains(x, c),
            operator.mod: lambda a, b: mod(a, b),
            operator.not_: lambda x: not_(x),
            operator.truth: lambda x: c_bool(x)}


def _any_sym(a, k):
    for x in a:
        if isinstance(x, Sym):
            return True
        if type(x) is tuple and any(isinstance(y, Sym) for y in x):
            return True
    if k:
        for x in k.values():
            if isinstance(x, Sym):
                return True
    return False


def native(f, a, k):
    '''a C function with possibly symbolic arguments'''
    if not _any_sym(a, k):
        return f(*a, **k)
    # functions that only use the Python protocols of their arguments
    if f in SAFE or getattr(f, '__module__', '') in ('_operator', 'operator',
                                                     '_functools'):
        return f(*a, **k)
    raise Unsupported('native function %r on symbolic values' % (f,))


SAFE = {len, iter, next, abs, divmod, getattr, setattr, hasattr, id,
        issubclass, delattr, vars, dir, object.__setattr__}


# -------------------------------------------------------------- subscripts

def dict_keys_split(d, key):
    t = type(key)
    if t in (SInt, SBool):
        return {k for k in d if type(k) is int or type(k) is bool}
    return None


def dict_has(d, key):
    '''symbolic bool: key in d'''
    t = type(key)
    if t in (SInt, SBool):
        ks = {int(k) for k in d if isinstance(k, int)}
        return mkb(T.member(lin(key), ks))
    if t is SStr:
        if len(key.els) == 1:
            e = key.els[0]
            if type(e) is Tok:
                from .values import tok_is
                return mkb(tok_is(e, lambda v: v in d))
            if e is POISON:
                raise Unsupported('look-up of unmodelled text')
            return mkb(T.member(e, {ord(k) for k in d
                                    if isinstance(k, str) and len(k) == 1}))
        els = key.flat()
        return mkb(T.bor_([key_eq(els, k) for k in d
                           if isinstance(k, str) and len(k) == len(els)]))
    if t is SBytes:
        els = key.els
        from .values import eq_els
        return mkb(T.bor_([eq_els(els, tuple(k)) for k in d
                           if isinstance(k, bytes) and len(k) == len(els)]))
    raise TypeError("unhashable type: '%s'" % REAL[t].__name__)


def key_eq(els, k):
    from .values import eq_els
    return eq_els(els, tuple(map(ord, k)))


def dict_get(d, key):
    '''d[key] where key in d holds on this path'''
    t = type(key)
    if t in (SInt, SBool):
        x = T.refresh(lin(key))
        if type(x) is int:
            return d[x]
        lo, hi = T.rng(x)
        items = {int(k): v for k, v in d.items()
                 if isinstance(k, int) and lo <= k <= hi}
        return pick(items, x)
    if t is SStr and len(key.els) == 1:
        e = key.els[0]
        if type(e) is Tok:
            items = {}
            for j, s in enumerate(e.table):
                if s is not None and s in d:
                    items[e.lo + j] = d[s]
            return pick(items, e.idx)
        items = {ord(k): v for k, v in d.items()
                 if isinstance(k, str) and len(k) == 1}
        return pick(items, e)
    for k, v in d.items():
        if type(k) is REAL[t] and len(k) == len(key):
            c = key == k
            if c is True or (c is not False and truth(c.b)):
                return v
    raise KeyError(key)


def pick(items, x):
    '''items[x] (keys ints) for a term x known to be one of the keys'''
    x = T.refresh(x)
    if type(x) is int:
        return items[x]
    ks = sorted(items)
    if ks[-1] - ks[0] < 70000:
        vals = [items[k] for k in ks]
        if all(type(v) is int for v in vals):
            t = tuple(items.get(k) for k in range(ks[0], ks[-1] + 1))
            return mkint(T.tab(ks[0], t, x))
        if all(type(v) is str for v in vals):
            t = tuple(items.get(k) for k in range(ks[0], ks[-1] + 1))
            return mkstr(mktok(ks[0], t, x))
    return items[P.CURRENT.choose_value(x)]


def getitem(o, i):
    t = type(i)
    if t is SInt or t is SBool:
        to = type(o)
        if to is list or to is tuple:
            if o and all(type(v) in (int, SInt, bool) for v in o):
                return mkint(tab_index(i, [lin(v) for v in o]))
            if o and all(type(v) is str for v in o):
                x = tab_domain(i, len(o))
                if type(x) is int:
                    return o[x]
                return mkstr(mktok(0, tuple(o), x))
            from .values import index_of
            return o[index_of(i, len(o), to.__name__)]
        if to is bytes or to is bytearray:
            return mkint(tab_index(i, list(o)))
        if to is str:
            return mkstr((tab_index(i, [ord(c) for c in o]),))
        if isinstance(o, dict):
            if not truth(_b(dict_has(o, i))):
                return missing(o, i)
            return dict_get(o, i)
        if to is range:
            return o.start + i * o.step
        return o[i]
    if t is SStr or t is SBytes:
        if isinstance(o, dict):
            if not truth(_b(dict_has(o, i))):
                return missing(o, i)
            return dict_get(o, i)
        return o[i]
    if t is slice:
        to = type(o)
        if (to in (list, tuple, str, bytes, bytearray, range)
                and (isinstance(i.start, Sym) or isinstance(i.stop, Sym)
                     or isinstance(i.step, Sym))):
            from .values import slice_bounds
            a, b, st = slice_bounds(i, len(o))
            if st > 0:
                return o[a:b:st]
            return o[a:(b if b >= 0 else None):st]
        return o[i]
    return o[i]


def missing(o, i):
    m = getattr(type(o), '__missing__', None)
    if m is not None:
        raise Unsupported('defaultdict with a symbolic key')
    raise KeyError(i)


def tab_domain(v, n):
    x = lin(v)
    ok = T.band_([T.ge0(T.add(x, n)), T.ge0(T.sub(n - 1, x))])
    if not truth(ok):
        raise IndexError('list index out of range')
    if not truth(T.ge0(x)):
        x = T.add(x, n)
    return T.refresh(x)


def contains(x, c):
    '''x in c'''
    tc = type(c)
    if tc in (SBytes, SByteArray, SStr):
        return c.contains(x)
    if tc is SRange:
        return c.contains(x)
    tx = type(x)
    if tx in SYMT:
        if isinstance(c, dict):
            return dict_has(c, x)
        if tc in (set, frozenset):
            if tx in (SInt, SBool):
                return mkb(T.member(lin(x), {int(v) for v in c
                                             if isinstance(v, int)}))
            return mkb(T.bor_([_b(x == v) for v in c
                               if type(v) is REAL[tx]]))
        if tc is range:
            if c.step == 1:
                return mkb(T.band_([T.ge0(T.sub(lin(x), c.start)),
                                    T.ge0(T.sub(c.stop - 1, lin(x)))]))
            return mkb(T.member(lin(x), set(c)))
        if tc in (str, bytes, bytearray):
            return wrap(c).contains(x)
        if tc in (list, tuple):
            if tx in (SInt, SBool) and all(type(v) is int for v in c):
                return mkb(T.member(lin(x), set(c)))
            out = []
            for v in c:
                r = (v == x)
                if r is NotImplemented:
                    r = False
                if type(r) is bool:
                    if r:
                        return True
                    continue
                if type(r) is not SBool:
                    raise Unsupported('membership')
                out.append(r.b)
            return mkb(T.bor_(out))
        if isinstance(c, type({}.keys())):
            return dict_has(dict.fromkeys(c), x)
        if isinstance(c, type({}.values())):
            return contains(x, list(c))
    if tc in (list, tuple):
        # elements may be symbolic
        if any(isinstance(v, Sym) for v in c):
            for v in c:
                if v is x or v == x:
                    return True
            return False
    return x in c


def not_contains(x, c):
    r = contains(x, c)
    if type(r) is SBool:
        return mkb(T.bnot(r.b))
    return not r


def not_(v):
    if type(v) is SBool:
        return mkb(T.bnot(v.b))
    if type(v) is SInt:
        return mkb(T.eq0(v.x))
    return not v


# -------------------------------------------------------------- formatting

def fmt_value(v, spec, conv=None):
    '''text of one formatted field (str or SStr)'''
    if conv == 'r' or conv == 'a':
        return f_repr(v)
    if conv == 's':
        v = to_str(v)
    if isinstance(spec, SStr):
        spec = ''.join(map(chr, spec.flat()))
    if is_inst(v) and not isinstance(v, Sym):
        m = getattr(type(v), '__format__', None)
        if isinstance(m, FT):
            return m(v, spec)
        if not spec:
            return to_str(v)
        return format(v, spec)
    if isinstance(v, Sym):
        if type(v) is SStr and spec in ('', 's'):
            return v
        if type(v) is SInt and spec in ('', 'd'):
            return to_str(v)
        if type(v) is SBool and not spec:
            return to_str(v)
        if type(v) is SInt and re.fullmatch('0[0-9]+[xX]', spec):
            w = int(spec[1:-1])
            if truth(T.band_([T.ge0(v.x),
                              T.ge0(T.sub(16 ** w - 1, v.x))])):
                if w % 2 == 0:
                    b = v.to_bytes(w // 2, 'big')
                    s = b.hex()
                else:
                    b = v.to_bytes((w + 1) // 2, 'big')
                    s = b.hex()[1:]
                return s.upper() if spec[-1] == 'X' else s
        if type(v) is SByteArray and not spec \
                and all(type(e) is int for e in v.els):
            return str(bytearray(v.els))
        if type(v) in (SBytes, SByteArray) and spec:
            raise TypeError('unsupported format string passed to '
                            'bytes.__format__')
        return mkstr((POISON,))
    if has_sym(v):
        return mkstr((POISON,))
    return format(v, spec)


def str_format(s, a, k):
    if not _any_sym(a, k) and not any(is_inst(x) for x in a) \
            and not any(is_inst(x) for x in k.values()) \
            and not has_sym(a) and not has_sym(k):
        return s.format(*a, **k)
    fm = string.Formatter()
    out = []
    auto = 0
    for lit, field, spec, conv in fm.parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        v, _ = fm.get_field(field, a, k)
        if spec and '{' in spec:
            inner = ''
            for lit2, f2, s2, c2 in fm.parse(spec):
                inner += lit2
                if f2 is None:
                    continue
                if f2 == '' or f2[0] in '.[':
                    f2 = str(auto) + f2
                    auto += 1
                w = fm.get_field(f2, a, k)[0]
                if has_sym(w) or s2 or c2:
                    raise Unsupported('symbolic format width')
                inner += format(w, '')
            spec = inner
        out.append(fmt_value(v, spec, conv))
    return mkstr([e for p in out for e in str_els(p)])


def fstr(*parts):
    '''parts: str, or (value, conv, spec)'''
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            v, conv, spec = p
            out.append(fmt_value(v, spec, conv))
    if all(type(p) is str for p in out):
        return ''.join(out)
    return mkstr([e for p in out for e in str_els(p)])


def mod(a, b):
    if type(a) is str:
        if has_sym(b) or is_inst(b) or (
                type(b) is tuple and any(is_inst(x) for x in b)):
            r = percent(a, b if type(b) is tuple else (b,))
            if r is not None:
                return mkstr([e for p in r for e in str_els(p)])
            return mkstr((POISON,))
        return a % b
    if type(a) is SStr:
        return mkstr((POISON,))
    if type(a) is bytes and has_sym(b):
        bs = b if type(b) is tuple else (b,)
        ps = re.split(b'%[bs]', a)
        if len(ps) == len(bs) + 1 and b'%' not in b''.join(ps) and all(
                type(x) in (bytes, bytearray, SBytes, SByteArray)
                for x in bs):
            r = ps[0]
            for x, y in zip(bs, ps[1:]):
                r = r + bytes_of(x) + y
            return r
        raise Unsupported('formatted bytes')
    return a % b


def bytes_of(x):
    return x if type(x) is bytes else mkbytes(bytes_els(x))


def percent(a, b):
    '''pieces of a % b, or None'''
    if any(isinstance(x, dict) for x in b):
        return None
    out = []
    i = n = 0
    for m in re.finditer('%(%|[sdrix]|0[1-9][0-9]?[xX])', a):
        if '%' in a[i:m.start()]:
            return None
        out.append(a[i:m.start()])
        i = m.end()
        k = m.group(1)
        if k == '%':
            out.append('%')
            continue
        if n >= len(b):
            raise TypeError('not enough arguments for format string')
        v = b[n]
        n += 1
        if k == 's':
            out.append(fmt_value(v, '', 's'))
        elif k == 'r':
            out.append(fmt_value(v, '', 'r'))
        else:
            if type(v) not in (int, SInt, bool, SBool):
                return None
            out.append(fmt_value(v, 'd' if k == 'i' else k))
    if '%' in a[i:]:
        return None
    if n < len(b):
        raise TypeError('not all arguments converted during string '
                        'formatting')
    out.append(a[i:])
    return out


# ---------------------------------------------------------------- branches

def test(v):
    '''
    condition of a mergeable `if`: True/False when decided, else the
    condition term to merge on
    '''
    if type(v) is SInt:
        b = T.bnot(T.eq0(v.x))
    elif type(v) is SBool:
        b = v.b
    else:
        return bool(v)
    b = P.CURRENT.lookup(b)
    if b is T.TRUE:
        return True
    if b is T.FALSE:
        return False
    if b.kind == 'xb':
        return b
    return truth(b)


def merge(b, new, old):
    '''new if b else old'''
    if new is old:
        return new
    if type(new) in (int, SInt) and type(old) in (int, SInt):
        return mkint(T.ite(b, lin(new), lin(old)))
    if type(new) in (bool, SBool) and type(old) in (bool, SBool):
        p, q = _b(new), _b(old)
        return mkb(T.bor_([T.band_([b, p]), T.band_([T.bnot(b), q])]))
    raise MergeAbort()


class Spec:
    '''speculative execution scope: no decision may be taken inside'''

    def __enter__(self):
        P.CURRENT.spec += 1

    def __exit__(self, et, ev, tb):
        P.CURRENT.spec -= 1
        return False


def ifexp(c, f, g):
    c = test(c)
    if c is True:
        return f()
    if c is False:
        return g()
    p = P.CURRENT
    p.spec += 1
    try:
        r = merge(c, f(), g())
        p.spec -= 1
        return r
    except (MergeAbort, Exception):
        p.spec -= 1
    if truth(c):
        return f()
    return g()


def spec_begin():
    P.CURRENT.spec += 1


def spec_end():
    P.CURRENT.spec -= 1


def fork(c):
    return truth(c)
