'''Stand-ins for the C modules the repository uses.'''
import types
import struct as _struct
import binascii as _binascii
import hashlib as _hashlib
import io as _io
from . import terms as T
from . import values as V
from .path import Unsupported
from .values import bytes_els, mkbytes, lin, conc


class Hash:
    '''symbolic hash object: the digest is an uninterpreted function'''

    def __init__(self, alg, n, params=(), data=b'', block=64):
        self.name = alg
        self.digest_size = n
        self.block_size = block
        self._params = params
        self._els = []
        if V.bytes_els(data) is None or len(V.bytes_els(data)):
            self.update(data)

    def update(self, data):
        e = bytes_els(data)
        if e is None:
            if isinstance(data, (str, V.SStr)):
                raise TypeError('Strings must be encoded before hashing')
            raise TypeError('object supporting the buffer API required')
        self._els.extend(e)

    def digest(self):
        return V.digest(self.name, self._params, tuple(self._els),
                        self.digest_size)

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        h = Hash(self.name, self.digest_size, self._params)
        h.block_size = self.block_size
        h._els = list(self._els)
        return h


SIZES = {'sha256': 32, 'sha1': 20, 'md5': 16, 'sha512': 64, 'sha224': 28,
         'sha384': 48, 'ripemd160': 20, 'sha3_256': 32, 'sha3_512': 64}


def _plain(name):
    def f(data=b'', *, usedforsecurity=True, string=None):
        return Hash(name, SIZES[name], (), data,
                    128 if name in ('sha512', 'sha384') else 64)
    f.__name__ = name
    return f


def _blake2(name, maxn, block, maxkey, saltn, persn):
    def f(data=b'', *, digest_size=maxn, key=b'', salt=b'', person=b'',
          fanout=1, depth=1, leaf_size=0, node_offset=0, node_depth=0,
          inner_size=0, last_node=False, usedforsecurity=True):
        ps = []
        digest_size = conc(digest_size)
        if not 1 <= digest_size <= maxn:
            raise ValueError('digest_size must be between 1 and %d bytes'
                             % maxn)
        for nm_, v, lim in (('key', key, maxkey), ('salt', salt, saltn),
                            ('person', person, persn)):
            e = bytes_els(v)
            if e is None:
                raise TypeError("a bytes-like object is required, not '%s'"
                                % type(v).__name__)
            if len(e) > lim:
                raise ValueError('maximum %s length is %d bytes'
                                 % (nm_, lim))
            if nm_ != 'key':
                # shorter values are zero padded
                e = e + (0,) * (lim - len(e))
            ps.append((nm_, e))
        ps.append(('tree', (fanout, depth, leaf_size, node_offset,
                            node_depth, inner_size, bool(last_node))))
        # the variable parameters are part of the preimage as far as
        # equality is concerned; they are kept apart for evaluation
        return BHash(name, digest_size, ps, data, block)
    f.__name__ = name
    return f


class BHash(Hash):
    '''BLAKE2 with parameters: (key, salt, person) join the preimage'''

    def __init__(self, alg, n, ps, data, block):
        self._ps = ps
        head = []
        shape = []
        for nm_, e in ps[:3]:
            head.extend(e)
            shape.append(len(e))
        self._head = tuple(head)
        self.tree = ps[3][1]
        Hash.__init__(self, alg, n, (n, tuple(shape), ps[3][1]), data, block)

    def digest(self):
        return V.digest(self.name, self._params,
                        self._head + tuple(self._els), self.digest_size)

    def copy(self):
        h = BHash(self.name, self.digest_size, self._ps, b'',
                  self.block_size)
        h._els = list(self._els)
        return h


def real_digest(alg, params, pre):
    '''the real function on a concrete preimage'''
    pre = bytes(pre)
    if alg in ('blake2b', 'blake2s'):
        n, shape, tree = params
        k, s, p = shape
        key, salt, person = pre[:k], pre[k:k + s], pre[k + s:k + s + p]
        f = getattr(_hashlib, alg)
        fan, dep, leaf, off, nd, inn, last = tree
        return f(pre[k + s + p:], digest_size=n, key=key, salt=salt,
                 person=person, fanout=fan, depth=dep, leaf_size=leaf,
                 node_offset=off, node_depth=nd, inner_size=inn,
                 last_node=last).digest()
    if alg.startswith('BLAKE-'):
        return REAL_BLAKE(int(alg[6:]), params, pre)
    return _hashlib.new(alg, pre).digest()


REAL_BLAKE = None     # set by the engine (the repository's own BLAKE)


def make_hashlib():
    m = types.ModuleType('hashlib')
    for n in SIZES:
        setattr(m, n, _plain(n))
    m.blake2b = _blake2('blake2b', 64, 128, 64, 16, 16)
    m.blake2s = _blake2('blake2s', 32, 64, 32, 8, 8)

    def new(name, data=b'', **kw):
        name = name.lower().replace('-', '_') if isinstance(name, str) \
            else name
        if name in SIZES:
            return _plain(name)(data)
        if name in ('blake2b', 'blake2s'):
            return getattr(m, name)(data, **kw)
        raise ValueError('unsupported hash type ' + str(name))
    m.new = new
    m.algorithms_available = _hashlib.algorithms_available
    m.algorithms_guaranteed = _hashlib.algorithms_guaranteed
    return m


# ------------------------------------------------------------------ struct

FSZ = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4,
       'q': 8, 'Q': 8}


def _parse(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = 'little'
    native = True
    if fmt and fmt[0] in '<>!=@':
        if fmt[0] in '>!':
            order = 'big'
        native = fmt[0] == '@'
        fmt = fmt[1:]
    items = []
    num = ''
    for c in fmt:
        if c.isdigit():
            num += c
        elif c.isspace():
            continue
        else:
            n = int(num) if num else 1
            num = ''
            if c == 's':
                items.append(('s', n))
            elif c == 'x':
                items.extend([('x', 1)] * n)
            elif c in FSZ:
                if native and c in 'lL':
                    raise Unsupported('native struct format')
                items.extend([(c, FSZ[c])] * n)
            else:
                raise Unsupported('struct format ' + c)
    return order, items


def make_struct():
    m = types.ModuleType('struct')
    m.error = _struct.error
    m.calcsize = _struct.calcsize

    def pack(fmt, *args):
        if not any(V.is_sym(a) for a in args):
            return _struct.pack(fmt, *args)
        order, items = _parse(fmt)
        need = sum(1 for c, _ in items if c != 'x')
        if need != len(args):
            raise _struct.error('pack expected %d items' % need)
        out = []
        it = iter(args)
        for c, n in items:
            if c == 'x':
                out.append(0)
                continue
            v = next(it)
            if c == 's':
                e = bytes_els(v)
                if e is None:
                    raise _struct.error("argument for 's' must be bytes")
                out.extend((e + (0,) * n)[:n])
                continue
            x = lin(v)
            if x is None:
                raise _struct.error('required argument is not an integer')
            try:
                b = V.int_to_bytes(x, n, order, c.islower())
            except OverflowError:
                raise _struct.error('argument out of range')
            out.extend(bytes_els(b))
        return mkbytes(out)

    def unpack(fmt, data):
        e = bytes_els(data)
        if e is None:
            raise TypeError('a bytes-like object is required')
        if all(type(x) is int for x in e):
            return _struct.unpack(fmt, bytes(e))
        order, items = _parse(fmt)
        if sum(n for _, n in items) != len(e):
            raise _struct.error('unpack requires a buffer of %d bytes'
                                % sum(n for _, n in items))
        out = []
        i = 0
        for c, n in items:
            p = e[i:i + n]
            i += n
            if c == 's':
                out.append(mkbytes(p))
            elif c != 'x':
                out.append(V.int_from_bytes(p, order, c.islower()))
        return tuple(out)

    def unpack_from(fmt, buffer, offset=0):
        e = bytes_els(buffer)
        n = _struct.calcsize(fmt)
        if len(e) - offset < n:
            raise _struct.error('unpack_from requires a larger buffer')
        return unpack(fmt, mkbytes(e[offset:offset + n]))

    class Struct:
        def __init__(self, fmt):
            self.format = fmt
            self.size = _struct.calcsize(fmt)

        def pack(self, *a):
            return pack(self.format, *a)

        def unpack(self, d):
            return unpack(self.format, d)

        def unpack_from(self, d, offset=0):
            return unpack_from(self.format, d, offset)
    m.pack, m.unpack, m.unpack_from, m.Struct = \
        pack, unpack, unpack_from, Struct
    return m


def make_binascii():
    m = types.ModuleType('binascii')
    m.Error = _binascii.Error

    def hexlify(d):
        e = bytes_els(d)
        return mkbytes(V.hex_els(e))

    def unhexlify(s):
        if isinstance(s, str):
            return _binascii.unhexlify(s)
        els = s.flat() if isinstance(s, V.SStr) else bytes_els(s)
        if len(els) % 2:
            raise _binascii.Error('Odd-length string')
        for e in els:
            if not V.truth(T.member(e, V.HEXSET)):
                raise _binascii.Error('Non-hexadecimal digit found')
        v = V.mkstr(els)
        return bytes.fromhex(v) if isinstance(v, str) else V.fromhex(v)
    m.hexlify = m.b2a_hex = hexlify
    m.unhexlify = m.a2b_hex = unhexlify
    return m


def make_io():
    m = types.ModuleType('io')

    class BytesIO:
        def __init__(self, data=b''):
            self._d = list(bytes_els(data) or ())
            self._p = 0

        def read(self, n=-1):
            if n is None:
                n = -1
            if not isinstance(n, int):
                s = V.slice_bounds(
                    slice(self._p, V.mkint(T.add(lin(n), self._p))),
                    len(self._d))
                r = self._d[s[0]:s[1]]
            elif n < 0:
                r = self._d[self._p:]
            else:
                r = self._d[self._p:self._p + n]
            self._p += len(r)
            return mkbytes(r)

        def write(self, b):
            e = bytes_els(b)
            self._d[self._p:self._p + len(e)] = e
            self._p += len(e)
            return len(e)

        def tell(self):
            return self._p

        def seek(self, off, whence=0):
            off = conc(off)
            self._p = off if whence == 0 else (
                self._p + off if whence == 1 else len(self._d) + off)
            return self._p

        def getvalue(self):
            return mkbytes(self._d)

        def getbuffer(self):
            return mkbytes(self._d)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    m.BytesIO = BytesIO
    m.StringIO = _io.StringIO
    return m
