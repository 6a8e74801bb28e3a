'''
SELF: the engine on ways of writing the same function (not a property).
Each h_ case computes one value in several styles; all must agree with the
plain one for all inputs, without running out of the modelled language.
'''
import functools
import hashlib
import io
import itertools
import operator
import struct
from collections import namedtuple, OrderedDict, deque, defaultdict, Counter
from dataclasses import dataclass


def agree(rt, label, *vs):
    for i, v in enumerate(vs[1:]):
        rt.check(label + ' ' + str(i + 1), v == vs[0])


def h_le(rt, n):
    b = rt.bytes('b', n)
    v = int.from_bytes(b, 'little')
    a1 = 0
    for i, x in enumerate(b):
        a1 += x << (8 * i)
    a2 = 0
    for x in reversed(b):
        a2 = (a2 << 8) | x
    a3 = sum(x * 256 ** i for i, x in enumerate(b))
    a4 = functools.reduce(lambda p, x: p * 256 + x, b[::-1], 0)
    a5, i = 0, len(b)
    while i:
        i -= 1
        a5 = a5 * 256 + b[i]
    a6 = int(b[::-1].hex() or '0', 16)
    a7 = int.from_bytes(bytes(reversed(b)), byteorder='big')
    a8 = sum(map(operator.mul, b, (256 ** i for i in itertools.count())))
    agree(rt, 'le', v, a1, a2, a3, a4, a5, a6, a7, a8)
    if n in (1, 2, 4, 8):
        f = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}[n]
        agree(rt, 'struct', v, struct.unpack('<' + f, b)[0],
              struct.unpack_from('<' + f, b'z' + b, 1)[0],
              struct.Struct('<' + f).unpack(b)[0])
        agree(rt, 'pack', b, struct.pack('<' + f, v), v.to_bytes(n, 'little'),
              bytes((v >> (8 * i)) & 255 for i in range(n)),
              bytes([v // 256 ** i % 256 for i in range(n)]),
                  bytes.fromhex('{:0{}x}'.format(v, 2 * n))[::-1],
              bytes.fromhex(f'{v:0{2 * n}x}')[::-1])


def h_split(rt, n):
    '''a length-prefixed field and a rest'''
    b = rt.bytes('b', n)
    if b[0] > 3 or b[0] >= n:
        return

    def slices():
        k = b[0]
        return b[1:1 + k], b[1 + k:]

    def stream():
        s = io.BytesIO(b)
        k = s.read(1)[0]
        return s.read(k), s.read()

    def pops():
        q = list(b)
        k = q.pop(0)
        return bytes([q.pop(0) for _ in range(k)]), bytes(q)

    def it():
        i = iter(b)
        k = next(i)
        return bytes(itertools.islice(i, k)), bytes(i)

    def dq():
        q = deque(b)
        k = q.popleft()
        out = bytearray()
        while len(out) < k:
            out.append(q.popleft())
        return bytes(out), bytes(q)

    def view():
        m = memoryview(b)
        k = m[0]
        return bytes(m[1:1 + k]), bytes(m[1 + k:])

    def cursor():
        pos = 0

        def take(k):
            nonlocal pos
            r = b[pos:pos + k]
            pos += k
            return r
        k = int.from_bytes(take(1), 'little')
        return take(k), take(len(b) - pos)

    def walrus():
        if (k := b[0]) is not None:
            x, y = b[1:][:k], b[1:][k:]
        return x, y

    def stepwise():
        x, rest = b'', b[1:]
        for _ in range(b[0]):
            x, rest = x + rest[:1], rest[1:]
        return x, rest
    for f in (stream, pops, it, dq, view, cursor, walrus, stepwise):
        agree(rt, f.__name__, slices(), f())


def h_join(rt, n):
    bs = [rt.bytes('b%d' % i, n) for i in range(3)]
    want = bs[0] + bs[1] + bs[2]
    out = bytearray()
    for x in bs:
        out += x
    out2 = bytearray()
    [out2.extend(x) for x in bs]
    out3 = b''
    for x in bs:
        out3 = out3 + x
    s = io.BytesIO()
    for x in bs:
        s.write(x)

    def gen():
        for x in bs:
            yield x

    def gen2():
        yield from gen()
    out4 = bytearray(len(want))
    for i, x in enumerate(bs):
        out4[i * n:(i + 1) * n] = x
    agree(rt, 'join', want, b''.join(bs), bytes(out), bytes(out2), out3,
          s.getvalue(), b''.join(gen()), b''.join(gen2()),
          b''.join(x for x in bs), bytes(itertools.chain(*bs)),
          bytes(itertools.chain.from_iterable(bs)),
          functools.reduce(operator.add, bs), sum(bs, b'') if False else want,
          bytes([*bs[0], *bs[1], *bs[2]]), b'%b%b%b' % tuple(bs), bytes(out4),
          bytes.fromhex(''.join(x.hex() for x in bs)),
          bytes(x for y in bs for x in y), bytes().join(map(bytes, bs)))
    h = hashlib.sha256()
    for x in bs:
        h.update(x)
    agree(rt, 'hash', hashlib.sha256(want).digest(), h.digest(),
          hashlib.new('sha256', want).digest(),
          bytes.fromhex(hashlib.sha256(want).hexdigest()))


P = namedtuple('P', 'x y')


@dataclass
class D:
    x: int
    y: int = 3

    def total(self):
        return self.x + self.y


class E:
    __slots__ = ('_v',)

    def __init__(self, v):
        self._v = v

    @property
    def v(self):
        return self._v

    @classmethod
    def of(cls, v):
        return cls(v)

    @staticmethod
    def twice(v):
        return v * 2

    def __eq__(self, o):
        return isinstance(o, E) and self.v == o.v

    def __iter__(self):
        yield self.v
        yield self.v + 1


def h_branch(rt):
    x = rt.int('x', 0, 300)

    def chain():
        if x < 10:
            return 'a'
        elif x < 100:
            return 'b'
        return 'c'

    def table():
        for lim, r in ((10, 'a'), (100, 'b'), (1000, 'c')):
            if x < lim:
                return r

    def expr():
        return 'a' if x < 10 else 'b' if x < 100 else 'c'

    def index():
        return 'abc'[(x >= 10) + (x >= 100)]

    def nxt():
        return next(r for lim, r in [(10, 'a'), (100, 'b'), (301, 'c')]
                    if x < lim)

    def anyall():
        if any(x == i for i in range(10)):
            return 'a'
        if all([x >= 10, not x >= 100]):
            return 'b'
        return 'c'

    def rng():
        return 'a' if x in range(10) else 'b' if x in range(10, 100) else 'c'

    def forelse():
        for lim, r in ((10, 'a'), (100, 'b')):
            if x < lim:
                break
        else:
            r = 'c'
        return r

    def tryit():
        try:
            if x >= 100:
                raise KeyError('c')
            try:
                if x >= 10:
                    raise ValueError('b')
            except ValueError as e:
                return e.args[0]
            else:
                return 'a'
            finally:
                pass
        except (KeyError, IndexError) as e:
            return e.args[0]

    def whiled():
        n, y = 0, x
        while y >= 10 and n < 2:
            y //= 10
            n += 1
        return 'abc'[n]

    def minmax():
        return {10: 'a', 100: 'b', 1000: 'c'}[
            min(lim for lim in (10, 100, 1000) if x < lim)]

    def match():
        match (x < 10, x < 100):
            case (True, _):
                return 'a'
            case (_, True):
                return 'b'
            case _:
                return 'c'
    for f in (table, expr, index, nxt, anyall, rng, forelse, tryit, whiled,
              minmax, match):
        agree(rt, f.__name__, chain(), f())


def h_objects(rt):
    x, y = rt.int('x', 0, 255), rt.int('y', 0, 255)
    p = P(x, y)
    a, b = p
    d = D(x, y)
    e = E.of(x)
    u, v = e
    agree(rt, 'add', x + y, p.x + p.y, a + b, sum(p), d.total(),
          D(x=x, y=y).total(), e.v + y, u + y, v + y - 1,
          p._replace(y=0).x + y, getattr(p, 'x') + getattr(d, 'y'),
          (lambda *q, **k: q[0] + k['y'])(x, y=y),
          functools.partial(operator.add, x)(y), operator.itemgetter(0)(p) + y,
          operator.attrgetter('x')(d) + y, max(x, y) + min(x, y),
          sum(sorted([x, y])), E.twice(x) + y - x, divmod(x * 7, 7)[0] + y)
    agree(rt, 'equal', x == y, E(x) == E(y), P(x, 1) == P(y, 1),
          [x] == [y], (x, 1) == (y, 1), {'k': x} == {'k': y}, not x != y,
          D(x, 1) == D(y, 1), bytes([x]) == bytes([y]))
    o = OrderedDict(a=x)
    o['b'] = y
    q = defaultdict(list)
    q['k'].append(x)
    q['k'].append(y)
    z = dict(zip('ab', (x, y)))
    z.update(c=1)
    agree(rt, 'dicts', x + y, sum(o.values()), sum(q['k']),
          z['a'] + z.get('b', 0), z.pop('a') + z.setdefault('b', 1),
          sum({'a': x, 'b': y}.values()),
          sum(v for _, v in sorted({'a': x, 'b': y}.items())),
          sum({**{'a': x}, **{'b': y}}.values()), sum([*p]))


def h_text(rt, n):
    b = rt.bytes('b', n)
    s = b.hex()
    agree(rt, 'hex', s, ''.join('%02x' % c for c in b),
          ''.join(format(c, '02x') for c in b),
          ''.join('{:02x}'.format(c) for c in b),
          ''.join([f'{c:02x}' for c in b]),
          ''.join('0123456789abcdef'[c >> 4] + '0123456789abcdef'[c & 15]
                  for c in b), bytearray(b).hex(),
          str(b.hex()), b.hex().lower(), s.encode().decode('ascii'))
    agree(rt, 'unhex', b, bytes.fromhex(s), bytes(bytearray.fromhex(s)),
          bytes(int(s[i:i + 2], 16) for i in range(0, len(s), 2)),
          bytes.fromhex(s.upper()), bytes.fromhex(' '.join(
              s[i:i + 2] for i in range(0, len(s), 2))))


def h_bits(rt):
    x, y = rt.int('x', 0, 2 ** 32 - 1), rt.int('y', 0, 2 ** 32 - 1)
    m = 2 ** 32 - 1
    agree(rt, 'rot', ((x << 7) | (x >> 25)) & m, ((x << 7) & m) | (x >> 25),
          ((x << 7) + (x >> 25)) % 2 ** 32, ((x << 7) & m) ^ (x >> 25),
          (x & (m >> 7)) << 7 | x >> 25, (x * 128 % 2 ** 32) + x // 2 ** 25)
    agree(rt, 'xor', x ^ y, (x | y) - (x & y), (x | y) & ~(x & y),
          operator.xor(x, y))
    agree(rt, 'add', (x + y) & m, (x + y) % (m + 1),
          int.from_bytes((x + y).to_bytes(5, 'little')[:4], 'little'))


def h_lists(rt, n):
    xs = [rt.int('x%d' % i, 0, 255) for i in range(n)]
    total = 0
    for x in xs:
        total += x
    i, t2 = 0, 0
    while i < len(xs):
        t2 += xs[i]
        i += 1
    t3 = 0
    it = iter(xs)
    while True:
        try:
            t3 += next(it)
        except StopIteration:
            break

    def rec(q):
        return q[0] + rec(q[1:]) if q else 0
    acc = list(itertools.accumulate(xs))
    agree(rt, 'sum', total, sum(xs), t2, t3, rec(xs),
          functools.reduce(lambda p, q: p + q, xs, 0), acc[-1] if acc else 0,
          sum(x for x in xs if x) + sum(x for x in xs if not x),
          sum(map(int, xs)), sum(a for a, in zip(xs)), sum(xs[::-1]),
          sum(filter(None, xs)), sum(tuple(xs)), sum(list(xs) + []))
    agree(rt, 'has zero', any(x == 0 for x in xs), 0 in xs, not all(xs),
          xs.count(0) > 0, len([x for x in xs if x == 0]) > 0,
          bool([x for x in xs if not x]),
          bytes(xs).find(b'\0') >= 0, bytes(xs).count(0) != 0,
          b'\0' in bytes(xs), bool(sum(1 for x in xs if not x)))
    pad = xs + [0] * 2
    agree(rt, 'strip', bytes(pad).rstrip(b'\0'),
          bytes(xs).rstrip(b'\0'))
    agree(rt, 'pad', bytes(xs) + bytes(2), bytes(xs).ljust(n + 2, b'\0'),
          bytes(pad), bytes(xs + list(bytes(2))))


def h_count(rt):
    s = rt.text('s', 3, 'ab1')
    agree(rt, 'count', s.count('a'), len([c for c in s if c == 'a']),
          sum(c == 'a' for c in s), len(s.split('a')) - 1,
          len(s) - len(s.replace('a', '')))
    i = s.rfind('1')
    j = -1
    for k, c in enumerate(s):
        if c == '1':
            j = k
    agree(rt, 'rfind', i, j, max([k for k, c in enumerate(s) if c == '1'],
                                 default=-1))
    if '1' in s:
        a, _, b = s.rpartition('1')
        agree(rt, 'split', [s[:i], s[i + 1:]], [a, b], s.rsplit('1', 1))
    agree(rt, 'upper', s.upper(), ''.join(c.upper() for c in s))


def cases(tier):
    out = []

    def add(name, fn, **k):
        out.append(dict(name=name, fn=fn, params=k, cost=1))
    for n in range(0, 9):
        add('le-%d' % n, 'h_le', n=n)
    for n in (1, 4, 6):
        add('split-%d' % n, 'h_split', n=n)
    for n in (0, 1, 3):
        add('join-%d' % n, 'h_join', n=n)
        add('text-%d' % n, 'h_text', n=n)
        add('lists-%d' % n, 'h_lists', n=n)
    for f in ('branch', 'objects', 'bits', 'count'):
        add(f, 'h_' + f)
    return out


CASES = {'SELF': cases}
BOUNDS = {'SELF': 'the listed ways of writing'}
