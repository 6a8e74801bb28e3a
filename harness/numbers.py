'''N01 conversions, N02 VarInt, N03 ByteData'''
from harness import nettable


def ref_le(n, length):
    '''n < 256**length as little-endian byte values'''
    return [(n >> (8 * i)) & 255 for i in range(length)]


def h_unpadded(rt, bits):
    u = rt.mod('riemann.utils')
    n = rt.int('n', 0, (1 << bits) - 1)
    for name, big in (('i2le', False), ('i2be', True)):
        b = rt.do(name, getattr(u, name), n)
        b = list(b)
        if big:
            b = b[::-1]
        # shortest: the last (most significant) byte is non-zero unless n < 256
        rt.check(name + ' length', len(b) >= 1)
        total = 0
        for i in range(len(b)):
            total = total + b[i] * (256 ** i)
        rt.check(name + ' value', total == n)
        if len(b) > 1:
            rt.check(name + ' shortest', b[-1] != 0)
    le = rt.do('le2i', u.le2i, u.i2le(n))
    rt.check('le2i inverts i2le', le == n)
    be = rt.do('be2i', u.be2i, u.i2be(n))
    rt.check('be2i inverts i2be', be == n)


def h_padded(rt, length):
    u = rt.mod('riemann.utils')
    n = rt.int('n', -3, (1 << (8 * length + 4)))
    fits = rt.all([n >= 0, n < 256 ** length])
    for name, big in (('i2le_padded', False), ('i2be_padded', True)):
        k, b = rt.attempt(getattr(u, name), n, length)
        if k == 'exc':
            rt.check(name + ' refusal type', isinstance(b, OverflowError))
            rt.check(name + ' refuses only what does not fit', not fits)
        else:
            rt.check(name + ' accepts only what fits', fits)
            rt.check(name + ' length', len(b) == length)
            want = ref_le(n, length)
            if big:
                want = want[::-1]
            rt.check(name + ' bytes', b == bytes(want))
            dec = u.be2i if big else u.le2i
            rt.check(name + ' decodes', rt.do('decode', dec, b) == n)


def h_decode(rt, length):
    u = rt.mod('riemann.utils')
    b = rt.bytes('b', length)
    total = 0
    for i in range(length):
        total = total + b[i] * 256 ** i
    rt.check('le2i', rt.do('le2i', u.le2i, b) == total)
    rt.check('be2i', rt.do('be2i', u.be2i, b[::-1]) == total)
    s = total
    if length and b[length - 1] >= 128:
        s = total - 256 ** length
    rt.check('le2i signed', rt.do('le2i', u.le2i, b, True) == s)
    rt.check('be2i signed',
             rt.do('be2i', u.be2i, b[::-1], signed=True) == s)
    r = rt.do('reverse', u.change_endianness, b)
    rt.check('reverse', r == bytes([b[length - 1 - i]
                                    for i in range(length)]))
    rt.check('reverse twice',
             rt.do('reverse', u.change_endianness, r) == b)
    rt.check('argument kept', b == rt.bytes('b', length))


def h_script(rt, lo, hi):
    u = rt.mod('riemann.utils')
    n = rt.int('n', lo, hi)
    s = rt.do('i2le_script', u.i2le_script, n)
    b = list(bytes.fromhex(s))
    rt.check('lower-case hex', s == bytes(b).hex())
    rt.check('at least a byte', len(b) >= 1)
    total = 0
    for i in range(len(b)):
        total = total + b[i] * 256 ** i
    if b[-1] >= 128:
        total = total - 256 ** len(b)
    rt.check('value', total == n)
    # shortest: one byte less cannot hold n
    if len(b) > 1:
        h = 256 ** (len(b) - 1) // 2
        rt.check('shortest', rt.any([n < -h, n >= h]))


def n01(tier):
    out = []
    for bits in ([72] if tier == 'quick' else [72, 300]):
        out.append(dict(name='unpadded%d' % bits, fn='h_unpadded',
                        params=dict(bits=bits), cost=5))
    for k in range(0, 13 if tier == 'quick' else 40):
        out.append(dict(name='padded%d' % k, fn='h_padded',
                        params=dict(length=k)))
        out.append(dict(name='decode%d' % k, fn='h_decode',
                        params=dict(length=k)))
    out.append(dict(name='padded32', fn='h_padded',
                    params=dict(length=32))) if tier == 'quick' else None
    m = 1 << (48 if tier == 'quick' else 100)
    out.append(dict(name='script', fn='h_script',
                    params=dict(lo=-m, hi=m), cost=5))
    return out


CASES = {'N01': n01}
BOUNDS = {
    'N01': 'unpadded encoders: all integers below 2^72 (thorough 2^300); '
           'padded encoders: lengths 0..12 and 32 (thorough 0..39), every '
           'integer from -3 to 16 times the capacity; decoders: every byte '
           'string of 0..12 (thorough 0..39) bytes; script numbers: '
           '|n| <= 2^48 (thorough 2^100)',
}


# ---------------------------------------------------------------- N02

ZC = ('overwinter', 'sapling')


def compact_size(n):
    '''n concrete range per fork: CompactSize of an integer'''
    if n < 0xfd:
        return bytes([n])
    if n < 1 << 16:
        return b'\xfd' + bytes(ref_le(n, 2))
    if n < 1 << 32:
        return b'\xfe' + bytes(ref_le(n, 4))
    return b'\xff' + bytes(ref_le(n, 8))


def h_varint_make(rt):
    S = rt.mod('riemann.tx.shared')
    rt.mod('riemann').select_network(
        rt.choice('net', ['bitcoin_main', 'zcash_sapling_main']))
    n = rt.int('n', -5, (1 << 64) + 300)
    k, v = rt.attempt(S.VarInt, n)
    if k == 'exc':
        rt.check('refusal type', isinstance(v, ValueError))
        rt.check('refuses only outside 64 bits',
                 rt.any([n < 0, n >= 1 << 64]))
        return
    rt.check('accepts only 64-bit naturals', rt.all([n >= 0, n < 1 << 64]))
    want = compact_size(n)
    rt.check('shortest encoding', v.to_bytes() == want)
    rt.check('length', len(v) == len(want))
    rt.check('number', v.number == n)
    c = rt.do('copy', v.copy)
    rt.check('copy number', c.number == n)
    rt.check('copy bytes', c.to_bytes() == want)
    p = rt.do('parse back', S.VarInt.from_bytes, want + b'\x01\x02')
    rt.check('parsed number', p.number == n)
    rt.check('parsed bytes', p.to_bytes() == want)


def h_varint_parse(rt, net, length):
    R = rt.mod('riemann')
    S = rt.mod('riemann.tx.shared')
    R.select_network(net)
    b = rt.bytes('b', length)
    k, v = rt.attempt(S.VarInt.from_bytes, b)
    if length == 0:
        rt.check('empty refused', k == 'exc')
        return
    first = b[0]
    size = 1
    if first == 0xfd:
        size = 3
    elif first == 0xfe:
        size = 5
    elif first == 0xff:
        size = 9
    if length < size:
        rt.check('cut-off encoding refused', k == 'exc')
        return
    if size == 1:
        n = first
    else:
        n = 0
        for i in range(size - 1):
            n = n + b[1 + i] * 256 ** i
    least = {1: 0, 3: 0xfd, 5: 1 << 16, 9: 1 << 32}[size]
    strict = ZC[0] in net or ZC[1] in net
    if k == 'exc':
        rt.check('refusal type', isinstance(v, ValueError))
        rt.check('refuses only over-long on Zcash',
                 strict and n < least)
        return
    if strict:
        rt.check('over-long refused', n >= least)
    rt.check('number', v.number == n)
    rt.check('bytes consumed', v.to_bytes() == b[:size])
    rt.check('length consumed', len(v) == size)
    rt.check('copy number', rt.do('copy', v.copy).number == n)


NETS = tuple(nettable.NET)


def n02(tier):
    out = [dict(name='make', fn='h_varint_make', params={}, cost=3)]
    few = ('bitcoin_main', 'zcash_overwinter_main', 'zcash_sapling_test')
    for net in NETS:
        for k in (range(13) if net in few or tier != 'quick'
                  else (5, 9) if 'zcash' in net else (9,)):
            out.append(dict(name='parse-%s-%d' % (net, k),
                            fn='h_varint_parse',
                            params=dict(net=net, length=k)))
    return out


# ---------------------------------------------------------------- N03

def wrap(rt, S, kind, els):
    '''the bytes as bytes, bytearray, or ByteData (mutable / immutable)'''
    if kind == 'bytes':
        return els
    if kind == 'bytearray':
        return bytearray(els)
    d = S.ByteData.from_bytes(els)
    if kind == 'frozen':
        d._make_immutable()
    return d


KINDS = ('bytes', 'bytearray', 'data', 'frozen')


def content(x):
    return x.to_bytes() if hasattr(x, 'to_bytes') else bytes(x)


def h_bd_views(rt, length, kind):
    S = rt.mod('riemann.tx.shared')
    b = rt.bytes('b', length)
    d = rt.do('build', S.ByteData.from_bytes, wrap(rt, S, kind, b))
    if rt.bool('immutable'):
        d._make_immutable()
        k, e = rt.attempt(setattr, d, '_bytes', b'')
        rt.check('immutable refuses writes',
                 k == 'exc' and isinstance(e, TypeError))
    rt.check('len', len(d) == length)
    rt.check('to_bytes', d.to_bytes() == b)
    rt.check('to_bytes type', isinstance(d.to_bytes(), bytes))
    rt.check('hex', d.hex() == b.hex())
    rt.check('format x', '{:x}'.format(d) == b.hex())
    rt.check('format X', '{:X}'.format(d) == b.hex().upper())
    for i in range(-length, length):
        rt.check('item', d[i] == b[i])
    k, e = rt.attempt(lambda: d[length])
    rt.check('item past the end', k == 'exc' and isinstance(e, IndexError))
    for i in range(-1, length + 2):
        for j in range(-1, length + 2):
            rt.check('slice', bytes(d[i:j]) == b[i:j])
    rt.check('slice step', bytes(d[::-1]) == b[::-1])
    it = [x for x in d]
    rt.check('iteration length', len(it) == length)
    for i in range(len(it)):
        rt.check('iteration', it[i] == b[i])
    rt.check('hex constructor',
             S.ByteData.from_hex(b.hex()).to_bytes() == b)


def h_bd_find(rt, length, m, kind):
    S = rt.mod('riemann.tx.shared')
    b = rt.bytes('b', length)
    s = rt.bytes('s', m)
    d = S.ByteData.from_bytes(b)
    if rt.bool('immutable'):
        d._make_immutable()
    got = rt.do('find', d.find, wrap(rt, S, kind, s))
    want = -1
    for i in range(length - m, -1, -1):
        if b[i:i + m] == s:
            want = i
    rt.check('position', got == want)


def h_bd_append(rt, n, m, kind):
    S = rt.mod('riemann.tx.shared')
    a = rt.bytes('a', n)
    b = rt.bytes('b', m)
    d = S.ByteData.from_bytes(a)
    w = wrap(rt, S, kind, b)
    d += w
    rt.check('type kept', isinstance(d, S.ByteData))
    rt.check('concatenated', d.to_bytes() == a + b)
    rt.check('argument kept', content(w) == b)
    d += w
    rt.check('twice', d.to_bytes() == a + b + b)
    if kind == 'bytearray':
        w.extend(b'\x01')
        rt.check('no alias', d.to_bytes() == a + b + b)
    d += d
    rt.check('self', d.to_bytes() == (a + b + b) + (a + b + b))
    d._make_immutable()
    k, e = rt.attempt(bump, d, w)
    rt.check('immutable contents',
             d.to_bytes() == (a + b + b) + (a + b + b))
    rt.check('immutable append refused', k == 'exc')


def bump(d, w):
    d += w
    return True


def h_bd_compare(rt, n, m, kind):
    S = rt.mod('riemann.tx.shared')
    a = rt.bytes('a', n)
    b = rt.bytes('b', m)
    d = S.ByteData.from_bytes(a)
    if rt.bool('immutable'):
        d._make_immutable()
    w = wrap(rt, S, kind, b)
    e = rt.do('==', lambda: d == w)
    f = rt.do('!=', lambda: d != w)
    rt.check('equal', rt.any([rt.all([e, a == b]),
                              rt.all([not e, a != b])]))
    rt.check('differ', rt.any([rt.all([f, a != b]),
                               rt.all([not f, a == b])]))


def h_bd_refuse(rt, n):
    S = rt.mod('riemann.tx.shared')
    a = rt.bytes('a', n)
    d = S.ByteData.from_bytes(a)
    x = rt.choice('other', [0, 1, 'ab', '', None, [1, 2], (1,), 1.5, {}])
    for f in (lambda: d == x, lambda: d != x, lambda: bump(d, x)):
        k, e = rt.attempt(f)
        rt.check('TypeError', k == 'exc' and isinstance(e, TypeError))
    rt.check('unchanged', d.to_bytes() == a)
    k, e = rt.attempt(S.ByteData.validate_bytes, x, None)
    rt.check('validate refuses type', k == 'exc'
             and isinstance(e, ValueError))
    k, e = rt.attempt(S.ByteData.validate_bytes, x, n)
    rt.check('validate refuses type, length',
             k == 'exc' and isinstance(e, ValueError))


def h_bd_validate(rt, n, kind):
    S = rt.mod('riemann.tx.shared')
    w = wrap(rt, S, kind, rt.bytes('a', n))
    want = rt.int('want', 0, 2 * n + 3)
    k, e = rt.attempt(S.ByteData.validate_bytes, w, want)
    if k == 'ok':
        rt.check('accepts only the length', want == n)
    else:
        rt.check('refuses only other lengths', want != n)
        rt.check('refusal type', isinstance(e, ValueError))
    k, e = rt.attempt(S.ByteData.validate_bytes, w)
    rt.check('default length 4', (k == 'ok') == (n == 4))
    rt.do('any length', S.ByteData.validate_bytes, w, None)


def n03(tier):
    q = tier == 'quick'
    out = []
    for n in (range(5) if q else range(9)):
        for kind in KINDS:
            out.append(dict(name='views-%d-%s' % (n, kind), fn='h_bd_views',
                            params=dict(length=n, kind=kind)))
            out.append(dict(name='validate-%d-%s' % (n, kind),
                            fn='h_bd_validate',
                            params=dict(n=n, kind=kind)))
        for m in range(0, 3 if q else 4):
            for kind in KINDS:
                out.append(dict(name='find-%d-%d-%s' % (n, m, kind),
                                fn='h_bd_find',
                                params=dict(length=n, m=m, kind=kind)))
        out.append(dict(name='refuse-%d' % n, fn='h_bd_refuse',
                        params=dict(n=n)))
    for n, m in ((0, 0), (0, 1), (1, 0), (2, 3), (3, 2), (3, 3), (33, 33),
                 (32, 33)):
        for kind in KINDS:
            out.append(dict(name='append-%d-%d-%s' % (n, m, kind),
                            fn='h_bd_append',
                            params=dict(n=n, m=m, kind=kind)))
            out.append(dict(name='compare-%d-%d-%s' % (n, m, kind),
                            fn='h_bd_compare',
                            params=dict(n=n, m=m, kind=kind)))
    return out


CASES['N02'] = n02
CASES['N03'] = n03
BOUNDS['N02'] = (
    'every integer from -5 to 2^64+300; every byte string of 0..12 bytes '
    'on three networks and of 9 bytes on all %d networks (thorough: '
    '0..12 on all)' % len(NETS))
BOUNDS['N03'] = (
    'contents of 0..4 bytes (thorough 0..8), all values; slices with both '
    'ends from -1 to length+1; substrings of 0..2 (0..3) bytes; append and '
    'comparison at lengths up to 33')
