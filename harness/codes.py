'''E01 base58, E02 bech32, E04 cash addresses: exact codes both ways'''
from harness import nettable

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
B32 = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
V58 = tuple(B58.find(chr(c)) for c in range(128))
V32 = tuple(B32.find(chr(c)) for c in range(128))


def attr(net, name):
    return nettable.NET[net].get(name, nettable.BASE[name])


# ------------------------------------------------------------------- base58

def check_numeral(rt, label, data, s):
    '''s is the base58 numeral of the bytes: leading zeros are ones'''
    v = 0
    for b in data:
        v = v * 256 + b
    w = 0
    oks = []
    digits = []
    for c in s:
        d = V58[ord(c)]
        oks.append(d >= 0)
        digits.append(d)
        w = w * 58 + d
    rt.check(label + ': characters', rt.all(oks))
    rt.check(label + ': value', w == v)
    z = 0
    while z < len(data) and data[z] == 0:
        z += 1
    rt.check(label + ': leading zeros',
             rt.all([d == 0 for d in digits[:z]]))
    if z < len(digits):
        rt.check(label + ': no more leading zeros', digits[z] != 0)
    rt.check(label + ': no shorter than the zeros', len(digits) >= z)


def h_b58_encode(rt, net, n, checksum, zeros):
    rt.mod('riemann').select_network(net)
    b58 = rt.mod('riemann.encoding.base58')
    u = rt.mod('riemann.utils')
    data = b'\0' * zeros + rt.bytes('data', n)
    s = rt.do('encode', b58.encode, data, checksum)
    if checksum:
        full = data + u.hash256(data)[:4]
        rt.check('alias', b58.encode_with_checksum(data) == s)
    else:
        full = data
    check_numeral(rt, 'encoding', full, s)
    rt.check('decodes to the data',
             rt.do('decode', b58.decode, s, checksum) == data)
    if checksum:
        rt.check('decodes by default', b58.decode(s) == data)
        rt.check('alias decodes', b58.decode_with_checksum(s) == data)
        rt.check('has a checksum', b58.has_checksum(s) is True)


def h_b58_tail(rt, net, n):
    '''any four bytes in the place of the checksum'''
    rt.mod('riemann').select_network(net)
    b58 = rt.mod('riemann.encoding.base58')
    u = rt.mod('riemann.utils')
    data = rt.bytes('data', n)
    tail = rt.bytes('tail', 4)
    s = rt.do('encode', b58.encode, data + tail, False)
    good = tail == u.hash256(data)[:4]
    k, v = rt.attempt(b58.decode, s)
    h = rt.do('predicate', b58.has_checksum, s)
    if k == 'ok':
        rt.check('accepts only the checksum', good)
        rt.check('gives the data', v == data)
        rt.check('predicate agrees', h is True)
    else:
        rt.check('refuses only a wrong checksum', not good)
        rt.check('refusal type', isinstance(v, ValueError))
        rt.check('predicate agrees', h is False)


def h_b58_text(rt, net, n, alphabet):
    '''any string'''
    rt.mod('riemann').select_network(net)
    b58 = rt.mod('riemann.encoding.base58')
    u = rt.mod('riemann.utils')
    s = rt.text('s', n, B58 if alphabet else None)
    fine = rt.all([V58[ord(c)] >= 0 for c in s])
    k, v = rt.attempt(b58.decode, s, False)
    if k == 'exc':
        rt.check('refusal type', isinstance(v, ValueError))
        rt.check('refuses only bad characters', not fine)
        k, v = rt.attempt(b58.decode, s)
        rt.check('refused with checksum', k == 'exc'
                 and isinstance(v, ValueError))
        rt.check('no checksum', rt.do('pred', b58.has_checksum, s) is False)
        return
    rt.check('accepts only the alphabet', fine)
    check_numeral(rt, 'value', v, s)
    rt.check('re-encodes', rt.do('encode', b58.encode, v, False) == s)
    k, w = rt.attempt(b58.decode, s, True)
    want = rt.all([len(v) >= 4, u.hash256(v[:-4])[:4] == v[-4:]])
    h = rt.do('pred', b58.has_checksum, s)
    if k == 'ok':
        rt.check('accepts only the checksum', want)
        rt.check('gives the data', w == v[:-4])
        rt.check('predicate agrees', h is True)
    else:
        rt.check('refuses only a wrong checksum', not want)
        rt.check('refusal type', isinstance(w, ValueError))
        rt.check('predicate agrees', h is False)


def e01(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, cost=1, **k):
        out.append(dict(name=name, fn=fn, params=k, cost=cost))
    nets = ['bitcoin_main', 'decred_main']
    for n in list(range(0, 9)) + [20, 21, 22] + (
            [] if q else list(range(9, 20)) + [25, 32, 33, 40]):
        add('plain-%d' % n, 'h_b58_encode', net=nets[0], n=n,
            checksum=False, zeros=0, cost=n)
    for net in nets:
        for n in list(range(0, 5)) + [21, 22] + (
                [] if q else list(range(5, 21)) + [33, 34]):
            add('%s-check-%d' % (net, n), 'h_b58_encode', net=net, n=n,
                checksum=True, zeros=0, cost=n)
        for n in (0, 1, 2, 5, 21, 22):
            add('%s-tail-%d' % (net, n), 'h_b58_tail', net=net, n=n, cost=n)
    for n in range(0, 4 if q else 6):
        add('text-%d' % n, 'h_b58_text', net=nets[0], n=n, alphabet=False,
            cost=n)
    for n in list(range(4, 9)) + ([] if q else [10, 15, 20, 30, 34]):
        add('digits-%d' % n, 'h_b58_text', net=nets[0], n=n, alphabet=True,
            cost=n)
    return out



# ------------------------------------------------------------------- bech32
# The reference works on lists of 5-bit symbols; the checksum is computed as
# the remainder of a polynomial over GF(32), one bit-plane table per symbol.

BECH_G = (0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)
CASH_G = (0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8,
          0x1e4f43e470)


def remainder(gen, n, symbols):
    '''symbols (most significant first) modulo the generator, degree n'''
    top = 5 * (n - 1)
    c = 1
    for s in symbols:
        t = c >> top
        c = ((c & ((1 << top) - 1)) << 5) ^ s
        for i in range(5):
            c = c ^ (gen[i] * ((t >> i) & 1))
    return c


def bech_expand(hrp):
    o = [ord(c) for c in hrp]
    return [c >> 5 for c in o] + [0] + [c & 31 for c in o]


def cash_expand(prefix):
    return [ord(c) & 31 for c in prefix] + [0]


def regroup(els, a, b, pad):
    '''(groups of b bits, leftover bits as a number, their count)'''
    total = 0
    for e in els:
        total = (total << a) | e
    bits = a * len(els)
    over = bits % b
    if pad and over:
        total = total << (b - over)
        bits += b - over
        over = 0
    left = total & ((1 << over) - 1)
    out = []
    n = bits // b
    for i in range(n):
        out.append((total >> (over + b * (n - 1 - i))) & ((1 << b) - 1))
    return out, left, over


def split_symbols(c, n):
    return [(c >> (5 * (n - 1 - i))) & 31 for i in range(n)]


def bech_ref(hrp, ver, prog):
    data = [ver] + regroup(prog, 8, 5, True)[0]
    c = remainder(BECH_G, 6, bech_expand(hrp) + data + [0] * 6) ^ 1
    return data + split_symbols(c, 6)


def symbols_of(text):
    return [V32[ord(c)] for c in text]


def h_bech_encode(rt, net, n, lo, hi):
    riemann = rt.mod('riemann')
    riemann.select_network(net)
    b32 = rt.mod('riemann.encoding.bech32')
    hrp = attr(net, 'BECH32_HRP')
    ver = rt.int('ver', lo, hi)
    prog = rt.bytes('prog', n)
    mid = rt.int('len', 0, 255)
    raw = bytes([ver, mid]) + prog
    if hrp is None:
        k, v = rt.attempt(b32.encode, raw)
        rt.check('refused without bech32', k == 'exc'
                 and isinstance(v, ValueError))
        k, v = rt.attempt(b32.decode, 'bc1qw508d6qejxtdg4y5r3zarvary0c5xw7k'
                          'v8f3t4')
        rt.check('decoding refused', k == 'exc' and isinstance(v, ValueError))
        return
    valid = rt.all([ver <= 16, n >= 2, n <= 40,
                    rt.any([ver != 0, n == 20, n == 32]),
                    len(hrp) + 8 + (8 * n + 4) // 5 <= 90])
    k, s = rt.attempt(b32.encode, raw)
    if k == 'exc' or s is None:
        rt.check('only invalid programs have no address', not valid)
        return
    rt.check('only valid programs have an address', valid)
    ref = bech_ref(hrp, ver, list(prog))
    rt.check('form', s[:len(hrp) + 1] == hrp + '1')
    body = s[len(hrp) + 1:]
    rt.check('length', len(body) == len(ref))
    for i in range(len(ref)):
        rt.check('symbol', V32[ord(body[i])] == ref[i])
    want = bytes([ver, n]) + prog
    rt.check('decodes', rt.do('decode', b32.decode, s) == want)
    rt.check('decodes in upper case',
             rt.do('decode upper', b32.decode, s.upper()) == want)
    rt.check('low level encode', b32.segwit_encode(hrp, ver, prog) == s)
    v, p = rt.do('low level decode', b32.segwit_decode, hrp, s)
    rt.check('low level version', v == ver)
    rt.check('low level program', bytes(p) == prog)


def bech_valid(rt, hrp, s):
    '''BIP173, on a string of concrete length'''
    n = len(hrp) + 1
    if len(s) < n + 7 or len(s) > 90:
        return False
    o = [ord(c) for c in s]
    up = rt.any([rt.all([c >= 65, c <= 90]) for c in o])
    low = rt.any([rt.all([c >= 97, c <= 122]) for c in o])
    head = []
    for c, h in zip(o[:n], hrp + '1'):
        head.append(rt.any([c == ord(h), c == ord(h.upper())]))
    d = [LOW32[c] for c in o[n:]]
    conds = [not rt.all([up, low])] + head + [x >= 0 for x in d]
    if not rt.all(conds):
        return False
    if not remainder(BECH_G, 6, bech_expand(hrp) + d) == 1:
        return False
    groups, left, over = regroup(d[1:-6], 5, 8, False)
    m = len(groups)
    return rt.all([d[0] <= 16, m >= 2, m <= 40, over < 5, left == 0,
                   rt.any([d[0] != 0, m == 20, m == 32])])


LOW32 = tuple(B32.find(chr(c).lower()) for c in range(128))


def h_bech_decode(rt, net, n, free, alphabet):
    '''the prefix (unless free) and n characters'''
    riemann = rt.mod('riemann')
    riemann.select_network(net)
    b32 = rt.mod('riemann.encoding.bech32')
    hrp = attr(net, 'BECH32_HRP')
    alpha = {'low': B32, 'both': B32 + B32.upper(), 'any': None}[alphabet]
    t = rt.text('t', n, alpha)
    s = t if free else hrp + '1' + t
    k, v = rt.attempt(b32.decode, s)
    valid = bech_valid(rt, hrp, s)
    if k == 'exc':
        rt.check('refuses only invalid strings', not valid)
        return
    rt.check('accepts only valid strings', valid)
    d = [LOW32[ord(c)] for c in s[len(hrp) + 1:]]
    groups = regroup(d[1:-6], 5, 8, False)[0]
    rt.check('value', v == bytes([d[0], len(groups)] + groups))
    rt.check('re-encodes', rt.do('encode', b32.encode, v) == s.lower())


def e02(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, cost=1, **k):
        out.append(dict(name=name, fn=fn, params=k, cost=cost))
    nets = [n for n in nettable.NET if attr(n, 'BECH32_HRP')]
    lens = [0, 1, 2, 3, 19, 20, 21, 32, 40, 41] if q else range(0, 44)
    for n in lens:
        add('encode-%d' % n, 'h_bech_encode', net='bitcoin_main', n=n, lo=0,
            hi=31)
    for n in (2, 20, 32) if q else (2, 10, 20, 32, 40, 41, 64, 80):
        add('encode-any-version-%d' % n, 'h_bech_encode', net='bitcoin_main',
            n=n, lo=0, hi=255)
    for net in nets:
        for n in (20, 32, 40):
            add('encode-%s-%d' % (net, n), 'h_bech_encode', net=net, n=n,
                lo=0, hi=16)
    for net in nettable.NET:
        if net not in nets:
            add('none-%s' % net, 'h_bech_encode', net=net, n=20, lo=0, hi=16)
    for n in (0, 6, 7, 8, 11, 12, 39, 40, 59) if q else range(0, 92):
        add('decode-%d' % n, 'h_bech_decode', net='bitcoin_main', n=n,
            free=False, alphabet='low', cost=n)
    for n in (11, 39) if q else (8, 11, 12, 39, 40, 59, 71):
        add('decode-case-%d' % n, 'h_bech_decode', net='bitcoin_main', n=n,
            free=False, alphabet='both', cost=n)
    for n in (7, 8) if q else range(5, 15):
        add('decode-any-%d' % n, 'h_bech_decode', net='bitcoin_main', n=n,
            free=False, alphabet='any', cost=n)
    for n in (0, 1, 8, 9, 10) if q else range(0, 15):
        add('decode-free-%d' % n, 'h_bech_decode', net='bitcoin_main', n=n,
            free=True, alphabet='any', cost=n)
    for net in nets:
        add('decode-%s' % net, 'h_bech_decode', net=net, n=39, free=False,
            alphabet='low', cost=39)
    return out


# ----------------------------------------------------------- cash addresses

def cash_ref(prefix, payload):
    data = regroup(payload, 8, 5, True)[0]
    c = remainder(CASH_G, 8, cash_expand(prefix) + data + [0] * 8) ^ 1
    return data + split_symbols(c, 8)


def h_cash_encode(rt, net, n):
    riemann = rt.mod('riemann')
    riemann.select_network(net)
    cash = rt.mod('riemann.encoding.cashaddr')
    prefix = attr(net, 'CASHADDR_PREFIX')
    raw = rt.bytes('raw', n)
    if prefix is None:
        k, v = rt.attempt(cash.encode, raw)
        rt.check('refused', k == 'exc' and isinstance(v, ValueError))
        k, v = rt.attempt(cash.decode, 'bitcoincash:qpm2qsznhks23z7629mms6s4'
                          '8cwef74vcwvy22gdx6a')
        rt.check('decoding refused', k == 'exc' and isinstance(v, ValueError))
        return
    s = rt.do('encode', cash.encode, raw)
    ref = cash_ref(prefix, list(raw))
    rt.check('form', s[:len(prefix) + 1] == prefix + ':')
    body = s[len(prefix) + 1:]
    rt.check('length', len(body) == len(ref))
    for i in range(len(ref)):
        rt.check('symbol', V32[ord(body[i])] == ref[i])
    rt.check('decodes', rt.do('decode', cash.decode, s) == raw)


def cash_valid(rt, prefix, s):
    n = len(prefix) + 1
    if len(s) < n + 8:
        return False
    d = [V32[ord(c)] for c in s[n:]]
    if not rt.all([s[:n] == prefix + ':'] + [x >= 0 for x in d]):
        return False
    if not remainder(CASH_G, 8, cash_expand(prefix) + d) == 1:
        return False
    left, over = regroup(d[:-8], 5, 8, False)[1:]
    return rt.all([over < 5, left == 0])


def h_cash_decode(rt, net, n, free, alphabet, head=None):
    riemann = rt.mod('riemann')
    riemann.select_network(net)
    cash = rt.mod('riemann.encoding.cashaddr')
    prefix = attr(net, 'CASHADDR_PREFIX')
    t = rt.text('t', n, {'low': B32, 'any': None}[alphabet])
    s = t if free else (head or prefix + ':') + t
    k, v = rt.attempt(cash.decode, s)
    valid = cash_valid(rt, prefix, s)
    if k == 'exc':
        rt.check('refuses only invalid strings', not valid)
        rt.check('refusal type', isinstance(v, ValueError))
        return
    rt.check('accepts only valid strings', valid)
    d = [V32[ord(c)] for c in s[len(prefix) + 1:]]
    rt.check('value', v == bytes(regroup(d[:-8], 5, 8, False)[0]))
    rt.check('re-encodes', rt.do('encode', cash.encode, v) == s)


def e04(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, cost=1, **k):
        out.append(dict(name=name, fn=fn, params=k, cost=cost))
    nets = [n for n in nettable.NET if attr(n, 'CASHADDR_PREFIX')]
    for net in nets:
        for n in (list(range(0, 11)) + [20, 21, 25, 29, 33, 65]) if q \
                else range(0, 66):
            add('encode-%s-%d' % (net, n), 'h_cash_encode', net=net, n=n,
                cost=n)
    for net in nettable.NET:
        if net not in nets:
            add('none-%s' % net, 'h_cash_encode', net=net, n=21)
    for net in nets:
        for n in ([0, 7, 8, 9, 10, 12, 40, 41, 42, 43, 44] if q
                  else range(0, 80)):
            add('decode-%s-%d' % (net, n), 'h_cash_decode', net=net, n=n,
                free=False, alphabet='low', cost=n)
        for n in (3, 9, 10):
            add('decode-any-%s-%d' % (net, n), 'h_cash_decode', net=net, n=n,
                free=False, alphabet='any', cost=n)
        for n in range(0, 6 if q else 10):
            add('decode-free-%s-%d' % (net, n), 'h_cash_decode', net=net,
                n=n, free=True, alphabet='any', cost=n)
        p = attr(net, 'CASHADDR_PREFIX')
        for h in (p + 'q:', p + '::', 'q' + p + ':', p, p[:-1] + ':',
                  p.upper() + ':', ':' + p + ':', p + ' :'):
            for n in (8, 42):
                add('head-%s-%s-%d' % (net, h, n), 'h_cash_decode', net=net,
                    n=n, free=False, alphabet='low', head=h, cost=n)
    return out


# ------------------------------------------------------- detection of errors

def h_errors(rt, net, kind, n, tuples):
    '''a valid address, then other characters at the given places'''
    riemann = rt.mod('riemann')
    riemann.select_network(net)
    s, head, codec = valid_address(rt, net, kind, n)
    old = [V32[ord(c)] for c in s[head:]]
    for num, places in enumerate(tuples):
        t = list(s)
        for p in places:
            d = rt.int('d%d.%d' % (num, p), 1, 31)
            t[head + p] = B32[old[p] ^ d]
        k, v = rt.attempt(codec.decode, ''.join(t))
        rt.check('detected', k == 'exc')


def h_swaps(rt, net, kind, n, places):
    riemann = rt.mod('riemann')
    riemann.select_network(net)
    s, head, codec = valid_address(rt, net, kind, n)
    p = head + rt.choice('place', places)
    rt.assume(s[p] != s[p + 1])
    t = s[:p] + s[p + 1] + s[p] + s[p + 2:]
    k, v = rt.attempt(codec.decode, t)
    rt.check('detected', k == 'exc')


def h_foreign(rt, net, kind, n, others):
    '''an address, or its data under another prefix, on another network'''
    riemann = rt.mod('riemann')
    riemann.select_network(net)
    s, head, codec = valid_address(rt, net, kind, n)
    key = {'bech32': 'BECH32_HRP', 'cash': 'CASHADDR_PREFIX'}[kind]
    mark = s[head - 1]
    for o in others:
        riemann.select_network(o)
        k, v = rt.attempt(codec.decode, s)
        rt.check('not on another network', k == 'exc')
        k, v = rt.attempt(codec.decode, attr(o, key) + mark + s[head:])
        rt.check('not under another prefix', k == 'exc')
        riemann.select_network(net)
        k, v = rt.attempt(codec.decode, attr(o, key) + mark + s[head:])
        rt.check('not with another prefix', k == 'exc')


def valid_address(rt, net, kind, n):
    if kind == 'cash':
        codec = rt.mod('riemann.encoding.cashaddr')
        s = codec.encode(rt.bytes('raw', n))
        return s, len(attr(net, 'CASHADDR_PREFIX')) + 1, codec
    codec = rt.mod('riemann.encoding.bech32')
    prog = rt.bytes('prog', n)
    ver = 0 if n in (20, 32) else rt.int('ver', 1, 16)
    s = codec.encode(bytes([ver, n]) + prog)
    return s, len(attr(net, 'BECH32_HRP')) + 1, codec


def e03(tier):
    from itertools import combinations
    q = tier == 'quick'
    out = []

    def add(name, fn, cost=1, **k):
        out.append(dict(name=name, fn=fn, params=k, cost=cost))

    def errors(net, kind, n, size, weight, step=1):
        ts = [list(c) for c in combinations(range(size), weight)][::step]
        for i in range(0, len(ts), 60):
            add('%s-%s-%d-x%d-%d' % (kind, net, n, weight, i), 'h_errors',
                net=net, kind=kind, n=n, tuples=ts[i:i + 60], cost=size)
    b, c = 'bitcoin_main', 'bitcoin_cash_main'
    for n, size in ((2, 11), (20, 39), (32, 59)) if q else (
            (2, 11), (20, 39), (32, 59), (40, 71)):
        errors(b, 'bech32', n, size, 1)
        errors(b, 'bech32', n, size, 2, 1 if n < 32 or not q else 5)
        errors(b, 'bech32', n, size, 3, {2: 1, 20: 37, 32: 331}[n] if q
               else {2: 1, 20: 1, 32: 4, 40: 16}[n])
    for n, size in ((1, 10), (21, 42)) if q else ((1, 10), (21, 42),
                                                  (33, 61)):
        errors(c, 'cash', n, size, 1)
        errors(c, 'cash', n, size, 2, 1 if n < 21 or not q else 3)
    bnets = [x for x in nettable.NET if attr(x, 'BECH32_HRP')]
    cnets = [x for x in nettable.NET if attr(x, 'CASHADDR_PREFIX')]
    for kind, net, ns in (('bech32', b, (2, 20) if q else (
                              2, 10, 20, 32, 40)),
                          ('cash', c, (1, 21) if q else (1, 5, 20, 21, 33))):
        for n in ns:
            size = {'bech32': 7, 'cash': 8}[kind] + (8 * n + 4) // 5
            for i in range(0, size - 1, 8):
                add('swap-%s-%d-%d' % (kind, n, i), 'h_swaps', net=net,
                    kind=kind, n=n, cost=3 * n,
                    places=list(range(i, min(i + 8, size - 1))))
    bnets = [x for x in nettable.NET if attr(x, 'BECH32_HRP')]
    cnets = [x for x in nettable.NET if attr(x, 'CASHADDR_PREFIX')]
    for nets, key, kind, n in (
            (bnets, 'BECH32_HRP', 'bech32', 2 if q else 20),
            (cnets, 'CASHADDR_PREFIX', 'cash', 2 if q else 21)):
        for net in nets:
            others = [o for o in nets if attr(o, key) != attr(net, key)]
            add('foreign-%s-%s' % (kind, net), 'h_foreign', net=net,
                kind=kind, n=n, others=others)
    return out


CASES = {'E01': e01, 'E02': e02, 'E03': e03, 'E04': e04}
BOUNDS = {
    'E01': 'every byte string of 0-8 and 20-22 bytes (thorough 0-25, 32-34, '
           '40) and any four checksum bytes after 0-22; every ASCII string '
           'of 0-3 (thorough 5) and every base58 string of 4-8 (thorough '
           '34) characters; the SHA-256 and the Decred checksum',
    'E02': 'every witness version (all bytes) with every program of 0-3, '
           '19-21, 32, 40, 41 bytes (thorough 0-43); every string of the '
           'network prefix and 0-59 charset characters at nine lengths '
           '(thorough 0-91, all), either case at 11 and 39, any ASCII at 7, '
           '8 and free strings of 0-10 (thorough 14); all bech32 networks '
           'at 20, 32, 40 program bytes and 39 data characters',
    'E03': 'valid addresses of every program of 2, 20, 32 (thorough 40) bytes '
           '(versions 0 or 1-16) and every cash payload of 1, 21 (33) '
           'bytes; all symbolic replacements at every single place, every '
           'pair of places (quick: every fifth at 32 bytes, every third in '
           'cash addresses) and every triple for 2 bytes, a sample of the '
           'triples for 20 and 32 (thorough: all for 20); all adjacent '
           'swaps; every ordered pair of networks with different prefixes',
    'E04': 'every byte string of 0-10, 20, 21, 25, 29, 33, 65 bytes '
           '(thorough 0-65); every string of the prefix and charset '
           'characters at 11 lengths up to 44 (thorough 0-79), any ASCII at '
           '3, 9, 10, free strings of 0-5 (thorough 9), 8 wrong prefixes; '
           'all three networks, all others refuse',
}
