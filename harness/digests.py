'''K01: BLAKE from its specification, and the library's hash functions'''
import hashlib

# the first digits of pi
PI = [0x243F6A8885A308D3, 0x13198A2E03707344, 0xA4093822299F31D0,
      0x082EFA98EC4E6C89, 0x452821E638D01377, 0xBE5466CF34E90C6C,
      0xC0AC29B7C97C50DD, 0x3F84D5B5B5470917, 0x9216D5D98979FB1B,
      0xD1310BA698DFB5AC, 0x2FFD72DBD01ADFB7, 0xB8E1AFED6A267E96,
      0xBA7C9045F12C7F99, 0x24A19947B3916CF7, 0x0801F2E2858EFC16,
      0x636920D871574E69]
PERM = ['0123456789abcdef', 'ea489fd61c02b753', 'b8c052fdae367194',
        '7931dcbe265a40f8', '905724afe1bc683d',
        '2c6a0b834d75fe19', 'c51fed4a0763928b', 'db7ec13950f4862a',
        '6fe9b308c2d714a5', 'a2847615fb9e3cd0']
# the initial values of SHA-224, SHA-256, SHA-384 and SHA-512
INIT = {
    224: 'c1059ed8367cd5073070dd17f70e5939ffc00b316858151164f98fa7befa4fa4',
    256: '6a09e667bb67ae853c6ef372a54ff53a510e527f9b05688c1f83d9ab5be0cd19',
    384: 'cbbb9d5dc1059ed8629a292a367cd5079159015a3070dd17152fecd8f70e5939'
         '67332667ffc00b318eb44a8768581511db0c2e0d64f98fa747b5481dbefa4fa4',
    512: '6a09e667f3bcc908bb67ae8584caa73b3c6ef372fe94f82ba54ff53a5f1d36f1'
         '510e527fade682d19b05688c2b3e6c1f1f83d9abfb41bd6b5be0cd19137e2179'}


class Params:
    def __init__(self, bits):
        small = bits < 300
        self.bits = bits
        self.w = 32 if small else 64                # bits of a word
        self.rounds = 14 if small else 16
        self.rot = (16, 12, 8, 7) if small else (32, 25, 16, 11)
        self.c = ([PI[i // 2] >> (32 - 32 * (i % 2)) & 0xffffffff
                   for i in range(16)] if small else PI)
        n = self.w // 8
        raw = bytes.fromhex(INIT[bits])
        self.iv = [int.from_bytes(raw[n * i:n * i + n], 'big')
                   for i in range(8)]


def compress(p, h, block, t, salt):
    '''one block of 16 words, with counter t and salt'''
    n, w = p.w // 8, p.w
    top = 2 ** w
    m = [int.from_bytes(block[n * i:n * i + n], 'big') for i in range(16)]
    v = list(h) + list(p.c[:8])
    s4 = [int.from_bytes(salt[n * i:n * i + n], 'big') for i in range(4)]
    for i in range(4):
        v[8 + i] = v[8 + i] ^ s4[i]
    for i, x in ((12, t % top), (13, t % top), (14, t // top),
                 (15, t // top)):
        v[i] = v[i] ^ x

    def rotr(x, k):
        return (x >> k) | ((x % 2 ** k) << (w - k))

    for r in range(p.rounds):
        s = [int(x, 16) for x in PERM[r % 10]]
        for i, (a, b, c, d) in enumerate((
                (0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
                (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13),
                (3, 4, 9, 14))):
            j, k = s[2 * i], s[2 * i + 1]
            v[a] = (v[a] + v[b] + (m[j] ^ p.c[k])) % top
            v[d] = rotr(v[d] ^ v[a], p.rot[0])
            v[c] = (v[c] + v[d]) % top
            v[b] = rotr(v[b] ^ v[c], p.rot[1])
            v[a] = (v[a] + v[b] + (m[k] ^ p.c[j])) % top
            v[d] = rotr(v[d] ^ v[a], p.rot[2])
            v[c] = (v[c] + v[d]) % top
            v[b] = rotr(v[b] ^ v[c], p.rot[3])
    return [h[i] ^ v[i] ^ v[i + 8] ^ s4[i % 4] for i in range(8)]


def blake(bits, msg, salt=bytes(32)):
    p = Params(bits)
    n, block = p.w // 8, p.w * 2
    size = len(msg)
    # 1, zeroes, 1 (0 for the cut-off sizes), length in bits
    pad = block - (size + 2 * n) % block
    last = 1 if bits in (256, 512) else 0
    padded = msg + (bytes([128 + last]) if pad == 1 else
                    b'\x80' + bytes(pad - 2) + bytes([last])) \
        + (8 * size).to_bytes(2 * n, 'big')
    h = p.iv
    for i in range(0, len(padded), block):
        # bits of the message hashed so far; 0 for blocks without any
        t = 8 * min(i + block, size) if i < size else 0
        h = compress(p, h, padded[i:i + block], t, salt)
    return b''.join([x.to_bytes(n, 'big') for x in h])[:bits // 8]


def engine(rt, bits):
    return rt.mod('riemann.blake256').BLAKE(bits)


def h_blake(rt, bits, n):
    '''in one piece; finalising again'''
    m = rt.bytes('msg', n) if n else b''
    want = blake(bits, m)
    o = engine(rt, bits)
    rt.check('digest', rt.do('digest', o.digest, m) == want)
    rt.check('again', rt.do('again', o.digest) == want)
    rt.check('final again', rt.do('again', o.final) == want)
    rt.check('hex', rt.do('hex', o.hexdigest) == want.hex())


def h_split(rt, bits, cuts, last):
    '''in several pieces, the last one with final() or before'''
    n = sum(cuts)
    m = rt.bytes('msg', n)
    want = blake(bits, m)
    o = engine(rt, bits)
    at = 0
    for i, k in enumerate(cuts):
        piece = m[at:at + k]
        at += k
        if last and i == len(cuts) - 1:
            rt.check('digest', rt.do('digest', o.final, piece) == want)
        else:
            rt.do('update', o.update, piece)
    rt.check('digest at the end', rt.do('digest', o.digest) == want)
    rt.check('twice', rt.do('digest', o.digest) == want)


def h_kinds(rt, bits, n):
    '''bytearrays, which may change afterwards'''
    b = rt.bytearray('msg', n)
    want = blake(bits, bytes(b))
    o = engine(rt, bits)
    rt.do('update', o.update, b)
    b[0] = b[0] ^ 255
    rt.check('digest', rt.do('digest', o.digest) == want)


def h_text(rt, bits, n, at, sign):
    '''text counts as its UTF-8 bytes'''
    t = rt.text('text', n)
    t = t[:at] + sign + t[at:]
    o = engine(rt, bits)
    rt.do('update', o.update, t)
    rt.check('digest', rt.do('digest', o.digest)
             == blake(bits, t.encode('utf-8')))


def h_fresh(rt, bits, a, b):
    '''one hash leaves no trace on the next'''
    m1, m2 = rt.bytes('first', a), rt.bytes('second', b)
    o1 = engine(rt, bits)
    rt.do('update', o1.update, m1)
    o2 = engine(rt, bits)
    rt.do('update', o2.update, m2)
    rt.check('second', rt.do('digest', o2.digest) == blake(bits, m2))
    rt.check('first', rt.do('digest', o1.digest) == blake(bits, m1))


def h_salt(rt, bits, n, k, cut):
    '''salted; short salts are filled up at the front, long ones cut'''
    size = 16 if bits < 300 else 32
    m = rt.bytes('msg', n) if n else b''
    salt = rt.bytes('salt', k) if k else b''
    full = (bytes(size) + salt)[-size:]
    o = engine(rt, bits)
    rt.do('addsalt', o.addsalt, salt)
    rt.do('update', o.update, m[:cut])
    rt.check('digest', rt.do('digest', o.digest, m[cut:])
             == blake(bits, m, full))


def h_late_salt(rt, bits):
    o = engine(rt, bits)
    rt.do('update', o.update, b'a')
    k, _ = rt.attempt(o.addsalt, bytes(32))
    rt.check('refused', k == 'exc')


def h_sizes(rt):
    n = rt.choice('size', [0, 1, 160, 225, 255, 257, 320, 1024])
    k, _ = rt.attempt(engine, rt, n)
    rt.check('refused', k == 'exc')


def h_utils(rt, net, n, mutable):
    rt.mod('riemann').select_network(net)
    u = rt.mod('riemann.utils')
    m = rt.bytearray('msg', n) if mutable else \
        rt.bytes('msg', n) if n else b''
    dec = net.startswith('decred')

    def ripe(x):
        h = hashlib.new('ripemd160')
        h.update(x)
        return h.digest()

    def sha(x):
        return hashlib.sha256(x).digest()

    def b256(x):
        return blake(256, x)
    first = b256 if dec else sha
    raw = bytes(m)
    rt.check('sha256', rt.do('sha256', u.sha256, m) == sha(raw))
    rt.check('rmd160', rt.do('rmd160', u.rmd160, m) == ripe(raw))
    rt.check('hash160', rt.do('hash160', u.hash160, m) == ripe(first(raw)))
    rt.check('hash256', rt.do('hash256', u.hash256, m) == first(first(raw)))
    if dec:
        rt.check('blake256', rt.do('blake256', u.blake256, m) == b256(raw))
    for f, g in ((u.blake2b, hashlib.blake2b), (u.blake2s, hashlib.blake2s)):
        for kw in ({}, {'digest_size': 32}, {'digest_size': 32,
                                             'person': b'ZcashSig'},
                   {'key': b'key', 'salt': b'saltsalt'}):
            rt.check('blake2', rt.do('blake2', f, m, **kw)
                     == g(raw, **kw).digest())
            rt.check('blake2 named', rt.do('blake2', f, data=m, **kw)
                     == g(raw, **kw).digest())
        rt.check('blake2 of nothing', rt.do('blake2', f, digest_size=20)
                 == g(b'', digest_size=20).digest())


def k01(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, cost=1, **k):
        out.append(dict(name=name, fn=fn, params=k, cost=cost,
                        real_blake=True))
    for b in (224, 256, 384, 512):
        s = b < 300
        block = 64 if s else 128
        e = block - block // 8 - 1      # 55 or 111 bytes fit one block
        if q:
            ns = {256: [0, 1, 8, 54, 55, 56, 63, 64, 65, 119, 120, 128, 183],
                  224: [1, 55, 56, 64],
                  512: [0, 2, 110, 111, 112, 127, 128, 239],
                  384: [1, 111, 112, 128]}[b]
        else:
            ns = range(0, 3 * block + 1)
        for n in ns:
            add('blake-%d-%d' % (b, n), 'h_blake', bits=b, n=n,
                cost=(1 + (n + e // 7) // block) * (1 if s else 3))
        splits = [[1, e - 1], [block - 1, 1, 0], [3, block - 3, 5],
                  [block - 1, 2], [0, block, 0], [1, block + e],
                  [e, 1], [block + 1, block - 1]]
        if q:
            splits = splits[:{256: 8, 224: 1, 512: 4, 384: 1}[b]]
        else:
            splits += [[1, e], [block, 0], [block, 1], [e, block - e, e],
                       [1, 1, 1, 1], [5, 2 * block, 3]]
            splits += [[a, c - a] for c in (e, e + 1, block, block + 1)
                       for a in range(0, c + 1)]
            splits += [[a, x, c] for a in (1, e, block - 1, block)
                       for x in (0, 1, block - 1, block)
                       for c in (0, 1, e)]
            splits += [[1] * (block + 1), [7] * 30]
        for i, c in enumerate(splits):
            for last in (False, True) if not q else (i % 2 == 0,):
                add('split-%d-%s-%s' % (b, '.'.join([str(x) for x in c])[:60],
                                        last), 'h_split', bits=b,
                    cuts=list(c), last=last,
                    cost=(2 + sum(c) // block) * (1 if s else 3))
        add('bytearray-%d' % b, 'h_kinds', bits=b, n=7)
        if not q or b == 256:
            add('bytearray-block-%d' % b, 'h_kinds', bits=b, n=block + 1)
        if not q or b in (256, 384):
            add('fresh-%d' % b, 'h_fresh', bits=b, a=3, b=block + 3, cost=6)
        for n, at in ((3, 1), (e - 1, 0), (block - 1, block - 1)) \
                if not q else ((2, 1),) if b in (256, 512) else ():
            for i, sign in enumerate(['', 'é', '₿', '🜁', 'éé']):
                add('text-%d-%d-%d' % (b, n, i), 'h_text', bits=b, n=n,
                    at=at, sign=sign, cost=2 if s else 5)
        size = 16 if s else 32
        for n, k in ((3, size), (1, 1), (block + 3, size), (1, size + 1),
                     (1, 0), (1, size - 1), (0, size))[:99 if not q else
                                                       4 if s else 2]:
            add('salt-%d-%d-%d' % (b, n, k), 'h_salt', bits=b, n=n, k=k,
                cut=n // 2, cost=2)
        add('late-salt-%d' % b, 'h_late_salt', bits=b)
    add('sizes', 'h_sizes')
    from harness import nettable
    for net in nettable.NET:
        for n in (0, 33) if q else (0, 1, 20, 33, 55, 56, 64, 65):
            for m in (False, True) if n else (False,):
                add('utils-%s-%d-%s' % (net, n, m), 'h_utils', net=net, n=n,
                    mutable=m)
    return out


CASES = {'K01': k01}
BOUNDS = {
    'K01': 'BLAKE-224/256/384/512 executed symbolically (all rounds) and '
           'compared with a separate implementation of the specification, '
           'for every content of 4 to 13 message sizes per digest size '
           'around the padding and block boundaries, up to 183 (239) bytes '
           '(thorough: every size up to 3 blocks), 14 ways of splitting '
           '(thorough hundreds), salts of 0..17 (33) bytes; the equality '
           'is decided on the normal form of the terms, and by Z3 only '
           'where the forms differ; utils on all 72 networks, 0 and 33 '
           'bytes (thorough 8 sizes up to 65), SHA-256, RIPEMD-160 and '
           'BLAKE2 as uninterpreted functions of data and keywords',
}
