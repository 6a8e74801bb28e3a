'''S01 serialize, S02 deserialize'''
from harness import optable, nettable


def ref_push(d):
    n = len(d)
    if n <= 75:
        return bytes([n]) + d
    if n <= 255:
        return b'\x4c' + bytes([n]) + d
    return b'\x4d' + bytes([n % 256, n // 256]) + d


def check_same(rt, label, ser, text, want):
    '''want: bytes, or the exception type expected'''
    k, v = rt.attempt(ser.serialize, text)
    k2, v2 = rt.attempt(ser.hex_serialize, text)
    if isinstance(want, bytes):
        rt.check(label + ' accepted', k == 'ok')
        rt.check(label + ' hex accepted', k2 == 'ok')
        if k == 'ok':
            rt.check(label + ' bytes', bytes(v) == want)
        if k2 == 'ok':
            rt.check(label + ' hex', v2 == want.hex())
    else:
        rt.check(label + ' refused', k == 'exc' and isinstance(v, want))
        rt.check(label + ' hex refused', k2 == 'exc'
                 and isinstance(v2, want))


def h_ops(rt, net, m, sep):
    rt.mod('riemann').select_network(net)
    ser = rt.mod('riemann.script.serialization')
    names = optable.names(net)
    table = list(names)
    want = []
    toks = []
    err = None
    for i in range(m):
        t = table[rt.int('op%d' % i, 0, len(table) - 1)]
        toks.append(t)
        if err is None:
            if t == 'OP_CODESEPARATOR' or t == 'OP_PUSHDATA4':
                err = NotImplementedError
            else:
                want.append(names[t])
    text = sep.join(toks)
    check_same(rt, 'opcodes', ser, text, err or bytes(want))


def h_bad(rt, net):
    rt.mod('riemann').select_network(net)
    ser = rt.mod('riemann.script.serialization')
    bad = ['OP_NOTAREALOPCODE', 'OP_PUSH_0', 'OP_PUSH_76', 'OP_', 'op_dup',
           'OP_PUSHDATA3', 'OP_FALSE', 'DUP', '0', 'abc', '0x00', 'zz',
           '-1', 'OP_17', 'OP_NOP0', 'Op_1', 'OP_DUP,', '00OP_1']
    if not net.startswith('decred'):
        bad.append('OP_BLAKE256')
    t = rt.choice('bad', bad)
    pre = rt.choice('pre', ['', 'OP_1 ', '00 '])
    check_same(rt, 'unknown token', ser, pre + t, ValueError)
    check_same(rt, 'unknown token first', ser, t + ' ' + pre, ValueError)


def h_hex(rt, net, lens, ops, upper):
    '''opcodes and data tokens mixed: lens[i] bytes of data, 0 an opcode'''
    rt.mod('riemann').select_network(net)
    ser = rt.mod('riemann.script.serialization')
    names = optable.names(net)
    table = [n for n in names if n not in optable.REFUSED]
    toks, want, err = [], b'', None
    for i, n in enumerate(lens):
        if n == 0:
            t = table[rt.int('op%d' % i, 0, len(table) - 1)]
            toks.append(t)
            want = want + bytes([names[t]])
        else:
            d = rt.bytes('d%d' % i, n)
            toks.append(d.hex().upper() if upper else d.hex())
            if n > 1000:
                err = NotImplementedError
            else:
                want = want + ref_push(d)
    check_same(rt, 'script', ser, ' '.join(toks), err or want)


HEX = '0123456789abcdefABCDEF'


def h_text(rt, net, n):
    '''any ASCII text'''
    rt.mod('riemann').select_network(net)
    ser = rt.mod('riemann.script.serialization')
    names = optable.names(net)
    s = rt.text('s', n)
    want, err = b'', None
    for t in s.split():
        if err is not None:
            break
        if t in names:
            want = want + bytes([names[t]])
            continue
        if len(t) % 2:
            err = ValueError
            break
        for c in t:
            if not (c in HEX):
                err = ValueError
                break
        if err is None:
            want = want + ref_push(bytes.fromhex(t))
    check_same(rt, 'text', ser, s, err or want)


def h_pushes(rt, net, lo, hi):
    '''every data length in a range, all contents'''
    rt.mod('riemann').select_network(net)
    ser = rt.mod('riemann.script.serialization')
    for n in range(lo, hi):
        d = rt.bytes('d%d' % n, n)
        check_same(rt, 'push', ser, d.hex(), ref_push(d))


ALL = tuple(nettable.NET)
MAIN = ('bitcoin_main', 'decred_main')


def s01(tier):
    q = tier == 'quick'
    out = []
    for net in MAIN:
        for m in range(0, 4 if q else 6):
            out.append(dict(name='ops-%s-%d' % (net, m), fn='h_ops',
                            params=dict(net=net, m=m, sep=' ')))
        out.append(dict(name='ops-%s-ws' % net, fn='h_ops',
                        params=dict(net=net, m=2, sep=' \t\n ')))
        out.append(dict(name='bad-%s' % net, fn='h_bad',
                        params=dict(net=net), cost=4))
        for i, lens in enumerate((
                (1,), (2, 0), (0, 20, 0, 0), (33, 65, 0), (75,), (76, 0, 1),
                (255, 0), (0, 256), (0, 999), (1000, 0, 1), (1001,),
                (1, 1001), (520, 80, 0), (0, 33, 33, 0, 0), (300, 300))):
            for upper in (False, True):
                out.append(dict(name='data-%s-%d%s' % (net, i,
                                                       'U' * upper),
                                fn='h_hex', cost=4 if sum(lens) > 500 else 1,
                                params=dict(net=net, lens=list(lens), ops=0,
                                            upper=upper)))
        for n in range(0, 5 if q else 7):
            out.append(dict(name='text-%s-%d' % (net, n), fn='h_text',
                            params=dict(net=net, n=n), cost=n * n))
    for lo, hi in ((1, 80), (80, 130), (250, 262)) if q else \
            [(1, 80)] + [(i, i + 40) for i in range(80, 1001, 40)]:
        out.append(dict(name='pushes-%d' % lo, fn='h_pushes', cost=5,
                        params=dict(net='bitcoin_main', lo=lo,
                                    hi=min(hi, 1001))))
    for net in ALL:
        out.append(dict(name='net-%s' % net, fn='h_ops',
                        params=dict(net=net, m=1, sep=' ')))
    return out


# ---------------------------------------------------------------- S02

def ref_parse(b, codes):
    '''tokens of a script, or None where it must be refused; and whether
    every push is the shortest one the serializer would make'''
    toks, short, i, n = [], True, 0, len(b)
    while i < n:
        c = b[i]
        if c == 0xab:
            return None, False
        k = -1
        if c >= 1 and c <= 75:
            h = 1
            for j in range(1, n - i):
                if c == j:
                    k = j
                    break
            if k < 0:
                return None, False
        elif c == 76:
            h = 2
            if i + 1 >= n:
                return None, False
            for j in range(0, min(256, n - i - 1)):
                if b[i + 1] == j:
                    k = j
                    break
            if k < 0:
                return None, False
            short = short and k > 75
        elif c == 77:
            h = 3
            if i + 2 >= n:
                return None, False
            m = b[i + 1] + 256 * b[i + 2]
            for j in range(0, n - i - 2):
                if m == j:
                    k = j
                    break
            if k < 0:
                return None, False
            short = short and k > 255 and k <= 1000
        elif c == 78:
            return None, False
        elif c in codes:
            toks.append(codes[c])
            i = i + 1
            continue
        else:
            return None, False
        toks.append(b[i + h:i + h + k].hex())
        i = i + h + k
    return toks, short


def check_parse(rt, ser, net, b):
    codes = optable.codes(net)
    toks, short = ref_parse(b, codes)
    k, v = rt.attempt(ser.deserialize, b)
    k2, v2 = rt.attempt(ser.hex_deserialize, b.hex())
    rt.check('hex variant agrees on refusing', k == k2)
    if toks is None:
        rt.check('refused', k == 'exc')
        return
    rt.check('accepted', k == 'ok')
    if k != 'ok' or k2 != 'ok':
        return
    want = ' '.join(toks)
    rt.check('tokens', v == want)
    rt.check('tokens, hex variant', v2 == want)
    if short:
        back = rt.do('serialize back', ser.serialize, v)
        rt.check('round trip', bytes(back) == b)


def h_parse(rt, net, n):
    rt.mod('riemann').select_network(net)
    ser = rt.mod('riemann.script.serialization')
    check_parse(rt, ser, net, rt.bytes('b', n))


def h_parse_tail(rt, net, op, data, slack):
    '''a push opcode whose length field is within slack of the data left,
    then opcodes'''
    rt.mod('riemann').select_network(net)
    ser = rt.mod('riemann.script.serialization')
    w = op - 75
    m = rt.int('len', max(0, data - slack), data + slack)
    if w == 1 and m > 255:
        return
    d = rt.bytes('d', data)
    # what lies behind a shorter push: single-byte codes
    for i in range(max(0, data - slack), data):
        rt.assume(rt.any([d[i] == 0, d[i] >= 79]))
    head = bytes([op, m % 256]) if w == 1 else bytes([op, m % 256, m // 256])
    pre = bytes([rt.int('pre', 79, 255)])
    check_parse(rt, ser, net, pre + head + d)


def h_templates(rt, net):
    '''standard scripts keep their text'''
    rt.mod('riemann').select_network(net)
    ser = rt.mod('riemann.script.serialization')
    h = rt.bytes('h', 20)
    k1 = rt.bytes('k1', 33)
    k2 = rt.bytes('k2', 65)
    for b, t in (
            (b'\x76\xa9\x14' + h + b'\x88\xac',
             'OP_DUP OP_HASH160 ' + h.hex() + ' OP_EQUALVERIFY OP_CHECKSIG'),
            (b'\xa9\x14' + h + b'\x87', 'OP_HASH160 ' + h.hex()
             + ' OP_EQUAL'),
            (b'\x00\x14' + h, 'OP_0 ' + h.hex()),
            (b'\x52\x21' + k1 + b'\x41' + k2 + b'\x52\xae',
             'OP_2 ' + k1.hex() + ' ' + k2.hex()
             + ' OP_2 OP_CHECKMULTISIG'),
            (b'\x41' + k2 + b'\xac', k2.hex() + ' OP_CHECKSIG')):
        rt.check('text', rt.do('deserialize', ser.deserialize, b) == t)
        rt.check('bytes', bytes(rt.do('serialize', ser.serialize, t)) == b)


def s02(tier):
    q = tier == 'quick'
    out = []
    for net in MAIN:
        for n in range(0, 6 if q else 8):
            out.append(dict(name='bytes-%s-%d' % (net, n), fn='h_parse',
                            params=dict(net=net, n=n), cost=3 ** n))
        for data in (0, 1, 2, 74, 75, 76, 77, 254, 255, 256):
            out.append(dict(name='pd1-%s-%d' % (net, data),
                            fn='h_parse_tail', cost=4,
                            params=dict(net=net, op=76, data=data, slack=2)))
        for data in (0, 1, 2, 255, 256, 257, 520, 999, 1000, 1001) \
                if net == MAIN[0] or not q else (1, 256, 1000):
            out.append(dict(name='pd2-%s-%d' % (net, data),
                            fn='h_parse_tail', cost=9,
                            params=dict(net=net, op=77, data=data, slack=2)))
        for data in (20, 33, 65, 74, 75):
            out.append(dict(name='direct-%s-%d' % (net, data),
                            fn='h_direct', cost=4,
                            params=dict(net=net, data=data, slack=2)))
    for net in ALL:
        out.append(dict(name='net-%s' % net, fn='h_parse',
                        params=dict(net=net, n=2)))
        if not net.startswith('decred') or not q:
            out.append(dict(name='templates-%s' % net, fn='h_templates',
                            params=dict(net=net)))
    return out


def h_direct(rt, net, data, slack):
    rt.mod('riemann').select_network(net)
    ser = rt.mod('riemann.script.serialization')
    m = rt.int('len', data - slack, min(75, data + slack))
    d = rt.bytes('d', data)
    for i in range(max(0, data - slack), data):
        rt.assume(rt.any([d[i] == 0, d[i] >= 79]))
    pre = bytes([rt.int('pre', 79, 255)])
    check_parse(rt, ser, net, pre + bytes([m]) + d)


CASES = {'S01': s01, 'S02': s02}
BOUNDS = {
    'S01': 'up to 3 (thorough 5) opcode tokens, all of the 200 names; data '
           'tokens of 1..129, 250..261 bytes and selected lengths to 1001 '
           '(thorough: all to 1000), all contents, upper and lower case; '
           'all ASCII texts of up to 4 (thorough 6) characters; on Bitcoin '
           'and Decred, single opcodes on all 69 networks',
    'S02': 'all byte strings of up to 5 (thorough 7) bytes on Bitcoin and '
           'Decred and of 2 bytes on every network; one- and two-byte-length '
           'and direct pushes with lengths within 2 of the data present, '
           'data up to 1001 bytes, between single-byte codes',
}
