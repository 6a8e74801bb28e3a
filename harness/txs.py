'''T01 components, T02 transactions, T03 arbitrary bytes, T04 ids'''
import hashlib
from harness import nettable, txref
from harness.txref import (ser_in, ser_out, ser_wit, ser_tx, check_in,
                           check_out, check_wit, check_tx)

PLAIN = tuple(n for n in nettable.NET
              if not n.startswith('decred') and not n.startswith('zcash'))


def setup(rt, net='bitcoin_main'):
    rt.mod('riemann').select_network(net)
    return rt.mod('riemann.tx.tx')


# ---------------------------------------------------------------- T01

def h_outpoint(rt, net, tail):
    tx = setup(rt, net)
    i, x = rt.bytes('id', 32), rt.bytes('ix', 4)
    t = rt.bytes('tail', tail)
    o = rt.do('build', tx.Outpoint, i, x)
    p = rt.do('parse', tx.Outpoint.from_bytes, i + x + t)
    q = rt.do('parse hex', tx.Outpoint.from_hex, (i + x + t).hex())
    for label, v in (('built', o), ('parsed', p), ('parsed hex', q)):
        rt.check(label + ' bytes', v.to_bytes() == i + x)
        rt.check(label + ' tx_id', bytes(v.tx_id) == i)
        rt.check(label + ' index', bytes(v.index) == x)
        rt.check(label + ' length', len(v) == 36)
        rt.check(label + ' type', isinstance(v, tx.Outpoint))
    rt.check('equal', rt.do('==', lambda: o == p))
    rt.check('null', tx.Outpoint.null().to_bytes()
             == b'\x00' * 32 + b'\xff' * 4)


def txin_round(rt, tx, f, tail):
    t = rt.bytes('tail', tail)
    o = rt.do('build', txref.make_in, tx, f)
    check_in(rt, 'built', o, f)
    p = rt.do('parse', tx.TxIn.from_bytes, ser_in(f) + t)
    check_in(rt, 'parsed', p, f, True)
    q = rt.do('parse hex', tx.TxIn.from_hex, (ser_in(f) + t).hex())
    rt.check('parsed hex bytes', q.to_bytes() == ser_in(f))
    rt.check('length', len(p) == len(ser_in(f)))
    rt.check('is_p2sh', (not not o.is_p2sh()) == (len(f['redeem']) > 0))
    rt.check('types', isinstance(p, tx.TxIn)
             and isinstance(p.outpoint, tx.Outpoint))


def h_txin(rt, net, stack, redeem, tail, kind):
    tx = setup(rt, net)
    f = txref.in_fields(rt, 'i', stack, redeem, kind != 'opaque')
    if kind == 'null':
        f['tx_id'], f['index'] = b'\x00' * 32, b'\xff' * 4
    txin_round(rt, tx, f, tail)


def h_txin_template(rt, net, which):
    '''script_sigs as wallets make them'''
    tx = setup(rt, net)
    f = txref.in_fields(rt, 'i', 0, 0)
    sig = rt.bytes('sig', 71)
    key = b'\x02' + (b'' if 'p2pkh' == which[:5]
                     else rt.bytes('key', 32))
    k2 = b'\x03' + rt.bytes('k2', 32)
    multi = b'\x51\x21' + key + b'\x21' + k2 + b'\x52\xae'
    if which == 'p2pkh':
        # a key that is no script: its first code after a push is unknown
        key = b'\x02' + rt.bytes('key', 2) + b'\xba' + rt.bytes('key3', 29)
        f['stack'] = b'\x47' + sig + b'\x21' + key
    elif which == 'p2pkh-script-key':
        key = b'\x02' + rt.bytes('key', 2)
        for i in range(30):
            key = key + bytes([rt.int('c%d' % i, 172, 185)])
        f['stack'] = b'\x47' + sig + b'\x21' + key
    elif which == 'p2sh':
        f['stack'] = b'\x00\x47' + sig
        f['redeem'] = b'\x47' + multi
    elif which == 'p2sh-pd1':
        r = b'\x52\x21' + key + b'\x21' + k2 + b'\x21' + key + b'\x53\xae'
        f['stack'] = b'\x00\x47' + sig + b'\x47' + sig
        f['redeem'] = b'\x4c' + bytes([len(r)]) + r
    elif which == 'p2sh-long-push':
        # not the shortest push of the redeem script
        f['stack'] = b'\x00\x47' + sig
        f['redeem'] = b'\x4c\x47' + multi
    elif which == 'p2sh-long-sig':
        f['stack'] = b'\x00\x4c\x47' + sig
        f['redeem'] = b'\x47' + multi
    elif which == 'p2sh-p2wpkh':
        f['redeem'] = b'\x16\x00\x14' + rt.bytes('h', 20)
    elif which == 'empty-push':
        f['stack'] = b'\x4c\x00'
        f['redeem'] = b'\x01\x51'
    elif which == 'pd2':
        f['stack'] = b'\x4d\x05\x00' + sig[:5] + b'\x00'
    txin_round(rt, tx, f, 3)


def h_txout(rt, net, n, tail):
    tx = setup(rt, net)
    f = txref.out_fields(rt, 'o', n)
    t = rt.bytes('tail', tail)
    o = rt.do('build', txref.make_out, tx, f)
    check_out(rt, 'built', o, f)
    if n >= 252:
        k, e = rt.attempt(tx.TxOut.from_bytes, ser_out(f) + t)
        rt.check('long script refused', k == 'exc')
        return
    p = rt.do('parse', tx.TxOut.from_bytes, ser_out(f) + t)
    check_out(rt, 'parsed', p, f)
    q = rt.do('parse hex', tx.TxOut.from_hex, (ser_out(f) + t).hex())
    check_out(rt, 'parsed hex', q, f)
    rt.check('type', isinstance(p, tx.TxOut))


def h_witness(rt, net, lens, tail):
    tx = setup(rt, net)
    items = [rt.bytes('w%d' % i, n) if n else b''
             for i, n in enumerate(lens)]
    t = rt.bytes('tail', tail)
    o = rt.do('build', txref.make_wit, tx, items)
    check_wit(rt, 'built', o, items)
    p = rt.do('parse', tx.InputWitness.from_bytes, ser_wit(items) + t)
    check_wit(rt, 'parsed', p, items)
    q = rt.do('parse hex', tx.InputWitness.from_hex,
              (ser_wit(items) + t).hex())
    check_wit(rt, 'parsed hex', q, items)
    for it in items[:2]:
        b = txref.cs(len(it)) + it
        w = rt.do('parse item', tx.WitnessStackItem.from_bytes, b + t)
        rt.check('parsed item', bytes(w.item) == it)
        rt.check('parsed item bytes', w.to_bytes() == b)


def h_witness_many(rt, count, size):
    '''many items or big ones: mostly fixed content, free ends'''
    tx = setup(rt)
    a, z = rt.bytes('a', 2), rt.bytes('z', 2)
    items = [b'\x07' * size for _ in range(count)]
    items[0] = a + b'\x00' * max(0, size - 2)
    items[-1] = b'\x01' * max(0, size - 2) + z
    o = rt.do('build', txref.make_wit, tx, items)
    rt.check('built', o.to_bytes() == ser_wit(items))
    p = rt.do('parse', tx.InputWitness.from_bytes, ser_wit(items) + a)
    rt.check('parsed', p.to_bytes() == ser_wit(items))
    rt.check('count', len(p.stack) == count)
    rt.check('first', bytes(p.stack[0].item) == items[0])
    rt.check('last', bytes(p.stack[-1].item) == items[-1])


def t01(tier):
    q = tier == 'quick'
    out = []
    for tail in (0, 1, 5):
        out.append(dict(name='outpoint-%d' % tail, fn='h_outpoint',
                        params=dict(net='bitcoin_main', tail=tail)))
    for a in range(0, 5 if q else 7):
        for b in range(0, 5 - a if q else 7 - a):
            if a + b > (3 if q else 5) and b > 1:
                continue
            out.append(dict(name='in-%d-%d' % (a, b), fn='h_txin',
                            params=dict(net='bitcoin_main', stack=a,
                                        redeem=b, tail=2, kind='free'),
                            cost=4 ** (a + b)))
    for n in (1, 2, 75, 107, 251, 252, 253, 254, 255, 256, 1000, 1649, 1650):
        for kind in ('opaque', 'null'):
            for r in (0, 1):
                if n + r <= 1650 and not (kind == 'null' and n < 2 and r):
                    out.append(dict(name='in-%s-%d-%d' % (kind, n, r),
                                    fn='h_txin', cost=3,
                                    params=dict(net='bitcoin_main', stack=n,
                                                redeem=r, tail=3,
                                                kind=kind)))
    for w in ('p2pkh', 'p2pkh-script-key', 'p2sh', 'p2sh-pd1', 'p2sh-long-push', 'p2sh-long-sig',
              'p2sh-p2wpkh', 'empty-push', 'pd2'):
        for net in ('bitcoin_main',) if q else PLAIN:
            out.append(dict(name='in-%s-%s' % (w, net),
                            fn='h_txin_template',
                            params=dict(net=net, which=w), cost=5))
    for n in (0, 1, 2, 22, 23, 25, 34, 75, 76, 83, 107, 250, 251, 252, 253,
              254, 255, 256, 520) + (() if q else tuple(range(3, 250, 7))):
        for tail in (0, 4):
            out.append(dict(name='out-%d-%d' % (n, tail), fn='h_txout',
                            params=dict(net='bitcoin_main', n=n, tail=tail)))
    for i, lens in enumerate(((), (0,), (1,), (72, 33), (0, 72, 71), (252,),
                              (253, 1), (254, 0, 520), (0, 0, 0, 0),
                              (33, 64, 0, 107, 1))):
        out.append(dict(name='wit-%d' % i, fn='h_witness',
                        params=dict(net='bitcoin_main', lens=list(lens),
                                    tail=2)))
    for c, s in ((252, 2), (253, 2), (256, 3)) + (
            ((2, 65535), (2, 65536)) if not q else ((2, 1000),)):
        out.append(dict(name='wits-%d-%d' % (c, s), fn='h_witness_many',
                        params=dict(count=c, size=s), cost=8))
    for net in PLAIN:
        out.append(dict(name='net-in-%s' % net, fn='h_txin',
                        params=dict(net=net, stack=1, redeem=1, tail=1,
                                    kind='free')))
        out.append(dict(name='net-out-%s' % net, fn='h_txout',
                        params=dict(net=net, n=25, tail=1)))
    return out


# ---------------------------------------------------------------- T02

def h_tx(rt, net, ins, outs, wits, flag, free=False):
    tx = setup(rt, net)
    f = txref.tx_fields(rt, 't', ins, outs, wits, flag, free)
    tx_round(rt, tx, f)


def tx_round(rt, tx, f):
    t = rt.do('build', txref.make_tx, tx, f)
    check_tx(rt, 'built', t, f)
    raw = ser_tx(f)
    p = rt.do('parse', tx.Tx.from_bytes, raw)
    check_tx(rt, 'parsed', p, f, True)
    q = rt.do('parse hex', tx.Tx.from_hex, raw.hex())
    rt.check('parsed hex bytes', q.to_bytes() == raw)
    for v in (p, q):
        rt.check('same id', v.tx_id == t.tx_id)
        rt.check('same id le', v.tx_id_le == t.tx_id_le)
        rt.check('same wtx id', v.wtx_id == t.wtx_id)
        rt.check('same status', v.is_witness() == t.is_witness())
    if f['flag'] is not None:
        rt.check('same wtx id le', p.wtx_id_le == t.wtx_id_le)
    rt.check('type', isinstance(p, tx.Tx))
    rt.check('hex', p.hex() == raw.hex())


def many_fields(rt, nin, nout, flag):
    base = dict(tx_id=b'\x11' * 32, index=b'\x00' * 4, stack=b'',
                redeem=b'', sequence=b'\xff' * 4)
    ins = [dict(base, index=bytes([k % 256, k // 256, 0, 0]))
           for k in range(nin)]
    outs = [dict(value=bytes([k % 256, k // 256]) + b'\x00' * 6,
                 script=b"\x51") for k in range(nout)]
    ins[-1] = txref.in_fields(rt, 'last', 0, 0)
    outs[-1] = txref.out_fields(rt, 'lasto', 3)
    return dict(version=rt.bytes('ver', 4), lock_time=rt.bytes('lt', 4),
                flag=b'\x00\x01' if flag else None, ins=ins, outs=outs,
                wits=[[rt.bytes('w', 1)] for _ in range(nin)] if flag else [])


def h_tx_many(rt, net, nin, nout, flag):
    '''counts around the CompactSize limits; free bytes in a few places'''
    tx = setup(rt, net)
    f = many_fields(rt, nin, nout, flag)
    t = rt.do('build', txref.make_tx, tx, f)
    raw = ser_tx(f)
    rt.check('built bytes', t.to_bytes() == raw)
    p = rt.do('parse', tx.Tx.from_bytes, raw)
    rt.check('parsed bytes', p.to_bytes() == raw)
    rt.check('parsed no_witness', bytes(p.no_witness()) == ser_tx(f, False))
    rt.check('counts', len(p.tx_ins) == nin and len(p.tx_outs) == nout)
    rt.check('ids', p.tx_id == t.tx_id)


SHAPES = (
    # ins, outs, witness item lengths
    ([[0, 0]], [0], [[]]),
    ([[1, 0]], [25], [[72, 33]]),
    ([[0, 2], [0, 0]], [22, 34], [[1], []]),
    ([[3, 0], [0, 0], [0, 3]], [1], [[0], [2, 0, 1], []]),
    ([[0, 0], [107, 0]], [23, 25, 0], [[], [64]]),
    ([[252, 0]], [251], [[253]]),
    ([[253, 0], [0, 0], [5, 70], [0, 0]], [1, 2, 3, 4], [[1], [1], [1], []]),
)


def t02(tier):
    q = tier == 'quick'
    out = []
    for i, (ins, outs, wits) in enumerate(SHAPES):
        for mode in ('legacy', 'flag', 'bare'):
            out.append(dict(
                name='tx-%d-%s' % (i, mode), fn='h_tx',
                params=dict(net='bitcoin_main', ins=ins, outs=outs,
                            wits=wits if mode == 'flag' else [],
                            flag=mode != 'legacy')))
    for n in range(1, 4 if q else 6):
        out.append(dict(name='free-%d' % n, fn='h_tx', cost=4 ** n,
                        params=dict(net='bitcoin_main', ins=[[n, 0]],
                                    outs=[1], wits=[], flag=False,
                                    free=True)))
        out.append(dict(name='free-flag-%d' % n, fn='h_tx', cost=4 ** n,
                        params=dict(net='bitcoin_main', ins=[[0, n]],
                                    outs=[1], wits=[[n]], flag=True,
                                    free=True)))
    for a, b in (((2, 253), (253, 1)) if q else
                 ((2, 252), (2, 253), (252, 1), (253, 1), (256, 256),
                  (3, 520))):
        for fl in (False, True):
            out.append(dict(name='many-%d-%d-%s' % (a, b, fl),
                            fn='h_tx_many', cost=20,
                            params=dict(net='bitcoin_main', nin=a, nout=b,
                                        flag=fl)))
    for net in PLAIN:
        for fl in (False, True):
            out.append(dict(name='net-%s-%s' % (net, fl), fn='h_tx',
                            params=dict(net=net, ins=[[2, 0], [0, 0]],
                                        outs=[25], flag=fl,
                                        wits=[[1], [0, 2]] if fl else [])))
    return out


# ---------------------------------------------------------------- T03

def prefix_of(rt, label, o, b):
    n = len(o)
    rt.check(label + ' no longer than the data', n <= len(b))
    rt.check(label + ' is a prefix of the data', o.to_bytes() == b[:n])


def h_any(rt, net, mod, cls, n, head=None, small=None):
    '''cls.from_bytes on n bytes (the first ones fixed by head). With small:
    a script length at 36 over small (one byte) is followed by a byte that
    is no opcode'''
    rt.mod('riemann').select_network(net)
    m = rt.mod(mod)
    b = bytes.fromhex(head or '')
    b = b + rt.bytes('b', n - len(b))
    if small is not None:
        short_script(rt, b, 36, small)
    k, o = rt.attempt(getattr(m, cls).from_bytes, b)
    rt.check('too short is refused', k == 'exc' or n >= SMALLEST[cls])
    if k == 'ok':
        prefix_of(rt, 'parsed', o, b)


SMALLEST = {'Outpoint': 36, 'TxIn': 41, 'TxOut': 9, 'WitnessStackItem': 1,
            'InputWitness': 1, 'Tx': 60, 'SproutTx': 10, 'OverwinterTx': 10,
            'SaplingTx': 10}


def short_script(rt, b, pos, small):
    rt.assume(b[pos] < 253)
    rt.assume(rt.any([b[pos] <= small, b[pos + 1] == 0xba]))


def h_any_tx(rt, net, n, fix, pos=None, small=3, cls='Tx',
             mod='riemann.tx.tx', maxin=2):
    '''cls.from_bytes on n bytes; fix: list of (position, value); pos: where
    the first input's script length lies when the input count takes one
    byte. Scripts longer than small start with a byte that is no opcode.'''
    rt.mod('riemann').select_network(net)
    m = rt.mod(mod)
    b = fixed_bytes(rt, n, fix)
    if pos is not None:
        rt.assume(b[pos - 37] < 253)
        rt.assume(b[pos - 37] > 0)
        short_script(rt, b, pos, small)
    k, o = rt.attempt(getattr(m, cls).from_bytes, b)
    rt.check('too short is refused', k == 'exc' or n >= SMALLEST[cls])
    if k != 'ok':
        return
    prefix_of(rt, 'parsed', o, b)
    raw = b[:len(o)]
    if cls == 'Tx' and o.is_witness():
        rt.check('wtx id', bytes(o.wtx_id_le) == txref.h256(hashlib, raw))
        rt.check('flag', raw[4:6] == b'\x00\x01')
    else:
        rt.check('id', bytes(o.tx_id_le) == txref.h256(hashlib, raw))
        if cls == 'Tx':
            rt.check('no flag', raw[4:6] != b'\x00\x01')


def fixed_bytes(rt, n, fix):
    d = {p: v for p, v in fix}
    out = []
    run = 0
    start = None
    for i in range(n + 1):
        if i == n or i in d:
            if run:
                out.append(rt.bytes('b%d' % start, run))
            run = 0
            if i < n:
                out.append(bytes([d[i]]))
        else:
            if run == 0:
                start = i
            run += 1
    return b''.join(out)


def t03(tier):
    q = tier == 'quick'
    out = []

    def any_(cls, n, net='bitcoin_main', head=None, cost=1,
             mod='riemann.tx.tx'):
        out.append(dict(name='%s-%d-%s%s' % (cls, n, net, head or ''),
                        fn='h_any', cost=cost,
                        params=dict(net=net, mod=mod, cls=cls, n=n,
                                    head=head)))
    for n in (0, 1, 31, 32, 35, 36, 37, 40):
        any_('Outpoint', n)
    for n in tuple(range(0, 14 if q else 24)) + (30, 64):
        any_('TxOut', n)
    # outputs whose script is cut
    for n in (8 + 1 + 24, 8 + 1 + 25, 8 + 1 + 26):
        any_('TxOut', n, head='00' * 8 + '19')
    for n in range(36, 42 if q else 44):
        any_('TxIn', n, cost=n)
    for n in range(42, 46 if q else 60):
        out.append(dict(name='TxIn-small-%d' % n, fn='h_any', cost=n,
                        params=dict(net='bitcoin_main', mod='riemann.tx.tx',
                                    cls='TxIn', n=n,
                                    small=3 if q else 4)))
    for h in ('fd0000', 'fd0100', 'fe00000000', 'fe01000000',
              'ff0000000000000000', 'ff0100000000000000', 'fd0001'):
        for k in (0, 3, 4, 5, 8) if h != 'fd0001' else (
                (0, 3, 4) if q else (0, 3, 4, 5)):
            any_('TxIn', 36 + len(h) // 2 + k, head='ff' * 35 + 'fe' + h)
    for n in range(0, 8 if q else 12):
        any_('WitnessStackItem', n)
    for n in range(0, 7 if q else 10):
        any_('InputWitness', n, cost=n)
    for h in ('fd', 'fe', 'ff', '01fd', '02fd', '01fe', '01ff'):
        for k in (5, 7) if q else (5, 7, 8, 9):
            any_('InputWitness', k, head=h)
    for n in (60, 61, 62, 63) if q else range(60, 67):
        if not q:
            out.append(dict(name='Tx-%d' % n, fn='h_any_tx', cost=60,
                            params=dict(net='bitcoin_main', n=n, pos=41,
                                        fix=[], small=2)))
        # one input with a script of k bytes
        for k in range(0, 2 if q else 4):
            out.append(dict(name='Tx-%d-%d' % (n + k, k), fn='h_any_tx',
                            cost=30 + n, params=dict(
                                net='bitcoin_main', n=n + k,
                                fix=[[4, 1], [41, k]])))
    # flagged: one input with a script of k bytes
    for n in (62, 63, 64) if q else range(61, 67):
        for k in range(0, 2 if n < 64 or not q else 1):
            out.append(dict(name='Tx-flag-%d-%d' % (n + k, k),
                            fn='h_any_tx', cost=30 + n, params=dict(
                                net='bitcoin_main', n=n + k,
                                fix=[[4, 0], [5, 1], [6, 1], [43, k],
                                     [48 + k, 1]])))
    # Zcash: one input, one output, no scripts
    for cls, mod, net, head, after in (
            ('SproutTx', 'sprout', 'zcash_sprout_main', '02000000', 97),
            ('SproutTx', 'sprout', 'zcash_sprout_main', '01000000', 0),
            ('OverwinterTx', 'overwinter', 'zcash_overwinter_main',
             '030000807082c403', 5),
            ('SaplingTx', 'sapling', 'zcash_sapling_main',
             '0400008085202f89', 15)):
        h = list(bytes.fromhex(head))
        for spot in range(5):
            for cut in (0, 1) if spot == 4 else (0,):
                at, fix = len(h), list(enumerate(h))
                for i, (v, gap) in enumerate(((1, 36), (0, 4), (1, 8),
                                              (0, 4))):
                    c = [0xfd, v, 0] if i == spot else [v]
                    fix += [[at + j, x] for j, x in enumerate(c)]
                    at += len(c) + gap
                out.append(dict(
                    name='%s-%s-%d-%d' % (cls, head[:2], spot, cut),
                    fn='h_any_tx', cost=9,
                    params=dict(net=net, n=at + after - cut, fix=fix,
                                cls=cls, mod='riemann.tx.' + mod)))
    # no inputs
    for n in (10, 12) if q else (10, 12, 14, 16, 18):
        out.append(dict(name='Tx-none-%d' % n, fn='h_any', cost=30,
                        params=dict(net='bitcoin_main', mod='riemann.tx.tx',
                                    cls='Tx', n=n, head='0100000000')))
    # over-long and zero counts and lengths
    z = [0] * 8
    for h in ([0xfd, 1, 0], [0xfe, 1, 0, 0, 0], [0xff, 1] + z[:7],
              [0xfd, 0, 0], [0xfd], [0xfe, 0, 1, 0, 0]):
        c = len(h)
        for off, pre, n in (
                (4, [], 61 + c), (6, [[4, 0], [5, 1]], 63 + c),
                (41, [[4, 1]], 61 + c), (46, [[4, 1], [41, 0]], 61 + c),
                (57, [[4, 0], [5, 1], [6, 1], [43, 0], [48, 1]], 62 + c),
                (58, [[4, 0], [5, 1], [6, 1], [43, 0], [48, 1], [57, 0]],
                 63 + c),
                (59, [[4, 0], [5, 1], [6, 1], [43, 0], [48, 1], [57, 0],
                      [58, 1]], 64 + c)):
            fix = pre + [[off + i, v] for i, v in enumerate(h)]
            if off in (4, 6):
                # the script of the first input, the output count
                if h[1:2] == [0] or c == 1:
                    n = off + c + 8
                else:
                    fix += [[off + c + 36, 0], [off + c + 41, 1]]
            if off == 41 and h[1:2] != [1]:
                fix.append([off + (3 if c == 1 else c), 0xba])
            out.append(dict(name='Tx-over-%d-%s' % (off, bytes(h).hex()),
                            fn='h_any_tx', cost=30,
                            params=dict(net='bitcoin_main', fix=fix, n=n)))
    return out


# ---------------------------------------------------------------- T04

def h_ids(rt, net, ins, outs, wits, flag):
    tx = setup(rt, net)
    f = txref.tx_fields(rt, 't', ins, outs, wits, flag)
    t = rt.do('build', txref.make_tx, tx, f)
    p = rt.do('parse', tx.Tx.from_bytes, ser_tx(f))
    c = rt.do('copy', t.copy)
    idle = txref.h256(hashlib, ser_tx(f, False))
    w = txref.h256(hashlib, ser_tx(f))
    for label, v in (('built', t), ('parsed', p), ('copied', c)):
        rt.check(label + ' tx_id_le', bytes(v.tx_id_le) == idle)
        rt.check(label + ' tx_id', bytes(v.tx_id) == idle[::-1])
        if flag:
            rt.check(label + ' wtx_id_le', bytes(v.wtx_id_le) == w)
            rt.check(label + ' wtx_id', bytes(v.wtx_id) == w[::-1])
        else:
            rt.check(label + ' no wtx_id', v.wtx_id is None)
            rt.check(label + ' no wtx_id_le',
                     v.wtx_id_le is None)


def h_ids_differ(rt, net, ins, outs, wits):
    '''two flagged transactions of one shape: equal ids exactly when the
    witness-free bytes are equal'''
    tx = setup(rt, net)
    f = txref.tx_fields(rt, 'a', ins, outs, wits, True)
    g = txref.tx_fields(rt, 'b', ins, outs, wits, True)
    t = rt.do('build', txref.make_tx, tx, f)
    u = rt.do('build', txref.make_tx, tx, g)
    same = ser_tx(f, False) == ser_tx(g, False)
    eq = t.tx_id == u.tx_id
    rt.check('ids follow the witness-free bytes',
             rt.any([rt.all([same, eq]), rt.all([not same, not eq])]))
    same = ser_tx(f) == ser_tx(g)
    eq = t.wtx_id == u.wtx_id
    rt.check('wtx ids follow the complete bytes',
             rt.any([rt.all([same, eq]), rt.all([not same, not eq])]))
    # the witness of one with the body of the other
    v = rt.do('swap witnesses', t.copy, tx_witnesses=u.tx_witnesses)
    rt.check('witnesses do not enter the id', v.tx_id == t.tx_id)
    rt.check('witnesses do not enter the id (le)',
             v.tx_id_le == t.tx_id_le)


def h_ids_many(rt, net, nin, nout):
    tx = setup(rt, net)
    f = many_fields(rt, nin, nout, True)
    t = rt.do('build', txref.make_tx, tx, f)
    idle = txref.h256(hashlib, ser_tx(f, False))
    w = txref.h256(hashlib, ser_tx(f))
    rt.check('tx_id_le', bytes(t.tx_id_le) == idle)
    rt.check('tx_id', bytes(t.tx_id) == idle[::-1])
    rt.check('wtx_id_le', bytes(t.wtx_id_le) == w)
    rt.check('wtx_id', bytes(t.wtx_id) == w[::-1])


def t04(tier):
    out = []
    for a, b in ((252, 1), (253, 2), (2, 253)) + (
            () if tier == 'quick' else ((256, 256), (300, 3), (1, 600))):
        out.append(dict(name='ids-many-%d-%d' % (a, b), fn='h_ids_many',
                        cost=20, params=dict(net='bitcoin_main', nin=a,
                                             nout=b)))
    for i, (ins, outs, wits) in enumerate(SHAPES):
        for fl in (False, True):
            out.append(dict(name='ids-%d-%s' % (i, fl), fn='h_ids',
                            params=dict(net='bitcoin_main', ins=ins,
                                        outs=outs, flag=fl,
                                        wits=wits if fl else [])))
        if i != 5 and i != 6 or tier != 'quick':
            out.append(dict(name='differ-%d' % i, fn='h_ids_differ',
                            params=dict(net='bitcoin_main', ins=ins,
                                        outs=outs, wits=wits)))
    for net in PLAIN:
        for fl in (False, True):
            out.append(dict(name='net-%s-%s' % (net, fl), fn='h_ids',
                            params=dict(net=net, ins=[[1, 0]], outs=[2],
                                        flag=fl, wits=[[1]] if fl else [])))
    return out


CASES = {'T01': t01, 'T02': t02, 'T03': t03, 'T04': t04}
BOUNDS = {
    'T01': 'all fields free; script_sigs of up to 3 (thorough 5) free bytes '
           'split in any way, wallet templates, and up to 1650 bytes behind '
           'a byte no script parser passes; output scripts of the listed '
           'sizes up to 520 bytes; up to 5 witness items of up to 520 '
           'bytes, 253 and 256 items and 1000-byte items with free ends; '
           'up to 5 following bytes; all networks of plain transactions '
           'with one shape each',
    'T02': 'up to 4 inputs and outputs in 7 shapes with free fields, '
           'opaque scripts up to 253 bytes, script_sigs of up to 3 free '
           'bytes (5 thorough), 253 (256) inputs or outputs with free '
           'last ones; all networks of plain transactions',
    'T03': 'free byte strings: outpoint up to 40 bytes, output 13 (64), '
           'input 41 (43) and up to 45 (59) with scripts over 3 bytes '
           'starting with an undecodable byte, witness item 7, witness 6; '
           'transactions of one input and one output up to 64 bytes, '
           'flagged ones up to 64 bytes, over-long, cut and zero counts and '
           'lengths at each place; Zcash transactions with one input and '
           'output of empty scripts and each count over-long; longer inputs '
           'and more inputs or outputs are outside',
    'T04': '7 shapes of up to 4 inputs and outputs with free fields; 253 '
           'inputs or outputs with free last ones; pairs '
           'of flagged transactions of one shape; all networks of plain '
           'transactions',
}
