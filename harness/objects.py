'''T05 immutability and isolation, T06 copy(), T07 refusals'''
from harness import kit
from harness.kit import SPEC, SHAPES, Pool, part, fields, same, ser

TXS = ('Tx', 'DecredTx', 'SproutTx', 'OverwinterTx', 'SaplingTx')


def select(rt, cls):
    rt.mod('riemann').select_network(kit.net_of(cls))


# ---------------------------------------------------------------- T05

def leaves(ref, pre=''):
    out = []
    for f, kind in SPEC[ref['cls']][1]:
        v = ref[f]
        if type(v) is dict:
            out.extend(leaves(v, pre + f + '.'))
        elif type(v) is list:
            for x in v:
                out.extend(leaves(x, pre + f + '.'))
        else:
            out.append((ref['cls'], f))
    return out


def attack(rt, pool):
    '''change every buffer and list the caller still holds'''
    how = rt.choice('how', ['first', 'last', 'grow', 'clear'])
    x = rt.int('x', 1, 255)
    for b in pool.buffers:
        if how == 'grow':
            b.extend(b'\x00')
        elif how == 'clear':
            del b[:]
        elif len(b):
            i = 0 if how == 'first' else len(b) - 1
            b[i] = b[i] ^ x
    for lst in pool.lists:
        if how == 'grow':
            lst.append(None)
        elif how == 'clear':
            del lst[:]
        elif len(lst):
            lst[0 if how == 'first' else -1] = None


def h_isolated(rt, cls, shape):
    select(rt, cls)
    pool = Pool(rt, True)
    o, ref = part(rt, pool, cls, 'o', shape)
    same(rt, 'built', o, ref)
    attack(rt, pool)
    same(rt, 'after mutation', o, ref)
    if cls not in kit.NOCOPY:
        c = rt.do('copy', o.copy)
        same(rt, 'copy after mutation', c, ref)
    if cls in TXS:
        digests(rt, o, kit.rebuild(rt, ref), ref)
    same(rt, 'at the end', o, ref)


def digests(rt, o, p, ref):
    '''o, built from buffers mutated since, signs like p'''
    for i in range(max(1, len(ref.get('tx_ins', ())))):
        for k, f, a in digest_calls(ref, i):
            r1, d1 = rt.attempt(getattr(o, f), **a)
            r2, d2 = rt.attempt(getattr(p, f), **a)
            rt.check(k + ' alike', r1 == r2)
            if r1 == 'ok' and r2 == 'ok':
                rt.check(k + ' equal', bytes(d1) == bytes(d2))
    if ref['cls'] == 'DecredTx':
        for f in ('prefix_hash', 'witness_hash', 'witness_signing_hash',
                  'prefix', 'witness', 'witness_signing'):
            rt.check(f, getattr(o, f)() == getattr(p, f)())
        rt.check('fee', o.calculate_fee() == p.calculate_fee())
    else:
        rt.check('fee', o.calculate_fee([5]) == p.calculate_fee([5]))
    if ref['cls'] == 'Tx':
        rt.check('no_witness', o.no_witness() == p.no_witness())


def digest_calls(ref, i):
    c = ref['cls']
    sc = b'\x02\x51\x52'
    out = []
    for acp in (False, True):
        for t, f in (('all', 'sighash_all'), ('single', 'sighash_single')):
            a = dict(index=i, script=sc, anyone_can_pay=acp)
            if c == 'Tx' and ref['flag'] is not None:
                a['prevout_value'] = b'\x07' * 8
            elif c in ('OverwinterTx', 'SaplingTx'):
                f = 'sighash'
                a = dict(index=i, script_code=sc, prevout_value=b'\x07' * 8,
                         anyone_can_pay=acp, joinsplit=not ref['tx_ins'],
                         sighash_type=1 if t == 'all' else 3)
            out.append(('%s %d %s' % (t, i, acp), f, a))
    return out


def h_frozen(rt, cls, shape):
    '''no attribute can be assigned, whatever the value'''
    select(rt, cls)
    pool = Pool(rt)
    o, ref = part(rt, pool, cls, 'o', shape)
    v = rt.choice('value', [None, b'', 7, [], rt.bytes('v', 4)])
    names = sorted(vars(o)) + ['brand_new']
    for n in names:
        k, e = rt.attempt(setattr, o, n, v)
        rt.check('assigning is refused', k == 'exc')
        if k == 'exc':
            rt.check('with TypeError', isinstance(e, TypeError))
    for f in ('append', 'item', 'slice'):
        k, e = rt.attempt(grow, o, f)
        rt.check('content change is refused', k == 'exc')
    same(rt, 'after', o, ref)


def grow(o, how):
    if how == 'append':
        o += b'\x00'
    elif how == 'item':
        o[0] = 1
    else:
        o[0:1] = b''


def h_varint_frozen(rt):
    sh = rt.mod('riemann.tx.shared')
    n = rt.int('n', 0, 2 ** 64 - 1)
    v = rt.do('build', sh.VarInt, n)
    b = v.to_bytes()
    for a in ('number', '_bytes', 'other'):
        k, e = rt.attempt(setattr, v, a, 5)
        rt.check('assigning is refused', k == 'exc')
    k, e = rt.attempt(grow, v, 'append')
    rt.check('appending is refused', k == 'exc')
    rt.check('unchanged', v.to_bytes() == b)
    rt.check('number unchanged', v.number == n)


def h_bytedata_args(rt):
    '''mutable ByteData as fields'''
    rt.mod('riemann').select_network('bitcoin_main')
    tx = rt.mod('riemann.tx.tx')
    sh = rt.mod('riemann.tx.shared')
    i, x = rt.bytes('i', 32), rt.bytes('x', 4)
    bi, bx = sh.ByteData(), sh.ByteData()
    bi += i
    bx += x
    o = rt.do('build', tx.Outpoint, bi, bx)
    bi += b'\x01'
    bx += b'\x02'
    rt.check('bytes', o.to_bytes() == i + x)
    rt.check('tx_id', len(o.tx_id) == 32 and bytes(o.tx_id) == i)
    rt.check('index', len(o.index) == 4 and bytes(o.index) == x)
    c = rt.do('copy', o.copy)
    rt.check('copy', c.to_bytes() == i + x)


def h_parsed(rt, cls, shape):
    '''objects parsed from a buffer that is changed afterwards'''
    select(rt, cls)
    pool = Pool(rt)
    o, ref = part(rt, pool, cls, 'o', shape)
    buf = bytearray(ser(ref))
    p = rt.do('parse', kit.cls_of(rt, cls).from_bytes, buf)
    x = rt.int('x', 1, 255)
    buf[:] = bytes([x]) * len(buf)
    same(rt, 'after mutation', p, ref, loose=('stack_script',
                                              'redeem_script'))
    if cls not in kit.NOCOPY:
        c = rt.do('copy', p.copy)
        rt.check('copy', c.to_bytes() == ser(ref))
    for f in pure_fields(cls):
        b = getattr(p, f)
        rt.check('field is no longer writable', not isinstance(b, bytearray))


def pure_fields(cls):
    return [f for f, k in SPEC[cls][1]
            if type(k) is int or k in ('*', 'exp', 'bal', 'v12')]


def t05(tier):
    out = []
    for cls in SPEC:
        for i, s in enumerate(SHAPES[cls]):
            big = cls in TXS
            out.append(dict(name='isolated-%s-%d' % (cls, i),
                            fn='h_isolated', cost=5 if big else 1,
                            params=dict(cls=cls, shape=s)))
            out.append(dict(name='frozen-%s-%d' % (cls, i), fn='h_frozen',
                            params=dict(cls=cls, shape=s)))
            if cls in ('DecredTx', 'DecredInputWitness') \
                    or any_free(cls, s):
                continue
            if 'tx_ins' in s:
                s = dict(s, tx_ins=[{}] * len(s['tx_ins']))
            out.append(dict(name='parsed-%s-%d' % (cls, i), fn='h_parsed',
                            cost=3, params=dict(cls=cls, shape=s)))
    out.append(dict(name='varint', fn='h_varint_frozen', params={}))
    out.append(dict(name='bytedata', fn='h_bytedata_args', params={}))
    return out


def any_free(cls, s):
    '''inputs with script bytes: the parser forks on them, T01 has those'''
    return cls == 'TxIn' and s.get('stack_script', 0) > 2


# ---------------------------------------------------------------- T06

def h_copy(rt, cls, shape):
    select(rt, cls)
    pool = Pool(rt)
    o, ref = part(rt, pool, cls, 'o', shape)
    c = rt.do('copy', o.copy)
    same(rt, 'copy', c, ref)
    same(rt, 'original', o, ref)
    rt.check('equal', rt.do('==', lambda: c == o))
    rt.check('another object', c is not o)
    rt.check('same class', type(c) is type(o))


def h_override(rt, cls, shape, other, which):
    '''the fields named in which come from a second instance'''
    select(rt, cls)
    pool = Pool(rt)
    args, ref = fields(rt, pool, cls, 'o', shape)
    o = rt.do('build', kit.cls_of(rt, cls), **args)
    oargs, oref = fields(rt, pool, cls, 'p', other)
    k = {f: oargs[f] for f in which if oargs[f] is not None}
    margs = dict(args, **k)
    mref = dict(ref, **{f: oref[f] for f in k})
    kit.drop_unused(mref)
    r0, want = rt.attempt(kit.cls_of(rt, cls), **margs)
    r1, c = rt.attempt(o.copy, **k)
    rt.check('refused together', r0 == r1)
    if r0 == 'ok' and r1 == 'ok':
        rt.check('bytes', c.to_bytes() == want.to_bytes())
        same(rt, 'override', c, mref)
    same(rt, 'original', o, ref)


def t06(tier):
    q = tier == 'quick'
    out = []
    for cls in SPEC:
        if cls in kit.NOCOPY:
            continue
        names = [f for f, _ in SPEC[cls][1]]
        for i, s in enumerate(SHAPES[cls]):
            out.append(dict(name='plain-%s-%d' % (cls, i), fn='h_copy',
                            params=dict(cls=cls, shape=s)))
            for j, t in enumerate(SHAPES[cls]):
                sets = [[f] for f in names]
                if i == j or not q:
                    sets.append(names)
                    sets += [[a, b] for a in names for b in names
                             if a < b and (not q or len(names) < 7)]
                for w in sets:
                    out.append(dict(
                        name='%s-%d-%d-%s' % (cls, i, j, '+'.join(w)
                                              if w is not names else 'all'),
                        fn='h_override',
                        params=dict(cls=cls, shape=s, other=t, which=w)))
    return out


# ---------------------------------------------------------------- T07

def refused(rt, label, cls, args):
    k, e = rt.attempt(kit.cls_of(rt, cls), **args)
    rt.check(label + ' is refused', k == 'exc')
    if k == 'exc':
        rt.check(label + ' with ValueError', isinstance(e, ValueError))


def h_length(rt, cls, shape, field, n):
    '''a byte field of length n instead of its own'''
    select(rt, cls)
    args, ref = fields(rt, Pool(rt), cls, 'o', shape)
    rt.do('well-formed', kit.cls_of(rt, cls), **args)
    refused(rt, 'wrong length', cls, dict(args, **{
        field: rt.bytes('bad', n) if n else b''}))
    if n:
        refused(rt, 'wrong length (bytearray)', cls, dict(args, **{
            field: bytearray(rt.bytes('bad', n))}))


def h_type(rt, cls, shape, field):
    select(rt, cls)
    args, ref = fields(rt, Pool(rt), cls, 'o', shape)
    n = len(ref[field]) if ref[field] is not None else 4
    for v in ('0' * n, [0] * n, n, 1.5, None, (0,) * n):
        if v is None and kit.SPEC[cls][1] and ref[field] is None:
            continue
        refused(rt, 'wrong type ' + type(v).__name__, cls,
                dict(args, **{field: v}))


def h_member(rt, cls, shape, field, where):
    '''a list field with a member that is not of its class'''
    select(rt, cls)
    args, ref = fields(rt, Pool(rt), cls, 'o', shape)
    kind = dict(SPEC[cls][1])[field][0]
    good = args[field][0]
    bad = [good.to_bytes(), good.hex(), None, 3]
    rm = rt.mod('riemann')
    rm.select_network('decred_main')
    dec = kit.rebuild_shape(rt, 'DecredTxOut', {'output_script': 1})
    dec2 = kit.rebuild_shape(rt, 'DecredTxIn', {})
    dec3 = kit.rebuild_shape(rt, 'DecredInputWitness', {})
    select(rt, cls)
    out = kit.rebuild_shape(rt, 'TxOut', {'output_script': 1})
    inp = kit.rebuild_shape(rt, 'TxIn', {})
    for x in (dec, dec2, dec3, out, inp):
        if type(x).__name__ != kind:
            bad.append(x)
    for b in bad:
        lst = list(args[field])
        lst[0 if where == 'first' else -1] = b
        refused(rt, 'wrong member', cls, dict(args, **{field: lst}))
    refused(rt, 'extra wrong member', cls,
            dict(args, **{field: list(args[field]) + [out
                          if kind != 'TxOut' else inp]}))


def h_txin_size(rt, a, b):
    rt.mod('riemann').select_network('bitcoin_main')
    args, ref = fields(rt, Pool(rt), 'TxIn', 'o',
                       {'stack_script': a, 'redeem_script': b})
    if a + b > 1650:
        refused(rt, 'long script_sig', 'TxIn', args)
    else:
        o = rt.do('build', kit.cls_of(rt, 'TxIn'), **args)
        rt.check('bytes', o.to_bytes() == ser(ref))


def h_tx(rt, what):
    rt.mod('riemann').select_network('bitcoin_main')
    tx = rt.mod('riemann.tx.tx')
    flag = what.startswith('flag')
    sh = {'flag': 1 if flag else 0, 'tx_ins': [{}, {}], 'tx_outs': [{}],
          'tx_witnesses': [{'stack': [{'item': 1}]}, {}] if flag else []}
    args, ref = fields(rt, Pool(rt), 'Tx', 'o', sh)
    w, v = tx.InputWitness([]), tx.InputWitness(
        [tx.WitnessStackItem(rt.bytes('wi', 2))])
    bad = []
    if what == 'flag-bytes':
        n = rt.choice('n', [0, 1, 2, 3])
        f = rt.bytes('flag%d' % n, n) if n else b''
        rt.assume(f != b'\x00\x01')
        bad = [dict(args, flag=f), dict(args, flag=f, tx_witnesses=None),
               dict(args, flag=f, tx_witnesses=[])]
    elif what == 'witness-without-flag':
        bad = [dict(args, tx_witnesses=[w, v]), dict(args, tx_witnesses=[w]),
               dict(args, tx_witnesses=(v, v))]
    elif what == 'flag-count':
        bad = [dict(args, tx_witnesses=x) for x in
               ([w], [w, v, w], (v,), [v] * 5)]
    elif what == 'no-ins':
        bad = [dict(args, tx_ins=[]), dict(args, tx_ins=())]
    elif what == 'no-outs':
        bad = [dict(args, tx_outs=[]), dict(args, tx_outs=())]
    elif what == 'flag-no-ins':
        bad = [dict(args, tx_ins=[], tx_witnesses=[]),
               dict(args, tx_ins=[], tx_witnesses=None),
               dict(args, tx_outs=[])]
    for a in bad:
        refused(rt, what, 'Tx', a)
    rt.do('well-formed', tx.Tx, **args)


def h_foreign(rt, cls, net):
    '''Decred and Zcash classes refuse other networks'''
    select(rt, cls)
    args, ref = fields(rt, Pool(rt), cls, 'o', SHAPES[cls][0])
    rt.do('well-formed', kit.cls_of(rt, cls), **args)
    rt.mod('riemann').select_network(net)
    refused(rt, 'foreign network', cls, args)


def h_decred_counts(rt):
    select(rt, 'DecredTx')
    args, ref = fields(rt, Pool(rt), 'DecredTx', 'o', SHAPES['DecredTx'][0])
    rt.do('well-formed', kit.cls_of(rt, 'DecredTx'), **args)
    for x in ([], ()):
        refused(rt, 'no inputs', 'DecredTx', dict(args, tx_ins=x))
        refused(rt, 'no outputs', 'DecredTx', dict(args, tx_outs=x))


def h_vpub(rt, cls):
    select(rt, cls)
    args, ref = fields(rt, Pool(rt), cls, 'o', {})
    a, b = rt.bytes('a', 8), rt.bytes('b', 8)
    args = dict(args, vpub_old=a, vpub_new=b)
    both = rt.all([a != bytes(8), b != bytes(8)])
    k, o = rt.attempt(kit.cls_of(rt, cls), **args)
    if both:
        rt.check('both values', k == 'exc' and isinstance(o, ValueError))
    else:
        rt.check('one value', k == 'ok')
        if k == 'ok':
            same(rt, 'one value', o, dict(ref, vpub_old=a, vpub_new=b))


def h_expiry(rt, cls):
    select(rt, cls)
    args, ref = fields(rt, Pool(rt), cls, 'o', SHAPES[cls][0])
    e = rt.bytes('e', 4)
    high = int.from_bytes(e, 'little') > 499999999
    args = dict(args, expiry_height=e)
    k, o = rt.attempt(kit.cls_of(rt, cls), **args)
    if high:
        rt.check('too high', k == 'exc' and isinstance(o, ValueError))
    else:
        rt.check('fine', k == 'ok')
        if k == 'ok':
            same(rt, 'fine', o, dict(ref, expiry_height=e))


def h_balance(rt, shape):
    select(rt, 'SaplingTx')
    args, ref = fields(rt, Pool(rt), 'SaplingTx', 'o', shape)
    v = rt.bytes('v', 8)
    args = dict(args, value_balance=v)
    k, o = rt.attempt(kit.cls_of(rt, 'SaplingTx'), **args)
    if shape.get('tx_shielded_spends') or shape.get('tx_shielded_outputs'):
        bad = False
    else:
        bad = v != bytes(8)
    if bad:
        rt.check('balance without shielded parts',
                 k == 'exc' and isinstance(o, ValueError))
    else:
        rt.check('fine', k == 'ok')
        if k == 'ok':
            same(rt, 'fine', o, dict(ref, value_balance=v))


def h_joinsplits(rt, cls, count):
    select(rt, cls)
    sh = {'tx_ins': [{}], 'tx_outs': [{}], 'version': 2,
          'tx_joinsplits': [{}] * count}
    args, ref = fields(rt, Pool(rt), cls, 'o', sh)
    if count > 5:
        refused(rt, 'too many joinsplits', cls, args)
        return
    same(rt, 'fine', rt.do('build', kit.cls_of(rt, cls), **args), ref)
    if not count:
        return
    for f, n in (('joinsplit_pubkey', 32), ('joinsplit_sig', 64)):
        for bad in (None, rt.bytes('s' + f, n - 1), rt.bytes('l' + f, n + 1),
                    'a' * n):
            refused(rt, 'missing or wrong ' + f, cls, dict(args, **{f: bad}))


def h_sprout_version(rt):
    select(rt, 'SproutTx')
    tx = kit.cls_of(rt, 'SproutTx')
    args, ref = fields(rt, Pool(rt), 'SproutTx', 'o',
                       {'version': 2, 'tx_ins': [{}], 'tx_outs': [{}],
                        'tx_joinsplits': [{}]})
    ver = rt.bytes('ver', 4)
    n = int.from_bytes(ver, 'little')
    k, o = rt.attempt(tx, **dict(args, version=ver))
    if n == 2:
        rt.check('version 2', k == 'ok')
    else:
        rt.check('version or joinsplits refused',
                 k == 'exc' and isinstance(o, ValueError))
    v1 = dict(args, tx_joinsplits=[], joinsplit_pubkey=None,
              joinsplit_sig=None)
    k, o = rt.attempt(tx, **dict(v1, version=ver))
    if rt.any([n == 1, n == 2]):
        rt.check('version 1 or 2', k == 'ok')
    else:
        rt.check('other versions refused',
                 k == 'exc' and isinstance(o, ValueError))
    refused(rt, 'version 1 without inputs', 'SproutTx',
            dict(v1, version=b'\x01\x00\x00\x00', tx_ins=[]))


def h_no_value(rt, cls):
    select(rt, cls)
    args, ref = fields(rt, Pool(rt), cls, 'o', SHAPES[cls][0])
    refused(rt, 'no input value', cls, dict(args, tx_ins=[]))
    if cls == 'SaplingTx':
        sh = {'tx_shielded_outputs': [{}], 'tx_outs': [{}]}
        args, ref = fields(rt, Pool(rt), cls, 'q', sh)
        refused(rt, 'outputs only', cls, args)


def h_binding(rt):
    select(rt, 'SaplingTx')
    for i, sh in enumerate(({'tx_shielded_spends': [{}]},
                            {'tx_ins': [{}], 'tx_shielded_outputs': [{}]})):
        args, ref = fields(rt, Pool(rt), 'SaplingTx', 'o%d' % i, sh)
        same(rt, 'fine', rt.do('build', kit.cls_of(rt, 'SaplingTx'),
                               **args), ref)
        for n in (0, 63, 65):
            refused(rt, 'binding signature length', 'SaplingTx',
                    dict(args, binding_sig=rt.bytes('b%d' % n, n)
                         if n else b''))
        refused(rt, 'missing binding signature', 'SaplingTx',
                dict(args, binding_sig=None))


def h_size(rt, cls, size):
    '''a transaction of exactly size bytes'''
    select(rt, cls)
    oc = 'DecredTxOut' if cls == 'DecredTx' else 'TxOut'
    sh = dict(SHAPES[cls][0], tx_ins=[{}], tx_outs=[{}], tx_witnesses=[])
    args, ref = fields(rt, Pool(rt), cls, 'o', sh)
    base = len(ser(ref))
    oargs, oref = fields(rt, Pool(rt), oc, 'big', {'output_script': 3})
    # one output with a long script: 4 more bytes of length prefix than none
    more = size - base - (len(ser(oref)) - 3) - 4
    oref['output_script'] = oargs['output_script'] = \
        oref['output_script'] + b'\x51' * (more - 3)
    big = rt.do('output', kit.cls_of(rt, oc), **oargs)
    args = dict(args, tx_outs=args['tx_outs'] + [big])
    ref = dict(ref, tx_outs=ref['tx_outs'] + [oref])
    rt.check('size', len(ser(ref)) == size)
    k, o = rt.attempt(kit.cls_of(rt, cls), **args)
    if size > 100000 and cls != 'Tx':
        rt.check('too large', k == 'exc' and isinstance(o, ValueError))
    else:
        rt.check('fine', k == 'ok')
        if k == 'ok':
            rt.check('bytes', o.to_bytes() == ser(ref))


FULL = {
    'Tx': {'tx_ins': [{}, {}], 'tx_outs': [{}, {}], 'flag': 1,
           'tx_witnesses': [{}, {}]},
    'InputWitness': {'stack': [{}, {'item': 1}]},
    'DecredTx': {'tx_ins': [{}, {}], 'tx_outs': [{}, {}],
                 'tx_witnesses': [{}, {}]},
    'SproutTx': {'version': 2, 'tx_ins': [{}, {}], 'tx_outs': [{}, {}],
                 'tx_joinsplits': [{}, {}]},
    'OverwinterTx': {'tx_ins': [{}, {}], 'tx_outs': [{}, {}],
                     'tx_joinsplits': [{}, {}]},
    'SaplingTx': {'tx_ins': [{}, {}], 'tx_outs': [{}, {}],
                  'tx_joinsplits': [{}, {}], 'tx_shielded_spends': [{}, {}],
                  'tx_shielded_outputs': [{}, {}]},
}


def t07(tier):
    q = tier == 'quick'
    out = []
    for cls in SPEC:
        sh = SHAPES[cls][0]
        for f, kind in SPEC[cls][1]:
            n = kind if type(kind) is list else {
                'exp': 4, 'bal': 8, 'v12': 4}.get(kind, kind)
            if type(n) is int:
                for m in (0, n - 1, n + 1) if q else (
                        0, 1, n // 2, n - 1, n + 1, n + 2, 2 * n):
                    if m != n and not (m == 0 and n == 1):
                        out.append(dict(
                            name='length-%s-%s-%d' % (cls, f, m),
                            fn='h_length', params=dict(
                                cls=cls, shape=sh, field=f, n=m)))
            if type(n) is int or kind == '*':
                out.append(dict(name='type-%s-%s' % (cls, f), fn='h_type',
                                params=dict(cls=cls, shape=sh, field=f)))
            if f == 'zkproof':
                out.append(dict(name='type-%s-%s' % (cls, f), fn='h_type',
                                params=dict(cls=cls, shape=sh, field=f)))
            if f == 'outpoint':
                for m in (0, 32, 35, 36, 37, 38):
                    if m != (37 if cls[0] == 'D' else 36):
                        out.append(dict(
                            name='length-%s-%s-%d' % (cls, f, m),
                            fn='h_length', params=dict(
                                cls=cls, shape=sh, field=f, n=m)))
                out.append(dict(name='type-%s-%s' % (cls, f), fn='h_type',
                                params=dict(cls=cls, shape=sh, field=f)))
            if type(kind) is list:
                for where in ('first', 'last'):
                    out.append(dict(
                        name='member-%s-%s-%s' % (cls, f, where),
                        fn='h_member', params=dict(
                            cls=cls, shape=FULL[cls], field=f,
                            where=where)))
        if cls.startswith(('Decred', 'S', 'O')) and cls != 'Outpoint':
            for net in ('bitcoin_main', 'decred_main', 'zcash_sprout_main',
                        'zcash_overwinter_main', 'zcash_sapling_main'):
                if cls.startswith('Decred'):
                    bad = not net.startswith('decred')
                elif cls in TXS:
                    bad = net != kit.net_of(cls)
                else:
                    bad = not net.startswith('zcash')
                if bad:
                    out.append(dict(name='foreign-%s-%s' % (cls, net),
                                    fn='h_foreign',
                                    params=dict(cls=cls, net=net)))
    for a, b in ((1650, 0), (0, 1650), (1000, 650), (1651, 0), (0, 1651),
                 (1000, 651), (1650, 1), (1, 1650), (826, 825), (2000, 2000)):
        out.append(dict(name='script-sig-%d-%d' % (a, b), fn='h_txin_size',
                        params=dict(a=a, b=b)))
    for w in ('flag-bytes', 'witness-without-flag', 'flag-count', 'no-ins',
              'no-outs', 'flag-no-ins'):
        out.append(dict(name='tx-' + w, fn='h_tx', params=dict(what=w)))
    out.append(dict(name='decred-counts', fn='h_decred_counts', params={}))
    for c in ('SproutJoinsplit', 'SaplingJoinsplit'):
        out.append(dict(name='vpub-' + c, fn='h_vpub', params=dict(cls=c)))
    for c in ('OverwinterTx', 'SaplingTx'):
        out.append(dict(name='expiry-' + c, fn='h_expiry',
                        params=dict(cls=c)))
        out.append(dict(name='no-value-' + c, fn='h_no_value',
                        params=dict(cls=c)))
    for i, s in enumerate(SHAPES['SaplingTx']):
        out.append(dict(name='balance-%d' % i, fn='h_balance',
                        params=dict(shape=s)))
    for c in ('SproutTx', 'OverwinterTx', 'SaplingTx'):
        for n in (0, 1, 4, 5, 6, 7):
            out.append(dict(name='joinsplits-%s-%d' % (c, n),
                            fn='h_joinsplits', cost=3,
                            params=dict(cls=c, count=n)))
    for c in TXS:
        for n in (99999, 100000, 100001, 100002, 131073):
            out.append(dict(name='size-%s-%d' % (c, n), fn='h_size', cost=9,
                            params=dict(cls=c, size=n)))
    out.append(dict(name='sprout-version', fn='h_sprout_version', params={}))
    out.append(dict(name='binding', fn='h_binding', params={}))
    return out


CASES = {'T05': t05, 'T06': t06, 'T07': t07}
BOUNDS = {
    'T05': 'every class of every chain, symbolic field contents; 0-2 inputs, '
           'outputs, witnesses, joinsplits, spends, shielded outputs; '
           'scripts up to 3 bytes (107 for one input); every buffer and list '
           'handed in is mutated at its first or last element, grown or '
           'emptied; digests for every input, ALL and SINGLE, with and '
           'without ANYONECANPAY; each existing attribute and a new one is '
           'assigned values of several types',
    'T06': 'the same classes and shapes; overrides of every single field, '
           'all fields, and (where copied onto the same shape, or classes '
           'under 7 fields in the thorough tier) every pair, taken from a '
           'second symbolic instance of the same or another shape',
    'T07': 'every class; lengths 0, n-1 and n+1 (thorough: 7 lengths) of '
           'each fixed-size field with symbolic contents; 6 wrong types per '
           'field; first and last list member replaced by bytes, text, '
           'None, a number and members of other classes; script_sig sizes '
           'around 1650 and up to 4000; all values of the version, expiry, '
           'joinsplit value and value balance fields; 0-7 joinsplits; '
           'sizes 99999 to 100002 and 131073 bytes; '
           'foreign networks bitcoin, decred and the Zcash ones',
}
