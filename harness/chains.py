'''Z01, Z02: Zcash layouts; D01: Decred layouts'''
from harness import kit, nettable
from harness.kit import Pool, fields, part, ser, same, SHAPES

COMPONENTS = ('SproutZkproof', 'SproutJoinsplit', 'SaplingZkproof',
              'SaplingShieldedSpend', 'SaplingShieldedOutput',
              'SaplingJoinsplit')
SCRIPTS = ('stack_script', 'redeem_script')


def like(rt, label, o, r):
    '''o was parsed: same as r, but its scripts may be split otherwise'''
    rt.check(label + ' bytes', o.to_bytes() == ser(r))
    for f, kind in kit.SPEC[r['cls']][1]:
        v, want = getattr(o, f), r[f]
        if f in SCRIPTS and r['cls'] == 'TxIn':
            continue
        if type(want) is list:
            rt.check(label + ' ' + f + ' count', len(v) == len(want))
            for a, b in zip(v, want):
                like(rt, label, a, b)
        elif type(want) is dict:
            like(rt, label, v, want)
        elif want is None:
            rt.check(label + ' ' + f, v is None)
        else:
            rt.check(label + ' ' + f, v is not None and bytes(v) == want)
    for f, want in kit.derived(rt, r).items():
        kit.check_value(rt, label + ' ' + f, getattr(o, f), want)


def h_part(rt, net, cls, shape, tail):
    rt.mod('riemann').select_network(net)
    o, ref = part(rt, Pool(rt), cls, 'o', shape)
    same(rt, 'built', o, ref)
    rest = rt.bytes('tail', tail) if tail else b''
    p = rt.do('parse', kit.cls_of(rt, cls).from_bytes, ser(ref) + rest)
    like(rt, 'parsed', p, ref)
    h = rt.do('parse hex', kit.cls_of(rt, cls).from_hex,
              (ser(ref) + rest).hex())
    rt.check('hex variant', h.to_bytes() == ser(ref))
    rt.check('hex of the object', p.hex() == ser(ref).hex())


def h_cut(rt, net, cls, shape):
    '''a serialization cut anywhere is refused'''
    rt.mod('riemann').select_network(net)
    args, ref = fields(rt, Pool(rt), cls, 'o', shape)
    if type(ref.get('zkproof')) is dict:
        args['zkproof'] = kit.rebuild(rt, ref['zkproof'])
    raw = ser(ref)
    cuts = sorted(set(list(range(0, min(len(raw), 12)))
                      + list(range(len(raw) - 70, len(raw)))
                      + list(range(0, len(raw), 37))))
    f = kit.cls_of(rt, cls).from_bytes
    for c in cuts:
        if 0 <= c < len(raw):
            k, o = rt.attempt(f, raw[:c])
            rt.check('cut off', k == 'exc')


def h_tx(rt, net, cls, shape, tail):
    rt.mod('riemann').select_network(net)
    o, ref = part(rt, Pool(rt), cls, 'o', shape)
    same(rt, 'built', o, ref)
    rest = rt.bytes('tail', tail) if tail else b''
    p = rt.do('parse', kit.cls_of(rt, cls).from_bytes, ser(ref) + rest)
    like(rt, 'parsed', p, ref)
    h = rt.do('parse hex', kit.cls_of(rt, cls).from_hex, ser(ref).hex())
    rt.check('hex variant', h.to_bytes() == ser(ref))


def fixed(cls, n, **k):
    '''n parts of known content, the last one marked'''
    out = []
    for i in range(n):
        r = {'cls': cls}
        for f, kind in kit.SPEC[cls][1]:
            if type(kind) is int:
                r[f] = bytes([i % 251] * kind)
            elif kind == '*':
                r[f] = k.get(f, b'')
            else:
                r[f] = fixed(kind, 1)[0]
        if 'vpub_old' in r:
            r['vpub_old'] = bytes(8)
        out.append(r)
    return out


def h_many(rt, net, cls, shape, counts):
    '''counts at the CompactSize limits, contents mostly fixed'''
    rt.mod('riemann').select_network(net)
    args, ref = fields(rt, Pool(rt), cls, 'o', shape)
    kinds = dict(kit.SPEC[cls][1])
    for f, n in sorted(counts.items()):
        more = fixed(kinds[f][0], n - len(ref[f]))
        ref[f] = ref[f] + more
        args[f] = args[f] + [kit.rebuild(rt, x) for x in more]
    o = rt.do('build', kit.cls_of(rt, cls), **args)
    raw = ser(ref)
    rt.check('built bytes', o.to_bytes() == raw)
    p = rt.do('parse', kit.cls_of(rt, cls).from_bytes, raw)
    rt.check('parsed bytes', p.to_bytes() == raw)
    for f in kinds:
        if type(kinds[f]) is list:
            rt.check(f + ' count', len(getattr(p, f)) == len(ref[f]))
            for a, b in list(zip(getattr(p, f), ref[f]))[-3:]:
                rt.check(f + ' item', a.to_bytes() == ser(b))
    rt.check('id', p.tx_id_le == o.tx_id_le)


def h_header(rt, net, cls):
    '''any other header or group id is refused'''
    rt.mod('riemann').select_network(net)
    args, ref = fields(rt, Pool(rt), cls, 'o', {'tx_ins': [{}],
                                                'tx_outs': [{}]})
    raw = ser(ref)
    head = rt.bytes('head', 8)
    f = kit.cls_of(rt, cls).from_bytes
    k, o = rt.attempt(f, head + raw[8:])
    if head == raw[:8]:
        rt.check('the header is accepted', k == 'ok')
        if k == 'ok':
            rt.check('bytes', o.to_bytes() == raw)
    else:
        rt.check('other headers are refused',
                 k == 'exc' and isinstance(o, ValueError))


def h_version(rt, net):
    '''Sprout: only versions 1 and 2'''
    rt.mod('riemann').select_network(net)
    args, ref = fields(rt, Pool(rt), 'SproutTx', 'o', {
        'tx_ins': [{}], 'tx_outs': [{}], 'version': 1})
    raw = ser(ref)
    ver = rt.bytes('ver', 4)
    f = kit.cls_of(rt, 'SproutTx').from_bytes
    k, o = rt.attempt(f, ver + raw[4:] + b'\x00')
    n = int.from_bytes(ver, 'little')
    if rt.any([n == 1, n == 2]):
        rt.check('accepted', k == 'ok')
        if k == 'ok':
            rt.check('bytes', o.to_bytes() == ver + raw[4:]
                     + (b'\x00' if n == 2 else b''))
    else:
        rt.check('other versions are refused',
                 k == 'exc' and isinstance(o, ValueError))


def h_decred_part(rt, net, cls, shape, tail):
    rt.mod('riemann').select_network(net)
    o, ref = part(rt, Pool(rt), cls, 'o', shape)
    same(rt, 'built', o, ref)
    if cls == 'DecredInputWitness':
        rt.check('script length', o.script_len == len(
            ref['stack_script'] + ref['redeem_script']))
        return
    rest = rt.bytes('tail', tail) if tail else b''
    if shape.get('output_script', 0) > 251:
        k, p = rt.attempt(kit.cls_of(rt, cls).from_bytes, ser(ref) + rest)
        rt.check('long scripts are refused', k == 'exc')
        return
    p = rt.do('parse', kit.cls_of(rt, cls).from_bytes, ser(ref) + rest)
    same(rt, 'parsed', p, ref)
    h = rt.do('parse hex', kit.cls_of(rt, cls).from_hex, ser(ref).hex())
    same(rt, 'parsed hex', h, ref)


def h_decred_free(rt, net, cls, n):
    '''any bytes: refused, or the object is what was read'''
    rt.mod('riemann').select_network(net)
    b = rt.bytes('b', n) if n else b''
    k, o = rt.attempt(kit.cls_of(rt, cls).from_bytes, b)
    if k == 'ok':
        r = o.to_bytes()
        rt.check('a prefix of what was read', r == b[:len(r)])
    elif cls != 'DecredTxOut':
        rt.check('long enough is accepted', n < {
            'DecredOutpoint': 37, 'DecredTxIn': 41}[cls])
    else:
        rt.check('refused', n < 11 or b[10] > n - 11)


def h_decred_tx(rt, net, shape):
    rt.mod('riemann').select_network(net)
    blake = rt.mod('riemann.blake256').blake_hash
    o, ref = part(rt, Pool(rt), 'DecredTx', 'o', shape)
    same(rt, 'built', o, ref)
    rt.check('prefix', o.prefix() == kit.decred_prefix(ref))
    rt.check('witness', o.witness() == kit.decred_witness(ref))
    rt.check('witness signing',
             o.witness_signing() == kit.decred_witness_signing(ref))
    rt.check('prefix hash', o.prefix_hash() == blake(
        kit.decred_prefix(ref)))
    rt.check('witness hash', o.witness_hash() == blake(
        kit.decred_witness(ref)))
    rt.check('witness signing hash', o.witness_signing_hash() == blake(
        kit.decred_witness_signing(ref)))
    c = rt.do('other witnesses', o.copy, tx_witnesses=[])
    rt.check('id without witnesses', c.tx_id == o.tx_id)


# ---------------------------------------------------------------- cases

NETS = {c: [n for n in nettable.NET if n.startswith(p)] for c, p in (
    ('SproutTx', 'zcash_sprout'), ('OverwinterTx', 'zcash_overwinter'),
    ('SaplingTx', 'zcash_sapling'), ('Decred', 'decred'))}


def z01(tier):
    out = []
    for c in COMPONENTS:
        for i, s in enumerate(SHAPES[c]):
            for t in (0, 1, 40) if tier == 'quick' else (0, 1, 2, 40, 400):
                out.append(dict(name='%s-%d-tail-%d' % (c, i, t),
                                fn='h_part', params=dict(
                                    net=kit.net_of(c), cls=c, shape=s,
                                    tail=t)))
            out.append(dict(name='%s-%d-cut' % (c, i), fn='h_cut',
                            params=dict(net=kit.net_of(c), cls=c,
                                        shape=s)))
        for net in nettable.NET:
            if net.startswith('zcash'):
                out.append(dict(name='%s-net-%s' % (c, net), fn='h_part',
                                params=dict(net=net, cls=c, shape={},
                                            tail=2)))
    for c in ('SproutTx', 'OverwinterTx', 'SaplingTx'):
        for n in (1, 2, 5) if tier == 'quick' else (1, 2, 3, 4, 5):
            sh = {'version': 2, 'tx_joinsplits': [
                {}, {'vpub': 'old'}, {}, {}, {'vpub': 'old'}][:n]}
            out.append(dict(name='hsigs-%s-%d' % (c, n), fn='h_tx', cost=3,
                            params=dict(net=kit.net_of(c), cls=c, shape=sh,
                                        tail=0)))
    return out


IN = [{}, {'stack_script': 1, 'redeem_script': 1}, {}]
OUT = [{'output_script': 3}, {}, {'output_script': 25}]
JSP = [{}, {'vpub': 'old'}, {}]


def z02(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, cost=1, **k):
        out.append(dict(name=name, fn=fn, cost=cost, params=k))
    n = 3 if q else 4
    for c in ('SproutTx', 'OverwinterTx', 'SaplingTx'):
        net = kit.net_of(c)
        for a in range(n):
            for b in range(n):
                for j in range(n if q is False else 3):
                    if c == 'SproutTx':
                        vs = (1, 2) if j == 0 else (2,)
                    else:
                        vs = (0,)
                    for v in vs:
                        sh = dict(tx_ins=IN[:a] if j < 2 else [{}] * a,
                                  tx_outs=OUT[:b], tx_joinsplits=JSP[:j])
                        if v:
                            sh['version'] = v
                        if v == 1 and a == 0:
                            continue
                        if c != 'SproutTx' and a + j == 0:
                            continue
                        add('%s-%d-%d-%d%s' % (c, a, b, j, '-v%d' % v
                                               if v else ''),
                            'h_tx', 2 + j, net=net, cls=c, shape=sh,
                            tail=(a + b + j) % 3)
        for k in NETS[c]:
            add('%s-net-%s' % (c, k), 'h_tx', net=k, cls=c, tail=0,
                shape=dict(tx_ins=IN[:1], tx_outs=OUT[:1],
                           tx_joinsplits=JSP[:1], version=2))
        sh = dict(tx_ins=IN[:1], tx_outs=OUT[:1], tx_joinsplits=JSP[:1],
                  version=2, tx_shielded_spends=[{}])
        for m in (252, 253, 254) if q else (252, 253, 254, 300, 1000):
            for f in ('tx_ins', 'tx_outs'):
                add('%s-%d-%s' % (c, m, f), 'h_many', 9, net=net, cls=c,
                    shape=sh, counts={f: m})
        add('%s-cut' % c, 'h_cut', 3, net=net, cls=c, shape=dict(
            sh, tx_ins=[{}], tx_outs=OUT[:2]))
        add('%s-cut-plain' % c, 'h_cut', 3, net=net, cls=c, shape=dict(
            tx_ins=[{}], tx_outs=OUT[:1], version=2))
        if c != 'SproutTx':
            add('%s-header' % c, 'h_header', net=net, cls=c)
    add('sprout-versions', 'h_version', net='zcash_sprout_main')
    m = 3
    for a in range(m):
        for b in range(m):
            for j in (0, 1) if q else (0, 1, 2):
                for i in (0, 1) if q else (0, 1, 2):
                    if a + i + j == 0 or a + b == 0:
                        continue
                    add('sapling-%d-%d-%d-%d' % (a, b, j, i), 'h_tx', 3,
                        net='zcash_sapling_main', cls='SaplingTx', tail=0,
                        shape=dict(tx_ins=IN[:i], tx_outs=OUT[:i],
                                   tx_shielded_spends=[{}] * a,
                                   tx_shielded_outputs=[{}] * b,
                                   tx_joinsplits=JSP[:j]))
    for m in (252, 253):
        add('sapling-%d-spends' % m, 'h_many', 9, net='zcash_sapling_main',
            cls='SaplingTx', shape=dict(tx_shielded_spends=[{}],
                                        tx_joinsplits=[]),
            counts={'tx_shielded_spends': m})
    add('sapling-90-outputs', 'h_many', 9, net='zcash_sapling_main',
        cls='SaplingTx', shape=dict(tx_ins=[{}], tx_shielded_outputs=[{}]),
        counts={'tx_shielded_outputs': 90})
    return out


def d01(tier):
    q = tier == 'quick'
    out = []
    for c in ('DecredOutpoint', 'DecredTxIn', 'DecredTxOut',
              'DecredInputWitness'):
        shapes = {'DecredTxOut': [{'output_script': n} for n in
                                  (0, 1, 25, 100, 251, 252, 253, 300)],
                  'DecredInputWitness': [
                      {'stack_script': a, 'redeem_script': b} for a, b in
                      ((0, 0), (1, 0), (0, 1), (107, 0), (2, 3), (252, 0),
                       (200, 53), (0, 252), (253, 300), (1650, 0))]
                  }.get(c, [{}])
        for i, s in enumerate(shapes):
            for t in (0, 1, 5):
                if c == 'DecredInputWitness' and t:
                    continue
                out.append(dict(name='%s-%d-%d' % (c, i, t),
                                fn='h_decred_part', params=dict(
                                    net='decred_main', cls=c, shape=s,
                                    tail=t)))
        for net in NETS['Decred']:
            out.append(dict(name='%s-%s' % (c, net), fn='h_decred_part',
                            params=dict(net=net, cls=c,
                                        shape=shapes[0], tail=0)))
        if c != 'DecredInputWitness':
            for n in (0, 1, 11, 12, 15, 36, 37, 40, 41, 42, 45):
                out.append(dict(name='free-%s-%d' % (c, n),
                                fn='h_decred_free', params=dict(
                                    net='decred_main', cls=c, n=n)))
    w = [{'stack_script': 2, 'redeem_script': 1}, {},
         {'stack_script': 107}]
    for a in (1, 2, 3):
        for b in (1, 2, 3):
            for k in sorted({0, 1, a}):
                out.append(dict(name='tx-%d-%d-%d' % (a, b, k),
                                fn='h_decred_tx', cost=2, params=dict(
                                    net='decred_main', shape=dict(
                                        tx_ins=[{}] * a, tx_outs=OUT[:b],
                                        tx_witnesses=w[:k]))))
    for net in NETS['Decred']:
        out.append(dict(name='tx-' + net, fn='h_decred_tx', params=dict(
            net=net, shape=dict(tx_ins=[{}], tx_outs=OUT[:1],
                                tx_witnesses=w[:1]))))
    for m in (252, 253, 254):
        for f in ('tx_ins', 'tx_outs', 'tx_witnesses'):
            sh = dict(tx_ins=[{}], tx_outs=[{}], tx_witnesses=[{}])
            sh[f] = [{}] * m
            out.append(dict(name='tx-%d-%s' % (m, f), fn='h_decred_tx',
                            cost=8, params=dict(net='decred_main',
                                                shape=sh)))
    return out


CASES = {'Z01': z01, 'Z02': z02, 'D01': d01}
BOUNDS = {
    'Z01': 'all field bytes symbolic; 0, 1 and 40 (thorough 5 lengths up to '
           '400) symbolic bytes after the component; cuts at every length '
           'within 12 of the start and 70 of the end and every 37th; '
           '1, 2 and 5 joinsplits (thorough 1-5) for hSig and primary '
           'inputs; every Zcash network',
    'Z02': 'all field bytes symbolic; 0-2 (thorough 0-3) inputs, outputs '
           'and joinsplits in all combinations, 0-2 spends and shielded '
           'outputs; 252-254 inputs, outputs (thorough up to 1000) and '
           'spends, mostly fixed bytes there; input scripts of 0 and 2 '
           'bytes, output scripts of 0, 3 and 25; all 2^64 headers and 2^32 '
           'versions; cuts as in Z01',
    'D01': 'all field bytes symbolic; scripts up to 300 (outputs) and 1650 '
           '(witnesses) bytes; 1-3 inputs and outputs, 0-3 witnesses, and '
           '252-254 of each; free byte strings of 11 lengths up to 45; '
           'every Decred network',
}
