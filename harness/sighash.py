'''H01-H03, Z03-Z05, D02: what gets signed, written from the protocols'''
import hashlib
from harness import kit, nettable
from harness.kit import Pool, fields, part, ser, vec, SHAPES
from harness.txref import cs, h256

PLAIN = tuple(n for n in nettable.NET
              if not n.startswith('decred') and not n.startswith('zcash'))
FORKID = {n: nettable.NET[n]['FORKID'] for n in PLAIN
          if nettable.NET[n].get('FORKID') is not None}
LEGACY = tuple(n for n in PLAIN if n not in FORKID)
ACP = 0x80


def le4(n):
    return n.to_bytes(4, 'little')


def script_code(rt, n):
    '''(what the caller gives, the script)'''
    s = rt.bytes('script', n) if n else b''
    return cs(n) + s, s


# ------------------------------------------------------------ references

def modified_copy(r, index, script, typ, acp):
    '''legacy protocol: the transaction that is hashed'''
    blank = dict(stack_script=b'', redeem_script=b'')
    ins = [dict(i, **blank) for i in r['tx_ins']]
    ins[index]['redeem_script'] = script
    outs = r['tx_outs']
    if typ == 3:
        outs = [dict(o, value=b'\xff' * 8, output_script=b'')
                for o in outs[:index]] + [outs[index]]
        ins = [i if k == index else dict(i, sequence=bytes(4))
               for k, i in enumerate(ins)]
    if acp:
        ins = [ins[index]]
    return dict(r, tx_ins=ins, tx_outs=outs)


def legacy(r, index, script, typ, acp):
    m = modified_copy(r, index, script, typ, acp)
    return h256(hashlib, ser(m) + le4(typ | (ACP if acp else 0)))


def bip143(r, index, code, value, typ, acp, hashtype):
    ins = r['tx_ins']
    zero = bytes(32)
    prevouts = zero if acp else h256(hashlib, b''.join(
        [ser(i['outpoint']) for i in ins]))
    seqs = zero if acp or typ == 3 else h256(hashlib, b''.join(
        [i['sequence'] for i in ins]))
    outs = h256(hashlib, ser(r['tx_outs'][index]) if typ == 3 else
                b''.join([ser(o) for o in r['tx_outs']]))
    return h256(hashlib, r['version'] + prevouts + seqs
                + ser(ins[index]['outpoint']) + code + value
                + ins[index]['sequence'] + outs + r['lock_time']
                + le4(hashtype))


def b2(person, data):
    return hashlib.blake2b(data, digest_size=32, person=person).digest()


def zip143(r, index, code, value, typ, acp, js):
    '''ZIP-143 and, for Sapling, ZIP-243'''
    sap = r['cls'] == 'SaplingTx'
    zero = bytes(32)
    ins = r['tx_ins']
    d = bytes.fromhex('0400008085202f89' if sap else '030000807082c403')
    d = d + (zero if acp else b2(b'ZcashPrevoutHash', b''.join(
        [ser(i['outpoint']) for i in ins])))
    d = d + (zero if acp or typ == 3 else b2(b'ZcashSequencHash', b''.join(
        [i['sequence'] for i in ins])))
    d = d + b2(b'ZcashOutputsHash', ser(r['tx_outs'][index]) if typ == 3
               else b''.join([ser(o) for o in r['tx_outs']]))
    if r['tx_joinsplits']:
        d = d + b2(b'ZcashJSplitsHash', b''.join(
            [ser(j) for j in r['tx_joinsplits']]) + r['joinsplit_pubkey'])
    else:
        d = d + zero
    if sap:
        if r['tx_shielded_spends']:
            d = d + b2(b'ZcashSSpendsHash', b''.join(
                [s['cv'] + s['anchor'] + s['nullifier'] + s['rk']
                 + ser(s['zkproof']) for s in r['tx_shielded_spends']]))
        else:
            d = d + zero
        if r['tx_shielded_outputs']:
            d = d + b2(b'ZcashSOutputHash', b''.join(
                [ser(s) for s in r['tx_shielded_outputs']]))
        else:
            d = d + zero
    d = d + r['lock_time'] + r['expiry_height']
    if sap:
        d = d + r['value_balance']
    d = d + le4(typ | (ACP if acp else 0))
    if not js:
        d = d + ser(ins[index]['outpoint']) + code + value \
            + ins[index]['sequence']
    return b2(b'ZcashSigHash' + bytes.fromhex(
        'bb09b876' if sap else '191ba85b'), d)


def decred(rt, r, index, script, typ, acp):
    blake = rt.mod('riemann.blake256').blake_hash
    ins, outs = r['tx_ins'], r['tx_outs']
    wits = [dict(w, stack_script=b'', redeem_script=b'')
            for w in r['tx_witnesses']]
    wits[index]['stack_script'] = script
    if typ == 3:
        outs = [dict(o, value=b'\xff' * 8, output_script=b'')
                for o in outs[:index]] + [outs[index]]
        ins = [i if k == index else dict(i, sequence=bytes(4))
               for k, i in enumerate(ins)]
    if acp:
        ins, wits = [ins[index]], [wits[index]]
    m = dict(r, tx_ins=ins, tx_outs=outs, tx_witnesses=wits)
    return blake(le4(typ | (ACP if acp else 0))
                 + blake(kit.decred_prefix(m))
                 + blake(kit.decred_witness_signing(m)))


# ------------------------------------------------------------ harnesses

KINDS = [(1, False), (1, True), (3, False), (3, True)]


def name_of(typ, acp):
    return ('ALL' if typ == 1 else 'SINGLE') + (
        '+ANYONECANPAY' if acp else '')


def refuse(rt, label, f, **args):
    k, e = rt.attempt(f, **args)
    rt.check(label, k == 'exc')


def entry(o, typ):
    return o.sighash_all if typ == 1 else o.sighash_single


def h_legacy(rt, net, cls, shape, index, size):
    '''H01 and Z03'''
    rt.mod('riemann').select_network(net)
    o, ref = part(rt, Pool(rt), cls, 'o', shape)
    given, script = script_code(rt, size)
    for typ, acp in KINDS:
        n = name_of(typ, acp)
        args = dict(index=index, script=given, anyone_can_pay=acp)
        if typ == 3 and index >= len(ref['tx_outs']):
            refuse(rt, n + ' without output is refused', entry(o, typ),
                   **args)
            continue
        d = rt.do(n, entry(o, typ), **args)
        rt.check(n, bytes(d) == legacy(ref, index, script, typ, acp))
        if not acp:
            d = rt.do(n + ' default', entry(o, typ), index, given)
            rt.check(n + ' default',
                     bytes(d) == legacy(ref, index, script, typ, False))
    if cls == 'Tx':
        refuse(rt, 'NONE is refused', o.sighash_none)
        refuse(rt, 'no such input', o.sighash_all,
               index=len(ref['tx_ins']), script=given)
    rt.check('unchanged', o.to_bytes() == ser(ref))


def h_parsed(rt, net, shape, index, size):
    '''the digest of a transaction read from its serialization'''
    rt.mod('riemann').select_network(net)
    args, ref = fields(rt, Pool(rt), 'Tx', 'o', shape)
    o = rt.do('parse', kit.cls_of(rt, 'Tx').from_bytes, ser(ref))
    given, script = script_code(rt, size)
    value = rt.bytes('value', 8)
    for typ, acp in KINDS:
        n = name_of(typ, acp)
        if typ == 3 and index >= len(ref['tx_outs']):
            continue
        a = dict(index=index, script=given, anyone_can_pay=acp)
        fid = FORKID.get(net)
        if ref['flag'] is not None or fid is not None:
            a['prevout_value'] = value
        d = rt.do(n, entry(o, typ), **a)
        if fid is not None:
            want = bip143(ref, index, given, value, typ, acp,
                          (fid << 8) | typ | 0x40 | (ACP if acp else 0))
        elif ref['flag'] is not None:
            want = bip143(ref, index, given, value, typ, acp,
                          typ | (ACP if acp else 0))
        else:
            want = legacy(ref, index, script, typ, acp)
        rt.check(n + ' parsed', bytes(d) == want)


def h_bip143(rt, net, shape, index, size):
    '''H02 and H03'''
    rt.mod('riemann').select_network(net)
    o, ref = part(rt, Pool(rt), 'Tx', 'o', shape)
    code, _ = script_code(rt, size)
    value = rt.bytes('value', 8)
    fid = FORKID.get(net)
    for typ, acp in KINDS:
        n = name_of(typ, acp)
        args = dict(index=index, script=code, prevout_value=value,
                    anyone_can_pay=acp)
        if typ == 3 and index >= len(ref['tx_outs']):
            refuse(rt, n + ' without output is refused', entry(o, typ),
                   **args)
            refuse(rt, n + ' without output is refused directly',
                   o.segwit_sighash, sighash_type=typ, **args)
            continue
        ht = typ | (ACP if acp else 0)
        if fid is not None:
            ht = (fid << 8) | ht | 0x40
        want = bip143(ref, index, code, value, typ, acp, ht)
        d = rt.do(n, entry(o, typ), **args)
        rt.check(n, bytes(d) == want)
        if not acp:
            d = rt.do(n + ' default', entry(o, typ), index, code, value)
            rt.check(n + ' default', bytes(d) == want)
        if fid is None:
            d = rt.do(n + ' direct', o.segwit_sighash, sighash_type=typ,
                      **args)
            rt.check(n + ' direct', bytes(d) == want)
        else:
            refuse(rt, 'missing value', entry(o, typ), index=index,
                   script=code, anyone_can_pay=acp)
            for k in (0, 4, 7, 9):
                refuse(rt, 'value size', entry(o, typ), **dict(
                    args, prevout_value=rt.bytes('v%d' % k, k)
                    if k else b''))
    rt.check('unchanged', o.to_bytes() == ser(ref))


def h_sprout_js(rt, shape, index, size):
    '''Z03 with joinsplits'''
    rt.mod('riemann').select_network('zcash_sprout_main')
    o, ref = part(rt, Pool(rt), 'SproutTx', 'o', shape)
    given, script = script_code(rt, size)
    r = dict(ref, joinsplit_sig=b'')
    if ref['tx_ins']:
        want = legacy(r, index, script, 1, False)
    else:
        want = h256(hashlib, ser(r) + le4(1))
    d = rt.do('ALL', o.sighash_all, index=index, script=given)
    rt.check('ALL with joinsplits', bytes(d) == want)
    refuse(rt, 'ALL+ANYONECANPAY with joinsplits', o.sighash_all,
           index=index, script=given, anyone_can_pay=True)
    for acp in (False, True):
        refuse(rt, 'SINGLE with joinsplits', o.sighash_single,
               index=index, script=given, anyone_can_pay=acp)
    rt.check('unchanged', o.to_bytes() == ser(ref))


def h_zip(rt, cls, net, shape, index, size, kinds, js):
    '''Z04 and Z05; kinds: (type, anyone_can_pay, through which entry)'''
    rt.mod('riemann').select_network(net)
    o, ref = part(rt, Pool(rt), cls, 'o', shape)
    code, _ = script_code(rt, size)
    value = rt.bytes('value', 8)
    for typ, acp, how in kinds:
        n = name_of(typ, acp) + ' ' + how
        args = dict(prevout_value=value, script_code=code)
        if js:
            args['joinsplit'] = True
        else:
            args['index'] = index
        if how == 'default':
            f = entry(o, typ)
        elif how == 'general':
            f = o.sighash
            args = dict(args, sighash_type=typ, anyone_can_pay=acp)
        else:
            f = entry(o, typ)
            args = dict(args, anyone_can_pay=acp)
        if js and acp:
            refuse(rt, 'ANYONECANPAY for joinsplits is refused', f, **args)
            continue
        if typ == 3 and index >= len(ref['tx_outs']):
            refuse(rt, n + ' without output is refused', f, **args)
            continue
        d = rt.do(n, f, **args)
        rt.check(n, bytes(d) == zip143(ref, index, code, value, typ, acp,
                                       js))
    rt.check('unchanged', o.to_bytes() == ser(ref))


def h_decred(rt, net, shape, index, size):
    '''D02'''
    rt.mod('riemann').select_network(net)
    o, ref = part(rt, Pool(rt), 'DecredTx', 'o', shape)
    script = rt.bytes('script', size) if size else b''
    for typ, acp in KINDS:
        n = name_of(typ, acp)
        args = dict(index=index, script=script, anyone_can_pay=acp)
        if typ == 3 and index >= len(ref['tx_outs']):
            refuse(rt, n + ' without output is refused', entry(o, typ),
                   **args)
            continue
        d = rt.do(n, entry(o, typ), **args)
        rt.check(n, bytes(d) == decred(rt, ref, index, script, typ, acp))
        if not acp:
            d = rt.do(n + ' default', entry(o, typ), index, script)
            rt.check(n + ' default', bytes(d) == decred(
                rt, ref, index, script, typ, False))
    refuse(rt, 'NONE is refused', o.sighash_none)
    rt.check('unchanged', o.to_bytes() == ser(ref))


# ---------------------------------------------------------------- cases

IN = [{'stack_script': 2, 'redeem_script': 1}, {}, {'stack_script': 107},
     {'redeem_script': 3}, {}]
OUT = [{'output_script': 3}, {}, {'output_script': 25},
     {'output_script': 1}, {}]
W = [{'stack': [{'item': 2}, {}]}, {}, {'stack': [{'item': 1}]}, {}, {}]


def counts(tier):
    n = 3 if tier == 'quick' else 5
    return [(a, b) for a in range(1, n + 1) for b in range(1, n + 1)]


def sizes(tier):
    return (0, 1, 25, 252, 253) if tier == 'quick' else (
        0, 1, 2, 22, 25, 35, 75, 76, 252, 253, 520, 1650)


def shape_of(cls, a, b, flag=0):
    sh = {'tx_ins': IN[:a], 'tx_outs': OUT[:b]}
    if cls == 'Tx' and flag:
        sh.update(flag=1, tx_witnesses=W[:a])
    if cls == 'DecredTx':
        sh['tx_ins'] = [{}] * a
        sh['tx_witnesses'] = IN[:a]
    return sh


def plain(tier, nets, fn, flags, base, prm):
    out = []

    def add(name, **k):
        out.append(dict(name=name, fn=k.pop('fn', fn), cost=k.pop('cost', 2),
                        params=dict(k, **prm)))
    for flag in flags:
        for a, b in counts(tier):
            for i in range(a):
                add('%d-in-%d-out-%d-%s' % (a, b, i, 'wit' if flag
                                            else 'plain'),
                    net=base, shape=shape_of('Tx', a, b, flag), index=i,
                    size=25)
        for n in sizes(tier):
            add('script-%d-%s' % (n, 'wit' if flag else 'plain'), net=base,
                shape=shape_of('Tx', 2, 2, flag), index=1, size=n)
        for net in nets:
            add('net-%s-%s' % (net, 'wit' if flag else 'plain'), net=net,
                shape=shape_of('Tx', 2, 2, flag), index=1, size=3)
        for i in (0, 1):
            out.append(dict(
                name='parsed-%d-%s' % (i, 'wit' if flag else 'plain'),
                fn='h_parsed', cost=3, params=dict(
                    net=base, index=i, size=25, shape=dict(
                        shape_of('Tx', 2, 1 + i, flag),
                        tx_ins=[{}, {'stack_script': 2}]))))
        add('many-outs-%d' % flag, net=base, cost=5, index=0, size=1,
            shape=shape_of('Tx', 1, 0, flag)
            | {'tx_outs': [{}] * 260})
        add('many-ins-%d' % flag, net=base, cost=5, index=17, size=1,
            shape={'tx_ins': [{}] * 260,
                   'tx_outs': [{}] * 19, 'flag': flag,
                   'tx_witnesses': [{}] * 260
                   if flag else []})
    return out


def h01(tier):
    return plain(tier, LEGACY, 'h_legacy', (0,), 'bitcoin_main',
                 dict(cls='Tx'))


def h02(tier):
    return plain(tier, LEGACY, 'h_bip143', (1,), 'bitcoin_main', {})


def h03(tier):
    out = plain(tier, FORKID, 'h_bip143', (0, 1), 'bitcoin_cash_main'
                if 'bitcoin_cash_main' in FORKID else sorted(FORKID)[0], {})
    return out


def z03(tier):
    out = []
    for v in (1, 2):
        for a, b in counts(tier):
            for i in range(a):
                out.append(dict(
                    name='v%d-%d-in-%d-out-%d' % (v, a, b, i), cost=2,
                    fn='h_legacy', params=dict(
                        net='zcash_sprout_main', cls='SproutTx', index=i,
                        shape=dict(shape_of('SproutTx', a, b), version=v),
                        size=25)))
        for n in sizes(tier):
            out.append(dict(
                name='v%d-script-%d' % (v, n), fn='h_legacy',
                params=dict(net='zcash_sprout_reg', cls='SproutTx', index=1,
                            shape=dict(shape_of('SproutTx', 2, 2),
                                       version=v), size=n)))
    for a, b, c in ((0, 0, 1), (0, 2, 2), (1, 1, 1), (2, 2, 2), (3, 1, 1),
                    (1, 0, 5)):
        for i in range(max(a, 1)):
            out.append(dict(
                name='js-%d-in-%d-out-%d-js-%d' % (a, b, c, i), cost=3,
                fn='h_sprout_js', params=dict(
                    shape=dict(shape_of('SproutTx', a, b), version=2,
                               tx_joinsplits=[{}, {'vpub': 'old'}, {}, {},
                                              {}][:c]),
                    index=i, size=25)))
    return out


ALLKINDS = [(t, a, h) for t, a in KINDS for h in ('general', 'type')] + [
    (1, False, 'default'), (3, False, 'default')]


def zips(tier, cls, base, nets, extra, known):
    out = []
    for k, ex in enumerate(extra):
        for a, b in [(0, 0), (0, 1), (1, 0), (2, 0)] + counts(tier):
            sh = dict(shape_of(cls, a, b), **ex)
            kinds = [x for x in ALLKINDS if x not in known]
            for i in range(a):
                out.append(dict(
                    name='%d-%d-in-%d-out-%d' % (k, a, b, i), fn='h_zip',
                    cost=3, params=dict(
                        cls=cls, net=base, shape=sh, index=i, size=25,
                        kinds=kinds, js=False)))
            if a or ex.get('tx_joinsplits') or ex.get('tx_shielded_spends'):
                out.append(dict(
                    name='%d-%d-in-%d-out-js' % (k, a, b), fn='h_zip',
                    cost=3, params=dict(
                        cls=cls, net=base, shape=sh, index=0, size=25,
                        kinds=[x for x in kinds if x[0] == 1], js=True)))
    for n in sizes(tier):
        out.append(dict(
            name='script-%d' % n, fn='h_zip', params=dict(
                cls=cls, net=base, shape=shape_of(cls, 2, 2), index=1,
                size=n, kinds=[x for x in ALLKINDS if x not in known],
                js=False)))
    for net in nets:
        out.append(dict(
            name='net-' + net, fn='h_zip', params=dict(
                cls=cls, net=net, shape=shape_of(cls, 2, 2), index=1,
                size=3, kinds=[x for x in ALLKINDS if x not in known],
                js=False)))
    return out


def z04(tier):
    known = [(3, True, 'type')]
    out = zips(tier, 'OverwinterTx', 'zcash_overwinter_main',
               ('zcash_overwinter_test', 'zcash_overwinter_reg'),
               [{}, {'tx_joinsplits': [{}]},
                {'tx_joinsplits': [{}, {'vpub': 'old'}]},
                {'tx_joinsplits': [{}, {}, {'vpub': 'old'}, {}, {}]}], known)
    # the recorded finding has a case of its own
    out.append(dict(name='single-acp-per-type', fn='h_zip', params=dict(
        cls='OverwinterTx', net='zcash_overwinter_main',
        shape=shape_of('OverwinterTx', 1, 1), index=0, size=1, kinds=known,
        js=False)))
    return out


def z05(tier):
    sp, so = {'tx_shielded_spends': [{}]}, {'tx_shielded_outputs': [{}]}
    both = {'tx_shielded_spends': [{}, {}], 'tx_shielded_outputs': [{}, {}]}
    js = {'tx_joinsplits': [{}]}
    ex = [{}, sp, so, dict(both, tx_joinsplits=[{}, {'vpub': 'old'}])]
    if tier != 'quick':
        ex += [js, both, dict(sp, **js), dict(so, **js)]
    return zips(tier, 'SaplingTx', 'zcash_sapling_main',
                ('zcash_sapling_test', 'zcash_sapling_reg'), ex, [])


def d02(tier):
    out = []
    for a, b in counts(tier):
        for i in range(a):
            out.append(dict(
                name='%d-in-%d-out-%d' % (a, b, i), fn='h_decred', cost=3,
                params=dict(net='decred_main', index=i, size=25,
                            shape=shape_of('DecredTx', a, b))))
    for n in sizes(tier):
        out.append(dict(name='script-%d' % n, fn='h_decred', params=dict(
            net='decred_main', index=1, size=n,
            shape=shape_of('DecredTx', 2, 2))))
    for net in [x for x in nettable.NET if x.startswith('decred')]:
        out.append(dict(name='net-' + net, fn='h_decred', params=dict(
            net=net, index=1, size=3, shape=shape_of('DecredTx', 2, 2))))
    return out


CASES = {'H01': h01, 'H02': h02, 'H03': h03, 'Z03': z03, 'Z04': z04,
         'Z05': z05, 'D02': d02}
_SYM = ('all field, script and value bytes symbolic; every input of '
        'transactions with 1-3 inputs and outputs (thorough 1-5), each '
        'with and without ANYONECANPAY; signed scripts of 0, 1, 25, 252 and '
        '253 bytes (thorough 12 sizes up to 1650); ')
BOUNDS = {
    'H01': _SYM + '260 inputs or outputs in one shape; built '
           'and parsed transactions; every network without fork id',
    'H02': _SYM + '260 inputs or outputs in one shape; built '
           'and parsed transactions; every network without fork id',
    'H03': _SYM + 'flagged and plain transactions; every network with a '
           'fork id; values of 0, 4, 7 and 9 bytes refused',
    'Z03': _SYM + 'versions 1 and 2; 0-5 joinsplits',
    'Z04': _SYM + 'no outputs and no inputs as well; 0, 1, 2 and 5 joinsplits; general and per-type entry points; '
           'joinsplit signing with SIGHASH_ALL',
    'Z05': _SYM + 'no outputs and no inputs as well; 0-2 joinsplits, spends and shielded outputs; general and '
           'per-type entry points; joinsplit signing with SIGHASH_ALL',
    'D02': _SYM + 'every Decred network',
}
