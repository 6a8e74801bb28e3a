'''B01, B02: the builders of tx_builder and simple'''
import hashlib
from harness import nettable
from harness.addrs import (FORMS, a_script, hash160, payload_of, push,
                           encoder, segwit, is_bech32)
from harness.kit import Pool, part, same, OUT1, IN1, IN0
from harness.txref import cs

PLAIN = tuple(n for n in nettable.NET
              if not n.startswith('decred') and not n.startswith('zcash'))
FEW = ('bitcoin_main', 'bitcoin_cash_main', 'zcash_sprout_main',
       'zcash_overwinter_test', 'zcash_sapling_main', 'decred_main',
       'groestlcoin_main')


def start(rt, net):
    rt.mod('riemann').select_network(net)
    return rt.mod('riemann.tx.tx_builder')


def decred(net):
    return net.startswith('decred')


def out_ref(net, value, script):
    if decred(net):
        return {'cls': 'DecredTxOut', 'value': value, 'version': bytes(2),
                'output_script': script}
    return {'cls': 'TxOut', 'value': value, 'output_script': script}


def refused(rt, label, got):
    rt.check(label, got[0] == 'exc')


def check_out(rt, label, net, got, value, script, wit):
    '''an output, or its refusal'''
    k, o = got
    fits = rt.all([value >= 0, value < 2 ** 64])
    if k == 'exc':
        rt.check(label + ' refused only when it must be',
                 rt.any([not fits, wit and not segwit(net)]))
        return
    rt.check(label + ' allowed', rt.all([fits, not wit or segwit(net)]))
    rt.check(label + ' class', type(o).__name__
             == ('DecredTxOut' if decred(net) else 'TxOut'))
    same(rt, label, o, out_ref(net, value.to_bytes(8, 'little'), script))


def check_script(rt, label, net, got, script, wit):
    k, s = got
    if k == 'exc':
        rt.check(label + ' refused only when it must be',
                 wit and not segwit(net) and isinstance(s, ValueError))
        return
    rt.check(label + ' allowed', not wit or segwit(net))
    rt.check(label, s == script)
    rt.check(label + ' type', isinstance(s, bytes))


def h_sh(rt, net, kind, n, wit):
    tb = start(rt, net)
    text, raw = a_script(rt, kind, n)
    h = hashlib.sha256(raw).digest() if wit else hash160(rt, net, raw)
    f = FORMS['p2wsh' if wit else 'p2sh']
    script = f[0] + h + f[2]
    check_script(rt, 'script', net, rt.attempt(
        tb.make_sh_output_script, text, wit), script, wit)
    check_script(rt, 'named script', net, rt.attempt(
        tb.make_p2wsh_output_script if wit else tb.make_p2sh_output_script,
        text), script, wit)
    check_script(rt, 'script of bytes', net, rt.attempt(
        tb.make_sh_script_pubkey, raw, wit), script, wit)
    v = rt.int('value', -2, 2 ** 64 + 1)
    check_out(rt, 'output', net, rt.attempt(
        tb.make_sh_output, v, text, wit), v, script, wit)
    check_out(rt, 'named output', net, rt.attempt(
        tb.make_p2wsh_output if wit else tb.make_p2sh_output, v, text),
        v, script, wit)
    if not wit:
        check_script(rt, 'default script', net, rt.attempt(
            tb.make_sh_output_script, text), script, False)
        check_script(rt, 'default of bytes', net, rt.attempt(
            tb.make_sh_script_pubkey, raw), script, False)
        check_out(rt, 'default output', net, rt.attempt(
            tb.make_sh_output, v, text), v, script, False)


def h_pkh(rt, net, n, wit, mutable):
    tb = start(rt, net)
    key = rt.bytearray('key', n) if mutable else rt.bytes('key', n)
    h = hash160(rt, net, bytes(key))
    f = FORMS['p2wpkh' if wit else 'p2pkh']
    script = f[0] + h + f[2]
    check_script(rt, 'script', net, rt.attempt(
        tb.make_pkh_output_script, key, wit), script, wit)
    check_script(rt, 'named script', net, rt.attempt(
        tb.make_p2wpkh_output_script if wit
        else tb.make_p2pkh_output_script, key), script, wit)
    v = rt.int('value', -2, 2 ** 64 + 1)
    check_out(rt, 'output', net, rt.attempt(
        tb.make_pkh_output, v, key, wit), v, script, wit)
    check_out(rt, 'named output', net, rt.attempt(
        tb.make_p2wpkh_output if wit else tb.make_p2pkh_output, v, key),
        v, script, wit)
    if not wit:
        check_script(rt, 'default script', net, rt.attempt(
            tb.make_pkh_output_script, key), script, False)
        check_out(rt, 'default output', net, rt.attempt(
            tb.make_pkh_output, v, key), v, script, False)


def h_bad_key(rt, net):
    tb = start(rt, net)
    bad = rt.choice('bad', ['02' * 33, None, 5, [2] * 33, (2,) * 33, ''])
    for f in (tb.make_pkh_output_script, tb.make_p2pkh_output_script,
              tb.make_p2wpkh_output_script):
        k, v = rt.attempt(f, bad)
        rt.check('refused', k == 'exc' and isinstance(v, ValueError))
    for f in (tb.make_pkh_output, tb.make_p2pkh_output,
              tb.make_p2wpkh_output):
        refused(rt, 'output refused', rt.attempt(f, 1, bad))


def h_raw_out(rt, net, n):
    '''value bytes and any script -> output; Decred's script version'''
    tb = start(rt, net)
    v, script = rt.bytes('value', 8), rt.bytes('script', n)
    ref = out_ref(net, v, script)
    o = tb._make_output(v, script)
    rt.check('class', type(o).__name__ == ref['cls'])
    same(rt, 'raw output', o, ref)
    if decred(net):
        ver = rt.bytes('version', 2)
        same(rt, 'versioned output', tb._make_output(v, script, ver),
             dict(ref, version=ver))
        for bad in (b'', ver[:1], ver + b'\x00'):
            refused(rt, 'version of another length', rt.attempt(
                tb._make_output, v, script, bad))
    for bad in (b'', v[:7], v + b'\x00'):
        refused(rt, 'value of another length', rt.attempt(
            tb._make_output, bad, script))


def h_op_return(rt, net, n):
    tb = start(rt, net)
    d = rt.bytes('data', n)
    k, o = rt.attempt(tb.make_op_return_output, d)
    if n > 77:
        rt.check('too long', k == 'exc' and isinstance(o, ValueError))
        return
    rt.check('made', k == 'ok')
    same(rt, 'op return', o, out_ref(net, bytes(8), b'\x6a' + push(d)))


def h_out_simple(rt, net, form, cashaddr):
    '''value and address -> output'''
    start(rt, net)
    simple = rt.mod('riemann.simple')
    pre, n, post = FORMS[form]
    h = rt.bytes('hash', n)
    rt.assume(h[0] != 0)
    enc, p = payload_of(net, form, h, cashaddr)
    if is_bech32(net, enc):         # the first data character is a zero
        rt.assume(h[0] >> 3 == 15)
    s = encoder(rt, net, enc).encode(p)
    v = rt.int('value', -2, 2 ** 64 + 1)
    check_out(rt, 'output', net, rt.attempt(simple.output, v, s), v,
              pre + h + post, False)


def b01(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, cost=1, **k):
        out.append(dict(name=name, fn=fn, params=k, cost=cost))
    for net in nettable.NET:
        few = net in FEW or not q
        for w in (False, True):
            for kind, n in [('op', 0), ('key', 33)] + (
                    [('empty', 0), ('key', 75), ('key', 76), ('hash', 20),
                     ('multi', 33)] if few else []) + (
                    [] if q else [('key', 1), ('key', 255), ('key', 256),
                                  ('key', 520), ('multi', 65)]):
                add('sh-%s-%s-%d-%s' % (net, kind, n, w), 'h_sh', net=net,
                    kind=kind, n=n, wit=w)
            for n in [33] + ([0, 1, 32, 65] if few else []):
                for m in (False, True) if n == 33 and few else (False,):
                    add('pkh-%s-%d-%s-%s' % (net, n, w, m), 'h_pkh',
                        net=net, n=n, wit=w, mutable=m)
        for n in (25, 0, 1, 23, 34, 80) if few else (25,):
            add('raw-%s-%d' % (net, n), 'h_raw_out', net=net, n=n)
        add('bad-key-' + net, 'h_bad_key', net=net)
        for n in (0, 1, 2, 20, 40, 74, 75, 76, 77, 78, 80, 100) if few \
                else (0, 20, 75, 76, 77, 78):
            add('op-return-%s-%d' % (net, n), 'h_op_return', net=net, n=n)
        cash = (True, False) if nettable.NET[net].get('CASHADDR_PREFIX') \
            else (True,)
        for form in FORMS:
            if form[:3] == 'p2w' and not segwit(net):
                continue
            for c in cash:
                add('simple-%s-%s-%s' % (net, form, c), 'h_out_simple',
                    net=net, form=form, cashaddr=c, cost=3)
    for n in range(3, 79):
        add('op-return-%d' % n, 'h_op_return', net='bitcoin_main', n=n)
    return out


# ------------------------------------------------------------------- B02

def number(rt, name, n):
    '''(number that need not fit n bytes, whether it does, its bytes)'''
    v = rt.int(name, -1, 2 ** (8 * n) + 1)
    return v, rt.all([v >= 0, v < 2 ** (8 * n)])


def le(v, n):
    return bytes([(v >> (8 * i)) & 255 for i in range(n)])


def check_obj(rt, label, got, fits, ref):
    '''the object a reference (made when the numbers fit) describes, or
    its refusal'''
    k, o = got
    if k == 'exc':
        rt.check(label + ' refused only when it must be', not fits)
        return
    rt.check(label + ' allowed', fits)
    r = ref()
    rt.check(label + ' class', type(o).__name__ == r['cls'])
    same(rt, label, o, r)


def h_outpoint(rt, net, tree):
    tb = start(rt, net)
    simple = rt.mod('riemann.simple')
    i = rt.bytes('tx_id', 32)
    n, fits = number(rt, 'index', 4)
    more = ()
    if tree:
        t, tfits = number(rt, 'tree', 1)
        more = (t,)
        if decred(net):
            fits = rt.all([fits, tfits])

    def ref(tx_id):
        r = {'cls': 'Outpoint', 'tx_id': tx_id, 'index': le(n, 4)}
        if decred(net):
            r['cls'] = 'DecredOutpoint'
            r['tree'] = le(t, 1) if tree else b'\x00'
        return r
    check_obj(rt, 'outpoint', rt.attempt(tb.make_outpoint, i, n, *more),
              fits, lambda: ref(i))
    check_obj(rt, 'simple outpoint', rt.attempt(
        simple.outpoint, i.hex(), n, *more), fits, lambda: ref(i[::-1]))
    for bad in (i[:31], i + b'\x00', b''):
        refused(rt, 'id of another length', rt.attempt(
            tb.make_outpoint, bad, 1, *more))
        refused(rt, 'simple id of another length', rt.attempt(
            simple.outpoint, bad.hex(), 1, *more))


def h_input(rt, net, a, b):
    tb = start(rt, net)
    simple = rt.mod('riemann.simple')
    pool = Pool(rt)
    o, oref = part(rt, pool, 'DecredOutpoint' if decred(net) else 'Outpoint',
                   'o', {})
    ss = rt.bytes('stack', a) if a else b''
    rs = rt.bytes('redeem', b) if b else b''
    n, fits = number(rt, 'sequence', 4)

    def ref(ss, rs, seq):
        if decred(net):
            return {'cls': 'DecredTxIn', 'outpoint': oref, 'sequence': seq}
        return {'cls': 'TxIn', 'outpoint': oref, 'stack_script': ss,
                'redeem_script': rs, 'sequence': seq}
    check_obj(rt, 'legacy input', rt.attempt(
        tb.make_legacy_input, o, ss, rs, n), fits,
        lambda: ref(ss, rs, le(n, 4)))
    check_obj(rt, 'witness input', rt.attempt(
        tb.make_witness_input, o, n), fits, lambda: ref(b'', b'', le(n, 4)))
    check_obj(rt, 'unsigned input', rt.attempt(
        simple.unsigned_input, o, n), fits, lambda: ref(b'', b'', le(n, 4)))
    check_obj(rt, 'unsigned input by name', rt.attempt(
        simple.unsigned_input, outpoint=o, sequence=n), fits,
        lambda: ref(b'', b'', le(n, 4)))
    check_obj(rt, 'default sequence', rt.attempt(
        simple.unsigned_input, o), True,
        lambda: ref(b'', b'', b'\xfe\xff\xff\xff'))
    if decred(net):
        check_obj(rt, 'decred input', rt.attempt(
            tb.make_decred_input, o, n), fits, lambda: ref(b'', b'', le(n, 4)))


def h_witness(rt, net, sizes):
    tb = start(rt, net)
    items = [rt.bytes('item%d' % i, n) if n else b''
             for i, n in enumerate(sizes)]
    refs = [{'cls': 'WitnessStackItem', 'item': d} for d in items]
    for d, r in zip(items, refs):
        same(rt, 'item', rt.do('item', tb.make_witness_stack_item, d), r)
    same(rt, 'witness', rt.do('witness', tb.make_witness, items),
         {'cls': 'InputWitness', 'stack': refs})
    same(rt, 'empty', rt.do('empty', tb.make_empty_witness),
         {'cls': 'InputWitness', 'stack': []})
    rt.check('list kept', len(items) == len(sizes))


def h_decred_witness(rt, net, a, b):
    tb = start(rt, net)
    from_pool = Pool(rt)
    o, r = part(rt, from_pool, 'DecredInputWitness', 'w',
                {'stack_script': a, 'redeem_script': b})
    args = {f: r[f] for f in ('value', 'height', 'index', 'stack_script',
                              'redeem_script')}
    same(rt, 'witness', rt.do('witness', tb.make_decred_witness, **args), r)
    same(rt, 'witness in order', rt.do(
        'witness', tb.make_decred_witness, *args.values()), r)


def h_script_sig(rt, net, kind, n, m):
    '''stack script and serialized redeem script as its last push'''
    tb = start(rt, net)
    text, raw = a_script(rt, kind, n)
    e = rt.bytes('sig', m) if m else b''
    stack = 'OP_0 ' + e.hex() + ' OP_1' if m else ''
    want = (b'\x00' + push(e) + b'\x51' if m else b'') + push(raw)
    rt.check('script sig', bytes(rt.do(
        'script sig', tb.make_script_sig, stack, text)) == want)


def h_length(rt, net, n, k):
    tb = start(rt, net)
    d = rt.bytes('data', k) if k else b''
    d = d + bytes(n - k)
    r = rt.do('prepend', tb.length_prepend, d)
    rt.check('prepend', r == cs(n) + d)


def parts_of(rt, pool, cls, name, shapes):
    got = [part(rt, pool, cls, '%s%d' % (name, i), s)
           for i, s in enumerate(shapes)]
    return [a for a, _ in got], [r for _, r in got]


def family(net):
    for f in ('sprout', 'overwinter', 'sapling'):
        if net.startswith('zcash_' + f):
            return f
    return 'decred' if decred(net) else 'plain'


IN = {'stack_script': 1, 'redeem_script': 2}


def h_tx(rt, net, ins, outs, wits=None, js=None, spends=None, shouts=None,
         simple=None, version=None):
    '''make_tx (or the simple builders) with symbolic parts and numbers'''
    tb = start(rt, net)
    f = family(net)
    pool = Pool(rt)
    dec = f == 'decred'
    a_in, r_in = parts_of(rt, pool, 'DecredTxIn' if dec else 'TxIn', 'in',
                          [{} if dec or i else IN for i in range(ins)])
    a_out, r_out = parts_of(rt, pool, 'DecredTxOut' if dec else 'TxOut',
                            'out', [OUT1] * outs)
    args = {'tx_ins': a_in, 'tx_outs': a_out}
    ref = {'tx_ins': r_in, 'tx_outs': r_out}
    late = {}           # field -> (number, size)
    fits = []

    def num(arg, field, n, given=True):
        v, ok = number(rt, arg, n)
        if given:
            args[arg] = v
            fits.append(ok)
            if field:
                late[field] = (v, n)
    if version is None:
        num('version', 'version' if f in ('plain', 'decred') else None, 4,
            f in ('plain', 'decred'))
        if f in ('overwinter', 'sapling'):
            args['version'] = 0
        if f == 'sprout':
            v = rt.int('version', -1, 2 ** 32 + 1)
            args['version'] = v
            fits.append(rt.any([v == 2, rt.all([v == 1, not js])]))
            late['version'] = (v, 4)
    elif simple:
        ref['version'] = bytes([2, 0, 0, 0])
    num('lock_time', 'lock_time', 4)
    if f == 'decred':
        num('expiry', 'expiry', 4)
    elif f in ('overwinter', 'sapling'):
        v, ok = number(rt, 'expiry', 4)
        args['expiry'] = v
        fits.append(rt.all([ok, v <= 499999999]))
        late['expiry_height'] = (v, 4)
    if f in ('plain', 'decred'):
        ref['tx_witnesses'] = []
        if wits is not None:
            args['tx_witnesses'], ref['tx_witnesses'] = parts_of(
                rt, pool, 'DecredInputWitness' if dec else 'InputWitness',
                'wit', wits)
        if not dec:
            ref['flag'] = None if wits is None else b'\x00\x01'
    else:
        ref['tx_joinsplits'] = []
        ref['joinsplit_pubkey'] = ref['joinsplit_sig'] = None
        if js is not None:
            args['tx_joinsplits'], ref['tx_joinsplits'] = parts_of(
                rt, pool, 'SaplingJoinsplit' if f == 'sapling'
                else 'SproutJoinsplit', 'js', js)
        if js:
            for n, k in (('joinsplit_pubkey', 32), ('joinsplit_sig', 64)):
                args[n] = ref[n] = rt.bytes(n, k)
    if f == 'sapling':
        ref['binding_sig'] = None
        ref['value_balance'] = bytes(8)
        for n, cls, given in (
                ('tx_shielded_spends', 'SaplingShieldedSpend', spends),
                ('tx_shielded_outputs', 'SaplingShieldedOutput', shouts)):
            ref[n] = []
            if given is not None:
                args[n], ref[n] = parts_of(rt, pool, cls, n,
                                           [{}] * given)
        if spends or shouts:
            args['binding_sig'] = ref['binding_sig'] = rt.bytes('bind', 64)
            b = rt.int('value_balance', -2 ** 63 - 1, 2 ** 63)
            args['value_balance'] = b
            fits.append(rt.all([b >= -2 ** 63, b < 2 ** 63]))
            late['value_balance'] = (b, 8)
    ref['cls'] = {'plain': 'Tx', 'decred': 'DecredTx', 'sprout': 'SproutTx',
                  'overwinter': 'OverwinterTx', 'sapling': 'SaplingTx'}[f]
    before = {n: len(v) for n, v in args.items() if type(v) is list}
    if simple:
        build = rt.mod('riemann.simple').unsigned_legacy_tx
        if simple == 'witness':
            build = rt.mod('riemann.simple').unsigned_witness_tx
            ref['flag'] = b'\x00\x01'
            ref['tx_witnesses'] = [{'cls': 'InputWitness', 'stack': []}
                                   for _ in range(ins)]
    else:
        build = tb.make_tx

    def full():
        for n, (v, k) in late.items():
            ref[n] = le(v, k)
        return ref
    check_obj(rt, 'tx', rt.attempt(build, **args), rt.all(fits), full)
    for n, k in before.items():
        rt.check('lists kept', len(args[n]) == k)


def h_defaults(rt, net, witness):
    '''the simple builders without numbers'''
    start(rt, net)
    simple = rt.mod('riemann.simple')
    f = family(net)
    pool = Pool(rt)
    dec = f == 'decred'
    a_in, r_in = parts_of(rt, pool, 'DecredTxIn' if dec else 'TxIn', 'in',
                          [{}, {}])
    a_out, r_out = parts_of(rt, pool, 'DecredTxOut' if dec else 'TxOut',
                            'out', [OUT1])
    ref = {'tx_ins': r_in, 'tx_outs': r_out, 'lock_time': bytes(4),
           'version': bytes([2, 0, 0, 0]), 'expiry': bytes(4),
           'expiry_height': bytes(4), 'tx_witnesses': [],
           'tx_joinsplits': [], 'tx_shielded_spends': [],
           'tx_shielded_outputs': [], 'value_balance': bytes(8),
           'flag': None, 'joinsplit_pubkey': None, 'joinsplit_sig': None,
           'binding_sig': None,
           'cls': {'plain': 'Tx', 'decred': 'DecredTx', 'sprout': 'SproutTx',
                   'overwinter': 'OverwinterTx', 'sapling': 'SaplingTx'}[f]}
    if witness:
        ref['flag'] = b'\x00\x01'
        ref['tx_witnesses'] = [{'cls': 'InputWitness', 'stack': []}] * 2
    same(rt, 'tx', rt.do('tx', simple.unsigned_witness_tx if witness
                         else simple.unsigned_legacy_tx, a_in, a_out), ref)


def b02(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, cost=1, **k):
        out.append(dict(name=name, fn=fn, params=k, cost=cost))
    for net in nettable.NET:
        f = family(net)
        few = net in FEW or not q
        for t in (False, True):
            add('outpoint-%s-%s' % (net, t), 'h_outpoint', net=net, tree=t)
        for a, b in [(2, 1), (0, 0)] + ([(0, 3), (4, 0)] if few else []):
            add('input-%s-%d-%d' % (net, a, b), 'h_input', net=net, a=a, b=b)
        if f == 'decred':
            for a, b in [(2, 1), (0, 0), (0, 3), (4, 0)]:
                add('decred-witness-%s-%d-%d' % (net, a, b),
                    'h_decred_witness', net=net, a=a, b=b)
        for s in [[2, 0, 1]] + ([[], [1], [0], [33, 72], [253], [1, 1, 1, 1]]
                                if few and f != 'decred' else []):
            if f != 'decred':
                add('witness-%s-%s' % (net, '.'.join([str(n) for n in s])),
                    'h_witness', net=net, sizes=s)
        for kind, n, m in [('key', 33, 4)] + (
                [('op', 0, 0), ('op', 0, 1), ('key', 73, 0), ('key', 74, 2),
                 ('key', 75, 71), ('multi', 33, 72), ('key', 250, 76),
                 ('key', 252, 1), ('key', 253, 1), ('key', 254, 0),
                 ('key', 520, 1)] if few else []):
            add('script-sig-%s-%s-%d-%d' % (net, kind, n, m), 'h_script_sig',
                net=net, kind=kind, n=n, m=m)
        for n, k in [(3, 3), (253, 253)] + (
                [(0, 0), (1, 1), (252, 252), (254, 4), (255, 5), (256, 3),
                 (65535, 2), (65536, 2)] if few else []):
            add('length-%s-%d' % (net, n), 'h_length', net=net, n=n, k=k)
        txs = []
        if f == 'plain':
            txs = [(2, 1, {}), (1, 1, {'wits': [{'stack': [{'item': 2}]}]})]
            if few:
                txs += [(1, 2, {}), (3, 1, {}),
                        (2, 2, {'wits': [{}, {'stack': [{'item': 2}, {}]}]}),
                        (1, 1, {'wits': [{}]})]
        elif f == 'decred':
            txs = [(2, 1, {}), (2, 1, {'wits': [IN1, IN0]}),
                   (1, 2, {'wits': [IN1]}), (2, 2, {'wits': []})]
        else:
            js = [None, [], [{}], [{}, {'vpub': 'old'}]]
            txs = [(1, 1, {'js': j}) for j in js] + [
                (2, 2, {}), (0, 0, {'js': [{}]}), (2, 0, {'js': [{}]})]
            if f == 'sapling':
                txs += [(1, 1, {'spends': 1}), (1, 1, {'shouts': 1}),
                        (1, 0, {'spends': 0, 'shouts': 2}),
                        (0, 0, {'spends': 2, 'shouts': 0}),
                        (1, 1, {'spends': 0, 'shouts': 0, 'js': []}),
                        (0, 1, {'spends': 1, 'shouts': 1, 'js': [{}]})]
        for n, (i, o, k) in enumerate(txs):
            add('tx-%s-%d' % (net, n), 'h_tx', net=net, ins=i, outs=o,
                cost=3, **k)
        simple = [(2, 1, {'simple': 'legacy'}),
                  (2, 1, {'simple': 'legacy', 'version': 2})]
        if f == 'plain':
            simple += [(2, 1, {'simple': 'witness'}),
                       (1, 2, {'simple': 'witness', 'version': 2})]
        elif f != 'decred':
            simple += [(1, 1, {'simple': 'legacy', 'js': [{}],
                               'version': 2})]
        for n, (i, o, k) in enumerate(simple):
            add('simple-%s-%d' % (net, n), 'h_tx', net=net, ins=i, outs=o,
                cost=3, **k)
        for w in (False, True) if f == 'plain' else (False,):
            add('defaults-%s-%s' % (net, w), 'h_defaults', net=net,
                witness=w)
    return out


CASES = {'B01': b01, 'B02': b02}
BOUNDS = {
    'B01': 'all 72 networks; values -2..2^64+1; keys of 0, 1, 32, 33, 65 '
           'bytes with every content (7 networks quick, every network '
           'thorough; 33 bytes everywhere), as bytes and bytearray; scripts: '
           'empty, one opcode, one push of 33/75/76 (thorough 1/255/256/520) '
           'symbolic bytes, P2PKH, multisig; OP_RETURN data of 0..100 bytes; '
           'simple.output from addresses whose hash starts with a nonzero '
           'byte (base58) or with 15 in its first five bits (bech32); HASH160 '
           'and SHA-256 as uninterpreted injective functions',
    'B02': 'all 72 networks; every number -2..2^(8n)+1 for its field of n '
           'bytes; every content of the parts: 0..3 inputs and outputs, up '
           'to 2 witnesses of up to 6 items (0..253 bytes), up to 2 '
           'joinsplits, shielded spends and outputs; stack and redeem '
           'scripts of 0..4 bytes; script sigs with redeem scripts of one '
           'opcode, one push of 33..520 bytes or multisig; length prefixes '
           'of 0..65536 bytes (the wider choices on 7 networks, thorough '
           'on all)',
}
