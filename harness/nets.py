'''C01: each call obeys the network selected when it is made'''
import hashlib
from harness import nettable, kit
from harness.addrs import FORMS, payload_of, plain, segwit, is_bech32
from harness.builders import family, decred
from harness.codes import B58, B32, attr, bech_ref, cash_ref
from harness.kit import part, Pool, same, OUT1
from harness.numbers import ZC
from harness.sighash import FORKID, bip143, legacy
from harness.txref import cs

H = bytes(range(7, 39))         # a fixed hash


# ------------------------------------------------ references, by network

def first_hash(rt, net, x):
    if decred(net):
        return rt.mod('riemann.blake256').blake_hash(x)
    return hashlib.sha256(x).digest()


def ref_hash160(rt, net, x):
    h = hashlib.new('ripemd160')
    h.update(first_hash(rt, net, x))
    return h.digest()


def ref_hash256(rt, net, x):
    return first_hash(rt, net, first_hash(rt, net, x))


def ref_base58(rt, net, p):
    full = p + ref_hash256(rt, net, p)[:4]
    n = int.from_bytes(full, 'big')
    s = ''
    while n:
        s = B58[n % 58] + s
        n = n // 58
    for b in full:
        if b:
            break
        s = '1' + s
    return s


def ref_address(rt, net, form, h, cash):
    enc, p = payload_of(net, form, h, cash)
    how = attr(net, enc)
    if how.endswith('base58'):
        return ref_base58(rt, net, p)
    if how.endswith('bech32'):
        hrp = attr(net, 'BECH32_HRP')
        return hrp + '1' + ''.join(
            [B32[i] for i in bech_ref(hrp, p[0], list(p[2:]))])
    prefix = attr(net, 'CASHADDR_PREFIX')
    return prefix + ':' + ''.join(
        [B32[i] for i in cash_ref(prefix, list(p))])


# ------------------------------------------------------------- operations

def op_names(rt, net):
    r = rt.mod('riemann')
    rt.check('name', r.get_current_network_name()
             == attr(net, 'NETWORK_NAME') + '_' + attr(net, 'SUBNET_NAME'))
    rt.check('its own name', r.get_current_network_name() == net)
    n = r.get_current_network()
    rt.check('network', n is r.network)
    for a in nettable.BASE:
        want = attr(net, a)
        got = getattr(n, a)
        if type(want) is str and want[:7] == 'module:':
            rt.check('encoder ' + a, got.__name__ == want[7:])
        else:
            rt.check('constant ' + a, got == want)


def op_hash(rt, net):
    u = rt.mod('riemann.utils')
    x = rt.bytes('x', 33)
    rt.check('hash160', rt.do('hash160', u.hash160, x)
             == ref_hash160(rt, net, x))
    rt.check('hash256', rt.do('hash256', u.hash256, x)
             == ref_hash256(rt, net, x))
    rt.check('sha256', rt.do('sha256', u.sha256, x)
             == hashlib.sha256(x).digest())


def op_script(rt, net):
    s = rt.mod('riemann.script.serialization')
    d = decred(net)
    rt.check('OP_SHA256', bytes(rt.do('ser', s.serialize, 'OP_SHA256 OP_DUP'))
             == (b'\xc0\x76' if d else b'\xa8\x76'))
    rt.check('a8', rt.do('deser', s.deserialize, b'\xa8')
             == ('OP_BLAKE256' if d else 'OP_SHA256'))
    k, v = rt.attempt(s.serialize, 'OP_BLAKE256')
    if d:
        rt.check('OP_BLAKE256', k == 'ok' and bytes(v) == b'\xa8')
    else:
        rt.check('OP_BLAKE256 refused', k == 'exc')
    k, v = rt.attempt(s.deserialize, b'\xc0')
    if d:
        rt.check('c0', k == 'ok' and v == 'OP_SHA256')
    else:
        rt.check('c0 refused', k == 'exc')


def op_address(rt, net):
    a = rt.mod('riemann.encoding.addresses')
    for form, (pre, n, post) in FORMS.items():
        script = pre + H[:n] + post
        for cash in (True, False):
            k, s = rt.attempt(a.from_output_script, script, cash)
            if form[:3] == 'p2w' and not segwit(net):
                rt.check('no address for ' + form, k == 'exc'
                         and isinstance(s, ValueError))
                continue
            rt.check('address of ' + form, k == 'ok'
                     and s == ref_address(rt, net, form, H[:n], cash))
            if is_bech32(net, payload_of(net, form, b'', cash)[0]):
                plain(rt, net, s)
            k, v = rt.attempt(a.to_output_script, s)
            rt.check('script of ' + form, k == 'ok' and v == script)
            k, v = rt.attempt(a.parse_hash, s)
            rt.check('hash of ' + form, k == 'ok' and v == H[:n])


KEY = bytes(range(2, 35))       # a fixed key


def op_named_address(rt, net, only=None):
    '''of a fixed key and script'''
    a = rt.mod('riemann.encoding.addresses')
    text, raw = 'OP_2 OP_3 OP_EQUAL', b'\x52\x53\x87'
    for i, (label, f, args, form, cash) in enumerate((
            ('sh witness', a.make_sh_address, (text, True), 'p2wsh', True),
            ('sh', a.make_sh_address, (text, False), 'p2sh', True),
            ('sh plain', a.make_sh_address, (text, False, False), 'p2sh',
             False),
            ('p2wsh', a.make_p2wsh_address, (text,), 'p2wsh', True),
            ('p2sh', a.make_p2sh_address, (text,), 'p2sh', True),
            ('legacy p2sh', a.make_legacy_p2sh_address, (text,), 'p2sh',
             False),
            ('pkh witness', a.make_pkh_address, (KEY, True), 'p2wpkh', True),
            ('pkh', a.make_pkh_address, (KEY, False), 'p2pkh', True),
            ('pkh plain', a.make_pkh_address, (KEY, False, False), 'p2pkh',
             False),
            ('p2wpkh', a.make_p2wpkh_address, (KEY,), 'p2wpkh', True),
            ('p2pkh', a.make_p2pkh_address, (KEY,), 'p2pkh', True),
            ('legacy p2pkh', a.make_legacy_p2pkh_address, (KEY,), 'p2pkh',
             False))):
        if only is not None and i != only:
            continue
        k, s = rt.attempt(f, *args)
        if form[:3] == 'p2w' and not segwit(net):
            rt.check(label + ' refused', k == 'exc'
                     and isinstance(s, ValueError))
            continue
        if form == 'p2wsh':
            h = hashlib.sha256(raw).digest()
        else:
            h = ref_hash160(rt, net, raw if form == 'p2sh' else KEY)
        rt.assume(h[0] != 0)
        rt.check(label + ' made', k == 'ok')
        rt.check(label + ' address', s == ref_address(rt, net, form, h, cash))


def op_foreign(rt, net, only=None):
    '''fixed addresses of several networks'''
    a = rt.mod('riemann.encoding.addresses')
    h = H[:20]
    for i, pre in enumerate(('00', '05', '6f', 'c4', '30', '073f', '1cb8',
                             '1cbd')):
        if only is not None and i != only:
            continue
        p = bytes.fromhex(pre) + h
        s = ref_base58(rt, net, p)
        k, v = rt.attempt(a.to_output_script, s)
        want = None
        for form in ('p2pkh', 'p2sh'):
            if want is None and p[:-20] == attr(net, form.upper()
                                                + '_PREFIX'):
                want = FORMS[form][0] + h + FORMS[form][2]
        if want is None:
            rt.check('refuses ' + pre, k == 'exc'
                     and isinstance(v, ValueError))
        else:
            rt.check('accepts ' + pre, k == 'ok' and v == want)
    for i, hrp in enumerate(('bc', 'tb', 'ltc')):
        if only is not None and i + 8 != only:
            continue
        s = hrp + '1' + ''.join([B32[i] for i in bech_ref(hrp, 0, list(h))])
        plain(rt, net, s)
        k, v = rt.attempt(a.to_output_script, s)
        if segwit(net) and is_bech32(net, 'SEGWIT_ENCODER') \
                and attr(net, 'BECH32_HRP') == hrp:
            rt.check('accepts ' + hrp, k == 'ok' and v == b'\x00\x14' + h)
        else:
            rt.check('refuses ' + hrp, k == 'exc'
                     and isinstance(v, ValueError))
    for i, prefix in enumerate(('bitcoincash', 'bchtest')):
        if only is not None and i + 11 != only:
            continue
        s = prefix + ':' + ''.join(
            [B32[i] for i in cash_ref(prefix, list(b'\x08' + h))])
        plain(rt, net, s)
        k, v = rt.attempt(a.to_output_script, s)
        if attr(net, 'CASHADDR_PREFIX') == prefix:
            rt.check('accepts ' + prefix, k == 'ok'
                     and v == b'\xa9\x14' + h + b'\x87')
        else:
            rt.check('refuses ' + prefix, k == 'exc'
                     and isinstance(v, ValueError))


def op_make_address(rt, net):
    '''scripts of a symbolic key'''
    tb = rt.mod('riemann.tx.tx_builder')
    key = rt.bytes('x', 33)
    h = ref_hash160(rt, net, key)
    rt.check('P2PKH script', rt.do('pkh', tb.make_p2pkh_output_script, key)
             == b'\x76\xa9\x14' + h + b'\x88\xac')
    k, v = rt.attempt(tb.make_p2wpkh_output_script, key)
    if segwit(net):
        rt.check('P2WPKH script', k == 'ok' and v == b'\x00\x14' + h)
    else:
        rt.check('P2WPKH refused', k == 'exc' and isinstance(v, ValueError))


def op_varint(rt, net):
    v = rt.mod('riemann.tx.shared').VarInt
    n = rt.bytes('n', 1)
    k, o = rt.attempt(v.from_bytes, b'\xfd' + n + b'\x00')
    if (ZC[0] in net or ZC[1] in net) and n[0] < 0xfd:
        rt.check('over-long VarInt refused', k == 'exc')
    else:
        rt.check('VarInt', k == 'ok' and o.number == n[0]
                 and o.to_bytes() == b'\xfd' + n + b'\x00')


GUARD = {'DecredOutpoint': 'decred', 'DecredTxOut': 'decred',
         'SproutZkproof': 'zcash', 'SaplingZkproof': 'zcash'}


def op_classes(rt, net):
    '''the classes of a chain are for that chain only'''
    for cls, chain in GUARD.items():
        args = {f: b'\x05' * n if type(n) is int else b'\x51'
                for f, n in kit.SPEC[cls][1]}
        k, v = rt.attempt(kit.cls_of(rt, cls), **args)
        if net.startswith(chain):
            rt.check(cls + ' built', k == 'ok')
        else:
            rt.check(cls + ' refused', k == 'exc')


def op_build(rt, net):
    '''outpoint, input, output, transaction of the network's kind'''
    tb = rt.mod('riemann.tx.tx_builder')
    simple = rt.mod('riemann.simple')
    d = decred(net)
    i = rt.bytes('tx_id', 32)
    n = rt.int('index', 0, 2 ** 32 - 1)
    v = rt.int('value', 0, 2 ** 64 - 1)
    key = rt.bytes('x', 33)
    o = rt.do('outpoint', simple.outpoint, i.hex(), n)
    oref = {'cls': 'Outpoint', 'tx_id': i[::-1],
            'index': n.to_bytes(4, 'little')}
    if d:
        oref = dict(oref, cls='DecredOutpoint', tree=b'\x00')
    t = rt.do('input', simple.unsigned_input, o)
    tref = {'cls': 'TxIn', 'outpoint': oref, 'stack_script': b'',
            'redeem_script': b'', 'sequence': b'\xfe\xff\xff\xff'}
    if d:
        tref = {'cls': 'DecredTxIn', 'outpoint': oref,
                'sequence': tref['sequence']}
    u = rt.do('output', tb.make_p2pkh_output, v, key)
    script = b'\x76\xa9\x14' + ref_hash160(rt, net, key) + b'\x88\xac'
    uref = {'cls': 'TxOut', 'value': v.to_bytes(8, 'little'),
            'output_script': script}
    if d:
        uref = dict(uref, cls='DecredTxOut', version=b'\x00\x00')
    f = family(net)
    ref = {'tx_ins': [tref], 'tx_outs': [uref], 'lock_time': bytes(4),
           'version': bytes([2, 0, 0, 0]), 'expiry': bytes(4),
           'expiry_height': bytes(4), 'tx_witnesses': [],
           'tx_joinsplits': [], 'tx_shielded_spends': [],
           'tx_shielded_outputs': [], 'value_balance': bytes(8),
           'flag': None, 'joinsplit_pubkey': None, 'joinsplit_sig': None,
           'binding_sig': None,
           'cls': {'plain': 'Tx', 'decred': 'DecredTx', 'sprout': 'SproutTx',
                   'overwinter': 'OverwinterTx', 'sapling': 'SaplingTx'}[f]}
    x = rt.do('tx', simple.unsigned_legacy_tx, [t], [u])
    rt.check('class', type(x).__name__ == ref['cls'])
    same(rt, 'tx', x, ref)
    k, y = rt.attempt(type(x).from_bytes, x.to_bytes())
    if not d:
        rt.check('parsed', k == 'ok' and y.to_bytes() == x.to_bytes())
    if f == 'plain':
        fid = FORKID.get(net)
        code = cs(25) + script
        value = v.to_bytes(8, 'little')
        got = rt.do('digest', x.sighash_all, 0, code, value)
        rt.check('digest', bytes(got) == (
            legacy(ref, 0, script, 1, False) if fid is None else
            bip143(ref, 0, code, value, 1, False, (fid << 8) | 0x41)))


OPS = {'names': op_names, 'hash': op_hash, 'script': op_script,
       'address': op_address, 'make': op_make_address,
       'named': op_named_address, 'foreign': op_foreign, 'varint': op_varint,
       'classes': op_classes, 'build': op_build}


HEAVY = ('named', 'foreign')


def all_ops(rt, net):
    for k, f in OPS.items():
        if k not in HEAVY:
            f(rt, net)


# --------------------------------------------------------------- histories

def h_default(rt):
    '''a fresh process'''
    all_ops(rt, 'bitcoin_main')


def h_history(rt, first, last, bad):
    '''any network of a list, everything used, then another one'''
    r = rt.mod('riemann')
    a = rt.choice('first', first)
    rt.do('select', r.select_network, a)
    all_ops(rt, a)
    rt.do('select', r.select_network, last)
    if bad:
        k, v = rt.attempt(r.select_network, rt.choice(
            'unknown', ['bitcoin', 'Bitcoin_main', '', 'bitcoin-main',
                        'main_bitcoin', None, 5]))
        rt.check('unknown refused', k == 'exc' and isinstance(v, ValueError))
    all_ops(rt, last)


def h_pairs(rt, first, last):
    '''each operation on one network, then at once on the other'''
    r = rt.mod('riemann')
    for k, f in OPS.items():
        if k not in HEAVY:
            for net in (first, last):
                rt.do('select', r.select_network, net)
                f(rt, net)


def h_heavy(rt, first, last, op):
    '''each step of one of the longer operations on two networks'''
    r = rt.mod('riemann')
    for i in range(13):
        for net in (first, last, last):
            rt.do('select', r.select_network, net)
            OPS[op](rt, net, i)


def h_three(rt, first, second, last, ops):
    '''three selections, one operation after each'''
    r = rt.mod('riemann')
    for i, nets in enumerate((first, second)):
        net = rt.choice('net%d' % i, nets)
        rt.do('select', r.select_network, net)
        OPS[rt.choice('op%d' % i, ops)](rt, net)
    rt.do('select', r.select_network, last)
    all_ops(rt, last)


def h_carry(rt, first, last, flag):
    '''a transaction made on one network, signed on another'''
    r = rt.mod('riemann')
    rt.do('select', r.select_network, rt.choice('first', first))
    o, ref = part(rt, Pool(rt), 'Tx', 'o', dict(
        {'tx_ins': [{}, {}], 'tx_outs': [OUT1, OUT1]}, **(
            {'flag': 1, 'tx_witnesses': [{}, {}]} if flag else {})))
    rt.do('select', r.select_network, last)
    script = rt.bytes('script', 3)
    value = rt.bytes('value', 8)
    code = cs(3) + script
    fid = FORKID.get(last)
    for typ, f in ((1, o.sighash_all), (3, o.sighash_single)):
        got = rt.do('digest', f, 1, code, value)
        if fid is not None:
            want = bip143(ref, 1, code, value, typ, False,
                          (fid << 8) | 0x40 | typ)
        elif flag:
            want = bip143(ref, 1, code, value, typ, False, typ)
        else:
            want = legacy(ref, 1, script, typ, False)
        rt.check('digest', bytes(got) == want)
    same(rt, 'copy', rt.do('copy', o.copy), ref)
    same(rt, 'parsed', rt.do('parse', type(o).from_bytes, o.to_bytes()), ref,
         loose=('tx_ins',))


def h_unknown(rt, net, n):
    '''any other text is refused, and the selection stays'''
    r = rt.mod('riemann')
    r.select_network(net)
    name = rt.text('name', n) if n else ''
    k, v = rt.attempt(r.select_network, name)
    if k == 'exc':
        rt.check('refused', isinstance(v, ValueError))
        rt.check('only unknown names', rt.all(
            [name != x for x in nettable.NET]))
        rt.check('unchanged', r.get_current_network_name() == net)
        op_hash(rt, net)
        op_script(rt, net)
        return
    rt.check('a known name', rt.any([name == x for x in nettable.NET]))
    rt.check('selected', r.get_current_network_name() == name)


def c01(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, cost=1, **k):
        out.append(dict(name=name, fn=fn, params=k, cost=cost))
    nets = list(nettable.NET)
    few = ['bitcoin_main', 'litecoin_main', 'bitcoin_cash_main',
           'bitcoin_cash_test', 'bitcoin_gold_main', 'zcash_sprout_main',
           'zcash_overwinter_test', 'zcash_sapling_main', 'decred_main',
           'groestlcoin_main', 'navcoin_main', 'bitcoin_private_main']
    few = [n for n in few if n in nettable.NET]
    add('default', 'h_default')
    for n in nets:
        if q and n not in few:
            add('history-' + n, 'h_history', first=['decred_main',
                'bitcoin_cash_main', 'bitcoin_gold_main'], last=n, bad=False,
                cost=3)
        else:
            for i, part in enumerate([few[:6], few[6:]] if q else
                                     [nets[j:j + 9]
                                      for j in range(0, len(nets), 9)]):
                add('history-%s-%d' % (n, i), 'h_history', first=part,
                    last=n, bad=True and not q, cost=len(part))
            add('unknown-' + n, 'h_history', first=['decred_main'], last=n,
                bad=True, cost=3)
    for n in nets:
        for m in ('bitcoin_main', 'bitcoin_cash_main', 'decred_main') \
                if not q or n in few else ('decred_main',):
            add('pairs-%s-%s' % (m, n), 'h_pairs', first=m, last=n)
            for op in HEAVY:
                add('%s-%s-%s' % (op, m, n), 'h_heavy', first=m, last=n,
                    op=op, cost=2)
    some = ['bitcoin_cash_main', 'zcash_sapling_main', 'decred_main',
            'bitcoin_gold_main']
    for n in some if q else few:
        for m in some if q else few:
            add('three-%s-%s' % (m, n), 'h_three', first=[m],
                second=some[:2] if q else some, last=n, cost=10,
                ops=['script', 'address', 'build'] if q else list(OPS))
    for n in nets:
        if family(n) == 'plain' and (n in few or n in FORKID or not q):
            for flag in (0, 1):
                add('carry-%s-%d' % (n, flag), 'h_carry', last=n, flag=flag,
                    first=['bitcoin_main', 'bitcoin_gold_main', 'dash_main'])
    for n in range(0, 26):
        add('text-%d' % n, 'h_unknown', net='decred_main', n=n, cost=1)
        add('text-btc-%d' % n, 'h_unknown', net='litecoin_test', n=n)
    return out


CASES = {'C01': c01}
BOUNDS = {
    'C01': 'every supported network after each of 3 others (12 after each of '
           '12, thorough all after all), three selections with one operation '
           'after each (4 x 2 x 4 networks, thorough 12 x 4 x 12), every '
           'operation of a battery checked after each history (names and all '
           'constants, digests, addresses of a fixed hash, scripts of symbolic keys, changed opcodes, VarInt, chain classes, builders, '
           'parsing, signature hash) against constants recorded from the '
           'pristine tree; unknown names: every ASCII text of up to 25 '
           'characters, fixed non-text names; a transaction carried from one '
           'network to another; each operation on one network, then on '
           'another; addresses made of a fixed script and key, and '
           'fixed addresses of eight base58 versions, three bech32 and two '
           'cash prefixes, on every network after decred_main (12 networks: '
           'also after bitcoin_main and bitcoin_cash_main)',
}
