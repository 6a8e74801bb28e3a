'''Q01: standardness and finality'''
from harness import nettable, optable
from harness.addrs import FORMS, push, segwit
from harness.kit import Pool, part, cls_of, rebuild
from harness.txref import cs

PLAIN = tuple(n for n in nettable.NET
              if not n.startswith('decred') and not n.startswith('zcash'))


def start(rt, net):
    rt.mod('riemann').select_network(net)
    return rt.mod('riemann.networks.standard')


# ------------------------------------------------------------- references

def items(b, net):
    '''parts of a script: (opcode, None) or (None, data); None if it does
    not decode'''
    codes = optable.codes(net)
    out, i, n = [], 0, len(b)
    while i < n:
        c = b[i]
        k = -1
        if c >= 1 and c <= 75:
            h = 1
            for j in range(1, n - i):
                if c == j:
                    k = j
                    break
        elif c == 76:
            h = 2
            if i + 1 < n:
                for j in range(0, min(256, n - i - 1)):
                    if b[i + 1] == j:
                        k = j
                        break
        elif c == 77:
            h = 3
            if i + 2 < n:
                m = b[i + 1] + 256 * b[i + 2]
                for j in range(0, n - i - 2):
                    if m == j:
                        k = j
                        break
        elif c == 78 or c == 0xab or not (c in codes):
            return None
        else:
            out.append((c, None))
            i = i + 1
            continue
        if k < 0:
            return None
        if k:
            out.append((None, b[i + h:i + h + k]))
        i = i + h + k
    return out


def ref_push_only(b, net):
    '''True or False; None if the script does not decode'''
    s = items(b, net)
    if s is None:
        return None
    for c, d in s:
        if d is None and not (c == 0 or (c >= 81 and c <= 96)):
            return False
    return True


def is_key(x):
    return x[1] is not None and len(x[1]) in (33, 65)


def ref_type(b, net):
    n = len(b)
    if n == 25 and b[:3] == b'\x76\xa9\x14' and b[23:] == b'\x88\xac':
        return True
    if n == 23 and b[:2] == b'\xa9\x14' and b[22:] == b'\x87':
        return True
    if segwit(net) and n == 22 and b[:2] == b'\x00\x14':
        return True
    if segwit(net) and n == 34 and b[:2] == b'\x00\x20':
        return True
    s = items(b, net)
    if s is None or len(s) < 2 or s[-1][1] is not None:
        return False
    if len(s) == 2 and s[1][0] == 0xac:
        return is_key(s[0])
    if len(s) < 4 or not (s[-1][0] == 0xae):
        return False
    lo, hi = s[0], s[-2]
    if lo[1] is not None or hi[1] is not None:
        return False
    if not (lo[0] >= 81 and hi[0] <= 83 and lo[0] <= hi[0]):
        return False
    if not (hi[0] == 80 + len(s) - 3):
        return False
    for x in s[1:-2]:
        if not is_key(x):
            return False
    return True


def ref_op_return(value, b, net):
    if len(b) > 80 or not (int.from_bytes(value, 'little') == 0):
        return False
    s = items(b, net)
    if s is None or not s or s[0][1] is not None:
        return False
    return s[0][0] == 106


def ref_outs(outs, net):
    '''all outputs are fine, and at most one is an OP_RETURN'''
    n = 0
    for v, b in outs:
        if ref_op_return(v, b, net):
            n += 1
        elif not ref_type(b, net):
            return False
        elif int.from_bytes(v, 'little') < 550 \
                and not (b[:2] == b'\x00\x14'):
            return False
    return n <= 1


def agree(rt, label, got, want):
    '''a bool where one is due; where the script does not decode, anything
    but acceptance'''
    k, v = got
    if want is None:
        rt.check(label + ' undecodable', k == 'exc' or not v)
        return
    rt.check(label + ' decided', k == 'ok')
    if want:
        rt.check(label + ' accepted', v)
    else:
        rt.check(label + ' refused', not v)


def make_out(rt, v, b):
    return rt.do('output', cls_of(rt, 'TxOut'), v, b)


# ----------------------------------------------------------------- scripts

def h_push_free(rt, net, n):
    st = start(rt, net)
    b = rt.bytes('script', n) if n else b''
    agree(rt, 'push only', rt.attempt(st.is_push_only, b),
          ref_push_only(b, net))


def h_push_mix(rt, net, sizes):
    '''pushes of several sizes, and opcodes (size 0) between'''
    st = start(rt, net)
    b = b''
    for i, n in enumerate(sizes):
        if n:
            b = b + push(rt.bytes('data%d' % i, n))
        else:
            c = rt.bytes('op%d' % i, 1)
            rt.assume(rt.any([c[0] == 0, c[0] > 78]))
            b = b + c
    agree(rt, 'push only', rt.attempt(st.is_push_only, b),
          ref_push_only(b, net))


def op(rt, name, lo=79, hi=255):
    c = rt.bytes(name, 1)
    rt.assume(rt.any([c[0] == 0, rt.all([c[0] >= lo, c[0] <= hi])]))
    return c


def template(rt, t):
    '''script from a list: number = push of that many symbolic bytes,
    [n] = push with PUSHDATA1, '?' = any opcode, other text = hex'''
    b = b''
    for i, x in enumerate(t):
        if x == '?':
            b = b + op(rt, 'op%d' % i)
        elif x == '#':
            b = b + op(rt, 'op%d' % i, 80, 85)
        elif type(x) is list:
            b = b + b'\x4c' + bytes(x) + rt.bytes('data%d' % i, x[0])
        elif type(x) is int:
            b = b + push(rt.bytes('data%d' % i, x))
        else:
            b = b + bytes.fromhex(x)
    return b


def h_type(rt, net, t):
    st = start(rt, net)
    b = template(rt, t)
    v = rt.bytes('value', 8)
    agree(rt, 'type', rt.attempt(st.is_standard_output_type,
                                 make_out(rt, v, b)), ref_type(b, net))


def h_type_free(rt, net, n):
    st = start(rt, net)
    b = rt.bytes('script', n) if n else b''
    o = make_out(rt, bytes(8), b)
    agree(rt, 'type', rt.attempt(st.is_standard_output_type, o),
          ref_type(b, net))
    agree(rt, 'op return', rt.attempt(st.is_op_return, o),
          ref_op_return(bytes(8), b, net))


def h_op_return(rt, net, t, tail):
    st = start(rt, net)
    b = template(rt, t) + b'\x51' * tail
    v = rt.bytes('value', 8)
    agree(rt, 'op return', rt.attempt(st.is_op_return, make_out(rt, v, b)),
          ref_op_return(v, b, net))


# ------------------------------------------------------------ transactions

KINDS = {'p2pkh': ['76a9', 20, '88ac'], 'p2sh': ['a9', 20, '87'],
         'p2wpkh': ['00', 20], 'p2wsh': ['00', 32], 'p2pk': [33, 'ac'],
         'multi': ['51', 33, 65, '52ae'], 'junk': ['51'],
         'data': ['6a', 4], 'long': ['6a', 75, '515151'],
         'too-long': ['6a', 75, '51515151'], 'cut': ['05ac'], 'empty': []}


def outputs(rt, kinds):
    outs = []
    for i, k in enumerate(kinds):
        v = rt.bytes('value%d' % i, 8)
        if k[:5] == 'plain':
            h = bytes([i + 7]) * 20
            b = b'\x76\xa9\x14' + h + b'\x88\xac'
        else:
            b = b''
            for j, x in enumerate(KINDS[k]):
                b = b + (push(rt.bytes('out%d.%d' % (i, j), x))
                         if type(x) is int else bytes.fromhex(x))
        outs.append((v, b))
    return outs


def tx_of(rt, ins, outs, version=None, lock=None, wits=None, sigs=None):
    '''a transaction from references'''
    r = {'cls': 'Tx', 'version': version or b'\x02\x00\x00\x00',
         'flag': b'\x00\x01' if wits else None,
         'tx_ins': [{'cls': 'TxIn', 'outpoint': {
             'cls': 'Outpoint', 'tx_id': bytes([i]) * 32, 'index': bytes(4)},
             'stack_script': a, 'redeem_script': b, 'sequence': b'\xff' * 4}
             for i, (a, b) in enumerate(ins)],
         'tx_outs': [{'cls': 'TxOut', 'value': v, 'output_script': b}
                     for v, b in outs],
         'lock_time': lock or bytes(4), 'tx_witnesses': [
             {'cls': 'InputWitness', 'stack': [
                 {'cls': 'WitnessStackItem', 'item': x} for x in w]}
             for w in wits or []]}
    return rebuild(rt, r)


def h_outs(rt, net, kinds):
    st = start(rt, net)
    outs = outputs(rt, kinds)
    t = tx_of(rt, [(b'', b'')], outs)
    agree(rt, 'outputs', rt.attempt(st.check_is_standard, t),
          ref_outs(outs, net))
    agree(rt, 'transaction', rt.attempt(st.check_is_standard_tx, t),
          ref_outs(outs, net))


def h_version(rt, net):
    st = start(rt, net)
    v = rt.bytes('version', 4)
    value = rt.bytes('value0', 8)
    outs = [(value, b'\xa9\x14' + b'\x07' * 20 + b'\x87')]
    t = tx_of(rt, [(b'', b'')], outs, version=v)
    n = int.from_bytes(v, 'little')
    agree(rt, 'transaction', rt.attempt(st.check_is_standard_tx, t),
          rt.all([rt.any([n == 1, n == 2]),
                  int.from_bytes(value, 'little') >= 550]))


GOOD = (b'\xe8\x03' + bytes(6), b'\xa9\x14' + b'\x07' * 20 + b'\x87')


def h_sig(rt, net, which, n, fill):
    '''script sigs: fill opcodes, then a symbolic script of n bytes'''
    st = start(rt, net)
    b = rt.bytes('script', n) if n else b''
    sig = b'\x51' * fill + b
    ins = [(b'\x00', b''), (b'', b'\x01\x61')]
    ins.insert(which, (sig[:1], sig[1:]))
    t = tx_of(rt, ins, [GOOD])
    agree(rt, 'transaction', rt.attempt(st.check_is_standard_tx, t),
          ref_push_only(sig, net) is True)


def h_weight(rt, net, delta):
    '''weight around the limit, most of it in a witness'''
    st = start(rt, net)
    d = rt.bytes('data', 4)
    outs = [GOOD, GOOD]
    size = 4 + 1 + 41 + 1 + 2 * 32 + 4      # without witness
    # flag and count (3), count of items and their lengths: 1 and 5 bytes
    n = 400000 - 4 * size - 2 - 1 - 5 + delta
    t = tx_of(rt, [(b'', b'')], outs, wits=[[d + bytes(n - 4)]])
    total = len(t.no_witness()) * 3 + len(t)
    rt.check('weight', total == 400000 + delta)
    agree(rt, 'transaction', rt.attempt(st.check_is_standard_tx, t),
          delta <= 0)


def h_small(rt, net, n, wit):
    '''size without witness'''
    st = start(rt, net)
    b = rt.bytes('script', n) if n else b''
    v = rt.bytes('value', 8)
    t = tx_of(rt, [(b'', b'')], [(v, b)], wits=[[b'\x01' * 90]] if wit
              else None)
    size = 4 + 1 + 41 + 1 + 8 + 1 + n + 4
    agree(rt, 'size', rt.attempt(st.check_tx_size_small, t), size >= 82)


def h_final(rt, net, how):
    st = start(rt, net)
    b = rt.bytes('lock', 4)
    t = tx_of(rt, [(b'', b'')], [GOOD], lock=b)
    lock = int.from_bytes(b, 'little')
    height = rt.int('height', 0, 2 ** 33)
    stamp = rt.int('timestamp', 0, 2 ** 33)
    if how == 'both':
        got = rt.attempt(st.check_final, t, height, stamp)
    elif how == 'height':
        got = rt.attempt(st.check_final, t, best_height=height)
        stamp = 0
    elif how == 'timestamp':
        got = rt.attempt(st.check_final, t, best_timestamp=stamp)
        height = 0
    else:
        got = rt.attempt(st.check_final, t)
        height = stamp = 0
    agree(rt, 'final', got, lock <= (
        height if lock < 500000000 else stamp))


def q01(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, cost=1, **k):
        out.append(dict(name=name, fn=fn, params=k, cost=cost))
    few = ('bitcoin_main', 'bitcoin_cash_main', 'dash_main')
    for net in few:
        for n in range(0, 4 if q else 6):
            add('push-free-%s-%d' % (net, n), 'h_push_free', net=net, n=n,
                cost=3 ** n)
            add('type-free-%s-%d' % (net, n), 'h_type_free', net=net, n=n,
                cost=3 ** n)
    for net in nettable.NET:
        add('push-net-' + net, 'h_push_free', net=net, n=2)
    for i, s in enumerate(([0, 72, 33], [72, 0], [75, 76, 0], [0, 0, 0, 0],
                           [255, 256, 0], [520, 0, 1], [0, 1, 0, 1])):
        add('push-mix-%d' % i, 'h_push_mix', net='bitcoin_main', sizes=s)
    types = []
    for n in (20, 32, 33, 34, 64, 65, 66, 75, 76):
        types += [[n, '?'], [n, '?', '?']]
    types += [['?', '?'], ['?', '?', '?'], [33, 33], [33, 33, 'ac'],
              ['?', 33, '?'], [[33], 'ac'], [[65], 'ac'], [[33], 'ae']]
    for ks in ([33], [65], [33, 33], [33, 65], [33, 33, 33], [65, 65, 65],
               [33, 33, 33, 33], [32], [33, 34], [33, 20, 33], []):
        types += [['#'] + ks + ['#', 'ae'], ['#'] + ks + ['#', '?'][:2]]
    types += [['51', '?', '51ae'], ['51', 33, '?', '52ae'],
              ['5b', 33, '51ae'], ['60', 33, '51ae'], ['00', 33, '51ae'],
              [2, 33, '51ae'], [33, 33, '51ae'], ['51', 33, 1, 'ae'],
              ['51', 33, '51ae', '?'], ['?', '51', 33, '51ae'],
              ['52', [33], 65, '52ae'], ['51', 33, '51af']]
    for net in few[:1] if q else few:
        for i, t in enumerate(types):
            add('type-%s-%d' % (net, i), 'h_type', net=net, t=t, cost=2)
    forms = [['76a914', '?', 1], ['76a9', 20, '88', '?'], ['76a9', 20, '?ac'
             .replace('?', '88')], ['a9', 20, '?'], ['a9', 20, '87'],
             ['a9', 19, '87'], ['a9', 21, '87'], ['?', 20], ['?', 32],
             ['00', 19], ['00', 21], ['00', 31], ['00', 33], ['51', 20],
             ['51', 32], ['76a9', 20, '88ac', '?'], ['00', 20, '?'],
             ['a9', 20, '87', '?'], ['76a9', 19, '88ac']]
    for net in nettable.NET:
        if net in few or not q:
            for i, t in enumerate(forms[1:]):
                add('form-%s-%d' % (net, i), 'h_type', net=net, t=t, cost=3)
        elif net in PLAIN:
            for i, t in enumerate((['76a9', 20, '88ac'], ['a9', 20, '87'],
                                   ['00', 20], ['00', 32])):
                add('form-%s-%d' % (net, i), 'h_type', net=net, t=t)
    for net in few[:1] if q else few:
        for i, (t, tail) in enumerate((
                (['6a', 4], 0), (['6a', 20], 0), (['6a'], 0), (['?'], 0),
                ([], 0), (['?', 3], 0), ([3, '6a'], 0), (['6a', 34], 0),
                (['6a', 35], 0), (['6a', 75], 2), (['6a', 75], 3),
                (['6a', 75], 4), (['6a', 76], 0), (['6a', 77], 0),
                (['6a', 78], 0), (['6a', 40, 36], 0), (['6a', 40, 37], 0),
                (['6a', 40, 38], 0), (['6a05'], 2), (['6a4d'], 3),
                (['6a', '?'], 0), (['6a', 4], 74), (['6a', 4], 75))):
            add('op-return-%s-%d' % (net, i), 'h_op_return', net=net, t=t,
                tail=tail)
        kinds = [[k] for k in KINDS] + [
            ['plain', 'plain'], ['data', 'plain'], ['plain', 'data'],
            ['data', 'data'], ['data', 'plain', 'data'],
            ['plain', 'plain', 'plain'], ['junk', 'data'],
            ['plain', 'junk'], ['plain', 'too-long'], ['plain', 'long'],
            ['plain', 'cut'], ['data', 'data', 'data'], ['plain', 'empty'],
            ['p2wpkh', 'data'], ['p2pk', 'plain']]
        for k in kinds:
            add('outs-%s-%s' % (net, '.'.join(k)), 'h_outs', net=net,
                kinds=k, cost=4)
    for net in few:
        add('version-' + net, 'h_version', net=net)
        for how in ('both', 'height', 'timestamp', 'neither'):
            add('final-%s-%s' % (net, how), 'h_final', net=net, how=how)
        for n in range(15, 27):
            for w in (False, True):
                add('small-%s-%d-%s' % (net, n, w), 'h_small', net=net, n=n,
                    wit=w)
    for w in (0, 1, 2):
        for n, fill in ((1, 0), (2, 1), (0, 0), (2, 1647), (2, 1648),
                        (1, 1649)):
            add('sig-%d-%d-%d' % (w, n, fill), 'h_sig', net='bitcoin_main',
                which=w, n=n, fill=fill, cost=3)
    for d in (-2, -1, 0, 1, 2):
        add('weight-%d' % d, 'h_weight', net='bitcoin_main', delta=d)
    return out


CASES = {'Q01': q01}
BOUNDS = {
    'Q01': 'push-only: every script of up to 3 bytes (thorough 5) on 3 '
           'networks, of 2 bytes on all 72, mixes of pushes of 1..520 bytes '
           'with any opcode; output types: every script of up to 3 (5) '
           'bytes, address forms with any opcode in the place of their '
           'fixed ones and lengths one off, pay-to-pubkey and multisig '
           'forms with 0..4 keys of 20..66 bytes and any opcodes around '
           'them, address forms on every plain network; OP_RETURN scripts '
           'of 0..82 bytes; any 64-bit values; 1..3 outputs of 12 kinds; '
           'script sigs of up to 1650 bytes of which 2 are free; weights '
           '400000 -2..+2; any version; any lock time, heights and '
           'timestamps up to 2^33; Zcash and Decred transactions have no '
           'such checks',
}
