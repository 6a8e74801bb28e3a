'''Every transaction class: its fields, its layout, and makers of symbolic
instances with a reference description next to them.'''
import hashlib
from harness.txref import cs, h256

T, D, Z, SP, OW, SA = ('riemann.tx.tx', 'riemann.tx.decred',
                       'riemann.tx.zcash_shared', 'riemann.tx.sprout',
                       'riemann.tx.overwinter', 'riemann.tx.sapling')

JS = [('vpub_old', 8), ('vpub_new', 8), ('anchor', 32), ('nullifiers', 64),
      ('commitments', 64), ('ephemeral_key', 32), ('random_seed', 32),
      ('vmacs', 64)]

# class -> (module, [(field, size | '*' | class | [class])])
SPEC = {
    'Outpoint': (T, [('tx_id', 32), ('index', 4)]),
    'TxIn': (T, [('outpoint', 'Outpoint'), ('stack_script', '*'),
                 ('redeem_script', '*'), ('sequence', 4)]),
    'TxOut': (T, [('value', 8), ('output_script', '*')]),
    'WitnessStackItem': (T, [('item', '*')]),
    'InputWitness': (T, [('stack', ['WitnessStackItem'])]),
    'Tx': (T, [('version', 4), ('flag', 'flag'), ('tx_ins', ['TxIn']),
               ('tx_outs', ['TxOut']), ('tx_witnesses', ['InputWitness']),
               ('lock_time', 4)]),
    'DecredOutpoint': (D, [('tx_id', 32), ('index', 4), ('tree', 1)]),
    'DecredTxIn': (D, [('outpoint', 'DecredOutpoint'), ('sequence', 4)]),
    'DecredTxOut': (D, [('value', 8), ('version', 2),
                        ('output_script', '*')]),
    'DecredInputWitness': (D, [('value', 8), ('height', 4), ('index', 4),
                               ('stack_script', '*'),
                               ('redeem_script', '*')]),
    'DecredTx': (D, [('version', 4), ('tx_ins', ['DecredTxIn']),
                     ('tx_outs', ['DecredTxOut']), ('lock_time', 4),
                     ('expiry', 4),
                     ('tx_witnesses', ['DecredInputWitness'])]),
    'SproutZkproof': (Z, [('pi_sub_a', 33), ('pi_prime_sub_a', 33),
                          ('pi_sub_b', 65), ('pi_prime_sub_b', 33),
                          ('pi_sub_c', 33), ('pi_prime_sub_c', 33),
                          ('pi_sub_k', 33), ('pi_sub_h', 33)]),
    'SproutJoinsplit': (Z, JS + [('zkproof', 'SproutZkproof'),
                                 ('encoded_notes', 1202)]),
    'SproutTx': (SP, [('version', 'v12'), ('tx_ins', ['TxIn']),
                      ('tx_outs', ['TxOut']), ('lock_time', 4),
                      ('tx_joinsplits', ['SproutJoinsplit']),
                      ('joinsplit_pubkey', 'js32'),
                      ('joinsplit_sig', 'js64')]),
    'OverwinterTx': (OW, [('tx_ins', ['TxIn']), ('tx_outs', ['TxOut']),
                          ('lock_time', 4), ('expiry_height', 'exp'),
                          ('tx_joinsplits', ['SproutJoinsplit']),
                          ('joinsplit_pubkey', 'js32'),
                          ('joinsplit_sig', 'js64')]),
    'SaplingZkproof': (SA, [('pi_sub_a', 48), ('pi_sub_b', 96),
                            ('pi_sub_c', 48)]),
    'SaplingShieldedSpend': (SA, [('cv', 32), ('anchor', 32),
                                  ('nullifier', 32), ('rk', 32),
                                  ('zkproof', 'SaplingZkproof'),
                                  ('spend_auth_sig', 64)]),
    'SaplingShieldedOutput': (SA, [('cv', 32), ('cmu', 32),
                                   ('ephemeral_key', 32),
                                   ('enc_ciphertext', 580),
                                   ('out_ciphertext', 80),
                                   ('zkproof', 'SaplingZkproof')]),
    'SaplingJoinsplit': (SA, JS + [('zkproof', 'SaplingZkproof'),
                                   ('encoded_notes', 1202)]),
    'SaplingTx': (SA, [('tx_ins', ['TxIn']), ('tx_outs', ['TxOut']),
                       ('lock_time', 4), ('expiry_height', 'exp'),
                       ('value_balance', 'bal'),
                       ('tx_shielded_spends', ['SaplingShieldedSpend']),
                       ('tx_shielded_outputs', ['SaplingShieldedOutput']),
                       ('tx_joinsplits', ['SaplingJoinsplit']),
                       ('joinsplit_pubkey', 'js32'),
                       ('joinsplit_sig', 'js64'), ('binding_sig', 'bind')]),
}
NETS = {T: 'bitcoin_main', D: 'decred_main', Z: 'zcash_sprout_main',
        SP: 'zcash_sprout_main', OW: 'zcash_overwinter_main',
        SA: 'zcash_sapling_main'}
NOCOPY = ('WitnessStackItem', 'SproutZkproof', 'SproutJoinsplit',
          'SaplingZkproof', 'SaplingShieldedSpend', 'SaplingShieldedOutput',
          'SaplingJoinsplit')


def net_of(cls):
    return NETS[SPEC[cls][0]]


def cls_of(rt, cls):
    return getattr(rt.mod(SPEC[cls][0]), cls)


class Pool:
    '''hands out symbolic leaves: bytes, or bytearrays that are recorded'''

    def __init__(self, rt, mutable=False):
        self.rt = rt
        self.mutable = mutable
        self.buffers = []
        self.lists = []

    def leaf(self, name, n):
        '''(what is passed, reference bytes)'''
        if self.mutable:
            b = self.rt.bytearray(name, n)
            self.buffers.append(b)
            return b, bytes(b)
        b = self.rt.bytes(name, n) if n else b''
        return b, b


def fields(rt, pool, cls, name, shape):
    '''(arguments, reference) of one instance; shape: sizes of '*' fields,
    lists of shapes of list fields, 'flag', 'version'; absent: 0 or empty'''
    args, ref = {}, {'cls': cls}
    for f, kind in SPEC[cls][1]:
        s = shape.get(f)
        nm = '%s.%s' % (name, f)
        if kind == '*':
            args[f], ref[f] = pool.leaf(nm, s or 0)
        elif kind == 'flag':
            args[f] = ref[f] = b'\x00\x01' if s else None
            if s and pool.mutable:
                args[f] = bytearray(ref[f])
                pool.buffers.append(args[f])
        elif kind == 'v12':
            ref[f] = bytes([s or 2, 0, 0, 0])
            args[f] = ref[f]
            if pool.mutable:
                args[f] = bytearray(ref[f])
                pool.buffers.append(args[f])
        elif kind in ('js32', 'js64', 'bind'):
            if kind == 'bind':
                want = shape.get('tx_shielded_spends') or \
                    shape.get('tx_shielded_outputs')
            else:
                want = shape.get('tx_joinsplits')
            if want:
                args[f], ref[f] = pool.leaf(nm, 32 if kind == 'js32' else 64)
            else:
                args[f] = ref[f] = None
        elif kind == 'exp':
            args[f], ref[f] = pool.leaf(nm, 4)
            rt.assume(int.from_bytes(ref[f], 'little') <= 499999999)
        elif kind == 'bal':
            if shape.get('tx_shielded_spends') \
                    or shape.get('tx_shielded_outputs'):
                args[f], ref[f] = pool.leaf(nm, 8)
            else:
                ref[f] = bytes(8)
                args[f] = bytearray(8) if pool.mutable else ref[f]
                if pool.mutable:
                    pool.buffers.append(args[f])
        elif type(kind) is int:
            if f == 'vpub_new':
                # at most one of the two values is not zero
                which = shape.get('vpub', 'new')
                if which == 'old':
                    ref[f] = bytes(8)
                    args[f] = bytearray(8) if pool.mutable else ref[f]
                    if pool.mutable:
                        pool.buffers.append(args[f])
                else:
                    args[f], ref[f] = pool.leaf(nm, 8)
                    args['vpub_old'] = ref['vpub_old'] = bytes(8)
                    if pool.mutable:
                        args['vpub_old'] = bytearray(8)
                        pool.buffers[-2] = args['vpub_old']
            else:
                args[f], ref[f] = pool.leaf(nm, kind)
        elif type(kind) is str:
            args[f], ref[f] = part(rt, pool, kind, nm, s or {})
        else:
            got = [part(rt, pool, kind[0], '%s%d' % (nm, i), x)
                   for i, x in enumerate(s or ())]
            args[f] = [a for a, _ in got]
            ref[f] = [r for _, r in got]
            pool.lists.append(args[f])
    return args, ref


def part(rt, pool, cls, name, shape):
    '''(built object, reference)'''
    args, ref = fields(rt, pool, cls, name, shape)
    return rt.do('build ' + cls, cls_of(rt, cls), **args), ref


def rebuild(rt, ref):
    '''an object from a reference, all from bytes'''
    args = {}
    for f, kind in SPEC[ref['cls']][1]:
        v = ref[f]
        if type(kind) is list and v is not None:
            v = [rebuild(rt, x) for x in v]
        elif type(v) is dict:
            v = rebuild(rt, v)
        args[f] = v
    return rt.do('rebuild ' + ref['cls'], cls_of(rt, ref['cls']), **args)


def rebuild_shape(rt, cls, shape):
    '''a fixed instance'''
    args = {}
    for f, kind in SPEC[cls][1]:
        if type(kind) is int:
            args[f] = b'\x05' * kind
        elif kind == '*':
            args[f] = b'\x51' * shape.get(f, 0)
        else:
            args[f] = rebuild_shape(rt, kind, {})
    return rt.do('fixed ' + cls, cls_of(rt, cls), **args)


def drop_unused(ref):
    '''keys and signatures a transaction has no use for are not kept'''
    if not ref.get('tx_joinsplits'):
        for f in ('joinsplit_pubkey', 'joinsplit_sig'):
            if f in ref:
                ref[f] = None
    if 'binding_sig' in ref and not ref['tx_shielded_spends'] \
            and not ref['tx_shielded_outputs']:
        ref['binding_sig'] = None


# ------------------------------------------------------------- reference

def vec(items):
    return cs(len(items)) + b''.join([ser(x) for x in items])


def script(s):
    return cs(len(s)) + s


def ser(r):
    '''consensus layout of a reference'''
    c = r['cls']
    if c == 'TxIn':
        return ser(r['outpoint']) + script(
            r['stack_script'] + r['redeem_script']) + r['sequence']
    if c == 'TxOut':
        return r['value'] + script(r['output_script'])
    if c == 'WitnessStackItem':
        return script(r['item'])
    if c == 'InputWitness':
        return vec(r['stack'])
    if c == 'Tx':
        return r['version'] + (r['flag'] or b'') + vec(r['tx_ins']) \
            + vec(r['tx_outs']) \
            + b''.join([ser(w) for w in r['tx_witnesses']]) + r['lock_time']
    if c == 'DecredTxOut':
        return r['value'] + r['version'] + script(r['output_script'])
    if c == 'DecredInputWitness':
        return r['value'] + r['height'] + r['index'] + script(
            r['stack_script'] + r['redeem_script'])
    if c == 'DecredTx':
        return r['version'] + vec(r['tx_ins']) + vec(r['tx_outs']) \
            + r['lock_time'] + r['expiry'] + vec(r['tx_witnesses'])
    if c == 'SproutTx':
        b = r['version'] + vec(r['tx_ins']) + vec(r['tx_outs']) \
            + r['lock_time']
        if r['version'] == b'\x02\x00\x00\x00':
            b = b + vec(r['tx_joinsplits'])
            if r['tx_joinsplits']:
                b = b + r['joinsplit_pubkey'] + r['joinsplit_sig']
        return b
    if c == 'OverwinterTx':
        b = bytes.fromhex('030000807082c403') + vec(r['tx_ins']) \
            + vec(r['tx_outs']) + r['lock_time'] + r['expiry_height'] \
            + vec(r['tx_joinsplits'])
        if r['tx_joinsplits']:
            b = b + r['joinsplit_pubkey'] + r['joinsplit_sig']
        return b
    if c == 'SaplingTx':
        b = bytes.fromhex('0400008085202f89') + vec(r['tx_ins']) \
            + vec(r['tx_outs']) + r['lock_time'] + r['expiry_height'] \
            + r['value_balance'] + vec(r['tx_shielded_spends']) \
            + vec(r['tx_shielded_outputs']) + vec(r['tx_joinsplits'])
        if r['tx_joinsplits']:
            b = b + r['joinsplit_pubkey'] + r['joinsplit_sig']
        if r['tx_shielded_spends'] or r['tx_shielded_outputs']:
            b = b + r['binding_sig']
        return b
    return b''.join([ser(r[f]) if type(r[f]) is dict else r[f]
                     for f, _ in SPEC[c][1]])


def no_witness(r):
    return ser(dict(r, flag=None, tx_witnesses=[]))


def decred_prefix(r):
    return r['version'][:2] + b'\x01\x00' + vec(r['tx_ins']) \
        + vec(r['tx_outs']) + r['lock_time'] + r['expiry']


def decred_witness(r):
    return r['version'][:2] + b'\x02\x00' + vec(r['tx_witnesses'])


def decred_witness_signing(r):
    b = r['version'][:2] + b'\x03\x00' + cs(len(r['tx_witnesses']))
    for w in r['tx_witnesses']:
        b = b + script(w['stack_script'] + w['redeem_script'])
    return b


def hsig(js, key):
    h = hashlib.blake2b(digest_size=32, person=b'ZcashComputehSig')
    h.update(js['random_seed'] + js['nullifiers'] + key)
    return h.digest()


def derived(rt, r):
    '''attributes that follow from the fields'''
    c = r['cls']
    if c in ('TxIn', 'DecredInputWitness'):
        return {'script_sig': r['stack_script'] + r['redeem_script']}
    if c == 'Tx':
        i = h256(hashlib, no_witness(r))
        d = {'tx_id_le': i, 'tx_id': i[::-1], 'wtx_id_le': None,
             'wtx_id': None}
        if r['flag'] is not None:
            w = h256(hashlib, ser(r))
            d['wtx_id_le'], d['wtx_id'] = w, w[::-1]
        return d
    if c == 'DecredTx':
        i = rt.mod('riemann.blake256').blake_hash(decred_prefix(r))
        return {'tx_id_le': i, 'tx_id': i[::-1]}
    if c in ('SproutTx', 'OverwinterTx', 'SaplingTx'):
        i = h256(hashlib, ser(r))
        d = {'tx_id_le': i, 'tx_id': i[::-1]}
        hs = [hsig(j, r['joinsplit_pubkey']) for j in r['tx_joinsplits']]
        d['hsigs'] = hs
        d['primary_inputs'] = [
            j['anchor'] + j['nullifiers'] + j['commitments'] + j['vpub_old']
            + j['vpub_new'] + h + j['vmacs']
            for j, h in zip(r['tx_joinsplits'], hs)]
        if c == 'OverwinterTx':
            d['header'] = bytes.fromhex('03000080')
            d['group_id'] = bytes.fromhex('7082c403')
        if c == 'SaplingTx':
            d['header'] = bytes.fromhex('04000080')
            d['group_id'] = bytes.fromhex('85202f89')
        return d
    return {}


def check_value(rt, label, v, want):
    if want is None:
        rt.check(label, v is None)
    elif type(want) is list:
        rt.check(label + ' count', len(v) == len(want))
        for a, b in zip(v, want):
            check_value(rt, label, a, b)
    elif type(want) is dict:
        same(rt, label, v, want)
    else:
        rt.check(label, v is not None and bytes(v) == want)


def same(rt, label, o, r, loose=()):
    '''object o is the one reference r describes'''
    label = label + ' ' + r['cls']
    rt.check(label + ' bytes', o.to_bytes() == ser(r))
    for f, kind in SPEC[r['cls']][1]:
        if f in loose:
            continue
        v = getattr(o, f)
        if v is None and r[f] == []:
            continue
        check_value(rt, label + ' ' + f, v, r[f])
    for f, want in derived(rt, r).items():
        check_value(rt, label + ' ' + f, getattr(o, f), want)


# shapes used by several properties
IN1 = {'stack_script': 2, 'redeem_script': 1}
IN0 = {}
OUT1 = {'output_script': 3}
SHAPES = {
    'Outpoint': [{}],
    'TxIn': [IN1, IN0, {'stack_script': 107}],
    'TxOut': [OUT1, {}],
    'WitnessStackItem': [{'item': 2}, {}],
    'InputWitness': [{'stack': [{'item': 1}, {}]}, {}],
    'Tx': [{'tx_ins': [IN1, IN0], 'tx_outs': [OUT1, {}]},
           {'flag': 1, 'tx_ins': [IN0, IN1], 'tx_outs': [OUT1],
            'tx_witnesses': [{'stack': [{'item': 2}]}, {}]},
           {'flag': 1, 'tx_ins': [IN0], 'tx_outs': [OUT1, OUT1]}],
    'DecredOutpoint': [{}],
    'DecredTxIn': [{}],
    'DecredTxOut': [OUT1, {}],
    'DecredInputWitness': [IN1, IN0],
    'DecredTx': [{'tx_ins': [{}, {}], 'tx_outs': [OUT1, {}],
                  'tx_witnesses': [IN1, IN0]},
                 {'tx_ins': [{}], 'tx_outs': [OUT1],
                  'tx_witnesses': []}],
    'SproutZkproof': [{}],
    'SproutJoinsplit': [{}, {'vpub': 'old'}],
    'SproutTx': [{'version': 1, 'tx_ins': [IN1, IN0],
                  'tx_outs': [OUT1, {}]},
                 {'version': 2, 'tx_ins': [IN1], 'tx_outs': [OUT1]},
                 {'version': 2, 'tx_ins': [IN1], 'tx_outs': [OUT1],
                  'tx_joinsplits': [{}, {'vpub': 'old'}]},
                 {'version': 2, 'tx_joinsplits': [{}]}],
    'OverwinterTx': [{'tx_ins': [IN1, IN0], 'tx_outs': [OUT1, {}]},
                     {'tx_ins': [IN1], 'tx_outs': [OUT1],
                      'tx_joinsplits': [{}, {'vpub': 'old'}]},
                     {'tx_joinsplits': [{}]}],
    'SaplingZkproof': [{}],
    'SaplingShieldedSpend': [{}],
    'SaplingShieldedOutput': [{}],
    'SaplingJoinsplit': [{}, {'vpub': 'old'}],
    'SaplingTx': [{'tx_ins': [IN1, IN0], 'tx_outs': [OUT1, {}]},
                  {'tx_ins': [IN1], 'tx_outs': [OUT1],
                   'tx_shielded_spends': [{}],
                   'tx_shielded_outputs': [{}, {}],
                   'tx_joinsplits': [{}]},
                  {'tx_shielded_spends': [{}, {}]},
                  {'tx_ins': [IN0], 'tx_shielded_outputs': [{}]},
                  {'tx_joinsplits': [{}, {'vpub': 'old'}]}],
}
