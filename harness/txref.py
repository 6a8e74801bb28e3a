'''Reference layouts and symbolic parts of plain transactions.'''


def cs(n):
    '''CompactSize of a concrete count'''
    if n < 253:
        return bytes([n])
    if n < 65536:
        return b'\xfd' + bytes([n % 256, n // 256])
    return b'\xfe' + n.to_bytes(4, 'little')


def le(n, size):
    '''fixed-width little-endian bytes of a (symbolic) natural'''
    return bytes([(n >> (8 * i)) & 255 for i in range(size)])


def h256(hashlib, b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def ser_in(f):
    return (f['tx_id'] + f['index']
            + cs(len(f['stack']) + len(f['redeem']))
            + f['stack'] + f['redeem'] + f['sequence'])


def ser_out(f):
    return f['value'] + cs(len(f['script'])) + f['script']


def ser_wit(items):
    b = cs(len(items))
    for it in items:
        b = b + cs(len(it)) + it
    return b


def ser_tx(f, witness=True):
    b = f['version']
    if witness and f['flag'] is not None:
        b = b + f['flag']
    b = b + cs(len(f['ins']))
    for i in f['ins']:
        b = b + ser_in(i)
    b = b + cs(len(f['outs']))
    for o in f['outs']:
        b = b + ser_out(o)
    if witness:
        for w in f['wits']:
            b = b + ser_wit(w)
    return b + f['lock_time']


OPAQUE = (0x4e, 0xab, 0xba, 0xc0, 0xfe)


def opaque(rt, name, n):
    '''n bytes no script parser can read past the first of: the rest is
    free'''
    if n == 0:
        return b''
    return bytes([OPAQUE[rt.int(name + '.c', 0, len(OPAQUE) - 1)]]) \
        + rt.bytes(name, n - 1)


def in_fields(rt, name, stack, redeem, free=True):
    '''an input's fields; script bytes free unless free is False'''
    g = rt.bytes if free else (lambda m, n: opaque(rt, m, n))
    return dict(tx_id=rt.bytes(name + '.id', 32),
                index=rt.bytes(name + '.ix', 4),
                stack=g(name + '.st', stack) if stack else b'',
                redeem=rt.bytes(name + '.rd', redeem) if redeem else b'',
                sequence=rt.bytes(name + '.sq', 4))


def out_fields(rt, name, n):
    return dict(value=rt.bytes(name + '.v', 8),
                script=rt.bytes(name + '.sc', n) if n else b'')


def make_in(tx, f):
    return tx.TxIn(outpoint=tx.Outpoint(f['tx_id'], f['index']),
                   stack_script=f['stack'], redeem_script=f['redeem'],
                   sequence=f['sequence'])


def make_out(tx, f):
    return tx.TxOut(f['value'], f['script'])


def make_wit(tx, items):
    return tx.InputWitness([tx.WitnessStackItem(i) for i in items])


def make_tx(tx, f):
    wits = None
    if f['flag'] is not None and f['wits'] is not None:
        wits = [make_wit(tx, w) for w in f['wits']]
    return tx.Tx(version=f['version'], flag=f['flag'],
                 tx_ins=[make_in(tx, i) for i in f['ins']],
                 tx_outs=[make_out(tx, o) for o in f['outs']],
                 tx_witnesses=wits, lock_time=f['lock_time'])


def tx_fields(rt, name, ins, outs, wits, flag, free=False):
    '''ins: [(stack, redeem)], outs: [script length], wits: list of lists
    of item lengths; everything else symbolic'''
    return dict(
        version=rt.bytes(name + '.ver', 4),
        lock_time=rt.bytes(name + '.lt', 4),
        flag=b'\x00\x01' if flag else None,
        ins=[in_fields(rt, '%s.i%d' % (name, k), a, b, free)
             for k, (a, b) in enumerate(ins)],
        outs=[out_fields(rt, '%s.o%d' % (name, k), n)
              for k, n in enumerate(outs)],
        wits=[[rt.bytes('%s.w%d.%d' % (name, k, j), n) if n else b''
               for j, n in enumerate(w)] for k, w in enumerate(wits)])


def check_in(rt, label, o, f, parsed=False):
    rt.check(label + ' outpoint bytes',
             o.outpoint.to_bytes() == f['tx_id'] + f['index'])
    rt.check(label + ' outpoint tx_id', bytes(o.outpoint.tx_id) == f['tx_id'])
    rt.check(label + ' outpoint index', bytes(o.outpoint.index) == f['index'])
    rt.check(label + ' script_sig',
             bytes(o.script_sig) == f['stack'] + f['redeem'])
    rt.check(label + ' stack and redeem make the script_sig',
             bytes(o.stack_script) + bytes(o.redeem_script)
             == f['stack'] + f['redeem'])
    if not parsed:
        rt.check(label + ' stack', bytes(o.stack_script) == f['stack'])
        rt.check(label + ' redeem', bytes(o.redeem_script) == f['redeem'])
    rt.check(label + ' sequence', bytes(o.sequence) == f['sequence'])
    rt.check(label + ' bytes', o.to_bytes() == ser_in(f))


def check_out(rt, label, o, f):
    rt.check(label + ' value', bytes(o.value) == f['value'])
    rt.check(label + ' script', bytes(o.output_script) == f['script'])
    rt.check(label + ' bytes', o.to_bytes() == ser_out(f))


def check_wit(rt, label, o, items):
    rt.check(label + ' items', len(o.stack) == len(items))
    for a, b in zip(o.stack, items):
        rt.check(label + ' item', bytes(a.item) == b)
        rt.check(label + ' item bytes', a.to_bytes() == cs(len(b)) + b)
    rt.check(label + ' bytes', o.to_bytes() == ser_wit(items))


def check_tx(rt, label, t, f, parsed=False):
    rt.check(label + ' bytes', t.to_bytes() == ser_tx(f))
    rt.check(label + ' length', len(t) == len(ser_tx(f)))
    rt.check(label + ' no_witness', bytes(t.no_witness())
             == ser_tx(f, False))
    rt.check(label + ' is_witness', t.is_witness() == (f['flag'] is not None))
    rt.check(label + ' version', bytes(t.version) == f['version'])
    rt.check(label + ' lock_time', bytes(t.lock_time) == f['lock_time'])
    rt.check(label + ' flag', t.flag == f['flag'])
    rt.check(label + ' input count', len(t.tx_ins) == len(f['ins']))
    for o, g in zip(t.tx_ins, f['ins']):
        check_in(rt, label + ' input', o, g, parsed)
    rt.check(label + ' output count', len(t.tx_outs) == len(f['outs']))
    for o, g in zip(t.tx_outs, f['outs']):
        check_out(rt, label + ' output', o, g)
    w = t.tx_witnesses or ()
    rt.check(label + ' witness count', len(w) == len(f['wits']))
    for o, g in zip(w, f['wits']):
        check_wit(rt, label + ' witness', o, g)
