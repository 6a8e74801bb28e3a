'''F01: fees'''
from harness import kit, nettable
from harness.kit import Pool, part, ser


def value(b):
    return int.from_bytes(b, 'little')


def h_fee(rt, net, cls, shape, nvals):
    rt.mod('riemann').select_network(net)
    o, ref = part(rt, Pool(rt), cls, 'o', shape)
    want = 0
    for x in ref['tx_outs']:
        want = want - value(x['value'])
    for j in ref.get('tx_joinsplits', ()):
        want = want + value(j['vpub_new']) - value(j['vpub_old'])
    if 'value_balance' in ref:
        want = want + int.from_bytes(ref['value_balance'], 'little',
                                     signed=True)
    if cls == 'DecredTx':
        for w in ref['tx_witnesses']:
            want = want + value(w['value'])
        rt.check('fee', rt.do('fee', o.calculate_fee) == want)
    else:
        vals = [rt.int('in%d' % i, 0, 2 ** 64 - 1) for i in range(nvals)]
        for v in vals:
            want = want + v
        given = list(vals)
        rt.check('fee', rt.do('fee', o.calculate_fee, given) == want)
        rt.check('of a tuple', o.calculate_fee(tuple(vals)) == want)
        rt.check('the list is left alone', len(given) == nvals)
    rt.check('unchanged', o.to_bytes() == ser(ref))


def f01(tier):
    n = 4 if tier == 'quick' else 6
    out = []

    def add(name, **k):
        out.append(dict(name=name, fn='h_fee', params=k))
    outs = [{'output_script': 1}] + [{}] * 9
    for a in range(1, n):
        for m in range(0, n):
            for f in (0, 1):
                add('Tx-%d-%d-%d' % (a, m, f), net='bitcoin_main', cls='Tx',
                    nvals=m, shape=dict(
                        flag=f, tx_ins=[{}] * 2, tx_outs=outs[:a],
                        tx_witnesses=[{}] * 2 if f else []))
            add('DecredTx-%d-%d' % (a, m), net='decred_main',
                cls='DecredTx', nvals=0, shape=dict(
                    tx_ins=[{}] * 2, tx_outs=outs[:a],
                    tx_witnesses=[{}] * m))
    js = [{}, {'vpub': 'old'}, {}, {'vpub': 'old'}, {}]
    for a in range(0, n - 1):
        for j in range(0, 6):
            for c in ('SproutTx', 'OverwinterTx', 'SaplingTx'):
                for m in (0, 1, 3):
                    add('%s-%d-%d-%d' % (c, a, j, m), net=kit.net_of(c),
                        cls=c, nvals=m, shape=dict(
                            version=2 if j else 1, tx_ins=[{}],
                            tx_outs=outs[:a], tx_joinsplits=js[:j]))
            for s, t in ((1, 0), (0, 1), (2, 2)):
                add('SaplingTx-%d-%d-shielded-%d-%d' % (a, j, s, t),
                    net='zcash_sapling_main', cls='SaplingTx', nvals=2,
                    shape=dict(tx_ins=[{}], tx_outs=outs[:a],
                               tx_shielded_spends=[{}] * s,
                               tx_shielded_outputs=[{}] * t,
                               tx_joinsplits=js[1:1 + j]))
    # no inputs, several inputs, many outputs
    for c in ('SproutTx', 'OverwinterTx', 'SaplingTx'):
        for i in (0, 2, 5):
            for a in (0, 1, 2):
                add('%s-ins-%d-%d' % (c, i, a), net=kit.net_of(c), cls=c,
                    nvals=i, shape=dict(
                        version=2, tx_ins=[{}] * i, tx_outs=outs[:a],
                        tx_joinsplits=js[:2]))
    for i in (0, 3):
        add('SaplingTx-pure-%d' % i, net='zcash_sapling_main',
            cls='SaplingTx', nvals=i, shape=dict(
                tx_ins=[{}] * i, tx_outs=[],
                tx_shielded_spends=[{}], tx_shielded_outputs=[{}]))
    for a in (20, 253) if tier == 'quick' else (20, 253, 300):
        for c in ('Tx', 'DecredTx', 'SaplingTx'):
            add('%s-many-%d' % (c, a), net=kit.net_of(c), cls=c,
                nvals=0 if c == 'DecredTx' else 3, shape=dict(
                    tx_ins=[{}] * 3, tx_outs=[{}] * a,
                    **({'tx_witnesses': [{}] * 3} if c == 'DecredTx'
                       else {})))
    for net in nettable.NET:
        if not net.startswith(('zcash', 'decred')):
            add('net-' + net, net=net, cls='Tx', nvals=1, shape=dict(
                tx_ins=[{}], tx_outs=[{}]))
    return out


CASES = {'F01': f01}
BOUNDS = {'F01': '0-5 inputs, 0-3 (thorough 0-5), 20 and 253 outputs, given input values or Decred '
          'witnesses, 0-5 joinsplits of both directions, 0-2 spends and '
          'shielded outputs; all 64-bit values symbolic (value balance '
          'signed); every network with plain transactions'}
