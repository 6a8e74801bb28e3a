'''property -> harness module'''
MODULE = {
    'SELF': 'harness.selftest',      # the engine itself
    'N01': 'harness.numbers', 'N02': 'harness.numbers',
    'N03': 'harness.numbers',
    'S01': 'harness.scripts', 'S02': 'harness.scripts',
    'T01': 'harness.txs', 'T02': 'harness.txs', 'T03': 'harness.txs',
    'T04': 'harness.txs', 'T05': 'harness.objects',
    'T06': 'harness.objects', 'T07': 'harness.objects',
    'H01': 'harness.sighash',
    'H02': 'harness.sighash',
    'H03': 'harness.sighash',
    'Z03': 'harness.sighash',
    'Z04': 'harness.sighash',
    'Z05': 'harness.sighash',
    'D02': 'harness.sighash',
    'Z01': 'harness.chains',
    'Z02': 'harness.chains',
    'D01': 'harness.chains',
    'F01': 'harness.fees',
    'E01': 'harness.codes',
    'E02': 'harness.codes',
    'E03': 'harness.codes',
    'A01': 'harness.addrs',
    'B01': 'harness.builders',
    'B02': 'harness.builders',
    'K01': 'harness.digests',
    'C01': 'harness.nets',
    'Q01': 'harness.standard',
    'A02': 'harness.addrs',
    'E04': 'harness.codes',
}
