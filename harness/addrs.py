'''A01, A02: addresses, output scripts and hashes'''
import hashlib
from harness import nettable
from harness.codes import attr

P2PKH = (b'\x76\xa9\x14', 20, b'\x88\xac')
P2SH = (b'\xa9\x14', 20, b'\x87')
P2WPKH = (b'\x00\x14', 20, b'')
P2WSH = (b'\x00\x20', 32, b'')
FORMS = {'p2pkh': P2PKH, 'p2sh': P2SH, 'p2wpkh': P2WPKH, 'p2wsh': P2WSH}


def start(rt, net):
    riemann = rt.mod('riemann')
    riemann.select_network(net)
    return rt.mod('riemann.encoding.addresses')


def segwit(net):
    return attr(net, 'SEGWIT')


def encoder(rt, net, name):
    return rt.mod(attr(net, name).split(':')[1])


def payload_of(net, form, h, cashaddr):
    '''(encoder, payload) of the address of a hash'''
    if form in ('p2wpkh', 'p2wsh'):
        return 'SEGWIT_ENCODER', FORMS[form][0] + h
    key = form.upper()
    if attr(net, 'CASHADDR_PREFIX') and cashaddr:
        return 'CASHADDR_ENCODER', attr(net, 'CASHADDR_' + key) + h
    return 'LEGACY_ENCODER', attr(net, key + '_PREFIX') + h


def ref_address(rt, net, form, h, cashaddr=True):
    enc, p = payload_of(net, form, h, cashaddr)
    return encoder(rt, net, enc).encode(p)


def plain(rt, net, s):
    '''a bech32 address is not by chance base58 with a valid checksum'''
    rt.assume(not rt.mod('riemann.encoding.base58').has_checksum(s))


def is_bech32(net, enc):
    return enc == 'SEGWIT_ENCODER' and attr(net, enc).endswith('bech32')


def h_round(rt, net, form, cashaddr, upper=False, some=False):
    a = start(rt, net)
    pre, n, post = FORMS[form]
    h = rt.bytes('hash', n)
    if some:                # the first data character is a zero
        rt.assume(h[0] >> 3 == 15)
    script = pre + h + post
    if form in ('p2wpkh', 'p2wsh') and not segwit(net):
        k, v = rt.attempt(a.from_output_script, script, cashaddr)
        rt.check('witness script has no address', k == 'exc'
                 and isinstance(v, ValueError))
        return
    enc, p = payload_of(net, form, h, cashaddr)
    s = rt.do('address', a.from_output_script, script, cashaddr)
    rt.check('address', s == encoder(rt, net, enc).encode(p))
    if upper:
        s = s.upper()
    if is_bech32(net, enc):
        plain(rt, net, s)
    rt.check('script of the address',
             rt.do('script', a.to_output_script, s) == script)
    rt.check('payload', rt.do('parse', a.parse, s) == p)
    rt.check('hash', rt.do('parse hash', a.parse_hash, s) == h)
    if cashaddr and not upper:
        rt.check('preferred by default', a.from_output_script(script) == s)


def form_of(rt, net, script):
    for form in ('p2pkh', 'p2sh', 'p2wpkh', 'p2wsh'):
        pre, n, post = FORMS[form]
        if len(script) != len(pre) + n + len(post):
            continue
        if form in ('p2wpkh', 'p2wsh') and not segwit(net):
            continue
        if rt.all([script[:len(pre)] == pre,
                   script[len(pre) + n:] == post]):
            return form
    return None


def h_scripts(rt, net, n, cashaddr):
    '''any byte string'''
    a = start(rt, net)
    script = rt.bytes('script', n)
    k, v = rt.attempt(a.from_output_script, script, cashaddr)
    form = form_of(rt, net, script)
    if k == 'exc':
        rt.check('refuses only other scripts', form is None)
        rt.check('refusal type', isinstance(v, ValueError))
        return
    rt.check('only these scripts have an address', form is not None)
    pre, m, post = FORMS[form]
    rt.check('address', v == ref_address(
        rt, net, form, script[len(pre):len(pre) + m], cashaddr))


def h_payload(rt, net, enc, n, some=False):
    '''any payload in any of the encodings'''
    a = start(rt, net)
    p = rt.bytes('payload', n)
    e = rt.mod('riemann.encoding.' + enc)
    if some and enc == 'base58':    # at most one leading zero
        rt.assume(rt.any([p[0] != 0, p[1] != 0]))
    if enc == 'bech32':
        rt.assume(rt.all([p[0] <= 16, p[1] == n - 2]))
        if some:                    # the first program character is a zero
            rt.assume(p[2] >> 3 == 15)
        if n not in (22, 34):
            rt.assume(p[0] != 0)
    s = e.encode(p)
    if enc == 'bech32':
        plain(rt, net, s)
    want = None
    if enc == 'base58' or enc == 'cashaddr':
        kind = {'base58': '%s_PREFIX', 'cashaddr': 'CASHADDR_%s'}[enc]
        for form in ('p2pkh', 'p2sh'):
            pre = attr(net, kind % form.upper())
            if pre is not None and n == len(pre) + 20 \
                    and p[:len(pre)] == pre:
                want = (form, p[len(pre):])
    if want is None and segwit(net) and \
            attr(net, 'SEGWIT_ENCODER') == 'module:riemann.encoding.' + enc:
        for form in ('p2wpkh', 'p2wsh'):
            pre, m, post = FORMS[form]
            if n == len(pre) + m and p[:len(pre)] == pre:
                want = (form, p[len(pre):])
    known = [attr(net, x).split('.')[-1] for x in (
        'LEGACY_ENCODER', 'SEGWIT_ENCODER', 'CASHADDR_ENCODER')]
    if enc in known:
        rt.check('parses', rt.do('parse', a.parse, s) == p)
    k, v = rt.attempt(a.to_output_script, s)
    j, w = rt.attempt(a.parse_hash, s)
    if k == 'exc':
        rt.check('refuses only other payloads', want is None)
        rt.check('refusal type', isinstance(v, ValueError))
        rt.check('no hash', j == 'exc' and isinstance(w, ValueError))
        return
    rt.check('accepts only these payloads', want is not None)
    form, h = want
    rt.check('script', v == FORMS[form][0] + h + FORMS[form][2])
    rt.check('has a hash', j == 'ok')
    rt.check('hash', w == h)
    rt.check('address of the script', rt.do(
        'back', a.from_output_script, v, enc == 'cashaddr') == s)


def h_text(rt, net, n, head):
    '''short strings are no addresses'''
    a = start(rt, net)
    s = head + rt.text('s', n)
    for f in (a.to_output_script, a.parse_hash):
        k, v = rt.attempt(f, s)
        rt.check('refused', k == 'exc')
        rt.check('refusal type', isinstance(v, ValueError))


FEW = ('bitcoin_main', 'bitcoin_cash_main', 'zcash_sapling_main',
       'decred_main', 'groestlcoin_main', 'bitcore_main')


def a01(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, cost=1, **k):
        out.append(dict(name=name, fn=fn, params=k, cost=cost))
    for net in nettable.NET:
        cash = bool(attr(net, 'CASHADDR_PREFIX'))
        for form in FORMS:
            for c in (True, False) if cash else (True,):
                b32 = form[:3] == 'p2w' and is_bech32(net, 'SEGWIT_ENCODER') \
                    and segwit(net)
                for u in (False, True) if b32 else (False,):
                    add('round-%s-%s-%s%s' % (net, form, c, '-up' * u),
                        'h_round', net=net, form=form, cashaddr=c, upper=u,
                        some=b32)
                    if b32 and (not q or net == 'bitcoin_main'):
                        if q and (u or form == 'p2wsh'):
                            continue
                        add('round-all-%s-%s%s' % (net, form, '-up' * u),
                            'h_round', net=net, form=form, cashaddr=True,
                            upper=u, cost=100)
        for n in (22, 23, 25, 34) if q else (0, 1, 21, 22, 23, 24, 25, 33,
                                             34, 35):
            for c in (True, False) if cash or not q else (True,):
                add('scripts-%s-%d-%s' % (net, n, c), 'h_scripts', net=net,
                    n=n, cashaddr=c)
        for n in ((20, 21, 22, 23, 34) if net in FEW else (21, 22)) if q \
                else range(0, 40):
            add('payload-base58-%s-%d' % (net, n), 'h_payload', net=net,
                enc='base58', n=n, cost=5, some=q and n > 1)
        if attr(net, 'BECH32_HRP'):
            for n in (21, 22, 34) if q else list(range(4, 43)):
                add('payload-bech32-%s-%d' % (net, n), 'h_payload', net=net,
                    enc='bech32', n=n, cost=5, some=True)
        if cash:
            for n in range(0, 40):
                add('payload-cash-%s-%d' % (net, n), 'h_payload', net=net,
                    enc='cashaddr', n=n)
    for n in range(0, 45):
        add('scripts-%d' % n, 'h_scripts', net='bitcoin_main', n=n,
            cashaddr=True)
    for n in range(0, 3 if q else 4):
        for net in FEW:
            add('text-%s-%d' % (net, n), 'h_text', net=net, n=n, head='',
                cost=9)
    return out



# ------------------------------------------------------- addresses from keys

def hash160(rt, net, data):
    if net.startswith('decred'):
        d = rt.mod('riemann.blake256').blake_hash(data)
    else:
        d = hashlib.sha256(data).digest()
    h = hashlib.new('ripemd160')
    h.update(d)
    return h.digest()


def push(d):
    n = len(d)
    if n <= 75:
        return bytes([n]) + d
    return (b'\x4c' if n < 256 else b'\x4d') \
        + n.to_bytes(1 if n < 256 else 2, 'little') + d


def a_script(rt, kind, n):
    '''(text, bytes) of a script'''
    if kind == 'op':
        return 'OP_IF', b'\x63'
    if kind == 'empty':
        return '', b''
    d = rt.bytes('data', n)
    if kind == 'key':
        return d.hex() + ' OP_CHECKSIG', push(d) + b'\xac'
    if kind == 'hash':
        return ('OP_DUP OP_HASH160 ' + d.hex() + ' OP_EQUALVERIFY OP_CHECKSIG',
                b'\x76\xa9' + push(d) + b'\x88\xac')
    if kind == 'pushes':        # more than 520 bytes in all
        more = [d] + [rt.bytes('data%d' % i, n) for i in range(1, 7)]
        return (' '.join([x.hex() + ' OP_DROP' for x in more]),
                b''.join([push(x) + b'\x75' for x in more]))
    e = rt.bytes('data2', n)
    return ('OP_2 ' + d.hex() + ' ' + e.hex() + ' OP_2 OP_CHECKMULTISIG',
            b'\x52' + push(d) + push(e) + b'\x52\xae')


def check_made(rt, net, label, a, got, form, h, cashaddr, script, strict):
    k, s = got
    if form in ('p2wpkh', 'p2wsh') and not segwit(net):
        rt.check(label + ' refused', k == 'exc' and isinstance(s, ValueError))
        return
    rt.check(label + ' made', k == 'ok')
    enc, p = payload_of(net, form, h, cashaddr)
    rt.check(label + ' address', s == encoder(rt, net, enc).encode(p))
    if strict and not is_bech32(net, enc):
        rt.check(label + ' payload', rt.do('parse', a.parse, s) == p)
        rt.check(label + ' hash', rt.do('parse hash', a.parse_hash, s) == h)
        rt.check(label + ' script',
                 rt.do('to script', a.to_output_script, s) == script)
        rt.check(label + ' scripts address', rt.do(
            'from script', a.from_output_script, script, cashaddr) == s)


def h_made_sh(rt, net, kind, n, how):
    a = start(rt, net)
    tb = rt.mod('riemann.tx.tx_builder')
    text, raw = a_script(rt, kind, n)
    f = {'p2wsh': a.make_p2wsh_address, 'p2sh': a.make_p2sh_address,
         'legacy': a.make_legacy_p2sh_address}[how]
    w = how == 'p2wsh'
    h = hashlib.sha256(raw).digest() if w else hash160(rt, net, raw)
    rt.assume(h[0] != 0)        # A01 has the addresses of all hashes
    form = 'p2wsh' if w else 'p2sh'
    args = {'p2wsh': (True,), 'p2sh': (False,), 'legacy': (False, False)}[how]
    cash = how != 'legacy'
    k, script = rt.attempt(tb.make_sh_output_script, text, w)
    if w and not segwit(net):
        rt.check('script refused', k == 'exc'
                 and isinstance(script, ValueError))
    else:
        rt.check('output script', script == FORMS[form][0] + h
                 + FORMS[form][2])
    check_made(rt, net, 'named', a, rt.attempt(f, text), form, h, cash,
               script, True)
    check_made(rt, net, 'general', a, rt.attempt(
        a.make_sh_address, text, *args), form, h, cash, script, False)
    if how == 'p2wsh':
        check_made(rt, net, 'legacy witness', a, rt.attempt(
            a.make_sh_address, text, True, False), form, h, False, script,
            False)
    if how == 'p2sh':
        check_made(rt, net, 'default', a, rt.attempt(
            a.make_sh_address, text), form, h, True, script, False)


def h_made_pkh(rt, net, n, how):
    a = start(rt, net)
    tb = rt.mod('riemann.tx.tx_builder')
    key = rt.bytes('key', n)
    f = {'p2wpkh': a.make_p2wpkh_address, 'p2pkh': a.make_p2pkh_address,
         'legacy': a.make_legacy_p2pkh_address}[how]
    w = how == 'p2wpkh'
    h = hash160(rt, net, key)
    rt.assume(h[0] != 0)
    form = 'p2wpkh' if w else 'p2pkh'
    args = {'p2wpkh': (True,), 'p2pkh': (False,),
            'legacy': (False, False)}[how]
    cash = how != 'legacy'
    k, script = rt.attempt(tb.make_pkh_output_script, key, w)
    if w and not segwit(net):
        rt.check('script refused', k == 'exc'
                 and isinstance(script, ValueError))
    else:
        rt.check('output script', script == FORMS[form][0] + h
                 + FORMS[form][2])
    check_made(rt, net, 'named', a, rt.attempt(f, key), form, h, cash,
               script, True)
    check_made(rt, net, 'general', a, rt.attempt(
        a.make_pkh_address, key, *args), form, h, cash, script, False)
    if how == 'p2wpkh':
        check_made(rt, net, 'legacy witness', a, rt.attempt(
            a.make_pkh_address, key, True, False), form, h, False, script,
            False)
    if how == 'p2pkh':
        check_made(rt, net, 'default', a, rt.attempt(
            a.make_pkh_address, key), form, h, True, script, False)


def a02(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, cost=1, **k):
        out.append(dict(name=name, fn=fn, params=k, cost=cost))
    for net in nettable.NET:
        for how in ('p2wsh', 'p2sh', 'legacy'):
            scripts = [('op', 0), ('key', 33)]
            if not q or net in FEW:
                scripts += [('empty', 0), ('key', 1), ('key', 75),
                            ('key', 76), ('hash', 20), ('multi', 33),
                            ('multi', 300), ('pushes', 75)]
            if not q:
                scripts += [('key', 32), ('key', 65), ('key', 255),
                            ('key', 256), ('key', 520), ('multi', 65),
                            ('multi', 520)]
            for kind, n in scripts:
                add('%s-%s-%s-%d' % (net, how, kind, n), 'h_made_sh',
                    net=net, kind=kind, n=n, how=how)
        for how in ('p2wpkh', 'p2pkh', 'legacy'):
            for n in [33, 65] + ([0, 1, 32, 34, 64] if not q or net in FEW
                                 else []):
                add('%s-%s-%d' % (net, how, n), 'h_made_pkh', net=net, n=n,
                    how=how)
    return out


CASES = {'A01': a01, 'A02': a02}
BOUNDS = {
    'A01': 'every hash in every form on every network, both cash settings '
           '(bech32 addresses: those whose first data character is a zero, '
           'in both cases; all P2WPKH ones on bitcoin_main, thorough: all); '
           'every script of 22, 23, 25, 34 bytes (thorough 0, 1, 21-25, '
           '33-35; bitcoin_main 0-44); every base58check payload of 21, 22 '
           'bytes (thorough 0-39; quick: at most one leading zero), every '
           'cash payload of 0-39, every bech32 program of 19, 20, 32 bytes '
           '(thorough 2-40) and any version; every ASCII string of 0-2 '
           '(thorough 3) characters is refused. A bech32 address that '
           'happens to be base58 with a valid checksum is left out',
    'A02': 'scripts of opcodes and every data of 33 bytes, on six networks '
           'also of 0, 1, 20, 75, 76 bytes, two keys, and scripts of 539 and '
           '608 bytes (thorough: all networks, data of up to 520 and '
           'scripts of up to 1049 bytes); every key of 33 and 65 (0, 1, 32, '
           '34, 64) bytes; every network, form and flag combination; '
           'hashes that start with a zero byte are left to A01',
}
