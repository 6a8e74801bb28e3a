'''
Hash-consed terms: linear combinations over non-negative integer atoms, and
boolean terms over them.  Every Python int the executed code computes from
symbolic input is one of these (exact mathematical integers, no wrap-around).

Atoms (all have 0 <= value <= hi):
  var    (name)                      free input
  dig    (hash, k)                   k-th byte of a digest
  slice  (base, i, n)                bits i..i+n-1 of atom `base`
  xbit   (mask)                      XOR of the bits in `mask`
  and    (mask, mask)                conjunction of two bits
  opq    (lin)                       names a non-negative sum, to take bits of
  div    (lin, c)                    floor(lin / c), lin >= 0
  tab    (lo, table, lin)            table[lin - lo]
  mul    (lin, lin)                  product
  ite    (bool, lin, lin)            choice (both >= 0)
  cond   (bool)                      1 if true else 0
  bl     (lin)                       bit_length
  first  (bools)                     1 + index of first true, or 0

Lins are Python ints (constants) or Lin objects.
'''

ATOMS = {}
ATOM_LIST = []
LINS = {}
BOOLS = {}
BITS = [None]            # index -> (atom, k); 0 is the constant one
BITIDX = {}
FACTS = {}               # static range facts: normalised lin -> (lo, hi)


class Atom:
    __slots__ = ('kind', 'args', 'hi', 'id', 'width', '_vars', 'bitidx', 'z')

    def __repr__(self):
        return show_atom(self)


class Lin:
    __slots__ = ('c', 'ts', 'lo', 'hi', 'id', '_bits', '_vars', 'key', 'kc',
                 'ks', 'hints')

    def __repr__(self):
        return show(self)


class B:
    __slots__ = ('kind', 'args', 'id', '_vars', 'neg', 'z')

    def __repr__(self):
        return showb(self)


def atom(kind, args, hi):
    k = (kind, args)
    a = ATOMS.get(k)
    if a is None:
        a = Atom()
        a.kind, a.args, a.hi = kind, args, hi
        a.id = len(ATOM_LIST)
        a.width = hi.bit_length()
        a._vars = None
        a.bitidx = None
        a.z = None
        ATOMS[k] = a
        ATOM_LIST.append(a)
    return a


class PathState:
    '''Facts that hold on the current path (used to sharpen ranges).'''

    def __init__(self):
        self.range = {}      # atom -> (lo, hi)
        self.facts = {}      # lin key -> (lo, hi)
        self.gf2 = {}        # pivot bit -> row mask
        self.known = {}      # B -> bool
        self.dom = {}        # atom -> set of the values it can have
        self.divs = {}       # key of a lin -> its quotients


CUR = PathState()


def set_path(p):
    global CUR
    CUR = p


def arange(a):
    r = CUR.range.get(a)
    return r if r is not None else (0, a.hi)


# ------------------------------------------------------------------- lins

def _raw(c, ts):
    '''ts: tuple of (atom, coef) sorted by atom id, coef != 0'''
    if not ts:
        return c
    k = (c, ts)
    x = LINS.get(k)
    if x is None:
        x = Lin()
        x.c, x.ts = c, ts
        lo = hi = c
        for a, q in ts:
            if q > 0:
                hi += q * a.hi
            else:
                lo += q * a.hi
        x.lo, x.hi = lo, hi
        x.id = len(LINS)
        x._bits = 0
        x._vars = None
        # key for range facts: constant dropped, leading coef positive
        x.kc = c
        if ts[0][1] > 0:
            x.ks = 1
            x.key = ts
        else:
            x.ks = -1
            x.key = tuple((a, -q) for a, q in ts)
        LINS[k] = x
    return x


def lin_of_atom(a, coef=1, c=0):
    if a.kind == 'opq' :
        return add(scale(a.args[0], coef), c)
    return _raw(c, ((a, coef),))


def rng(x):
    '''[lo, hi] of a lin on the current path'''
    if type(x) is int:
        return x, x
    lo = hi = x.c
    R = CUR.range
    for a, q in x.ts:
        r = R.get(a)
        if r is None:
            if q > 0:
                hi += q * a.hi
            else:
                lo += q * a.hi
        elif q > 0:
            lo += q * r[0]
            hi += q * r[1]
        else:
            lo += q * r[1]
            hi += q * r[0]
    # (not FACTS: what other paths came across must not matter here)
    f = CUR.facts.get(x.key)
    if f is not None:
        if x.ks > 0:
            flo, fhi = f[0] + x.kc, f[1] + x.kc
        else:
            flo, fhi = x.kc - f[1], x.kc - f[0]
        if flo > lo:
            lo = flo
        if fhi < hi:
            hi = fhi
    return lo, hi


def note_range(table, x, lo, hi):
    '''record lo <= x <= hi for lin x in a fact table'''
    if x.ks > 0:
        lo, hi = lo - x.kc, hi - x.kc
    else:
        lo, hi = x.kc - hi, x.kc - lo
    old = table.get(x.key)
    if old is not None:
        lo, hi = max(lo, old[0]), min(hi, old[1])
    table[x.key] = (lo, hi)


INF = 1 << 4096


def norm(c, d):
    '''dict atom->coef to lin, merging adjacent slices and fixed atoms'''
    R = CUR.range
    by = None
    for a in list(d):
        q = d[a]
        if q == 0:
            del d[a]
            continue
        r = R.get(a)
        if r is not None and r[0] == r[1]:
            c += q * r[0]
            del d[a]
            continue
        if a.kind == 'slice':
            if by is None:
                by = {}
            by.setdefault(a.args[0], []).append(a)
        elif by is not None and a in by:
            pass
    if by:
        for base, sl in by.items():
            if len(sl) < 2:
                continue
            sl.sort(key=lambda a: a.args[1])
            i = 0
            while i + 1 < len(sl):
                a, b = sl[i], sl[i + 1]
                _, i0, n0 = a.args
                _, i1, n1 = b.args
                if i0 + n0 == i1 and a in d and b in d \
                        and d[b] == d[a] << n0:
                    q = d.pop(a)
                    d.pop(b)
                    m = mkslice(base, i0, n0 + n1)
                    if m.kind == 'opq':
                        # names a lin: splice it in
                        y = scale(m.args[0], q)
                        if type(y) is int:
                            c += y
                        else:
                            c += y.c
                            for aa, qq in y.ts:
                                d[aa] = d.get(aa, 0) + qq
                        for aa in list(d):
                            if d[aa] == 0:
                                del d[aa]
                        sl[i:i + 2] = []
                        continue
                    d[m] = d.get(m, 0) + q
                    if d[m] == 0:
                        del d[m]
                    if m.kind == 'slice' and m in d:
                        sl[i:i + 2] = [m]
                    else:
                        sl[i:i + 2] = []
                else:
                    i += 1
    if not d:
        return c
    return _raw(c, tuple(sorted(d.items(), key=lambda t: t[0].id)))


def add(x, y):
    if type(x) is int:
        if type(y) is int:
            return x + y
        if x == 0:
            return y
        return _raw(y.c + x, y.ts)
    if type(y) is int:
        if y == 0:
            return x
        return _raw(x.c + y, x.ts)
    d = dict(x.ts)
    for a, q in y.ts:
        d[a] = d.get(a, 0) + q
    return norm(x.c + y.c, d)


def addn(xs):
    '''sum of many lins'''
    c = 0
    d = {}
    for x in xs:
        if type(x) is int:
            c += x
        else:
            c += x.c
            for a, q in x.ts:
                d[a] = d.get(a, 0) + q
    return norm(c, d)


def scale(x, k):
    if type(x) is int:
        return x * k
    if k == 0:
        return 0
    if k == 1:
        return x
    return _raw(x.c * k, tuple((a, q * k) for a, q in x.ts))


def sub(x, y):
    return add(x, scale(y, -1))


def refresh(x):
    '''re-normalise under the path's fixed atoms'''
    if type(x) is int:
        return x
    R = CUR.range
    if R:
        for a, _ in x.ts:
            r = R.get(a)
            if r is not None and r[0] == r[1]:
                x = norm(x.c, dict(x.ts))
                break
        if type(x) is Lin:
            x0 = x
            for a, q in x.ts:
                # quotients and table look-ups of something that shrank
                if a.kind in ('div', 'tab', 'slice'):
                    y = deep(a)
                    if y is not a:
                        x = add(sub(x, lin_of_atom(a, q)), scale(y, q))
                        if type(x) is int:
                            return x
            if x is not x0:
                lo, hi = rng(x0)
                note_range(CUR.facts, x, lo, hi)
    if type(x) is Lin:
        lo, hi = rng(x)
        if lo == hi:
            return lo
    return x


def deep(a):
    if a.kind == 'div':
        P, c = a.args
        n = refresh(P)
        return a if n is P else floordiv(n, c)
    if a.kind == 'slice':
        base, i, n = a.args
        if i == 0 and base.kind == 'opq':
            lo, hi = rng(base.args[0])
            if lo >= 0 and hi < 1 << n:
                return refresh(base.args[0])
        return a
    lo, table, idx = a.args
    n = refresh(idx)
    return a if n is idx else tab(lo, table, n)


def mul(x, y):
    if type(x) is int:
        return scale(y, x)
    if type(y) is int:
        return scale(x, y)
    x, y = refresh(x), refresh(y)
    if type(x) is int or type(y) is int:
        return mul(x, y)
    # shift to non-negative
    lx, ly = min(0, rng(x)[0]), min(0, rng(y)[0])
    if lx or ly:
        xs, ys = sub(x, lx), sub(y, ly)
        return addn([mul(xs, ys), scale(x, ly), scale(y, lx), -lx * ly])
    # distribute over single bits: bit * lin as ite
    if y.id < x.id:
        x, y = y, x
    a = atom('mul', (x, y), x.hi * y.hi)
    return lin_of_atom(a)


# -------------------------------------------------------------------- bits

def bit_index(a, k):
    bi = a.bitidx
    if bi is None:
        bi = a.bitidx = {}
    i = bi.get(k)
    if i is None:
        i = len(BITS)
        BITS.append((a, k))
        bi[k] = i
    return i


def atom_bits(a):
    k = a.kind
    if k == 'slice':
        base, i, n = a.args
        return [1 << bit_index(base, j) for j in range(i, i + n)]
    if k == 'xbit':
        return [a.args[0]]
    if k == 'cond' and a.args[0].kind == 'xb':
        return [a.args[0].args]
    if k == 'tab':
        aff = tab_affine(a)
        if aff is not None:
            return aff
    return [1 << bit_index(a, j) for j in range(a.width)]


_AFF = {}


def tab_affine(a):
    if a in _AFF:
        return _AFF[a]
    lo, table, idx = a.args
    res = None
    n = len(table)
    if lo == 0 and n & (n - 1) == 0 and 2 <= n <= 256 and None not in table:
        ib = bits(idx)
        w = n.bit_length() - 1
        if ib is not None and len(ib) <= w:
            t0 = table[0]
            ok = True
            for x in range(n):
                acc = t0
                for k in range(w):
                    if x >> k & 1:
                        acc ^= table[1 << k] ^ t0
                if acc != table[x]:
                    ok = False
                    break
            if ok:
                ib = ib + [0] * (w - len(ib))
                res = []
                for j in range(a.width):
                    m = t0 >> j & 1
                    for k in range(w):
                        if (table[1 << k] ^ t0) >> j & 1:
                            m ^= ib[k]
                    res.append(m)
    _AFF[a] = res
    return res


def bits(x):
    '''LSB-first list of bit masks of a non-negative lin, or None'''
    if type(x) is int:
        if x < 0:
            return None
        return [x >> i & 1 for i in range(x.bit_length())]
    if x._bits != 0:
        return x._bits
    x._bits = r = _bits(x)
    return r


def _bits(x):
    if x.hi >= 1 << 65536:
        return None
    out = {}
    c = x.c
    for a, q in x.ts:
        neg = q < 0
        if neg:
            q = -q
        w = a.width
        # copies of the atom, which must not overlap
        if q & (q - 1) and w > 1 and q & (q << 1):
            return None
        ab = atom_bits(a)
        if neg:
            # -q*a = q*(~a) - q*(2^w - 1)
            ab = [m ^ 1 for m in ab] + [1] * (w - len(ab))
            c -= q * ((1 << w) - 1)
        while q:
            low = q & -q
            p = low.bit_length() - 1
            for j, m in enumerate(ab):
                if m:
                    if p + j in out:
                        return None
                    out[p + j] = m
            q ^= low
    if c < 0:
        return None
    j = 0
    while c:
        if c & 1:
            if j in out:
                return None
            out[j] = 1
        c >>= 1
        j += 1
    if not out:
        return []
    n = max(out) + 1
    return [out.get(i, 0) for i in range(n)]


def need_bits(x):
    '''bits of a non-negative lin, naming it if necessary'''
    b = bits(x)
    if b is None:
        x = refresh(x)
        b = bits(x)
        if b is None:
            lo, hi = rng(x)
            if lo < 0:
                y = nonneg_tab(x)
                if y is not None:
                    return need_bits(y)
                raise NegativeBits(x)
            a = opq(x, hi)
            b = [1 << bit_index(a, j) for j in range(a.width)]
    return b


def nonneg_tab(x):
    '''c + tab(i), never negative on the known domain of i'''
    if len(x.ts) != 1:
        return None
    a, q = x.ts[0]
    if a.kind != 'tab' or q != 1:
        return None
    lo, table, idx = a.args
    if len(idx.ts) != 1 or idx.c or idx.ts[0][1] != 1:
        return None
    dom = CUR.dom.get(idx.ts[0][0])
    if dom is None:
        return None
    t = tuple(None if v is None or lo + j not in dom else v + x.c
              for j, v in enumerate(table))
    live = [v for v in t if v is not None]
    if not live or min(live) < 0:
        return None
    return tab(lo, t, idx)


class NegativeBits(BaseException):
    pass


def opq(x, hi=None):
    h = x.hi
    if hi is not None and hi < h:
        h = hi
    # the name must be path independent: use the static range unless negative
    if x.lo >= 0:
        a = atom('opq', (x,), x.hi)
    else:
        f = FACTS.get(x.key)
        if f is not None and x.ks > 0 and f[0] + x.kc >= 0:
            a = atom('opq', (x,), min(x.hi, f[1] + x.kc))
        else:
            # non-negative only on this path: width from the path's range
            a = atom('opq', (x, h), h)
    return a


def mkslice(base, i, n):
    '''atom for bits i..i+n-1 of base'''
    if base.kind == 'slice':
        b2, j, m = base.args
        return mkslice(b2, i + j, n)
    if i == 0 and n >= base.width:
        return base
    if i + n > base.width:
        n = base.width - i
    h = (1 << n) - 1
    if i + n == base.width:
        h = base.hi >> i
    return atom('slice', (base, i, n), h)


def from_bits(bs):
    d = {}
    c = 0
    n = len(bs)
    i = 0
    while i < n:
        m = bs[i]
        if m == 0:
            i += 1
            continue
        if m == 1:
            c += 1 << i
            i += 1
            continue
        if m & (m - 1) == 0:
            a, k = BITS[m.bit_length() - 1]
            j = i + 1
            kk = k + 1
            bi = a.bitidx
            while j < n:
                t = bi.get(kk)
                if t is None or bs[j] != 1 << t:
                    break
                j += 1
                kk += 1
            s = mkslice(a, k, j - i)
            if s.kind == 'opq':
                y = scale(s.args[0], 1 << i)
                if type(y) is int:
                    c += y
                else:
                    c += y.c
                    for aa, qq in y.ts:
                        d[aa] = d.get(aa, 0) + qq
            else:
                d[s] = d.get(s, 0) + (1 << i)
            i = j
            continue
        a = atom('xbit', (m,), 1)
        d[a] = d.get(a, 0) + (1 << i)
        i += 1
    return norm(c, d)


def bit_and(m1, m2):
    if m1 == 0 or m2 == 0:
        return 0
    if m1 == 1:
        return m2
    if m2 == 1:
        return m1
    if m1 == m2:
        return m1
    if m1 == m2 ^ 1:
        return 0
    if m2 < m1:
        m1, m2 = m2, m1
    a = atom('and', (m1, m2), 1)
    return 1 << bit_index(a, 0)


def _signed_pair(x, y):
    '''for bitwise ops on possibly negative values: not supported'''
    return None


def band(x, y):
    if type(x) is int and type(y) is int:
        return x & y
    if type(x) is int:
        x, y = y, x
    if type(y) is int and y >= 0 and y & (y + 1) == 0:
        return mod(x, y + 1)
    if type(y) is int and y < 0:
        # x & y = x - (x & ~y)
        return sub(x, band(x, ~y))
    bx, by = need_bits(x), need_bits(y)
    return from_bits([bit_and(a, b) for a, b in zip(bx, by)])


def bxor(x, y):
    if type(x) is int and type(y) is int:
        return x ^ y
    bx, by = need_bits(x), need_bits(y)
    n = max(len(bx), len(by))
    bx = bx + [0] * (n - len(bx))
    by = by + [0] * (n - len(by))
    return from_bits([a ^ b for a, b in zip(bx, by)])


def bor(x, y):
    if type(x) is int and type(y) is int:
        return x | y
    bx, by = need_bits(x), need_bits(y)
    n = max(len(bx), len(by))
    bx = bx + [0] * (n - len(bx))
    by = by + [0] * (n - len(by))
    return from_bits([a ^ b ^ bit_and(a, b) for a, b in zip(bx, by)])


def shl(x, k):
    return scale(x, 1 << k)


def shr(x, k):
    return floordiv(x, 1 << k)


def floordiv(x, c):
    if type(x) is int:
        return x // c
    if c < 0:
        return floordiv(scale(x, -1), -c)
    if c == 1:
        return x
    x = refresh(x)
    if type(x) is int:
        return x // c
    # x = c*Q + R
    qd, rd = {}, {}
    for a, q in x.ts:
        if q % c == 0:
            qd[a] = q // c
        else:
            rd[a] = q
    qc, rc = divmod(x.c, c)
    Q = norm(qc, qd)
    R = norm(rc, rd)
    if type(R) is int:
        return add(Q, R // c)
    lo, hi = rng(R)
    if lo // c == hi // c:
        return add(Q, lo // c)
    if R.lo < 0:
        # the shift must be static; static facts may already give lo >= 0
        slo = R.lo
        f = FACTS.get(R.key)
        if f is not None and R.ks > 0:
            slo = max(slo, f[0] + R.kc)
        if slo < 0:
            m = (-slo + c - 1) // c
            R = add(R, m * c)
            Q = sub(Q, m)
    return add(Q, _div(R, c))


def _div(R, c):
    '''floor(R / c), R >= 0'''
    if len(R.ts) == 1:
        a, q = R.ts[0]
        if q == 1 and a.kind == 'div':
            P, d = a.args
            return floordiv(add(P, R.c * d), c * d)
    if c & (c - 1) == 0:
        k = c.bit_length() - 1
        b = bits(R)
        if b is None:
            a = opq(R)
            b = [1 << bit_index(a, j) for j in range(a.width)]
        return from_bits(b[k:])
    a = atom('div', (R, c), R.hi // c)
    CUR.divs.setdefault(R.key, {})[a] = True
    narrow_div(a)
    r = arange(a)
    if r[0] == r[1]:
        return r[0]
    return lin_of_atom(a)


def narrow_div(a):
    R, c = a.args
    lo, hi = rng(R)
    r0, r1 = arange(a)
    n0, n1 = max(r0, lo // c), min(r1, hi // c)
    if n0 <= n1 and (n0, n1) != (r0, r1):
        CUR.range[a] = (n0, n1)


def static_rest(r, c):
    '''0 <= r < c for all values of its atoms, on every path'''
    for i, (a, q) in enumerate(r.ts):
        if a.kind == 'div' and q == -c:
            R, cc = a.args
            rest = r.ts[:i] + r.ts[i + 1:]
            if cc == c:
                return rest == R.ts and r.c == R.c
            if len(rest) == 1 and rest[0][1] == 1 \
                    and rest[0][0].kind == 'div':
                P, d = rest[0][0].args
                return d * c == cc and P.ts == R.ts \
                    and P.c + r.c * d == R.c
    return False


UNWRAP = False      # whether mod does so (costs time; see solver.query)
WRAPPED = []        # not empty: there was something to unwrap


def note_wrapped(x):
    for a, q in x.ts:
        if a.kind == 'slice' and a.args[1] == 0 and a.args[0].kind == 'opq':
            WRAPPED.append(a)
            return


def unwrap(x, c):
    '''something equal to x modulo c (a power of two), without the low parts
    of sums: masking after each addition gives the same as masking once'''
    while True:
        d = {}
        n = x.c
        again = False
        for a, q in x.ts:
            if q % c == 0:
                continue
            if a.kind == 'slice':
                base, i, w = a.args
                if i == 0 and base.kind == 'opq' and (q << w) % c == 0:
                    y = base.args[0]
                    n += q * y.c
                    for b, p in y.ts:
                        d[b] = d.get(b, 0) + q * p
                    again = True
                    continue
            d[a] = d.get(a, 0) + q
        x = norm(n % c, regroup(d, c))
        if not again or type(x) is int:
            return x


def regroup(d, c):
    '''overlapping slices of one atom in a normal form, coefficients modulo c'''
    by = {}
    for a in d:
        if a.kind == 'slice':
            by.setdefault(a.args[0], []).append(a)
    out = {a: q % c for a, q in d.items()}
    for base, sl in by.items():
        if base in d:
            sl.append(base)
        if len(sl) < 2:
            continue
        bit = {}
        for a in sl:
            i, n = a.args[1:] if a is not base else (0, base.width)
            q = out.pop(a)
            for j in range(n):
                bit[i + j] = (bit.get(i + j, 0) + (q << j)) % c
        js = sorted(j for j in bit if bit[j])
        while js:
            i = js[0]
            n = 1
            while n < len(js) and js[n] == i + n and \
                    bit[i + n] == (bit[i] << n) % c:
                n += 1
            if n == base.width and base.kind == 'opq':
                n -= 1      # a whole one would have to be spliced in
            js = js[n:]
            a = mkslice(base, i, n)
            out[a] = bit[i]
    return out


def mod(x, c):
    if type(x) is int:
        return x % c
    if c < 0:
        return scale(mod(scale(x, -1), -c), -1)
    x = refresh(x)
    if type(x) is int:
        return x % c
    if c & (c - 1) == 0:
        k = c.bit_length() - 1
        if UNWRAP:
            R = unwrap(x, c)
        else:
            R = norm(x.c % c, {a: q for a, q in x.ts if q % c})
            if not WRAPPED and type(R) is Lin:
                note_wrapped(R)
        if type(R) is int:
            return R % c
        lo, hi = rng(R)
        if lo >= 0 and hi < c:
            return R
        if R.lo < 0:
            R = add(R, ((-R.lo + c - 1) // c) * c)
        b = bits(R)
        if b is None:
            a = opq(R)
            b = [1 << bit_index(a, j) for j in range(a.width)]
        return from_bits(b[:k])
    r = sub(x, scale(floordiv(x, c), c))
    if type(r) is Lin:
        note_range(CUR.facts, r, 0, c - 1)
        if static_rest(r, c):
            note_range(FACTS, r, 0, c - 1)
    return r


def tab(lo, table, idx):
    '''
    table[idx - lo]; entries may be None where undefined (the caller must have
    established that idx is in the defined domain on this path)
    '''
    if type(idx) is int:
        return table[idx - lo]
    idx = refresh(idx)
    if type(idx) is int:
        return table[idx - lo]
    # strip constant and sign, so that idx is a bare atom where possible
    if len(idx.ts) == 1:
        a, q = idx.ts[0]
        if (q != 1 or idx.c != 0):
            vals = []
            for v in range(a.hi + 1):
                j = q * v + idx.c - lo
                vals.append(table[j] if 0 <= j < len(table) else None)
            return tab(0, tuple(vals), lin_of_atom(a))
        if a.kind == 'tab':
            lo2, t2, i2 = a.args
            vals = tuple(
                None if v is None else
                (table[v - lo] if 0 <= v - lo < len(table) else None)
                for v in t2)
            return tab(lo2, vals, i2)
    l2, h2 = rng(idx)
    # identity / constant / shift recognition on the current domain
    vals = [(lo + j, v) for j, v in enumerate(table)
            if v is not None and l2 <= lo + j <= h2]
    if not vals:
        raise EmptyTable()
    s = {v - i for i, v in vals}
    if len(s) == 1:
        return add(idx, s.pop())
    s = {v for i, v in vals}
    if len(s) == 1:
        return s.pop()
    mn = min(s)
    if mn < 0:
        t = tuple(None if v is None else v - mn for v in table)
        return add(tab(lo, t, idx), mn)
    h = len(table) >> 1
    if lo == 0 and h > 1 and h & (h - 1) == 0 and len(table) == 2 * h \
            and idx.lo >= 0 and idx.hi < 2 * h and table[:h] == table[h:] \
            and bits(idx) is not None:
        return tab(0, table[:h], mod(idx, h))
    # static shape: trim to the static range of idx
    sl, sh = max(lo, idx.lo), min(lo + len(table) - 1, idx.hi)
    t = tuple(table[sl - lo:sh - lo + 1])
    while t and t[-1] is None:
        t = t[:-1]
    a = atom('tab', (sl, t, idx), max(v for v in t if v is not None))
    return lin_of_atom(a)


class EmptyTable(BaseException):
    pass


# ------------------------------------------------------------------- bools

def _b(kind, args):
    k = (kind, args)
    b = BOOLS.get(k)
    if b is None:
        b = B()
        b.kind, b.args = kind, args
        b.id = len(BOOLS)
        b._vars = None
        b.neg = None
        b.z = None
        BOOLS[k] = b
    return b


TRUE = _b('c', True)
FALSE = _b('c', False)
TRUE.neg, FALSE.neg = FALSE, TRUE


def mkbool(v):
    return TRUE if v else FALSE


def bnot(b):
    n = b.neg
    if n is None:
        if b.kind == 'xb':
            n = bxb(b.args ^ 1)
        elif b.kind == 'ge':
            # not (x >= 0)  ==  -x - 1 >= 0
            n = ge0(add(scale(b.args, -1), -1), raw=True)
        elif b.kind == 'and':
            n = _b('or', tuple(sorted((bnot(x) for x in b.args), key=lambda t: t.id)))
        elif b.kind == 'or':
            n = _b('and', tuple(sorted((bnot(x) for x in b.args), key=lambda t: t.id)))
        else:
            n = _b('not', b)
        b.neg = n
        if n.neg is None:
            n.neg = b
    return n


def bxb(mask):
    if mask == 0:
        return FALSE
    if mask == 1:
        return TRUE
    return _b('xb', mask)


def band_(bs):
    out = {}
    for b in bs:
        if b is TRUE:
            continue
        if b is FALSE:
            return FALSE
        if b.kind == 'and':
            for x in b.args:
                out[x] = 1
        else:
            out[b] = 1
    for b in out:
        if b.neg is not None and b.neg in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return _b('and', tuple(sorted(out, key=lambda t: t.id)))


def bor_(bs):
    out = {}
    for b in bs:
        if b is FALSE:
            continue
        if b is TRUE:
            return TRUE
        if b.kind == 'or':
            for x in b.args:
                out[x] = 1
        else:
            out[b] = 1
    for b in out:
        if b.neg is not None and b.neg in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return _b('or', tuple(sorted(out, key=lambda t: t.id)))


def member(idx, vals):
    '''idx in vals (a set of ints)'''
    if type(idx) is int:
        return mkbool(idx in vals)
    idx = refresh(idx)
    if type(idx) is int:
        return mkbool(idx in vals)
    lo, hi = rng(idx)
    vals = {v for v in vals if lo <= v <= hi}
    if not vals:
        return FALSE
    if len(vals) == hi - lo + 1:
        return TRUE
    if len(idx.ts) == 1:
        a, q = idx.ts[0]
        if q != 1 or idx.c != 0:
            v2 = set()
            for v in vals:
                n, r = divmod(v - idx.c, q)
                if r == 0:
                    v2.add(n)
            return member(lin_of_atom(a), v2)
        if a.kind == 'tab':
            lo2, t2, i2 = a.args
            l2, h2 = rng(i2)
            dom = set(range(max(l2, lo2), min(h2 + 1, lo2 + len(t2))))
            v2 = {lo2 + j for j, v in enumerate(t2)
                  if v is not None and v in vals}
            undefined = {lo2 + j for j, v in enumerate(t2) if v is None}
            live = dom - undefined
            if live and live <= v2:
                return TRUE
            return member(i2, v2)
    if len(vals) == 1:
        return eq0(sub(idx, next(iter(vals))))
    s = sorted(vals)
    if s[-1] - s[0] + 1 == len(s):
        return band_([ge0(add(idx, -s[0])), ge0(sub(s[-1], idx))])
    if len(s) > (hi - lo + 1) // 2 and hi - lo < 100000:
        comp = set(range(lo, hi + 1)) - vals
        if len(comp) == 1:
            return bnot(eq0(sub(idx, comp.pop())))
    return _b('mem', (idx, frozenset(vals)))


def _r(t):
    return t[0], t[1] + 1


_INJ = {}


def _one_to_one(t):
    r = _INJ.get(t)
    if r is None:
        live = [v for v in t if v is not None]
        r = _INJ[t] = len(set(live)) == len(live)
    return r


def _look_up(t1, t2):
    '''indices of the values of t1 in the one-to-one table t2, or None'''
    k = t1, t2
    if k in _INJ:
        return _INJ[k]
    r = None
    if None not in t1 and None not in t2 and _one_to_one(t2):
        at = {v: i for i, v in enumerate(t2)}
        if all(v in at for v in t1):
            r = tuple(at[v] for v in t1)
    _INJ[k] = r
    return r


def eq0(x):
    if type(x) is int:
        return mkbool(x == 0)
    x = refresh(x)
    if type(x) is int:
        return mkbool(x == 0)
    lo, hi = rng(x)
    if lo > 0 or hi < 0:
        return FALSE
    ts = x.ts
    if len(ts) == 1:
        a, q = ts[0]
        v, r = divmod(-x.c, q)
        if r:
            return FALSE
        alo, ahi = arange(a)
        if v < alo or v > ahi:
            return FALSE
        k = a.kind
        if a.hi == 1:
            m = atom_bits(a)
            if k in ('slice', 'xbit', 'var', 'and') or \
                    (k == 'cond' and a.args[0].kind == 'xb'):
                m = m[0]
                return bxb(m if v else m ^ 1)
            if k == 'cond':
                return a.args[0] if v else bnot(a.args[0])
        if k == 'tab':
            return member(lin_of_atom(a), {v})
        if k == 'div':
            P, c = a.args
            return band_([ge0(sub(P, v * c)), ge0(sub((v + 1) * c - 1, P))])
        if k == 'bl':
            P = a.args[0]
            if v == 0:
                return eq0(P)
            return band_([ge0(sub(P, 1 << (v - 1))),
                          ge0(sub((1 << v) - 1, P))])
        if k == 'first':
            cs = a.args
            if v == 0:
                return band_([bnot(b) for b in cs])
            return band_([bnot(b) for b in cs[:v - 1]] + [cs[v - 1]])
        if k == 'ite':
            g, p, n = a.args
            e1, e2 = eq0(sub(p, v)), eq0(sub(n, v))
            return bor_([band_([g, e1]), band_([bnot(g), e2])])
        return _b('eq', _raw(-v, ((a, 1),)))
    if len(ts) == 2 and x.c == 0 and ts[0][1] == -ts[1][1] \
            and ts[0][0].kind == 'tab' and ts[1][0].kind == 'tab':
        # the same one-to-one table on both sides
        l1, t1, i1 = ts[0][0].args
        l2, t2, i2 = ts[1][0].args
        if l1 == l2 and t1 == t2 and _one_to_one(t1):
            return eq0(sub(i1, i2))
        for l1, t1, i1, l2, t2, i2 in ((l1, t1, i1, l2, t2, i2),
                                       (l2, t2, i2, l1, t1, i1)):
            # look the values of one up in the other
            t = _look_up(t1, t2)
            if t is not None:
                return eq0(sub(tab(l1, t, i1), sub(i2, l2)))
    # gcd test
    g = 0
    for a, q in ts:
        g = _gcd(g, q)
        if g == 1:
            break
    if g > 1:
        if x.c % g:
            return FALSE
        x = _raw(x.c // g, tuple((a, q // g) for a, q in ts))
        ts = x.ts
    if ts[0][1] < 0:
        x = scale(x, -1)
        ts = x.ts
    xb = False
    for a, q in ts:
        if a.kind == 'xbit' or a.kind == 'and':
            xb = True
            break
    # compare digit-wise when both sides are bit strings
    pos, neg = {}, {}
    pc, nc = (x.c, 0) if x.c > 0 else (0, -x.c)
    for a, q in ts:
        if q > 0:
            pos[a] = q
        else:
            neg[a] = -q
    if len(ts) > 2 or xb:
        p = norm(pc, pos)
        n = norm(nc, neg)
        bp, bn = bits(p), bits(n)
        if bp is not None and bn is not None:
            ln = max(len(bp), len(bn))
            bp = bp + [0] * (ln - len(bp))
            bn = bn + [0] * (ln - len(bn))
            if xb:
                return band_([bxb(a ^ b ^ 1) for a, b in zip(bp, bn)])
            # split at byte boundaries
            parts = []
            for i in range(0, ln, 8):
                l, r = from_bits(bp[i:i + 8]), from_bits(bn[i:i + 8])
                e = sub(l, r)
                if type(e) is int:
                    if e:
                        return FALSE
                    continue
                if ln <= 8:
                    parts.append(_b('eq', e if e.ts[0][1] > 0
                                    else scale(e, -1)))
                else:
                    parts.append(eq0(e))
            return band_(parts)
    return _b('eq', x)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


def ge0(x, raw=False):
    '''x >= 0'''
    if type(x) is int:
        return mkbool(x >= 0)
    if not raw:
        x = refresh(x)
        if type(x) is int:
            return mkbool(x >= 0)
        lo, hi = rng(x)
        if lo >= 0:
            return TRUE
        if hi < 0:
            return FALSE
    ts = x.ts
    if len(ts) == 1:
        a, q = ts[0]
        k = a.kind
        if q > 0:
            t = -(x.c // q)          # a >= ceil(-c/q)
        else:
            t = x.c // -q            # a <= floor(c / -q)
        if a.hi == 1 and k in ('slice', 'xbit', 'var', 'and', 'cond'):
            if q > 0:
                if t <= 0:
                    return TRUE
                if t > 1:
                    return FALSE
                return eq0(sub(lin_of_atom(a), 1))
            if t >= 1:
                return TRUE
            if t < 0:
                return FALSE
            return eq0(lin_of_atom(a))
        if k == 'var' and a.width and a.hi == (1 << a.width) - 1:
            h = 1 << (a.width - 1)
            if q > 0 and t == h:
                return bxb(1 << bit_index(a, a.width - 1))
            if q < 0 and t == h - 1:
                return bxb(1 ^ (1 << bit_index(a, a.width - 1)))
        if k == 'tab':
            lo2, t2, i2 = a.args
            if q > 0:
                return member(lin_of_atom(a), {v for v in t2 if v is not None and v >= t})
            return member(lin_of_atom(a), {v for v in t2 if v is not None and v <= t})
        if k == 'div':
            P, c = a.args
            if q > 0:
                return ge0(sub(P, t * c), raw)
            return ge0(sub((t + 1) * c - 1, P), raw)
        if k == 'bl':
            P = a.args[0]
            if q > 0:
                if t <= 0:
                    return TRUE
                return ge0(sub(P, 1 << (t - 1)), raw)
            if t < 0:
                return FALSE
            return ge0(sub((1 << t) - 1, P), raw)
        if k == 'first':
            cs = a.args
            if q > 0:
                if t <= 0:
                    return TRUE
                return band_([bnot(b) for b in cs[:t - 1]] + [bor_(cs[t - 1:])])
            return bnot(ge0(sub(lin_of_atom(a), t + 1), raw))
        if k == 'ite':
            g, p, n = a.args
            e1 = ge0(add(scale(p, q), x.c))
            e2 = ge0(add(scale(n, q), x.c))
            return bor_([band_([g, e1]), band_([bnot(g), e2])])
        x = _raw(-t, ((a, 1),)) if q > 0 else _raw(t, ((a, -1),))
    b = _b('ge', x)
    return b


def cond_lin(b):
    '''1 if b else 0'''
    if b is TRUE:
        return 1
    if b is FALSE:
        return 0
    if b.kind == 'xb':
        return from_bits([b.args])
    if b.kind == 'not' or (b.neg is not None and b.neg.id < b.id
                           and b.kind in ('or', 'ge')):
        return sub(1, cond_lin(bnot(b)))
    return lin_of_atom(atom('cond', (b,), 1))


def cond_bit(b):
    if b is TRUE:
        return 1
    if b is FALSE:
        return 0
    if b.kind == 'xb':
        return b.args
    if b.kind == 'not':
        return cond_bit(b.args) ^ 1
    a = atom('cond', (b,), 1)
    return 1 << bit_index(a, 0)


def ite(g, x, y):
    '''x if g else y, for lins'''
    if g is TRUE:
        return x
    if g is FALSE:
        return y
    if x is y or (type(x) is int and type(y) is int and x == y):
        return x
    bx, by = bits(x), bits(y)
    if bx is not None and by is not None:
        n = max(len(bx), len(by))
        bx = bx + [0] * (n - len(bx))
        by = by + [0] * (n - len(by))
        gb = cond_bit(g)
        return from_bits([b ^ bit_and(gb, a ^ b) for a, b in zip(bx, by)])
    lx, ly = rng(x)[0], rng(y)[0]
    m = min(lx, ly, 0)
    if m < 0:
        # static lower bound for determinism
        sx = x if type(x) is int else x.lo
        sy = y if type(y) is int else y.lo
        m = min(sx, sy, 0)
        return add(ite2(g, sub(x, m), sub(y, m)), m)
    return ite2(g, x, y)


def ite2(g, x, y):
    hx = x if type(x) is int else rng(x)[1]
    hy = y if type(y) is int else rng(y)[1]
    sx = x if type(x) is int else x.hi
    sy = y if type(y) is int else y.hi
    return lin_of_atom(atom('ite', (g, x, y), max(sx, sy)))


def bit_length(x):
    if type(x) is int:
        return x.bit_length()
    x = refresh(x)
    if type(x) is int:
        return x.bit_length()
    lo, hi = rng(x)
    if lo < 0:
        raise NegativeBits(x)
    if lo.bit_length() == hi.bit_length():
        return lo.bit_length()
    return lin_of_atom(atom('bl', (x,), x.hi.bit_length()))


def first(conds):
    '''1 + index of the first true of conds, else 0'''
    cs = []
    for b in conds:
        if b is FALSE:
            cs.append(b)
            continue
        cs.append(b)
        if b is TRUE:
            break
    while cs and cs[-1] is FALSE:
        cs.pop()
    if not cs:
        return 0
    for i, b in enumerate(cs):
        if b is TRUE:
            if i == 0:
                return 1
            break
        if b is not FALSE:
            break
    else:
        return 0
    if cs[i] is TRUE:
        return i + 1
    return lin_of_atom(atom('first', tuple(cs), len(cs)))


# -------------------------------------------------------------- variables

def var(name, hi):
    return lin_of_atom(atom('var', (name,), hi))


def lin_vars(x):
    if type(x) is int:
        return frozenset()
    v = x._vars
    if v is None:
        s = set()
        for a, _ in x.ts:
            s |= atom_vars(a)
        v = x._vars = frozenset(s)
    return v


def mask_bits(m):
    '''the (atom, bit) pairs of a mask, without its constant'''
    out = []
    t = bin(m)[:1:-1]
    i = t.find('1', 1)
    while i >= 0:
        out.append(BITS[i])
        i = t.find('1', i + 1)
    return out


def mask_vars(m):
    s = set()
    seen = set()
    for a, _ in mask_bits(m):
        if a not in seen:
            seen.add(a)
            s |= atom_vars(a)
    return s


def atom_vars(a):
    v = a._vars
    if v is None:
        k = a.kind
        if k in ('var', 'dig'):
            v = frozenset((a,))
        elif k == 'slice':
            v = atom_vars(a.args[0])
        elif k == 'xbit':
            v = frozenset(mask_vars(a.args[0]))
        elif k == 'and':
            v = frozenset(mask_vars(a.args[0]) | mask_vars(a.args[1]))
        elif k in ('opq', 'div', 'bl'):
            v = lin_vars(a.args[0])
        elif k == 'tab':
            v = lin_vars(a.args[2])
        elif k == 'mul':
            v = lin_vars(a.args[0]) | lin_vars(a.args[1])
        elif k == 'ite':
            v = bool_vars(a.args[0]) | lin_vars(a.args[1]) | lin_vars(a.args[2])
        elif k == 'cond':
            v = bool_vars(a.args[0])
        elif k == 'first':
            s = set()
            for b in a.args:
                s |= bool_vars(b)
            v = frozenset(s)
        else:
            raise AssertionError(k)
        a._vars = v
    return v


def bool_vars(b):
    v = b._vars
    if v is None:
        k = b.kind
        if k == 'c':
            v = frozenset()
        elif k in ('ge', 'eq'):
            v = lin_vars(b.args)
        elif k == 'mem':
            v = lin_vars(b.args[0])
        elif k == 'xb':
            v = frozenset(mask_vars(b.args))
        elif k == 'not':
            v = bool_vars(b.args)
        else:
            s = set()
            for x in b.args:
                s |= bool_vars(x)
            v = frozenset(s)
        b._vars = v
    return v


# -------------------------------------------------------------- evaluation

class Eval:
    '''evaluates terms under a concrete assignment of var/dig atoms'''

    def __init__(self, model, digest=None):
        self.model = model
        self.digest = digest       # function (atom) -> int, for real hashes
        self.memo = {}

    def lin(self, x):
        if type(x) is int:
            return x
        s = x.c
        for a, q in x.ts:
            s += q * self.atom(a)
        return s

    def atom(self, a):
        m = self.memo
        v = m.get(a)
        if v is not None:
            return v
        k = a.kind
        if k == 'var':
            v = self.model.get(a, 0)
        elif k == 'dig':
            if self.digest is not None:
                v = self.digest(self, a)
            else:
                v = self.model.get(a, 0)
        elif k == 'slice':
            base, i, n = a.args
            v = (self.atom(base) >> i) & ((1 << n) - 1)
        elif k == 'xbit':
            v = self.mask(a.args[0])
        elif k == 'and':
            v = self.mask(a.args[0]) & self.mask(a.args[1])
        elif k == 'opq':
            v = self.lin(a.args[0])
        elif k == 'div':
            v = self.lin(a.args[0]) // a.args[1]
        elif k == 'bl':
            v = self.lin(a.args[0]).bit_length()
        elif k == 'tab':
            lo, t, idx = a.args
            i = self.lin(idx) - lo
            v = t[i] if 0 <= i < len(t) else None
            if v is None:
                v = 0
        elif k == 'mul':
            v = self.lin(a.args[0]) * self.lin(a.args[1])
        elif k == 'ite':
            v = self.lin(a.args[1] if self.bool(a.args[0]) else a.args[2])
        elif k == 'cond':
            v = 1 if self.bool(a.args[0]) else 0
        elif k == 'first':
            v = 0
            for i, b in enumerate(a.args):
                if self.bool(b):
                    v = i + 1
                    break
        else:
            raise AssertionError(k)
        m[a] = v
        return v

    def mask(self, m):
        r = m & 1
        for a, k in mask_bits(m):
            r ^= (self.atom(a) >> k) & 1
        return r

    def bool(self, b):
        k = b.kind
        if k == 'c':
            return b.args
        if k == 'ge':
            return self.lin(b.args) >= 0
        if k == 'eq':
            return self.lin(b.args) == 0
        if k == 'mem':
            return self.lin(b.args[0]) in b.args[1]
        if k == 'xb':
            return self.mask(b.args) == 1
        if k == 'not':
            return not self.bool(b.args)
        if k == 'and':
            return all(self.bool(x) for x in b.args)
        if k == 'or':
            return any(self.bool(x) for x in b.args)
        raise AssertionError(k)


# ----------------------------------------------------------------- display

def show_atom(a):
    k = a.kind
    if k == 'var':
        return a.args[0]
    if k == 'dig':
        return 'H%d[%d]' % (a.args[0].id, a.args[1])
    if k == 'slice':
        return '%r<%d:%d>' % (a.args[0], a.args[1], a.args[1] + a.args[2])
    if k == 'xbit':
        return 'xor(%s)' % bin(a.args[0]).count('1')
    if k == 'tab':
        return 'tab(%r)' % (a.args[2],)
    return '%s%r' % (k, a.args)


def show(x):
    if type(x) is int:
        return str(x)
    return '(%s%s)' % (x.c if x.c else '', ''.join(
        '%+d*%r' % (q, a) if q not in (1,) else '+%r' % a for a, q in x.ts))


def showb(b):
    k = b.kind
    if k == 'c':
        return str(b.args)
    if k == 'ge':
        return '%s>=0' % show(b.args)
    if k == 'eq':
        return '%s==0' % show(b.args)
    if k == 'mem':
        return '%s in %s' % (show(b.args[0]), sorted(b.args[1])[:8])
    if k == 'xb':
        return 'xor%d' % bin(b.args).count('1')
    if k == 'not':
        return '!(%s)' % showb(b.args)
    return '(%s)' % ((' & ' if k == 'and' else ' | ').join(map(showb, b.args)))


def reset():
    '''forget all terms (between cases)'''
    global BITS, ATOM_LIST
    ATOMS.clear()
    del ATOM_LIST[:]
    LINS.clear()
    BOOLS.clear()
    BOOLS[('c', True)] = TRUE
    BOOLS[('c', False)] = FALSE
    del BITS[:]
    BITS.append(None)
    FACTS.clear()
    _AFF.clear()
    set_path(PathState())
