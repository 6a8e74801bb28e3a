'''
Z3 back end: translation of terms to bit-vectors or integers, path-condition
slicing, caching, models.
'''
import random
import time
import z3
from . import terms as T

# private context: we fork worker processes
TIMEOUT_MS = 60000


class Unknown(BaseException):
    pass


class Unwrap(BaseException):
    '''the case is to be run again with sums brought to a normal form'''


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.cached = 0
        self.time = 0.0
        self.max_time = 0.0


STATS = Stats()


# ------------------------------------------------------------- BV encoding

class BVEnc:
    '''one encoder per query (side conditions are collected)'''

    def __init__(self):
        self.side = []
        self.memo = {}
        self.vars = {}

    def var(self, a):
        w = max(1, a.width)
        v = z3.BitVec('a%d' % a.id, w)
        self.vars[a] = v
        if a.hi != (1 << w) - 1:
            self.side.append(z3.ULE(v, a.hi))
        return v

    def atom(self, a):
        '''BV of width max(1, a.width)'''
        r = self.memo.get(a)
        if r is not None:
            return r
        k = a.kind
        w = max(1, a.width)
        if k in ('var', 'dig'):
            r = self.var(a)
        elif k == 'slice':
            base, i, n = a.args
            r = z3.Extract(i + n - 1, i, self.atom(base))
        elif k == 'xbit':
            r = self.mask(a.args[0])
        elif k == 'and':
            r = self.mask(a.args[0]) & self.mask(a.args[1])
        elif k == 'opq':
            ln = a.args[0]
            b, ww = self.lin(ln)
            r = self.fit(b, ww, w)
        elif k == 'div':
            b, ww = self.lin(a.args[0])
            c = a.args[1]
            if c.bit_length() > ww:
                r = z3.BitVecVal(0, w)
            else:
                r = self.fit(z3.UDiv(b, z3.BitVecVal(c, ww)), ww, w)
        elif k == 'tab':
            r = self.tab(a, w)
        elif k == 'mul':
            b1, w1 = self.lin(a.args[0])
            b2, w2 = self.lin(a.args[1])
            ww = w1 + w2
            r = self.fit(self.fit(b1, w1, ww) * self.fit(b2, w2, ww), ww, w)
        elif k == 'ite':
            b1, w1 = self.lin(a.args[1])
            b2, w2 = self.lin(a.args[2])
            r = z3.If(self.bool(a.args[0]), self.fit(b1, w1, w),
                      self.fit(b2, w2, w))
        elif k == 'cond':
            r = z3.If(self.bool(a.args[0]), z3.BitVecVal(1, w),
                      z3.BitVecVal(0, w))
        elif k == 'bl':
            b, ww = self.lin(a.args[0])
            r = z3.BitVecVal(0, w)
            for i in range(ww):
                r = z3.If(z3.Extract(i, i, b) == 1,
                          z3.BitVecVal(i + 1, w), r)
        elif k == 'first':
            r = z3.BitVecVal(0, w)
            cs = a.args
            for i in range(len(cs) - 1, -1, -1):
                r = z3.If(self.bool(cs[i]), z3.BitVecVal(i + 1, w), r)
        else:
            raise AssertionError(k)
        self.memo[a] = r
        return r

    def tab(self, a, w):
        lo, table, idx = a.args
        b, ww = self.lin(idx)
        runs = _runs(lo, table)
        r = None
        for s, e, kind, v in reversed(runs):
            if kind == 'c':
                val = z3.BitVecVal(v, w)
            else:
                # value = idx + v
                wb = max(w, ww) + 1
                val = self.fit(self.fit(b, ww, wb)
                               + z3.BitVecVal(v % (1 << wb), wb), wb, w)
            if r is None:
                r = val
            else:
                if e.bit_length() > ww:
                    r = val
                else:
                    r = z3.If(z3.ULE(b, z3.BitVecVal(e, ww)), val, r)
        return r

    def fit(self, b, have, want):
        if have == want:
            return b
        if have < want:
            return z3.ZeroExt(want - have, b)
        return z3.Extract(want - 1, 0, b)

    def mask(self, m):
        r = None
        c = m & 1
        for a, k in T.mask_bits(m):
            e = z3.Extract(k, k, self.atom(a))
            r = e if r is None else r ^ e
        if r is None:
            return z3.BitVecVal(c, 1)
        return ~r if c else r

    def part(self, ts, c, w):
        '''sum of (atom, coef>0) + c in width w'''
        # disjoint powers of two become a concatenation
        items = []
        ok = c == 0
        if ok:
            for a, q in ts:
                if q & (q - 1):
                    ok = False
                    break
                items.append((q.bit_length() - 1, max(1, a.width), a))
            if ok:
                items.sort(key=lambda t: t[0])
                for i in range(len(items) - 1):
                    if items[i][0] + items[i][1] > items[i + 1][0]:
                        ok = False
                        break
                if ok and items and items[-1][0] + items[-1][1] > w:
                    ok = False
        if ok:
            parts = []
            pos = 0
            for p, n, a in items:
                if p > pos:
                    parts.append(z3.BitVecVal(0, p - pos))
                parts.append(self.atom(a))
                pos = p + n
            if pos < w:
                parts.append(z3.BitVecVal(0, w - pos))
            if len(parts) == 1:
                return parts[0]
            return z3.Concat(*reversed(parts))
        r = z3.BitVecVal(c, w)
        for a, q in ts:
            b = self.fit(self.atom(a), max(1, a.width), w)
            r = r + (b if q == 1 else b * z3.BitVecVal(q, w))
        return r

    def lin(self, x):
        '''(bv, width) of a lin that is >= 0'''
        if type(x) is int:
            w = max(1, x.bit_length())
            return z3.BitVecVal(x, w), w
        if len(x.ts) == 1 and x.c == 0 and x.ts[0][1] == 1:
            a = x.ts[0][0]
            return self.atom(a), max(1, a.width)
        # value lies in [0, hi]; negative intermediate terms wrap correctly
        # in any width that holds hi
        w = max(1, x.hi.bit_length())
        if x.c >= 0 and all(q > 0 for _, q in x.ts):
            return self.part(x.ts, x.c, w), w
        r = z3.BitVecVal(x.c % (1 << w), w)
        for a, q in x.ts:
            b = self.fit(self.atom(a), max(1, a.width), w)
            r = r + b * z3.BitVecVal(q % (1 << w), w)
        return r, w

    def sides(self, x):
        '''positive and negative part of a lin in a common width'''
        pos = tuple((a, q) for a, q in x.ts if q > 0)
        neg = tuple((a, -q) for a, q in x.ts if q < 0)
        pc, nc = (x.c, 0) if x.c > 0 else (0, -x.c)
        hp = pc + sum(q * a.hi for a, q in pos)
        hn = nc + sum(q * a.hi for a, q in neg)
        w = max(1, hp.bit_length(), hn.bit_length())
        return self.part(pos, pc, w), self.part(neg, nc, w)

    def bool(self, b):
        r = self.memo.get(b)
        if r is not None:
            return r
        k = b.kind
        if k == 'c':
            r = z3.BoolVal(b.args)
        elif k == 'ge':
            p, n = self.sides(b.args)
            r = z3.UGE(p, n)
        elif k == 'eq':
            p, n = self.sides(b.args)
            r = p == n
        elif k == 'mem':
            x, vals = b.args
            bv, w = self.lin(x) if (type(x) is int or x.lo >= 0) \
                else (None, 0)
            if bv is None:
                m = -x.lo
                bv, w = self.lin(T._raw(x.c + m, x.ts))
                vals = [v + m for v in vals]
            rs = []
            for s, e in _intervals(vals):
                if e < 0 or s.bit_length() > w:
                    continue
                s = max(s, 0)
                e = min(e, (1 << w) - 1)
                if s == e:
                    rs.append(bv == s)
                else:
                    rs.append(z3.And(z3.ULE(bv, z3.BitVecVal(e, w)),
                                     z3.UGE(bv, z3.BitVecVal(s, w))))
            r = z3.Or(*rs) if rs else z3.BoolVal(False)
        elif k == 'xb':
            r = self.mask(b.args) == 1
        elif k == 'not':
            r = z3.Not(self.bool(b.args))
        elif k == 'and':
            r = z3.And(*[self.bool(x) for x in b.args])
        elif k == 'or':
            r = z3.Or(*[self.bool(x) for x in b.args])
        else:
            raise AssertionError(k)
        self.memo[b] = r
        return r


def _runs(lo, table):
    runs = []          # [start, end, kind, v]
    n = len(table)
    i = 0
    while i < n:
        if table[i] is None:
            i += 1
            continue
        # constant run
        j = i
        while j + 1 < n and table[j + 1] in (table[i], None):
            j += 1
        k = i
        d = table[i] - (lo + i)
        while k + 1 < n and (table[k + 1] is None
                             or table[k + 1] - (lo + k + 1) == d):
            k += 1
        if k > j:
            runs.append((lo + i, lo + k, 'd', d))
            i = k + 1
        else:
            runs.append((lo + i, lo + j, 'c', table[i]))
            i = j + 1
    return runs


def _intervals(vals):
    out = []
    s = e = None
    for v in sorted(vals):
        if s is None:
            s = e = v
        elif v == e + 1:
            e = v
        else:
            out.append((s, e))
            s = e = v
    if s is not None:
        out.append((s, e))
    return out


# ------------------------------------------------------------ Int encoding

class IntEnc:
    '''linear integer encoding (for radix conversions)'''

    def __init__(self):
        self.side = []
        self.memo = {}
        self.vars = {}
        self.n = 0

    def fresh(self, hi):
        self.n += 1
        v = z3.Int('f%d' % self.n)
        self.side.append(v >= 0)
        self.side.append(v <= hi)
        return v

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        k = a.kind
        if k in ('var', 'dig'):
            r = z3.Int('a%d' % a.id)
            self.side.append(r >= 0)
            self.side.append(r <= a.hi)
            self.vars[a] = r
        elif k == 'slice':
            base, i, n = a.args
            b = self.atom(base)
            q = self.fresh(base.hi >> (i + n))
            r = self.fresh((1 << n) - 1)
            e = self.fresh((1 << i) - 1) if i else 0
            self.side.append(b == q * (1 << (i + n)) + r * (1 << i) + e)
        elif k == 'opq':
            r = self.lin(a.args[0])
        elif k == 'div':
            x = self.lin(a.args[0])
            c = a.args[1]
            r = self.fresh(a.hi)
            m = self.fresh(c - 1)
            self.side.append(x == r * c + m)
        elif k == 'tab':
            lo, table, idx = a.args
            x = self.lin(idx)
            r = None
            for s, e, kind, v in reversed(_runs(lo, table)):
                val = z3.IntVal(v) if kind == 'c' else x + v
                r = val if r is None else z3.If(x <= e, val, r)
        elif k == 'ite':
            r = z3.If(self.bool(a.args[0]), self.lin(a.args[1]),
                      self.lin(a.args[2]))
        elif k == 'cond':
            r = z3.If(self.bool(a.args[0]), z3.IntVal(1), z3.IntVal(0))
        elif k == 'bl':
            x = self.lin(a.args[0])
            r = z3.IntVal(0)
            for i in range(a.args[0].hi.bit_length()):
                r = z3.If(x >= 1 << i, z3.IntVal(i + 1), r)
        elif k == 'first':
            r = z3.IntVal(0)
            for i in range(len(a.args) - 1, -1, -1):
                r = z3.If(self.bool(a.args[i]), z3.IntVal(i + 1), r)
        elif k == 'mul':
            r = self.lin(a.args[0]) * self.lin(a.args[1])
        else:
            raise NotInt()
        self.memo[a] = r
        return r

    def lin(self, x):
        if type(x) is int:
            return z3.IntVal(x)
        s = []
        for a, q in x.ts:
            v = self.atom(a)
            s.append(v if q == 1 else v * q)
        if x.c:
            s.append(z3.IntVal(x.c))
        return z3.Sum(*s) if len(s) > 1 else s[0]

    def bool(self, b):
        r = self.memo.get(b)
        if r is not None:
            return r
        k = b.kind
        if k == 'c':
            r = z3.BoolVal(b.args)
        elif k == 'ge':
            r = self.lin(b.args) >= 0
        elif k == 'eq':
            r = self.lin(b.args) == 0
        elif k == 'mem':
            x = self.lin(b.args[0])
            rs = [x == s if s == e else z3.And(x >= s, x <= e)
                  for s, e in _intervals(b.args[1])]
            r = z3.Or(*rs)
        elif k == 'not':
            r = z3.Not(self.bool(b.args))
        elif k == 'and':
            r = z3.And(*[self.bool(x) for x in b.args])
        elif k == 'or':
            r = z3.Or(*[self.bool(x) for x in b.args])
        else:
            raise NotInt()
        self.memo[b] = r
        return r


class NotInt(Exception):
    pass


def _radix_heavy(bs):
    '''does the query contain radix arithmetic better done over integers?'''
    seen = set()
    heavy = False

    def lin(x):
        nonlocal heavy
        if type(x) is int:
            return
        if x.hi > 1 << 64 or x.lo < -(1 << 64):
            for a, q in x.ts:
                if q & (q - 1) and abs(q) > 256 and not heavy:
                    q = abs(q)
                    if bin(q).count('1') > 1:
                        heavy = True
        for a, q in x.ts:
            atom(a)

    def atom(a):
        nonlocal heavy
        if a in seen:
            return
        seen.add(a)
        k = a.kind
        if k in ('xbit', 'and'):
            raise NotInt()
        if k == 'slice':
            atom(a.args[0])
        elif k in ('opq', 'bl'):
            lin(a.args[0])
        elif k == 'div':
            if a.args[0].hi > 1 << 64:
                heavy = True
            lin(a.args[0])
        elif k == 'tab':
            lin(a.args[2])
        elif k == 'mul':
            lin(a.args[0])
            lin(a.args[1])
        elif k == 'ite':
            bool_(a.args[0])
            lin(a.args[1])
            lin(a.args[2])
        elif k == 'cond':
            bool_(a.args[0])
        elif k == 'first':
            for b in a.args:
                bool_(b)

    def bool_(b):
        if b in seen:
            return
        seen.add(b)
        k = b.kind
        if k in ('ge', 'eq'):
            lin(b.args)
        elif k == 'mem':
            lin(b.args[0])
        elif k == 'xb':
            raise NotInt()
        elif k == 'not':
            bool_(b.args)
        elif k in ('and', 'or'):
            for x in b.args:
                bool_(x)

    try:
        for b in bs:
            bool_(b)
    except NotInt:
        return False
    return heavy


# ------------------------------------------------------------------- query

CACHE = {}


def _flatten(cs):
    out = []
    for b in cs:
        if b.kind == 'and':
            out.extend(_flatten(b.args))
        else:
            out.append(b)
    return out


def _reduced(masks):
    '''echelon form {pivot: row} of rows that are to be zero, or None'''
    rows = {}
    for m in masks:
        m = _reduce(m, rows)
        if m == 1:
            return None
        if m:
            rows[m.bit_length() - 1] = m
    return rows


def _reduce(m, rows):
    left = m
    while left > 1:
        p = left.bit_length() - 1
        r = rows.get(p)
        if r is not None:
            m ^= r
            left ^= r
        left &= (1 << p) - 1
    return m


def _under(b, rows):
    '''the condition b, simplified where all rows are zero'''
    if b.kind == 'xb':
        return T.bxb(_reduce(b.args, rows))
    if b.kind == 'not':
        return T.bnot(_under(b.args, rows))
    if b.kind == 'and':
        return T.band_([_under(x, rows) for x in b.args])
    if b.kind == 'or':
        return T.bor_([_under(x, rows) for x in b.args])
    return b


def eliminate(cs):
    '''
    Solve the linear (GF(2)) conditions for input bits that occur in no other
    condition.  Returns (remaining conditions, [(pivot bit, mask)]), each
    mask to be zero; None if the linear part is contradictory.
    '''
    flat = _flatten(cs)
    masks = [b.args ^ 1 for b in flat if b.kind == 'xb']
    if len(masks) < 4:
        return cs, []
    rest = [b for b in flat if b.kind != 'xb']
    if any(b.kind in ('or', 'not') for b in rest):
        rows = _reduced(masks)
        if rows is None:
            return None, []
        rest = [_under(b, rows) for b in rest]
        if T.FALSE in rest:
            return None, []
        rest = [b for b in rest if b is not T.TRUE]
        if any(b.kind in ('and', 'xb') for b in rest):
            return eliminate(rest + [T.bxb(m ^ 1) for m in masks])
    used = set()
    bits_used = 0
    stack = list(rest)
    while stack:
        b = stack.pop()
        if b.kind == 'xb':
            bits_used |= b.args
        elif b.kind == 'not':
            stack.append(b.args)
        elif b.kind in ('and', 'or'):
            stack.extend(b.args)
        else:
            used |= T.bool_vars(b)
    allused = bits_used >> 1
    q = 1
    while allused:
        if allused & 1:
            a = T.BITS[q][0]
            if a.kind != 'var':
                used |= T.atom_vars(a)
        allused >>= 1
        q += 1
    allbits = 0
    for m in masks:
        allbits |= m
    free = 0
    m = allbits >> 1
    q = 1
    lin_only = {}
    while m:
        if m & 1:
            a, k = T.BITS[q]
            if a.kind == 'var' and a.hi == (1 << a.width) - 1:
                lin_only[q] = a
            elif a.kind != 'var':
                used |= T.atom_vars(a)
            else:
                used.add(a)
        m >>= 1
        q += 1
    for q, a in lin_only.items():
        if a not in used and not bits_used >> q & 1:
            free |= 1 << q
    if not free:
        return cs, []
    rows = masks
    solved = []
    while True:
        for i, r in enumerate(rows):
            f = r & free
            if f:
                break
        else:
            break
        p = f.bit_length() - 1
        rows = rows[:i] + rows[i + 1:]
        rows = [x ^ r if x >> p & 1 else x for x in rows]
        solved.append((p, r))
    out = list(rest)
    for r in rows:
        if r == 1:
            return None, []
        if r:
            out.append(T.bxb(r ^ 1))
    return out, solved


def back_substitute(model, solved):
    '''give the eliminated bits their values'''
    piv = {p for p, _ in solved}
    for p, r in solved:
        m = r >> 1
        q = 1
        while m:
            if m & 1:
                a = T.BITS[q][0]
                for v in ([a] if a.kind == 'var' else T.atom_vars(a)):
                    model.setdefault(v, 0)
            m >>= 1
            q += 1
    for p in piv:
        a, k = T.BITS[p]
        model[a] &= ~(1 << k)
    # (bits of the same input that other conditions use keep their values)
    # a row may hold pivots solved after it: latest first
    for p, r in reversed(solved):
        ev = T.Eval(model)
        if ev.mask(r):
            a, k = T.BITS[p]
            model[a] ^= 1 << k


class AbsEnc(BVEnc):
    '''the exclusive or of many bits is any bit'''

    def __init__(self):
        super().__init__()
        self.free = {}

    def mask(self, m):
        c, m = m & 1, m & ~1
        if bin(m).count('1') < 4:
            return super().mask(m | c)
        v = self.free.get(m)
        if v is None:
            v = self.free[m] = z3.BitVec('x%d' % len(self.free), 1)
        return ~v if c else v


def _abstract_unsat(cs):
    enc = AbsEnc()
    fs = [enc.bool(b) for b in cs if not _heavy(b, False)]
    if not enc.free:
        return None
    s = z3.SolverFor('QF_BV')
    s.set('timeout', 1000)
    s.add(*enc.side)
    s.add(*fs)
    return ('unsat', None) if s.check() == z3.unsat else None


HEAVY = {}


def _heavy(n, xor=True):
    '''
    does the condition contain wide arithmetic with odd coefficients, or
    exclusive ors of many bits?
    '''
    if type(n) is int:
        return False
    r = HEAVY.get((n, xor))
    if r is not None:
        return r
    k = getattr(n, 'kind', None)
    if k is None:
        r = (n.hi > 1 << 96 or n.lo < -(1 << 96)) and any(
            abs(q) > 256 and bin(q).count('1') > 2 for _, q in n.ts)
        r = r or any(_heavy(a, xor) for a, _ in n.ts)
    elif k in ('ge', 'eq', 'not'):
        r = _heavy(n.args, xor)
    elif k == 'mem':
        r = _heavy(n.args[0], xor)
    elif isinstance(n, T.B) and k in ('and', 'or') or k == 'first':
        r = any(_heavy(x, xor) for x in n.args)
    elif k in ('slice', 'opq', 'bl', 'div', 'cond'):
        r = _heavy(n.args[0], xor)
    elif k == 'tab':
        r = _heavy(n.args[2], xor)
    elif k == 'mul':
        r = _heavy(n.args[0], xor) or _heavy(n.args[1], xor)
    elif k == 'ite':
        r = any(_heavy(x, xor) for x in n.args)
    else:
        r = xor and k in ('xb', 'xbit', 'and')
    HEAVY[n, xor] = r
    return r


def _guess(cs):
    '''
    Random models of the light conditions, until one satisfies the heavy ones
    as well: ('sat', model), ('unsat', None) if the light ones have no model,
    or None.
    '''
    hard = [b for b in cs if _heavy(b)]
    if not hard:
        return None
    easy = [b for b in cs if not _heavy(b)]
    enc = BVEnc()
    fs = [enc.bool(b) for b in easy]
    s = z3.SolverFor('QF_BV')
    s.set('timeout', 2000)
    s.add(*enc.side)
    s.add(*fs)
    vs = sorted(set().union(*[T.bool_vars(b) for b in hard]) - set(enc.vars),
                key=lambda a: a.id)
    rng = random.Random(len(cs))
    for n in range(24 if T.UNWRAP or not T.WRAPPED else 3):
        want = {}
        for a, v in enc.vars.items():
            p = z3.Bool('guess.%d.%d' % (n, a.id))
            s.add(z3.Implies(p, v == rng.randint(0, a.hi)))
            want[p.get_id()] = p
        while True:
            r = s.check(*want.values())
            if r != z3.unsat:
                break
            core = s.unsat_core()
            if not len(core):
                return 'unsat', None
            for p in core:
                want.pop(p.get_id(), None)
        if r != z3.sat:
            return None
        m = s.model()
        model = {a: m.eval(v, model_completion=True).as_long()
                 for a, v in enc.vars.items()}
        for v in vs:
            model[v] = rng.randint(0, v.hi)
        ev = T.Eval(model)
        if all(ev.bool(b) for b in hard):
            return 'sat', model
    return None


def _solve(cs, solved, tmo):
    order = ['int', 'bv'] if _radix_heavy(cs) else ['bv']
    for which in order:
        try:
            enc = IntEnc() if which == 'int' else BVEnc()
            fs = [enc.bool(b) for b in cs]
        except NotInt:
            continue
        s = z3.SolverFor('QF_BV') if which == 'bv' else z3.Solver()
        s.set('timeout', int(tmo if len(order) == 1 else tmo // 2))
        s.add(*enc.side)
        s.add(*fs)
        r = s.check()
        if r == z3.sat:
            m = s.model()
            model = {}
            for a, v in enc.vars.items():
                model[a] = m.eval(v, model_completion=True).as_long()
            if solved:
                back_substitute(model, solved)
            return 'sat', model
        if r == z3.unsat:
            return 'unsat', None
    return None


def query(conds, timeout=None):
    '''
    conds: iterable of B.  Returns a model dict (atom -> int) for the atoms
    occurring in them, or None if unsatisfiable.
    '''
    key = frozenset(conds)
    if T.FALSE in key:
        return None
    if T.TRUE in key:
        key = key - {T.TRUE}
    if not key:
        return {}
    if key in CACHE:
        STATS.cached += 1
        return CACHE[key]
    t0 = time.time()
    full = sorted(key, key=lambda b: b.id)
    tmo = timeout or TIMEOUT_MS
    cs, solved = eliminate(full)
    if cs is None:
        res = 'unsat', None
    elif any(_heavy(b) for b in full):
        res = _abstract_unsat(full)
        if res is None and T.WRAPPED and not T.UNWRAP:
            res = _guess(full)
            if res is None:
                raise Unwrap()
        res = res or _solve(cs, solved, min(tmo, 400)) or _guess(full) \
            or _solve(cs, solved, tmo)
    else:
        res = _solve(cs, solved, tmo)
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    STATS.max_time = max(STATS.max_time, dt)
    if res is None:
        raise Unknown('solver gave no answer in %.1f s' % dt)
    if res[0] == 'sat':
        STATS.sat += 1
        # the encoding is checked against the term semantics
        ev = T.Eval(res[1])
        for b in full:
            if not ev.bool(b):
                raise AssertionError('model does not satisfy %r' % (b,))
    else:
        STATS.unsat += 1
    CACHE[key] = res[1]
    return res[1]


def relevant(conds, seed_vars):
    '''the conditions sharing variables (transitively) with seed_vars'''
    vs = set(seed_vars)
    rest = list(conds)
    out = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for b in rest:
            bv = T.bool_vars(b)
            if not vs.isdisjoint(bv):
                out.append(b)
                if not bv <= vs:
                    vs |= bv
                changed = True
            else:
                nxt.append(b)
        rest = nxt
    return out
