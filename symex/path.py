'''
The current symbolic path: decisions, path condition, learned facts, checks.
'''
from . import terms as T
from . import solver as S


class Unsupported(BaseException):
    '''the executed code does something the encoding does not model'''


class Infeasible(BaseException):
    '''an assumption cannot hold on this path'''


class MergeAbort(BaseException):
    '''a branch could not be merged; fork instead'''


class OutOfBudget(BaseException):
    pass


CURRENT = None          # Path


class Counters:
    def __init__(self):
        self.decisions = 0
        self.implied = 0
        self.checks = 0
        self.trivial = 0
        self.proved = 0
        self.hashes = 0


COUNT = Counters()


class Path:
    def __init__(self, prefix, model):
        self.prefix = prefix
        self.pos = 0
        self.log = []            # list of [kind, value, ...]
        self.alts = []           # (prefix, model) of unexplored siblings
        self.conds = []
        self.model = dict(model)
        self.state = T.PathState()
        T.set_path(self.state)
        self.spec = 0            # speculation depth
        self.fails = []          # (label, model)
        self.events = []         # trace compared with the native run
        self.inputs = {}         # name -> spec
        self.hashes = []         # hash nodes in creation order
        self.labels = []
        self.ev = None
        self.deadline = None

    # ------------------------------------------------------------ helpers
    def evalb(self, b):
        if self.ev is None:
            self.ev = T.Eval(self.model)
        return self.ev.bool(b)

    def set_model(self, m):
        self.model.update(m)
        self.ev = None

    def solve(self, b, timeout=None):
        '''model of path condition and b, or None'''
        vs = T.bool_vars(b)
        rel = S.relevant(self.conds, vs)
        m = S.query(rel + [b], timeout)
        return m

    def resimplify(self, b):
        k = b.kind
        if k == 'ge':
            return T.ge0(b.args)
        if k == 'eq':
            return T.eq0(b.args)
        if k == 'mem':
            return T.member(b.args[0], b.args[1])
        if k == 'xb':
            return T.bxb(self.reduce(b.args))
        if k == 'not':
            r = self.lookup(b.args)
            return T.bnot(r) if r is not b.args else b
        if k == 'and':
            return T.band_([self.lookup(x) for x in b.args])
        if k == 'or':
            return T.bor_([self.lookup(x) for x in b.args])
        return b

    def lookup(self, b):
        '''simplify b under what is known on this path'''
        if b.kind == 'c':
            return b
        v = self.state.known.get(b)
        if v is not None:
            return T.mkbool(v)
        r = self.resimplify(b)
        if r is not b:
            v = self.state.known.get(r)
            if v is not None:
                return T.mkbool(v)
        return r

    # ----------------------------------------------------------- decisions
    def decide(self, b):
        if b is T.TRUE:
            return True
        if b is T.FALSE:
            return False
        b0 = b
        b = self.lookup(b)
        if b is T.TRUE:
            return True
        if b is T.FALSE:
            return False
        if self.spec:
            raise MergeAbort()
        COUNT.decisions += 1
        if self.pos < len(self.prefix):
            ent = self.prefix[self.pos]
            self.pos += 1
            v = ent[1]
            if ent[2] is not None and ent[2] != b.id and ent[2] != -1:
                raise Unsupported('replay diverged at decision %d'
                                     % self.pos)
            self.log.append(ent)
            if len(ent) > 3 and ent[3] is not None:
                self.set_model(ent[3])
            self.learn(b if v else T.bnot(b), ent[0] == 'd')
            return v
        if self.deadline is not None:
            self.deadline()
        v = self.evalb(b)
        other = T.bnot(b) if v else b
        m = self.solve(other)
        if m is None:
            COUNT.implied += 1
            ent = ['i', v, b.id]
            self.log.append(ent)
            self.pos += 1
            self.prefix = self.log
            self.learn(T.bnot(other), False)
            return v
        ent = ['d', v, b.id]
        alt = self.log + [['d', not v, b.id, m]]
        self.alts.append((alt, dict(self.model)))
        self.log.append(ent)
        self.pos += 1
        self.prefix = self.log
        self.learn(T.bnot(other), True)
        return v

    def choose_value(self, x):
        '''a concrete int for lin x, forking over all its values'''
        while True:
            x = T.refresh(x)
            if type(x) is int:
                return x
            if self.spec:
                raise MergeAbort()
            # the candidate must be the same on replay: take it from the log
            if self.pos < len(self.prefix) \
                    and self.prefix[self.pos][0] == 'v':
                ent = self.prefix[self.pos]
                self.pos += 1
                self.log.append(ent)
                v = ent[1]
            elif self.pos < len(self.prefix):
                raise Unsupported('replay diverged (value)')
            else:
                if self.ev is None:
                    self.ev = T.Eval(self.model)
                v = self.ev.lin(x)
                self.log.append(['v', v, None])
                self.pos += 1
                self.prefix = self.log
            if self.decide(T.eq0(T.sub(x, v))):
                return v

    def assume(self, b):
        b = self.lookup(b)
        if b is T.TRUE:
            return
        if b is T.FALSE:
            raise Infeasible()
        if self.spec:
            raise MergeAbort()
        if self.pos < len(self.prefix):
            ent = self.prefix[self.pos]
            self.pos += 1
            self.log.append(ent)
            if len(ent) > 3 and ent[3] is not None:
                self.set_model(ent[3])
            self.learn(b, True)
            return
        m = None
        if not self.evalb(b):
            m = self.solve(b)
            if m is None:
                raise Infeasible()
            self.set_model(m)
        self.log.append(['a', True, -1, m])
        self.pos += 1
        self.prefix = self.log
        self.learn(b, True)

    # --------------------------------------------------------------- learn
    def reduce(self, mask):
        g = self.state.gf2
        if g:
            m = mask
            # rows are keyed by pivot; rows are fully reduced
            for p, row in g.items():
                if m >> p & 1:
                    m ^= row
            mask = m
        return mask

    def learn(self, b, assert_):
        '''b holds from now on'''
        st = self.state
        if assert_:
            self.conds.append(b)
        stack = [b]
        while stack:
            b = stack.pop()
            if b.kind == 'c':
                continue
            st.known[b] = True
            n = T.bnot(b)
            st.known[n] = False
            k = b.kind
            if k == 'and':
                stack.extend(b.args)
            elif k == 'ge':
                self.bound(b.args, 0, None)
            elif k == 'eq':
                self.bound(b.args, 0, 0)
            elif k == 'mem':
                x, vals = b.args
                self.bound(x, min(vals), max(vals))
                if type(x) is not int and len(x.ts) == 1 and x.c == 0 \
                        and x.ts[0][1] == 1:
                    a = x.ts[0][0]
                    d = st.dom.get(a)
                    st.dom[a] = vals if d is None else d & vals
            elif k == 'not':
                c = b.args
                if c.kind == 'eq':
                    x = c.args
                    lo, hi = T.rng(x)
                    if lo == 0:
                        self.bound(x, 1, None)
                    elif hi == 0:
                        self.bound(x, None, -1)
            elif k == 'xb':
                self.add_row(b.args)

    def bound(self, x, lo, hi):
        if type(x) is int:
            return
        self.bound1(x, lo, hi)
        for a in self.state.divs.get(x.key, ()):
            T.narrow_div(a)

    def bound1(self, x, lo, hi):
        st = self.state
        l0, h0 = T.rng(x)
        lo = l0 if lo is None else max(lo, l0)
        hi = h0 if hi is None else min(hi, h0)
        if lo > hi:
            return       # contradictory path; the solver will tell
        if len(x.ts) == 1:
            a, q = x.ts[0]
            if q > 0:
                al, ah = -((x.c - lo) // q), (hi - x.c) // q
                al = (lo - x.c + q - 1) // q
            else:
                al = (x.c - hi + (-q) - 1) // -q
                ah = (x.c - lo) // -q
            r0, r1 = T.arange(a)
            al, ah = max(al, r0), min(ah, r1)
            if al <= ah:
                st.range[a] = (al, ah)
                if a.kind == 'slice' and a.args[0].kind == 'opq':
                    # a bound on the top bits bounds the whole
                    base, i, n = a.args
                    if i + n >= base.width and type(base.args[0]) is not int:
                        self.bound(base.args[0], 0, ((ah + 1) << i) - 1)
            return
        T.note_range(st.facts, x, lo, hi)
        # interval propagation to the single atoms (their own ranges only:
        # a sharpened range of the sum must not be used for the rest)
        if len(x.ts) > 24:
            return
        smin = smax = x.c
        iv = []
        for a, q in x.ts:
            r0, r1 = T.arange(a)
            p0, p1 = (q * r0, q * r1) if q > 0 else (q * r1, q * r0)
            smin += p0
            smax += p1
            iv.append((a, q, r0, r1, p0, p1))
        for a, q, r0, r1, p0, p1 in iv:
            top = hi - (smin - p0)        # q*a <= top
            bot = lo - (smax - p1)        # q*a >= bot
            if q > 0:
                n0, n1 = -((-bot) // q), top // q
            else:
                n0, n1 = -(top // -q), (-bot) // -q
            n0, n1 = max(n0, r0), min(n1, r1)
            if n0 <= n1 and (n0, n1) != (r0, r1):
                st.range[a] = (n0, n1)

    def add_row(self, mask):
        '''xb(mask) holds: mask ^ 1 == 0'''
        m = self.reduce(mask ^ 1)
        if m <= 1:
            return
        p = m.bit_length() - 1
        g = self.state.gf2
        for q, row in list(g.items()):
            if row >> p & 1:
                g[q] = row ^ m
        g[p] = m
        if m & 1 == m ^ (1 << p) or True:
            # single bit rows fix one-bit atoms
            for q in (list(g) if len(g) < 512 else [p]):
                row = g[q]
                r = row ^ (1 << q)
                if r <= 1:
                    a, k = T.BITS[q]
                    if a.hi == 1:
                        self.state.range[a] = (r, r)

    # -------------------------------------------------------------- checks
    def check(self, label, b):
        COUNT.checks += 1
        self.labels.append(label)
        if b is T.TRUE:
            COUNT.trivial += 1
            self.events.append(('check', label, True))
            return
        if self.pos < len(self.prefix):
            # settled when this prefix was first explored
            ent = self.prefix[self.pos]
            if ent[0] != 'c':
                raise Unsupported('replay diverged (check)')
            self.pos += 1
            self.log.append(ent)
            self.events.append(('check', label, True))
            if not ent[1]:
                if ent[3] is not None:
                    self.set_model(ent[3])
                self.learn(self.lookup(b), True)
            return
        if self.spec:
            raise MergeAbort()
        parts = b.args if b.kind == 'and' else (b,)
        bad = None
        for p in parts:
            q = self.lookup(p)
            if q is T.TRUE:
                continue
            if q is T.FALSE or not self.evalb(q):
                bad = dict(self.model)
                break
            m = self.solve(T.bnot(q))
            if m is not None:
                bad = dict(self.model)
                bad.update(m)
                break
        if bad is None:
            COUNT.proved += 1
            self.events.append(('check', label, True))
            self.log.append(['c', True, None])
            self.pos += 1
            self.prefix = self.log
            return
        self.fails.append((label, bad))
        self.events.append(('check', label, b))
        # carry on with the inputs that satisfy the assertion, if any
        b = self.lookup(b)
        if b is T.FALSE:
            raise Stop()
        # the violation is reported anyhow: no great effort
        try:
            m = None if S._heavy(b) else self.solve(b, 5000)
        except S.Unknown:
            m = None
        if m is None:
            raise Stop()
        self.events[-1] = ('check', label, True)
        self.log.append(['c', False, None, m])
        self.pos += 1
        self.prefix = self.log
        self.set_model(m)
        self.learn(b, True)


class Stop(BaseException):
    '''nothing left to explore on this path'''


def decide(b):
    return CURRENT.decide(b)
