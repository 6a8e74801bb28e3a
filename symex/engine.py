'''Exploration of one case: all paths, solver verdicts, native replays.'''
import sys
import time
import traceback
from . import terms as T
from . import solver as S
from . import path as P
from . import values as V
from . import hooks
from . import shared
from . import shims
from .rt import SymRT, NatRT, SkipRest, NoInput, Failed, concretise, native_loader

sys.setrecursionlimit(20000)


class CaseResult:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.infeasible = 0
        self.validated = 0
        self.unrealised = 0
        self.checks = 0
        self.labels = set()
        self.violations = []      # dicts
        self.errors = []
        self.stats = {}
        self.functions = set()
        self.samples = []
        self.wall = 0.0
        self.bounds = None
        self.hashes = 0
        self.ends = {}


def inputs_of(path, ev):
    out = {}
    for name, spec in path.inputs.items():
        k = spec[0]
        if k in ('bytes', 'bytearray'):
            b = bytes(ev.lin(T.var('%s.%d' % (name, i), 255))
                      for i in range(spec[1]))
            out[name] = b if k == 'bytes' else bytearray(b)
        elif k == 'int':
            lo, hi = spec[1:]
            out[name] = lo if lo == hi else lo + ev.lin(
                T.var(name, hi - lo))
        elif k == 'bool':
            out[name] = bool(ev.lin(T.var(name, 1)))
        elif k == 'choice':
            out[name] = 0 if spec[1] == 1 else ev.lin(
                T.var(name, spec[1] - 1))
        elif k == 'text':
            n, al = spec[1:]
            if al is None:
                out[name] = ''.join(chr(ev.lin(T.var('%s.%d' % (name, i),
                                                     127)))
                                    for i in range(n))
            else:
                out[name] = ''.join(
                    al[ev.lin(T.var('%s.%d' % (name, i), len(al) - 1))]
                    for i in range(n))
    return out


def real_eval(model):
    cache = {}

    def dig(ev, a):
        h, k = a.args
        d = cache.get(h)
        if d is None:
            pre = [ev.lin(e) for e in h.pre]
            d = cache[h] = shims.real_digest(h.alg, h.params, pre)
        return d[k]
    return T.Eval(model, dig)


def realise(path, model, extra=()):
    '''
    adjust a model so that the path condition (and extra) holds with the real
    hash functions; None if that cannot be done
    '''
    conds = list(path.conds) + list(extra)
    ev = real_eval(model)
    if all(ev.bool(c) for c in conds):
        return model
    model = dict(model)
    used = set()
    for c in conds:
        for a in T.bool_vars(c):
            if a.kind == 'dig':
                used.add(a.args[0])
    fixed = []
    for h in sorted(used, key=lambda h: h.id):
        ev = real_eval(model)
        pre = [ev.lin(e) for e in h.pre]
        real = shims.real_digest(h.alg, h.params, pre)
        for e, v in zip(h.pre, pre):
            if type(e) is not int:
                fixed.append(T.eq0(T.sub(e, v)))
        for k in range(h.n):
            fixed.append(T.eq0(T.sub(h.digit(k), real[k])))
        vs = set()
        for c in fixed:
            vs |= T.bool_vars(c)
        try:
            m = S.query(S.relevant(conds + fixed, vs), timeout=10000)
        except S.Unknown:
            return None
        if m is None:
            return None
        model.update(m)
    ev = real_eval(model)
    if all(ev.bool(c) for c in conds):
        return model
    return None


def native_run(fn, params, inputs, modname):
    ld = native_loader()
    rt = NatRT(inputs, ld)
    f = getattr(ld.load(modname), fn)
    try:
        f(rt, **params)
    except NoInput:
        rt.events.append(('no input',))
    except SkipRest:
        rt.events.append(('skip',))
    except Failed:
        pass
    except Exception as e:
        rt.failed.append('raised ' + type(e).__name__)
        rt.why = traceback.format_exc()[-800:]
    return rt


def norm_events(evs):
    return [e for e in evs]


def compare(path, rt, ev, full):
    '''first difference between the predicted and the native trace, or None'''
    pe = path.events
    ne = rt.events
    for i, e in enumerate(pe):
        if i >= len(ne):
            return 'native run ended early, expected %r' % (e,)
        n = ne[i]
        if e[0] != n[0]:
            return 'event %d: predicted %r, native %r' % (i, e[:2], n[:2])
        if e[0] == 'exc':
            if e[1] != n[1]:
                return 'event %d: predicted exception %s, native %s' % (
                    i, e[1], n[1])
        elif e[0] == 'ok':
            if e[1] is None:
                continue
            v = concretise(e[1], ev)
            if v != n[1]:
                return 'event %d: predicted %r, native %r' % (i, v, n[1])
        elif e[0] == 'obs':
            v = concretise(e[2], ev)
            if e[1] != n[1] or v != n[2]:
                return 'observation %s: predicted %r, native %r' % (
                    e[1], v, n[2])
        elif e[0] == 'check':
            if e[1] != n[1]:
                return 'check order: %s / %s' % (e[1], n[1])
    if full and len(ne) > len(pe):
        return 'native run has extra events: %r' % (ne[len(pe)],)
    return None


def show_inputs(inputs):
    out = {}
    for k, v in inputs.items():
        if isinstance(v, (bytes, bytearray)):
            out[k] = v.hex()
        else:
            out[k] = v
    return out


def encode_inputs(inputs):
    out = {}
    for k, v in inputs.items():
        if isinstance(v, bytearray):
            out[k] = {'bytearray': bytes(v).hex()}
        elif isinstance(v, bytes):
            out[k] = {'bytes': v.hex()}
        else:
            out[k] = {'value': v}
    return out


def decode_inputs(d):
    out = {}
    for k, v in d.items():
        if 'bytearray' in v:
            out[k] = bytearray(bytes.fromhex(v['bytearray']))
        elif 'bytes' in v:
            out[k] = bytes.fromhex(v['bytes'])
        else:
            out[k] = v['value']
    return out


def setup_real_blake():
    ld = native_loader()

    def real(bits, params, pre):
        m = ld.load('riemann.blake256')
        if bits == 256:
            return m.blake_hash(pre)
        b = m.BLAKE(bits)
        return b.final(pre)
    shims.REAL_BLAKE = real


def run_case(modname, case, budget=None, max_paths=20000, known=()):
    '''case: dict(name, fn, params, real_blake?)'''
    t0 = time.time()
    T.UNWRAP = bool(shared.UNWRAP.value)
    try:
        return run_once(modname, case, budget, max_paths, known)
    except S.Unwrap:
        T.UNWRAP = True
        shared.UNWRAP.value = 1
        if budget is not None:
            budget = max(60, budget - (time.time() - t0))
        return run_once(modname, case, budget, max_paths, known)
    finally:
        T.UNWRAP = False


def run_once(modname, case, budget, max_paths, known):
    T.reset()
    del T.WRAPPED[:]
    S.CACHE.clear()
    V.HashNode.memo.clear()
    V.Tok.memo.clear()
    hooks.FUNCS.clear()
    S.STATS.__init__()
    P.COUNT.__init__()
    setup_real_blake()
    res = CaseResult(case['name'])
    t0 = time.time()
    fn, params = case['fn'], case.get('params', {})
    stack = [([], {})]
    fails_seen = {}
    first = None

    def deadline():
        if budget is not None and time.time() - t0 > budget:
            raise P.OutOfBudget('case budget of %d s exceeded' % budget)

    while stack:
        prefix, model = stack.pop()
        path = P.Path(prefix, model)
        P.CURRENT = path
        path.deadline = deadline
        complete = False
        try:
            rt = SymRT(path, case.get('real_blake', False))
            f = getattr(rt.mod(modname), fn)
            f(rt, **params)
            complete = True
            end = 'end'
        except P.Stop:
            end = 'stopped at a violated assertion'
        except P.Infeasible:
            res.infeasible += 1
            end = 'infeasible'
        except (P.Unsupported, T.NegativeBits, T.EmptyTable) as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ['%s:%d' % (x.filename.split('/')[-1], x.lineno)
                     for x in tb if 'symex' not in x.filename][-2:]
            res.errors.append('unsupported: %s %s at %s'
                              % (type(e).__name__, e, where))
            end = 'unsupported'
        except (S.Unknown, P.OutOfBudget) as e:
            res.errors.append('inconclusive: %s' % e)
            end = 'inconclusive'
        except P.MergeAbort:
            res.errors.append('internal: stray merge abort')
            end = 'internal'
        except Exception as e:
            # a crash of the harness itself: only real if it happens natively
            tb = traceback.format_exc()
            res.errors.append('harness raised %s: %s\n%s'
                              % (type(e).__name__, e, tb[-1500:]))
            end = 'harness error'
        res.paths += 1
        res.ends[end] = res.ends.get(end, 0) + 1
        res.checks += len(path.labels)
        res.labels.update(path.labels)
        stack.extend(path.alts)
        if end == 'infeasible':
            continue
        # violated assertions: replay natively
        for label, bad in path.fails:
            if fails_seen.get(label, 0) >= 3:
                continue
            fails_seen[label] = fails_seen.get(label, 0) + 1
            confirm(res, path, label, bad, fn, params, modname)
        if path.fails and not complete:
            continue
        # conformance: the path's witness, natively
        if end in ('end',):
            try:
                m = realise(path, path.model)
            except S.Unknown:
                m = None
            if m is None:
                res.unrealised += 1
            else:
                ev = real_eval(m)
                inputs = inputs_of(path, ev)
                try:
                    nat = native_run(fn, params, inputs, modname)
                except Exception as e:
                    res.errors.append('native run raised %s: %s on %r'
                                      % (type(e).__name__, e,
                                         show_inputs(inputs)))
                    continue
                if nat.failed:
                    for label in nat.failed[:1]:
                        if fails_seen.get(label, 0) < 3:
                            fails_seen[label] = fails_seen.get(label, 0) + 1
                            add_violation(res, label, inputs, fn, params,
                                          modname)
                    continue
                diff = compare(path, nat, ev, True)
                if diff is not None:
                    res.errors.append('encoding does not match the code: %s'
                                      ' on %r' % (diff, show_inputs(inputs)))
                else:
                    res.validated += 1
                    if len(res.samples) < 3:
                        res.samples.append(show_inputs(inputs))
        elif end in ('unsupported', 'harness error', 'inconclusive'):
            # still informative: does the real code fail on this prefix?
            ev = real_eval(path.model)
            inputs = inputs_of(path, ev)
            try:
                nat = native_run(fn, params, inputs, modname)
                for label in nat.failed[:1]:
                    add_violation(res, label, inputs, fn, params, modname)
            except KeyError:
                pass
            except Exception as e:
                res.errors.append('native: %s: %s' % (type(e).__name__, e))
        if len(res.errors) > 5 or sum(fails_seen.values()) > 12:
            if res.violations:
                break
            if len(res.errors) > 5:
                break
        if any((v['case'], v['label'].replace(' ', '_')) not in known
               for v in res.violations):
            first = first or time.time()
            if time.time() - first > 20:
                break
        if res.paths >= max_paths:
            res.errors.append('inconclusive: more than %d paths' % max_paths)
            break
        if budget is not None and time.time() - t0 > budget and stack:
            res.errors.append('inconclusive: case budget of %d s exceeded'
                              % budget)
            break
    res.wall = time.time() - t0
    st = S.STATS
    res.stats = {'queries': st.queries, 'sat': st.sat, 'unsat': st.unsat,
                 'cached': st.cached, 'solver_s': st.time,
                 'max_query_s': st.max_time,
                 'decisions': P.COUNT.decisions,
                 'implied': P.COUNT.implied,
                 'checks': P.COUNT.checks, 'syntactic': P.COUNT.trivial,
                 'proved': P.COUNT.proved, 'digests': P.COUNT.hashes}
    res.functions = {x for x in hooks.FUNCS if x.startswith('riemann')}
    res.error_free = not res.errors
    return res


def confirm(res, path, label, bad, fn, params, modname):
    tried = []
    for attempt in (0, 1):
        m = bad
        if attempt:
            try:
                m = realise(path, bad)
            except S.Unknown:
                m = None
            if m is None:
                break
        ev = real_eval(m)
        inputs = inputs_of(path, ev)
        try:
            nat = native_run(fn, params, inputs, modname)
        except Exception as e:
            tried.append('native run raised %s: %s' % (type(e).__name__, e))
            continue
        if nat.failed:
            add_violation(res, label if label in nat.failed
                          else nat.failed[0], inputs, fn, params, modname)
            return
        tried.append('native run passes on %r' % show_inputs(inputs))
    res.errors.append('counterexample for %s did not reproduce: %s'
                      % (label, tried))


def add_violation(res, label, inputs, fn, params, modname):
    res.violations.append({
        'case': res.name, 'label': label, 'module': modname, 'fn': fn,
        'params': params, 'inputs': encode_inputs(inputs)})
