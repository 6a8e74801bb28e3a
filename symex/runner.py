'''Runs the cases of a property in parallel, writes evidence, reports.'''
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
from . import shared     # noqa: F401

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')


def _work(args):
    modname, case, budget, known = args
    from . import engine
    try:
        r = engine.run_case(modname, case, budget, known=known)
    except MemoryError:
        r = engine.CaseResult(case['name'])
        r.errors.append('out of memory')
    except BaseException as e:
        import traceback
        r = engine.CaseResult(case['name'])
        r.errors.append('engine failure: %s\n%s'
                        % (e, traceback.format_exc()[-2500:]))
    return r


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('KNOWN-FINDING:'):
                    continue
                head, _, text = line[len('KNOWN-FINDING:'):].partition('|')
                kv = dict(x.split('=', 1) for x in head.split())
                if kv.get('property') == prop:
                    out.append((kv.get('case', ''), kv.get('label', ''),
                                text.strip()))
    return out


def is_known(known, v):
    for k in known:
        if k[0] == v['case'] and k[1] == v['label'].replace(' ', '_'):
            return k
    return None


def run(prop, modname, tier, jobs=8, only=None, budget=None, verbose=False):
    t0 = time.time()
    sys.path.insert(0, ROOT)
    h = importlib.import_module(modname)
    cases = h.CASES[prop](tier)
    names = [c['name'] for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    if only:
        cases = [c for c in cases if only in c['name']]
    case_budget = budget or (700 if tier == 'quick' else 3000)
    names = frozenset(k[:2] for k in known_findings(prop))
    work = [(modname, c, case_budget, names) for c in
            sorted(cases, key=lambda c: -c.get('cost', 1))]
    results = []
    found = False
    limit = 820 if tier == 'quick' else 6 * 3600
    if jobs > 1 and len(work) > 1:
        ctx = mp.get_context('fork')
        pool = ctx.Pool(min(jobs, len(work)), maxtasksperchild=60)
        it = pool.imap_unordered(_work, work, 1)
        known = known_findings(prop)
        for _ in range(len(work)):
            try:
                r = it.next(timeout=max(1, limit - (time.time() - t0)))
            except mp.TimeoutError:
                if found:
                    pool.terminate()
                    break
                from . import engine
                r = engine.CaseResult('(all)')
                r.errors.append('inconclusive: time limit reached')
                results.append(r)
                pool.terminate()
                break
            results.append(r)
            if verbose:
                show(r)
            if not found and any(not is_known(known, v)
                                 for v in r.violations):
                # the verdict is there: a little more time for others
                found = True
                limit = min(limit, time.time() - t0 + 8)
        pool.terminate()
        pool.join()
    else:
        for w in work:
            r = _work(w)
            results.append(r)
            if verbose:
                show(r)
    return report(prop, tier, h, cases, results, time.time() - t0)


def show(r):
    st = r.stats
    print('  %-40s %6.2fs paths=%d ok=%d unreal=%d checks=%d q=%d/%.1fs '
          'v=%d e=%d %s' % (
              r.name, r.wall, r.paths, r.validated, r.unrealised,
              st.get('checks', 0), st.get('queries', 0),
              st.get('solver_s', 0), len(r.violations), len(r.errors),
              r.ends), flush=True)
    for v in r.violations[:2]:
        print('     VIOL', v['label'], v['inputs'], flush=True)
    for e in r.errors[:3]:
        print('     ERR', e[:1500], flush=True)


def report(prop, tier, h, cases, results, wall):
    known = known_findings(prop)
    viol, seen_known, errors = [], {}, []
    tot = {}
    fns = set()
    labels = set()
    paths = validated = unreal = infeasible = 0
    samples = []
    for r in results:
        paths += r.paths
        infeasible += r.infeasible
        validated += r.validated
        unreal += r.unrealised
        fns |= r.functions
        labels |= r.labels
        for k, v in r.stats.items():
            if k.startswith('max'):
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
        for s in r.samples[:1]:
            if len(samples) < 12:
                samples.append({'case': r.name, 'inputs': s})
        for v in r.violations:
            k = is_known(known, v)
            if k:
                seen_known[k[:2]] = k[2]
            else:
                viol.append(v)
        for e in r.errors:
            errors.append('%s: %s' % (r.name, e))
        # a case none of whose paths ends normally decides nothing
        if not r.errors and not r.violations \
                and not (r.ends.get('end') and r.stats.get('checks')):
            errors.append('%s: vacuous (%s)' % (r.name, r.ends))
    os.makedirs(EVID, exist_ok=True)
    rep = None
    if viol:
        viol.sort(key=lambda v: len(json.dumps(v['inputs'])))
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        rep = os.path.join(EVID, 'replay', prop + '.json')
        with open(rep, 'w') as f:
            json.dump(dict(viol[0], property=prop), f, indent=1)
    ev = {
        'property': prop, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking',
        'coverage': {
            'states': max(1, paths),
            'transitions': max(1, tot.get('decisions', 0)),
            'traces_validated_against_impl': validated,
            'samples': samples or [{'note': 'no path witness'}],
            'cases': [{'name': r.name, 'paths': r.paths,
                       'wall_s': round(r.wall, 2)} for r in results][:400],
            'case_count': len(results),
            'paths_explored': paths,
            'paths_infeasible': infeasible,
            'path_witnesses_not_realised': unreal,
            'assertions_checked': tot.get('checks', 0),
            'assertions_discharged_by_term_rewriting':
                tot.get('syntactic', 0),
            'assertions_discharged_by_solver': tot.get('proved', 0),
            'solver_queries': tot.get('queries', 0),
            'solver_sat': tot.get('sat', 0),
            'solver_unsat': tot.get('unsat', 0),
            'solver_time_s': round(tot.get('solver_s', 0), 2),
            'slowest_query_s': round(tot.get('max_query_s', 0), 3),
            'uninterpreted_digests': tot.get('digests', 0),
            'functions_encoded': sorted(fns),
            'assertion_labels': sorted(x for x in labels
                                       if not x.startswith('note:'))[:200],
            'bounds': getattr(h, 'BOUNDS', {}).get(prop, ''),
            'known_findings_seen': sorted('%s/%s' % k for k in seen_known),
            'errors': errors[:20],
        },
        'wall_s': round(wall, 2),
        'assumptions': [
            'hash functions are uninterpreted and collision free: digests '
            'of one algorithm are equal exactly when their pre-images are',
            'the term library, the models of builtins and Z3 are right; '
            'every explored path is also run natively on a witness and the '
            'traces compared',
            'bounds as stated in coverage.bounds; nothing is claimed '
            'outside them'],
        'violations': len(viol),
    }
    ev['coverage']['violating'] = [
        {'case': v['case'], 'label': v['label'],
         'inputs': v['inputs']} for v in viol[:10]]
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for (c, l), text in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s case=%s label=%s %s'
              % (prop, c, l, text))
    print('%s %s: %d cases, %d paths (%d witnesses replayed, %d not '
          'realised), %d assertions, %d queries, %.1f s solver, %.1f s wall'
          % (prop, tier, len(results), paths, validated, unreal,
             tot.get('checks', 0), tot.get('queries', 0),
             tot.get('solver_s', 0), wall))
    if viol:
        for v in viol[:5]:
            print('  violated: case %s, assertion %s, inputs %s'
                  % (v['case'], v['label'],
                     json.dumps(v['inputs'])[:600]))
        # final word: a fresh interpreter on the unmodified code
        ok = confirm_fresh(rep)
        if ok:
            print('VIOLATION property=%s replay=%s' % (prop, rep))
            return 1
        errors.append('violation did not reproduce in a fresh interpreter')
    if errors:
        for e in errors[:8]:
            print('ERROR ' + e[:1500])
        return 2
    return 0


def confirm_fresh(rep):
    import subprocess
    p = subprocess.run([sys.executable, os.path.join(ROOT, 'replay.py'), rep],
                       capture_output=True, text=True, timeout=300)
    sys.stdout.write(''.join('  replay: ' + x + '\n'
                             for x in p.stdout.splitlines()[-6:]))
    return p.returncode == 1
