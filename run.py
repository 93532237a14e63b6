"""Decide one property: discharge its contracts on the current /repo source.

Usage: python3-vt run.py C01 [--tier quick|thorough] [--only CONTRACT]

exit 0 property held on everything explored, exit 1 with VIOLATION line
otherwise, exit 2 if the check itself could not run.
"""
import argparse
import collections
import json
import multiprocessing
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['PYTHONWARNINGS'] = 'ignore'
sys.dont_write_bytecode = True
import warnings                                                 # noqa
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.join(HERE, 'engine'))
import verify                                                   # noqa
import trusted                                                  # noqa

PY = '/opt/venv/bin/python'
NATIVE = os.path.join(HERE, 'engine', 'native.py')

# budget: of one job, cpu: of one contract, wall: of a phase
QUICK = dict(budget=60, grace=30, goal_ms=6000, bounds=(1, 2), native=6,
             cpu=400, wall=150)
THOROUGH = dict(budget=200, grace=60, goal_ms=30000, bounds=(1, 2, 3),
                native=60, cpu=3000, wall=350)


class Pool(object):
    """One process per job, killed at its time limit."""

    def __init__(self, n):
        self.n = n
        self.ctx = multiprocessing.get_context('fork')

    def run(self, todo, fn):
        """todo: list of (key, args, limit).  Yields (key, result).  More
        jobs may be added to todo while running."""
        active = []
        while todo or active:
            while todo and len(active) < self.n:
                key, args, limit = todo.pop(0)
                r, w = self.ctx.Pipe(False)
                p = self.ctx.Process(target=self.child, args=(fn, args, w))
                p.start()
                w.close()
                active.append((key, p, r, time.time() + limit))
            ready = multiprocessing.connection.wait(
                [a[2] for a in active], timeout=.5)
            for a in list(active):
                key, p, r, end = a
                if r in ready:
                    try:
                        res = r.recv()
                    except EOFError:
                        res = {'error': 'worker died'}
                    p.join()
                elif time.time() > end:
                    p.kill()
                    p.join()
                    res = {'error': 'killed after time limit'}
                else:
                    continue
                active.remove(a)
                r.close()
                yield key, res

    @staticmethod
    def child(fn, args, w):
        try:
            res = fn(*args)
        except BaseException as e:
            res = {'error': '%s: %s' % (type(e).__name__, e)}
        try:
            w.send(json.loads(json.dumps(res, default=repr)))
        except BaseException:
            pass
        os._exit(0)


SLICE = 4


def prove(c, bound, budget, goal_ms, start):
    import resource
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    return verify.verify(c, bound, budget, goal_ms=goal_ms, start=start,
                         slice_s=SLICE)


def merge(a, b):
    """Results of different paths of one contract."""
    if a is None or 'obligations' not in b:
        if a is not None:
            b = dict(a, error=b.get('error') or 'no result')
        return b
    if 'obligations' not in a:
        return dict(b, error=a.get('error'))
    r = dict(b)
    r['obligations'] = a['obligations'] + b['obligations']
    r['covers'] = {k: a['covers'].get(k) or b['covers'].get(k)
                   for k in set(a['covers']) | set(b['covers'])}
    r['paths'] = a['paths'] + b['paths']
    r['stats'] = {k: a['stats'].get(k, 0) + b['stats'].get(k, 0)
                  for k in set(a['stats']) | set(b['stats'])}
    r['unsupported'] = sorted(set(a['unsupported'] + b['unsupported']))
    r['truncated'] = a['truncated'] or b['truncated']
    r['functions'] = sorted(set(a['functions']) | set(b['functions']))
    r['error'] = a.get('error') or b.get('error')
    r['wall'] = a['wall'] + b['wall']
    return r


def run_all(pool, jobs, cfg, deadline):
    """jobs: [(contract, bound)]; gives {(name, bound): result}."""
    todo, out = [], {}

    def add(c, b, start):
        todo.append(((c, b), (c, b, cfg['budget'], cfg['goal_ms'], start),
                     cfg['budget'] + cfg['grace']))
    for c, b in jobs:
        add(c, b, None)
    for (c, b), r in pool.run(todo, prove):
        key = (c.name, b)
        out[key] = merge(out.get(key), r)
        res = out[key]
        pending = r.get('pending') or []
        if not pending:
            continue
        if res['unsupported'] or res['truncated'] or res.get('error') or any(
                o['status'] != 'proved' for o in res['obligations']):
            res['truncated'] = res['truncated'] or 'stopped'
            continue
        if res['wall'] > cfg['cpu'] or time.time() > deadline:
            res['truncated'] = 'time budget exhausted'
            continue
        k = min(len(pending), 6)
        for i in range(k):
            add(c, b, pending[i::k])
    return out


def status(r):
    """proved / refuted / open."""
    if r is None or 'obligations' not in r:
        return 'open'
    o = r['obligations']
    if any(x['status'] == 'refuted' for x in o):
        return 'refuted'
    if r.get('error') or r['unsupported'] or r['truncated'] or not o or \
            not r['covers'] or not all(r['covers'].values()) or \
            any(x['status'] != 'proved' for x in o):
        return 'open'
    return 'proved'


def level(contracts):
    """proof if contracts are proved without bound."""
    return 'proof' if any(c.mode == 'proof' and not c.opts.get('limit')
                          for c in contracts) else 'other'


def why_open(r):
    if r is None or 'obligations' not in r:
        return (r or {}).get('error') or 'no result'
    out = []
    if r.get('error'):
        out.append(r['error'].strip().splitlines()[-1])
    out.extend(r['unsupported'])
    if r['truncated']:
        out.append(r['truncated'])
    if not r['obligations']:
        out.append('no obligations')
    out.extend('cover %s not reached' % k
               for k, v in r['covers'].items() if not v)
    out.extend('%s: %s %s' % (x['status'], x['label'], x['detail'])
               for x in r['obligations'] if x['status'] != 'proved')
    return '; '.join(out[:6])


def known_findings():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def native(prop, args, timeout):
    p = subprocess.Popen(
        [PY, '-W', 'ignore', NATIVE, prop] + args, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE)
    return p


def finish(p, timeout):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 'native run timed out'
    try:
        return json.loads(out), ''
    except ValueError:
        return None, err.decode('utf-8', 'replace')[-2000:]


def replay(prop, jobs, out):
    path = os.path.join(out, '%s.jobs.json' % prop)
    with open(path, 'w') as f:
        json.dump(jobs, f)
    res, err = finish(native(prop, ['--replay', path], 0),
                      60 + 31 * len(jobs))
    return res['replays'] if res else None, err


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', action='append')
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    cfg = THOROUGH if a.tier == 'thorough' else QUICK
    prop = a.prop
    t0 = time.time()
    out = os.path.join(HERE, 'evidence')
    os.makedirs(out, exist_ok=True)

    contracts = [c for c in verify.load(prop)
                 if not a.only or c.name in a.only]
    if not contracts:
        print('no contracts for %s' % prop)
        return 2
    by = {c.name: c for c in contracts}

    # -- run time checking of the same contracts by CPython ------------------
    args = ['--random', str(cfg['native']), '--seed', str(a.seed)]
    for n in a.only or ():
        args.extend(['--contract', n])
    nat = native(prop, args, 0)

    # -- deductive runs ----------------------------------------------------------
    pool = Pool(7)
    general, bounded = {}, collections.defaultdict(dict)
    jobs = []
    for c in contracts:
        if c.opts.get('tier', a.tier) != a.tier:
            continue
        if c.mode == 'proof':
            jobs.append((c, None))
        elif c.mode == 'bounded':
            for b in sorted(set([1, c.bound] + (
                    [c.bound + 1] if a.tier == 'thorough' else []))):
                jobs.append((c, b))
    for (name, b), r in run_all(pool, jobs, cfg,
                                t0 + cfg['wall']).items():
        if b is None:
            general[name] = r
        else:
            bounded[name][b] = r
    # what the general proof leaves open: all cases up to a bound
    jobs = [(c, b) for c in contracts for b in cfg['bounds']
            if c.mode == 'proof' and c.opts.get('tier', a.tier) == a.tier
            and status(general.get(c.name)) != 'proved']
    for (name, b), r in run_all(pool, jobs, cfg,
                                time.time() + cfg['wall']).items():
        bounded[name][b] = r

    natres, naterr = finish(nat, cfg['native'] * 3 + 200)
    if natres is None:
        sys.stderr.write('native run failed: %s\n' % naterr)
        return 2

    # -- counterexamples ---------------------------------------------------------
    failures = []       # (contract, label, detail, script or None, output)
    notices = []
    cands = []
    for name in by:
        for b, r in [(None, general.get(name))] + sorted(
                bounded.get(name, {}).items()):
            for o in (r or {}).get('obligations', ()):
                if o['status'] != 'proved' and o['script'] is not None and \
                        (b is not None or o['status'] == 'refuted'):
                    cands.append({'contract': name, 'label': o['label'],
                                  'script': o['script'], 'bound': b,
                                  'status': o['status'],
                                  'detail': o['detail']})
    seen = collections.Counter()
    jobs = []
    for j in cands:
        seen[j['contract'], j['label']] += 1
        if seen[j['contract'], j['label']] <= 3 and \
                by[j['contract']].opts.get('native') is not False:
            jobs.append(j)
    spurious = set()
    confirmed = set()
    if jobs:
        res, err = replay(prop, jobs, out)
        if res is None:
            notices.append('replay failed: %s' % err[-300:])
        for j, r in zip(jobs, res or ()):
            kind, label, detail = r['result']
            if kind == 'fail':
                confirmed.add(j['contract'])
                failures.append((j['contract'], label, detail, j['script'],
                                 'obligation refuted: %s %s' % (
                                     j['label'], j['detail'])))
            else:
                spurious.add(j['contract'])
                notices.append(
                    '%s: counterexample for "%s" not confirmed by the real '
                    'code (%s %s), contract undecided' % (
                        j['contract'], j['label'], kind, label))
    known = [k for k in known_findings() if k['property'] == prop and
             k['kind'] == 'finding']
    known_c = {k['contract'] for k in known}

    # -- obligations which failed without a failing input -------------------------
    def lost(c):
        """Named obligations of the contract which are not accepted."""
        runs = [(None, general.get(c.name))] + sorted(
            bounded.get(c.name, {}).items())
        out = []
        if any(u.startswith('outside') for b, r in runs
               for u in (r or {}).get('unsupported', ())):
            # the contract does not apply to the present code, the contracts
            # on whole trees stand in
            return out
        for b, r in runs:
            if b is not None and c.mode == 'proof':
                continue
            if r is None or 'obligations' not in r:
                continue
            for o in r['obligations']:
                if o['status'] != 'proved' and not any(
                        k['contract'] == c.name and k['label'] == o['label']
                        for k in known):
                    out.append((b, o['label'], '%s %s' % (
                        o['status'], o['detail']), o['script']))
            if not (r['truncated'] or r['unsupported'] or r.get('error')):
                for k, v in r['covers'].items():
                    if not v:
                        out.append((b, k, 'not reachable any longer', None))
        # outside of the subset the verifier accepts, and no case analysis
        # stands in for the proof
        if not out and c.name not in known_c:
            runs = [(b, r) for b, r in runs if r is not None]
            if runs and not any(status(r) == 'proved' for b, r in runs):
                for b, r in runs:
                    if r.get('unsupported'):
                        out.append((b, 'contract accepted by the verifier',
                                    '; '.join(r['unsupported'])[:300], None))
        return out

    known_names = {f[0] for f in failures} | {
        n for n, st in natres['contracts'].items() if st['failures']}
    suspects = [c for c in contracts if c.name not in known_names
                and lost(c)]
    if suspects:
        # solver time outs must not look like failed obligations
        cfg2 = dict(cfg, budget=cfg['budget'] * 2,
                    goal_ms=cfg['goal_ms'] * 4)
        jobs = [(c, None) if c.mode == 'proof' else (c, b)
                for c in suspects for b in (
                    [None] if c.mode == 'proof'
                    else sorted(bounded[c.name]))]
        for (name, b), r in run_all(pool, jobs, cfg2,
                                    time.time() + cfg['wall']).items():
            if b is None:
                general[name] = r
            else:
                bounded[name][b] = r
        for c in suspects:
            for b, label, detail, model in lost(c)[:3]:
                failures.append((
                    c.name, label, detail, None,
                    'obligation not accepted%s, inputs of the verifier: %r'
                    % ('' if b is None else ' at bound %d' % b, model)))
    for j in cands:
        if by[j['contract']].opts.get('native') is False and \
                j['status'] == 'refuted':
            failures.append((j['contract'], j['label'], j['detail'], None,
                             'obligation refuted, inputs %r' % (
                                 j['script'],)))
    for name, st in natres['contracts'].items():
        for f in st['failures']:
            failures.append((name, f['label'], f['detail'], f['script'],
                             'run time contract violation'))
        for e in st['errors'][:2]:
            notices.append('%s: contract not evaluable natively: %s' % (
                name, e))

    # -- known findings --------------------------------------------------------
    new = []
    hit = []
    for f in failures:
        k = [k for k in known if k['contract'] == f[0] and
             k['label'] == f[1]]
        if k:
            if k[0] not in hit:
                hit.append(k[0])
        else:
            new.append(f)
    for k in hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    # -- evidence -----------------------------------------------------------------
    det = []
    nobl = ndis = nb_obl = nb_dis = 0
    solver = collections.Counter()
    solver_s = 0.0
    functions = set()
    labels = set()
    expected = {(k['contract']) for k in hit}
    kf_obl = kf_dis = 0
    for c in contracts:
        g = general.get(c.name)
        d = {'contract': c.name, 'mode': c.mode}
        limit = c.opts.get('limit')
        if limit:
            d['mode'] = 'bounded: ' + limit
        if c.opts.get('tier', a.tier) != a.tier:
            d['mode'] += ', only in the thorough tier'
        elif c.mode == 'proof':
            d['general'] = status(g)
            if status(g) != 'proved':
                d['open'] = why_open(g)
                if c.name not in expected:
                    notices.append('%s: not proved in general: %s' % (
                        c.name, why_open(g)))
        for b, r in sorted(bounded.get(c.name, {}).items()):
            if c.name in expected:
                continue
            d['bound %d' % b] = status(r)
            if status(r) != 'proved':
                d['bound %d open' % b] = why_open(r)
                if c.name not in expected:
                    notices.append('%s: bound %d: %s' % (
                        c.name, b, why_open(r)))
            for o in r.get('obligations', ()):
                nb_obl += 1
                nb_dis += o['status'] == 'proved'
        if g and 'obligations' in g:
            d['obligations'] = len(g['obligations'])
            d['discharged'] = sum(o['status'] == 'proved'
                                  for o in g['obligations'])
            d['paths'] = g['paths']
            d['covers'] = g['covers']
            d['wall_s'] = round(g['wall'], 2)
            if c.name in expected:
                kf_obl += d['obligations']
                kf_dis += d['discharged']
                det.append(d)
                continue
            if limit:
                nb_obl += d['obligations']
                nb_dis += d['discharged']
            else:
                nobl += d['obligations']
            # nothing counts as discharged if exploration was incomplete
            if not limit and (status(g) == 'proved' or not (
                    g['unsupported'] or g['truncated'] or g.get('error'))):
                ndis += d['discharged']
        elif d['mode'] == 'proof':
            nobl += 1
        for r in [g] + list(bounded.get(c.name, {}).values()):
            if not r or 'obligations' not in r:
                continue
            for o in r['obligations']:
                if o['status'] == 'proved':
                    solver[o['solver']] += 1
                labels.add('%s: %s' % (c.name, o['label']))
            solver_s += r['stats'].get('goal_s', 0) + \
                r['stats'].get('feas_s', 0)
            functions.update(r['functions'])
        st = natres['contracts'].get(c.name)
        if st:
            d['native_runs'] = st['runs']
            d['native_conditions'] = st['ensures']
        det.append(d)
    own = [f for f in sorted(functions)
           if not f.startswith(('c0', 'c1', 'c2', 'common.', 'vapi.'))]
    nproof = sum(d.get('general') == 'proved' and d['mode'] == 'proof'
                 for d in det)
    coverage = {
        'obligations': nobl, 'discharged': ndis,
        'checker_cmd': 'python3-vt run.py %s --tier %s' % (prop, a.tier),
        'trusted_base': trusted.BASE + trusted.PROPERTY.get(prop, []),
        'contracts': len(contracts),
        'contracts_proved': nproof,
        'contracts_bounded_only': sum(
            (d.get('general') != 'proved' or d['mode'] != 'proof') and any(
                k.startswith(('bound ', 'general')) and v == 'proved'
                for k, v in d.items()) for d in det),
        'back_ends': dict(solver),
        'solver_time_s': round(solver_s, 2),
        'functions_under_contract': own,
        'bounded': {
            'note': 'case analysis up to the stated container size, not '
                    'counted as proved',
            'obligations': nb_obl, 'discharged': nb_dis},
        'runtime_checks': {
            'note': 'same contracts executed by CPython on random inputs, '
                    'not counted as proved',
            'runs': sum(s['runs'] for s in natres['contracts'].values()),
            'conditions': sum(
                s['ensures'] for s in natres['contracts'].values())},
        'distinct_conditions': len(labels),
        'details': det,
        'notices': notices,
        'known_finding_obligations': {
            'note': 'contracts recorded as known findings, not counted above',
            'obligations': kf_obl, 'discharged': kf_dis},
        'known_findings_hit': [k['what'] for k in hit],
        'evaluations': sum(s['runs'] for s in natres['contracts'].values()),
        'explanation': 'Contracts proved for all inputs count as proof; '
                       'contracts marked bounded or runtime are stand-ins.',
    }
    ev = {'property': prop, 'tier': a.tier, 'seed': a.seed,
          'level': level(contracts), 'coverage': coverage,
          'assumptions': trusted.BASE + trusted.PROPERTY.get(prop, []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if not a.only:
        with open(os.path.join(out, '%s.json' % prop), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)

    for n in notices:
        print('NOTICE: %s' % n[:400])
    print('%s: %d contracts, %d proved, obligations %d/%d, bounded %d/%d, '
          'native runs %d, %.1fs' % (
              prop, len(contracts), nproof, ndis, nobl, nb_dis, nb_obl,
              coverage['runtime_checks']['runs'], time.time() - t0))
    if a.v:
        for d in det:
            print('   ', {k: v for k, v in d.items() if k != 'covers'})

    # vacuity: a proof without obligations is no proof
    if not new and nobl + nb_obl + coverage['runtime_checks']['conditions'] \
            == 0:
        sys.stderr.write('nothing was checked\n')
        return 2
    if new:
        # replayable ones first
        new.sort(key=lambda f: f[3] is None)
        name, label, detail, script, how = new[0]
        path = os.path.join(out, '%s-violation.json' % prop)
        with open(path, 'w') as f:
            json.dump({
                'property': prop, 'contract': name, 'obligation': label,
                'detail': detail, 'how': how, 'script': script,
                'replay_cmd': '%s %s %s --replay <file with the list jobs>' % (
                    PY, NATIVE, prop),
                'jobs': [{'contract': name, 'label': label,
                          'script': script}],
                'all': [{'contract': x[0], 'obligation': x[1],
                         'detail': x[2], 'how': x[4]} for x in new]},
                f, indent=1, default=repr)
        for x in new[:6]:
            print('  failed: %s: %s %s [%s]' % (
                x[0], x[1], str(x[2])[:200], x[4][:160]))
        print('VIOLATION property=%s replay=%s%s' % (
            prop, path, '' if script is not None else
            ' no-failing-input-found'))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
