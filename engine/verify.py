"""Deductive verification of the contracts of one property."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VENV = '/opt/venv/lib/python3.12/site-packages'
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path[:0] = [SRC, HERE, os.path.join(os.path.dirname(HERE), 'contracts')]
sys.path.append(VENV)

import core                                                     # noqa
import interp                                                   # noqa
import intrinsics                                               # noqa
import symapi                                                   # noqa
import vapi                                                     # noqa

interp.INTERPRETED[:] = [
    os.path.join(SRC, 'node') + os.sep,
    os.path.join(os.path.dirname(HERE), 'contracts') + os.sep,
    os.path.join(HERE, 'vapi.py'),
    os.path.join(VENV, 'plumber') + os.sep,
    os.path.join(VENV, 'zope', 'lifecycleevent') + os.sep,
    os.path.join(VENV, 'zope', 'interface', 'interfaces.py'),
]


def verify(c, bound, budget, feas_ms=400, goal_ms=6000, max_paths=3000,
           log_smt=None, start=None, slice_s=None):
    ex = core.Explorer(feas_ms=feas_ms, goal_ms=goal_ms, budget_s=budget,
                       max_paths=max_paths, bound=bound)
    ex.log_smt = log_smt
    if start:
        ex.start = start
    ex.slice_s = slice_s
    for k, v in c.opts.items():
        if k in ('max_while', 'max_depth'):
            setattr(ex, k, v)

    def run(P):
        I = interp.Interp(P, intrinsics.TABLE)
        symapi.SymApi(P, I, bound)
        try:
            I.call(c.fn, [])
        except core.PyRaise as e:
            P.check('no unexpected exception', False,
                    '%s: %s' % (type(e.exc).__name__, e.exc.args))
        except (core.ReturnSig, core.BreakSig, core.ConsumerSig) as e:
            raise core.Unsupported('control flow left the contract')
    t0 = time.time()
    err = None
    try:
        ex.run(run)
    except Exception as e:
        err = ''.join(traceback.format_exception(type(e), e,
                                                 e.__traceback__)[-6:])
        ex.unsupported.append('engine: %s: %s' % (type(e).__name__, e))
    obl = [{'label': o.label, 'status': o.status, 'solver': o.solver,
            'secs': round(o.secs, 4), 'detail': o.detail,
            'script': o.model if o.status != 'proved' else None}
           for o in ex.obligations]
    return {'contract': c.name, 'pending': ex.pending, 'bound': bound, 'obligations': obl,
            'covers': {k: bool(v) for k, v in ex.covers.items()},
            'paths': ex.stats['paths'], 'stats': ex.stats,
            'unsupported': ex.unsupported, 'truncated': ex.truncated,
            'functions': sorted(ex.functions), 'error': err,
            'wall': time.time() - t0}


def load(prop):
    importlib.import_module(prop.lower())
    return vapi.REGISTRY[prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--contract', action='append')
    ap.add_argument('--bound', type=int)
    ap.add_argument('--budget', type=float, default=60)
    ap.add_argument('--json', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    out = []
    for c in load(a.prop):
        if a.contract and c.name not in a.contract:
            continue
        r = verify(c, a.bound, a.budget)
        out.append(r)
        if not a.json:
            n = len(r['obligations'])
            ok = sum(o['status'] == 'proved' for o in r['obligations'])
            print('%-40s %3d/%3d paths %d %.1fs %s %s' % (
                c.name, ok, n, r['paths'], r['wall'],
                r['unsupported'], r['truncated'] or ''))
            for o in r['obligations']:
                if o['status'] != 'proved' or a.v:
                    print('    ', o['status'], o['label'], o['detail'],
                          o['script'], o['secs'])
            if not all(r['covers'].values()):
                print('    uncovered', r['covers'])
            if r['error']:
                print(r['error'])
    if a.json:
        json.dump(out, sys.stdout, default=repr)


if __name__ == '__main__':
    main()
