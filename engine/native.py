"""Native execution of contracts by CPython on the real code.

Used to replay counterexamples of the verifier and for run time contract
checking on random inputs (labelled bounded, never counted as proof).
"""
import argparse
import importlib
import json
import os
import queue
import random
import re
import signal
import sys
import threading
import time
import traceback
import uuid

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'contracts')]
if sys.path[0] != SRC:
    sys.path.insert(0, SRC)

import vapi                                                     # noqa

WORDS = ['', 'a', 'b', 'c', 'foo', 'bar', 'x_y', 'ab', '__', '____', '__x__',
         '__attrs__', '__children__', '_', u'\xe4', '0', '1']
WORD_W = None


def literals():
    """String literals of the code under contract as generator hints."""
    words = set()
    for root, dirs, files in os.walk(os.path.join(SRC, 'node')):
        if 'tests' in root or 'testing' in root:
            continue
        for f in files:
            if f.endswith('.py'):
                with open(os.path.join(root, f)) as fd:
                    for m in re.finditer(r"'([^'\\\n]{1,16})'", fd.read()):
                        words.add(m.group(1))
    return sorted(words)


class Exhausted(Exception):
    pass


class Native(object):

    def __init__(self, rng=None, script=None, words=()):
        self.rng = rng
        self.script = list(script) if script is not None else None
        self.words = words
        self.log = []
        self.seen = []
        self.covers = set()
        self.ensures = 0
        self.refs = {}
        self.gen = []
        self.ids = set()
        self.fns = {}
        self.kids = 0

    def take(self):
        if not self.script:
            raise Exhausted()
        return self.script.pop(0)

    def rec(self, v):
        self.log.append(v)
        return v

    # -- scalars

    def any_bool(self):
        if self.script is not None:
            return self.rec(bool(self.take()))
        return self.rec(self.rng.random() < .5)

    def any_int(self, lo, hi):
        if self.script is not None:
            return self.rec(self.take())
        lo_, hi_ = -3 if lo is None else lo, 5 if hi is None else hi
        if hi_ < lo_:
            hi_ = lo_ + 8
        v = self.rng.choice([lo_, hi_, self.rng.randint(lo_, hi_)])
        return self.rec(v)

    def rand_str(self):
        r = self.rng
        c = r.random()
        if self.seen and c < .35:
            return r.choice(self.seen)
        if c < .75:
            return r.choice(WORDS)
        if c < .85 and self.words:
            return r.choice(self.words)
        if c < .9:
            return u''.join(r.choice(u'ab_/.:<>\xdf ') for i in
                            range(r.randint(0, 6)))
        if c < .95 and self.seen:
            return r.choice(self.seen) + r.choice(WORDS)
        return r.choice(WORDS) + r.choice(WORDS)

    def any_str(self):
        if self.script is not None:
            return self.rec(self.take())
        s = self.rand_str()
        self.seen.append(s)
        return self.rec(s)

    def rand_plain(self):
        s = self.rand_str()
        while s.startswith('__') and s.endswith('__'):
            s = self.rand_str()
        self.seen.append(s)
        return s

    def any_key(self):
        return self.any_value(('none', 'int', 'str'))

    def any_value(self, kinds):
        kinds = kinds_of(kinds)
        if len(kinds) == 1:
            k = kinds[0]
            if k == 'none':
                if self.script is not None:
                    self.take()
                return self.rec(None)
            if k == 'bool':
                return self.any_bool()
            if k == 'int':
                return self.any_int(None, None)
            if k == 'id':
                if self.script is not None:
                    return self.rec(self.take())
                return self.rec(self.rng.choice(
                    [0, 1, 2] + 6 * [self.rng.getrandbits(128)]))
            if k == 'str':
                return self.any_str()
            if k == 'raw':
                return None
            if k == 'plain':
                if self.script is not None:
                    return self.rec(self.take())
                return self.rec(self.rand_plain())
            if isinstance(k, type):
                return self.any_obj(k)
        classes = [k for k in kinds if isinstance(k, type)]
        if classes:
            opts = [k for k in kinds if not isinstance(k, type)]
            n = self.branch(len(classes) + (1 if opts else 0))
            if n < len(classes):
                return self.any_obj(classes[n])
            return self.any_value(tuple(opts))
        if self.script is not None:
            v = self.take()
            self.log.append(v)
            if isinstance(v, dict):
                return self.ref(v['ref'], v.get('truth', True))
            return v
        k = self.rng.choice(kinds)
        if k == 'obj':
            i = -self.rng.randint(1, 4)
            o = self.ref(i, i != -1)
            self.log.append({'ref': i, 'truth': o.truth})
            return o
        if k == 'plain':
            return self.rec(self.rand_plain())
        if k == 'str':
            s = self.rand_str()
            self.seen.append(s)
            return self.rec(s)
        if k == 'none':
            return self.rec(None)
        if k == 'bool':
            return self.rec(self.rng.random() < .5)
        return self.rec(self.rng.choice([-1, 0, 1, 2, 3, 1000]))

    def ref(self, i, truth=True):
        if i not in self.refs:
            self.refs[i] = vapi.Opaque()
            self.refs[i].truth = truth
        return self.refs[i]

    def any_bytes(self, enc, valid):
        if valid is None:
            valid = not self.branch(2)
        if valid:
            return self.any_str().encode(enc)
        if self.script is not None:
            self.take()
        self.log.append(None)
        return b'\xff\xfe\xe4'

    def any_uuid(self):
        if self.script is not None:
            return uuid.UUID(int=self.rec(self.take()))
        v = self.rng.choice([0, 1, 2, self.rng.getrandbits(128),
                             self.rng.getrandbits(128)])
        return uuid.UUID(int=self.rec(v))

    def any_obj(self, cls):
        o = cls.__new__(cls)
        self.gen.append((o, None))
        for name, spec in getattr(cls, '__fields__', {}).items():
            kinds = spec if isinstance(spec, tuple) else (spec,)
            if kinds == ('uuid',):
                v = self.any_uuid()
            elif kinds[0] == 'map':
                v = self.any_map({}, kinds[1], kinds[2])
            else:
                v = self.any_value(kinds)
            object.__setattr__(o, name, v)
            if name in getattr(cls, '__exclusive__', ()):
                new = [v.int] if kinds == ('uuid',) else \
                    list(v) if kinds[0] == 'map' else []
                if self.ids & set(new):
                    raise vapi.AssumeFailed()
                self.ids |= set(new)
        i = [x[0] is o for x in self.gen].index(True)
        self.gen[i] = (o, dict(o.__dict__))
        return o

    def any_map(self, m, keys, vals, named=False):
        kk = keys if isinstance(keys, tuple) else (keys,)
        vk = vals if isinstance(vals, tuple) else (vals,)
        if self.script is not None:
            n = self.take()
        else:
            n = self.size()
        self.log.append(n)
        pos = len(self.log) - 1
        for i in range(n):
            mark = len(self.log)
            for attempt in range(8):
                k = self.any_value(kk)
                if k not in m or self.script is not None:
                    break
                del self.log[mark:]
            if k in m:
                if self.script is not None:
                    raise vapi.AssumeFailed()
                del self.log[mark:]
                self.log[pos] -= 1
                continue
            m[k] = v = self.any_value(vk)
            if named:
                v.__name__ = k
                self.gen = [(o, dict(o.__dict__)) for o, d in self.gen]
        return m

    def size(self):
        return self.rng.choice([0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4,
                                5, 9])

    def any_list(self, vals):
        vk = vals if isinstance(vals, tuple) else (vals,)
        if self.script is not None:
            n = self.take()
        else:
            n = self.size()
        self.log.append(n)
        return [self.any_value(vk) for i in range(n)]

    def any_chain(self, classes, low):
        if self.script is not None:
            n = self.take()
        else:
            n = low + self.rng.choice([0, 0, 1, 1, 2, 3, 4])
        self.log.append(n)
        out = [self.any_obj(classes[self.branch(len(classes))])
               for i in range(n)]
        prev = None
        for i, o in enumerate(out):
            o.__parent__ = out[i + 1] if i + 1 < n else None
            if '__child__' in type(o).__fields__:
                object.__setattr__(o, '__child__', prev)
            prev = o
        self.gen = [(o, dict(o.__dict__)) for o, d in self.gen]
        return out

    def any_path(self, names):
        for x in names:
            vapi.assume(isinstance(x, str) and x and '/' not in x)
        a, b = self.branch(3), self.branch(3)
        return '/' * a + '/'.join(names) + '/' * b

    def any_pairs(self, keys, vals):
        kk = keys if isinstance(keys, tuple) else (keys,)
        vk = vals if isinstance(vals, tuple) else (vals,)
        if self.script is not None:
            n = self.take()
        else:
            n = self.size()
        self.log.append(n)
        return [(self.any_value(kk), self.any_value(vk)) for i in range(n)]

    def pure(self, name, kinds, args):
        key = (name,) + tuple(
            (type(x if not isinstance(x, bool) else 0), x) if isinstance(
                x, (str, bytes, int, float, type(None)))
            else id(x) for x in args)
        if key not in self.fns:
            kk = kinds if isinstance(kinds, tuple) else (kinds,)
            self.fns[key] = (self.any_value(kk), args)
        return self.fns[key][0]

    def branch(self, n):
        if self.script is not None:
            return self.rec(self.take())
        return self.rec(self.rng.randrange(n))

    def pick(self, seq):
        seq = list(seq)
        if not seq:
            raise vapi.AssumeFailed()
        if self.script is not None:
            i = self.take()
        else:
            i = self.rng.randrange(len(seq))
        self.log.append(i)
        return seq[i]

    # -- conditions

    def passed(self, label):
        self.ensures += 1

    def cover(self, label):
        self.covers.add(label)

    def untouched(self, label, but):
        self.passed(label)
        for o, d in self.gen:
            if any(o is b for b in but) or d is None:
                continue
            if set(o.__dict__) != set(d) or any(
                    not vapi.same(o.__dict__[k], d[k]) for k in d):
                raise vapi.EnsureFailed(label, '%r was %r' % (o.__dict__, d))

    def in_thread(self, name, f, args):
        w = WORKERS.get(name)
        if w is None:
            w = WORKERS[name] = Worker(name)
        return w.call(f, args)

    def meanwhile(self, name, f, args):
        w = WORKERS.get(name)
        if w is None:
            w = WORKERS[name] = Worker(name)
        return w.start(f, args, .05)

    def proceed(self, name):
        return WORKERS[name].result()

    def lock_held(self, lock):
        box = []

        def run():
            if lock.acquire(False):
                lock.release()
                box.append(0)
            else:
                box.append(1)
        t = threading.Thread(target=run)
        t.start()
        t.join(20)
        return box[0]


def kinds_of(kinds):
    out = []
    for k in kinds or ('any',):
        if k == 'any':
            out.extend(('none', 'bool', 'int', 'str', 'obj'))
        elif k == 'key':
            out.extend(('none', 'int', 'str'))
        elif k == 'regular':
            out.extend(('none', 'int', 'plain'))
        elif isinstance(k, tuple):
            out.extend(kinds_of(k))
        else:
            out.append(k)
    return tuple(dict.fromkeys(out))


def setup_notify():
    """Record zope events like the trusted contract of the verifier does."""
    import zope.component.event
    import zope.event

    def handler(event):
        vapi.notified.append(event)
        for f in list(vapi.observers):
            f(event)
    zope.event.subscribers.append(handler)
    # object events go through zope.component
    from zope.component import provideHandler
    from zope.interface import Interface
    from zope.interface.interfaces import IObjectEvent

    def ohandler(ob, event):
        vapi.notified.append(event)
        for f in list(vapi.observers):
            f(event)
    provideHandler(ohandler, [Interface, IObjectEvent])


WORKERS = {}


class Worker(object):
    """Thread of a contract, executes one call after the other."""

    def __init__(self, name):
        self.todo = queue.Queue()
        self.done = queue.Queue()
        self.thread = threading.Thread(target=self.run, name=name)
        self.thread.daemon = True
        self.thread.start()

    def run(self):
        while True:
            job = self.todo.get()
            if job is None:
                return
            f, args = job
            try:
                self.done.put(('ok', f(*args)))
            except Exception as e:
                self.done.put(('exc', e))
            except BaseException as e:
                self.done.put(e)

    last = None

    def start(self, f, args, secs):
        self.todo.put((f, args))
        self.last = None
        try:
            self.last = self.done.get(timeout=secs)
        except queue.Empty:
            return ('blocked', None)
        return self.result()

    def result(self):
        if self.last is None:
            try:
                self.last = self.done.get(timeout=20)
            except queue.Empty:
                raise vapi.EnsureFailed(
                    'thread %s terminates' % self.thread.name)
        if isinstance(self.last, BaseException):
            raise self.last
        return self.last

    def call(self, f, args):
        r = self.start(f, args, 20)
        if r[0] == 'blocked':
            raise vapi.EnsureFailed(
                'thread %s terminates' % self.thread.name)
        return r


def stop_workers():
    for w in WORKERS.values():
        w.todo.put(None)
    for w in WORKERS.values():
        w.thread.join(1)
    WORKERS.clear()


def run_one(c, nat):
    try:
        return run_contract(c, nat)
    finally:
        stop_workers()


def run_contract(c, nat):
    """None if contract held, else (kind, label, detail)."""
    vapi.native = nat
    del vapi.notified[:]
    del vapi.observers[:]
    try:
        c.fn()
    except vapi.AssumeFailed:
        return ('skip', '', '')
    except vapi.Outside as e:
        return ('outside', 'outside', str(e))
    except Exhausted:
        return ('skip', 'script exhausted', '')
    except vapi.EnsureFailed as e:
        return ('fail', e.label, str(e.detail)[:500])
    except RecursionError:
        return ('fail', 'no unbounded recursion', '')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any(f.filename.startswith(os.path.join(SRC, 'node'))
                     for f in tb)
        detail = ''.join(traceback.format_exception_only(type(e), e)).strip()
        detail += ' at ' + ' < '.join('%s:%s' % (
            os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        if inside:
            return ('fail', 'no unexpected exception', detail)
        return ('error', 'contract error', detail)
    return ('ok', '', '')


def load(prop):
    importlib.import_module(prop.lower())
    return vapi.REGISTRY[prop]


class Timeout(BaseException):
    pass


def on_alarm(*a):
    raise Timeout()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--random', type=float)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--contract', action='append')
    a = ap.parse_args()
    out = {'contracts': {}}
    contracts = load(a.prop)
    setup_notify()
    signal.signal(signal.SIGALRM, on_alarm)
    if a.replay:
        with open(a.replay) as f:
            jobs = json.load(f)
        res = []
        by = {c.name: c for c in contracts}
        for j in jobs:
            nat = Native(script=j['script'])
            signal.alarm(30)
            try:
                r = run_one(by[j['contract']], nat)
            except Timeout:
                r = ('fail', 'terminates', 'no result after 30 s')
            signal.alarm(0)
            res.append({'contract': j['contract'], 'label': j.get('label'),
                        'script': j['script'], 'result': r})
        out['replays'] = res
    else:
        words = literals()
        todo = [c for c in contracts
                if not a.contract or c.name in a.contract]
        todo = [c for c in todo if not c.opts.get('native') is False]
        for c in todo:
            rng = random.Random('%s %s' % (a.seed, c.name))
            t0 = time.time()
            share = a.random / max(1, len(todo))
            st = {'runs': 0, 'skipped': 0, 'ensures': 0, 'covers': set(),
                  'failures': [], 'errors': []}
            while time.time() - t0 < share and len(st['failures']) < 3 and \
                    len(st['errors']) < 3 and st['runs'] < 4000:
                nat = Native(rng=rng, words=words)
                signal.alarm(30)
                try:
                    r = run_one(c, nat)
                except Timeout:
                    r = ('fail', 'terminates', 'no result after 30 s')
                signal.alarm(0)
                if r[0] == 'outside':
                    st['errors'].append('does not apply: ' + r[2])
                    break
                if r[0] == 'skip':
                    st['skipped'] += 1
                    if st['skipped'] > 200000:
                        break
                    continue
                st['runs'] += 1
                st['ensures'] += nat.ensures
                st['covers'] |= nat.covers
                if r[0] == 'fail':
                    key = r[1]
                    if key not in [f['label'] for f in st['failures']]:
                        st['failures'].append({
                            'label': r[1], 'detail': r[2],
                            'script': nat.log, 'contract': c.name})
                    elif st['runs'] > 300:
                        break
                if r[0] == 'error':
                    st['errors'].append(r[2])
            st['covers'] = sorted(st['covers'])
            out['contracts'][c.name] = st
    json.dump(out, sys.stdout, default=repr)


if __name__ == '__main__':
    main()
