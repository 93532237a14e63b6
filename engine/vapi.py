"""Contract language.

Contracts are Python functions.  The same text is interpreted symbolically
(every ``any_*`` is an arbitrary value, every ``ensure`` a proof obligation),
or executed natively by CPython for replaying counterexamples and for run time
contract checking.
"""
import io
import sys
import threading

REGISTRY = {}


class Contract(object):

    def __init__(self, prop, fn, bound, mode, opts):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self.bound = bound
        self.mode = mode
        self.opts = opts


def contract(prop, bound=2, mode='proof', **opts):
    """mode: 'proof' unbounded deductive proof, 'bounded' containers up to
    ``bound`` elements, all cases; 'runtime' contract checked at run time
    only.  limit: what else the contract text itself bounds (counted as
    bounded, not as proved)."""
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            Contract(prop, fn, bound, mode, opts))
        return fn
    return deco


class AssumeFailed(BaseException):
    pass


class Outside(BaseException):
    """The code uses what a contract class does not provide."""


def outside(why):
    """The contract does not apply to this code."""
    raise Outside(why)


class EnsureFailed(BaseException):
    def __init__(self, label, detail=''):
        BaseException.__init__(self, label)
        self.label = label
        self.detail = detail


class Opaque(object):
    """An arbitrary object which is no node, true or false."""
    truth = True

    def __bool__(self):
        return self.truth


class Abort(BaseException):
    """Error which is no Exception, like KeyboardInterrupt or SystemExit."""


class MapSpec(object):
    """Immutable mathematical ordered map."""
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m


native = None           # native back end, set by native.py
notified = []           # events notified through the zope event system
observers = []          # called with each event when it is notified


# -- inputs -------------------------------------------------------------------

def any_bool():
    return native.any_bool()


def any_int(lo=None, hi=None):
    return native.any_int(lo, hi)


def any_str():
    return native.any_str()


def any_key():
    """Arbitrary hashable key: text, integer or None."""
    return native.any_key()


def any_value(*kinds):
    """Arbitrary value, default kinds none, bool, int, str, obj."""
    return native.any_value(kinds)


def any_bytes(enc='utf-8', valid=None):
    """Arbitrary bytes, valid: decodable in enc (None: either)."""
    return native.any_bytes(enc, valid)


def any_uuid():
    """Arbitrary uuid."""
    return native.any_uuid()


def any_obj(cls):
    """Arbitrary object of a contract class (``__fields__`` declares it)."""
    return native.any_obj(cls)


def any_map(m, keys='str', vals='any', named=False):
    """Give container m arbitrary contents; returns m.

    named: the ``__name__`` of each value is its key."""
    return native.any_map(m, keys, vals, named)


def any_list(vals='any'):
    """New list of arbitrary length and contents."""
    return native.any_list(vals)


def any_pairs(keys='key', vals='any'):
    """New list of arbitrary length of arbitrary pairs."""
    return native.any_pairs(keys, vals)


def any_chain(classes, low=0):
    """Parent chain of arbitrary length >= low: list of nodes, each one being
    the ``__parent__`` of the one before, the last one has none.  Nodes with
    field ``__child__`` get the previous node."""
    return native.any_chain(classes, low)


def any_path(names, slashes=True):
    """Names joined by slashes, with arbitrary leading and trailing slashes.

    Names are not empty and contain no slash.  Trusted contract of
    str.join/strip/split: strip('/') removes the outer slashes, split('/')
    gives the names."""
    return native.any_path(names)


def pure(name, kinds, *args):
    """Value of an arbitrary function at args: same arguments, same value.

    kinds as for any_value, but no classes.  args: keys and objects."""
    return native.pure(name, kinds, args)


def one_of(*options):
    return options[native.branch(len(options))]


def upto(bound):
    """Arbitrary number 0..bound, decided by case distinction."""
    return native.branch(bound + 1)


def pick(seq):
    """An arbitrary element of a non empty list."""
    return native.pick(seq)


# -- conditions ---------------------------------------------------------------

def assume(cond):
    if not cond:
        raise AssumeFailed()


def ensure(label, cond):
    native.passed(label)
    if not cond:
        raise EnsureFailed(label)


def cover(label):
    native.cover(label)


def same(a, b):
    """Identity of objects, equality of plain values."""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, (str, bytes, int, float)):
        return a == b
    if getattr(type(a), '__module__', '') == 'uuid':
        return a == b
    return False


# -- specification maps ---------------------------------------------------------

def content(m):
    """Contents of a mapping container."""
    return MapSpec([(k, m[k]) for k in m])


def m_empty():
    return MapSpec([])


def m_has(s, k):
    return any(k == x for x, v in s.m)


def m_get(s, k):
    for x, v in s.m:
        if k == x:
            return v
    raise KeyError(k)


def m_put(s, k, v):
    if m_has(s, k):
        return MapSpec([(x, v if x == k else w) for x, w in s.m])
    return MapSpec(s.m + [(k, v)])


def m_del(s, k):
    return MapSpec([(x, w) for x, w in s.m if x != k])


def m_ins(s, ref, k, v, after):
    i = [x for x, w in s.m].index(ref) + (1 if after else 0)
    return MapSpec(s.m[:i] + [(k, v)] + s.m[i:])


def m_swap(s, a, b):
    keys = [x for x, w in s.m]
    i, j = keys.index(a), keys.index(b)
    m = list(s.m)
    m[i], m[j] = m[j], m[i]
    return MapSpec(m)


def m_update(s, pairs):
    """Store all pairs one after the other."""
    for k, v in pairs:
        s = m_put(s, k, v)
    return s


def m_len(s):
    return len(s.m)


def m_keys(s):
    return [k for k, v in s.m]


def m_values(s):
    return [v for k, v in s.m]


def m_items(s):
    return [(k, v) for k, v in s.m]


def m_pos(s, k):
    """Position of a key (also a hint to consider it)."""
    return [x for x, v in s.m].index(k)


def m_key_at(s, i):
    return s.m[i][0]


def ensure_map(label, a, b):
    """Same keys, same order, identical values."""
    native.passed(label)
    ok = len(a.m) == len(b.m) and all(
        x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a.m, b.m))
    if not ok:
        raise EnsureFailed(label, '%r != %r' % (a.m, b.m))


def ensure_seq(label, a, b):
    """Same elements in same order."""
    native.passed(label)
    a, b = list(a), list(b)
    if len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)):
        raise EnsureFailed(label, '%r != %r' % (a, b))


def ensure_all(label, seq, fn):
    """fn holds for every element."""
    native.passed(label)
    for x in seq:
        if not fn(x):
            raise EnsureFailed(label, repr(x))


def ensure_untouched(label, *but):
    """No attribute of a generated object was set, except of objects but."""
    native.untouched(label, but)


# -- helpers shared by all modes (interpreted text) -------------------------------

def outcome(f, *args, **kw):
    try:
        return ('ok', f(*args, **kw))
    except (Exception, Abort) as e:
        return ('exc', e)


def is_ok(r):
    return r[0] == 'ok'


def raised(r, *classes):
    return r[0] == 'exc' and isinstance(r[1], classes)


def raised_exactly(r, cls):
    return r[0] == 'exc' and type(r[1]) is cls


def setitem(o, k, v):
    o[k] = v


def getitem(o, k):
    return o[k]


def delitem(o, k):
    del o[k]


def in_thread(name, f, *args):
    """Run f in thread ``name``; gives its outcome."""
    return native.in_thread(name, f, args)


def printed(f, *args):
    """Outcome of a call and the text printed by it to standard output."""
    out, old = io.StringIO(), sys.stdout
    sys.stdout = out
    try:
        r = outcome(f, *args)
    finally:
        sys.stdout = old
    return r, out.getvalue()


def forget_module(name):
    """Make a submodule as if it had never been imported."""
    parent, _, child = name.rpartition('.')
    sys.modules.pop(name, None)
    if child in getattr(sys.modules.get(parent), '__dict__', {}):
        delattr(sys.modules[parent], child)


def meanwhile(name, f, *args):
    """Run f in thread ``name`` until it is done or has to wait for a lock;
    gives its outcome or ('blocked', None)."""
    return native.meanwhile(name, f, args)


def proceed(name):
    """Outcome of a thread started by meanwhile which had to wait before.

    The verifier runs its function again from the start."""
    return native.proceed(name)


# -- executable contracts of synchronisation primitives ---------------------------

class RLockSpec(object):
    """Reentrant lock: owner and count."""

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = current_thread()
        if self.count and self.owner != me:
            would_block(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count or self.owner != current_thread():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if not self.count:
            self.owner = None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, t, v, tb):
        self.release()


class LockSpec(RLockSpec):

    def acquire(self, blocking=True, timeout=-1):
        if self.count:
            would_block(self)
        self.owner = current_thread()
        self.count += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError('release unlocked lock')
        self.count = 0
        self.owner = None


class WouldBlock(BaseException):
    """The thread would wait for the lock."""


def current_thread():
    return threading.current_thread().name


def would_block(lock):
    raise WouldBlock()


def lock_held(lock):
    """Number of times the lock is held (by anyone); natively 0 or 1."""
    return native.lock_held(lock)
