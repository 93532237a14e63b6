"""Locking of trees."""
from common import *        # noqa
from node.locking import locktree
from node.locking import TreeLock
from node.utils import LocationIterator


class LockNode(BaseNode):
    """Node as part of a parent chain."""
    __fields__ = {'__name__': ('none', 'str'), '__parent__': 'raw'}


class OtherLockNode(Node):
    __fields__ = {'__name__': ('none', 'str'), '__parent__': 'raw'}


def below(chain, cls):
    """Node below the chain, the root is the last one of the chain."""
    n = cls()
    n.__parent__ = chain[0]
    return n


def lock(n):
    t = TreeLock(n)
    t.acquire()
    return t


def unlock(t):
    t.release()


def enter(n):
    t = TreeLock(n)
    t.__enter__()
    return t


def leave(t):
    """By an error or not."""
    if any_bool():
        r = t.__exit__(None, None, None)
    else:
        e = failure()
        r = t.__exit__(type(e), e, None)
    ensure('error not swallowed', not r)


def holding(n):
    """Number of times the lock of the tree is held."""
    return lock_held(TreeLock(n).lock)


def some_nodes():
    """Two nodes of one tree of arbitrary depth, and the root.

    For any other node of the tree the lock is the same one, see same_lock."""
    chain = any_chain((LockNode,), 1)
    a = below(chain, BaseNode)
    b = below(chain, Node) if any_bool() else chain[0]
    return a, b, chain[len(chain) - 1]


def any_nodes():
    """Any two nodes of one tree of arbitrary depth, and the root."""
    chain = any_chain((LockNode, OtherLockNode), 1)
    a = below(chain, one_of(BaseNode, Node))
    return a, pick(chain), chain[len(chain) - 1]


@contract('C21')
def same_lock():
    """All nodes of a tree have the lock of its root."""
    a, b, root = any_nodes()
    if any_bool():
        a, b = b, a
    x, y = TreeLock(a), TreeLock(b)
    ensure('one lock', x.lock is y.lock)
    z = TreeLock(root)
    ensure('lock of the root', z.lock is x.lock)
    ensure('not held', lock_held(x.lock) == 0)
    cover('end')


@contract('C21')
def remembered():
    """The same lock when it is held and afterwards."""
    a, b, root = some_nodes()
    x = TreeLock(a)
    x.acquire()
    ensure('held', lock_held(x.lock) > 0)
    ensure('same when held', TreeLock(b).lock is x.lock)
    x.release()
    ensure('released', lock_held(x.lock) == 0)
    ensure('same when released', TreeLock(root).lock is x.lock)
    cover('end')


@contract('C21')
def former_root():
    """Nodes having had a lock of their own before being part of the
    tree."""
    a, b, root = some_nodes()
    parent, a.__parent__ = a.__parent__, None
    own = TreeLock(a)
    if any_bool():
        own.acquire()
        own.release()
    a.__parent__ = parent
    x, y = TreeLock(a), TreeLock(one_of(b, root))
    if any_bool():
        z = TreeLock(a)
    else:
        z = TreeLock(root)
    ensure('one lock', x.lock is y.lock and z.lock is x.lock)
    ensure('not the former one', x.lock is not own.lock)
    cover('end')


@contract('C21')
def first_root():
    """Root first, then others."""
    a, b, root = any_nodes()
    z = TreeLock(root)
    ensure('one lock', TreeLock(one_of(a, b)).lock is z.lock)
    cover('end')


@contract('C21')
def other_thread():
    """A lock created by another thread."""
    a, b, root = some_nodes()
    r = in_thread('one', TreeLock, b)
    ensure('created', is_ok(r))
    ensure('one lock', TreeLock(a).lock is r[1].lock)
    q = in_thread('two', TreeLock, root)
    ensure('one lock in third thread', is_ok(q) and q[1].lock is r[1].lock)
    cover('end')


@contract('C21')
def reentrant():
    a, b, root = some_nodes()
    x = lock(a) if any_bool() else enter(a)
    y = lock(b) if any_bool() else enter(b)
    with TreeLock(root):
        ensure('held', lock_held(x.lock) > 0)
    ensure('still held', lock_held(x.lock) > 0)
    if any_bool():
        y.release()
        ensure('held by the first', lock_held(x.lock) > 0)
        x.release()
    else:
        leave(x)
        ensure('held by the second', lock_held(x.lock) > 0)
        leave(y)
    ensure('released', lock_held(x.lock) == 0)
    cover('end')


def with_lock(n, log, fail):
    with TreeLock(n):
        log.append(holding(n))
        if fail is not None:
            raise fail


@contract('C21')
def with_statement():
    a, b, root = some_nodes()
    fail = one_of(None, failure())
    log = []
    outer = any_bool()
    if outer:
        x = lock(b)
    r = outcome(with_lock, a, log, fail)
    ensure('result or error', is_ok(r) if fail is None else
           r[0] == 'exc' and r[1] is fail)
    ensure('held inside', len(log) == 1 and log[0] > 0)
    ensure('released if it was', (holding(root) > 0) == outer)
    if outer:
        x.release()
    ensure('released', holding(root) == 0)
    cover('end')


# -- mutual exclusion


@contract('C21')
def exclusion():
    """Another thread has to wait."""
    a, b, root = some_nodes()
    x = lock(a) if any_bool() else enter(a)
    r = meanwhile('one', lock, b)
    ensure('other thread waits', r[0] == 'blocked')
    twice = any_bool()
    if twice:
        with TreeLock(root):
            ensure('entered again', holding(a) > 0)
    x.release()
    r = proceed('one')
    ensure('other thread enters', is_ok(r))
    q = meanwhile('two', lock, root)
    ensure('third thread waits', q[0] == 'blocked')
    in_thread('one', unlock, r[1])
    q = proceed('two')
    ensure('third thread enters', is_ok(q))
    in_thread('two', unlock, q[1])
    ensure('released', holding(root) == 0)
    cover('end')


preempt = []


class SharedRoot(BaseNode):
    """Other threads run when an attribute is missing or set."""

    def __getattr__(self, name):
        if not name.startswith('__'):
            switch('get')
        raise AttributeError(name)

    def __setattr__(self, name, value):
        if not name.startswith('__'):
            switch('set')
        self.__dict__[name] = value


def switch(what):
    """Switch to the other thread if it is its turn."""
    if preempt and preempt[0] == what:
        del preempt[:]
        node = RACE[0]
        meanwhile('other', TreeLock, node)


RACE = []


@contract('C21')
def creation_race():
    """Two threads creating the lock at the same time."""
    root = SharedRoot()
    n = one_of(root, BaseNode(), Node())
    m = one_of(root, BaseNode())
    for x in (n, m):
        if x is not root:
            x.__parent__ = root
    preempt.clear()
    RACE.clear()
    RACE.append(m)
    preempt.append(one_of('get', 'set'))
    x = TreeLock(n)
    switched = len(preempt) == 0
    preempt.clear()
    if switched:
        r = proceed('other')
        ensure('other thread gets the lock', is_ok(r))
        ensure('one lock', r[1].lock is x.lock)
        cover('switched')
    ensure('remembered', TreeLock(m).lock is x.lock)
    ensure('remembered by root', TreeLock(root).lock is x.lock)
    cover('end')


# -- decorator


class Locked(BaseNode):
    """Node with locked methods."""
    __fields__ = {'__name__': ('none', 'str'), '__parent__': 'raw'}

    @locktree
    def method(self, *args, **kw):
        LOG.append((self, args, kw, holding(self)))
        if FAIL:
            raise FAIL[0]
        return RESULT[0]

    @locktree
    def nested(self, x):
        LOG.append((self, (x,), {}, holding(self)))
        return self.method(x, key=x)

    @locktree
    def with_default(self, x, y=3):
        return (x, y)


LOG = []
FAIL = []
RESULT = []


class AnError(Exception):
    pass


def some_error(x):
    return one_of(AnError, Abort)(x)


def locked_node():
    LOG.clear()
    FAIL.clear()
    RESULT.clear()
    n = Locked()
    kind = upto(1)
    root = n
    if kind:
        chain = any_chain((LockNode, OtherLockNode), 1)
        n.__parent__ = chain[0]
        root = chain[len(chain) - 1]
    return n, root


@contract('C21')
def locked_method():
    n, root = locked_node()
    x, y = any_value(), any_value()
    result = any_value()
    fail = any_bool()
    error = some_error(1)
    if fail:
        FAIL.append(error)
    RESULT.append(result)
    how = upto(2)
    if how == 0:
        r = outcome(n.method)
        args, kw = (), {}
    elif how == 1:
        r = outcome(n.method, x, y)
        args, kw = (x, y), {}
    else:
        r = outcome(n.method, x, key=y)
        args, kw = (x,), {'key': y}
    ensure('called once', len(LOG) == 1)
    node, a, k, held = LOG[0]
    ensure('on the node', node is n)
    ensure('arguments', same(a, args))
    ensure('keywords', len(k) == len(kw) and (
        not kw or same(k['key'], kw['key'])))
    ensure('lock held', held > 0)
    if fail:
        ensure('its error', r[0] == 'exc' and r[1] is error)
        cover('failed')
    else:
        ensure('its result', is_ok(r) and same(r[1], result))
        cover('result')
    ensure('released', holding(root) == 0)
    ensure('other threads can enter', is_ok(in_thread(
        'one', with_lock, n, [], None)))


@contract('C21')
def locked_methods_nested():
    n, root = locked_node()
    x, result = any_value(), any_value()
    fail = any_bool()
    if fail:
        FAIL.append(some_error(2))
    RESULT.append(result)
    r = outcome(n.nested, x)
    ensure('both called', len(LOG) == 2)
    ensure('lock held', LOG[0][3] > 0 and LOG[1][3] > 0)
    ensure('argument', same(LOG[1][1], (x,)) and same(LOG[1][2]['key'], x))
    if fail:
        ensure('its error', raised(r, AnError, Abort))
    else:
        ensure('its result', is_ok(r) and same(r[1], result))
    ensure('released', holding(root) == 0)
    cover('end')


@contract('C21')
def locked_method_waits():
    """A locked method waits for another thread."""
    n, root = locked_node()
    RESULT.append(1)
    r = in_thread('one', lock, root)
    ensure('locked by other thread', is_ok(r))
    q = meanwhile('two', n.method, 5)
    ensure('waits', q[0] == 'blocked')
    ensure('not called', len(LOG) == 0)
    in_thread('one', unlock, r[1])
    q = proceed('two')
    ensure('called then', is_ok(q) and q[1] == 1 and len(LOG) == 1)
    ensure('released', holding(root) == 0)
    cover('end')


@contract('C21')
def wrong_arguments():
    n, root = locked_node()
    r = outcome(n.with_default)
    ensure('error', raised(r, TypeError))
    ensure('released', holding(root) == 0)
    x = any_value()
    ensure('default', same(n.with_default(x), (x, 3)))
    ensure('keyword', same(n.with_default(x, y=4), (x, 4)))
    ensure('released again', holding(root) == 0)
    cover('end')
