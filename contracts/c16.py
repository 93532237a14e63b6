"""Lifecycle events."""
from common import *        # noqa
from node.behaviors import AttributesLifecycle
from node.behaviors import DefaultInit
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Order
from node.events import NodeAddedEvent
from node.events import NodeCreatedEvent
from node.events import NodeDetachedEvent
from node.events import NodeModifiedEvent
from node.events import NodeRemovedEvent
from node.interfaces import INodeAddedEvent
from node.interfaces import INodeCreatedEvent
from node.interfaces import INodeDetachedEvent
from node.interfaces import INodeModifiedEvent
from node.interfaces import INodeRemovedEvent
import vapi


# configured event classes


class Created(NodeCreatedEvent):
    pass


class Added(NodeAddedEvent):
    pass


class Modified(NodeModifiedEvent):
    pass


class Removed(NodeRemovedEvent):
    pass


class Detached(NodeDetachedEvent):
    pass


DEFAULT = {
    'created': NodeCreatedEvent,
    'added': NodeAddedEvent,
    'modified': NodeModifiedEvent,
    'removed': NodeRemovedEvent,
    'detached': NodeDetachedEvent,
}
CUSTOM = {
    'created': Created,
    'added': Added,
    'modified': Modified,
    'removed': Removed,
    'detached': Detached,
}


@plumbing(Lifecycle, Nodify, OdictStorage)
class LNode(object):
    pass


@plumbing(AttributesLifecycle)
class LifecycleAttributes(NodeAttributes):
    pass


@plumbing(Nodespaces, Attributes, Lifecycle, NodeChildValidate, Adopt,
          DefaultInit, Nodify, DictStorage)
class FullLNode(object):
    """The behaviors usually combined."""
    attributes_factory = LifecycleAttributes


@plumbing(NodeChildValidate, Adopt, Order, Lifecycle, DefaultInit, Nodify,
          OdictStorage)
class OrderedLNode(object):
    """Other plumbing order."""


@plumbing(Lifecycle, Nodify)
class FaultyLNode(object):
    """Every operation may fail, before or after the change took place."""

    def __init__(self):
        self.storage = odict()
        self.faults = (False, False)

    def __getitem__(self, key):
        return self.storage[key]

    def __iter__(self):
        return iter(self.storage)

    def __setitem__(self, key, val):
        if self.faults[0]:
            raise ValueError(key)
        self.storage[key] = val
        if self.faults[1]:
            raise RuntimeError(key)

    def __delitem__(self, key):
        if self.faults[0]:
            raise ValueError(key)
        del self.storage[key]
        if self.faults[1]:
            raise RuntimeError(key)


@plumbing(Nodespaces, Attributes, Lifecycle, DefaultInit, Nodify, DictStorage)
class CustomLNode(object):
    attributes_factory = LifecycleAttributes
    events = CUSTOM


CLASSES = (LNode, FullLNode, OrderedLNode, FaultyLNode, CustomLNode)


def lnode():
    """Lifecycle node with arbitrary children, event classes and suppression
    state."""
    n = one_of(*CLASSES)()
    any_map(n.storage, 'str', (ANode, 'none', 'int'))
    if any_bool():
        n.events = CUSTOM
    if any_bool():
        n._notify_suppress = any_bool()
    if type(n) is FaultyLNode:
        n.faults = (any_bool(), any_bool())
    return n, content(n.storage)


def log_events(n):
    """Record notified events along with the children at this time."""
    del vapi.notified[:]
    seen = []

    def observe(event):
        seen.append(content(n.storage))
    vapi.observers.append(observe)
    return seen


def event_of(n, kind):
    if n.events is CUSTOM:
        return CUSTOM[kind]
    return DEFAULT[kind]


@contract('C16')
def creation():
    cls = one_of(*CLASSES)
    seen = []

    def observe(event):
        if type(event.object) is OrderedLNode:
            seen.append(event.object.__name__)
    vapi.observers.append(observe)
    name = any_key()
    if cls in (LNode, FaultyLNode):
        n = cls()
    elif any_bool():
        n = cls(name=name)
    else:
        n = cls(name, None)
    ensure('one event', len(vapi.notified) == 1)
    event = vapi.notified[0]
    ensure('kind', type(event) is (
        Created if cls is CustomLNode else NodeCreatedEvent))
    ensure('interface', INodeCreatedEvent.providedBy(event))
    ensure('node', event.object is n)
    if cls is OrderedLNode:
        ensure('after initialization', same(seen[0], name))
    ensure('not suppressed', n._notify_suppress is False)
    cover('end')


class Failing(object):

    def __init__(self, name=None):
        raise RuntimeError(name)


@plumbing(Lifecycle, Nodify, DictStorage)
class FailingLNode(Failing):
    pass


@contract('C16')
def failing_creation():
    r = outcome(FailingLNode)
    ensure('failed', raised(r, RuntimeError))
    ensure('nothing notified', len(vapi.notified) == 0)
    cover('end')


@contract('C16')
def store():
    n, s = lnode()
    k = any_str()
    assume(not special(k))
    v = one_of(any_obj(ANode), any_value())
    suppress = n._notify_suppress
    seen = log_events(n)
    r = outcome(setitem, n, k, v)
    if not is_ok(r):
        ensure('nothing notified', len(vapi.notified) == 0)
        cover('failed')
    elif suppress:
        ensure('nothing notified', len(vapi.notified) == 0)
        cover('suppressed')
    else:
        ensure('one event', len(vapi.notified) == 1)
        event = vapi.notified[0]
        ensure('kind', type(event) is event_of(n, 'added'))
        ensure('interface', INodeAddedEvent.providedBy(event))
        ensure('node', event.object is v)
        ensure('parent', event.newParent is n and event.oldParent is None)
        ensure('name', same(event.newName, k) and event.oldName is None)
        ensure_map('after the change', seen[0], m_put(s, k, v))
        cover('notified')
    ensure('suppression as before', n._notify_suppress is suppress)


@contract('C16')
def delete():
    n, s = lnode()
    k = any_str()
    assume(not special(k))
    suppress = n._notify_suppress
    seen = log_events(n)
    r = outcome(delitem, n, k)
    if not m_has(s, k):
        ensure('failed', not is_ok(r))
    if not is_ok(r):
        ensure('nothing notified', len(vapi.notified) == 0)
        cover('failed')
    elif suppress:
        ensure('nothing notified', len(vapi.notified) == 0)
        cover('suppressed')
    else:
        ensure('one event', len(vapi.notified) == 1)
        event = vapi.notified[0]
        ensure('kind', type(event) is event_of(n, 'removed'))
        ensure('interface', INodeRemovedEvent.providedBy(event))
        ensure('node', event.object is m_get(s, k))
        ensure('parent', event.oldParent is n and event.newParent is None)
        ensure('name', same(event.oldName, k) and event.newName is None)
        ensure_map('after the change', seen[0], m_del(s, k))
        cover('notified')
    ensure('suppression as before', n._notify_suppress is suppress)


@contract('C16')
def detach():
    n, s = lnode()
    k = any_str()
    assume(not special(k))
    suppress = n._notify_suppress
    seen = log_events(n)
    r = outcome(n.detach, k)
    if not m_has(s, k):
        ensure('failed', not is_ok(r))
    if not is_ok(r):
        ensure('nothing notified', len(vapi.notified) == 0)
        cover('failed')
    elif suppress:
        ensure('not more than one event', len(vapi.notified) <= 1)
        ensure('detached node', r[1] is m_get(s, k))
        cover('suppressed')
    else:
        ensure('detached node', r[1] is m_get(s, k))
        ensure('one event', len(vapi.notified) == 1)
        event = vapi.notified[0]
        ensure('kind', type(event) is event_of(n, 'detached'))
        ensure('interface', INodeDetachedEvent.providedBy(event))
        ensure('node', event.object is m_get(s, k))
        ensure('parent', event.oldParent is n and event.newParent is None)
        ensure('name', same(event.oldName, k) and event.newName is None)
        ensure_map('after the change', seen[0], m_del(s, k))
        cover('notified')
    ensure('suppression as before', n._notify_suppress is suppress)


def some_operation(n, k, v):
    op = upto(2)
    if op == 0:
        return outcome(setitem, n, k, v)
    if op == 1:
        return outcome(delitem, n, k)
    return outcome(n.detach, k)


@contract('C16')
def not_suppressed_afterwards():
    """An operation, failing or not, has no effect on later notifications."""
    n = one_of(LNode, FaultyLNode)()
    any_map(n.storage, 'str', (ANode, 'none', 'int'))
    if type(n) is FaultyLNode:
        n.faults = (any_bool(), any_bool())
    k = any_str()
    v = any_obj(ANode)
    some_operation(n, k, v)
    if type(n) is FaultyLNode:
        n.faults = (False, False)
    del vapi.notified[:]
    k2 = any_str()
    v2 = any_obj(ANode)
    n[k2] = v2
    ensure('added', len(vapi.notified) == 1 and
           type(vapi.notified[0]) is NodeAddedEvent and
           vapi.notified[0].object is v2)
    del n[k2]
    ensure('removed', len(vapi.notified) == 2 and
           type(vapi.notified[1]) is NodeRemovedEvent and
           vapi.notified[1].object is v2)
    cover('end')


@contract('C16')
def suppression_is_per_node():
    n, other = LNode(), FullLNode()
    n._notify_suppress = True
    k = any_str()
    assume(not special(k))
    v = any_obj(ANode)
    del vapi.notified[:]
    n[k] = v
    ensure('suppressed', len(vapi.notified) == 0)
    other[k] = v
    ensure('other node notifies', len(vapi.notified) == 1)
    n._notify_suppress = False
    del n[k]
    ensure('no longer suppressed', len(vapi.notified) == 2 and
           vapi.notified[1].object is v)
    cover('end')


@contract('C16')
def suppressed_in_handler():
    """What handlers of a notification see."""
    n = one_of(LNode, OrderedLNode)()
    k = any_str()
    v = any_obj(ANode)
    suppress = any_bool()
    seen = []

    def observe(event):
        seen.append(n._notify_suppress)
    n[k] = v
    n._notify_suppress = suppress
    del vapi.notified[:]
    vapi.observers.append(observe)
    n.detach(k)
    ensure('suppression restored when notifying',
           seen == [suppress] or suppress and seen == [])
    cover('end')


@contract('C16')
def detach_again():
    """A detached child can be added and detached again."""
    n, m = LNode(), OrderedLNode()
    any_map(n.storage, 'str', ANode)
    s = content(n.storage)
    k, j = any_str(), any_str()
    assume(m_has(s, k))
    del vapi.notified[:]
    child = n.detach(k)
    m[j] = child
    again = m.detach(j)
    ensure('same child', again is child and child is m_get(s, k))
    ensure('events', [type(e) for e in vapi.notified] == [
        NodeDetachedEvent, NodeAddedEvent, NodeDetachedEvent])
    ensure('parents', vapi.notified[0].oldParent is n and
           vapi.notified[1].newParent is m and
           vapi.notified[2].oldParent is m)
    ensure('nodes', [e.object is child for e in vapi.notified] == [
        True, True, True])
    cover('end')


# -- attributes


@contract('C16')
def attributes():
    n = one_of(FullLNode, CustomLNode)()
    if any_bool():
        n.events = CUSTOM
    a = n.attrs
    any_map(a.storage, 'str', 'any')
    s = content(a.storage)
    suppress = any_bool()
    n._notify_suppress = suppress
    k = any_str()
    assume(not special(k))
    v = any_value()
    seen = []

    def observe(event):
        seen.append(content(a.storage))
    vapi.observers.append(observe)
    del vapi.notified[:]
    if any_bool():
        r = outcome(setitem, a, k, v)
        after = m_put(s, k, v)
        ensure('stored', is_ok(r))
        cover('set')
    else:
        r = outcome(delitem, a, k)
        after = m_del(s, k) if m_has(s, k) else s
        ensure('deleted', is_ok(r) == m_has(s, k))
        cover('delete')
    if not is_ok(r):
        ensure('nothing notified', len(vapi.notified) == 0)
        cover('failed')
    elif suppress:
        ensure('nothing notified', len(vapi.notified) == 0)
        cover('suppressed')
    else:
        ensure('one event', len(vapi.notified) == 1)
        event = vapi.notified[0]
        ensure('kind', type(event) is event_of(n, 'modified'))
        ensure('interface', INodeModifiedEvent.providedBy(event))
        ensure('owning node', event.object is n)
        ensure_map('after the change', seen[0], after)
        cover('notified')
    ensure_map('attributes', content(a.storage), after)
    ensure('suppression as before', n._notify_suppress is suppress)


@contract('C16')
def attributes_creation():
    n = one_of(FullLNode, CustomLNode)()
    del vapi.notified[:]
    a = n.attrs
    ensure('reading attributes notifies nothing', len(vapi.notified) == 0)
    ensure('same attributes', n.attrs is a)
    cover('end')


@contract('C16')
def reading():
    n, s = lnode()
    k = any_str()
    assume(not special(k))
    log_events(n)
    outcome(getitem, n, k)
    n.get(k)
    k in n
    n.keys()
    len(n)
    ensure('reading notifies nothing', len(vapi.notified) == 0)
    cover('end')


# -- event classes


@contract('C16')
def event_interfaces():
    kind = one_of('created', 'added', 'modified', 'removed', 'detached')
    cls = DEFAULT[kind]
    ensure('event class', Lifecycle is not None and
           LNode.events[kind] is cls)
    interfaces = (INodeCreatedEvent, INodeAddedEvent, INodeModifiedEvent,
                  INodeRemovedEvent, INodeDetachedEvent)
    names = ('created', 'added', 'modified', 'removed', 'detached')
    for i in range(5):
        ensure('interface', interfaces[i].implementedBy(cls) ==
               (names[i] == kind))
    cover('end')
