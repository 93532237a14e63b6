from common import *        # noqa
from node.base import AbstractNode


class Failing(object):
    """End point failing with the configured error."""

    def __init__(self):
        self.error = None
        self.placed = False
        self.storage = odict()

    def __getitem__(self, key):
        return self.storage[key]

    def __setitem__(self, key, val):
        if self.error is not None:
            if self.placed:
                # by whoever failed
                val.__name__ = 'elsewhere'
                val.__parent__ = None
            raise self.error
        self.storage[key] = val

    def __iter__(self):
        for k in self.storage:
            yield k

    def __delitem__(self, key):
        del self.storage[key]

    def setdefault(self, key, default=None):
        raise NotImplementedError


@plumbing(Adopt)
class Adopting(Failing):
    pass


@plumbing(Adopt, FullMapping)
class AdoptingMapping(Failing):
    pass


@contract('C04')
def adopt_success():
    n = one_of(Adopting, AdoptingMapping)()
    any_map(n.storage, 'key', 'any')
    s = content(n.storage)
    k = any_key()
    v = any_obj(ANode)
    n[k] = v
    ensure('name is the key', same(v.__name__, k))
    ensure('parent is the node', v.__parent__ is n)
    ensure_map('stored', content(n.storage), m_put(s, k, v))
    ensure_untouched('no other node changed', v, n)
    cover('end')


@contract('C04')
def adopt_failure():
    n = one_of(Adopting, AdoptingMapping)()
    any_map(n.storage, 'key', 'any')
    s = content(n.storage)
    error = one_of(AttributeError, KeyError, ValueError, UnicodeDecodeError2,
                   IndexedKeyError)('x')
    n.error = error
    n.placed = any_bool()
    k = any_key()
    v = any_obj(ANode)
    name, parent = v.__name__, v.__parent__
    r = outcome(setitem, n, k, v)
    ensure('error propagates', r[0] == 'exc' and r[1] is error)
    ensure('name is restored', same(v.__name__, name))
    ensure('parent is restored', same(v.__parent__, parent))
    ensure_map('nothing stored', content(n.storage), s)
    ensure_untouched('no other node changed', n)
    cover('end')


class UnicodeDecodeError2(ValueError):
    pass


class IndexedKeyError(KeyError):
    pass


@contract('C04')
def other_values_are_handed_through():
    n = one_of(Adopting, AdoptingMapping)()
    any_map(n.storage, 'key', 'any')
    s = content(n.storage)
    k = any_key()
    v = any_value()
    n[k] = v
    ensure('handed through', same(n.storage[k], v))
    ensure_map('stored', content(n.storage), m_put(s, k, v))
    ensure_untouched('nothing changed', n)
    cover('end')


class Plain(object):
    """Not a node, although it has name and parent."""
    __fields__ = {'__name__': ('none', 'str'), '__parent__': ('none', 'obj')}


@contract('C04')
def look_alikes_are_handed_through():
    n = Adopting()
    v = any_obj(Plain)
    k = any_key()
    n.error = one_of(None, KeyError('x'))
    outcome(setitem, n, k, v)
    ensure_untouched('not touched', n)
    cover('end')


@contract('C04')
def setdefault_adopts():
    n = AdoptingMapping()
    any_map(n.storage, 'key', ANode)
    s = content(n.storage)
    k = any_key()
    v = any_obj(ANode)
    n.error = one_of(None, ValueError('x'))
    name, parent = v.__name__, v.__parent__
    r = outcome(n.setdefault, k, v)
    if m_has(s, k):
        ensure('present child', is_ok(r) and same(r[1], m_get(s, k)))
        ensure('default is not adopted', same(v.__name__, name) and
               same(v.__parent__, parent))
        cover('present')
    elif n.error is None:
        ensure('default', is_ok(r) and r[1] is v)
        ensure('adopted', same(v.__name__, k) and v.__parent__ is n)
        ensure_map('stored', content(n.storage), m_put(s, k, v))
        cover('stored')
    else:
        ensure('error propagates', raised(r, ValueError))
        ensure('restored', same(v.__name__, name) and
               same(v.__parent__, parent))
        cover('failed')


def _node_adopts(cls, keys):
    n = cls()
    any_map(n.storage, keys, ANode)
    v = any_obj(ANode)
    k = any_value(keys)
    n[k] = v
    ensure('name is the key', same(v.name, k))
    ensure('parent is the node', v.parent is n)
    ensure('stored', same(n[k], v))
    ensure_untouched('no other node changed', v, n)
    cover('end')


@contract('C04')
def base_nodes_adopt():
    _node_adopts(one_of(BaseNode, OrderedNode), 'key')


@contract('C04')
def attributes_adopt():
    """Nodes stored as attributes."""
    owner = any_obj(ANode)
    n = NodeAttributes('x', owner)
    any_map(n.storage, 'key', ANode)
    v = any_obj(ANode)
    assume(not same(v, owner))
    k = any_value('key')
    n[k] = v
    ensure('name is the key', same(v.name, k))
    ensure('parent are the attributes', v.parent is n)
    ensure('stored', same(n[k], v))
    ensure_untouched('no other node changed', v, n)
    cover('end')


@contract('C04')
def full_nodes_adopt():
    n = one_of(Node, AttributedNode)()
    any_map(n.storage, 'regular', 'any')
    v = one_of(Node, AttributedNode)()
    k = any_value('regular')
    n[k] = v
    ensure('name is the key', same(v.name, k))
    ensure('parent is the node', v.parent is n)
    ensure('stored', same(n[k], v))
    cover('end')


@contract('C04')
def rejected_values_are_not_adopted():
    """Validation errors of the storing node leave the value alone."""
    n = one_of(BaseNode, OrderedNode, Node, AttributedNode)()
    v = any_value(Plain, 'any')
    k = any_value('regular')
    r = outcome(setitem, n, k, v)
    ensure('rejected', raised(r, ValueError))
    ensure_untouched('nothing changed', n)
    cover('end')


@contract('C04')
def uuid_collision_restores():
    """A store failing in the index leaves name and parent as before."""
    n = one_of(Node, AttributedNode)()
    a, v = Node(), Node()
    other = Node()
    k, k2, k3 = any_value('regular'), any_value('regular'), \
        any_value('regular')
    assume(k != k2)
    n[k2] = a
    if any_bool():
        other[k3] = v
    v.uuid = a.uuid
    name, parent = v.__name__, v.__parent__
    r = outcome(setitem, n, k, v)
    ensure('rejected', raised(r, ValueError))
    ensure('name', same(v.__name__, name))
    ensure('parent', same(v.__parent__, parent))
    ensure('name of the other child', same(a.__name__, k2))
    cover('end')
