"""Subtrees of any size by the contracts of their methods.

Functions which recurse into children are verified against the contracts of
the children (class Sub) and shown to satisfy the same contracts."""
from common import *        # noqa
import uuid


@implementer(INode)
class Deep(object):
    """Any other node."""
    __fields__ = {}


class Guarded(object):
    """Object of which nothing but its fields and methods may be used."""

    def __iter__(self, *args):
        outside('the children of a subtree are used')

    __len__ = __getitem__ = __contains__ = __iter__

    def __bool__(self):
        return True

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        outside('%s of a subtree is used' % name)


@implementer(INode)
class Sub(Guarded):
    """Root of any subtree, by the contracts of its methods.

    ``below`` are the nodes below by uuid, ``_deep`` is the index all of them
    use, ``values_below`` tells if there are children which are not nodes.
    Code which uses anything else is outside of these contracts."""
    __fields__ = {'uuid': 'uuid', '__name__': ('none', 'str'),
                  '__parent__': ('none', 'obj'), 'values_below': 'bool'}

    @property
    def name(self):
        return self.__name__

    def iterkeys(self):
        # there are children if there are nodes below
        return iter([None] if self.below or self.values_below else [])

    def _to_delete(self):
        return [int(self.uuid)] + list(self.below)

    def _index_nodes(self):
        self._index.update(self.below)
        self._deep = self._index


@implementer(INode)
class Child(Sub):
    """One of many subtrees, no uuid is used twice."""
    __fields__ = {'uuid': 'uuid', 'below': ('map', 'id', Deep),
                  '__name__': ('none', 'str'), '__parent__': ('none', 'obj'),
                  '_index': ('map', 'id', Deep)}
    __exclusive__ = ('uuid', 'below')


def subtree(index=None):
    """Any tree with its own index, or part of a tree with this index."""
    v = any_obj(Sub)
    v.below = {}
    any_map(v.below, 'id', Deep)
    assume(int(v.uuid) not in v.below)
    if index is None:
        index = dict(v.below)
        index[int(v.uuid)] = v
    v._index = v._deep = index
    return v


def parent_node(keys='str', children=Deep):
    """Any node of any tree."""
    n = one_of(Node, AttributedNode)()
    index = {}
    any_map(index, 'id', Deep)
    assume(int(n.uuid) not in index)
    index[int(n.uuid)] = n
    n._index = index
    any_map(n.storage, keys, children, named=children is not Deep)
    return n


def child(n, k):
    """Some child of n."""
    c = subtree(n._index)
    assume(int(n.uuid) not in c.below and int(c.uuid) not in n._index and
           k not in n.storage)
    c.__name__ = k
    c.__parent__ = n
    n.storage[k] = c
    n._index.update(c.below)
    n._index[int(c.uuid)] = c
    return c


def has_node(c, q):
    return isinstance(c, Sub) and (q == int(c.uuid) or q in c.below)


def node_in(c, q):
    return c if q == int(c.uuid) else c.below.get(q)


def own_tree(c, index, q):
    """Index of a removed subtree."""
    ci = c._index
    ensure('own index', ci is not index and c._deep is ci)
    ensure('removed tree', same(ci.get(q), node_in(c, q)))


def with_children():
    n = one_of(Node, AttributedNode)()
    any_map(n.storage, 'plain', (Child, 'none'))
    return n
