from common import *        # noqa
from node.behaviors import DefaultInit
from node.behaviors import Events
from node.behaviors import FixedChildren
from node.behaviors import Lifecycle
from node.behaviors import UUIDAware
from node.utils import LocationIterator
from node.utils import node_by_path
from zope.interface import Interface


class IMarker(Interface):
    pass


class IOther(IMarker):
    pass


@implementer(INode)
class Link(object):
    """Ancestor as seen by navigation: name, parent, child on the path."""
    __fields__ = {'__name__': ('none', 'str'), '__parent__': 'raw',
                  '__child__': 'raw'}
    __child__ = None

    @property
    def name(self):
        return self.__name__

    @property
    def parent(self):
        return self.__parent__

    def __getitem__(self, key):
        if self.__child__ is not None and key == self.__child__.name:
            return self.__child__
        raise KeyError(key)


@implementer(IMarker)
class MarkedLink(Link):
    pass


@implementer(IOther)
class OtherLink(Link):
    pass


class NodeLink(BaseNode):
    """Real node as ancestor."""
    __fields__ = {'__name__': ('none', 'str'), '__parent__': 'raw'}


class FullLink(Node):
    __fields__ = {'__name__': ('none', 'str'), '__parent__': 'raw'}


LINKS = (Link, MarkedLink, NodeLink)


def below(chain, cls):
    """Real node below the chain."""
    n = cls()
    n.__name__ = any_value('none', 'str')
    if len(chain):
        n.__parent__ = chain[0]
    return n


@contract('C06')
def path_and_root():
    chain = any_chain(LINKS)
    n = below(chain, one_of(DNode, ONode, BaseNode, OrderedNode, Node,
                            AttributedNode))
    names = [x.__name__ for x in reversed(chain)]
    ensure_seq('path lists the names from the root', n.path,
               names + [n.__name__])
    if len(chain):
        ensure('root is the outermost ancestor', n.root is chain[-1])
        ensure('parent', n.parent is chain[0])
        cover('below')
    else:
        ensure('root of a root is itself', n.root is n)
        ensure('parent of a root', n.parent is None)
        cover('root')
    ensure('name', same(n.name, n.__name__))
    ensure_untouched('no change', n)


@contract('C06')
def location_iterator():
    chain = any_chain(LINKS)
    n = below(chain, DNode)
    ensure_seq('node and its ancestors', LocationIterator(n),
               [n] + [x for x in chain])
    ensure_seq('nothing for nothing', LocationIterator(None), [])
    cover('end')


class Outermost(object):
    """Outermost location which has no parent attribute."""
    __fields__ = {'__name__': ('none', 'str')}
    name = __name__ = None


@contract('C06')
def outermost_location():
    top = any_obj(Outermost)
    n = one_of(BaseNode, Node)(any_str(), top)
    ensure_seq('location', LocationIterator(n), [n, top])
    ensure('root', n.root is top)
    cover('end')


@contract('C06')
def path_of_chain_elements():
    chain = any_chain((NodeLink,), 1)
    n = chain[0]
    ensure_seq('path', n.path, [x.__name__ for x in reversed(chain)])
    ensure('root', n.root is chain[-1])
    cover('end')


@contract('C06')
def resolving_path_sequences():
    chain = any_chain((Link,), 1)
    path = [x.__name__ for x in reversed(chain)]
    rel = path[1:]
    r = outcome(node_by_path, chain[-1], rel)
    ensure('path from root gives the node', is_ok(r) and r[1] is chain[0])
    ensure_untouched('no change')
    cover('end')


@contract('C06')
def resolving_path_strings():
    chain = any_chain((Link,), 1)
    path = [x.__name__ for x in reversed(chain)]
    text = any_path(path[1:])
    r = outcome(node_by_path, chain[-1], text)
    ensure('path from root gives the node', is_ok(r) and r[1] is chain[0])
    ensure_untouched('no change')
    cover('end')


@contract('C06')
def empty_paths():
    n = below([], one_of(DNode, BaseNode, Node))
    p = one_of([], (), '', '/', '//', '///')
    ensure('root itself', node_by_path(n, p) is n)
    cover('end')


@contract('C06')
def missing_path_elements():
    root = one_of(DNode, ONode, BaseNode, OrderedNode)()
    child = one_of(DNode, BaseNode)()
    any_map(root.storage, 'str', 'any')
    any_map(child.storage, 'str', ANode)
    k, k2 = any_str(), any_str()
    root.storage[k] = child
    r = outcome(node_by_path, root, one_of([k, k2], (k, k2)))
    if m_has(content(child.storage), k2):
        ensure('found', is_ok(r) and
               same(r[1], m_get(content(child.storage), k2)))
        cover('found')
    else:
        ensure('KeyError', raised(r, KeyError))
        cover('missing')


def matches(x, what):
    if what is IMarker or what is IOther:
        return what.providedBy(x)
    if what is INode:
        return True
    return isinstance(x, what)


@contract('C06')
def acquire():
    chain = any_chain((Link, MarkedLink, OtherLink))
    n = below(chain, one_of(DNode, BaseNode, Node))
    what = one_of(IMarker, IOther, INode, Link, MarkedLink, OtherLink, DNode,
                  BaseNode, Node, object, dict)
    r = n.acquire(what)
    expected = None
    for x in chain:
        if matches(x, what):
            expected = x
            break
    ensure('nearest matching ancestor', same(r, expected))
    ensure('never the node itself', r is not n)
    if r is None:
        cover('nothing')
    else:
        cover('found')
    ensure_untouched('no change', n)


@contract('C06')
def acquire_from_real_nodes():
    chain = any_chain((NodeLink, FullLink))
    n = below(chain, one_of(NodeLink, BaseNode, FullLink))
    what = one_of(NodeLink, FullLink, BaseNode, Node, INode)
    r = n.acquire(what)
    expected = None
    for x in chain:
        if what is INode or isinstance(x, what):
            expected = x
            break
    ensure('nearest matching ancestor', same(r, expected))
    ensure('never the node itself', r is not n)
    cover('end')


@implementer(IMarker)
class MarkedValue(object):
    __fields__ = {}


@implementer(INode, IOther)
class MarkedNode(object):
    __fields__ = {'__name__': ('none', 'str'), '__parent__': ('none', 'obj')}


@plumbing(FixedChildren, DefaultInit, Nodify)
class FixedNode(object):
    fixed_children_factories = ()


@plumbing(UUIDAware, DefaultInit, Nodify, DictStorage)
class AwareNode(object):
    """Node with an own uuid."""


@plumbing(Lifecycle, DefaultInit, Nodify, DictStorage)
class NotifyingNode(object):
    """Node notifying its creation."""


@plumbing(Events, DefaultInit, Nodify, DictStorage)
class DispatchingNode(object):
    """Node dispatching events."""


@plumbing(Adopt, Lifecycle, UUIDAware, Events, FixedChildren, DefaultInit,
          Nodify)
class CombinedNode(object):
    fixed_children_factories = ()


@contract('C06')
def created():
    """Nodes have the name and the parent they are created with."""
    cls = one_of(BaseNode, OrderedNode, Node, AttributedNode, FixedNode,
                 AwareNode, NotifyingNode, DispatchingNode, CombinedNode,
                 NodeAttributes)
    name, parent = any_value('none', 'str', 'int'), any_obj(ANode)
    how = upto(4)
    if how == 0:
        n = cls(name, parent)
    elif how == 1:
        n = cls(name, parent=parent)
    elif how == 2:
        n = cls(parent=parent, name=name)
    elif how == 3:
        n, parent = cls(name), None
    else:
        n, name, parent = cls(), None, None
    ensure('name', same(n.name, name))
    ensure('parent', same(n.parent, parent))
    cover('end')


@contract('C06')
def filtered_values():
    n = one_of(DNode, ONode)()
    any_map(n.storage, 'key', (ANode, MarkedNode, MarkedValue, 'any'))
    s = content(n.storage)
    what = one_of(IMarker, IOther, INode)
    expected = [v for v in m_values(s) if what.providedBy(v)]
    kind = upto(2)
    if kind == 0:
        r = n.filteredvalues(what)
    elif kind == 1:
        r = n.filtereditervalues(what)
    else:
        r = n.filtereditems(what)
    ensure_seq('children providing the interface in order', r, expected)
    ensure_map('no change', content(n.storage), s)
    ensure_untouched('children untouched', n)
    cover('end')
