"""Serialization."""
from common import *        # noqa
from node.behaviors import DefaultInit
from node.behaviors import Nodespaces
from node.interfaces import IAttributes
from node.serializer import NodeDecoder
from node.serializer import NodeEncoder
from node.serializer import deserialize
from node.serializer import deserializer
from node.serializer import serialize
from node.serializer import serializer
from node.utils import UNSET
from subtrees import Guarded
from zope.interface import Interface
import json
import node.base
import uuid


class Tree(BaseNode):
    """Node without attributes."""


@plumbing(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, OdictStorage)
class OrderedTree(object):
    """Ordered node with attributes."""


class FalseTree(OrderedTree):
    """Node which is false."""

    def __bool__(self):
        return False


class Twig(Node):
    """Referencing node of a derived class."""


NODES = (Tree, OrderedTree, Twig, node.base.Node)


def a_function():
    pass


class Outer(object):

    class Inner(object):
        pass

    def method(self):
        pass


REFERABLE = (Tree, Outer, Outer.Inner, a_function, Outer.method, uuid.UUID,
             node.base.Node, node.base.OrderedNode)


def any_text():
    """Text which is not taken for one of the markers."""
    s = any_str()
    assume(s != '<UNSET>' and not s.startswith('<UUID>:'))
    return s


def leaf(kind):
    if kind == 0:
        return any_value('none', 'bool', 'int')
    if kind == 1:
        return any_text()
    if kind == 2:
        return any_uuid()
    if kind == 3:
        return UNSET
    return one_of(Outer.Inner, a_function)


def structure(depth, width, leafs=(0, 1, 2, 3)):
    """Nested lists and dictionaries."""
    kind = upto(2 if depth else 0)
    if kind == 0:
        return leaf(one_of(*leafs))
    if kind == 1:
        return [structure(depth - 1, width, leafs)
                for i in range(upto(width))]
    out = {}
    for i in range(upto(width)):
        key = any_str()
        assume(key not in ('__node__', '__ob__'))
        out[key] = structure(depth - 1, width, leafs)
    return out


def equal(a, b):
    """Equal structure."""
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(
            [equal(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and all(
            [key in b and equal(val, b[key]) for key, val in a.items()])
    if isinstance(a, NODES):
        return equal_tree(a, b)
    if isinstance(a, uuid.UUID):
        return isinstance(b, uuid.UUID) and a == b
    return same(a, b)


def equal_tree(a, b):
    if type(a) is not type(b):
        return False
    if not same(a.name, b.name):
        return False
    if len(a.storage) != len(b.storage):
        return False
    ka = list(a.storage)
    kb = list(b.storage)
    for i in range(len(ka)):
        x, y = a.storage[ka[i]], b.storage[kb[i]]
        if not same(ka[i], kb[i]) or y.__parent__ is not b:
            return False
        if not equal(x, y):
            return False
    if IAttributes.providedBy(a):
        x, y = a.attrs.storage, b.attrs.storage
        if len(x) != len(y):
            return False
        for key, val in x.items():
            if key not in y or not equal(val, y[key]):
                return False
    return True


@contract('C22')
def leafs():
    """Values other than strings, lists and dictionaries."""
    v = leaf(upto(4))
    r = deserialize(serialize(v))
    ensure('equal', equal(v, r))
    cover('end')


@contract('C22')
def referables():
    v = one_of(*REFERABLE)
    ensure('itself', deserialize(serialize(v)) is v)
    ensure('itself in a list', deserialize(serialize([v]))[0] is v)
    ensure('itself in a dict', deserialize(serialize({'x': v}))['x'] is v)
    ensure('its dotted name', json.loads(serialize(v, simple_mode=True)) ==
           '.'.join([v.__module__, getattr(v, '__qualname__', v.__name__)]))
    cover('end')


@contract('C22')
def not_imported_modules():
    """Modules of classes and functions get imported when needed."""
    module, name = one_of(('wsgiref.util', 'guess_scheme'),
                          ('xml.sax.saxutils', 'XMLGenerator'),
                          ('wsgiref.headers', 'Headers'))
    forget_module(module)
    ob = deserialize('{"__ob__": "%s.%s"}' % (module, name))
    ensure('name', ob.__name__ == name)
    ensure('module', ob.__module__ == module)
    cover('end')


@contract('C22')
def flat_list():
    """Lists of any length."""
    v = any_list(('none', 'bool', 'int'))
    r = deserialize(serialize(v))
    ensure_seq('equal', v, r)
    ensure('new list', r is not v)
    cover('end')


@contract('C22')
def flat_dict():
    """Dictionaries of any size."""
    v = any_map({}, 'str', ('none', 'bool', 'int'))
    c = content(v)
    assume(not m_has(c, '__node__') and not m_has(c, '__ob__'))
    r = deserialize(serialize(v))
    ensure_map('equal', content(r), c)
    ensure('new dict', r is not v)
    cover('end')


@contract('C22')
def list_of_texts():
    """Any number of texts which are no markers."""
    v = any_list(('str',))
    t = ['!' + x for x in v]
    r = deserialize(serialize(t))
    ensure_seq('equal', t, r)
    cover('end')


@contract('C22', limit='one level, up to 2 elements')
def structures():
    v = structure(1, 2)
    r = deserialize(serialize(v))
    ensure('equal', equal(v, r))
    cover('end')


@contract('C22', limit='up to 3 levels')
def nested_structures():
    v = [structure(1, 1, (0, 2)), {'a': structure(2, 1, (1,))}, leaf(3)]
    r = deserialize(serialize(v))
    ensure('equal', equal(v, r))
    cover('end')


def tree(name, depth, width, cls=None, attrs=1):
    """Tree of nodes with any names and attributes."""
    n = cls() if cls is not None else one_of(Tree, OrderedTree)()
    n.__name__ = name
    if attrs and IAttributes.providedBy(n):
        for i in range(upto(attrs)):
            n.attrs[any_str()] = leaf(upto(2))
    if depth:
        for i in range(upto(width)):
            key = any_text()
            assume(not special(key) and key not in n.storage)
            n[key] = tree(key, depth - 1, 1, cls, attrs)
    return n


def roundtrip(t):
    r = deserialize(serialize(t))
    ensure('equal', equal(t, r))
    ensure('no parent', r.__parent__ is None)
    ensure('new nodes', r is not t)
    cover('end')


@contract('C22', limit='up to one attribute')
def single_node():
    """Classes, names and attributes."""
    roundtrip(tree(leaf(one_of(0, 1, 2)), 0, 0, one_of(*NODES), 1))


@contract('C22', limit='up to 3 levels')
def attribute_structures():
    n = OrderedTree()
    n.attrs[any_str()] = structure(2, 1, (0, 2))
    n.attrs[any_str()] = leaf(upto(1))
    roundtrip(n)


@contract('C22', limit='trees up to 2 levels')
def deep_trees():
    roundtrip(tree(None, 2, 1, None, 0))


@contract('C22', limit='nodes up to 3 children')
def children_order():
    roundtrip(tree(None, 1, 3, OrderedTree, 0))


@contract('C22', limit='trees up to 2 levels')
def referencing_trees():
    roundtrip(tree(None, 2, 1, Twig, 0))


@contract('C22', limit='trees up to 2 levels')
def with_root():
    """Nodes get children of the given root."""
    key = any_text()
    assume(not special(key))
    t = tree(key, 1, 1, None, 0)
    root = one_of(OrderedTree, FalseTree)()
    root['other'] = other = Tree()
    assume(key != 'other')
    kind = upto(2)
    if kind == 0:
        r = deserialize(serialize(t), root=root)
    elif kind == 1:
        r = deserialize(serialize([t, 1]), root=root)[0]
    else:
        r = deserialize(serialize({'x': [t]}), root=root)['x'][0]
    ensure('equal', equal(t, r))
    ensure('child of the root', root[key] is r)
    ensure('parent', r.__parent__ is root)
    ensure('others kept', root['other'] is other)
    ensure('added last', list(root.storage) == ['other', key])
    cover('end')


@contract('C22', limit='trees up to 2 levels')
def nodes_in_structures():
    """Lists and dictionaries of nodes and other values."""
    t, u = tree(any_text(), 1, 1, None, 0), tree(None, 0, 1, OrderedTree)
    v = leaf(upto(3))
    data = [t, {'u': u, 'v': v, 'w': [v]}]
    r = deserialize(serialize(data))
    ensure('equal', equal(data, r))
    cover('end')


# -- trees of any size: children are decoded and encoded as specified


class Coded(Guarded):
    """Any value which is encoded and decoded by the contracts of
    ``default`` and ``decode``; stands for the value, the serialized value and
    the deserialized value."""
    __fields__ = {'encoded': 'bool', 'decoded': 'bool'}


@implementer(INode)
class CodedNode(Coded):
    """Any tree, becomes a child of its parent when it is decoded."""
    __fields__ = {'encoded': 'bool', 'decoded': 'bool', '__name__': 'str',
                  '__parent__': ('none', 'obj')}

    @property
    def name(self):
        return self.__name__


@plumbing(Nodify, DictStorage)
class Bare(object):
    """Storing children is all it does."""


@plumbing(Nodespaces, Attributes, DefaultInit, Nodify, OdictStorage)
class BareWithAttributes(object):
    pass


class Encoder(NodeEncoder):

    def default(self, ob):
        if isinstance(ob, Coded):
            ob.encoded = True
            return ob
        return NodeEncoder.default(self, ob)


class Decoder(NodeDecoder):

    def decode(self, data, parent=None):
        if isinstance(data, Coded):
            data.decoded = True
            if parent is not None:
                parent[data.__name__] = data
            return data
        return NodeDecoder.decode(self, data, parent)


@contract('C22')
def any_children():
    """Trees of any size: nodes with children which are encoded and decoded
    as they should be are so themselves."""
    cls = one_of(Bare, BareWithAttributes)
    n = cls()
    n.__name__ = any_value('none', 'str')
    assume(n.name != '<UNSET>' and not (
        n.name is not None and n.name.startswith('<UUID>:')))
    any_map(n.storage, 'plain', CodedNode, named=True)
    s = content(n.storage)
    k = any_str()
    kid = m_get(s, k) if m_has(s, k) else None
    if kid is not None:
        assume(not kid.encoded and not kid.decoded)
        m_pos(s, k)
    else:
        assume(m_len(s) == 0)
    d = Encoder().default(n)
    ensure_map('original unchanged', content(n.storage), s)
    if kid is not None and not kid.encoded:
        outside('children are encoded in another way')
    r = Decoder().decode(d)
    if kid is not None and not kid.decoded:
        outside('children are decoded in another way')
    ensure('class', type(r) is cls and r is not n)
    ensure('name', same(r.name, n.name))
    ensure('no parent', r.__parent__ is None)
    ensure_map('children', content(r.storage), s)
    if kid is not None:
        cover('child')


@contract('C22')
def any_attributes():
    """Any number of attributes with any values."""
    n = BareWithAttributes()
    any_map(n.attrs.storage, 'str', (Coded, 'none', 'int'))
    s = content(n.attrs.storage)
    k = any_str()
    val = m_get(s, k) if m_has(s, k) else None
    if isinstance(val, Coded):
        assume(not val.encoded and not val.decoded)
        m_pos(s, k)
    d = Encoder().default(n)
    ensure_map('original unchanged', content(n.attrs.storage), s)
    if isinstance(val, Coded) and not val.encoded:
        outside('attributes are encoded in another way')
    r = Decoder().decode(d)
    ensure('class', type(r) is type(n) and r is not n)
    ensure('no children', len(r.storage) == 0)
    ensure_map('attributes', content(r.attrs.storage), s)
    if isinstance(val, Coded):
        if not val.decoded:
            outside('values are decoded in another way')
        cover('value')


@contract('C22')
def any_structures():
    """Lists and dictionaries of any values are decoded element by
    element."""
    kind = upto(1)
    k = any_str()
    val = None
    if kind == 0:
        v = any_list((Coded, 'none', 'int'))
        i = any_int()
        if 0 <= i and i < len(v):
            val = v[i]
    else:
        v = any_map({}, 'str', (Coded, 'none', 'int'))
        c = content(v)
        assume(not m_has(c, '__node__') and not m_has(c, '__ob__'))
        if m_has(c, k):
            val = m_get(c, k)
            m_pos(c, k)
    if isinstance(val, Coded):
        assume(not val.decoded)
    r = Decoder().decode(v)
    ensure('new object', r is not v)
    if kind == 0:
        ensure_seq('list', r, v)
    else:
        ensure_map('dictionary', content(r), content(v))
    if isinstance(val, Coded):
        if not val.decoded:
            outside('values are decoded in another way')
        cover('value')


# -- simple mode


def equal_simple(n, d, with_class):
    """Simple mode output of a node."""
    keys = ['name']
    if with_class:
        keys.append('class')
        if d['class'] != '.'.join([type(n).__module__, type(n).__name__]):
            return False
    if not same(d['name'], n.name):
        return False
    if len(n.storage):
        keys.append('children')
        kids = list(n.storage.values())
        if len(d['children']) != len(kids):
            return False
        for x, y in zip(kids, d['children']):
            if not equal_simple(x, y, with_class):
                return False
    if IAttributes.providedBy(n):
        keys.append('attrs')
        if not list(d['attrs']) == list(n.attrs.storage):
            return False
        for key, val in n.attrs.items():
            if not same(d['attrs'][key], val):
                return False
    return sorted(keys) == sorted(d)


@contract('C22', limit='trees up to 2 levels')
def simple_mode():
    t = tree(any_str(), 2, 1, None, 0)
    if IAttributes.providedBy(t):
        t.attrs[any_str()] = any_value('int', 'none', 'str')
    kind = upto(2)
    if kind == 0:
        d = json.loads(serialize(t, simple_mode=True))
    elif kind == 1:
        d = json.loads(serialize(t, True, include_class=False))
    else:
        d = json.loads(serialize(t, True, include_class=True))
    ensure('data', equal_simple(t, d, kind == 2))
    cover('end')


@contract('C22', limit='up to one attribute')
def full_mode_has_class():
    """Class names are always there for deserializing."""
    t = tree(None, 0, 0)
    d = json.loads(serialize(t, include_class=any_bool()))
    ensure('class', d['__node__']['class'] ==
           '.'.join(['c22', type(t).__name__]))
    cover('end')


# -- registered serializers


class ISpecial(Interface):
    """Interface with a serializer."""


@implementer(ISpecial)
class SpecialTree(Tree):

    def __init__(self, special=None, name=None, parent=None):
        super(SpecialTree, self).__init__(name=name, parent=parent)
        self.special = special
        self.extra = None


@serializer(ISpecial)
def serialize_special(encoder, node, data):
    data['kw'] = {'special': encoder.default(node.special)}


@serializer(SpecialTree)
def serialize_special_tree(encoder, node, data):
    data['extra'] = node.extra


@deserializer(SpecialTree)
def deserialize_special_tree(decoder, node, data):
    node.extra = decoder.decode(data['extra'])


@contract('C22', limit='one node with two children')
def custom_serializers():
    """Of interfaces and of classes, for the nodes they are meant for."""
    t = SpecialTree(leaf(upto(4)), 'x')
    t.extra = leaf(upto(3))
    o = OrderedTree()
    o['x'] = t
    o['y'] = Tree()
    r = deserialize(serialize(o))
    ensure('equal', equal_tree(o, r))
    ensure('keyword argument', equal(t.special, r['x'].special))
    ensure('own data', equal(t.extra, r['x'].extra))
    d = json.loads(serialize(o))['__node__']
    ensure('not for others', 'kw' not in d and 'extra' not in d and
           'kw' not in d['children'][1]['__node__'])
    cover('end')


# -- known limits


@contract('C22')
def known_marker_texts():
    """Texts which look like a marker come back as texts."""
    s = one_of('<UNSET>', '<UUID>:' + any_str())
    r = outcome(deserialize, serialize(s))
    ensure('text', is_ok(r) and equal(s, r[1]))


@contract('C22')
def known_marker_dicts():
    """Dictionaries with the marker keys."""
    d = {one_of('__ob__', '__node__'): one_of('x', 'c22.a_function')}
    r = outcome(deserialize, serialize(d))
    ensure('dictionary', is_ok(r) and equal(d, r[1]))
