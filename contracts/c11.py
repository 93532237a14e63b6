"""Nodespaces and attributes."""
from common import *        # noqa
from node.behaviors import Nodespaces
from node.utils import AttributeAccess


@plumbing(Nodespaces, Nodify, DictStorage)
class SpaceNode(object):
    pass


@plumbing(Nodespaces, Attributes, Adopt, Nodify, OdictStorage)
class AttrNode(object):
    pass


@plumbing(Nodespaces, Attributes, Nodify, OdictStorage)
class AccessNode(object):
    attribute_access_for_attrs = True


def some_node(*classes):
    """Node with arbitrary children and nodespaces."""
    cls = one_of(*classes)
    n = cls()
    any_map(n.storage, 'regular', (ANode, 'none', 'int'))
    return n


def spaces(n):
    """Give n arbitrary nodespaces."""
    n._nodespaces = odict()
    any_map(n._nodespaces, 'str', ANode)
    n._nodespaces['__children__'] = n
    return content(n.nodespaces)


ALL = (SpaceNode, AttrNode, Node, AttributedNode)


@contract('C11')
def special_set():
    n = some_node(*ALL)
    old = spaces(n)
    kids = content(n.storage)
    k = any_str()
    assume(special(k))
    v = any_obj(ANode)
    n[k] = v
    ensure_map('children unchanged', content(n.storage), kids)
    ensure_map('nodespace stored', content(n.nodespaces), m_put(old, k, v))
    ensure('name', v.__name__ == k)
    ensure('parent', v.__parent__ is n)
    ensure('lookup', n[k] is v)
    ensure_untouched('nothing else changed', v, n)
    cover('end')


@contract('C11')
def special_set_first():
    """On nodes whose nodespaces were not used so far."""
    n = some_node(*ALL)
    kids = content(n.storage)
    k = any_str()
    assume(special(k))
    v = any_obj(ANode)
    n[k] = v
    ensure_map('children unchanged', content(n.storage), kids)
    ensure_map('nodespace stored', content(n.nodespaces),
               m_put(m_put(m_empty(), '__children__', n), k, v))
    ensure('name', v.__name__ == k)
    ensure('parent', v.__parent__ is n)
    cover('end')


@contract('C11')
def special_get():
    n = some_node(*ALL)
    old = spaces(n)
    kids = content(n.storage)
    k = any_str()
    assume(special(k))
    r = outcome(getitem, n, k)
    if m_has(old, k):
        ensure('nodespace', is_ok(r) and r[1] is m_get(old, k))
        cover('present')
    else:
        ensure('KeyError', raised(r, KeyError))
        cover('absent')
    ensure_map('children unchanged', content(n.storage), kids)
    ensure_map('nodespaces unchanged', content(n.nodespaces), old)
    ensure_untouched('nothing changed')


@contract('C11')
def special_del():
    n = some_node(*ALL)
    old = spaces(n)
    kids = content(n.storage)
    k = any_str()
    assume(special(k))
    r = outcome(delitem, n, k)
    if m_has(old, k):
        ensure('deleted', is_ok(r))
        ensure_map('nodespace removed', content(n.nodespaces), m_del(old, k))
        cover('present')
    else:
        ensure('KeyError', raised(r, KeyError))
        ensure_map('nodespaces unchanged', content(n.nodespaces), old)
        cover('absent')
    ensure_map('children unchanged', content(n.storage), kids)


@contract('C11')
def children_namespace():
    n = some_node(*ALL)
    kids = content(n.storage)
    ensure('children namespace is the node', n['__children__'] is n)
    ensure('children namespace is the node', n.nodespaces['__children__'] is n)
    ensure('nodespaces are created once', n.nodespaces is n.nodespaces)
    r = outcome(getitem, n, '__other__')
    ensure('others are absent', raised(r, KeyError))
    ensure_map('children unchanged', content(n.storage), kids)
    m = type(n)()
    ensure('own nodespaces', m.nodespaces is not n.nodespaces and
           m['__children__'] is m)
    cover('end')


@contract('C11')
def regular_set():
    n = some_node(*ALL)
    old = spaces(n)
    kids = content(n.storage)
    k = any_key()
    assume(not special(k))
    v = type(n)()
    n[k] = v
    ensure_map('nodespaces unchanged', content(n.nodespaces), old)
    ensure_map('child stored', content(n.storage), m_put(kids, k, v))
    ensure('lookup', n[k] is v)
    cover('end')


@contract('C11')
def regular_get():
    n = some_node(*ALL)
    old = spaces(n)
    kids = content(n.storage)
    k = any_key()
    assume(not special(k))
    r = outcome(getitem, n, k)
    if m_has(kids, k):
        ensure('child', is_ok(r) and r[1] is m_get(kids, k))
        cover('present')
    else:
        ensure('KeyError', raised(r, KeyError))
        cover('absent')
    ensure('contained', (k in n) == m_has(kids, k))
    ensure_map('children unchanged', content(n.storage), kids)
    ensure_map('nodespaces unchanged', content(n.nodespaces), old)


@contract('C11')
def regular_del():
    n = some_node(*ALL)
    old = spaces(n)
    kids = content(n.storage)
    k = any_key()
    assume(not special(k))
    r = outcome(delitem, n, k)
    if m_has(kids, k):
        ensure('deleted', is_ok(r))
        ensure_map('child removed', content(n.storage), m_del(kids, k))
        cover('present')
    else:
        ensure('KeyError', raised(r, KeyError))
        ensure_map('children unchanged', content(n.storage), kids)
        cover('absent')
    ensure_map('nodespaces unchanged', content(n.nodespaces), old)


@contract('C11')
def unaddressable_keys():
    """Tuples and objects as keys never touch nodespaces."""
    n = some_node(SpaceNode, AttrNode)
    old = spaces(n)
    kids = content(n.storage)
    k = one_of(('__a__',), (), b'__a__', b'____', 1, None, True)
    assume(not m_has(kids, k) if not isinstance(k, (tuple, bytes)) else True)
    ensure('absent', raised(outcome(getitem, n, k), KeyError))
    ensure('absent on delete', raised(outcome(delitem, n, k), KeyError))
    ensure_map('children unchanged', content(n.storage), kids)
    v = any_obj(ANode)
    n[k] = v
    ensure('stored as child', n[k] is v and n.storage[k] is v)
    ensure_map('nodespaces unchanged', content(n.nodespaces), old)
    cover('end')


@contract('C11')
def iteration_shows_regular_children_only():
    n = some_node(*ALL)
    spaces(n)
    kids = content(n.storage)
    ensure_seq('keys', n.keys(), m_keys(kids))
    ensure_seq('values', n.values(), m_values(kids))
    ensure('len', len(n) == m_len(kids))
    cover('end')


@contract('C11')
def attributes():
    n = some_node(AttrNode, Node, AttributedNode)
    old = spaces(n)
    kids = content(n.storage)
    attrs = n.attrs
    if m_has(old, '__attrs__'):
        ensure('existing attributes', attrs is m_get(old, '__attrs__'))
        ensure_map('nodespaces unchanged', content(n.nodespaces), old)
        cover('present')
    else:
        ensure('type', type(attrs) is n.attributes_factory)
        ensure('name', attrs.__name__ == '__attrs__')
        ensure('parent', attrs.__parent__ is n)
        ensure('empty', len(attrs.storage) == 0)
        ensure_map('nodespace created', content(n.nodespaces),
                   m_put(old, '__attrs__', attrs))
        cover('absent')
    now = content(n.nodespaces)
    ensure('once', n.attrs is attrs)
    ensure('nodespace', n['__attrs__'] is attrs)
    ensure('old name', n.attributes is attrs)
    ensure_map('children unchanged', content(n.storage), kids)
    ensure_map('nodespaces unchanged', content(n.nodespaces), now)
    ensure_untouched('nothing else changed', attrs, n)


@contract('C11')
def attribute_values():
    """Attributes take any value and belong to their node only."""
    cls = one_of(AttrNode, Node, AttributedNode)
    n, m = cls(), cls()
    any_map(n.storage, 'regular', (ANode, 'none', 'int'))
    kids = content(n.storage)
    a, b = n.attrs, m.attrs
    ensure('not shared', a is not b and a.storage is not b.storage)
    any_map(a.storage, 'key', 'any')
    any_map(b.storage, 'key', 'any')
    sa, sb = content(a.storage), content(b.storage)
    k, v = any_key(), any_value()
    a[k] = v
    ensure('value', same(n.attrs[k], v))
    ensure_map('stored', content(a.storage), m_put(sa, k, v))
    k2 = any_key()
    r = outcome(delitem, n.attrs, k2)
    if m_has(m_put(sa, k, v), k2):
        ensure('deleted', is_ok(r))
    else:
        ensure('KeyError', raised(r, KeyError))
    ensure_map('removed', content(a.storage), m_del(m_put(sa, k, v), k2))
    ensure_map('other attributes', content(b.storage), sb)
    ensure_map('children unchanged', content(n.storage), kids)
    ensure('attributes nodespace', len(n.nodespaces) == 2 and
           n.nodespaces['__attrs__'] is a)
    cover('end')


@contract('C11')
def attribute_access():
    """Attributes reached by attribute access."""
    n, m = AccessNode(), AccessNode()
    access = n.attrs
    ensure('type', type(access) is AttributeAccess)
    inner = n['__attrs__']
    ensure('attributes', type(inner) is NodeAttributes and
           inner.__parent__ is n and inner.__name__ == '__attrs__')
    any_map(inner.storage, 'key', 'any')
    s = content(inner.storage)
    v = any_value()
    n.attrs.foo = v
    ensure_map('attribute stored', content(inner.storage),
               m_put(s, 'foo', v))
    ensure('attribute', same(n.attrs.foo, v) and same(n.attrs['foo'], v))
    s = content(inner.storage)
    if m_has(s, 'bar'):
        ensure('other attribute', same(n.attrs.bar, m_get(s, 'bar')))
        cover('present')
    else:
        r = outcome(getattr, n.attrs, 'bar')
        ensure('AttributeError', raised(r, AttributeError))
        cover('absent')
    ensure_map('unchanged', content(inner.storage), s)
    ensure('same attributes again', n['__attrs__'] is inner)
    ensure('other node', len(m['__children__'].storage) == 0 and
           raised(outcome(getattr, m.attrs, 'foo'), AttributeError))


@contract('C11')
def unadoptable_nodespace():
    """Values which can not get name and parent are refused."""
    n = some_node(SpaceNode, AttrNode)
    old = spaces(n)
    kids = content(n.storage)
    k = any_str()
    assume(special(k))
    r = outcome(setitem, n, k, any_value('none', 'int', 'str', 'bool'))
    ensure('rejected', raised(r, AttributeError))
    ensure_map('nodespaces unchanged', content(n.nodespaces), old)
    ensure_map('children unchanged', content(n.storage), kids)
    cover('end')
