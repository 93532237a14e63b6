"""Attribute access and reverse mapping."""
from common import *        # noqa
from node.behaviors import AsAttrAccess
from node.behaviors import GetattrChildren
from node.utils import AttributeAccess
from node.utils import ReverseMapping


@plumbing(AsAttrAccess, Nodify, OdictStorage)
class Access(object):
    """Node with attribute access wrapper."""


def regular(name):
    """Attributes of the wrapper itself."""
    return name == 'context' or name.startswith('__')


def any_context():
    """Arbitrary mapping, its storage."""
    kind = upto(4)
    if kind == 0:
        m = s = {}
    elif kind == 1:
        m = s = odict()
    elif kind == 2:
        m = DNode()
        s = m.storage
    elif kind == 3:
        m = Access()
        s = m.storage
    else:
        m = one_of(BaseNode, OrderedNode)()
        m.allow_non_node_childs = True
        s = m.storage
    any_map(s, 'str', ('none', 'int', 'str', ANode))
    return m, s


def wrapper(m):
    if isinstance(m, (Access, BaseNode, OrderedNode)) and any_bool():
        return m.as_attribute_access()
    return AttributeAccess(m)


@contract('C24')
def attribute_read():
    m, s = any_context()
    w = wrapper(m)
    before = content(s)
    for name in ('title', 'values', 'keys', 'get', 'storage', '_x'):
        r = outcome(getattr, w, name)
        if m_has(before, name):
            ensure('item', is_ok(r) and same(r[1], m_get(before, name)))
            ensure('has', hasattr(w, name))
            cover('found')
        else:
            ensure('missing', raised_exactly(r, AttributeError))
            ensure('default', getattr(w, name, 5) == 5)
            cover('missing')
    ensure_map('unchanged', content(s), before)


@contract('C24')
def attribute_set():
    m, s = any_context()
    w = wrapper(m)
    before = content(s)
    v = any_value('none', 'int', 'str', ANode)
    name = one_of('title', 'values', 'storage', 'context', '_x')
    setattr(w, name, v)
    ensure_map('stored', content(s), m_put(before, name, v))
    if name != 'context':
        ensure('read', same(getattr(w, name), v))
    ensure('same mapping', object.__getattribute__(w, 'context') is m)
    cover('end')


@contract('C24')
def item_access():
    m, s = any_context()
    w = wrapper(m)
    before = content(s)
    key = any_str()
    r = outcome(getitem, w, key)
    if m_has(before, key):
        ensure('item', is_ok(r) and same(r[1], m_get(before, key)))
    else:
        ensure('missing', raised_exactly(r, KeyError))
    ensure_map('unchanged', content(s), before)
    v = any_value('none', 'int', 'str', ANode)
    w[key] = v
    ensure_map('stored', content(s), m_put(before, key, v))
    cover('end')


@contract('C24')
def item_delete():
    m, s = any_context()
    w = wrapper(m)
    before = content(s)
    key = any_str()
    r = outcome(delitem, w, key)
    if m_has(before, key):
        ensure('deleted', is_ok(r))
        ensure_map('others kept', content(s), m_del(before, key))
        cover('deleted')
    else:
        ensure('missing', raised_exactly(r, KeyError))
        ensure_map('unchanged', content(s), before)
        cover('missing')


class Failing(object):
    """Mapping failing with another error."""

    def __getitem__(self, key):
        raise ValueError(key)


@contract('C24')
def other_errors():
    w = AttributeAccess(Failing())
    ensure('error of the mapping', raised_exactly(
        outcome(getattr, w, 'x'), ValueError))
    ensure('error of the mapping for items', raised_exactly(
        outcome(getitem, w, 'x'), ValueError))
    cover('end')


@contract('C24')
def independent_wrappers():
    """Several wrappers of different mappings."""
    m, s = any_context()
    t = any_map({}, 'str', ('none', 'int'))
    w, x = wrapper(m), AttributeAccess(t)
    a, b = content(s), content(t)
    w.title = 1
    ensure_map('other one unchanged', content(t), b)
    x.title = 2
    ensure_map('first one', content(s), m_put(a, 'title', 1))
    ensure('read', w.title == 1 and x.title == 2)
    cover('end')


@contract('C24')
def wrappers_of_nodes():
    """Every base node gives a wrapper of itself."""
    n = one_of(BaseNode, OrderedNode, Node, AttributedNode)()
    any_map(n.storage, 'regular', ANode)
    before = content(n.storage)
    w = n.as_attribute_access()
    ensure('wrapper', type(w) is AttributeAccess)
    ensure('of the node', object.__getattribute__(w, 'context') is n)
    r = outcome(getattr, w, 'title')
    if m_has(before, 'title'):
        ensure('child', is_ok(r) and same(r[1], m_get(before, 'title')))
    else:
        ensure('missing', raised_exactly(r, AttributeError))
    ensure_map('unchanged', content(n.storage), before)
    cover('end')


# -- children as attributes


@plumbing(GetattrChildren, Nodify, OdictStorage)
class Kids(object):
    """Children as attributes."""
    regular = 17

    def method(self):
        return 18


class Defaults(Kids):
    """Children made on access."""

    def __getitem__(self, key):
        if key == 'made':
            return 19
        return super(Defaults, self).__getitem__(key)


def kids():
    n = Kids()
    any_map(n.storage, 'str', ('none', 'int', 'str', ANode))
    return n


@contract('C24')
def children():
    n = kids()
    before = content(n.storage)
    for name in ('title', 'x', '_y', 'CamelCase'):
        r = outcome(getattr, n, name)
        if m_has(before, name):
            ensure('child', is_ok(r) and same(r[1], m_get(before, name)))
            cover('found')
        else:
            ensure('missing', raised_exactly(r, AttributeError))
            ensure('default', getattr(n, name, 5) == 5)
            ensure('has not', not hasattr(n, name))
            cover('missing')
    ensure_map('unchanged', content(n.storage), before)


@contract('C24')
def regular_attributes_first():
    n = kids()
    before = content(n.storage)
    s = n.storage
    ensure('class attribute', n.regular == 17 and n.method() == 18)
    ensure('property', n.name is None and n.parent is None)
    ensure('storage', n.storage is s)
    n.own = 20
    ensure('instance attribute', n.own == 20)
    ensure('item not shadowed', not m_has(before, 'regular') or same(
        n['regular'], m_get(before, 'regular')))
    ensure_map('unchanged', content(n.storage), before)
    cover('end')


@contract('C24')
def own_lookup():
    """Children are looked up like items."""
    n = Defaults()
    any_map(n.storage, 'str', ('none', 'int'))
    before = content(n.storage)
    ensure('made', n.made == 19)
    r = outcome(getattr, n, 'title')
    if m_has(before, 'title'):
        ensure('child', is_ok(r) and same(r[1], m_get(before, 'title')))
    else:
        ensure('missing', raised_exactly(r, AttributeError))
    cover('end')


# -- reverse mapping


VALS = ('none', 'int', 'str')


def reversed_map():
    kind = upto(2)
    m = {} if kind == 0 else odict() if kind == 1 else ONode()
    s = m.storage if kind == 2 else m
    any_map(s, 'str', VALS)
    return ReverseMapping(m), s


def first_key(s, v):
    """First key having the value, by the contract of mappings."""
    for key in s:
        if s[key] == v:
            return True, key
    return False, None


@contract('C24')
def reverse_lists():
    r, s = reversed_map()
    before = content(s)
    ensure('length', len(r) == m_len(before))
    ensure_seq('keys', list(r.keys()), m_values(before))
    ensure_seq('iteration', list(r), m_values(before))
    ensure_seq('values', list(r.values()), m_keys(before))
    ensure_seq('items', list(r.items()),
               [(v, k) for k, v in m_items(before)])
    ensure_map('unchanged', content(s), before)
    cover('end')


@contract('C24')
def reverse_lookup():
    """The first key having the value."""
    r, s = reversed_map()
    before = content(s)
    v = any_value(*VALS)
    found, key = first_key(s, v)
    q = outcome(getitem, r, v)
    if found:
        ensure('key', is_ok(q) and same(q[1], key))
        ensure('get', same(r.get(v), key) and same(r.get(v, 1), key))
        cover('found')
    else:
        ensure('missing', raised_exactly(q, KeyError))
        ensure('default', r.get(v) is None and r.get(v, 1) == 1)
        cover('missing')
    ensure('contained', (v in r) == found)
    ensure_map('unchanged', content(s), before)


@contract('C24')
def reverse_lookup_of_items():
    """For any item there is a key with an equal value, not a later one."""
    r, s = reversed_map()
    before = content(s)
    key = pick(m_keys(before))
    v = m_get(before, key)
    k = r[v]
    ensure('equal value', m_has(before, k) and m_get(before, k) == v)
    ensure('contained', v in r)
    ensure_all('first one', list(before_keys(s, k)),
               lambda x: s[x] != v)
    cover('end')


def before_keys(s, key):
    for k in s:
        if k == key:
            return
        yield k


@contract('C24')
def reverse_view():
    """Changes of the mapping are seen."""
    m = any_map(odict(), 'str', 'int')
    r = ReverseMapping(m)
    n = m_len(content(m))
    k = any_str()
    assume(k not in m)
    m[k] = 'new'
    ensure('length', len(r) == n + 1)
    ensure('found', r['new'] == k and 'new' in r)
    ensure('last', list(r.values())[len(r) - 1] == k)
    del m[k]
    ensure('gone', 'new' not in r and len(r) == n)
    cover('end')
