from common import *        # noqa


def reading_node(cls, keys='key'):
    n = cls()
    any_map(n.storage, keys, 'any')
    return n


def _listings(cls, keys='key'):
    n = reading_node(cls, keys)
    s = content(n.storage)
    ensure_seq('iteration lists the keys in order', n, m_keys(s))
    ensure_seq('keys', n.keys(), m_keys(s))
    ensure_seq('values', n.values(), m_values(s))
    ensure_seq('items', n.items(), m_items(s))
    ensure_seq('iterkeys', n.iterkeys(), m_keys(s))
    ensure_seq('itervalues', n.itervalues(), m_values(s))
    ensure_seq('iteritems', n.iteritems(), m_items(s))
    ensure('length', len(n) == m_len(s))
    ensure_map('reading changes nothing', content(n.storage), s)
    cover('listed')


def _lookups(cls):
    n = reading_node(cls)
    s = content(n.storage)
    k = any_key()
    d = any_value()
    assume(not special(k))
    present = m_has(s, k)
    r = outcome(getitem, n, k)
    if present:
        v = m_get(s, k)
        ensure('lookup gives the value', is_ok(r) and same(r[1], v))
        ensure('get gives the value', same(n.get(k), v))
        ensure('get with default gives the value', same(n.get(k, d), v))
        ensure('get with named default', same(n.get(k, default=d), v))
        ensure('key is contained', (k in n) is True)
        ensure('has_key', n.has_key(k) is True)         # noqa
        cover('present')
    else:
        ensure('lookup of absent key raises KeyError', raised(r, KeyError))
        ensure('get gives None', n.get(k) is None)
        ensure('get gives the default', same(n.get(k, d), d))
        ensure('get gives the named default', same(n.get(k, default=d), d))
        ensure('key is not contained', (k in n) is False)
        ensure('not has_key', n.has_key(k) is False)    # noqa
        cover('absent')
    ensure_map('reading changes nothing', content(n.storage), s)


@contract('C01')
def mapping_listings():
    _listings(Mapped)


@contract('C01')
def mapping_lookups():
    _lookups(Mapped)


@contract('C01')
def storage_listings():
    _listings(one_of(DNode, ONode))


@contract('C01')
def storage_lookups():
    _lookups(one_of(DNode, ONode))


@contract('C01')
def base_node_listings():
    _listings(one_of(BaseNode, OrderedNode))


@contract('C01')
def base_node_lookups():
    _lookups(one_of(BaseNode, OrderedNode))


@contract('C01')
def full_node_listings():
    _listings(one_of(Node, AttributedNode), 'regular')


@contract('C01')
def full_node_lookups():
    _lookups(one_of(Node, AttributedNode))


@contract('C01')
def attributes_listings():
    a = NodeAttributes(None, None)
    any_map(a.storage, 'key', 'any')
    s = content(a.storage)
    ensure_seq('keys', a.keys(), m_keys(s))
    ensure_seq('values', a.values(), m_values(s))
    ensure_seq('items', a.items(), m_items(s))
    ensure('length', len(a) == m_len(s))
    ensure('attributes are true', bool(a) is True)
    cover('end')


@contract('C01')
def attributes_lookups():
    a = NodeAttributes(None, None)
    any_map(a.storage, 'key', 'any')
    s = content(a.storage)
    k = any_key()
    d = any_value()
    if m_has(s, k):
        ensure('value', same(a[k], m_get(s, k)))
        ensure('contained', (k in a) is True)
        ensure('get', same(a.get(k, d), m_get(s, k)))
        cover('present')
    else:
        ensure('KeyError', raised(outcome(getitem, a, k), KeyError))
        ensure('not contained', (k in a) is False)
        ensure('default', same(a.get(k, d), d))
        cover('absent')


@contract('C01')
def node_truth():
    n = one_of(DNode, ONode, BaseNode, OrderedNode, Node, AttributedNode)()
    any_map(n.storage, 'str', 'any')
    if n:
        cover('true')
        ensure('node is true', bool(n) is True)
    else:
        ensure('node is never false', False)
    s = content(n.storage)
    ensure_map('no change', content(n.storage), s)
