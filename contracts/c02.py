from common import *        # noqa


def _setitem(n, keys, vals):
    any_map(n.storage, keys, vals)
    old = content(n.storage)
    k = any_value(keys)
    v = any_value(vals)
    n[k] = v
    ensure_map('contents after store', content(n.storage), m_put(old, k, v))
    ensure('stored object is looked up', same(n[k], v))
    cover('end')


def _delitem(n, keys, vals):
    any_map(n.storage, keys, vals)
    old = content(n.storage)
    k = any_key()
    assume(not special(k))
    r = outcome(delitem, n, k)
    if m_has(old, k):
        ensure('deleting succeeds', is_ok(r))
        ensure_map('contents after delete', content(n.storage), m_del(old, k))
        ensure('key is gone', raised(outcome(getitem, n, k), KeyError))
        cover('deleted')
    else:
        ensure('KeyError for absent key', raised(r, KeyError))
        ensure_map('contents unchanged', content(n.storage), old)
        ensure('lookup KeyError', raised(outcome(getitem, n, k), KeyError))
        ensure_map('contents still unchanged', content(n.storage), old)
        cover('absent')


@contract('C02')
def storage_setitem():
    _setitem(one_of(DNode, ONode)(), 'key', 'any')


@contract('C02')
def storage_delitem():
    _delitem(one_of(DNode, ONode)(), 'key', 'any')


@contract('C02')
def base_node_setitem():
    _setitem(one_of(BaseNode, OrderedNode)(), 'key', ANode)


@contract('C02')
def base_node_delitem():
    _delitem(one_of(BaseNode, OrderedNode)(), 'key', ANode)


@contract('C02')
def full_node_setitem():
    n = one_of(Node, AttributedNode)()
    n.allow_non_node_childs = True
    _setitem(n, 'regular', 'any')


@contract('C02')
def full_node_delitem():
    n = one_of(Node, AttributedNode)()
    n.allow_non_node_childs = True
    _delitem(n, 'regular', 'any')


@contract('C02')
def attributes_setitem():
    _setitem(NodeAttributes(None, None), 'key', 'any')


@contract('C02')
def attributes_delitem():
    _delitem(NodeAttributes(None, None), 'key', 'any')


@contract('C02')
def storages_are_not_shared():
    cls = one_of(DNode, ONode, BaseNode, OrderedNode, Node, AttributedNode)
    a, b = cls(), cls()
    any_map(a.storage, 'regular', 'any')
    any_map(b.storage, 'regular', 'any')
    sa, sb = content(a.storage), content(b.storage)
    if cls is DNode or cls is ONode:
        v = any_value()
    else:
        v = cls()
    k = any_value('regular')
    op = upto(1)
    if op:
        a[k] = v
    else:
        outcome(delitem, a, k)
    ensure_map('contents of the other node', content(b.storage), sb)
    c = cls()
    ensure('a new node is empty', len(c) == 0 and c.keys() == [])
    ensure_map('contents of the other node again', content(b.storage), sb)
    cover('end')


@contract('C02')
def set_delete_sequence():
    """Any operation after any other on the same node."""
    n = one_of(DNode, ONode)()
    any_map(n.storage, 'key', 'any')
    s = content(n.storage)
    k1, v1 = any_key(), any_value()
    k2, v2 = any_key(), any_value()
    n[k1] = v1
    s = m_put(s, k1, v1)
    if any_bool():
        r = outcome(delitem, n, k2)
        ensure('delete succeeds for present keys only',
               is_ok(r) == m_has(s, k2))
        s = m_del(s, k2)
    else:
        n[k2] = v2
        s = m_put(s, k2, v2)
    ensure_map('contents', content(n.storage), s)
    cover('end')
