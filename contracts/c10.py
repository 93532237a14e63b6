from subtrees import *      # noqa


@implementer(INode)
class Indexed(object):
    """Other node of the tree."""
    __fields__ = {'uuid': 'uuid', 'truth': 'bool'}

    def __bool__(self):
        return self.truth


def indexed_node():
    """Node in a tree with arbitrary other nodes."""
    n = one_of(Node, AttributedNode)()
    index = getattr(n, '_index', None)
    assume(isinstance(index, dict))
    any_map(index, 'int', Indexed)
    index[int(n.uuid)] = n
    return n, index


@contract('C10')
def assigning_uuids():
    n, index = indexed_node()
    s = content(index)
    old = n.uuid
    u = any_uuid()
    p = any_uuid()
    before = n.node(p)
    r = outcome(setattr, n, 'uuid', u)
    if m_has(s, int(u)) and m_get(s, int(u)) is not n:
        ensure('used uuid is rejected', raised(r, ValueError))
        ensure('uuid is unchanged', n.uuid == old)
        ensure('lookups are unchanged', same(n.node(p), before))
        ensure_map('index is unchanged', content(index), s)
        cover('used')
    else:
        ensure('accepted', is_ok(r))
        ensure('uuid', n.uuid == u)
        ensure('found under new uuid', n.node(u) is n)
        if p == u:
            ensure('probe is new uuid', n.node(p) is n)
            cover('new')
        elif p == old:
            ensure('not found under old uuid', n.node(p) is None)
            ensure('old uuid not in index', p not in n.index)
            cover('old')
        else:
            ensure('other lookups are unchanged', same(n.node(p), before))
            cover('other')
    ensure_untouched('other nodes are unchanged', n)


@contract('C10')
def assigning_own_uuid():
    n, index = indexed_node()
    s = content(index)
    old = n.uuid
    p = any_uuid()
    before = n.node(p)
    if any_bool():
        n.uuid = n.uuid
    else:
        n.uuid = uuid.UUID(int=int(old))
    ensure('same uuid', n.uuid == old)
    ensure('found', n.node(old) is n)
    ensure('lookups are unchanged', same(n.node(p), before))
    ensure('size', m_len(content(index)) == m_len(s))
    cover('end')


@contract('C10')
def lookups():
    n, index = indexed_node()
    s = content(index)
    u = any_uuid()
    d = any_value()
    view = n.index
    if m_has(s, int(u)):
        x = m_get(s, int(u))
        ensure('node', same(n.node(u), x))
        ensure('index item', same(view[u], x))
        ensure('index get', same(view.get(u), x) and same(view.get(u, d), x))
        ensure('contained', (u in view) is True)
        cover('known')
    else:
        ensure('node of unknown uuid', n.node(u) is None)
        ensure('KeyError', raised(outcome(getitem, view, u), KeyError))
        ensure('None', view.get(u) is None)
        ensure('default', same(view.get(u, d), d))
        ensure('not contained', (u in view) is False)
        cover('unknown')
    ensure_map('index is unchanged', content(index), s)


@contract('C10')
def storing_leaf_with_used_uuid():
    """Any index, a leaf with any uuid."""
    n, index = indexed_node()
    v = one_of(Node, AttributedNode)()
    u = any_uuid()
    v.uuid = u
    s = content(index)
    kids = content(n.storage)
    k = any_value('plain')
    p = any_uuid()
    before = n.node(p)
    vname = any_value('none', 'str')
    v.__name__ = vname
    r = outcome(setitem, n, k, v)
    if m_has(s, int(u)):
        ensure('rejected', raised(r, ValueError))
        ensure_map('index is unchanged', content(index), s)
        ensure_map('children are unchanged', content(n.storage), kids)
        ensure('value is not adopted', v.__parent__ is None and
               same(v.__name__, vname))
        ensure('value has its own index', v.node(u) is v and
               v.node(n.uuid) is None or u == n.uuid)
        cover('used')
    else:
        ensure('stored', is_ok(r) and n[k] is v)
        ensure('found', n.node(u) is v and v.node(u) is v)
        ensure('found from the value', v.node(n.uuid) is n)
        if p != u:
            ensure('other lookups are unchanged', same(n.node(p), before))
            ensure('same lookups from the value', same(v.node(p), before))
        cover('unused')


def store_tree(n, k):
    """Store any subtree under the key."""
    v = subtree()
    index, vi = n._index, v._index
    m, w, s = content(index), content(vi), content(n.storage)
    q = any_int()
    used = m_has(m, q) and m_has(w, q)
    if used:
        m_pos(m, q)
        m_pos(w, q)
    r = outcome(setitem, n, k, v)
    if is_ok(r):
        ensure('used uuid is rejected', not used)
        ensure('stored', n.storage[k] is v)
        cover('stored')
    else:
        ensure('rejected', raised(r, ValueError))
        ensure('there is a used uuid', m_has(m, int(v.uuid)) or
               any([m_has(w, x) for x in m_keys(m)]) or
               any([m_has(m, x) for x in m_keys(w)]))
        ensure_map('index is unchanged', content(index), m)
        ensure_map('index of the value is unchanged', content(vi), w)
        ensure_map('children are unchanged', content(n.storage), s)
        ensure('not adopted', v._index is vi and v._deep is vi)
        cover('rejected')


@contract('C10')
def storing_trees():
    """Any tree with any subtree as value."""
    n = parent_node()
    k = any_value('plain')
    assume(k not in n.storage)
    store_tree(n, k)


@contract('C10')
def replacing_trees():
    n = parent_node()
    k = any_value('plain')
    child(n, k)
    store_tree(n, k)


@contract('C10')
def uuid_types():
    """Uuid of a new node."""
    n = one_of(Node, AttributedNode)()
    ensure('uuid', isinstance(n.uuid, uuid.UUID))
    ensure('found', n.node(n.uuid) is n)
    m = type(n)()
    ensure('different uuids', m.uuid != n.uuid)
    ensure('different indexes', n.node(m.uuid) is None and
           m.node(n.uuid) is None)
    cover('end')


def tree(cls):
    """Tree with up to 4 nodes."""
    n = cls()
    if any_bool():
        n['a'] = a = cls()
        if any_bool():
            a['x'] = cls()
    if any_bool():
        n['b'] = cls()
    return n


def nodes_of(n):
    out = [n]
    for v in n.values():
        out = out + nodes_of(v)
    return out


@contract('C10', mode='bounded', bound=1)
def assigning_in_trees():
    """Seen from every node of the tree."""
    n = tree(one_of(Node, AttributedNode))
    nodes = nodes_of(n)
    x = pick(nodes)
    u = one_of(any_uuid(), uuid.UUID(int=0), pick(nodes).uuid)
    old = x.uuid
    uuids = [y.uuid for y in nodes]
    used = False
    for y in nodes:
        if y is not x and y.uuid == u:
            used = True
    r = outcome(setattr, x, 'uuid', u)
    if used:
        ensure('rejected', raised(r, ValueError))
        ensure('unchanged', x.uuid == old)
        cover('rejected')
    else:
        ensure('accepted', is_ok(r) and x.uuid == u)
        cover('accepted')
        if old != u:
            for y in nodes:
                ensure('old uuid is unknown', y.node(old) is None)
    for i in range(len(nodes)):
        y = nodes[i]
        if y is not x:
            ensure('other uuids are unchanged', y.uuid == uuids[i])
        for z in nodes:
            ensure('every node is found by every node', y.node(z.uuid) is z)
    cover('end')


@contract('C10', mode='bounded', bound=1)
def storing_trees_with_used_uuid():
    cls = one_of(Node, AttributedNode)
    n, v = tree(cls), tree(cls)
    used, bad = pick(nodes_of(n)), pick(nodes_of(v))
    bad.uuid = used.uuid
    target = pick(nodes_of(n))
    tn, tv = nodes_of(n), nodes_of(v)
    r = outcome(setitem, target, 'new', v)
    ensure('rejected', raised(r, ValueError))
    ensure('not stored', 'new' not in target)
    ensure('not adopted', v.__parent__ is None and v.__name__ is None)
    ensure_seq('tree unchanged', nodes_of(n), tn)
    ensure_seq('value unchanged', nodes_of(v), tv)
    for x in tn:
        for y in tn:
            ensure('index of the tree', x.node(y.uuid) is y)
        for y in tv:
            if y is not bad:
                ensure('values not in the index', x.node(y.uuid) is None)
    for x in tv:
        for y in tv:
            ensure('index of the value', x.node(y.uuid) is y)
    cover('end')


@contract('C10', mode='bounded', bound=1)
def nil_and_missing_uuids():
    n = tree(one_of(Node, AttributedNode))
    nodes = nodes_of(n)
    x = pick(nodes)
    old = x.uuid
    nil = uuid.UUID(int=0)
    x.uuid = nil
    for y in nodes:
        ensure('found', y.node(nil) is x and y.index[nil] is x)
        ensure('old uuid unknown', y.node(old) is None)
    u = any_uuid()
    for y in nodes:
        assume(y.uuid != u)
    x.uuid = u
    for y in nodes:
        ensure('found again', y.node(u) is x)
        ensure('nil uuid unknown', y.node(nil) is None and
               nil not in y.index)
    cover('end')
