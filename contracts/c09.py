"""Index of referencing nodes.

Any tree: one node with subtrees given by the contracts of their methods.
Trees of any shape with up to 4 nodes (contract check_* all cases), histories
of operations on bigger trees at run time.
"""
from subtrees import *      # noqa
from node.behaviors import Order
from node.behaviors import Reference


class FreeNode(Node):
    allow_non_node_childs = True


def sub(cls, keys, depth):
    """Subtree below keys: each child is optional, deeper ones too."""
    n = cls()
    for k in keys:
        kind = upto(2 if depth else 1)
        if kind == 1:
            n[k] = cls()
        elif kind == 2:
            c = cls()
            c['x'] = cls()
            n[k] = c
    return n


def nodes_of(n):
    """Nodes reachable as children, found by the storages."""
    out = [n]
    for v in n.storage.values():
        if isinstance(v, (Node, AttributedNode)):
            out = out + nodes_of(v)
    return out


def in_list(x, seq):
    for y in seq:
        if x is y:
            return True
    return False


def exact(label, root, universe):
    """Index of each node of the tree is exactly the tree."""
    tree = nodes_of(root)
    for x in tree:
        for y in tree:
            ensure(label + ': node is found', x.node(y.uuid) is y)
            ensure(label + ': index', y.uuid in x.index and
                   x.index[y.uuid] is y and x.index.get(y.uuid) is y)
        for y in universe:
            if not in_list(y, tree):
                ensure(label + ': nothing else is found',
                       x.node(y.uuid) is None)
                ensure(label + ': nothing else in index',
                       y.uuid not in x.index)
    return tree


def kind():
    return one_of(Node, AttributedNode)


def some_value(cls):
    """Leaf or subtree to be stored."""
    v = cls()
    if any_bool():
        v['v'] = cls()
    return v


@contract('C09', mode='bounded', bound=1)
def building_trees():
    n = sub(kind(), ['a', 'b'], 1)
    exact('tree', n, [n])
    cover('end')


@contract('C09', mode='bounded', bound=1)
def building_trees_bottom_up():
    cls = kind()
    a, b, c, d = cls(), cls(), cls(), cls()
    universe = [a, b, c, d]
    order = upto(2)
    if order == 0:
        c['d'] = d
        b['c'] = c
        a['b'] = b
    elif order == 1:
        b['c'] = c
        c['d'] = d
        a['b'] = b
    else:
        c['d'] = d
        a['b'] = b
        b['c'] = c
    tree = exact('tree', a, universe)
    ensure('complete', len(tree) == 4)
    cover('end')


def _operate(op):
    cls = kind()
    n = sub(cls, ['a', 'b'], 1)
    tree = nodes_of(n)
    target = pick(tree)
    v = some_value(cls)
    w = nodes_of(v)
    universe = tree + w
    return n, target, v, w, universe


@contract('C09', mode='bounded', bound=1)
def storing():
    n, target, v, w, universe = _operate(0)
    before = [(x, x.uuid) for x in universe]
    how = upto(2)
    if how == 0:
        target['new'] = v
    elif how == 1:
        target.update([('new', v)])
    else:
        target.setdefault('new', v)
    tree = exact('tree', n, universe)
    ensure('all nodes in the tree', len(tree) == len(universe))
    for x, u in before:
        ensure('uuids kept', x.uuid == u)
    cover('end')


@contract('C09', mode='bounded', bound=1)
def replacing():
    n, target, v, w, universe = _operate(0)
    k = one_of('a', 'b', 'x')
    assume(k in target)
    old = target[k]
    target[k] = v
    tree = exact('tree', n, universe)
    exact('replaced tree', old, universe)
    ensure('value is part of the tree', in_list(v, tree))
    ensure('replaced is not', not in_list(old, tree))
    # trees are independent from now on
    fresh = type(n)()
    old['fresh'] = fresh
    ensure('new node in the old tree only', n.node(fresh.uuid) is None and
           old.node(fresh.uuid) is fresh)
    cover('end')


@contract('C09', mode='bounded', bound=1)
def removing():
    n, target, v, w, universe = _operate(0)
    k = one_of('a', 'b', 'x')
    assume(k in target)
    old = target[k]
    how = upto(2)
    if how == 0:
        del target[k]
    elif how == 1:
        ensure('popped', target.pop(k) is old)
    else:
        ensure('detached', target.detach(k) is old)
    tree = exact('tree', n, universe)
    exact('removed tree', old, universe)
    ensure('removed', not in_list(old, tree))
    fresh = type(n)()
    old['fresh'] = fresh
    ensure('new node in the old tree only', n.node(fresh.uuid) is None and
           old.node(fresh.uuid) is fresh)
    fresh2 = type(n)()
    n['fresh'] = fresh2
    ensure('new node in the tree only', old.node(fresh2.uuid) is None and
           n.node(fresh2.uuid) is fresh2)
    cover('end')


@contract('C09', mode='bounded', bound=1)
def removing_many():
    n, target, v, w, universe = _operate(0)
    kids = target.values()
    if any_bool():
        target.clear()
        tree = exact('tree', n, universe)
        for k in kids:
            exact('removed tree', k, universe)
            ensure('removed', not in_list(k, tree))
        cover('clear')
    elif kids:
        k, old = target.popitem()
        ensure('last', old is kids[len(kids) - 1])
        exact('tree', n, universe)
        exact('removed tree', old, universe)
        cover('popitem')


@contract('C09', mode='bounded', bound=1)
def moving():
    """Removed subtrees can be stored again, elsewhere too."""
    cls = kind()
    n = sub(cls, ['a', 'b'], 1)
    other = cls()
    other['o'] = cls()
    k = one_of('a', 'b')
    assume(k in n)
    universe = nodes_of(n) + nodes_of(other)
    how = upto(2)
    if how == 0:
        v = n.detach(k)
    elif how == 1:
        v = n.pop(k)
    else:
        v = n[k]
        del n[k]
    target = one_of(n, other)
    if any_bool():
        target['moved'] = v
    else:
        v.__name__ = 'moved'
        target.insertlast(v)
    exact('tree', n, universe)
    exact('other tree', other, universe)
    ensure('moved', target['moved'] is v and v.__parent__ is target)
    cover('end')


@contract('C09', mode='bounded', bound=1)
def inserting():
    n, target, v, w, universe = _operate(0)
    v.__name__ = 'new'
    op = upto(3)
    kids = target.values()
    if op == 0:
        target.insertfirst(v)
    elif op == 1:
        target.insertlast(v)
    elif op == 2:
        assume(len(kids) > 0)
        target.insertbefore(v, kids[0])
    else:
        assume(len(kids) > 0)
        target.insertafter(v, kids[0])
    tree = exact('tree', n, universe)
    ensure('all nodes in the tree', len(tree) == len(universe))
    cover('end')


@contract('C09', mode='bounded', bound=1)
def failing_stores():
    """Uuid collisions leave both trees as they were."""
    n, target, v, w, universe = _operate(0)
    tree = nodes_of(n)
    used = pick(tree)
    bad = pick(w)
    bad.uuid = used.uuid
    k = one_of('a', 'new')
    assume(k not in target or target[k] is not used)
    # replacing the colliding node itself is no failure to rely on
    if k in target:
        assume(not in_list(used, nodes_of(target[k])))
    how = upto(1)
    if how == 0:
        r = outcome(setitem, target, k, v)
    else:
        v.__name__ = 'new'
        r = outcome(target.insertlast, v)
    ensure('rejected', raised(r, ValueError, KeyError))
    after = nodes_of(n)
    ensure('same nodes', len(after) == len(tree))
    for x in tree:
        ensure('same node', in_list(x, after))
        for y in tree:
            ensure('tree index unchanged', x.node(y.uuid) is y)
        for y in w:
            if y is not bad:
                ensure('values not indexed', x.node(y.uuid) is None)
    for x in w:
        for y in w:
            ensure('value index unchanged', x.node(y.uuid) is y)
        for y in tree:
            if y is not used:
                ensure('value index without tree', x.node(y.uuid) is None)
    cover('end')


@contract('C09', mode='bounded', bound=1)
def rejected_values():
    """Stores failing for other reasons."""
    cls = kind()
    n = sub(cls, ['a', 'b'], 1)
    universe = nodes_of(n)
    target = pick(universe)
    k = one_of('a', 'new')
    r = outcome(setitem, target, k, one_of(None, 1, 'x', cls))
    ensure('rejected', raised(r, ValueError))
    exact('tree', n, universe)
    ensure('same nodes', len(nodes_of(n)) == len(universe))
    r = outcome(delitem, target, 'missing')
    ensure('KeyError', raised(r, KeyError))
    r = outcome(target.detach, 'missing')
    ensure('KeyError on detach', raised(r, KeyError))
    exact('tree', n, universe)
    cover('end')


@contract('C09', mode='bounded', bound=1)
def storing_leaf_again():
    cls = kind()
    n = sub(cls, ['a', 'b'], 1)
    universe = nodes_of(n)
    k = one_of('a', 'b')
    assume(k in n)
    child = n[k]
    r = outcome(setitem, n, k, child)
    if len(child) == 0:
        ensure('leaf can be stored again', is_ok(r))
        cover('leaf')
    exact('tree', n, universe)
    ensure('same nodes', len(nodes_of(n)) == len(universe))
    cover('end')


@contract('C09', mode='bounded', bound=1)
def mixed_children():
    """Non node children and nodespaces do not disturb the index."""
    n, v = FreeNode(), FreeNode()
    c = FreeNode()
    v['value'] = any_value('none', 'int', 'str')
    v['c'] = c
    n['value'] = any_value('none', 'int', 'str')
    attrs = n.attrs
    attrs['x'] = 1
    n['v'] = v
    universe = [n, v, c]
    exact('tree', n, universe)
    how = upto(3)
    if how == 0:
        del n['value']
        exact('tree', n, universe)
        ensure('complete', len(nodes_of(n)) == 3)
    elif how == 1:
        n['v'] = any_value('none', 'int', 'str')
        exact('tree', n, universe)
        exact('replaced', v, universe)
    elif how == 2:
        del n['v']
        exact('tree', n, universe)
        exact('removed', v, universe)
    else:
        n['value'] = d = FreeNode()
        exact('tree', n, universe + [d])
    cover('end')


@contract('C09', mode='runtime')
def histories():
    """Long random histories on several trees."""
    nodes = [one_of(Node, AttributedNode, FreeNode)() for i in range(6)]
    keys = ['a', 'b', 'c']
    for step in range(any_int(1, 14)):
        x = pick(nodes)
        op = upto(6)
        k = pick(keys)
        if op <= 2:
            roots = [y for y in nodes if y.__parent__ is None and
                     y is not x.root]
            if not roots:
                continue
            v = pick(roots)
            if op == 0:
                old = x.get(k)
                x[k] = v
                if old is not None:
                    old.__parent__ = None
            elif k not in x:
                v.__name__ = k
                if op == 1:
                    x.insertfirst(v)
                else:
                    x.insertlast(v)
        elif k in x:
            old = x[k]
            if op == 3:
                del x[k]
            elif op == 4:
                x.pop(k)
            elif op == 5:
                x.detach(k)
            else:
                u = any_uuid()
                users = [y for y in nodes if y.uuid == u]
                if not users:
                    old.uuid = u
                elif x.node(u) is not None:
                    r = outcome(setattr, old, 'uuid', u)
                    ensure('used uuid rejected', raised(r, ValueError) or
                           x.node(u) is old)
                continue
            old.__parent__ = None
    done = []
    for x in nodes:
        if x.__parent__ is None:
            done = done + exact('tree', x, nodes)
    ensure('every node is in one tree', len(done) == len(nodes))


@contract('C09')
def storing_subtrees():
    n = parent_node()
    index = n._index
    s, m = content(n.storage), content(index)
    v = subtree()
    w = content(v._index)
    vi = v._index
    k = any_value('plain')
    assume(not m_has(s, k))
    q = any_int()
    r = outcome(setitem, n, k, v)
    if is_ok(r):
        if m_has(m, q):
            m_pos(m, q)
            ensure('disjoint', not m_has(w, q))
        ensure('one index', n._index is index and v._index is index and
               v._deep is index)
        if m_has(w, q):
            ensure('node of the subtree', same(index.get(q), m_get(w, q)))
        else:
            ensure('others', same(index.get(q), m_get(m, q) if m_has(m, q)
                   else None))
        cover('ok')
    else:
        ensure('rejected', raised(r, ValueError))
        ensure_map('index unchanged', content(index), m)
        ensure_map('index of value unchanged', content(vi), w)
        ensure('index of value', v._index is vi and v._deep is vi)
        ensure_map('unchanged', content(n.storage), s)
        cover('rejected')


@contract('C09')
def removing_subtrees():
    n = parent_node()
    index = n._index
    k = any_value('plain')
    c = child(n, k)
    m = content(index)
    q = any_int()
    how = upto(2)
    if how == 0:
        del n[k]
    elif how == 1:
        ensure('popped', n.pop(k) is c)
    else:
        ensure('detached', n.detach(k) is c)
    own_tree(c, index, q)
    ensure('index', n._index is index)
    if has_node(c, q):
        ensure('not in index', q not in index)
        cover('inside')
    else:
        ensure('others', same(index.get(q), m_get(m, q) if m_has(m, q)
               else None))
        cover('outside')


@contract('C09')
def replacing_subtrees():
    n = parent_node()
    index = n._index
    k = any_value('plain')
    c = child(n, k)
    s, m = content(n.storage), content(index)
    v = subtree()
    w = content(v._index)
    vi = v._index
    q = any_int()
    r = outcome(setitem, n, k, v)
    if is_ok(r):
        own_tree(c, index, q)
        ensure('one index', n._index is index and v._index is index and
               v._deep is index)
        if m_has(w, q):
            ensure('node of the subtree', same(index.get(q), m_get(w, q)))
            cover('node of the subtree')
        elif has_node(c, q):
            ensure('not in index', q not in index)
            cover('replaced')
        else:
            ensure('others', same(index.get(q), m_get(m, q) if m_has(m, q)
                   else None))
            cover('others')
    else:
        ensure('rejected', raised(r, ValueError))
        ensure_map('index unchanged', content(index), m)
        ensure_map('index of value unchanged', content(vi), w)
        ensure('index of value', v._index is vi and v._deep is vi)
        ensure('index of child', c._index is index and c._deep is index)
        ensure_map('unchanged', content(n.storage), s)
        cover('rejected')


@contract('C09')
def nodes_to_delete():
    n = with_children()
    k = any_value('plain')
    q = any_int()
    s = content(n.storage)
    if not hasattr(n, '_to_delete'):
        outside('nodes below are collected in another way')
    r = n._to_delete()
    ensure('node itself', int(n.uuid) in r)
    if m_has(s, k):
        m_pos(s, k)
        if has_node(m_get(s, k), q):
            ensure('all nodes below', q in r)
            cover('below')
    if q in r:
        ensure('only nodes below', q == int(n.uuid) or any(
            [has_node(c, q) for c in m_values(s)]))
        cover('member')
    ensure_map('unchanged', content(n.storage), s)


@contract('C09')
def indexing_nodes():
    n = with_children()
    index = {}
    any_map(index, 'id', Deep)
    n._index = index
    k = any_value('plain')
    q = any_int()
    s, m = content(n.storage), content(index)
    if not hasattr(n, '_index_nodes'):
        outside('nodes below are indexed in another way')
    n._index_nodes()
    ensure('same index', n._index is index)
    ensure_map('unchanged', content(n.storage), s)
    if m_has(s, k) and isinstance(m_get(s, k), Sub):
        m_pos(s, k)
        c = m_get(s, k)
        ensure('child', c._index is index and c._deep is index)
        ensure('child is found', index.get(int(c.uuid)) is c)
        if q in c.below:
            ensure('node below', index.get(q) is c.below[q])
            cover('below')
    if not any(has_node(c, q) for c in m_values(s)):
        ensure('others', same(index.get(q), m_get(m, q) if m_has(m, q)
               else None))
        cover('others')


class Refusing(object):
    """Storage of a node, stores or removes nothing if there is an error."""

    def __init__(self):
        self.storage = odict()
        self.error = None

    def __getitem__(self, key):
        return self.storage[key]

    def __setitem__(self, key, val):
        if self.error is not None:
            raise self.error
        self.storage[key] = val

    def __delitem__(self, key):
        if self.error is not None:
            raise self.error
        del self.storage[key]

    def __iter__(self):
        return iter(self.storage)


@plumbing(Reference, Nodify)
class RefusingNode(Refusing):
    pass


@plumbing(Adopt, Reference, Order, Nodify)
class AdoptingRefusingNode(Refusing):
    pass


@contract('C09')
def refused_by_storage():
    """Storage raising any error, the nodes are indexed as before."""
    n = one_of(RefusingNode, AdoptingRefusingNode)()
    index = {}
    any_map(index, 'id', Deep)
    assume(int(n.uuid) not in index)
    index[int(n.uuid)] = n
    n._index = index
    any_map(n.storage, 'str', Deep)
    k = any_str()
    replace = any_bool()
    if replace:
        c = child(n, k)
    s, m = content(n.storage), content(index)
    v = subtree()
    w = content(v._index)
    vi = v._index
    n.error = one_of(ValueError('x'), KeyError('x'), TypeError('x'))
    op = upto(2)
    if op == 0:
        r = outcome(setitem, n, k, v)
    elif op == 1:
        r = outcome(delitem, n, k)
    else:
        r = outcome(n.detach, k) if hasattr(n, 'detach') else (
            outcome(n.pop, k))
    ensure('refused', not is_ok(r))
    ensure_map('index unchanged', content(index), m)
    ensure_map('index of value unchanged', content(vi), w)
    ensure('index of value', n._index is index and v._index is vi and
           v._deep is vi)
    if replace:
        ensure('index of child', c._index is index and c._deep is index)
        cover('child')
    ensure_map('unchanged', content(n.storage), s)
    cover('end')
