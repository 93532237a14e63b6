from common import *        # noqa


class FreeNode(Node):
    allow_non_node_childs = True


class FreeAttributedNode(AttributedNode):
    allow_non_node_childs = True


def _shallow(n, keys, vals, other):
    any_map(n.storage, keys, vals)
    s = content(n.storage)
    n.__name__ = any_value('none', 'str')
    n.__parent__ = one_of(None, other)
    n.marker = marker = any_value()
    c = n.copy()
    ensure('new node', c is not n)
    ensure('same type', type(c) is type(n))
    ensure('same name', same(c.__name__, n.__name__) and
           same(c.name, n.__name__))
    ensure('same parent', same(c.__parent__, n.__parent__))
    ensure('other attributes are kept', same(c.marker, marker))
    ensure_map('same children in the same order', content(c.storage), s)
    ensure_map('original is unchanged', content(n.storage), s)
    ensure_untouched('children untouched', n, c)
    # any change of one of both
    if any_bool():
        a, b = n, c
    else:
        a, b = c, n
    k = any_value(keys)
    v = any_value(vals)
    op = upto(3)
    if op == 0:
        a[k] = v
        s2 = m_put(s, k, v)
    elif op == 1:
        outcome(delitem, a, k)
        s2 = m_del(s, k)
    elif op == 2:
        a.clear()
        s2 = m_empty()
    else:
        outcome(a.pop, k)
        s2 = m_del(s, k)
    ensure_map('changed one', content(a.storage), s2)
    ensure_map('children of the other are unchanged', content(b.storage), s)
    ensure('other key is found as before',
           (k in b) == m_has(s, k))
    cover('end')


@contract('C07')
def shallow_copies():
    _shallow(one_of(DNode, ONode)(), 'key', 'any', DNode())


@contract('C07')
def shallow_copies_of_base_nodes():
    _shallow(one_of(BaseNode, OrderedNode)(), 'key', ANode, BaseNode())


@contract('C07')
def shallow_copies_of_full_nodes():
    _shallow(one_of(FreeNode, FreeAttributedNode)(), 'regular', 'any', DNode())


@contract('C07')
def copies_of_unused_nodes():
    """Copies of nodes which never had children."""
    n = one_of(DNode, ONode, BaseNode, OrderedNode, FreeNode)()
    c = n.copy()
    if any_bool():
        a, b = n, c
    else:
        a, b = c, n
    k = any_value('regular')
    a[k] = type(n)()
    ensure('other has no children', len(b) == 0 and k not in b)
    ensure('stored', k in a)
    cover('end')


@contract('C07')
def copies_of_copies():
    n = one_of(DNode, ONode)()
    any_map(n.storage, 'key', 'any')
    s = content(n.storage)
    a = n.copy()
    b = a.copy()
    k, v = any_key(), any_value()
    x = one_of(n, a, b)
    x[k] = v
    for y in (n, a, b):
        if y is not x:
            ensure_map('other copies unchanged', content(y.storage), s)
    cover('end')


TREES = (DNode, ONode, BaseNode, OrderedNode)


def tree(cls, other, depth, width):
    n = cls()
    for i in range(upto(width)):
        kind = upto(2 if depth else 0)
        k = any_str()
        assume(k not in n)
        if kind == 0:
            n.storage[k] = any_value('int', vapi.Opaque)
        else:
            child = tree(cls if kind == 1 else other, cls, depth - 1, 1)
            child.__name__ = k
            child.__parent__ = n
            n.storage[k] = child
    return n


def nodes_of(n):
    out = [n]
    for v in n.storage.values():
        if isinstance(v, TREES) or isinstance(v, (Node, AttributedNode)):
            out = out + nodes_of(v)
    return out


def equal_copy(a, b, parent):
    ensure('same type', type(a) is type(b))
    ensure('same name', same(a.__name__, b.__name__))
    ensure('parent link inside the copy', b.__parent__ is parent)
    ensure('not shared', a is not b)
    ensure('own storage', a.storage is not b.storage)
    ka = [x for x in a.storage]
    kb = [x for x in b.storage]
    ensure('same number of children', len(ka) == len(kb))
    for i in range(len(ka)):
        ensure('same keys in the same order', same(ka[i], kb[i]))
        va, vb = a.storage[ka[i]], b.storage[kb[i]]
        if INode.providedBy(va):
            ensure('copied child is a node', INode.providedBy(vb))
            equal_copy(va, vb, b)
        elif not isinstance(va, vapi.Opaque):
            ensure('equal value', same(va, vb))


def _deep(n):
    originals = nodes_of(n)
    before = [(x, x.__name__, x.__parent__, content(x.storage))
              for x in originals]
    c = n.deepcopy()
    equal_copy(n, c, None)
    copies = nodes_of(c)
    ensure('same number of nodes', len(copies) == len(originals))
    for x in copies:
        for y in originals:
            ensure('no shared node', x is not y)
    for x, name, parent, s in before:
        ensure('original keeps name', same(x.__name__, name))
        ensure('original keeps parent', x.__parent__ is parent)
        ensure_map('original keeps children', content(x.storage), s)
    cover('end')


@contract('C07', mode='bounded', bound=2)
def deep_copies():
    cls = one_of(DNode, ONode, BaseNode, OrderedNode)
    other = ONode if cls is DNode else DNode
    n = tree(cls, other, 1, 2)
    n.__name__ = any_value('none', 'str')
    _deep(n)


@contract('C07', mode='bounded', bound=2)
def deep_copies_of_deep_trees():
    n = tree(one_of(DNode, OrderedNode), ONode, 3, 1)
    n.__name__ = any_value('none', 'str')
    _deep(n)


@contract('C07', mode='bounded', bound=1)
def deep_copies_of_full_nodes():
    cls = one_of(Node, AttributedNode)
    n = cls()
    for i in range(upto(2)):
        k = any_value('plain')
        assume(k not in n)
        n[k] = child = Node()
        if any_bool():
            child['x'] = AttributedNode()
    _deep(n)
    c = n.deepcopy()
    for x in nodes_of(c):
        ensure('index of the copy finds the copies', c.node(x.uuid) is x)
    for x in nodes_of(n):
        ensure('index of the original', n.node(x.uuid) is x)


@contract('C07', mode='bounded', bound=2)
def deep_copies_are_independent():
    n = tree(one_of(DNode, ONode), BaseNode, 1, 1)
    c = n.deepcopy()
    if any_bool():
        a, b = n, c
    else:
        a, b = c, n
    s = content(b.storage)
    deep = [(x, content(x.storage)) for x in nodes_of(b)]
    k, v = any_str(), any_value()
    for x in nodes_of(a):
        x.storage[k] = v
    for x, s in deep:
        ensure_map('other tree is unchanged', content(x.storage), s)
    cover('end')
