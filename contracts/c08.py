from common import *        # noqa
from node.behaviors import Order
from subtrees import parent_node
from subtrees import subtree


@plumbing(Adopt, Order, Nodify, OdictStorage)
class Ordered(object):
    pass


class FreeNode(Node):
    allow_non_node_childs = True


def _state(n):
    return content(n.storage)


def _children(n):
    """Named children; a reference may be any of them."""
    any_map(n.storage, 'str', ANode, named=True)
    return content(n.storage)


@contract('C08')
def insert_first():
    n = Ordered()
    s = _children(n)
    v = any_obj(ANode)
    name, parent = v.__name__, v.__parent__
    r = outcome(n.insertfirst, v)
    if name is None:
        ensure('nameless node is rejected', raised(r, ValueError, KeyError))
        unchanged(n, s, v, name, parent)
        cover('nameless')
    elif m_has(s, name):
        ensure('used name is rejected', raised(r, ValueError, KeyError))
        unchanged(n, s, v, name, parent)
        cover('used')
    else:
        ensure('inserted', is_ok(r))
        if m_len(s) == 0:
            ensure_map('only child', content(n.storage),
                       m_put(s, name, v))
            cover('empty')
        else:
            ensure_map('first child', content(n.storage),
                       m_ins(s, m_key_at(s, 0), name, v, False))
            cover('not empty')
        adopted(n, v, name)


@contract('C08')
def insert_last():
    n = Ordered()
    s = _children(n)
    v = any_obj(ANode)
    name, parent = v.__name__, v.__parent__
    r = outcome(n.insertlast, v)
    if name is None:
        ensure('nameless node is rejected', raised(r, ValueError, KeyError))
        unchanged(n, s, v, name, parent)
        cover('nameless')
    elif m_has(s, name):
        ensure('used name is rejected', raised(r, ValueError, KeyError))
        unchanged(n, s, v, name, parent)
        cover('used')
    else:
        ensure('inserted', is_ok(r))
        ensure_map('last child', content(n.storage), m_put(s, name, v))
        adopted(n, v, name)
        cover('inserted')


def adopted(n, v, name):
    ensure('keeps the name', same(v.__name__, name))
    ensure('adopted', v.__parent__ is n)
    ensure('found', n[name] is v)
    ensure_untouched('other nodes are unchanged', n, v)


def unchanged(n, s, v, name, parent):
    ensure_map('children unchanged', content(n.storage), s)
    ensure('name unchanged', same(v.__name__, name))
    ensure('parent unchanged', same(v.__parent__, parent))
    ensure_untouched('nothing changed', n)


def _insert_at(after):
    n = Ordered()
    s = _children(n)
    v = any_obj(ANode)
    ref = any_obj(ANode)
    assume(v is not ref)
    refname = ref.__name__
    # children know their names
    if m_has(s, refname):
        n.storage[refname] = ref
        s = content(n.storage)
    name, parent = v.__name__, v.__parent__
    op = n.insertafter if after else n.insertbefore
    r = outcome(op, v, ref)
    if name is None:
        ensure('nameless node is rejected', raised(r, ValueError, KeyError))
        unchanged(n, s, v, name, parent)
        cover('nameless')
    elif m_has(s, name):
        ensure('used name is rejected', raised(r, ValueError, KeyError))
        unchanged(n, s, v, name, parent)
        cover('used')
    elif not m_has(s, refname):
        ensure('unknown reference is rejected',
               raised(r, ValueError, KeyError))
        unchanged(n, s, v, name, parent)
        cover('unknown reference')
    else:
        ensure('inserted', is_ok(r))
        ensure_map('position', content(n.storage),
                   m_ins(s, refname, name, v, after))
        adopted(n, v, name)
        cover('inserted')


@contract('C08')
def insert_before():
    _insert_at(False)


@contract('C08')
def insert_after():
    _insert_at(True)


@contract('C08')
def swap():
    cls = one_of(Ordered, Node, AttributedNode)
    n = cls()
    s = _children(n)
    a, b = any_obj(ANode), any_obj(ANode)
    assume(a is not b)
    ka, kb = a.__name__, b.__name__
    assume(ka is not None and kb is not None)
    assume(ka != kb)
    if cls is not Ordered:
        assume(not special(ka) and not special(kb))
    if m_has(s, ka) and m_has(s, kb):
        n.storage[ka] = a
        n.storage[kb] = b
        s = content(n.storage)
        n.swap(a, b)
        ensure_map('swapped', content(n.storage), m_swap(s, ka, kb))
        ensure('lookup of first', n[ka] is a)
        ensure('lookup of second', n[kb] is b)
        cover('swapped')
    else:
        r = outcome(n.swap, a, b)
        ensure('no child', raised(r, ValueError, KeyError))
        ensure_map('unchanged', content(n.storage), s)
        cover('rejected')
    ensure_untouched('nodes are not changed', n)


class RejectingNode(Ordered):
    error = None

    def __setitem__(self, key, val):
        if self.error is not None:
            raise self.error
        Ordered.__setitem__(self, key, val)


@contract('C08')
def failing_store_leaves_children():
    n = RejectingNode()
    s = _children(n)
    n.error = one_of(ValueError('x'), KeyError('x'), TypeError('x'))
    v = any_obj(ANode)
    ref = any_obj(ANode)
    assume(v is not ref)
    if m_has(s, ref.__name__):
        n.storage[ref.__name__] = ref
        s = content(n.storage)
    name, parent = v.__name__, v.__parent__
    op = upto(3)
    if op == 0:
        r = outcome(n.insertfirst, v)
    elif op == 1:
        r = outcome(n.insertlast, v)
    elif op == 2:
        r = outcome(n.insertbefore, v, ref)
    else:
        r = outcome(n.insertafter, v, ref)
    ensure('rejected', r[0] == 'exc')
    unchanged(n, s, v, name, parent)
    cover('end')


# nodes with index

def full_tree(cls, width=3):
    """Tree of referencing nodes with some children."""
    n = cls()
    for i in range(upto(width)):
        k = any_value('plain')
        assume(k not in n)
        n[k] = cls()
    return n


def insert_op(n, op, v, ref):
    if op == 0:
        return outcome(n.insertfirst, v)
    if op == 1:
        return outcome(n.insertlast, v)
    if op == 2:
        return outcome(n.insertbefore, v, ref)
    return outcome(n.insertafter, v, ref)


def position(keys, op, refname):
    if op == 0:
        return 0
    if op == 1:
        return len(keys)
    i = keys.index(refname)
    return i if op == 2 else i + 1


@contract('C08')
def inserting_subtrees():
    """Any tree inserted in any node of another tree."""
    n = parent_node('plain', ANode)
    s = content(n.storage)
    v = subtree()
    name = any_value('none', 'plain')
    v.__name__ = name
    parent = v.__parent__
    w = content(v._index)
    vi = v._index
    op = upto(3)
    ref = refname = None
    if op > 1:
        ref = subtree(n._index)
        refname = any_value('plain')
        ref.__name__ = refname
        if m_has(s, refname):
            n.storage[refname] = ref
            s = content(n.storage)
    m = content(n._index)
    r = insert_op(n, op, v, ref)
    if not is_ok(r):
        ensure('rejected', raised(r, ValueError, KeyError))
        ensure_map('children unchanged', content(n.storage), s)
        ensure('node unchanged', same(v.__name__, name) and
               same(v.__parent__, parent))
        ensure_map('index unchanged', content(n._index), m)
        ensure('index of node', v._index is vi)
        ensure_map('index of node unchanged', content(vi), w)
        cover('rejected')
        return
    ensure('named', name is not None)
    ensure('new name', not m_has(s, name))
    ensure('new node', not m_has(m, int(v.uuid)))
    ensure('next to a child', ref is None or m_has(s, refname))
    if op == 0 and m_len(s):
        t = m_ins(s, m_key_at(s, 0), name, v, False)
    elif op < 2:
        t = m_put(s, name, v)
    else:
        t = m_ins(s, refname, name, v, op == 3)
    ensure_map('position', content(n.storage), t)
    ensure('keeps the name', same(v.__name__, name))
    ensure('adopted', v.__parent__ is n)
    ensure('indexed', n.node(v.uuid) is v and v._index is n._index)
    cover('inserted')


@contract('C08')
def nodes_of_the_same_tree():
    """Nodes of the tree can not be inserted again anywhere in it."""
    n = parent_node('plain', ANode)
    index = n._index
    name = any_value('none', 'plain')
    if any_bool():
        v = subtree(index)
        index.update(v.below)
        index[int(v.uuid)] = v
        if any_bool():
            n.storage[name] = v
    else:
        v = n
    v.__name__ = name
    parent = v.__parent__
    ref = one_of(v, subtree(index))
    s, m = content(n.storage), content(index)
    r = insert_op(n, upto(3), v, ref)
    ensure('rejected', raised(r, ValueError, KeyError))
    ensure_map('children unchanged', content(n.storage), s)
    ensure('node unchanged', same(v.__name__, name) and
           same(v.__parent__, parent))
    ensure_map('index unchanged', content(index), m)
    ensure('index of node', v._index is index)
    cover('end')


@contract('C08', mode='bounded', bound=1)
def full_nodes_insert():
    cls = one_of(Node, AttributedNode)
    n = full_tree(cls)
    keys = n.keys()
    vals = n.values()
    v = cls(name=any_value('none', 'plain'))
    name = v.__name__
    op = upto(3)
    ref = pick(vals) if op > 1 else None
    r = insert_op(n, op, v, ref)
    if name is None or name in keys:
        ensure('rejected', raised(r, ValueError, KeyError))
        ensure('keys unchanged', n.keys() == keys)
        ensure_seq('children unchanged', n.values(), vals)
        ensure('node unchanged', v.__parent__ is None and
               same(v.__name__, name))
        ensure('not indexed', n.node(v.uuid) is None)
        cover('rejected')
    else:
        ensure('inserted', is_ok(r))
        i = position(keys, op, ref.name if ref is not None else None)
        ensure('position', n.keys() == keys[:i] + [name] + keys[i:])
        ensure_seq('children', n.values(), vals[:i] + [v] + vals[i:])
        ensure('adopted', v.__parent__ is n and same(v.__name__, name))
        ensure('indexed', n.node(v.uuid) is v and v.node(n.uuid) is n)
        cover('inserted')


@contract('C08', mode='bounded', bound=1)
def nodes_in_the_tree_are_rejected():
    cls = one_of(Node, AttributedNode)
    n = full_tree(cls, 1)
    sub = cls()
    k = any_value('plain')
    assume(k not in n)
    n[k] = sub
    deep = cls()
    k2 = any_value('plain')
    sub[k2] = deep
    keys, vals = n.keys(), n.values()
    v = one_of(n, sub, deep)
    name, parent = v.__name__, v.__parent__
    target = one_of(n, sub)
    tkeys, tvals = target.keys(), target.values()
    op = upto(3)
    ref = pick(tvals) if op > 1 else None
    r = insert_op(target, op, v, ref)
    ensure('rejected', raised(r, ValueError, KeyError))
    ensure('keys unchanged', n.keys() == keys and target.keys() == tkeys)
    ensure_seq('children unchanged', target.values(), tvals)
    ensure_seq('children of root unchanged', n.values(), vals)
    ensure('node unchanged', same(v.__name__, name) and v.__parent__ is parent)
    ensure('index unchanged', n.node(v.uuid) is v)
    cover('end')


@contract('C08', mode='bounded', bound=1)
def full_nodes_swap():
    cls = one_of(Node, AttributedNode)
    n = full_tree(cls)
    keys, vals = n.keys(), n.values()
    a, b = pick(vals), pick(vals)
    assume(a is not b)
    i, j = keys.index(a.name), keys.index(b.name)
    n.swap(a, b)
    keys[i], keys[j] = keys[j], keys[i]
    vals[i], vals[j] = vals[j], vals[i]
    ensure('keys', n.keys() == keys)
    ensure_seq('children', n.values(), vals)
    cover('end')


@contract('C08', mode='bounded', bound=1)
def foreign_references():
    cls = one_of(Node, AttributedNode)
    n = full_tree(cls)
    keys, vals = n.keys(), n.values()
    v = cls(name=any_value('plain'))
    ref = cls(name=any_value('none', 'plain'))
    assume(ref.name not in keys)
    op = 2 + upto(1)
    r = insert_op(n, op, v, ref)
    ensure('rejected', raised(r, ValueError, KeyError))
    ensure('keys unchanged', n.keys() == keys)
    ensure_seq('children unchanged', n.values(), vals)
    ensure('parent unchanged', v.__parent__ is None)
    ensure('not indexed', n.node(v.uuid) is None)
    cover('end')
