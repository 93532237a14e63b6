"""Fallback lookup."""
from common import *        # noqa
from node.behaviors import DefaultInit
from node.behaviors import Fallback


@plumbing(Fallback, Adopt, DefaultInit, Nodify, OdictStorage)
class FNode(object):
    """Fallback node."""


@plumbing(Adopt, DefaultInit, Nodify, OdictStorage)
class PNode(object):
    """Node without fallback behavior."""


class Keyed(FNode):
    """Fallback key defined by the class."""
    fallback_key = 'fallback'


def others(n, used):
    """Give n arbitrary children, not under the used names."""
    any_map(n.storage, 'str', (ANode, 'int', 'none'))
    kids = content(n.storage)
    for name in used:
        assume(not m_has(kids, name))


def put(n, name, v):
    """Nodes get adopted, values are stored."""
    if INode.providedBy(v):
        n[name] = v
    else:
        n.storage[name] = v


def subtree(path, wide):
    """What there is below a fallback child at path and what the lookup has
    to find there."""
    kind = upto(3 if wide else 2)
    if kind == 0:
        return 'absent', None, ('missing', None)
    if kind == 1:
        # no node
        v = any_value('int', 'none', 'str')
        return 'value', v, (('missing', None) if path else ('found', v))
    n = FNode() if kind == 2 else PNode()
    if not path:
        return 'node', n, ('found', n)
    what, child, res = subtree(path[1:], wide)
    others(n, [path[0]])
    if what != 'absent':
        put(n, path[0], child)
    return 'node', n, res


def ancestor(name, child, path, wide):
    """Parent of child with or without fallback for path; gives what it
    contributes."""
    kind = one_of(0, 1, 2, 3) if wide else one_of(0, 2)
    if kind == 0 or kind == 1:
        # fallback not configured
        n = FNode() if kind else PNode()
        others(n, [name])
        n[name] = child
        return n, ('missing', None)
    if kind == 2:
        n = FNode()
        n.fallback_key = any_str()
        assume(n.fallback_key != '')
    else:
        n = Keyed()
    key = n.fallback_key
    if key == name:
        # the fallback child is on the path itself
        others(n, [name])
        n[name] = child
        return n, ('missing', None)
    what, fallback, res = subtree(path, wide)
    others(n, [name, key])
    n[name] = child
    if what != 'absent':
        put(n, key, fallback)
    if what != 'node':
        res = ('missing', None)
    return n, res


def tree(depth, wide):
    """Node, the nodes above it, a missing key and the expected result."""
    key = any_str()
    names = [any_str() for i in range(depth)] + [key]
    n = FNode(any_str())
    others(n, [key])
    if wide and any_bool():
        n.fallback_key = any_str()
    nodes = [n]
    expected = ('missing', None)
    for i in range(depth - 1, -1, -1):
        top, res = ancestor(names[i], nodes[-1], names[i + 1:],
                            wide)
        if expected[0] == 'missing':
            expected = res
        nodes = nodes + [top]
    return n, nodes, key, expected


def check(n, key, expected):
    r = outcome(getitem, n, key)
    if expected[0] == 'found':
        ensure('nearest value', is_ok(r) and same(r[1], expected[1]))
        cover('found')
    else:
        ensure('KeyError', raised_exactly(r, KeyError) and
               same(r[1].args[0], key))
        cover('missing')


def lookup(depth, wide):
    n, nodes, key, expected = tree(depth, wide)
    kids = [content(x.storage) for x in nodes]
    check(n, key, expected)
    if wide:
        check(n, key, expected)
    if wide:
        other = any_str()
        if m_has(kids[0], other):
            ensure('existing child', same(n[other], m_get(kids[0], other)))
            cover('existing')
    for i in range(len(nodes)):
        ensure_map('children unchanged', content(nodes[i].storage), kids[i])
        ensure('name and parent unchanged', nodes[i].__parent__ is (
            nodes[i + 1] if i + 1 < len(nodes) else None))
    return n


@contract('C20')
def existing():
    """Fallback is not used for existing children."""
    n = one_of(FNode, Keyed)()
    any_map(n.storage, 'str', (ANode, 'int', 'none'))
    s = content(n.storage)
    p = one_of(FNode, Keyed)()
    any_map(p.storage, 'str', (ANode, 'int', 'none'))
    if any_bool():
        p.fallback_key = any_str()
    n.__parent__ = p
    n.__name__ = any_str()
    k = any_str()
    assume(m_has(s, k))
    ensure('child', same(n[k], m_get(s, k)))
    ensure('child by get', same(n.get(k), m_get(s, k)))
    ensure('contained', k in n)
    ensure_map('children unchanged', content(n.storage), s)
    ensure_untouched('nothing changed')
    cover('end')


@contract('C20')
def without_parent():
    n = one_of(FNode, Keyed)()
    any_map(n.storage, 'str', (ANode, 'int', 'none'))
    s = content(n.storage)
    k = any_str()
    assume(not m_has(s, k))
    check(n, k, ('missing', None))
    d = any_value()
    ensure('default', same(n.get(k, d), d))
    ensure('not contained', k not in n)
    check(n, k, ('missing', None))
    ensure_map('children unchanged', content(n.storage), s)
    cover('end')


@contract('C20', limit='one ancestor')
def one_ancestor():
    lookup(1, True)


@contract('C20', limit='two ancestors')
def two_ancestors():
    lookup(2, False)


@contract('C20', limit='three ancestors', tier='thorough')
def three_ancestors():
    lookup(3, False)


class Faulty(object):
    """Ancestor failing to look up its fallback."""
    fallback_key = 'fallback'
    __parent__ = None
    __name__ = name = None

    def get(self, key, default=None):
        raise RuntimeError(key)

    def __getitem__(self, key):
        raise RuntimeError(key)


def simple():
    """Tree where a fallback value is found, and one where none is."""
    root = FNode(any_str())
    root.fallback_key = 'fallback'
    root['fallback'] = FNode()
    n = root['child'] = FNode()
    key = any_str()
    v = any_value('int', 'str', 'obj')
    root['fallback'].storage[key] = v
    missing = any_str()
    assume(missing not in (key, 'child', 'fallback'))
    return root, n, key, v, missing


@contract('C20')
def after_failures():
    root, n, key, v, missing = simple()
    kind = upto(2)
    for i in range(2):
        if kind == 0:
            ensure('KeyError', raised(outcome(getitem, n, missing), KeyError))
        elif kind == 1:
            m = FNode()
            m.__parent__ = Faulty()
            ensure('error passed on', raised(
                outcome(getitem, m, key), RuntimeError))
        else:
            ensure('default', n.get(missing, 3) == 3)
            ensure('missing in root', raised(
                outcome(getitem, root, missing), KeyError))
    ensure('found', same(n[key], v))
    ensure('found again', same(n[key], v) and key in n)
    cover('end')


@contract('C20')
def threads():
    root, n, key, v, missing = simple()
    r = in_thread('one', getitem, n, key)
    ensure('found in thread', is_ok(r) and same(r[1], v))
    r = in_thread('one', getitem, n, missing)
    ensure('missing in thread', raised(r, KeyError))
    ensure('found in main thread', same(n[key], v))
    r = in_thread('two', getitem, n, key)
    ensure('found in other thread', is_ok(r) and same(r[1], v))
    r = in_thread('one', getitem, n, key)
    ensure('found in thread again', is_ok(r) and same(r[1], v))
    cover('end')


class Looking(object):
    """Ancestor whose lookup involves another thread looking up as well."""
    fallback_key = 'fallback'
    __parent__ = None
    __name__ = name = None

    def __init__(self, n, key):
        self.n = n
        self.key = key
        self.seen = []

    def get(self, key, default=None):
        self.seen.append(in_thread('one', getitem, self.n, self.key))
        return default


@contract('C20')
def concurrent_lookups():
    """A lookup in one thread while another one is looking up."""
    root, n, key, v, missing = simple()
    m = FNode()
    m.__parent__ = p = Looking(n, key)
    r = outcome(getitem, m, missing)
    ensure('KeyError', raised(r, KeyError) and same(r[1].args[0], missing))
    ensure('looked up meanwhile', len(p.seen) == 1 and is_ok(p.seen[0]) and
           same(p.seen[0][1], v))
    cover('end')


@contract('C20')
def nothing_is_stored():
    """Found values do not become children."""
    root, n, key, v, missing = simple()
    n[key]
    ensure('not stored', len(n.storage) == 0 and len(n) == 0)
    ensure_seq('keys', n.keys(), [])
    ensure_seq('keys of fallback', root['fallback'].keys(), [key])
    ensure_seq('keys of root', root.keys(), ['fallback', 'child'])
    w = any_value('int', 'none')
    n.storage[key] = w
    ensure('own child first', same(n[key], w))
    del n.storage[key]
    ensure('fallback again', same(n[key], v))
    cover('end')


def plain_tree(depth, width, keys):
    n = FNode()
    if any_bool():
        n.fallback_key = one_of(*keys)
    for k in keys:
        kind = any_int(0, 2)
        if kind == 0 and depth:
            n[k] = plain_tree(depth - 1, width, keys)
        elif kind == 1:
            n.storage[k] = any_int(0, 9)
    return n


def strip(n):
    """No fallbacks within fallbacks."""
    n.fallback_key = ''
    for v in n.storage.values():
        if INode.providedBy(v):
            strip(v)


def settle(n):
    key = n.fallback_key
    for k in n.storage.keys():
        v = n.storage[k]
        if INode.providedBy(v):
            if k == key:
                strip(v)
            else:
                settle(v)


def follow(n, path):
    for k in path:
        if not INode.providedBy(n) or k not in n.storage:
            return None
        n = n.storage[k]
    return (n,)


def oracle(n, key):
    path = [key]
    while n.__parent__ is not None:
        top = n.__parent__
        fk = top.fallback_key
        if fk and fk in top.storage and INode.providedBy(top.storage[fk]):
            r = follow(top.storage[fk], path)
            if r is not None:
                return r
        path = [n.__name__] + path
        n = top
    return None


@contract('C20', mode='runtime')
def random_trees():
    keys = ['a', 'b', 'c']
    root = plain_tree(4, 3, keys)
    settle(root)
    n = root
    for i in range(any_int(0, 4)):
        kids = [v for v in n.storage.values() if INode.providedBy(v)]
        if not kids:
            break
        n = kids[any_int(0, len(kids) - 1)]
    key = one_of(*keys)
    assume(key not in n.storage)
    before = root.treerepr()
    expected = oracle(n, key)
    r = outcome(getitem, n, key)
    if expected is None:
        ensure('KeyError', raised_exactly(r, KeyError) and
               r[1].args == (key,))
        cover('missing')
    else:
        ensure('nearest value', is_ok(r) and r[1] is expected[0])
        cover('found')
    ensure('tree unchanged', root.treerepr() == before)
