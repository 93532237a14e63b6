"""Factory children and fixed children."""
from common import *        # noqa
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import FixedChildren
from node.behaviors import NodeChildValidate


class Made(ANode):
    """Child made by a factory."""
    __fields__ = {}
    factory = None


class SomeFactory(object):
    """Arbitrary factory, counts its calls."""
    __fields__ = {'calls': 'int', 'truth': 'bool'}
    calls = 0
    truth = True

    def __call__(self):
        self.calls = self.calls + 1
        child = Made()
        child.factory = self
        child.truth = self.truth
        return child


@plumbing(ChildFactory, Nodify, OdictStorage)
class FactoryNode(object):
    pass


@plumbing(NodeChildValidate, Adopt, ChildFactory, DefaultInit, Nodify,
          DictStorage)
class AdoptingFactoryNode(object):
    pass


def factory_node():
    n = one_of(FactoryNode, AdoptingFactoryNode)()
    n.factories = one_of(dict, odict)()
    any_map(n.factories, 'key', SomeFactory)
    any_map(n.storage, 'key', (ANode, 'none', 'int'))
    return n, content(n.factories), content(n.storage)


@contract('C14')
def factory_lookup():
    n, f, s = factory_node()
    k = any_key()
    calls = m_get(f, k).calls if m_has(f, k) else 0
    r = outcome(getitem, n, k)
    if m_has(s, k):
        ensure('stored child', is_ok(r) and same(r[1], m_get(s, k)))
        ensure_map('nothing stored', content(n.storage), s)
        ensure('nothing created', not m_has(f, k) or
               m_get(f, k).calls == calls)
        cover('stored')
    elif m_has(f, k):
        factory = m_get(f, k)
        ensure('created', is_ok(r) and type(r[1]) is Made)
        child = r[1]
        ensure('by the factory of the key', child.factory is factory)
        ensure('once', factory.calls == calls + 1)
        ensure_map('stored', content(n.storage), m_put(s, k, child))
        ensure('same child again', n[k] is child and n.get(k) is child)
        ensure('not created again', factory.calls == calls + 1)
        ensure_untouched('nothing else changed', factory, child)
        if type(n) is AdoptingFactoryNode:
            ensure('adopted', same(child.__name__, k) and
                   child.__parent__ is n)
        cover('created')
    else:
        ensure('KeyError', raised(r, KeyError))
        ensure_map('nothing stored', content(n.storage), s)
        ensure_untouched('nothing created')
        cover('unknown')
    ensure_map('factories unchanged', content(n.factories), f)


@contract('C14')
def factory_other_keys():
    """Looking up one child does not create others."""
    n, f, s = factory_node()
    a, b = any_key(), any_key()
    assume(a != b and m_has(f, a) and m_has(f, b))
    fa, fb = m_get(f, a), m_get(f, b)
    ca, cb = fa.calls, fb.calls
    assume(fa is not fb)
    child = n[a]
    ensure('other child not created', fb.calls == cb)
    ensure('other child not stored', (b in n.storage) == m_has(s, b))
    other = n[b]
    ensure('own children', child is not other or (m_has(s, a) and
                                                  m_has(s, b)))
    ensure('first child kept', n[a] is child)
    ensure('created at most once', fa.calls <= ca + 1 and fb.calls <= cb + 1)
    cover('end')


@contract('C14')
def factory_keys():
    n, f, s = factory_node()
    ensure_seq('iteration', n, m_keys(f))
    ensure_seq('keys', n.keys(), m_keys(f))
    ensure_seq('iterkeys', n.iterkeys(), m_keys(f))
    ensure('len', len(n) == m_len(f))
    k = any_key()
    if m_has(f, k) and not m_has(s, k):
        n[k]
        ensure_seq('keys after creation', n.keys(), m_keys(f))
    ensure_map('factories unchanged', content(n.factories), f)
    cover('end')


@contract('C14')
def factory_set_delete():
    """Stored children are used, deleted ones created again."""
    n, f, s = factory_node()
    k = any_key()
    v = any_obj(ANode)
    if type(n) is FactoryNode and any_bool():
        v = any_value()
    n[k] = v
    ensure('stored child', same(n[k], v) and same(n[k], v))
    ensure_map('stored', content(n.storage), m_put(s, k, v))
    del n[k]
    ensure_map('deleted', content(n.storage), m_del(s, k))
    r = outcome(getitem, n, k)
    ensure('created again', is_ok(r) == m_has(f, k))
    if is_ok(r):
        ensure('new child', type(r[1]) is Made and
               r[1].factory is m_get(f, k))
        cover('again')
    else:
        ensure('KeyError', raised(r, KeyError))


@contract('C14')
def failing_factory():
    n = one_of(FactoryNode, AdoptingFactoryNode)()
    any_map(n.storage, 'key', ANode)
    s = content(n.storage)
    k = any_key()
    assume(not m_has(s, k))
    n.factories = odict([(k, failing)])
    ensure('failure passed on', raised(outcome(getitem, n, k), RuntimeError))
    ensure_map('nothing stored', content(n.storage), s)
    cover('end')


def failing():
    raise RuntimeError('failing')


@contract('C14', mode='bounded', bound=3)
def factory_values():
    """Listing values creates all missing children."""
    n, f, s = factory_node()
    vals = n.values()
    keys = m_keys(f)
    ensure('one value per factory', len(vals) == len(keys))
    for i in range(len(keys)):
        k = keys[i]
        ensure('value', vals[i] is n[k])
        if m_has(s, k):
            ensure('stored child', vals[i] is m_get(s, k))
        else:
            ensure('made', vals[i].factory is m_get(f, k))
    cover('end')


@implementer(INode)
class Making(object):
    """Factory used for one child, makes it by itself."""
    __fields__ = {'__name__': 'str', 'given': ('none', 'str'), 'made': 'bool',
                  '__parent__': ('none', 'obj')}

    def __call__(self):
        self.made = True
        return self

    def __setattr__(self, name, value):
        object.__setattr__(self, 'given' if name == '__name__' else name,
                           value)


@contract('C14')
def any_factory_values():
    """Listing values creates all missing children, any number of them."""
    n = one_of(FactoryNode, AdoptingFactoryNode)()
    n.factories = one_of(dict, odict)()
    any_map(n.factories, 'str', Making, named=True)
    any_map(n.storage, 'str', (ANode, 'none', 'int'))
    f, s = content(n.factories), content(n.storage)
    k = any_str()
    i = 0
    if m_has(f, k):
        i = m_pos(f, k)
        assume(not n.factories[k].made)
    vals = n.values()
    ensure('one value per factory', len(vals) == m_len(f))
    if m_has(f, k):
        if m_has(s, k):
            ensure('stored child', same(vals[i], m_get(s, k)))
            ensure('nothing created', not m_get(f, k).made)
            cover('stored')
        else:
            ensure('made', vals[i] is m_get(f, k))
            ensure('created', vals[i].made)
            ensure('stored', n.storage[k] is m_get(f, k))
            if isinstance(n, AdoptingFactoryNode):
                ensure('name', same(vals[i].given, k))
                ensure('parent', vals[i].__parent__ is n)
            cover('made')
    elif m_has(s, k):
        ensure('other child', same(n.storage[k], m_get(s, k)))
        cover('other')
    else:
        ensure('nothing else stored', k not in n.storage)
        cover('none')


# -- fixed children


@plumbing(FixedChildren, Nodify)
class FixedNode(object):
    pass


@plumbing(FixedChildren, DefaultInit, Nodify)
class NamedFixedNode(object):
    pass


def fixed_node(n):
    factories = any_list(SomeFactory)
    pairs = []
    keys = []
    for f in factories:
        k = any_key()
        assume(k not in keys)
        keys = keys + [k]
        pairs = pairs + [(k, f)]
    n.fixed_children_factories = pairs
    calls = [f.calls for f in factories]
    n.__init__()
    return pairs, calls


@contract('C14', mode='bounded', bound=3)
def fixed_children():
    cls = one_of(FixedNode, NamedFixedNode)
    n = cls.__new__(cls)
    pairs, calls = fixed_node(n)
    ensure_seq('keys in order', n.keys(), [k for k, f in pairs])
    ensure('len', len(n) == len(pairs))
    seen = []
    for k, f in pairs:
        child = n[k]
        ensure('made by its factory', child.factory is f)
        ensure('name', same(child.__name__, k))
        ensure('parent', child.__parent__ is n)
        ensure('same child', n[k] is child and k in n)
        for other in seen:
            ensure('one instance each', other is not child)
        seen = seen + [child]
    ensure_seq('values', n.values(), seen)
    for i in range(len(calls)):
        times = len([x for x in pairs if x[1] is pairs[i][1]])
        ensure('created once', pairs[i][1].calls == calls[i] + times)
    k = any_key()
    if k not in [x for x, f in pairs]:
        ensure('KeyError', raised(outcome(getitem, n, k), KeyError))
    cover('end')


@contract('C14')
def any_fixed_children():
    cls = one_of(FixedNode, NamedFixedNode)
    n = cls.__new__(cls)
    m = any_map(odict(), 'str', Making, named=True)
    s = content(m)
    k = any_str()
    if m_has(s, k):
        m_pos(s, k)
        assume(not m[k].made)
    n.fixed_children_factories = list(m.items())
    n.__init__()
    ensure_seq('keys in order', n.keys(), m_keys(s))
    ensure('len', len(n) == m_len(s))
    if m_has(s, k):
        child = n[k]
        ensure('made by its factory', child is m_get(s, k))
        ensure('created', child.made)
        ensure('name', same(child.given, k))
        ensure('parent', child.__parent__ is n)
        ensure('same child', n[k] is child and k in n)
        cover('child')
    else:
        ensure('KeyError', raised(outcome(getitem, n, k), KeyError))
        cover('missing')


@contract('C14')
def fixed_children_are_immutable():
    cls = one_of(FixedNode, NamedFixedNode)
    n = cls.__new__(cls)
    n.fixed_children_factories = []
    n.__init__()
    any_map(n._children, 'key', Made)
    s = content(n._children)
    k = any_key()
    v = any_obj(ANode)
    op = upto(5)
    if op == 0:
        r = outcome(setitem, n, k, v)
    elif op == 1:
        r = outcome(delitem, n, k)
    elif op == 2:
        assume(m_has(s, k))
        r = outcome(n.pop, k)
    elif op == 3:
        r = outcome(n.update, [(k, v)])
    elif op == 4:
        assume(not m_has(s, k))
        r = outcome(n.setdefault, k, v)
    else:
        assume(m_len(s) > 0)
        r = outcome(one_of(n.popitem, n.clear))
    ensure('refused', raised(r, NotImplementedError))
    ensure_map('children unchanged', content(n._children), s)
    ensure_seq('keys', n.keys(), m_keys(s))
    ensure_seq('values', n.values(), m_values(s))
    r = outcome(getitem, n, k)
    ensure('lookup', is_ok(r) == m_has(s, k))
    if is_ok(r):
        ensure('same child', r[1] is m_get(s, k))
    else:
        ensure('KeyError', raised(r, KeyError))
    ensure_untouched('children unchanged')
    cover('end')


@contract('C14')
def fixed_children_are_not_shared():
    cls = one_of(FixedNode, NamedFixedNode)
    a, b = cls.__new__(cls), cls.__new__(cls)
    k = any_key()
    f = any_obj(SomeFactory)
    a.fixed_children_factories = b.fixed_children_factories = [(k, f)]
    a.__init__()
    first = a[k]
    b.__init__()
    ensure('own children', a[k] is first and b[k] is not first)
    ensure('parents', a[k].__parent__ is a and b[k].__parent__ is b)
    cover('end')
