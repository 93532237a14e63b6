from common import *        # noqa
from node.behaviors import NodeChildValidate
from zope.interface import provider


class Recorder(object):

    def __init__(self):
        self.log = []

    def __setitem__(self, key, val):
        self.log.append((key, val))


@plumbing(NodeChildValidate)
class Validating(Recorder):
    pass


@plumbing(NodeChildValidate)
class Permissive(Recorder):
    allow_non_node_childs = True


def rejected(n, k, v):
    r = outcome(setitem, n, k, v)
    ensure('ValueError', raised(r, ValueError))
    ensure('nothing is passed on', n.log == [])


def passed(n, k, v):
    r = outcome(setitem, n, k, v)
    ensure('accepted', is_ok(r))
    ensure('passed on exactly once', len(n.log) == 1)
    ensure('key and value as given', same(n.log[0], (k, v)))
    ensure_untouched('value unchanged', n)


@contract('C05')
def non_nodes_are_rejected():
    n = Validating()
    rejected(n, any_key(), any_value(NoNode, 'any'))
    ensure_untouched('nothing changed', n)
    cover('end')


class NoNode(object):
    __fields__ = {'__name__': ('none', 'str'), '__parent__': ('none', 'obj')}


class SomeClass(object):
    pass


class Meta(type):
    pass


# classes, although they provide the node interface themselves
Provider = provider(INode)(type('Provider', (object,), {}))
MetaProvider = provider(INode)(Meta('MetaProvider', (object,), {}))
NodeProvider = provider(INode)(type(BaseNode)('NodeProvider', (BaseNode,), {}))


@contract('C05')
def classes_are_rejected():
    n = Validating()
    c = one_of(SomeClass, NoNode, Provider, MetaProvider, NodeProvider, ANode, BaseNode, Node, dict, int, str, type,
               INode, len, [1], {}, (), b'x', 1.5)
    rejected(n, any_key(), c)
    cover('end')


@contract('C05')
def nodes_are_accepted():
    n = Validating()
    passed(n, any_key(), any_obj(ANode))
    cover('end')


@contract('C05')
def real_nodes_are_accepted():
    n = Validating()
    v = one_of(DNode, ONode, BaseNode, OrderedNode, Node, AttributedNode)()
    passed(n, any_key(), v)
    cover('end')


@contract('C05')
def everything_is_accepted_if_allowed():
    if any_bool():
        n = Permissive()
    else:
        n = Validating()
        n.allow_non_node_childs = True
    passed(n, any_key(), any_value(NoNode, ANode, 'any'))
    cover('end')


@contract('C05')
def classes_are_accepted_if_allowed():
    n = Permissive()
    c = one_of(SomeClass, NoNode, ANode, BaseNode, Node, dict, INode, len)
    passed(n, any_key(), c)
    cover('end')


@contract('C05')
def validation_is_per_node():
    a, b = Validating(), Validating()
    a.allow_non_node_childs = True
    k, v = any_key(), any_value()
    passed(a, k, v)
    rejected(b, k, v)
    cover('end')


def _rejecting_node(cls):
    n = cls()
    any_map(n.storage, 'regular', ANode)
    s = content(n.storage)
    k = any_value('regular')
    v = any_value(NoNode, 'any')
    r = outcome(setitem, n, k, v)
    ensure('ValueError', raised(r, ValueError))
    ensure_map('children unchanged', content(n.storage), s)
    ensure_untouched('value unchanged', n)
    r = outcome(n.setdefault, k, v)
    if m_has(s, k):
        ensure('present child', is_ok(r) and same(r[1], m_get(s, k)))
        cover('present')
    else:
        ensure('setdefault rejects', raised(r, ValueError))
        cover('absent')
    ensure_map('children still unchanged', content(n.storage), s)


@contract('C05')
def base_nodes_reject():
    _rejecting_node(one_of(BaseNode, OrderedNode))


@contract('C05')
def full_nodes_reject():
    _rejecting_node(one_of(Node, AttributedNode))


@contract('C05')
def attributes_accept_everything():
    n = NodeAttributes(None, None)
    k = any_key()
    v = any_value(NoNode, 'any')
    n[k] = v
    ensure('stored', same(n[k], v))
    cover('end')
