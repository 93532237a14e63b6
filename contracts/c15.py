"""Uuid aware nodes."""
from common import *        # noqa
from node.behaviors import DefaultInit
from node.behaviors import UUIDAware
from node.interfaces import IUUIDAware
from plumber import Behavior
from plumber import override
from subtrees import Guarded
import uuid


@plumbing(UUIDAware, Adopt, DefaultInit, Nodify, OdictStorage)
class UNode(object):
    pass


@plumbing(UUIDAware, Adopt, DefaultInit, Nodify, DictStorage)
class FlatUNode(object):
    overwrite_recursiv_on_copy = False


@plumbing(Adopt, DefaultInit, Nodify, OdictStorage)
class PlainNode(object):
    pass


@implementer(INode, IUUIDAware)
class Holder(object):
    """Uuid aware node as seen by others."""
    __fields__ = {'uuid': 'none', '__name__': ('none', 'str'),
                  '__parent__': ('none', 'obj')}
    uuid = None

    def values(self):
        return []


@contract('C15')
def creation():
    cls = one_of(UNode, FlatUNode)
    a = any_uuid()
    n = cls()
    m = cls()
    ensure('uuid', isinstance(n.uuid, uuid.UUID))
    ensure('own uuid', n.uuid != m.uuid and n.uuid != a and m.uuid != a)
    c = cls()
    ensure('own uuid', c.uuid != n.uuid and c.uuid != m.uuid)
    cover('end')


@contract('C15')
def shallow_copy_is_refused():
    n = one_of(UNode, FlatUNode)()
    any_map(n.storage, 'key', ANode)
    s = content(n.storage)
    u = n.uuid
    ensure('RuntimeError', raised(outcome(n.copy), RuntimeError))
    ensure('uuid unchanged', n.uuid is u)
    ensure_map('children unchanged', content(n.storage), s)
    ensure_untouched('children unchanged')
    cover('end')


@contract('C15')
def assign_one():
    """Assigning a uuid to one node, not recursively."""
    n = one_of(UNode, FlatUNode)()
    own = n.uuid
    node = one_of(UNode, FlatUNode, PlainNode)()
    any_map(node.storage, 'key', (ANode, Holder))
    s = content(node.storage)
    aware = IUUIDAware.providedBy(node)
    if aware:
        node.uuid = one_of(None, any_uuid())
    old = node.uuid if aware else None
    override = any_bool()
    how = upto(2)
    if how == 0:
        n.set_uuid_for(node, override)
    elif how == 1:
        n.set_uuid_for(node, override, False)
    else:
        n.set_uuid_for(node, override=override, recursiv=False)
    if not aware:
        ensure('no uuid', not hasattr(node, 'uuid'))
        cover('not aware')
    elif old is None:
        ensure('got uuid', isinstance(node.uuid, uuid.UUID) and
               node.uuid != own)
        cover('had none')
    elif override:
        ensure('new uuid', node.uuid != old and node.uuid != own)
        cover('override')
    else:
        ensure('uuid kept', node.uuid is old)
        cover('kept')
    ensure('own uuid kept', n.uuid is own)
    ensure_map('children unchanged', content(node.storage), s)
    ensure_untouched('children unchanged')


@contract('C15')
def default_is_no_override():
    n, node = UNode(), UNode()
    old = node.uuid
    n.set_uuid_for(node)
    ensure('uuid kept', node.uuid is old)
    node.uuid = None
    n.set_uuid_for(node)
    ensure('got uuid', node.uuid is not None and node.uuid != n.uuid)
    cover('end')


class Kid(Guarded):
    """Any subtree by the contract of ``set_uuid_for``."""
    __fields__ = {'told': 'bool', 'override': 'bool', 'uuid': 'uuid',
                  '__name__': ('none', 'str'), '__parent__': ('none', 'obj')}


@implementer(INode, IUUIDAware)
class AwareKid(Kid):
    pass


@implementer(INode)
class OtherKid(Kid):
    pass


class Plain(object):
    """No node."""
    __fields__ = {'told': 'bool'}


class Inductive(UNode):
    """Children are told by the contract of ``set_uuid_for``."""

    def set_uuid_for(self, node, override=False, recursiv=False):
        if not isinstance(node, Kid):
            return UNode.set_uuid_for(self, node, override, recursiv)
        if recursiv:
            node.told = True
            node.override = override


@contract('C15')
def assign_in_any_tree():
    """The children of a node are told like the node itself."""
    n = Inductive()
    own = n.uuid
    top = one_of(UNode, PlainNode)()
    any_map(top.storage, 'key', (AwareKid, OtherKid, Plain, 'none', 'str'))
    s = content(top.storage)
    aware = IUUIDAware.providedBy(top)
    if aware:
        top.uuid = one_of(None, any_uuid())
    old = top.uuid if aware else None
    k = any_key()
    kid = m_get(s, k) if m_has(s, k) else None
    if isinstance(kid, (Kid, Plain)):
        assume(not kid.told)
        m_pos(s, k)
    override = any_bool()
    how = upto(3)
    recursive = True
    if how == 0:
        n.set_uuid_for(top, override, True)
    elif how == 1:
        n.set_uuid_for(top, override=override, recursiv=True)
    elif how == 2:
        recursive = override = False
        n.set_uuid_for(top)
    else:
        recursive = False
        n.set_uuid_for(top, override)
    if isinstance(kid, Plain):
        ensure('no node', not kid.told)
        cover('no node')
    elif isinstance(kid, Kid):
        if not recursive:
            ensure('this node only', not kid.told)
            cover('this node only')
        else:
            ensure('told', kid.told)
            ensure('same way', kid.override == override)
            cover('told')
    if aware:
        if override or old is None:
            ensure('new uuid', isinstance(top.uuid, uuid.UUID) and
                   top.uuid != own and top.uuid != old)
        else:
            ensure('uuid kept', top.uuid is old)
    else:
        ensure('no uuid', not hasattr(top, 'uuid'))
    ensure('own uuid kept', n.uuid is own)
    ensure_map('children unchanged', content(top.storage), s)


class Copies(Behavior):
    """Contract of deepcopy: returns a copy."""
    the_copy = override(None)

    @override
    def deepcopy(self):
        return self.the_copy


@plumbing(UUIDAware, Copies, Adopt, DefaultInit, Nodify, OdictStorage)
class CopiedNode(object):
    pass


class Copied(CopiedNode):

    def set_uuid_for(self, node, override=False, recursiv=False):
        if not isinstance(node, Kid):
            return CopiedNode.set_uuid_for(self, node, override, recursiv)
        if recursiv:
            node.told = True
            node.override = override


@contract('C15')
def copies_of_any_tree():
    """All uuids of the copied tree are replaced, or that of the root."""
    n = Copied()
    n.overwrite_recursiv_on_copy = recursive = any_bool()
    n.the_copy = c = Copied()
    c.overwrite_recursiv_on_copy = recursive
    any_map(c.storage, 'key', (AwareKid, OtherKid, Plain, 'none', 'str'))
    s = content(c.storage)
    own = n.uuid
    old = c.uuid = one_of(own, any_uuid(), None)
    k = any_key()
    kid = m_get(s, k) if m_has(s, k) else None
    if isinstance(kid, (Kid, Plain)):
        assume(not kid.told)
        m_pos(s, k)
    ensure('copy', n.deepcopy() is c)
    ensure('new uuid', isinstance(c.uuid, uuid.UUID) and
           c.uuid != own and c.uuid != old)
    if isinstance(kid, Plain):
        ensure('no node', not kid.told)
    elif isinstance(kid, Kid):
        ensure('told', kid.told == recursive)
        ensure('all uuids', not recursive or kid.override)
        cover('told')
    ensure('own uuid kept', n.uuid is own)
    ensure_map('children unchanged', content(c.storage), s)


def tree(depth):
    """Arbitrary tree of uuid aware nodes, others and plain values."""
    kind = upto(3 if depth else 1)
    if kind == 0:
        return any_value('none', 'str')
    n = one_of(UNode, PlainNode)() if kind < 3 else PlainNode()
    if depth:
        for k in ['a', 'b']:
            if any_bool():
                n[k] = tree(depth - 1)
    if kind == 1 and IUUIDAware.providedBy(n):
        n.uuid = None
    return n


def collect(n):
    """All nodes of a tree."""
    out = [n]
    for v in n.values():
        if INode.providedBy(v):
            out = out + collect(v)
    return out


def shape(a, b):
    """Same structure."""
    if not INode.providedBy(a):
        return same(a, b)
    if type(a) is not type(b) or a.keys() != b.keys() or a is b:
        return False
    for k in a.keys():
        if not shape(a[k], b[k]):
            return False
    return True


def uuids(nodes):
    return [x.uuid for x in nodes
            if IUUIDAware.providedBy(x) and x.uuid is not None]


def small(kind):
    """One of some small trees."""
    if kind == 1:
        return one_of(None, 'text')
    n = UNode() if kind % 2 else PlainNode()
    if kind == 3:
        n.uuid = None
    if kind > 3:
        n['value'] = 1
        n['node'] = c = UNode()
        if any_bool():
            c.uuid = None
        else:
            c['node'] = PlainNode()
            c['node']['node'] = UNode()
    return n


@contract('C15', mode='bounded', bound=1)
def deep_copies():
    n = one_of(UNode, FlatUNode)()
    recursive = n.overwrite_recursiv_on_copy
    for k in ['a', 'b']:
        kind = upto(5)
        if kind:
            n[k] = small(kind)
    nodes = collect(n)
    before = [(x, x.uuid) for x in nodes if IUUIDAware.providedBy(x)]
    c = n.deepcopy()
    copies = collect(c)
    ensure('same structure', shape(n, c))
    ensure('root got a new uuid', c.uuid is not None and
           c.uuid not in uuids(nodes))
    for x, u in before:
        ensure('original keeps its uuids', x.uuid is u)
    if recursive:
        seen = uuids(nodes)
        for x in copies:
            if IUUIDAware.providedBy(x):
                ensure('new uuid', x.uuid is not None and
                       x.uuid not in seen)
                seen = seen + [x.uuid]
        cover('recursive')
    else:
        for i in range(1, len(copies)):
            if IUUIDAware.providedBy(copies[i]):
                ensure('uuid copied', copies[i].uuid == nodes[i].uuid)
        cover('root only')


@contract('C15', mode='bounded', bound=1)
def assign_recursively():
    n = UNode()
    top = one_of(UNode, PlainNode)()
    if any_bool() and IUUIDAware.providedBy(top):
        top.uuid = None
    for k in ['a', 'b']:
        kind = upto(5)
        if kind:
            top[k] = small(kind)
    nodes = collect(top)
    before = [(x, x.uuid) for x in nodes if IUUIDAware.providedBy(x)]
    override = any_bool()
    n.set_uuid_for(top, override, True)
    seen = [n.uuid] + [u for x, u in before if u is not None]
    for x, u in before:
        if override or u is None:
            ensure('new uuid', x.uuid is not None and x.uuid not in seen)
            seen = seen + [x.uuid]
            cover('assigned')
        else:
            ensure('uuid kept', x.uuid is u)
            cover('kept')
    for x in nodes:
        if not IUUIDAware.providedBy(x):
            ensure('no uuid', not hasattr(x, 'uuid'))


@contract('C15', mode='runtime')
def many_deep_copies():
    n = UNode()
    for i in range(any_int(0, 4)):
        n['k%s' % i] = tree(3)
    seen = uuids(collect(n))
    for i in range(any_int(1, 3)):
        c = n.deepcopy()
        ensure('same structure', shape(n, c))
        for x in collect(c):
            if IUUIDAware.providedBy(x):
                ensure('new uuid', x.uuid is not None and
                       x.uuid not in seen)
                seen = seen + [x.uuid]
        n = c
