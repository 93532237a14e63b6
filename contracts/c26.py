"""Tree representation."""
from subtrees import *      # noqa
from node.behaviors import DefaultInit
from node.behaviors import Order
from node.interfaces import IOrdered


@plumbing(Nodify, DefaultInit, DictStorage)
class DTree(object):
    """Not ordered."""


@plumbing(Nodify, DefaultInit, OdictStorage)
class OTree(object):
    """Ordered."""


@plumbing(Nodify, DefaultInit, OdictStorage)
class Labeled(object):
    """With an own representation."""

    @property
    def noderepr(self):
        return 'labeled ' + str(self.__name__)


CLASSES = (DTree, OTree, Labeled)


class Leaf(object):
    """Node with any representation."""
    __fields__ = {}


@implementer(INode)
class Rep(Guarded):
    """Any node below, by the contract of treerepr: lines."""
    __fields__ = {'__name__': ('none', 'str'), '__parent__': ('none', 'obj')}

    @property
    def name(self):
        return self.__name__

    @property
    def parent(self):
        return self.__parent__

    def treerepr(self, indent=0, prefix=' '):
        return pure('rep', 'str', self, indent, prefix) + '\n'


def text_of(n):
    """Text of the node itself."""
    if isinstance(n, Labeled):
        return 'labeled ' + str(n.__name__)
    name = str(n.__name__)
    i = name.find(':')
    return str(type(n)) + ': ' + (name[i + 1:] if i >= 0 else name)


def ordered(n):
    return not isinstance(n, DTree)


def expected(n, indent, prefix, by_text=None):
    """Representation of a tree, line by line."""
    by_text = by_text or inserted
    lines = indent * prefix + text_of(n) + '\n'
    items = list(n.storage.items())
    if not ordered(n):
        items = by_text(items)
    for key, val in items:
        if isinstance(val, Rep):
            lines += val.treerepr(indent + 2, prefix)
        elif isinstance(val, CLASSES):
            lines += expected(val, indent + 2, prefix)
        else:
            lines += (indent + 2) * prefix + str(key) + ': ' + repr(val) + '\n'
    return lines


def by_key(items):
    return sorted(items, key=lambda item: str(item[0]))


def inserted(items):
    """Sorted by the text of the key, in order for equal ones."""
    out = []
    for item in items:
        i = 0
        while i < len(out) and str(out[i][0]) <= str(item[0]):
            i += 1
        out.insert(i, item)
    return out


def tree(depth, width, keys, vals, name=None, classes=CLASSES):
    n = one_of(*classes)(name=name)
    if depth >= 0:
        for i in range(upto(width)):
            key = any_value(*keys)
            assume(key not in n.storage)
            if depth and any_bool():
                n.storage[key] = tree(depth - 1, 1, keys, vals, key)
            else:
                n.storage[key] = any_value(*vals)
    return n


@contract('C26')
def node_line():
    """Name without namespace."""
    n = one_of(*CLASSES)()
    n.__name__ = any_value('none', 'str', 'int')
    kind = upto(2)
    if kind == 0:
        ensure('defaults', n.treerepr() == expected(n, 0, ' '))
    elif kind == 1:
        indent, prefix = one_of((0, ' '), (1, any_str()), (2, '->'))
        ensure('text', n.treerepr(indent, prefix) ==
               expected(n, indent, prefix))
    else:
        ensure('keywords', n.treerepr(prefix='_', indent=3) ==
               expected(n, 3, '_'))
    cover('end')


@contract('C26')
def any_children():
    """Any number of children, nodes and values."""
    n = OTree(name=any_str())
    any_map(n.storage, 'str', (Rep, 'none', 'int', 'str'))
    before = content(n.storage)
    prefix = any_str()
    ensure('text', n.treerepr(2, prefix) == expected(n, 2, prefix))
    ensure_map('unchanged', content(n.storage), before)
    cover('end')


@contract('C26')
def printed_tree():
    n = OTree(name=any_str())
    any_map(n.storage, 'str', (Rep, 'none', 'int', 'str'))
    r, text = printed(n.printtree)
    ensure('printed', is_ok(r))
    ensure('representation', text == expected(n, 0, ' ') + '\n')
    cover('end')


@contract('C26')
def any_sorted_children():
    """Any number of children, sorted by their text.  What sorting by a key
    is, is up to the contracts below."""
    n = DTree(name=any_str())
    any_map(n.storage, 'str', (Rep, 'none', 'int', 'str'))
    before = content(n.storage)
    prefix = any_str()
    ensure('text', n.treerepr(2, prefix) == expected(n, 2, prefix, by_key))
    ensure_map('unchanged', content(n.storage), before)
    cover('end')


@contract('C26', limit='up to 3 children')
def sorted_children():
    n = DTree(name='x')
    for i in range(upto(3)):
        key = any_str()
        assume(key not in n.storage)
        n.storage[key] = any_int() if i else any_value('none', Rep)
    before = content(n.storage)
    ensure('text', n.treerepr() == expected(n, 0, ' '))
    ensure_map('unchanged', content(n.storage), before)
    cover('end')


@contract('C26', limit='nodes of up to 3 levels with one child each')
def trees():
    n = tree(2, 1, ('str',), ('int',))
    prefix = any_str()
    ensure('text', n.treerepr(0, prefix) == expected(n, 0, prefix))
    cover('end')


@contract('C26', limit='up to 2 children')
def other_keys():
    """Keys of other types, sorted by their text."""
    n = tree(0, 2, ('str', 'int', 'none'), ('int',), None, (DTree, OTree))
    ensure('text', n.treerepr() == expected(n, 0, ' '))
    cover('end')


@contract('C26', mode='runtime')
def large_trees():
    n = tree(3, 3, ('str', 'int'), ('int', 'none', 'str'), 'ns:root')
    indent, prefix = upto(3), one_of(' ', '. ', '')
    ensure('text', n.treerepr(indent, prefix) == expected(n, indent, prefix))
    cover('end')
