"""Classes shared by the contracts."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import DictStorage
from node.behaviors import FullMapping
from node.behaviors import NodeAttributes
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.interfaces import INode
from odict import odict
from plumber import plumbing
from vapi import *          # noqa
from zope.interface import implementer
import vapi


@implementer(INode)
class ANode(object):
    """Arbitrary node as seen by other nodes: a name and a parent."""
    __fields__ = {'__name__': ('none', 'str'), '__parent__': ('none', 'obj'),
                  'truth': 'bool'}
    __name__ = None
    __parent__ = None
    truth = True

    def __bool__(self):
        return self.truth

    @property
    def name(self):
        return self.__name__

    @property
    def parent(self):
        return self.__parent__


@plumbing(FullMapping)
class Mapped(object):
    """Mapping behaviors over the contract of an abstract mapping."""

    def __init__(self):
        self.storage = odict()

    def __getitem__(self, key):
        return self.storage[key]

    def __setitem__(self, key, val):
        self.storage[key] = val

    def __delitem__(self, key):
        del self.storage[key]

    def __iter__(self):
        for key in self.storage:
            yield key


@plumbing(Nodify, DictStorage)
class DNode(object):
    pass


@plumbing(Nodify, OdictStorage)
class ONode(object):
    pass


def failure():
    """Errors which code may handle in special ways."""
    return one_of(RuntimeError('x'), KeyError('x'), StopIteration('x'),
                  Abort('x'))


def special(k):
    """Keys addressing nodespaces."""
    return isinstance(k, str) and k.startswith('__') and k.endswith('__')
