"""Properties computed once per instance."""
from common import *        # noqa
from node.utils import instance_property

CALLS = []
RESULT = []
FAIL = []


class AnError(Exception):
    pass


def compute(name, ob):
    CALLS.append((name, ob))
    if FAIL:
        raise FAIL[0]
    return RESULT[0]


class Computed(object):
    """Object with computed properties."""

    @instance_property
    def one(self):
        """Documentation of one."""
        return compute('one', self)

    @instance_property
    def two(self):
        return compute('two', self)

    @instance_property
    def both(self):
        return compute('both', (self.one, self.two))


class Slots(object):
    """No instance dictionary."""
    __slots__ = ('_one', '_two')

    @instance_property
    def one(self):
        return compute('one', self)

    @instance_property
    def two(self):
        return compute('two', self)


class Derived(Computed):
    """Inherits properties."""


class Guarded(object):
    """Own lookup of missing attributes."""

    @instance_property
    def one(self):
        return compute('one', self)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return 'other'


@plumbing(Adopt, Nodify, OdictStorage)
class ComputedNode(object):

    @instance_property
    def one(self):
        return compute('one', self)

    @instance_property
    def two(self):
        return compute('two', self)


class Target(object):
    pass


def start():
    CALLS.clear()
    RESULT.clear()
    FAIL.clear()


def any_result():
    if any_bool():
        return any_value('none', 'bool', 'int', 'str')
    return one_of(Target(), [], {}, Target, ComputedNode())


def any_object():
    return one_of(Computed, Derived, Guarded, ComputedNode, Slots)()


@contract('C25')
def computed_once():
    start()
    ob = any_object()
    v = any_result()
    RESULT.append(v)
    ensure('not computed before access', len(CALLS) == 0)
    first = ob.one
    ensure('value', same(first, v))
    ensure('computed', len(CALLS) == 1)
    ensure('with the object', CALLS[0][0] == 'one' and CALLS[0][1] is ob)
    RESULT[0] = Target()
    ensure('identical', same(ob.one, v))
    ensure('still identical', same(getattr(ob, 'one'), v))
    ensure('once', len(CALLS) == 1)
    cover('end')


@contract('C25')
def any_number_of_accesses():
    start()
    ob = any_object()
    v = any_result()
    RESULT.append(v)
    first = ob.one
    for i in any_list('int'):
        ensure('identical', same(ob.one, first))
    ensure('once', len(CALLS) == 1)
    cover('end')


@contract('C25')
def objects_do_not_share():
    start()
    a, b = any_object(), any_object()
    v, w = any_result(), any_result()
    RESULT.append(v)
    x = a.one
    RESULT[0] = w
    y = b.one
    ensure('computed for both', len(CALLS) == 2 and CALLS[1][1] is b)
    ensure('own values', same(x, v) and same(y, w))
    ensure('kept', same(a.one, v) and same(b.one, w))
    c = type(a)()
    RESULT[0] = z = Target()
    ensure('new object', c.one is z)
    ensure('others kept', same(a.one, v) and same(b.one, w))
    ensure('once per object', len(CALLS) == 3)
    cover('end')


@contract('C25')
def properties_do_not_share():
    start()
    ob = one_of(Computed, Derived, ComputedNode)()
    v, w = any_result(), any_result()
    order = any_bool()
    RESULT.append(v)
    x = ob.one if order else ob.two
    RESULT[0] = w
    y = ob.two if order else ob.one
    ensure('own values', same(x, v) and same(y, w))
    ensure('kept', same(ob.one, v if order else w) and
           same(ob.two, w if order else v))
    ensure('once per property', len(CALLS) == 2)
    ensure('names', CALLS[0][0] != CALLS[1][0])
    cover('end')


@contract('C25')
def nested_properties():
    """Computed properties using each other."""
    start()
    ob = one_of(Computed, Derived)()
    v = any_result()
    RESULT.append(v)
    access = upto(2)
    if access == 1:
        ob.one
    if access == 2:
        ob.two
    ensure('value', same(ob.both, v))
    ensure('each once', len(CALLS) == 3)
    ensure('values passed', same(CALLS[2][1], (v, v)))
    ensure('kept', same(ob.both, v) and same(ob.one, v))
    ensure('not again', len(CALLS) == 3)
    cover('end')


@contract('C25')
def failing():
    """Nothing remembered, computed again."""
    start()
    ob = any_object()
    error = one_of(AnError, ValueError, KeyError, TypeError)('x')
    FAIL.append(error)
    r = outcome(getattr, ob, 'one')
    ensure('its error', r[0] == 'exc' and r[1] is error)
    ensure('called', len(CALLS) == 1)
    r = outcome(getattr, ob, 'one')
    ensure('its error again', r[0] == 'exc' and r[1] is error)
    ensure('called again', len(CALLS) == 2)
    FAIL.clear()
    v = any_result()
    RESULT.append(v)
    ensure('computed then', same(ob.one, v))
    ensure('identical then', same(ob.one, v))
    ensure('called three times', len(CALLS) == 3)
    cover('end')


@contract('C25')
def failing_with_attribute_error():
    start()
    ob = one_of(Computed, Derived, ComputedNode)()
    FAIL.append(AttributeError('missing'))
    ensure('error', raised(outcome(getattr, ob, 'one'), AttributeError))
    ensure('called', len(CALLS) == 1)
    FAIL.clear()
    v = any_result()
    RESULT.append(v)
    ensure('computed then', same(ob.one, v))
    ensure('identical then', same(ob.one, v))
    ensure('called again', len(CALLS) == 2)
    cover('end')


@contract('C25')
def is_property():
    """Documentation is kept, the value can not be set."""
    start()
    ensure('documentation', Computed.one.__doc__ == 'Documentation of one.')
    ob = Computed()
    RESULT.append(1)
    ensure('read only', raised(outcome(setattr, ob, 'one', 5),
                               AttributeError))
    ensure('not computed', len(CALLS) == 0)
    ensure('computed', ob.one == 1)
    cover('end')
