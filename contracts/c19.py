"""Event attributes."""
from common import *        # noqa
from node.behaviors import EventAttribute
from node.behaviors import Events
from node.behaviors import suppress_events
from node.utils import UNSET

called = []


class Subscriber(object):
    """Arbitrary bound subscriber."""
    __fields__ = {'truth': 'bool'}

    def __bool__(self):
        return self.truth

    def __call__(self, value):
        called.append((self, value))


class Decorated(object):
    """Arbitrary decorator subscriber, gets the object as well."""
    __fields__ = {'truth': 'bool'}

    def __bool__(self):
        return self.truth

    def __call__(self, obj, value):
        called.append((self, obj, value))


@plumbing(Events)
class Plain(object):
    __events__ = ['two', 'event']
    truth = True
    one = EventAttribute(0)
    two = EventAttribute('default')
    unset = EventAttribute()
    always = EventAttribute(None, always_dispatch=True)

    def __bool__(self):
        return self.truth


@plumbing(Events)
class Attributed(AttributedNode):
    """Values kept in the node attributes."""
    __events__ = ['event']
    one = EventAttribute(0, storage='attrs')
    two = EventAttribute('default', storage='attrs')
    unset = EventAttribute(storage='attrs')
    always = EventAttribute(None, 'attrs', True)


class Derived(Plain):
    pass


@plumbing(Events, Nodify, OdictStorage)
class Dispatching(object):
    """Values kept in another container."""
    __events__ = ['event']
    one = EventAttribute(0, 'values_')
    two = EventAttribute('default', storage='values_')
    unset = EventAttribute(storage='values_')
    always = EventAttribute(None, storage='values_', always_dispatch=True)

    def __init__(self):
        self.values_ = {}


CLASSES = (Plain, Attributed, Derived, Dispatching)
ATTRIBUTES = ('one', 'two', 'unset', 'always')


DESCRIPTORS = {cls: {name: next(c.__dict__[name] for c in cls.__mro__
                                if name in c.__dict__)
                     for name in ATTRIBUTES} for cls in CLASSES}


def descriptor(obj, name):
    return DESCRIPTORS[type(obj)][name]


def dispatcher():
    """Object having arbitrary values, without any subscribers."""
    d = one_of(*CLASSES)()
    d.truth = any_bool()
    for name in ATTRIBUTES:
        assume(type(descriptor(d, name).subscribers) is list)
        descriptor(d, name).subscribers = []
    return d


def default_of(name):
    if name == 'one':
        return 0
    if name == 'two':
        return 'default'
    if name == 'unset':
        return UNSET
    return None


def values(d):
    return [getattr(d, name) for name in ATTRIBUTES]


def same_values(a, b, but):
    for i in range(len(ATTRIBUTES)):
        if ATTRIBUTES[i] != but:
            if not same(a[i], b[i]):
                return False
    return True


def bind(d, name, s):
    """Bind s to the attribute event."""
    if name == 'one':
        d.bind(one=s)
    elif name == 'two':
        d.bind(two=s)
    elif name == 'unset':
        d.bind(unset=s)
    else:
        d.bind(always=s)


def any_subscribers(d, name):
    """Arbitrary subscribers of both kinds."""
    decorated = any_list(Decorated)
    descriptor(d, name).subscribers = list(decorated)
    subs = any_list(Subscriber)
    d.__subscribers__ = {name: list(subs)}
    called.clear()
    return decorated, subs


@contract('C19')
def defaults():
    cls = one_of(*CLASSES)
    d = cls()
    name = one_of(*ATTRIBUTES)
    ensure('default on class', same(getattr(cls, name), default_of(name)))
    ensure('default on object', same(getattr(d, name), default_of(name)))
    x = any_value()
    setattr(d, name, x)
    ensure('class not affected', same(getattr(cls, name), default_of(name)))
    ensure('new objects not affected',
           same(getattr(cls(), name), default_of(name)))
    cover('end')


@contract('C19')
def setting():
    d = dispatcher()
    name = one_of(*ATTRIBUTES)
    if any_bool():
        setattr(d, name, any_value())
    old = values(d)
    before = getattr(d, name)
    decorated, subs = any_subscribers(d, name)
    x = any_value()
    setattr(d, name, x)
    ensure('value last set', same(getattr(d, name), x))
    ensure('other attributes not affected',
           same_values(values(d), old, name))
    if name == 'always' or x != before:
        ensure_seq('decorated ones first, then bound ones, once each',
                   called, [(s, d, x) for s in decorated] +
                   [(s, x) for s in subs])
        cover('dispatched')
    else:
        ensure('not dispatched', len(called) == 0)
        cover('equal')


@contract('C19')
def setting_again():
    """The event is dispatched for each change."""
    d = dispatcher()
    name = one_of(*ATTRIBUTES)
    x, y = any_int(), any_int()
    assume(x != y)
    setattr(d, name, x)
    s = any_obj(Subscriber)
    bind(d, name, s)
    called.clear()
    setattr(d, name, y)
    setattr(d, name, y)
    setattr(d, name, x)
    expected = [(s, y), (s, y), (s, x)] if name == 'always' else \
        [(s, y), (s, x)]
    ensure_seq('changes', called, expected)
    ensure('value', getattr(d, name) == x)
    cover('end')


class Comparing(object):
    """Value with its own equality."""
    __fields__ = {'key': 'int'}

    def __eq__(self, other):
        return isinstance(other, Comparing) and self.key == other.key

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        return hash(self.key)


@contract('C19')
def equal_objects():
    d = dispatcher()
    name = one_of(*ATTRIBUTES)
    x, y = Comparing(), Comparing()
    x.key, y.key = any_int(), any_int()
    setattr(d, name, x)
    decorated, subs = any_subscribers(d, name)
    setattr(d, name, y)
    ensure('value last set', getattr(d, name) is y)
    if name == 'always' or x.key != y.key:
        ensure_seq('dispatched', called, [(s, d, y) for s in decorated] +
                   [(s, y) for s in subs])
        cover('dispatched')
    else:
        ensure('not dispatched', len(called) == 0)
        cover('equal')


@contract('C19')
def stored_when_dispatching():
    d = dispatcher()
    name = one_of(*ATTRIBUTES)
    x = any_value()
    assume(x != default_of(name))
    seen = []

    def subscriber(value):
        seen.append(getattr(d, name))

    def decorated(obj, value):
        seen.append(getattr(obj, name))
        ensure('object', obj is d)
    bind(d, name, subscriber)
    r = descriptor(d, name).subscriber(decorated)
    ensure('decorator gives the function', r is decorated)
    setattr(d, name, x)
    ensure_seq('stored before', seen, [x, x])
    cover('end')


@contract('C19')
def storage():
    """The configured container has the value."""
    d = dispatcher()
    name = one_of(*ATTRIBUTES)
    x = any_value()
    setattr(d, name, x)
    where = d.attrs if type(d) is Attributed else \
        d.values_ if type(d) is Dispatching else d.__dict__
    ensure('stored', same(where[name], x))
    y = any_value()
    where[name] = y
    ensure('read', same(getattr(d, name), y))
    cover('end')


@contract('C19')
def deleting():
    d = dispatcher()
    name = one_of(*ATTRIBUTES)
    x = any_value()
    is_set = any_bool()
    if is_set:
        setattr(d, name, x)
    old = values(d)
    s = any_list(Subscriber)
    others = any_list(Decorated)
    for other in ATTRIBUTES:
        if other != name:
            descriptor(d, other).subscribers = list(others)
    d.__subscribers__ = {name: list(s), 'event': [any_obj(Subscriber)]}
    called.clear()
    r = outcome(delattr, d, name)
    ensure('back to default', same(getattr(d, name), default_of(name)))
    ensure('other attributes not affected',
           same_values(values(d), old, name))
    if is_set:
        ensure('deleted', is_ok(r))
        ensure_seq('dispatched', called, [(t, UNSET) for t in s])
        cover('deleted')
    else:
        ensure('refused', not is_ok(r))
        ensure('not dispatched', len(called) == 0)
        cover('not set')


@contract('C19')
def deleting_and_setting():
    """Old values do not count after deleting."""
    d = dispatcher()
    name = one_of(*ATTRIBUTES)
    x = any_value()
    setattr(d, name, x)
    delattr(d, name)
    decorated, subs = any_subscribers(d, name)
    setattr(d, name, x)
    if name == 'always' or x != default_of(name):
        ensure_seq('dispatched', called, [(s, d, x) for s in decorated] +
                   [(s, x) for s in subs])
        cover('dispatched')
    else:
        ensure('not dispatched', len(called) == 0)
        cover('equal')


@contract('C19')
def own_values():
    """Objects of the same class do not share values or bound subscribers."""
    d = dispatcher()
    e = type(d)()
    name = one_of(*ATTRIBUTES)
    x, y = any_value(), any_value()
    setattr(e, name, y)
    s, t = any_obj(Subscriber), any_obj(Subscriber)
    bind(e, name, t)
    called.clear()
    setattr(d, name, x)
    ensure('other object not affected', same(getattr(e, name), y))
    ensure('its subscribers not called', len(called) == 0)
    delattr(d, name)
    ensure('still not affected', same(getattr(e, name), y))
    ensure('its subscribers still not called', len(called) == 0)
    cover('end')


@contract('C19')
def own_subscribers():
    """Subscribers of other attributes and events are not called."""
    d = dispatcher()
    name, other = one_of(*ATTRIBUTES), one_of(*ATTRIBUTES)
    assume(name != other)
    decorated, subs = any_list(Decorated), any_list(Subscriber)
    descriptor(d, name).subscribers = list(decorated)
    d.__subscribers__ = {name: list(subs), 'event': list(subs)}
    called.clear()
    x = any_value()
    setattr(d, other, x)
    ensure('others not called', len(called) == 0)
    d.dispatch('event', x)
    ensure_seq('bound to event only', called, [(s, x) for s in subs])
    called.clear()
    d.dispatch(name, x)
    ensure_seq('dispatched without change of an attribute', called,
               [(s, x) for s in subs])
    cover('end')


@contract('C19')
def nested_changes():
    """A decorator subscriber changes another attribute."""
    d = dispatcher()
    before, after = any_list(Decorated), any_list(Decorated)
    other = any_list(Decorated)
    subs, others = any_list(Subscriber), any_list(Subscriber)
    x, y = any_value(), any_value()
    assume(x != 0 and y != 'default')

    def nested(obj, value):
        obj.two = y
        obj.dispatch('event', value)
    descriptor(d, 'one').subscribers = before + [nested] + after
    descriptor(d, 'two').subscribers = list(other)
    d.__subscribers__ = {'one': list(subs), 'two': list(others)}
    called.clear()
    d.one = x
    ensure_seq('each for its own attribute', called,
               [(s, d, x) for s in before] + [(s, d, y) for s in other] +
               [(s, y) for s in others] + [(s, d, x) for s in after] +
               [(s, x) for s in subs])
    ensure('values', same(d.one, x) and same(d.two, y))
    cover('end')


@contract('C19')
def failing_subscriber():
    """No effect on later changes and events."""
    d = dispatcher()
    kind = any_bool()

    def failing(obj, value=None):
        raise RuntimeError()
    first = any_list(Decorated)
    if kind:
        descriptor(d, 'one').subscribers = first + [failing]
    else:
        descriptor(d, 'one').subscribers = list(first)
        d.bind(one=failing)
    x, y = any_value(), any_value()
    assume(x != 0 and y != 'default')
    called.clear()
    r = outcome(setattr, d, 'one', x)
    ensure('error passed on', raised(r, RuntimeError))
    ensure('value set', same(d.one, x))
    ensure_seq('subscribers before called', called,
               [(s, d, x) for s in first])
    called.clear()
    s = any_obj(Subscriber)
    d.bind(two=s, event=s)
    d.two = y
    d.dispatch('event', y)
    ensure_seq('later ones not affected', called, [(s, y), (s, y)])
    cover('end')


@contract('C19')
def suppressed_change():
    """A suppressed change is stored, its subscribers are never called."""
    d = dispatcher()
    decorated, subs = any_subscribers(d, 'one')
    x, y = any_value(), any_value()
    assume(y != 'default')
    with suppress_events(one_of('one', ['one', 'event'])):
        d.one = x
        ensure('value set', same(d.one, x))
    ensure('not called', len(called) == 0)
    d.dispatch('event', y)
    d.two = y
    ensure('not called later', len(called) == 0)
    d.dispatch('one', y)
    ensure_seq('decorated ones not called by dispatching', called,
               [(s, y) for s in subs])
    cover('end')


def set_value(d, name, x):
    setattr(d, name, x)


@contract('C19')
def any_thread():
    d = dispatcher()
    name = one_of(*ATTRIBUTES)
    decorated, subs = any_subscribers(d, name)
    x = any_value()
    assume(x != default_of(name))
    ensure('set', is_ok(in_thread('one', set_value, d, name, x)))
    ensure('value', same(getattr(d, name), x))
    ensure_seq('dispatched', called, [(s, d, x) for s in decorated] +
               [(s, x) for s in subs])
    cover('end')


# -- decorator


@plumbing(Events)
class WithDecorator(object):
    one = EventAttribute(0)
    two = EventAttribute(0)

    @one.subscriber
    def on_one(self, value):
        called.append((self, 'one', value))

    @two.subscriber
    def on_two(self, value):
        called.append((self, 'two', value))

    @two.subscriber
    def on_two_again(self, value):
        called.append((self, 'again', value))


@contract('C19')
def decorator():
    d, e = WithDecorator(), WithDecorator()
    x, y = any_int(), any_int()
    assume(x != 0 and y != 0)
    called.clear()
    d.one = x
    e.two = y
    ensure_seq('called', called, [(d, 'one', x), (e, 'two', y),
                                  (e, 'again', y)])
    ensure('values', d.one == x and d.two == 0 and e.one == 0 and e.two == y)
    ensure('still methods', outcome(d.on_one, 5)[0] == 'ok')
    cover('end')
