"""Event dispatching."""
from common import *        # noqa
from node.behaviors import Events
from node.behaviors import EventAttribute
from node.behaviors import UnknownEvent
from node.events import EventDispatcher
import vapi


@plumbing(Events)
class Dispatcher(object):
    __events__ = ['a', 'b', 'c', '']
    truth = True

    def __bool__(self):
        return self.truth


@plumbing(Events)
class Base(object):
    __events__ = ['a']
    attr = EventAttribute(0)


class Derived(Base):
    other = EventAttribute(0)


class Sibling(Base):
    __events__ = ['b']




@plumbing(Events, Nodify, OdictStorage)
class DispatchingNode(object):
    __events__ = ['a', 'b', 'c', '']


called = []


class Subscriber(object):
    """Arbitrary subscriber, records being called."""
    __fields__ = {'result': 'any', 'truth': 'bool'}

    def __bool__(self):
        return self.truth

    def __call__(self, x, y=None):
        called.append((self, x, y))
        return self.result


class Recorder(object):
    """Records all arguments."""

    def __init__(self):
        self.calls = []

    def __call__(self, *args, **kw):
        self.calls.append((args, kw))

    def method(self, *args, **kw):
        self.calls.append((args, kw))


def keeps_lists(d):
    """Bindings are kept as lists by event, otherwise the contracts starting
    with arbitrary lists do not apply."""
    probe = Recorder()
    d.bind(c=probe)
    subs = d.__subscribers__
    res = type(subs) is dict and list(subs) == ['c'] and \
        type(subs['c']) is list and len(subs['c']) == 1 and \
        subs['c'][0] is probe
    d.unbind()
    return res and type(d.__subscribers__) is dict and \
        len(d.__subscribers__) == 0


def dispatcher():
    """Dispatcher with arbitrary subscribers of arbitrary events."""
    d = one_of(Dispatcher, DispatchingNode)()
    d.truth = any_bool()
    assume(keeps_lists(d))
    before = any_list(Subscriber)
    other = any_list(Subscriber)
    event = one_of('a', 'b', '')
    another = 'c'
    d.__subscribers__ = {event: before, another: other}
    called.clear()
    return d, event, another, list(before), list(other)


def bound(d, event):
    return list(d.__subscribers__.get(event, []))


@contract('C17')
def dispatch_all():
    d, event, another, subs, other = dispatcher()
    x, y = any_value(), any_value()
    if any_bool():
        d.dispatch(event, x, y=y)
    else:
        d.dispatch(event, x, y)
    ensure_seq('each subscriber once, in order, with the arguments',
               called, [(s, x, y) for s in subs])
    ensure_seq('bindings unchanged', bound(d, event), subs)
    ensure_seq('other bindings unchanged', bound(d, another), other)
    cover('end')


@contract('C17')
def dispatch_any_name():
    """Dispatching whatever name calls the subscribers of this name only."""
    d, event, another, subs, other = dispatcher()
    name = any_str()
    x = any_value()
    d.dispatch(name, x)
    if name == event:
        ensure_seq('subscribers called', called, [(s, x, None) for s in subs])
        cover('event')
    elif name == another:
        ensure_seq('subscribers called', called,
                   [(s, x, None) for s in other])
        cover('other event')
    else:
        ensure('nothing called', len(called) == 0)
        cover('unknown event')
    ensure_seq('bindings unchanged', bound(d, event), subs)
    ensure_seq('other bindings unchanged', bound(d, another), other)


@contract('C17')
def dispatch_returns_nothing_and_passes_arguments():
    d = one_of(Dispatcher, DispatchingNode, EventDispatcher)()
    d.register_event('e')
    r = Recorder()
    d.bind(e=r)
    x, y = any_value(), any_value()
    form = upto(4)
    if form == 0:
        d.dispatch('e')
        expected = ((), {})
    elif form == 1:
        d.dispatch('e', x)
        expected = ((x,), {})
    elif form == 2:
        d.dispatch('e', x, y)
        expected = ((x, y), {})
    elif form == 3:
        d.dispatch('e', key=x)
        expected = ((), {'key': x})
    else:
        d.dispatch('e', x, key=y, other=x)
        expected = ((x,), {'key': y, 'other': x})
    ensure('called once', len(r.calls) == 1)
    args, kw = r.calls[0]
    ensure('arguments', same(args, expected[0]))
    ensure('keywords', len(kw) == len(expected[1]))
    for k in expected[1]:
        ensure('keyword', same(kw[k], expected[1][k]))
    cover('end')


@contract('C17')
def binding():
    """Binding appends, a bound subscriber is not bound again."""
    d, event, another, subs, other = dispatcher()
    s = any_obj(Subscriber)
    if event == 'a':
        d.bind(a=s)
    elif event == 'b':
        d.bind(b=s)
    else:
        d.bind(**{'': s})
    d.dispatch(event, 1)
    if s in subs:
        ensure_seq('not bound again', called, [(t, 1, None) for t in subs])
        cover('bound already')
    else:
        ensure_seq('bound last', called,
                   [(t, 1, None) for t in subs] + [(s, 1, None)])
        cover('bound')
    called.clear()
    d.dispatch(another, 2)
    ensure_seq('other event not affected', called,
               [(t, 2, None) for t in other])


@contract('C17')
def bind_unknown():
    d, event, another, subs, other = dispatcher()
    s = any_obj(Subscriber)
    r = outcome(bind_d, d, s)
    ensure('refused', raised(r, UnknownEvent) and raised(r, ValueError))
    called.clear()
    d.dispatch('d', 1)
    ensure('not bound', len(called) == 0)
    d.register_event('d')
    d.dispatch('d', 1)
    ensure('still not bound', len(called) == 0)
    d.bind(d=s)
    d.dispatch('d', 1)
    ensure_seq('bound', called, [(s, 1, None)])
    ensure_seq('bindings unchanged', bound(d, event), subs)
    ensure_seq('other bindings unchanged', bound(d, another), other)
    cover('end')


def bind_d(d, s):
    d.bind(d=s)


@contract('C17')
def unbind_everything():
    d, event, another, subs, other = dispatcher()
    d.unbind()
    d.dispatch(event, 1)
    d.dispatch(another, 1)
    ensure('nothing bound', len(called) == 0)
    s = any_obj(Subscriber)
    d.bind(c=s)
    d.dispatch('c', 1)
    ensure_seq('only what was bound afterwards', called, [(s, 1, None)])
    cover('end')


@contract('C17')
def unbind_event():
    d, event, another, subs, other = dispatcher()
    if any_bool():
        d.unbind(event)
    else:
        d.unbind(event=event)
    d.dispatch(event, 1)
    ensure('nothing bound', len(called) == 0)
    d.dispatch(another, 2)
    ensure_seq('other event not affected', called,
               [(t, 2, None) for t in other])
    d.unbind('d')
    d.unbind('b')
    called.clear()
    d.dispatch(another, 3)
    ensure_seq('nothing to unbind', called, [(t, 3, None) for t in other])
    cover('end')


def dispatcher_of(s, second='b'):
    """Dispatcher where s is bound at arbitrary positions or not at all."""
    d = one_of(Dispatcher, DispatchingNode)()
    assume(keeps_lists(d))
    lists = []
    for i in range(2):
        subs = any_list(Subscriber)
        assume(s not in subs)
        where = upto(1)
        rest = []
        if where:
            rest = any_list(Subscriber)
            assume(s not in rest)
        lists = lists + [(subs, where, rest)]
    d.__subscribers__ = {
        'a': lists[0][0] + ([s] if lists[0][1] else []) + lists[0][2],
        second: lists[1][0] + ([s] if lists[1][1] else []) + lists[1][2]}
    called.clear()
    return d, lists


@contract('C17', limit='two events')
def unbind_subscriber_of_event():
    s = any_obj(Subscriber)
    second = one_of('b', '')
    d, lists = dispatcher_of(s, second)
    event = one_of('a', second)
    i = 0 if event == 'a' else 1
    other = second if event == 'a' else 'a'
    both = bound(d, other)
    if any_bool():
        d.unbind(event, s)
    else:
        d.unbind(subscriber=s, event=event)
    d.dispatch(event, 1)
    ensure_seq('only this subscriber removed', called,
               [(t, 1, None) for t in lists[i][0] + lists[i][2]])
    ensure_seq('other event not affected',
               bound(d, other), both)
    cover('end')


@contract('C17', limit='two events')
def unbind_subscriber():
    s = any_obj(Subscriber)
    d, lists = dispatcher_of(s)
    d.unbind(subscriber=s)
    d.dispatch('a', 1)
    ensure_seq('removed from the first event', called,
               [(t, 1, None) for t in lists[0][0] + lists[0][2]])
    called.clear()
    d.dispatch('b', 1)
    ensure_seq('removed from the second event', called,
               [(t, 1, None) for t in lists[1][0] + lists[1][2]])
    cover('end')


WHO = []


class Bound(object):
    """Subscribers of one of any number of events, by the contracts of the
    list methods: whether the subscriber in question is bound to the event.
    How lists change is up to the contracts above."""
    __fields__ = {'has': 'bool', '__name__': 'str'}

    def _only(self, s):
        if s is not WHO[0]:
            outside('other subscribers are looked up')

    def __contains__(self, s):
        self._only(s)
        return self.has

    def remove(self, s):
        self._only(s)
        if not self.has:
            raise ValueError(s)
        self.has = False

    def __iter__(self, *args):
        outside('lists of subscribers are used')

    __len__ = __getitem__ = __setitem__ = __delitem__ = __iter__

    def __bool__(self):
        return True

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        outside('%s of a list of subscribers is used' % name)


@contract('C17')
def unbind_subscriber_of_any_events():
    s = any_obj(Subscriber)
    WHO.clear()
    WHO.append(s)
    d = one_of(Dispatcher, DispatchingNode)()
    assume(keeps_lists(d))
    subs = {}
    any_map(subs, 'str', Bound, named=True)
    d.__subscribers__ = subs
    m = content(subs)
    event, some = one_of(None, any_str()), any_str()
    assume(m_has(m, some))
    before = m_get(m, some).has
    d.unbind(event=event, subscriber=s)
    ensure_map('same events', content(d.__subscribers__), m)
    if event is None or event == some:
        ensure('removed', not m_get(m, some).has)
        cover('removed')
    else:
        ensure('other event not affected', m_get(m, some).has == before)
        cover('other')


class Meddler(object):
    """Subscriber changing bindings when called."""

    def __init__(self, d, how, other):
        self.d = d
        self.how = how
        self.other = other

    def __call__(self, x, y=None):
        called.append((self, x, y))
        if self.how == 0:
            self.d.unbind()
        elif self.how == 1:
            self.d.unbind(event='a')
        elif self.how == 2:
            self.d.unbind(subscriber=self)
        elif self.how == 3:
            self.d.unbind(event='a', subscriber=self)
        elif self.how == 4:
            self.d.bind(a=self.other)
        elif self.how == 5:
            self.d.unbind(event='b')


@contract('C17')
def changed_while_dispatching():
    d = one_of(Dispatcher, DispatchingNode)()
    assume(keeps_lists(d))
    how = upto(5)
    other = Recorder()
    m = Meddler(d, how, other)
    before, after, second = any_list(Subscriber), any_list(Subscriber), \
        any_list(Subscriber)
    d.__subscribers__ = {'a': before + [m] + after, 'b': list(second)}
    called.clear()
    x = any_value()
    d.dispatch('a', x)
    ensure_seq('running dispatch not affected', called,
               [(s, x, None) for s in before + [m] + after])
    ensure('not called yet', len(other.calls) == 0)
    called.clear()
    m.how = 6
    d.dispatch('a', x)
    if how in (0, 1):
        ensure('unbound afterwards', len(called) == 0)
    elif how in (2, 3):
        ensure_seq('subscriber unbound afterwards', called,
                   [(s, x, None) for s in before + after])
    else:
        ensure_seq('others still bound', called,
                   [(s, x, None) for s in before + [m] + after])
    ensure('bound afterwards', len(other.calls) == (1 if how == 4 else 0))
    called.clear()
    d.dispatch('b', x)
    if how == 0 or how == 5:
        ensure('other event unbound', len(called) == 0)
    else:
        ensure_seq('other event not affected', called,
                   [(s, x, None) for s in second])
    cover('end')


@contract('C17')
def nested_dispatch():
    """A subscriber dispatching another event."""
    d = one_of(Dispatcher, DispatchingNode)()
    assume(keeps_lists(d))

    def nested(x, y=None):
        d.dispatch('b', x)
    first, second, third = any_list(Subscriber), any_list(Subscriber), \
        any_list(Subscriber)
    d.__subscribers__ = {'a': first + [nested] + second, 'b': list(third)}
    called.clear()
    x = any_value()
    d.dispatch('a', x)
    ensure_seq('all called', called,
               [(s, x, None) for s in first + third + second])
    cover('end')


@contract('C17')
def failing_subscriber():
    """Its error is passed on, later dispatches are not affected."""
    d = one_of(Dispatcher, DispatchingNode)()
    assume(keeps_lists(d))
    fail = [True]

    def failing(x, y=None):
        if fail[0]:
            raise RuntimeError(x)
    first, second = any_list(Subscriber), any_list(Subscriber)
    d.__subscribers__ = {'a': first + [failing] + second}
    called.clear()
    r = outcome(d.dispatch, 'a', 1)
    ensure('error passed on', raised(r, RuntimeError))
    ensure_seq('subscribers before called', called,
               [(s, 1, None) for s in first])
    called.clear()
    fail[0] = False
    d.dispatch('a', 2)
    ensure_seq('called afterwards', called,
               [(s, 2, None) for s in first + second])
    cover('end')


# -- no sharing


@contract('C17')
def own_bindings():
    cls = one_of(Dispatcher, DispatchingNode)
    d, e = cls(), cls()
    s = any_obj(Subscriber)
    called.clear()
    d.bind(a=s)
    e.dispatch('a', 1)
    f = cls()
    f.dispatch('a', 1)
    ensure('not bound at others', len(called) == 0)
    e.unbind()
    f.unbind(event='a', subscriber=s)
    d.dispatch('a', 1)
    ensure_seq('bound', called, [(s, 1, None)])
    cover('end')


def bind_x(d, s):
    d.bind(x=s)


@contract('C17')
def own_events():
    """Registered events belong to one dispatcher."""
    cls = one_of(Dispatcher, DispatchingNode, EventDispatcher, Base, Derived)
    d, e = cls(), cls()
    s = any_obj(Subscriber)
    d.register_event('x')
    d.register_event('x')
    ensure('not registered at others', raised(
        outcome(bind_x, e, s), UnknownEvent))
    ensure('not registered at later ones', raised(
        outcome(bind_x, cls(), s), UnknownEvent))
    ensure('not registered at the class', 'x' not in cls.__events__)
    called.clear()
    d.bind(x=s)
    d.dispatch('x', 1)
    ensure_seq('registered', called, [(s, 1, None)])
    cover('end')


@contract('C17')
def class_events():
    """Event attributes are events of their class and its subclasses."""
    ensure_seq('base', sorted(Base.__events__), ['a', 'attr'])
    ensure_seq('derived', sorted(Derived.__events__), ['a', 'attr', 'other'])
    ensure_seq('own events', sorted(Sibling.__events__), ['b'])
    ensure_seq('dispatcher', sorted(EventDispatcher.__events__), [])
    ensure_seq('list of the class', Dispatcher.__events__,
               ['a', 'b', 'c', ''])
    cover('end')


@plumbing(Events)
class WithArguments(object):
    __events__ = ['a']

    def __init__(self, x, y=None):
        self.x = x
        self.y = y


@contract('C17')
def constructor_arguments():
    x, y = any_value(), any_value()
    d = WithArguments(x, y) if any_bool() else WithArguments(x, y=y)
    ensure('arguments passed on', same(d.x, x) and same(d.y, y))
    called.clear()
    s = any_obj(Subscriber)
    d.bind(a=s)
    d.dispatch('a', 1)
    ensure_seq('dispatches', called, [(s, 1, None)])
    cover('end')


class Owner(object):
    """Object whose methods are subscribers."""

    def method(self, x, y=None):
        called.append((self, x, y))

    def another(self, x, y=None):
        called.append((None, x, y))


@contract('C17')
def bound_methods():
    """Methods are equal if they are the same method of the same object."""
    d = one_of(Dispatcher, DispatchingNode)()
    p, q = Owner(), Owner()
    d.bind(a=p.method)
    d.bind(a=q.method)
    d.bind(a=p.method)
    d.bind(a=p.another)
    called.clear()
    d.dispatch('a', 1)
    ensure_seq('each once', called, [(p, 1, None), (q, 1, None),
                                     (None, 1, None)])
    d.unbind(event='a', subscriber=p.method)
    called.clear()
    d.dispatch('a', 1)
    ensure_seq('one removed', called, [(q, 1, None), (None, 1, None)])
    d.unbind(subscriber=q.method)
    called.clear()
    d.dispatch('a', 1)
    ensure_seq('one left', called, [(None, 1, None)])
    cover('end')


# -- histories using the interface only


@contract('C17', mode='bounded', bound=3)
def histories():
    d = one_of(Dispatcher, DispatchingNode)()
    p, q = Owner(), Owner()
    model = {'a': [], 'b': []}
    for i in range(upto(3)):
        op = upto(2)
        event = one_of('a', 'b')
        s = one_of(p, q)
        if op == 0:
            if event == 'a':
                d.bind(a=s.method)
            else:
                d.bind(b=s.method)
            if s not in model[event]:
                model[event] = model[event] + [s]
        elif op == 1:
            d.unbind(event, s.method)
            model[event] = [t for t in model[event] if t is not s]
        elif event == 'a':
            d.unbind(subscriber=s.method)
            for e in ('a', 'b'):
                model[e] = [t for t in model[e] if t is not s]
        else:
            d.unbind(event=event)
            model[event] = []
    for event in ('a', 'b'):
        called.clear()
        d.dispatch(event, 1)
        ensure_seq('subscribers', called,
                   [(s, 1, None) for s in model[event]])
    cover('end')
