"""Suppression of events."""
from common import *        # noqa
from node.behaviors import Events
from node.behaviors import EventAttribute
from node.behaviors import suppress_events
import vapi

called = []


class Subscriber(object):
    """Arbitrary subscriber, records being called."""
    __fields__ = {'truth': 'bool'}

    def __bool__(self):
        return self.truth

    def __call__(self, x):
        called.append((self, x))


@plumbing(Events)
class Dispatcher(object):
    __events__ = ['a', 'b']
    attr = EventAttribute(0)
    truth = True

    def __bool__(self):
        return self.truth


def bind(d, event, s):
    """Bind to any event."""
    d.register_event(event)
    if type(d.__subscribers__) is dict:
        d.__subscribers__[event] = [s]
    assume(dispatches(d, event))


def dispatches(d, event):
    """Whether the event is dispatched."""
    called.clear()
    d.dispatch(event, 7)
    return len(called) == 1


def named(d, s, event):
    """Dispatcher of an arbitrary event."""
    bind(d, event, s)
    return event


def enter(ctx):
    return ctx.__enter__()


def leave(ctx, how=None):
    """Leave normally or by an error; errors are not swallowed."""
    if any_bool() if how is None else how:
        r = ctx.__exit__(None, None, None)
    else:
        e = failure()
        r = ctx.__exit__(type(e), e, None)
    ensure('error passed on', not r)


def some_context(names):
    """Suppression context and the names it suppresses, None for all."""
    kind = upto(2)
    if kind == 0:
        return suppress_events(), None
    if kind == 1:
        n = one_of(*names)
        return suppress_events(n), [n]
    n = one_of(*names)
    m = one_of(*names)
    return suppress_events((n, m) if n == m else [n, m]), [n, m]


def suppressed(event, active):
    """Whether the active contexts suppress an event."""
    for names in active:
        if names is None or event in names:
            return True
    return False


@contract('C18')
def suppress_all():
    d = Dispatcher()
    s = any_obj(Subscriber)
    e = any_str()
    bind(d, e, s)
    ctx = suppress_events()
    ensure('no effect before entering', dispatches(d, e))
    depth = enter(ctx)
    ensure('depth', depth == 1)
    ensure('suppressed', not dispatches(d, e))
    d.attr = 5
    ensure('attribute set', d.attr == 5)
    leave(ctx)
    ensure('dispatched again', dispatches(d, e))
    cover('end')


@contract('C18')
def suppress_given():
    """Exactly the given events, whatever their names are."""
    d = Dispatcher()
    s = any_obj(Subscriber)
    e, f, g = any_str(), any_str(), any_str()
    for x in (e, f, g):
        bind(d, x, s)
    how = upto(3)
    if how == 0:
        ctx, names = suppress_events(e), [e]
    elif how == 1:
        ctx, names = suppress_events([e, f]), [e, f]
    elif how == 2:
        ctx, names = suppress_events((e, f)), [e, f]
    else:
        ctx, names = suppress_events([]), []
    ensure('depth', enter(ctx) == 1)
    for x in (e, f, g):
        ensure('suppressed if given', dispatches(d, x) == (x not in names))
    leave(ctx)
    for x in (e, f, g):
        ensure('dispatched again', dispatches(d, x))
    cover('end')


def enter_list(names, e):
    d = Dispatcher()
    s = any_obj(Subscriber)
    bind(d, e, s)
    ctx = suppress_events(names)
    ensure('depth', enter(ctx) == 1)
    ensure('suppressed if given', dispatches(d, e) == (e not in names))
    return d, ctx


@contract('C18')
def suppress_list():
    """Any number of suppressed events."""
    r = in_thread('one', enter_list, any_list('str'), any_str())
    ensure('entered', is_ok(r))
    cover('end')


@contract('C18')
def leave_list():
    """Leaving restores what was suppressed before, in any outer context."""
    e = any_str()
    d, ctx = enter_list(any_list('str'), e)
    leave(ctx)
    ensure('dispatched again', dispatches(d, e))
    f = any_str()
    with suppress_events(f) as depth:
        ensure('depth as before', depth == 1)
        ensure('nothing left suppressed', dispatches(d, e) == (e != f))
    cover('end')


@contract('C18')
def list_changed_inside():
    """Changes of the given list do not affect the suppression."""
    d = Dispatcher()
    e, f = any_str(), any_str()
    names = [any_str()]
    suppressed = e in names
    bind(d, e, any_obj(Subscriber))
    with suppress_events(names):
        if any_bool():
            names.append(f)
        else:
            names[0] = f
        ensure('given events suppressed', dispatches(d, e) != suppressed)
    ensure('dispatched again', dispatches(d, e))
    with suppress_events(f) as depth:
        ensure('depth as before', depth == 1)
        ensure('nothing left suppressed', dispatches(d, e) == (e != f))
    cover('end')


@contract('C18')
def leave_inner_list():
    d = Dispatcher()
    e, f, g = any_str(), any_str(), any_str()
    names = any_list('str')
    bind(d, e, any_obj(Subscriber))
    with suppress_events(f):
        ctx = suppress_events(names)
        ensure('nested depth', enter(ctx) == 2)
        ensure('suppressed by one of both', dispatches(d, e) == (
            e != f and e not in names))
        leave(ctx)
        ensure('outer context only', dispatches(d, e) == (e != f))
    ensure('dispatched again', dispatches(d, e))
    with suppress_events(g) as depth:
        ensure('depth as before', depth == 1)
        ensure('nothing left suppressed', dispatches(d, e) == (e != g))
    cover('end')


@contract('C18')
def statement():
    """As with statement."""
    d = Dispatcher()
    s = any_obj(Subscriber)
    e, f = any_str(), any_str()
    bind(d, e, s)
    bind(d, f, s)
    with suppress_events() as count:
        ensure('depth', count == 1)
        ensure('suppressed', not dispatches(d, e))
        with suppress_events(f) as count:
            ensure('nested depth', count == 2)
            ensure('still suppressed', not dispatches(d, e) and
                   not dispatches(d, f))
        ensure('outer context active', not dispatches(d, e) and
               not dispatches(d, f))
    ensure('dispatched again', dispatches(d, e) and dispatches(d, f))
    with suppress_events(f) as count:
        ensure('depth again', count == 1)
        ensure('other event dispatched', dispatches(d, e) == (e != f))
        with suppress_events():
            ensure('all suppressed', not dispatches(d, e))
        ensure('only inner context left', dispatches(d, e) == (e != f) and
               not dispatches(d, f))
    ensure('dispatched at last', dispatches(d, e) and dispatches(d, f))
    cover('end')


def failing_inside(d, e, names, error):
    with suppress_events(names):
        ensure('suppressed', not dispatches(d, e))
        raise error


@contract('C18')
def left_by_error():
    d = Dispatcher()
    s = any_obj(Subscriber)
    e = any_str()
    bind(d, e, s)
    names = one_of(e, [e], (e, 'x'))
    error = failure()
    r = outcome(failing_inside, d, e, names, error)
    ensure('error passed on', r[0] == 'exc' and r[1] is error)
    ensure('dispatched again', dispatches(d, e))
    with suppress_events(e):
        r = outcome(failing_inside, d, e, names, error)
        ensure('error passed on from nested context',
               r[0] == 'exc' and r[1] is error)
        ensure('outer context active', not dispatches(d, e))
    ensure('dispatched at last', dispatches(d, e))
    cover('end')


def set_attribute_failing(d):
    with suppress_events():
        d.attr = 3
        raise ValueError()


@contract('C18')
def attributes():
    """Attribute events are suppressed, values are set."""
    d = Dispatcher()
    s = any_obj(Subscriber)
    d.bind(attr=s)
    x, y = any_int(), any_int()
    assume(x != y and x != 0 and y != 3)
    called.clear()
    with suppress_events(one_of('attr', ['attr'], ('a', 'attr'))):
        d.attr = x
    ensure('suppressed', len(called) == 0)
    ensure('set', d.attr == x)
    outcome(set_attribute_failing, d)
    ensure('suppressed again', len(called) == 0)
    d.attr = y
    ensure_seq('dispatched', called, [(s, y)])
    cover('end')


def check(d, names, active):
    for e in names:
        ensure('suppressed by active contexts',
               dispatches(d, e) == (not suppressed(e, active)))


NAMES = ('a', 'b')


@contract('C18')
def nesting():
    """Any nesting of contexts, in any state there may be."""
    d = Dispatcher()
    s = any_obj(Subscriber)
    for e in NAMES:
        bind(d, e, s)
    contexts = []
    active = []
    for i in range(upto(3)):
        ctx, names = some_context(NAMES)
        ensure('creating has no effect',
               dispatches(d, 'a') == (not suppressed('a', active)))
        active = active + [names]
        ensure('depth', enter(ctx) == len(active))
        contexts = contexts + [ctx]
        check(d, NAMES, active)
    how = any_bool()
    while contexts:
        leave(contexts[-1], how)
        how = not how
        contexts = contexts[:-1]
        active = active[:-1]
        check(d, NAMES, active)
    cover('end')


@contract('C18')
def reuse():
    """A context object may be used again, nested in itself as well."""
    d = Dispatcher()
    s = any_obj(Subscriber)
    for e in NAMES:
        bind(d, e, s)
    ctx, names = some_context(NAMES)
    ensure('depth', enter(ctx) == 1)
    check(d, NAMES, [names])
    ensure('nested depth', enter(ctx) == 2)
    check(d, NAMES, [names, names])
    leave(ctx)
    check(d, NAMES, [names])
    leave(ctx)
    check(d, NAMES, [])
    ensure('depth again', enter(ctx) == 1)
    check(d, NAMES, [names])
    leave(ctx)
    check(d, NAMES, [])
    cover('end')


@contract('C18')
def created_elsewhere():
    """Creation without entering has no effect, failing ones included."""
    d = Dispatcher()
    s = any_obj(Subscriber)
    e = any_str()
    bind(d, e, s)
    suppress_events()
    suppress_events(e)
    suppress_events([e, 'x'])
    ensure('no effect', dispatches(d, e))
    with suppress_events('other') as count:
        ensure('depth', count == 1)
        suppress_events(e)
        suppress_events()
        ensure('still no effect', dispatches(d, e) == (e != 'other'))
    cover('end')


# -- arbitrary state: any events suppressed at any depth


def entered():
    """Some contexts entered before, giving an arbitrary state."""
    data = suppress_events.data
    assume(hasattr(data, 'suppress') and hasattr(data, 'events') and
           type(data.events) is list)
    events = any_list('str')
    depth = any_int(1)
    before = (data.suppress, list(data.events))
    assume(before == (0, []))
    data.events = list(events)
    data.suppress = depth
    return events, depth


@contract('C18')
def arbitrary_state():
    ensure('done', is_ok(in_thread('one', in_arbitrary_state)))
    cover('end')


def in_arbitrary_state():
    """Entering and leaving restores whatever state there was."""
    d = Dispatcher()
    s = any_obj(Subscriber)
    e, f = any_str(), any_str()
    bind(d, f, s)
    events, depth = entered()
    other = any_obj(Subscriber)
    how = upto(2)
    if how == 0:
        ctx = suppress_events(e)
    elif how == 1:
        ctx = suppress_events()
    else:
        ctx = suppress_events([e, e])
    ensure('no effect', dispatches(d, f) == (f not in events))
    ensure('depth', enter(ctx) == depth + 1)
    if how == 1:
        ensure('all suppressed', not dispatches(d, f))
    else:
        ensure('suppressed', dispatches(d, f) == (
            f not in events and f != e))
    leave(ctx)
    ensure('as before', dispatches(d, f) == (f not in events))
    ensure('depth as before', suppress_events.data.suppress == depth)


# -- threads


@contract('C18')
def threads():
    """Suppression in one thread does not affect others."""
    d = Dispatcher()
    s = any_obj(Subscriber)
    for e in NAMES:
        bind(d, e, s)
    ctx, names = some_context(NAMES)
    first = any_bool()
    if first:
        ensure('works in new thread', in_thread(
            'two', check, d, NAMES, [])[0] == 'ok')
    ensure('depth', in_thread('one', enter, ctx)[1] == 1)
    check(d, NAMES, [])
    ensure('other thread not affected', is_ok(in_thread(
        'two', check, d, NAMES, [])))
    ensure('new thread not affected', is_ok(in_thread(
        'three', check, d, NAMES, [])))
    ensure('suppressed in its thread', is_ok(in_thread(
        'one', check, d, NAMES, [names])))
    other, others = some_context(NAMES)
    ensure('own depth', enter(other) == 1)
    check(d, NAMES, [others])
    ensure('not affected by main thread', is_ok(in_thread(
        'one', check, d, NAMES, [names])))
    ensure('left', is_ok(in_thread('one', leave, ctx)))
    ensure('dispatched again', is_ok(in_thread(
        'one', check, d, NAMES, [])))
    check(d, NAMES, [others])
    leave(other)
    check(d, NAMES, [])
    cover('end')


def set_attr(d, x):
    d.attr = x


@contract('C18')
def attributes_in_threads():
    d = Dispatcher()
    s = any_obj(Subscriber)
    d.bind(attr=s)
    called.clear()
    x = any_int()
    assume(x != 0 and x != 3)
    with suppress_events():
        ensure('set in other thread', is_ok(in_thread(
            'one', set_attr, d, x)))
        d.attr = 3
    ensure_seq('dispatched in other thread only', called, [(s, x)])
    cover('end')
