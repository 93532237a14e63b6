"""Interpreted parts of the models of library functions."""


def each(fn, values):
    return [fn(v) for v in values]


def each_value(fn, values):
    return {k: fn(v) for k, v in values.items()}


def put_pairs(m, pairs):
    for k, v in pairs:
        m[k] = v


def join_parts(sep, parts):
    res = ''
    for p in parts:
        if not isinstance(p, str):
            raise TypeError('sequence item: expected str instance')
        res = res + p + sep
    return res


def chain(*iterables):
    for it in iterables:
        for x in it:
            yield x


def chain_all(iterables):
    for it in iterables:
        for x in it:
            yield x


def fromkeys(m, keys, value):
    for k in keys:
        m[k] = value
    return m


def sum_all(values, start):
    for v in values:
        start = start + v
    return start


def reduce_all(fn, values, start):
    for v in values:
        start = fn(start, v)
    return start


def least(a, b):
    return b if b < a else a


def most(a, b):
    return b if b > a else a


def partition(s, sep):
    i = s.find(sep)
    if i < 0:
        return (s, '', '')
    return (s[:i], sep, s[i + len(sep):])


class suppress(object):

    def __init__(self, *excs):
        self.excs = excs

    def __enter__(self):
        return None

    def __exit__(self, et, ev, tb):
        return et is not None and issubclass(et, self.excs)


class nullcontext(object):

    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, et, ev, tb):
        return None


def without(values, others):
    return [v for v in values if v not in others]


def rpartition(s, sep):
    i = s.rfind(sep)
    if i < 0:
        return ('', '', s)
    return (s[:i], sep, s[i + len(sep):])


def split_once(s, sep):
    i = s.find(sep)
    if i < 0:
        return [s]
    return [s[:i], s[i + len(sep):]]


class ExitStack(object):

    def __init__(self):
        self._exits = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        res = cm.__enter__()
        self._exits.append(cm.__exit__)
        return res

    def callback(self, fn, *args, **kw):
        def leave(et, ev, tb):
            fn(*args, **kw)
        self._exits.append(leave)
        return fn

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, et, ev, tb):
        given, failed, swallowed = et is not None, None, False
        while self._exits:
            leave = self._exits.pop()
            try:
                if leave(et, ev, tb):
                    swallowed, failed = True, None
                    et = ev = tb = None
            except BaseException as e:
                failed = e
                et, ev = type(e), e
        if failed is not None:
            raise failed
        return given and swallowed
