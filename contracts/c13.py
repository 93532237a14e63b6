"""Caching and invalidation."""
from common import *        # noqa
from node.behaviors import Cache
from node.behaviors import Invalidate
from node.behaviors import VolatileStorageInvalidate


class Source(object):
    """Underlying lookups, counted."""

    def __init__(self):
        self.store = odict()
        self.asked = []
        self.stored = []
        self.deleted = []

    def __getitem__(self, key):
        self.asked.append(key)
        return self.store[key]

    def __setitem__(self, key, val):
        self.stored.append(key)
        self.store[key] = val

    def __delitem__(self, key):
        self.deleted.append(key)
        del self.store[key]

    def __iter__(self):
        return iter(self.store)


@plumbing(Cache, Invalidate, FullMapping)
class Caching(Source):

    def __getitem__(self, key):
        return Source.__getitem__(self, key)

    def __setitem__(self, key, val):
        Source.__setitem__(self, key, val)

    def __delitem__(self, key):
        Source.__delitem__(self, key)

    def __iter__(self):
        return Source.__iter__(self)


@plumbing(Invalidate, FullMapping)
class Invalidating(Source):

    def __getitem__(self, key):
        return Source.__getitem__(self, key)

    def __setitem__(self, key, val):
        Source.__setitem__(self, key, val)

    def __delitem__(self, key):
        Source.__delitem__(self, key)

    def __iter__(self):
        return Source.__iter__(self)


@plumbing(VolatileStorageInvalidate, Nodify, OdictStorage)
class VolatileNode(object):
    pass


@plumbing(Cache, VolatileStorageInvalidate, Nodify, DictStorage)
class CachedVolatileNode(object):
    pass


@plumbing(VolatileStorageInvalidate, FullMapping)
class PartlyStored(object):
    """Knows more keys than stored."""

    def __init__(self):
        self.names = odict()
        self.storage = dict()

    def __getitem__(self, key):
        return self.storage[key]

    def __setitem__(self, key, val):
        self.storage[key] = val

    def __delitem__(self, key):
        del self.storage[key]

    def __iter__(self):
        return iter(self.names)


def caching():
    n = Caching()
    any_map(n.store, 'key', 'any')
    any_map(n.cache, 'key', 'any')
    return n, content(n.store), content(n.cache)


@contract('C13')
def lookup():
    n, s, c = caching()
    k = any_key()
    r = outcome(getitem, n, k)
    if m_has(c, k):
        ensure('cached value', is_ok(r) and same(r[1], m_get(c, k)))
        ensure('not asked', len(n.asked) == 0)
        ensure_map('cache unchanged', content(n.cache), c)
        cover('cached')
    elif m_has(s, k):
        ensure('value', is_ok(r) and same(r[1], m_get(s, k)))
        ensure('asked once', len(n.asked) == 1 and same(n.asked[0], k))
        ensure_map('cached', content(n.cache), m_put(c, k, m_get(s, k)))
        again = n[k]
        ensure('same value again', same(again, m_get(s, k)))
        ensure('not asked again', len(n.asked) == 1)
        cover('asked')
    else:
        ensure('KeyError', raised(r, KeyError))
        ensure('asked once', len(n.asked) == 1)
        ensure_map('not cached', content(n.cache), c)
        v = any_value()
        n.store[k] = v
        ensure('asked again', same(n[k], v))
        cover('absent')
    ensure('nothing stored or deleted', n.stored == [] and n.deleted == [])


@contract('C13')
def lookup_changed_source():
    """Cached until invalidated, whatever happens to the source."""
    n, s, c = caching()
    k = any_key()
    r = outcome(getitem, n, k)
    assume(is_ok(r))
    asked = len(n.asked)
    any_map(n.store, 'key', 'any')
    ensure('same value', same(n[k], r[1]))
    ensure('not asked again', len(n.asked) == asked)
    k2 = any_key()
    if k2 != k and k2 is not None:
        # other keys do not matter
        v = any_value()
        n[k2] = v
        ensure('other value', same(n[k2], v))
        ensure('same value', same(n[k], r[1]))
        del n[k2]
        ensure('same value', same(n[k], r[1]))
        n.store[k2] = v
        n.invalidate(k2)
        ensure('same value', same(n[k], r[1]))
        cover('other key')


@contract('C13')
def store():
    n, s, c = caching()
    k, v = any_key(), any_value()
    n[k] = v
    ensure_map('only this key left the cache', content(n.cache), m_del(c, k))
    ensure_map('stored', content(n.store), m_put(s, k, v))
    ensure('stored once', len(n.stored) == 1 and same(n.stored[0], k))
    ensure('lookup', same(n[k], v))
    ensure('asked', len(n.asked) == 1)
    cover('end')


@contract('C13')
def delete():
    n, s, c = caching()
    k = any_key()
    r = outcome(delitem, n, k)
    ensure_map('only this key left the cache', content(n.cache), m_del(c, k))
    ensure('deleted once', len(n.deleted) == 1 and same(n.deleted[0], k))
    if m_has(s, k):
        ensure('deleted', is_ok(r))
        ensure_map('source', content(n.store), m_del(s, k))
        cover('deleted')
    else:
        ensure('KeyError', raised(r, KeyError))
        ensure_map('source unchanged', content(n.store), s)
        cover('absent')
    ensure('gone', raised(outcome(getitem, n, k), KeyError))


@contract('C13')
def iteration_is_not_cached():
    n, s, c = caching()
    ensure_seq('keys', n.keys(), m_keys(s))
    ensure('len', len(n) == m_len(s))
    ensure_map('cache unchanged', content(n.cache), c)
    cover('end')


@contract('C13')
def invalidate_key():
    n, s, c = caching()
    k = any_key()
    assume(k is not None)
    r = outcome(n.invalidate, k) if any_bool() else \
        outcome(invalidate_named, n, k)
    ensure_map('only this key left the cache', content(n.cache), m_del(c, k))
    if m_has(s, k):
        ensure('invalidated', is_ok(r))
        ensure_map('child deleted', content(n.store), m_del(s, k))
        cover('present')
    else:
        ensure('KeyError', raised(r, KeyError))
        ensure_map('source unchanged', content(n.store), s)
        cover('absent')


def invalidate_named(n, k):
    n.invalidate(key=k)


@contract('C13')
def invalidate_all():
    n, s, c = caching()
    n.invalidate()
    ensure_map('cache is empty', content(n.cache), m_empty())
    ensure_map('children deleted', content(n.store), m_empty())
    k = any_key()
    ensure('gone', raised(outcome(getitem, n, k), KeyError))
    cover('end')


@contract('C13')
def invalidate_without_cache():
    n = Invalidating()
    any_map(n.store, 'key', 'any')
    s = content(n.store)
    k = any_value('int', 'str')
    if any_bool():
        n.invalidate()
        ensure_map('children deleted', content(n.store), m_empty())
        cover('all')
    else:
        r = outcome(n.invalidate, k)
        if m_has(s, k):
            ensure('invalidated', is_ok(r))
            ensure_map('child deleted', content(n.store), m_del(s, k))
            cover('present')
        else:
            ensure('KeyError', raised(r, KeyError))
            ensure_map('source unchanged', content(n.store), s)
            cover('absent')


@contract('C13')
def volatile_invalidate():
    n = VolatileNode()
    any_map(n.storage, 'key', 'any')
    s = content(n.storage)
    if any_bool():
        n.invalidate()
        ensure_map('storage is empty', content(n.storage), m_empty())
        cover('all')
    else:
        k = any_value('int', 'str')
        r = outcome(n.invalidate, k)
        if m_has(s, k):
            ensure('invalidated', is_ok(r))
            ensure_map('dropped', content(n.storage), m_del(s, k))
            cover('present')
        else:
            ensure('KeyError', raised(r, KeyError))
            ensure_map('storage unchanged', content(n.storage), s)
            cover('absent')


@contract('C13')
def volatile_invalidate_partly_stored():
    n = PartlyStored()
    any_map(n.names, 'str', 'none')
    any_map(n.storage, 'str', 'any')
    names, s = content(n.names), content(n.storage)
    k = any_str()
    r = outcome(n.invalidate, k)
    if m_has(names, k):
        ensure('invalidated', is_ok(r))
        ensure_map('dropped if stored', content(n.storage), m_del(s, k))
        cover('known')
    else:
        ensure('KeyError', raised(r, KeyError) and r[1].args[0] == k)
        ensure_map('storage unchanged', content(n.storage), s)
        cover('unknown')
    ensure_map('keys unchanged', content(n.names), names)
    n.invalidate()
    ensure_map('storage is empty', content(n.storage), m_empty())
    ensure_map('keys still unchanged', content(n.names), names)


@contract('C13')
def cached_volatile():
    """Cache of a node which drops stored values."""
    n = CachedVolatileNode()
    any_map(n.storage, 'key', 'any')
    any_map(n.cache, 'key', 'any')
    s, c = content(n.storage), content(n.cache)
    if any_bool():
        n.invalidate()
        ensure_map('cache is empty', content(n.cache), m_empty())
        ensure_map('storage is empty', content(n.storage), m_empty())
        cover('all')
    else:
        k = any_value('int', 'str')
        r = outcome(n.invalidate, k)
        ensure_map('only this key left the cache', content(n.cache),
                   m_del(c, k))
        ensure_map('dropped', content(n.storage), m_del(s, k))
        ensure('KeyError for unknown keys', is_ok(r) == m_has(s, k) and
               (is_ok(r) or raised(r, KeyError)))
        ensure('lookup asks again',
               raised(outcome(getitem, n, k), KeyError))
        cover('key')


@contract('C13')
def caches_are_not_shared():
    cls = one_of(Caching, CachedVolatileNode)
    a, b = cls(), cls()
    any_map(a.cache, 'key', 'any')
    any_map(b.cache, 'key', 'any')
    c = content(b.cache)
    ensure('own cache', a.cache is not b.cache and a.cache is a.cache)
    k, v = any_key(), any_value()
    a[k] = v
    ensure('lookup', same(a[k], v))
    a.invalidate()
    ensure_map('other cache', content(b.cache), c)
    cover('end')
