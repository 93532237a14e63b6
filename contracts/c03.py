from common import *        # noqa


@plumbing(FullMapping)
class Logged(object):
    """Mapping recording write operations."""

    def __init__(self):
        self.storage = odict()
        self.log = []

    def __getitem__(self, key):
        return self.storage[key]

    def __setitem__(self, key, val):
        self.log.append(('set', key, val))
        self.storage[key] = val

    def __delitem__(self, key):
        self.log.append(('del', key))
        del self.storage[key]

    def __iter__(self):
        for key in self.storage:
            yield key


def filled(cls, keys='key', vals='any'):
    n = cls()
    any_map(n.storage, keys, vals)
    return n


def _pop(cls, keys, vals):
    n = filled(cls, keys, vals)
    s = content(n.storage)
    k = any_value(keys)
    d = any_value()
    kind = upto(2)
    if kind == 0:
        r = outcome(n.pop, k)
    elif kind == 1:
        r = outcome(n.pop, k, d)
    else:
        r = outcome(n.pop, k, default=d)
    if m_has(s, k):
        ensure('pop gives the value', is_ok(r) and same(r[1], m_get(s, k)))
        ensure_map('pop removes the key', content(n.storage), m_del(s, k))
        cover('present')
    else:
        if kind:
            ensure('pop gives the default', is_ok(r) and same(r[1], d))
            cover('default')
        else:
            ensure('pop of absent key raises KeyError', raised(r, KeyError))
            cover('absent')
        ensure_map('nothing changed', content(n.storage), s)


def _popitem(cls, keys, vals):
    n = filled(cls, keys, vals)
    s = content(n.storage)
    r = outcome(n.popitem)
    if m_len(s) == 0:
        ensure('popitem of empty node raises KeyError', raised(r, KeyError))
        ensure_map('nothing changed', content(n.storage), s)
        cover('empty')
    else:
        k = m_key_at(s, m_len(s) - 1)
        ensure('popitem succeeds', is_ok(r))
        ensure('popitem gives the last key', same(r[1][0], k))
        ensure('popitem gives its value', same(r[1][1], m_get(s, k)))
        ensure('popitem gives a pair', len(r[1]) == 2)
        ensure_map('popitem removes it', content(n.storage), m_del(s, k))
        cover('removed')


def _setdefault(cls, keys, vals):
    n = filled(cls, keys, vals)
    s = content(n.storage)
    k = any_value(keys)
    d = any_value(vals)
    r = n.setdefault(k, d)
    if m_has(s, k):
        ensure('setdefault gives the present value', same(r, m_get(s, k)))
        ensure_map('nothing changed', content(n.storage), s)
        cover('present')
    else:
        ensure('setdefault gives the default', same(r, d))
        ensure('what the key refers to', same(n[k], d))
        ensure_map('setdefault stores', content(n.storage), m_put(s, k, d))
        cover('absent')


def _clear(cls, keys, vals):
    n = filled(cls, keys, vals)
    n.clear()
    ensure_map('clear removes every key', content(n.storage), m_empty())
    ensure('length', len(n) == 0)
    cover('end')


def _update(cls, keys, vals):
    n = filled(cls, keys, vals)
    s = content(n.storage)
    kind = upto(3)
    pairs = any_pairs(keys, vals)
    if kind == 0:
        n.update(pairs)
        cover('pairs')
    elif kind == 1:
        d = one_of(dict, odict, DNode)()
        if isinstance(d, DNode):
            any_map(d.storage, keys, vals)
            pairs = m_items(content(d.storage))
        else:
            any_map(d, keys, vals)
            pairs = m_items(content(d))
        n.update(d)
        cover('mapping')
    elif kind == 2:
        v, w = any_value(vals), any_value(vals)
        n.update(pairs, foo=v, bar=w)
        s = m_update(s, pairs)
        pairs = [('foo', v), ('bar', w)]
        cover('keywords')
    else:
        v = any_value(vals)
        n.update(foo=v)
        pairs = [('foo', v)]
        cover('keywords only')
    ensure_map('update stores in order', content(n.storage),
               m_update(s, pairs))


def _update_args(cls):
    n = filled(cls, 'str', 'any')
    s = content(n.storage)
    a, b = any_pairs('str', 'any'), any_pairs('str', 'any')
    kind = upto(1)
    if kind:
        r = outcome(n.update, a, b)
    else:
        r = outcome(n.update, a, b, x=any_value())
    ensure('more than one positional argument', raised(r, TypeError))
    ensure_map('nothing changed', content(n.storage), s)
    n.update()
    ensure_map('update without data', content(n.storage), s)
    cover('end')


@contract('C03')
def mapping_pop():
    _pop(Mapped, 'key', 'any')


@contract('C03')
def mapping_popitem():
    _popitem(Mapped, 'key', 'any')


@contract('C03')
def mapping_setdefault():
    _setdefault(Mapped, 'key', 'any')


@contract('C03')
def mapping_clear():
    _clear(Mapped, 'key', 'any')


@contract('C03')
def mapping_update():
    _update(Mapped, 'key', 'any')


@contract('C03')
def mapping_update_arguments():
    _update_args(Mapped)


@contract('C03')
def storage_pop():
    _pop(one_of(DNode, ONode), 'key', 'any')


@contract('C03')
def storage_popitem():
    _popitem(one_of(DNode, ONode), 'key', 'any')


@contract('C03')
def storage_setdefault():
    _setdefault(one_of(DNode, ONode), 'key', 'any')


@contract('C03')
def storage_clear():
    _clear(one_of(DNode, ONode), 'key', 'any')


@contract('C03')
def storage_update():
    _update(one_of(DNode, ONode), 'key', 'any')


@contract('C03')
def base_node_pop():
    _pop(one_of(BaseNode, OrderedNode), 'key', ANode)


@contract('C03')
def base_node_popitem():
    _popitem(one_of(BaseNode, OrderedNode), 'key', ANode)


@contract('C03')
def base_node_setdefault():
    _setdefault(one_of(BaseNode, OrderedNode), 'key', ANode)


@contract('C03')
def base_node_clear():
    _clear(one_of(BaseNode, OrderedNode), 'key', ANode)


class FreeNode(Node):
    allow_non_node_childs = True


class FreeAttributedNode(AttributedNode):
    allow_non_node_childs = True


@contract('C03')
def full_node_pop():
    _pop(one_of(FreeNode, FreeAttributedNode), 'regular', 'any')


@contract('C03')
def full_node_popitem():
    _popitem(one_of(FreeNode, FreeAttributedNode), 'regular', 'any')


@contract('C03')
def full_node_setdefault():
    _setdefault(one_of(FreeNode, FreeAttributedNode), 'regular', 'any')


@contract('C03')
def full_node_clear():
    _clear(one_of(FreeNode, FreeAttributedNode), 'regular', 'any')


@contract('C03', mode='bounded', bound=1)
def full_node_update():
    _update(one_of(FreeNode, FreeAttributedNode), 'regular', 'any')


@contract('C03')
def operations_use_item_operations():
    """Item operations done by the extended ones, and their arguments."""
    n = Logged()
    any_map(n.storage, 'key', 'any')
    s = content(n.storage)
    k, v = any_key(), any_value()
    op = upto(3)
    if op == 0:
        outcome(n.pop, k)
        if m_has(s, k):
            ensure('pop deletes once', n.log == [('del', k)])
        else:
            ensure('pop of absent key writes nothing', n.log == [])
        cover('pop')
    elif op == 1:
        n.setdefault(k, v)
        if m_has(s, k):
            ensure('setdefault of present key writes nothing', n.log == [])
        else:
            ensure('setdefault sets once', len(n.log) == 1 and
                   same(n.log[0], ('set', k, v)))
        cover('setdefault')
    elif op == 2:
        w = any_value()
        k2 = any_key()
        n.update([(k, v), (k2, w)], foo=w)
        ensure('update sets in order', len(n.log) == 3 and
               same(n.log[0], ('set', k, v)) and
               same(n.log[1], ('set', k2, w)) and
               same(n.log[2], ('set', 'foo', w)))
        cover('update')
    else:
        outcome(n.popitem)
        ensure('popitem deletes once', len(n.log) == (1 if m_len(s) else 0))
        cover('popitem')
