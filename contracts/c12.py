"""Aliasing."""
from common import *        # noqa
from node.behaviors import Alias
from node.behaviors.alias import AliaserChain
from node.behaviors.alias import DictAliaser
from node.behaviors.alias import PrefixAliaser
from node.behaviors.alias import PrefixSuffixAliaser
from node.behaviors.alias import SuffixAliaser
from node.interfaces import IAliaser
from zope.interface.common.mapping import IEnumerableMapping


@implementer(IAliaser)
class SomeAliaser(object):
    """Arbitrary invertible aliaser: contract of IAliaser."""
    __fields__ = {'truth': 'bool'}

    def __bool__(self):
        return self.truth

    def alias(self, key):
        if not pure('known_key', 'bool', self, key):
            raise KeyError(key)
        a = pure('alias', 'str', self, key)
        # invertible
        assume(pure('known_alias', 'bool', self, a))
        assume(pure('unalias', 'str', self, a) == key)
        return a

    def unalias(self, key):
        if not pure('known_alias', 'bool', self, key):
            raise KeyError(key)
        return pure('unalias', 'str', self, key)


@implementer(IEnumerableMapping)
class SomeWhitelist(SomeAliaser):
    """Arbitrary enumerable aliaser."""


@plumbing(Alias, Nodify, OdictStorage)
class AliasedNode(object):
    pass


@plumbing(Alias, Nodify, DictStorage)
class AliasedDictNode(object):
    pass


def text(*opts):
    return any_value('none', 'str')


# -- aliasers


@contract('C12')
def prefix():
    p = text()
    a = PrefixAliaser(p)
    k = any_str()
    ensure('alias', a.alias(k) == (p or '') + k)
    ensure('inverse', a.unalias(a.alias(k)) == k)
    r = outcome(a.unalias, k)
    if k.startswith(p or ''):
        ensure('unaliased', is_ok(r) and a.alias(r[1]) == k)
        cover('prefixed')
    else:
        ensure('KeyError', raised(r, KeyError))
        cover('not prefixed')
    ensure('prefix unchanged', same(a.prefix, p))


@contract('C12')
def suffix():
    p = text()
    a = SuffixAliaser(p)
    k = any_str()
    ensure('alias', a.alias(k) == k + (p or ''))
    ensure('inverse', a.unalias(a.alias(k)) == k)
    r = outcome(a.unalias, k)
    if k.endswith(p or ''):
        ensure('unaliased', is_ok(r) and a.alias(r[1]) == k)
        cover('suffixed')
    else:
        ensure('KeyError', raised(r, KeyError))
        cover('not suffixed')


@contract('C12')
def prefix_and_suffix():
    p, s = text(), text()
    a = PrefixSuffixAliaser(p, s)
    k = any_str()
    ensure('alias', a.alias(k) == (p or '') + k + (s or ''))
    ensure('inverse', a.unalias(a.alias(k)) == k)
    r = outcome(a.unalias, k)
    if is_ok(r):
        ensure('unaliased', a.alias(r[1]) == k)
        cover('unaliased')
    else:
        ensure('KeyError', raised(r, KeyError))
        cover('refused')
    if not k.endswith(s or '') or not k.startswith(p or ''):
        ensure('KeyError for other keys', raised(r, KeyError))


@contract('C12')
def default_aliasers():
    cls = one_of(PrefixAliaser, SuffixAliaser, PrefixSuffixAliaser)
    a = cls()
    k = any_str()
    ensure('alias', a.alias(k) == k)
    ensure('unalias', a.unalias(k) == k)
    cover('end')


@contract('C12')
def dict_aliaser():
    strict = any_bool()
    a = DictAliaser(strict=strict)
    any_map(a, 'str', 'str')
    m = content(a)
    k = any_str()
    r = outcome(a.unalias, k)
    if m_has(m, k):
        ensure('unaliased', is_ok(r) and r[1] == m_get(m, k))
        back = a.alias(r[1])
        ensure('alias of the same key', m_has(m, back) and
               m_get(m, back) == r[1])
        # unambiguous mappings
        if back != k:
            assume(m_get(m, back) != m_get(m, k))
        ensure('inverse', back == k)
        cover('known alias')
    elif strict:
        ensure('KeyError', raised(r, KeyError) and r[1].args[0] == k)
        cover('unknown alias')
    else:
        ensure('passed through', is_ok(r) and r[1] == k)
        cover('passed through')
    ensure_map('aliases unchanged', content(a), m)


@contract('C12')
def dict_aliaser_alias():
    strict = any_bool()
    a = DictAliaser(strict=strict)
    any_map(a, 'str', 'str')
    m = content(a)
    k = any_str()
    known = k in m_values(m)
    r = outcome(a.alias, k)
    if known:
        ensure('alias known', is_ok(r) and m_has(m, r[1]) and
               m_get(m, r[1]) == k)
        ensure('inverse', a.unalias(r[1]) == k)
        cover('known key')
    elif strict:
        ensure('KeyError', raised(r, KeyError))
        cover('unknown key')
    else:
        ensure('passed through', is_ok(r) and r[1] == k)
        cover('passed through')
    ensure_map('aliases unchanged', content(a), m)


@contract('C12')
def dict_aliaser_creation():
    k, v = any_str(), any_str()
    a = DictAliaser([(k, v)])
    ensure('strict by default', a.strict is True)
    ensure('unalias', a.unalias(k) == v and a.alias(v) == k)
    b = DictAliaser([(k, v)], strict=False)
    ensure('not strict', b.strict is False and b.unalias(k) == v)
    ensure('own aliases', len(DictAliaser()) == 0)
    cover('end')


def alias_one_by_one(links, key):
    for x in links:
        key = x.alias(key)
    return key


def unalias_one_by_one(links, key):
    for x in links:
        key = x.unalias(key)
    return key


@contract('C12')
def chains():
    links = any_list(SomeAliaser)
    a = AliaserChain(links)
    k = any_str()
    r = outcome(a.alias, k)
    if is_ok(r):
        ensure('inverse', a.unalias(r[1]) == k)
        cover('aliased')
    else:
        ensure('KeyError', raised(r, KeyError))
        cover('unknown')


@contract('C12')
def chains_alias():
    links = any_list(SomeAliaser)
    a = AliaserChain(links)
    k = any_str()
    r = outcome(a.alias, k)
    s = outcome(alias_one_by_one, links, k)
    ensure('same result', is_ok(r) == is_ok(s))
    if is_ok(r):
        ensure('aliased by each link in order', r[1] == s[1])
        cover('aliased')
    else:
        ensure('KeyError', raised(r, KeyError))
        cover('unknown')


@contract('C12')
def chains_unalias():
    links = any_list(SomeAliaser)
    a = AliaserChain(links)
    k = any_str()
    r = outcome(a.unalias, k)
    s = outcome(unalias_one_by_one, list(reversed(links)), k)
    ensure('same result', is_ok(r) == is_ok(s))
    if is_ok(r):
        ensure('unaliased by each link in reverse order', r[1] == s[1])
        cover('unaliased')
    else:
        ensure('KeyError', raised(r, KeyError))
        cover('unknown')


# -- nodes


def aliased(*aliasers):
    n = one_of(AliasedNode, AliasedDictNode)()
    cls = one_of(*aliasers)
    n.aliaser = any_obj(cls)
    any_map(n.storage, 'str', 'any')
    return n, content(n.storage)


@contract('C12')
def node_get():
    n, m = aliased(SomeAliaser, SomeWhitelist)
    k = any_str()
    r = outcome(getitem, n, k)
    u = outcome(n.aliaser.unalias, k)
    if is_ok(u) and m_has(m, u[1]):
        ensure('child', is_ok(r) and same(r[1], m_get(m, u[1])))
        ensure('contained', k in n)
        ensure('get', same(n.get(k), m_get(m, u[1])))
        cover('found')
    else:
        ensure('KeyError', raised(r, KeyError))
        ensure('key as given', r[1].args[0] == k)
        ensure('not contained', k not in n)
        cover('absent')
    ensure_map('children unchanged', content(n.storage), m)


@contract('C12')
def node_set():
    n, m = aliased(SomeAliaser, SomeWhitelist)
    k, v = any_str(), any_value()
    r = outcome(setitem, n, k, v)
    u = outcome(n.aliaser.unalias, k)
    if is_ok(u):
        ensure('stored', is_ok(r))
        ensure_map('children', content(n.storage), m_put(m, u[1], v))
        ensure('lookup', same(n[k], v))
        cover('stored')
    else:
        ensure('KeyError', raised(r, KeyError))
        ensure('key as given', r[1].args[0] == k)
        ensure_map('children unchanged', content(n.storage), m)
        cover('refused')


@contract('C12')
def node_del():
    n, m = aliased(SomeAliaser, SomeWhitelist)
    k = any_str()
    r = outcome(delitem, n, k)
    u = outcome(n.aliaser.unalias, k)
    if is_ok(u) and m_has(m, u[1]):
        ensure('deleted', is_ok(r))
        ensure_map('children', content(n.storage), m_del(m, u[1]))
        cover('deleted')
    else:
        ensure('KeyError', raised(r, KeyError))
        ensure('key as given', r[1].args[0] == k)
        ensure_map('children unchanged', content(n.storage), m)
        cover('refused')


@contract('C12')
def node_iteration():
    n, m = aliased(SomeAliaser)
    r = outcome(n.keys)
    if is_ok(r):
        ensure_seq('aliases in order', r[1],
                   [pure('alias', 'str', n.aliaser, k) for k in m_keys(m)])
        ensure_all('all known', m_keys(m),
                   lambda k: pure('known_key', 'bool', n.aliaser, k))
        cover('all known')
    else:
        ensure('KeyError', raised(r, KeyError))
        ensure('of an unknown child', m_has(m, r[1].args[0]) and
               not pure('known_key', 'bool', n.aliaser, r[1].args[0]))
        cover('unknown')
    ensure_map('children unchanged', content(n.storage), m)


@contract('C12')
def node_iteration_whitelist():
    n, m = aliased(SomeWhitelist)
    keys = n.keys()
    expect = [pure('alias', 'str', n.aliaser, k) for k in m_keys(m)
              if pure('known_key', 'bool', n.aliaser, k)]
    ensure_seq('aliases of listed keys in order', keys, expect)
    ensure('len', len(n) == len(expect))
    ensure_map('children unchanged', content(n.storage), m)
    cover('end')


@contract('C12', limit='aliasers of up to 2 keys')
def node_iteration_dict_aliaser():
    """Children unknown to a dict aliaser are left out."""
    n = one_of(AliasedNode, AliasedDictNode)()
    pairs = [(any_str(), any_str()) for i in range(upto(2))]
    n.aliaser = DictAliaser(pairs, strict=True)
    any_map(n.storage, 'str', 'any')
    m = content(n.storage)
    real = [n.aliaser[k] for k in n.aliaser]
    expect = [k for k in m_keys(m) if k in real]
    ensure('only listed keys', len(n.keys()) == len(expect))
    for k in n.keys():
        ensure('alias', k in n.aliaser and m_has(m, n.aliaser[k]))
        ensure('lookup', same(n[k], m_get(m, n.aliaser[k])))
    cover('end')


@contract('C12')
def node_with_prefix():
    n = one_of(AliasedNode, AliasedDictNode)()
    p = text()
    suffixed = any_bool()
    n.aliaser = SuffixAliaser(p) if suffixed else PrefixAliaser(p)
    any_map(n.storage, 'str', 'any')
    m = content(n.storage)
    k = any_str()
    a = k + (p or '') if suffixed else (p or '') + k
    r = outcome(getitem, n, a)
    ensure('lookup', is_ok(r) == m_has(m, k))
    if is_ok(r):
        ensure('child', same(r[1], m_get(m, k)))
    ensure_seq('keys', n.keys(), [
        x + (p or '') if suffixed else (p or '') + x for x in m_keys(m)])
    v = any_value()
    n[a] = v
    ensure_map('stored', content(n.storage), m_put(m, k, v))
    cover('end')


@contract('C12')
def node_without_aliaser():
    n = one_of(AliasedNode, AliasedDictNode)()
    any_map(n.storage, 'key', 'any')
    m = content(n.storage)
    ensure_seq('keys', n.keys(), m_keys(m))
    k, v = any_key(), any_value()
    r = outcome(getitem, n, k)
    if m_has(m, k):
        ensure('child', is_ok(r) and same(r[1], m_get(m, k)))
    else:
        ensure('KeyError', raised(r, KeyError) and same(r[1].args[0], k))
    n[k] = v
    ensure_map('stored', content(n.storage), m_put(m, k, v))
    del n[k]
    ensure_map('deleted', content(n.storage), m_del(m, k))
    cover('end')
