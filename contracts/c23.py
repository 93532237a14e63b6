"""Text codec and unicode aware nodes."""
from common import *        # noqa
from node.behaviors import UnicodeAware
from node.utils import decode
from node.utils import encode
from node.utils import StrCodec
import node.utils


class Other(object):
    """Value which is no text."""


@plumbing(Nodify, OdictStorage)
class Branch(object):
    """Node in a structure to encode."""


def codec():
    """Codec, its encoding and whether it is soft."""
    kind = upto(4)
    if kind == 0:
        return node.utils.strcodec, 'utf-8', True
    if kind == 1:
        return StrCodec(), 'utf-8', True
    if kind == 2:
        return StrCodec(soft=False), 'utf-8', False
    if kind == 3:
        return StrCodec('latin-1', True), 'latin-1', True
    return StrCodec(encoding='utf-16', soft=any_bool()), 'utf-16', None


def text(enc):
    """Text which has an encoding."""
    s = any_str()
    assume(is_ok(outcome(s.encode, enc)))
    return s


def leaf(enc, kind):
    if kind == 0:
        return text(enc)
    if kind == 1:
        return any_value('none', 'bool', 'int')
    if kind == 2:
        return text(enc).encode(enc)
    return Other()


def structure(enc, depth, width, leafs, keys):
    """Nested lists, tuples, dictionaries and nodes."""
    kind = upto(4 if depth else 0)
    if kind == 0:
        return leaf(enc, one_of(*leafs))
    if kind < 3:
        r = [structure(enc, depth - 1, width, leafs, keys)
             for i in range(upto(width))]
        return r if kind == 1 else tuple(r)
    out = {} if kind == 3 else Branch()
    for i in range(upto(width)):
        key = leaf(enc, one_of(*keys))
        assume(key not in out)
        out[key] = structure(enc, depth - 1, width, leafs, keys)
    return out


def expected(v, enc, texts):
    """v with texts as bytes (or bytes as texts), nodes as dictionaries."""
    if isinstance(v, (str, bytes)):
        if isinstance(v, str) == texts:
            return v
        return v.decode(enc) if texts else v.encode(enc)
    if isinstance(v, list):
        return [expected(x, enc, texts) for x in v]
    if isinstance(v, tuple):
        return tuple([expected(x, enc, texts) for x in v])
    if isinstance(v, dict) or INode.providedBy(v):
        return {expected(key, enc, texts): expected(val, enc, texts)
                for key, val in v.items()}
    return v


def equal(a, b):
    """Same types and values, other objects are identical."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(
            [equal(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        return len(a) == len(b) and all(
            [key in b and equal(val, b[key]) for key, val in a.items()])
    if isinstance(a, Other):
        return a is b
    return a == b


@contract('C23')
def texts():
    c, enc, soft = codec()
    s = text(enc)
    b = c.encode(s)
    ensure('bytes', isinstance(b, bytes) and b == s.encode(enc))
    t = c.decode(b)
    ensure('text', isinstance(t, str) and t == s)
    ensure('text is decoded already', c.decode(s) == s)
    cover('end')


@contract('C23')
def encoded_texts():
    """Valid bytes stay bytes when encoding."""
    c, enc, soft = codec()
    assume(enc != 'utf-16')
    b = any_bytes(enc, True)
    t = c.decode(b)
    ensure('text', isinstance(t, str) and t.encode(enc) == b)
    e = c.encode(b)
    ensure('same bytes', isinstance(e, bytes) and e == b)
    cover('end')


@contract('C23')
def undecodable():
    """Left as they are or an error."""
    c = one_of(node.utils.strcodec, StrCodec(), StrCodec(soft=True))
    b = any_bytes('utf-8', False)
    h = StrCodec(soft=False)
    ensure('left', same(c.decode(b), b) and same(c.encode(b), b))
    x = any_value('none', 'int', 'str')
    ensure('left in list', same(c.decode([x, b])[1], b))
    ensure('left in dict', same(c.decode({'x': b})['x'], b))
    ensure('error', raised(outcome(h.decode, b), UnicodeDecodeError))
    ensure('error encoding', raised(outcome(h.encode, b),
                                    UnicodeDecodeError))
    ensure('error in list', raised(outcome(h.decode, [x, b]),
                                   UnicodeDecodeError))
    ensure('error in tuple', raised(outcome(h.decode, (b, x)),
                                    UnicodeDecodeError))
    ensure('error in dict', raised(outcome(h.decode, {'x': b}),
                                   UnicodeDecodeError))
    cover('end')


@contract('C23')
def other_values():
    c, enc, soft = codec()
    v = any_value('none', 'bool', 'int') if any_bool() else \
        one_of(Other(), Other, 1.5, codec)
    ensure('encoded', same(c.encode(v), v))
    ensure('decoded', same(c.decode(v), v))
    cover('end')


@contract('C23')
def any_list_of_texts():
    """Lists of any length."""
    v = any_list(('str', 'none', 'int'))
    before = list(v)
    e = encode(v)
    ensure('new list', e is not v)
    ensure_seq('unchanged', v, before)
    ensure('length', len(e) == len(v))
    d = decode(e)
    ensure_seq('inverse', d, before)
    ensure('new list decoded', d is not e)
    cover('end')


@contract('C23')
def any_dict_of_values():
    """Dictionaries and nodes of any size."""
    v = one_of({}, Branch())
    s = v if isinstance(v, dict) else v.storage
    any_map(s, 'int', ('none', 'int'))
    before = content(s)
    e = one_of(encode, decode)(v)
    ensure('new dict', type(e) is dict and e is not v and e is not s)
    ensure_map('same items', content(e), before)
    ensure_map('unchanged', content(s), before)
    cover('end')


# -- structures of any size and depth: elements are encoded and decoded as
# specified


class Part(object):
    """Any structure by the contracts of ``encode`` and ``decode``."""
    __fields__ = {'encoded': ('none', 'int', 'str'),
                  'decoded': ('none', 'int', 'str')}


class Codec(StrCodec):

    def encode(self, arg):
        if isinstance(arg, Part):
            return arg.encoded
        return StrCodec.encode(self, arg)

    def decode(self, arg):
        if isinstance(arg, Part):
            return arg.decoded
        return StrCodec.decode(self, arg)


def part(v, f):
    if not isinstance(v, Part):
        return v
    return v.encoded if f == 'encode' else v.decoded


@contract('C23')
def any_structures():
    """Lists and tuples of any length."""
    c = one_of(Codec(), Codec('latin-1', False))
    f = one_of('encode', 'decode')
    v = any_list((Part, 'none', 'int'))
    i = any_int(0)
    assume(len(v) == 0 or i < len(v))
    x = v[i] if len(v) else None
    before = list(v)
    r = getattr(c, f)(v)
    ensure('list', type(r) is list and r is not v)
    ensure_seq('unchanged', v, before)
    ensure('length', len(r) == len(v))
    if len(v):
        if isinstance(r[i], Part):
            outside('structures are encoded or decoded in another way')
        ensure('elements', same(r[i], part(x, f)))
        cover('element')
    cover('end')


@contract('C23')
def any_dict_structures():
    """Dictionaries and nodes of any size."""
    c = one_of(Codec(), Codec('latin-1', False))
    f = one_of('encode', 'decode')
    v = one_of({}, Branch())
    s = v if isinstance(v, dict) else v.storage
    any_map(s, 'int', (Part, 'none', 'int'))
    before = content(s)
    k = any_int()
    if m_has(before, k):
        m_pos(before, k)
    else:
        assume(m_len(before) == 0)
    r = getattr(c, f)(v)
    ensure('dictionary', type(r) is dict and r is not v and r is not s)
    ensure_map('unchanged', content(s), before)
    ensure('length', len(r) == m_len(before))
    if m_has(before, k):
        ensure('key', k in r)
        want = part(m_get(before, k), f)
        if isinstance(r[k], Part):
            outside('structures are encoded or decoded in another way')
        ensure('value', same(r[k], want))
        cover('value')
    cover('end')


def shallow(v):
    """Copy of containers."""
    if isinstance(v, (list, tuple)):
        return type(v)([shallow(x) for x in v])
    if isinstance(v, dict):
        return {key: shallow(val) for key, val in v.items()}
    if isinstance(v, Branch):
        return (v, [(key, shallow(val)) for key, val in v.storage.items()])
    return v


def unchanged(v, s):
    if isinstance(v, Branch):
        return s[0] is v and unchanged(list(v.storage.items()), s[1])
    if type(v) is not type(s):
        return False
    if isinstance(v, (list, tuple)):
        return len(v) == len(s) and all(
            [unchanged(x, y) for x, y in zip(v, s)])
    if isinstance(v, dict):
        return unchanged(list(v.items()), list(s.items()))
    return same(v, s)


@contract('C23', limit='one level, up to 2 elements')
def structures():
    c, enc, soft = one_of((StrCodec('latin-1'), 'latin-1', True),
                          (node.utils.strcodec, 'utf-8', True))
    v = structure(enc, 1, 2, (0, 1), (0,))
    e = c.encode(v)
    ensure('encoded', equal(e, expected(v, enc, False)))
    d = c.decode(e)
    ensure('decoded', equal(d, expected(v, enc, True)))
    cover('end')


@contract('C23', limit='one level, 1 element')
def mixed_structures():
    """Texts and bytes."""
    v = structure('utf-8', 1, 1, (0, 1, 2, 3), (0, 1, 2))
    s = shallow(v)
    ensure('encoded', equal(encode(v), expected(v, 'utf-8', False)))
    ensure('not changed by encoding', unchanged(v, s))
    ensure('decoded', equal(decode(v), expected(v, 'utf-8', True)))
    ensure('not changed by decoding', unchanged(v, s))
    cover('end')


@contract('C23', limit='up to 3 levels')
def nested_structures():
    f, texts = one_of((encode, False), (decode, True))
    v = structure('utf-8', 2, 1, (0, 2), (0,))
    s = shallow(v)
    r = f(v)
    ensure('result', equal(r, expected(v, 'utf-8', texts)))
    ensure('unchanged', unchanged(v, s))
    if isinstance(v, (list, dict)):
        ensure('new structure', r is not v)
        for x in (v.values() if isinstance(v, dict) else v):
            if isinstance(x, (list, dict)):
                for y in (r.values() if isinstance(v, dict) else r):
                    ensure('new inner structure', y is not x)
    cover('end')


# -- unicode aware nodes


@plumbing(UnicodeAware, Adopt, Nodify, OdictStorage)
class UNode(object):
    """Unicode aware node."""


@plumbing(UnicodeAware, Nodify, DictStorage)
class UDict(object):
    """Not ordered."""


def unode():
    n = one_of(UNode, UDict)()
    any_map(n.storage, 'str', (ANode, 'int', 'str'))
    return n


def forms(s):
    """Text itself or its bytes."""
    return s if any_bool() else s.encode('utf-8')


@contract('C23')
def aware_get():
    n = unode()
    before = content(n.storage)
    s = any_str()
    r = outcome(getitem, n, forms(s))
    if m_has(before, s):
        ensure('child', is_ok(r) and same(r[1], m_get(before, s)))
        ensure('get', same(n.get(forms(s)), r[1]))
        cover('found')
    else:
        ensure('missing', raised_exactly(r, KeyError))
        ensure('default', n.get(forms(s), 7) == 7)
        cover('missing')
    ensure('contained', (forms(s) in n) == m_has(before, s))
    ensure_map('unchanged', content(n.storage), before)


@contract('C23')
def aware_set():
    n = unode()
    before = content(n.storage)
    s, t = any_str(), any_str()
    kind = upto(3)
    if kind == 0:
        v = w = any_value(ANode, 'int', 'none')
    elif kind == 1:
        v, w = t, t
    elif kind == 2:
        v, w = t.encode('utf-8'), t
    else:
        v = w = any_bytes('utf-8', False)
    if any_bool():
        n[forms(s)] = v
    else:
        n.update([(forms(s), v)])
    ensure_map('stored', content(n.storage), m_put(before, s, w))
    ensure('by text', same(n[s], w) or kind == 3)
    ensure('by bytes', same(n[s.encode('utf-8')], n[s]))
    if isinstance(n, UNode) and INode.providedBy(v):
        ensure('name is text', same(v.__name__, s) and v.__parent__ is n)
        cover('adopted')
    cover('end')


@contract('C23')
def aware_delete():
    n = unode()
    before = content(n.storage)
    s = any_str()
    r = outcome(delitem, n, forms(s))
    if m_has(before, s):
        ensure('deleted', is_ok(r))
        ensure_map('children', content(n.storage), m_del(before, s))
        cover('deleted')
    else:
        ensure('missing', raised_exactly(r, KeyError))
        ensure_map('unchanged', content(n.storage), before)
        cover('missing')


@contract('C23')
def aware_other_keys():
    """Keys which are neither text nor bytes."""
    n = one_of(UNode, UDict)()
    any_map(n.storage, 'int', ('int', 'str'))
    before = content(n.storage)
    k, v = any_int(), any_value('int', 'none')
    ensure('contained', (k in n) == m_has(before, k))
    n[k] = v
    ensure_map('stored', content(n.storage), m_put(before, k, v))
    ensure('got', same(n[k], v))
    del n[k]
    ensure('deleted', k not in n)
    cover('end')


@contract('C23')
def aware_undecodable_keys():
    """Bytes which are no text address the child stored under them."""
    n = one_of(UNode, UDict)()
    b = any_bytes('utf-8', False)
    s = any_str()
    n[s] = 1
    n[b] = 2
    ensure('both', n[b] == 2 and n[s] == 1 and len(n) == 2)
    del n[b]
    ensure('deleted', b not in n and s in n)
    cover('end')
