"""Assumed contracts of builtins and of library functions (trusted base)."""
import ast
import builtins
import collections
import contextlib
import copy
import functools
import inspect
import itertools
import operator
import threading
import types
import uuid
import z3
from core import *          # noqa
import core
from containers import (View, to_segs, length, to_str, to_repr, getitem,
                        setitem, seq_reversed, sort_explicit, seq_at,
                        map_update, norm_key, check_hashable)
from interp import (INTERPRETED, ABSENT, BoundMethod, CMFunc, ContMethod,
                    FieldsDict, Gen, IFunc, Interp, It, NatMethod, SetVal, StrMethod, Super,
                    is_interpretable)

TABLE = {}


def intrinsic(*fns):
    def deco(h):
        for f in fns:
            TABLE[f] = h
        return h
    return deco


def has_class(I, v, c):
    """bool or Bool term: isinstance for one class."""
    if isinstance(v, Sym):
        s = v.t.sort()
        if s == Val:
            t = v.t
            if c is object:
                return True
            if c is str:
                return Val.is_st(t)
            if c is bool:
                return Val.is_boo(t)
            if c is int:
                return Or(Val.is_num(t), Val.is_boo(t))
            if c is type(None):
                return Val.is_none(t)
            w = I.resolve(v)
            return has_class(I, w, c)
        return issubclass({'Bool': bool, 'Int': int, 'String': str}[s.name()],
                          c)
    if isinstance(v, Obj):
        try:
            return issubclass(v.cls, c)
        except TypeError as e:
            raise PyRaise(e)
    if isinstance(v, SBytes):
        return issubclass(bytes, c)
    if isinstance(v, PText):
        return issubclass(str, c)
    if isinstance(v, (BoundMethod, ContMethod, NatMethod, StrMethod)):
        return c in (types.MethodType, object)
    if isinstance(v, IFunc):
        return c in (types.FunctionType, object)
    if isinstance(v, Gen):
        return c in (types.GeneratorType, object)
    if isinstance(v, It):
        import collections.abc as abc
        return c in (object, abc.Iterator, abc.Iterable)
    if isinstance(v, View):
        import collections.abc as abc
        return issubclass(type({}.keys()), c)
    if isinstance(v, FieldsDict):
        return issubclass(dict, c)
    if isinstance(v, Poison):
        raise Unsupported('loop carried value')
    return isinstance(v, c)


@intrinsic(isinstance)
def i_isinstance(I, v, c):
    if isinstance(c, tuple):
        return I.lift_bool(Or(*[I.lit(I_term(I, i_isinstance(I, v, x)))
                                for x in c]))
    if not isinstance(c, type):
        if type(c).__module__.startswith('zope.interface'):
            # zope interfaces answer isinstance with False
            return False
        if isinstance(c, types.UnionType):
            return i_isinstance(I, v, c.__args__)
        raise PyRaise(TypeError('isinstance() arg 2 must be a type'))
    r = has_class(I, v, c)
    return I.lift_bool(r)


def I_term(I, v):
    return v.t if isinstance(v, Sym) else bool(v)


@intrinsic(issubclass)
def i_issubclass(I, c, d):
    if isinstance(c, Sym):
        c = I.resolve(c)
    if isinstance(c, (Obj,)) or not isinstance(c, type) and not isinstance(
            d, tuple):
        if type(c).__module__.startswith('zope.interface'):
            try:
                return issubclass(c, d)
            except TypeError as e:
                raise PyRaise(e)
        raise PyRaise(TypeError('issubclass() arg 1 must be a class'))
    try:
        return issubclass(c, d)
    except TypeError as e:
        raise PyRaise(e)


@intrinsic(len)
def i_len(I, v):
    n = length(I, v)
    return n


@intrinsic(hasattr)
def i_hasattr(I, o, name):
    name = attr_name(I, name)
    return I.getattr(o, name, MISSING) is not MISSING


def attr_name(I, name):
    if isinstance(name, Sym):
        name = I.resolve(name)
    if not isinstance(name, str):
        if I.is_strv(name):
            raise Unsupported('symbolic attribute name')
        raise PyRaise(TypeError('attribute name must be string'))
    return name


@intrinsic(getattr)
def i_getattr(I, o, name, default=ABSENT):
    return I.getattr(o, attr_name(I, name), default)


@intrinsic(setattr)
def i_setattr(I, o, name, v):
    I.setattr(o, attr_name(I, name), v)


@intrinsic(delattr)
def i_delattr(I, o, name):
    I.delattr(o, attr_name(I, name))


@intrinsic(object.__getattribute__)
def i_obj_getattribute(I, o, name):
    name = attr_name(I, name)
    if isinstance(o, Sym):
        o = I.resolve(o)
    f = I.type_lookup(o.cls, name)
    if f is not ABSENT and I.is_data_descriptor(f):
        return I.bind(f, o, o.cls)
    v = I.field(o, name)
    if v is not ABSENT:
        return v
    if f is not ABSENT:
        return I.bind(f, o, o.cls)
    I.no_attr(o, name)


@intrinsic(object.__setattr__)
def i_obj_setattr(I, o, name, v):
    I.setattr(o, attr_name(I, name), v, raw=True)


@intrinsic(object.__init__)
def i_obj_init(I, o, *a, **k):
    if a or k:
        raise Unsupported('arguments of object.__init__')


@intrinsic(object.__delattr__)
def i_obj_delattr(I, o, name):
    name = attr_name(I, name)
    if I.field(o, name) is ABSENT:
        I.no_attr(o, name)
    I.set_field(o, name, MISSING)


@intrinsic(object.__new__)
def i_object_new(I, cls, *a, **k):
    return I.object_new(cls, *a, **k)


@intrinsic(object)
def i_object(I):
    return I.new_obj(object)


@intrinsic(callable)
def i_callable(I, o):
    if isinstance(o, Sym):
        o = I.resolve(o)
    if isinstance(o, Obj):
        return I.type_lookup(o.cls, '__call__') is not ABSENT
    if isinstance(o, (BoundMethod, IFunc, NatMethod, ContMethod, StrMethod)):
        return True
    return callable(o)


@intrinsic(super)
def i_super(I, cls, obj):
    return Super(cls, obj)


@intrinsic(type)
def i_type(I, v, *rest):
    if rest:
        raise Unsupported('dynamic class')
    if isinstance(v, Sym):
        v = I.resolve(v)
    if isinstance(v, Sym):
        return {'Bool': bool, 'Int': int, 'String': str}[v.t.sort().name()]
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, SBytes):
        return bytes
    if isinstance(v, IFunc):
        return types.FunctionType
    if isinstance(v, (BoundMethod,)):
        return types.MethodType
    return type(v)


@intrinsic(id)
def i_id(I, v):
    if isinstance(v, Sym):
        v = I.resolve(v)
    if isinstance(v, Obj):
        if v.origin is not None:
            f = z3.Function('id_of', Val, Int)
            I.P.exact = False
            return Sym(f(v.origin))
        return 140000000000000 + v.oid * 16
    if isinstance(v, Sym):
        raise Unsupported('id of scalar')
    return 150000000000000 + I.intern(v) * 16


@intrinsic(hash)
def i_hash(I, v):
    check_hashable(I, v)
    f = z3.Function('hash_of', Val, Int)
    I.P.exact = False
    return Sym(f(I.to_val(norm_key(I, v))))


@intrinsic(bool)
def i_bool(I, v=False):
    if isinstance(v, Sym) and v.t.sort() == Bool:
        return v
    return I.truth(v)


@intrinsic(int)
def i_int(I, v=0, *a):
    if isinstance(v, Sym):
        v = I.resolve(v)
    if isinstance(v, Obj):
        if getattr(v.cls, '__module__', '') == 'uuid':
            return I.field(v, 'int')
        f = I.type_lookup(v.cls, '__int__')
        if f is not ABSENT:
            return I.call(I.bind(f, v, v.cls), [])
        raise PyRaise(TypeError("int() argument must be a string, a bytes-like"
                                " object or a real number"))
    if v is None:
        raise PyRaise(TypeError("int() argument must be a string, a bytes-like"
                                " object or a real number, not 'NoneType'"))
    if isinstance(v, Sym):
        if v.t.sort() == Int:
            return v
        if v.t.sort() == Bool:
            return Sym(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        if v.t.sort() == Str and not a:
            # decimal literal, or ValueError (signs and spaces: not modelled)
            ok = z3.StrToInt(v.t) >= 0
            if I.P.choose(ok):
                return Sym(z3.StrToInt(v.t))
            I.P.exact = False
            raise PyRaise(ValueError('invalid literal for int()'))
    try:
        return int(v, *a)
    except (TypeError, ValueError) as e:
        raise PyRaise(e)


@intrinsic(str)
def i_str(I, v='', *a):
    if a:
        if isinstance(v, (SBytes, bytes)):
            return I.sbytes_decode(v, *a) if isinstance(v, SBytes) else \
                v.decode(*a)
        raise Unsupported('str with encoding')
    return to_str(I, v)


@intrinsic(repr)
def i_repr(I, v):
    return to_repr(I, v)


@intrinsic(bytes)
def i_bytes(I, v=b'', *a):
    if isinstance(v, (SBytes, bytes)) and not a:
        return v
    if I.is_strv(v) and a:
        return I.str_encode(v, *a)
    raise Unsupported('bytes()')


@intrinsic(hex)
def i_hex(I, v):
    if isinstance(v, int):
        return hex(v)
    f = z3.Function('hex_of', Int, Str)
    I.P.exact = False
    return Sym(f(I.int_t(v)))


@intrinsic(list)
def i_list(I, v=None):
    if v is None:
        return I.new_list()
    return I.new_list(to_segs(I, v))


@intrinsic(tuple)
def i_tuple(I, v=()):
    if isinstance(v, tuple):
        return v
    segs = to_segs(I, v)
    x = seq_explicit(segs)
    if x is None:
        return I.alloc(tuple, LRec(segs))
    return tuple(x)


@intrinsic(dict)
def i_dict(I, *args, **kw):
    o = I.new_map()
    I.cont_method(o, 'update', list(args), kw)
    return o


@intrinsic(set, frozenset)
def i_set(I, v=None):
    o = I.alloc(set, Rec({'set': SetVal()}))
    if v is not None:
        segs = to_segs(I, v)
        if all(not isinstance(s, Items) for s in segs):
            I.rec(o).fields['set'] = SetVal((), segs)
        else:
            I.cont_method(o, 'update', [I.new_list(segs)], {})
    return o


@intrinsic(iter)
def i_iter(I, v, *a):
    if a:
        raise Unsupported('iter with sentinel')
    if isinstance(v, Sym):
        v = I.resolve(v)
    if isinstance(v, (It, Gen)):
        return v
    if isinstance(v, Obj) and isinstance(I.rec(v), Rec) and \
            v.cls not in (set, frozenset):
        f = I.type_lookup(v.cls, '__iter__')
        if f is ABSENT:
            raise PyRaise(TypeError("'%s' object is not iterable"
                                    % v.cls.__name__))
        return I.call(I.bind(f, v, v.cls), [])
    if v is None or isinstance(v, (bool, int)) or I.is_intv(v):
        raise PyRaise(TypeError('object is not iterable'))
    return It(v)


@intrinsic(next)
def i_next(I, it, default=ABSENT):
    if isinstance(it, Sym):
        it = I.resolve(it)
    if isinstance(it, Obj):
        f = I.type_lookup(it.cls, '__next__')
        if f is ABSENT:
            raise PyRaise(TypeError('object is not an iterator'))
        try:
            return I.call(I.bind(f, it, it.cls), [])
        except PyRaise as e:
            if isinstance(e.exc, StopIteration) and default is not ABSENT:
                return default
            raise
    return I.next(it, default)


@intrinsic(map)
def i_map(I, f, src, *more):
    if more:
        raise Unsupported('map with several iterables')
    return It(src, 'map', f)


@intrinsic(filter)
def i_filter(I, f, src):
    return It(src, 'filter', f)


@intrinsic(reversed)
def i_reversed(I, v):
    if isinstance(v, Sym):
        v = I.resolve(v)
    if I.is_list(v):
        return It(I.new_list(seq_reversed(I, I.segs(v))))
    if I.is_map(v):
        return It(I.new_list(seq_reversed(I, I.m(v).keys(I.P))))
    if isinstance(v, View):
        return It(I.new_list(seq_reversed(I, to_segs(I, v))))
    if isinstance(v, (tuple, str, range)):
        return It(tuple(reversed(v)))
    if isinstance(v, Obj):
        f = I.type_lookup(v.cls, '__reversed__')
        if f is not ABSENT:
            return I.call(I.bind(f, v, v.cls), [])
    raise PyRaise(TypeError('object is not reversible'))


@intrinsic(enumerate)
def i_enumerate(I, v, start=0):
    segs = to_segs(I, v)
    x = seq_explicit(segs)
    if x is None:
        n = seq_len(segs)
        return It(I.new_list((Seg(n, lambda i: (
            I.lift_int(z3.simplify(IV(i) + start)),
            seq_at(I, segs, z3.simplify(IV(i))))),)))
    return It(I.new_list(seq_items((i + start, y) for i, y in enumerate(x))))


@intrinsic(zip)
def i_zip(I, *vs):
    segs = [to_segs(I, v) for v in vs]
    xs = [seq_explicit(s) for s in segs]
    if any(x is None for x in xs):
        n = IV(seq_len(segs[0]))
        for s in segs[1:]:
            k = IV(seq_len(s))
            if I.P.choose(z3.simplify(k < n)):
                n = k
        if z3.is_int_value(z3.simplify(n)):
            n = z3.simplify(n).as_long()
            return It(I.new_list(seq_items(
                tuple(seq_at(I, s, i) for s in segs) for i in range(n))))
        return It(I.new_list((Seg(z3.simplify(n), lambda i: tuple(
            seq_at(I, s, z3.simplify(IV(i))) for s in segs)),)))
    return It(I.new_list(seq_items(zip(*xs))))


@intrinsic(range)
def i_range(I, *a):
    a = [I.resolve(x) if isinstance(x, Sym) else x for x in a]
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            n = a[0].t
            if not I.P.choose(n > 0):
                return ()
            return I.new_list((Seg(n, lambda i: I.lift_int(IV(i))),))
        raise Unsupported('symbolic range')
    return range(*a)


@intrinsic(sorted)
def i_sorted(I, v, key=None, reverse=False):
    segs = to_segs(I, v)
    x = seq_explicit(segs)
    if x is None:
        return I.new_list(sort_symbolic(I, v, segs, key, reverse))
    return I.new_list(seq_items(sort_explicit(I, x, key, reverse)))


def sort_symbolic(I, v, segs, key, reverse):
    """Sorting is a permutation given by the keys of the elements, the same
    one for the same keys.  Which one is not known."""
    P = I.P
    reverse = I.truth(reverse)
    if len(segs) != 1 or isinstance(segs[0], Items):
        raise Unsupported('sorting of a composed sequence')
    if P.index_ctx:
        raise Unsupported('sorting in symbolic loop')
    seg = segs[0]
    n = IV(seg.n)
    if key is not None:
        v = I.new_list(segs)
        ks = to_segs(I, I.call(_helper(I, 'each'), [key, v]))
        if len(ks) != 1 or isinstance(ks[0], Items) or not P.prove(
                IV(ks[0].n) == n):
            raise Unsupported('sort key')
    else:
        ks = [seg]

    def keyof(i, kseg=ks[0]):
        k = kseg.get(i)
        if isinstance(k, (Obj, tuple)):
            raise Unsupported('sort key')
        return I.to_val(k)
    P.exact = False
    t = P.fresh('st', Int)
    k = keyof(t)
    rng = And(0 <= t, t < n)
    if not P.prove(z3.Implies(rng, Val.is_st(k))) and not P.prove(
            z3.Implies(rng, Val.is_num(k))):
        raise Unsupported('sort keys of several types')
    perm = None
    for m, other, rev, f in P.ghost.get('sorts', ()):
        if rev == reverse and P.prove(And(m == n, z3.Implies(
                rng, eqt(k, other(t))))):
            perm = f
            break
    if perm is None:
        perm = P.fresh_fn('perm', Int, Int)
        inv = P.fresh_fn('permi', Int, Int)
        P.add_rule(lambda i: z3.Implies(And(0 <= i, i < n), And(
            0 <= perm(i), perm(i) < n, inv(perm(i)) == i)))
        P.ghost['sorts'] = P.ghost.get('sorts', ()) + (
            (n, keyof, reverse, perm),)

    def get(i):
        i = z3.simplify(IV(i))
        P.add_index(i)
        x = perm(i)
        P.add_index(x)
        return seg.get(x)
    return (Seg(seg.n, get, seg.member),)


@intrinsic(any)
def i_any(I, v):
    r = []

    def step(x):
        if I.truth(x):
            r.append(1)
            raise BreakSig()
    try:
        I.iterate(v, step)
    except BreakSig:
        return True
    return False


@intrinsic(all)
def i_all(I, v):
    def step(x):
        if not I.truth(x):
            raise BreakSig()
    try:
        I.iterate(v, step)
    except BreakSig:
        return False
    return True


@intrinsic(sum)
def i_sum(I, v, start=0):
    segs = to_segs(I, v)
    x = seq_explicit(segs)
    if x is None:
        for s in segs:
            if isinstance(s, Items):
                start = I.call(_helper(I, 'sum_all'), [
                    I.new_list((s,)), start])
                continue
            c = seq_at(I, (s,), I.P.fresh('si', Int))
            if isinstance(c, int):
                start = I.binop(ast.Add(), start, I.binop(
                    ast.Mult(), int(c), I.lift_int(seq_len((s,)))))
            else:
                start = I.call(_helper(I, 'sum_all'), [
                    I.new_list((s,)), start])
        return start
    for y in x:
        start = I.binop(ast.Add(), start, y)
    return start


def _minmax(name):
    def h(I, *a, **k):
        if k:
            raise Unsupported('min/max with key')
        if len(a) == 1:
            a = seq_explicit(to_segs(I, a[0]))
            if a is None:
                raise Unsupported('min/max of a symbolic sequence')
            if not a:
                raise PyRaise(ValueError('iterable argument is empty'))
        res = a[0]
        for x in a[1:]:
            res = I.call(_helper(I, name), [res, x])
        return res
    return h


TABLE[min] = _minmax('least')
TABLE[max] = _minmax('most')


@intrinsic(collections.deque)
def i_deque(I, v=(), maxlen=None):
    if maxlen is not None and not (maxlen == 0 and isinstance(maxlen, int)):
        raise Unsupported('deque with maxlen')
    if maxlen == 0:
        I.iterate(v, lambda x: None)
        return I.alloc(collections.deque, LRec())
    return I.alloc(collections.deque, LRec(to_segs(I, v)))


@intrinsic(itertools.chain)
def i_chain(I, *its):
    return I.call(_helper(I, 'chain'), list(its))


@intrinsic(itertools.chain.from_iterable)
def i_chain_all(I, its):
    return I.call(_helper(I, 'chain_all'), [its])


@intrinsic(dict.fromkeys)
def i_fromkeys(I, keys, value=None):
    return I.call(_helper(I, 'fromkeys'), [I.new_map(), keys, value])


@intrinsic(collections.OrderedDict.fromkeys)
def i_ofromkeys(I, keys, value=None):
    return I.call(_helper(I, 'fromkeys'), [
        I.call(collections.OrderedDict, []), keys, value])


@intrinsic(functools.reduce)
def i_reduce(I, fn, v, start=ABSENT):
    if start is ABSENT:
        x = seq_explicit(to_segs(I, v))
        if not x:
            raise Unsupported('reduce without a start')
        v, start = I.new_list(seq_items(x[1:])), x[0]
    return I.call(_helper(I, 'reduce_all'), [fn, v, start])


@intrinsic(functools.partial)
def i_partial(I, f, *args, **kw):
    return NatMethod(lambda *a, **k: I.call(
        f, list(args) + list(a), dict(kw, **k)))


@intrinsic(operator.itemgetter)
def i_itemgetter(I, *ks):
    if len(ks) == 1:
        return NatMethod(lambda o: getitem(I, o, ks[0]))
    return NatMethod(lambda o: tuple(getitem(I, o, k) for k in ks))


@intrinsic(operator.attrgetter)
def i_attrgetter(I, *names):
    if any(not isinstance(n, str) for n in names):
        raise Unsupported('attrgetter of a symbolic name')

    def get(o, name):
        for n in name.split('.'):
            o = I.getattr(o, n)
        return o
    if len(names) == 1:
        return NatMethod(lambda o: get(o, names[0]))
    return NatMethod(lambda o: tuple(get(o, n) for n in names))


@intrinsic(operator.methodcaller)
def i_methodcaller(I, name, *args, **kw):
    return NatMethod(lambda o: I.call(I.getattr(o, name), list(args),
                                      dict(kw)))


@intrinsic(contextlib.suppress)
def i_suppress(I, *excs):
    return I.call(_helper(I, 'suppress'), list(excs))


@intrinsic(contextlib.nullcontext)
def i_nullcontext(I, *a, **k):
    return I.call(_helper(I, 'nullcontext'), list(a), dict(k))


@intrinsic(contextlib.ExitStack)
def i_exitstack(I):
    return I.call(_helper(I, 'ExitStack'), [])


@intrinsic(operator.is_)
def i_is(I, a, b):
    return I.compare(ast.Is(), a, b)


@intrinsic(operator.is_not)
def i_is_not(I, a, b):
    return I.compare(ast.IsNot(), a, b)


@intrinsic(operator.eq)
def i_eq(I, a, b):
    return I.compare(ast.Eq(), a, b)


@intrinsic(operator.not_)
def i_not(I, a):
    return not I.truth(a)


@intrinsic(operator.contains)
def i_contains(I, a, b):
    return I.compare(ast.In(), b, a)


@intrinsic(operator.setitem)
def i_setitem(I, o, k, v):
    setitem(I, o, k, v)


@intrinsic(operator.getitem)
def i_getitem(I, o, k):
    return getitem(I, o, k)


@intrinsic(print)
def i_print(I, *a, **k):
    P = I.P
    if set(k) - {'sep', 'end', 'flush'}:
        raise Unsupported('printing to a file')
    out = []
    sep, end = k.get('sep', ' '), k.get('end', '\n')
    for v in a:
        if out:
            out.append(' ' if sep is None else sep)
        out.append(to_str(I, v))
    out.append('\n' if end is None else end)
    P.ghost['printed'] = P.ghost.get('printed', ()) + tuple(out)
    return None


@intrinsic(vars)
def i_vars(I, o):
    return FieldsDict(o)


@intrinsic(property)
def i_property(I, fget=None, fset=None, fdel=None, doc=None):
    raise Unsupported('property object created at run time')


# -- instantiation ------------------------------------------------------------

def instantiate(I, cls, args, kwargs):
    P = I.P
    if issubclass(cls, BaseException):
        init = I.type_lookup(cls, '__init__')
        try:
            e = cls(*args, **kwargs)
        except TypeError as err:
            raise PyRaise(err)
        return e
    meta = type(cls)
    if meta is not type:
        c = I.type_lookup(meta, '__call__')
        if isinstance(c, types.FunctionType) and is_interpretable(c):
            return I.call(c, [cls] + list(args), kwargs)
    if issubclass(cls, (threading.local,)):
        raise Unsupported('thread local created at run time')
    if issubclass(cls, dict):
        new = I.type_lookup(cls, '__new__')
        o = I.alloc(cls, MRec(EMap(), {} if cls is not dict else None))
        init = I.type_lookup(cls, '__init__')
        if isinstance(init, types.FunctionType) and is_interpretable(init):
            I.call(init, [o] + list(args), kwargs)
        else:
            I.cont_method(o, '__init__', list(args), kwargs)
        return o
    if issubclass(cls, list):
        o = I.alloc(cls, LRec())
        init = I.type_lookup(cls, '__init__')
        if isinstance(init, types.FunctionType) and is_interpretable(init):
            I.call(init, [o] + list(args), kwargs)
        else:
            I.cont_method(o, '__init__', list(args), kwargs)
        return o
    if issubclass(cls, tuple):
        raise Unsupported('tuple subclass')
    if not I.interp_class(cls):
        raise Unsupported('instance of %s.%s' % (cls.__module__, cls.__name__))
    new = I.type_lookup(cls, '__new__')
    if new is not ABSENT:
        f = new.__func__ if isinstance(new, staticmethod) else new
        o = I.call(f, [cls] + list(args), kwargs)
        if not (isinstance(o, Obj) and issubclass(o.cls, cls)):
            return o
    else:
        init = I.type_lookup(cls, '__init__')
        if init is ABSENT and (args or kwargs):
            raise PyRaise(TypeError('%s() takes no arguments' % cls.__name__))
        o = I.new_obj(cls)
    init = I.type_lookup(cls, '__init__')
    if init is not ABSENT:
        r = I.call(I.bind(init, o, cls), args, kwargs)
    return o


Interp.instantiate = instantiate


# -- zope.interface -------------------------------------------------------------

from zope.interface import implementedBy                        # noqa
from zope.interface.interface import InterfaceClass             # noqa
from zope.interface import Interface                            # noqa


def provided_by(I, iface, o):
    if isinstance(o, Sym):
        o = I.resolve(o)
    if isinstance(o, Sym):
        return False
    if isinstance(o, Obj):
        p = I.field(o, '__provides__') if isinstance(I.rec(o), Rec) else ABSENT
        if p is not ABSENT:
            raise Unsupported('directly provided interface')
        return bool(iface.implementedBy(o.cls))
    if isinstance(o, (SBytes, BoundMethod, IFunc, Gen, It, View)):
        return False
    return bool(iface.providedBy(o))


TABLE[('attr', InterfaceClass, 'providedBy')] = provided_by
TABLE[('attr', type(Interface), 'providedBy')] = provided_by


def implemented_by(I, iface, cls):
    return bool(iface.implementedBy(cls))


TABLE[('attr', InterfaceClass, 'implementedBy')] = implemented_by


@intrinsic(inspect.isclass)
def i_isclass(I, o):
    if isinstance(o, Sym):
        o = I.resolve(o)
    return isinstance(o, type)


@intrinsic(inspect.isfunction)
def i_isfunction(I, o):
    return isinstance(o, (types.FunctionType, IFunc))


@intrinsic(inspect.ismethod)
def i_ismethod(I, o):
    return isinstance(o, BoundMethod)


@intrinsic(inspect.ismodule)
def i_ismodule(I, o):
    return isinstance(o, types.ModuleType)


# -- copy ---------------------------------------------------------------------

def all_fields(I, o):
    r = I.rec(o)
    if o.origin is not None and (I.P.ghost.get('layers') or I.P.stale[0]):
        raise Unsupported('all fields of an element written in a loop')
    if r.lazy is not None:
        for n in getattr(o.cls, '__fields__', {}):
            I.field(o, n)
    if r.native is not None:
        for n in getattr(r.native, '__dict__', {}):
            I.field(o, n)
    d = dict(r.loaded)
    d.update(r.fields)
    return {k: v for k, v in d.items() if v is not MISSING}


@intrinsic(copy.copy)
def i_copy(I, o):
    if isinstance(o, Sym):
        o = I.resolve(o)
    if not isinstance(o, Obj):
        return o
    f = I.type_lookup(o.cls, '__copy__')
    if isinstance(f, types.FunctionType) and is_interpretable(f):
        return I.call(f, [o])
    r = I.rec(o)
    if o.cls is tuple:
        return o
    if isinstance(r, LRec):
        return I.new_list(I.segs(o))
    if isinstance(r, MRec):
        return I.cont_method(o, 'copy', [], {})
    if o.cls in (set, frozenset):
        return I.alloc(o.cls, Rec(dict(r.fields)))
    if getattr(o.cls, '__module__', '') == 'uuid':
        return o
    return I.alloc(o.cls, Rec(all_fields(I, o)))


@intrinsic(copy.deepcopy)
def i_deepcopy(I, o, memo=None, _nil=None):
    if memo is None:
        memo = I.new_map()
    return deep(I, o, memo)


def deep(I, o, memo):
    if isinstance(o, Sym):
        o = I.resolve(o)
    if isinstance(o, tuple):
        return tuple(deep(I, x, memo) for x in o)
    if isinstance(o, BoundMethod):
        return BoundMethod(deep(I, o.self, memo), o.fn)
    if not isinstance(o, Obj):
        return o
    P = I.P
    mid = i_id(I, o)
    m = I.m(memo)
    if isinstance(mid, Sym):
        raise Unsupported('deepcopy of symbolic object')
    if P.choose(m.has(P, mid)):
        return m.get(P, mid)
    f = I.type_lookup(o.cls, '__deepcopy__')
    if isinstance(f, types.FunctionType) and is_interpretable(f):
        y = I.call(f, [o, memo])
        I.set_m(memo, I.m(memo).set(P, mid, y))
        return y
    r = I.rec(o)

    def put(y):
        I.set_m(memo, I.m(memo).set(P, mid, y))
        return y
    if isinstance(r, LRec):
        x = seq_explicit(I.segs(o))
        if x is None:
            raise Unsupported('deepcopy of symbolic list')
        y = put(I.alloc(o.cls, LRec()))
        for v in x:
            I.append(y, deep(I, v, memo))
        return y
    if isinstance(r, MRec):
        if not r.m.explicit:
            raise Unsupported('deepcopy of symbolic map')
        y = put(I.alloc(o.cls, MRec(EMap(), dict(r.fields)
                                    if r.fields is not None else None)))
        for k, v in r.m.entries:
            k2 = deep(I, k, memo)
            v2 = deep(I, v, memo)
            I.set_m(y, I.m(y).set(P, k2, v2))
        if r.fields:
            I.rec(y).fields = {k: deep(I, v, memo)
                               for k, v in r.fields.items()}
        return y
    if o.cls in (set, frozenset):
        sv = r.fields['set']
        if sv.segs:
            raise Unsupported('copy of symbolic set')
        return put(I.alloc(o.cls, Rec({'set': SetVal(
            [deep(I, v, memo) for v in sv.vals])})))
    if getattr(o.cls, '__module__', '') == 'uuid':
        return put(I.alloc(o.cls, Rec(all_fields(I, o))))
    if o.cls.__name__ == 'RLockSpec':
        raise PyRaise(TypeError("cannot pickle '_thread.RLock' object"))
    y = put(I.alloc(o.cls, Rec()))
    for k, v in all_fields(I, o).items():
        I.rec(y).fields[k] = deep(I, v, memo)
    return y


# -- uuid -----------------------------------------------------------------------

def new_uuid(I, t):
    """uuid object with integer value t."""
    P = I.P
    o = I.alloc(uuid.UUID, Rec({'int': I.lift_int(t)}))
    return o


def known_uuids(I):
    return I.P.ghost.get('uuids', ())


@intrinsic(uuid.uuid4, uuid.uuid1)
def i_uuid4(I, *a):
    # assumption: a generated uuid differs from all uuids in use
    P = I.P
    t = P.fresh('uuid', Int)
    P.add(And(0 < t, t < 2 ** 128))
    for u in known_uuids(I):
        P.add(t != u)
    P.ghost['uuids'] = known_uuids(I) + (t,)
    for fn in P.ghost.get('uuid_fresh_for', ()):
        fn(t)
    P.ghost['fresh_uuid_n'] = P.ghost.get('fresh_uuid_n', 0) + 1
    return new_uuid(I, t)


@intrinsic(uuid.UUID)
def i_UUID(I, hex=None, int=None, **kw):
    if kw:
        raise Unsupported('UUID arguments')
    if int is not None:
        return new_uuid(I, I.int_t(int))
    if isinstance(hex, Sym):
        hex = I.resolve(hex)
    if isinstance(hex, str):
        try:
            return I.alloc(uuid.UUID, Rec({'int': uuid.UUID(hex).int}))
        except (ValueError, AttributeError) as e:
            raise PyRaise(e)
    if I.is_strv(hex):
        f = z3.Function('uuid_str', Int, Str)
        g = z3.Function('uuid_int', Str, Int)
        t = I.str_t(hex)
        if not I.P.choose(f(g(t)) == t):
            I.P.exact = False
            raise PyRaise(ValueError('badly formed hexadecimal UUID string'))
        return new_uuid(I, z3.simplify(g(t)))
    raise PyRaise(TypeError('one of the hex, ... arguments must be given'))


# -- threads and notification -----------------------------------------------------

@intrinsic(threading.RLock)
def i_rlock(I):
    import vapi
    return instantiate(I, vapi.RLockSpec, [], {})


@intrinsic(threading.Lock)
def i_lock(I):
    import vapi
    return instantiate(I, vapi.LockSpec, [], {})


def _notify(I, *events):
    import vapi
    for e in events:
        I.append(I.wrap(vapi.notified), e)
        for seg in I.rec(I.wrap(vapi.observers)).segs:
            for f in seg.vals:
                I.call(f, [e], {})


import zope.component.event                                     # noqa
import zope.component                                           # noqa
import zope.event                                               # noqa
TABLE[zope.component.event.objectEventNotify] = _notify
TABLE[zope.event.notify] = _notify

# -- json: dumps keeps the data, loads gives it back as new structure ------------

import json                                                     # noqa


class JText(object):
    def __init__(self, data):
        self.data = data


def jdata(I, v, default, depth=0, sort=False):
    if depth > 20:
        raise Unsupported('json nesting')
    if isinstance(v, Sym):
        v = I.resolve(v)
    if v is None or isinstance(v, (bool, int, str, float)) or \
            isinstance(v, Sym):
        return v
    if isinstance(v, tuple) or I.is_list(v):
        x = seq_explicit(to_segs(I, v))
        if x is None:
            return ('segs', to_segs(I, I.call(_helper(I, 'each'), [
                NatMethod(lambda y: jleaf(I, y, default)), v])))
        return ['list'] + [jdata(I, y, default, depth + 1, sort) for y in x]
    if I.is_map(v):
        m = I.m(v)
        if not m.explicit:
            if sort:
                raise Unsupported('sorted keys of a symbolic map')
            return ('map', I.m(I.call(_helper(I, 'each_value'), [
                NatMethod(lambda y: jleaf(I, y, default)), v])))
        out = []
        for k, y in m.entries:
            k = I.resolve(k) if isinstance(k, Sym) else k
            if k is None or isinstance(k, (bool, int, float)) or I.is_intv(k):
                raise Unsupported('json key conversion')
            if not I.is_strv(k):
                raise PyRaise(TypeError('keys must be str, int, float, bool '
                                        'or None'))
            out.append((k, jdata(I, y, default, depth + 1, sort)))
        if sort:
            out = sort_explicit(I, out, NatMethod(lambda p: p[0]))
        return ['dict'] + out
    if default is None:
        raise PyRaise(TypeError('Object is not JSON serializable'))
    r = default(v)
    if isinstance(r, Obj) and isinstance(v, Obj) and r.oid == v.oid or r is v:
        raise PyRaise(ValueError('Circular reference detected'))
    return jdata(I, r, default, depth + 1, sort)


def _helper(I, name):
    import helpers
    INTERPRETED.append(helpers.__file__)
    return getattr(helpers, name)


def jleaf(I, v, default):
    r = jdata(I, v, default)
    if isinstance(r, (list, tuple)):
        raise Unsupported('json nesting in symbolic list or map')
    return r


def from_jdata(I, d):
    if isinstance(d, tuple):
        if d[0] == 'segs':
            return I.new_list(d[1])
        o = I.new_map()
        I.set_m(o, d[1])
        return o
    if isinstance(d, list):
        if d[0] == 'list':
            return I.new_list(seq_items(from_jdata(I, x) for x in d[1:]))
        o = I.new_map()
        for k, v in d[1:]:
            I.set_m(o, I.m(o).set(I.P, k, from_jdata(I, v)))
        return o
    return d


def _default_of(I, enc):
    return lambda v: I.call(I.getattr(enc, 'default'), [v])


@intrinsic(json.dumps)
def i_dumps(I, data, cls=None, **kw):
    if cls is None:
        sort = kw.get('sort_keys', False)
        default = kw.get('default')
        return JText(jdata(I, data, default and (
            lambda v: I.call(default, [v])), sort=sort))
    args = dict(skipkeys=False, ensure_ascii=True, check_circular=True,
                allow_nan=True, indent=None, separators=None, default=None,
                sort_keys=False)
    args.update(kw)
    enc = I.call(cls, [], args)
    return I.call(I.getattr(enc, 'encode'), [data])


@intrinsic(json.JSONEncoder.encode)
def i_encode(I, enc, data):
    return JText(jdata(I, data, _default_of(I, enc),
                       sort=I.getattr(enc, 'sort_keys')))


@intrinsic(json.JSONEncoder.__init__)
def i_enc_init(I, enc, sort_keys=False, default=None, **kw):
    I.setattr(enc, 'sort_keys', sort_keys)
    if default is not None:
        I.setattr(enc, 'default', default)
    return None


@intrinsic(json.JSONEncoder.default)
def i_enc_default(I, enc, o):
    raise PyRaise(TypeError('Object is not JSON serializable'))


@intrinsic(json.loads)
def i_loads(I, text, **kw):
    if kw:
        raise Unsupported('json.loads arguments')
    if isinstance(text, JText):
        return from_jdata(I, text.data)
    if isinstance(text, str):
        try:
            return I.wrap(json.loads(text))
        except ValueError as e:
            raise PyRaise(e)
    raise Unsupported('json text')


def i_jdec(I, dec, text, **kw):
    return i_loads(I, text)


TABLE[json.JSONDecoder.decode] = i_jdec



@intrinsic(__import__)
def i_import(I, name, *a, **kw):
    if not isinstance(name, str) or a or kw:
        raise Unsupported('import of a symbolic name')
    try:
        return __import__(name)
    except ImportError as e:
        raise PyRaise(e)


import logging                                                  # noqa
for _n in ('debug', 'info', 'warning', 'error', 'exception'):
    TABLE[getattr(logging.Logger, _n)] = lambda I, *a, **k: None
