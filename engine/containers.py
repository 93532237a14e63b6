"""Contracts of builtin containers, strings and of odict (trusted base)."""
import ast
import types
import z3
from core import *          # noqa
import core


class View(object):
    """dict view or live iteration of a map."""
    __slots__ = ('obj', 'kind')

    def __init__(self, obj, kind):
        self.obj = obj
        self.kind = kind


def _interp_method(I, o, name):
    """User defined special method of a container subclass."""
    f = I.type_lookup(o.cls, name)
    if isinstance(f, types.FunctionType):
        from interp import is_interpretable
        if is_interpretable(f):
            return f
    return None


def check_hashable(I, k):
    from interp import SetVal
    if isinstance(k, Obj):
        r = I.rec(k)
        if k.cls is tuple:
            raise Unsupported('symbolic tuple as key')
        if isinstance(r, (LRec, MRec)) or k.cls is set:
            raise PyRaise(TypeError("unhashable type: '%s'" % k.cls.__name__))
    if isinstance(k, tuple):
        for x in k:
            check_hashable(I, x)


def norm_key(I, k):
    """Python equality of keys: True == 1."""
    if isinstance(k, bool):
        return int(k)
    if isinstance(k, Sym) and k.t.sort() == Bool:
        return Sym(z3.If(k.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(k, Obj):
        if getattr(k.cls, '__module__', '') == 'uuid':
            raise Unsupported('uuid object as key')
        f = I.type_lookup(k.cls, '__eq__')
        if isinstance(f, types.FunctionType) and not I.is_map(k):
            raise Unsupported('key with own equality')
    return k


def map_has(I, m, k):
    return m.has(I.P, norm_key(I, k))


def seq_at(I, segs, i):
    """Element at index i (int or Int term, in range) of a sequence."""
    P = I.P
    for s in segs:
        ln = s.length()
        if isinstance(i, int) and isinstance(ln, int):
            if i < ln:
                return s.vals[i] if isinstance(s, Items) else s.get(i)
            i -= ln
            continue
        t = IV(i)
        if P.choose(z3.simplify(t < IV(ln))):
            if isinstance(s, Items):
                for j in range(ln - 1):
                    if P.choose(z3.simplify(t == j)):
                        return s.vals[j]
                return s.vals[ln - 1]
            return s.get(z3.simplify(t))
        i = z3.simplify(t - IV(ln))
        if z3.is_int_value(i):
            i = i.as_long()
    raise PathEnd()


def getitem(I, o, k):
    P = I.P
    if isinstance(o, Sym):
        o = I.resolve(o)
    if isinstance(o, Obj):
        r = I.rec(o)
        f = _interp_method(I, o, '__getitem__')
        if f is not None:
            return I.call(f, [o, k])
        if isinstance(r, MRec):
            check_hashable(I, k)
            if P.choose(map_has(I, r.m, k)):
                return I.m(o).get(P, norm_key(I, k))
            raise PyRaise(KeyError(k))
        if isinstance(r, LRec):
            return list_getitem(I, I.segs(o), k)
        f = I.type_lookup(o.cls, '__getitem__')
        if f is ABS():
            raise PyRaise(TypeError("'%s' object is not subscriptable"
                                    % o.cls.__name__))
        return I.call(I.bind(f, o, o.cls), [k])
    if isinstance(o, tuple):
        if isinstance(k, Sym):
            k = I.resolve(k)
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError as e:
                raise PyRaise(e)
        raise Unsupported('symbolic tuple index')
    from interp import FieldsDict
    if isinstance(o, FieldsDict):
        v = I.fieldsdict_method(o, 'get', k, MISSING)
        if v is MISSING:
            raise PyRaise(KeyError(k))
        return v
    if isinstance(o, str) and isinstance(k, int):
        try:
            return o[k]
        except IndexError as e:
            raise PyRaise(e)
    if o is None or isinstance(o, (bool, int)) or I.is_intv(o):
        raise PyRaise(TypeError("object is not subscriptable"))
    if I.is_strv(o) and I.is_intv(k):
        t, i = I.str_t(o), I.int_t(k)
        n = z3.Length(t)
        i = If(i < 0, i + n, i)
        if not P.choose(And(0 <= i, i < n)):
            raise PyRaise(IndexError('string index out of range'))
        return I.lift_str(z3.SubString(t, i, 1))
    if I.is_strv(o):
        raise PyRaise(TypeError('string indices must be integers'))
    if isinstance(o, type):
        raise Unsupported('class subscript')
    raise Unsupported('subscript of %r' % (o,))


def ABS():
    from interp import ABSENT
    return ABSENT


def list_getitem(I, segs, k):
    P = I.P
    if isinstance(k, Sym):
        k = I.resolve(k)
    if not I.is_intv(k):
        raise PyRaise(TypeError('list indices must be integers or slices'))
    n = seq_len(segs)
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, int) and isinstance(n, int):
        if not -n <= k < n:
            raise PyRaise(IndexError('list index out of range'))
        return seq_at(I, segs, k % n)
    t, nt = I.int_t(k), IV(n)
    if isinstance(k, int) and k < 0:
        t = z3.simplify(nt + k)
    elif not isinstance(k, int):
        t = If(t < 0, t + nt, t)
    if not P.choose(z3.simplify(And(0 <= t, t < nt))):
        raise PyRaise(IndexError('list index out of range'))
    P.add_index(t)
    if z3.is_int_value(t):
        t = t.as_long()
    return seq_at(I, segs, t)


def getslice(I, o, lo, hi, step):
    P = I.P
    if isinstance(o, Sym):
        o = I.resolve(o)
    lo, hi = [I.resolve(x) if isinstance(x, Sym) else x for x in (lo, hi)]
    if isinstance(o, tuple) and not isinstance(lo, Sym) and \
            not isinstance(hi, Sym):
        return o[lo:hi:step]
    if isinstance(o, (str, bytes)) and not isinstance(lo, Sym) and \
            not isinstance(hi, Sym):
        return o[lo:hi:step]
    if I.is_list(o):
        segs = I.segs(o)
        x = seq_explicit(segs)
        if x is not None and not isinstance(lo, Sym) and \
                not isinstance(hi, Sym):
            return I.new_list(seq_items(x[lo:hi:step]))
        if step == -1 and lo is None and hi is None:
            return I.new_list(seq_reversed(I, segs))
        if step is not None:
            raise Unsupported('slice step')
        return I.new_list(seq_slice(I, segs, lo, hi))
    if I.is_strv(o) and step is None:
        t = I.str_t(o)
        n = z3.Length(t)

        def clip(x, dflt):
            if x is None:
                return dflt
            x = z3.simplify(I.int_t(x))
            if not P.prove(x >= 0, 500):
                x = If(x < 0, x + n, x)
                x = If(x < 0, z3.IntVal(0), x)
            if not P.prove(x <= n, 500):
                x = If(x > n, n, x)
            return x
        a, b = clip(lo, z3.IntVal(0)), clip(hi, n)
        # empty for b <= a
        return I.lift_str(z3.simplify(z3.SubString(t, a, b - a)))
    raise Unsupported('slice of %r' % (o,))


def seq_slice(I, segs, lo, hi):
    P = I.P
    n = seq_len(segs)

    def clip(x, dflt):
        if x is None:
            return dflt
        x = I.int_t(x)
        nt = IV(n)
        if P.choose(z3.simplify(x < 0)):
            x = z3.simplify(x + nt)
            if P.choose(x < 0):
                return z3.IntVal(0)
            return x
        if P.choose(z3.simplify(x > nt)):
            return nt
        return z3.simplify(x)
    a, b = IV(clip(lo, 0)), IV(clip(hi, n))
    if not P.choose(z3.simplify(a < b)):
        return ()
    ln = z3.simplify(b - a)

    def get(i):
        return seq_at(I, segs, z3.simplify(IV(i) + a))
    if z3.is_int_value(ln):
        return seq_items(get(i) for i in range(ln.as_long()))
    if len(segs) == 1 and isinstance(segs[0], Seg):
        return (segs[0].slice(a, ln),)
    return (Seg(ln, get),)


def seq_reversed(I, segs):
    out = []
    for s in reversed(segs):
        if isinstance(s, Items):
            out.append(Items(reversed(s.vals)))
        else:
            n = s.n
            out.append(Seg(n, lambda i, s=s, n=n: s.get(
                z3.simplify(IV(n) - 1 - IV(i))), member=s.member))
    return tuple(out)


def setitem(I, o, k, v):
    P = I.P
    if isinstance(o, Sym):
        o = I.resolve(o)
    if isinstance(o, Obj) and o.cls is tuple:
        raise PyRaise(TypeError('object does not support item assignment'))
    if isinstance(o, Obj):
        r = I.rec(o)
        f = _interp_method(I, o, '__setitem__')
        if f is not None:
            I.call(f, [o, k, v])
            return
        if isinstance(r, MRec):
            check_hashable(I, k)
            I.set_m(o, r.m.set(P, norm_key(I, k), v))
            return
        if isinstance(r, LRec):
            x = seq_explicit(I.segs(o))
            if x is None or not isinstance(k, int):
                raise Unsupported('symbolic list assignment')
            try:
                x[k] = v
            except IndexError as e:
                raise PyRaise(e)
            I.set_segs(o, seq_items(x))
            return
        f = I.type_lookup(o.cls, '__setitem__')
        if f is ABS():
            raise PyRaise(TypeError("'%s' object does not support item "
                                    "assignment" % o.cls.__name__))
        I.call(I.bind(f, o, o.cls), [k, v])
        return
    from interp import FieldsDict
    if isinstance(o, FieldsDict) and isinstance(k, str):
        I.set_field(o.obj, k, v)
        return
    if o is None or isinstance(o, (tuple, bool, int, str, bytes)) or \
            I.is_strv(o) or I.is_intv(o):
        raise PyRaise(TypeError('object does not support item assignment'))
    raise Unsupported('item assignment on %r' % (o,))


def delitem(I, o, k):
    P = I.P
    if isinstance(o, Sym):
        o = I.resolve(o)
    if isinstance(o, Obj) and o.cls is tuple:
        raise PyRaise(TypeError('object does not support item deletion'))
    if isinstance(o, Obj):
        r = I.rec(o)
        f = _interp_method(I, o, '__delitem__')
        if f is not None:
            I.call(f, [o, k])
            return
        if isinstance(r, MRec):
            check_hashable(I, k)
            k = norm_key(I, k)
            if not P.choose(r.m.has(P, k)):
                raise PyRaise(KeyError(k))
            I.set_m(o, I.m(o).delete(P, k))
            return
        if isinstance(r, LRec):
            x = seq_explicit(I.segs(o))
            if x is None or not isinstance(k, int):
                raise Unsupported('symbolic list deletion')
            try:
                del x[k]
            except IndexError as e:
                raise PyRaise(e)
            I.set_segs(o, seq_items(x))
            return
        f = I.type_lookup(o.cls, '__delitem__')
        if f is ABS():
            raise PyRaise(TypeError("'%s' object doesn't support item "
                                    "deletion" % o.cls.__name__))
        I.call(I.bind(f, o, o.cls), [k])
        return
    from interp import FieldsDict
    if isinstance(o, FieldsDict) and isinstance(k, str):
        I.fieldsdict_method(o, 'pop', k)
        return
    if o is None or isinstance(o, (tuple, bool, int, str, bytes)):
        raise PyRaise(TypeError("object doesn't support item deletion"))
    raise Unsupported('item deletion on %r' % (o,))


def seq_contains(I, segs, x):
    """Bool term / bool: membership by equality."""
    P = I.P
    conds = []
    for s in segs:
        if isinstance(s, Items):
            for v in s.vals:
                conds.append(I.lit(I.eq_term(x, v)))
        elif s.member is not None:
            conds.append(s.member(P, I.to_val(norm_key(I, x))))
        else:
            box = []

            def step(v):
                if I.eq_choose(x, v):
                    box.append(1)
                    raise BreakSig()
            try:
                I.loop(s, step)
            except BreakSig:
                return True
    return Or(*conds)


def contains(I, o, k):
    P = I.P
    if isinstance(o, Sym):
        o = I.resolve(o)
    if isinstance(o, Obj):
        r = I.rec(o)
        f = _interp_method(I, o, '__contains__')
        if f is not None:
            return I.truth(I.call(f, [o, k]))
        if isinstance(r, MRec):
            check_hashable(I, k)
            return I.lift_bool(map_has(I, r.m, k))
        if isinstance(r, LRec):
            return I.lift_bool(seq_contains(I, I.segs(o), k))
        if o.cls in (set, frozenset):
            check_hashable(I, k)
            sv = r.fields['set']
            return I.lift_bool(seq_contains(
                I, seq_items(sv.vals) + tuple(sv.segs), k))
        f = I.type_lookup(o.cls, '__contains__')
        if f is not ABS():
            r = I.call(I.bind(f, o, o.cls), [k])
            return I.truth(r)
        box = []

        def step(v):
            if I.eq_choose(k, v):
                box.append(1)
                raise BreakSig()
        try:
            I.iterate(o, step)
        except BreakSig:
            return True
        return False
    if isinstance(o, tuple):
        return I.lift_bool(Or(*[I.lit(I.eq_term(k, v)) for v in o]))
    if isinstance(o, View):
        if o.kind == 'keys':
            return contains(I, o.obj, k)
        return I.lift_bool(seq_contains(I, to_segs(I, o), k))
    from interp import FieldsDict, It, Gen
    if isinstance(o, FieldsDict):
        return I.fieldsdict_method(o, '__contains__', k)
    if isinstance(k, Sym):
        k = I.resolve(k)
    if I.is_strv(o):
        if not I.is_strv(k):
            raise PyRaise(TypeError("'in <string>' requires string"))
        if isinstance(o, str) and isinstance(k, str):
            return k in o
        return I.lift_bool(z3.Contains(I.str_t(o), I.str_t(k)))
    if o is None or isinstance(o, (bool, int)) or I.is_intv(o):
        raise PyRaise(TypeError('argument is not iterable'))
    if isinstance(o, (It, Gen)):
        return I.lift_bool(seq_contains(I, to_segs(I, o), k))
    if isinstance(o, (bytes, range)):
        n = I.to_native(k)
        if n is not ABS():
            return n in o
    raise Unsupported('containment in %r' % (o,))


def to_segs(I, v):
    """Snapshot of an iterable as sequence."""
    if isinstance(v, Sym):
        v = I.resolve(v)
    if isinstance(v, tuple):
        return seq_items(v)
    if I.is_list(v) and _interp_method(I, v, '__iter__') is None:
        return I.segs(v)
    if I.is_map(v) and _interp_method(I, v, '__iter__') is None:
        return I.m(v).keys(I.P)
    if isinstance(v, View):
        return getattr(I.m(v.obj), v.kind)(I.P)
    if isinstance(v, Obj) and v.cls in (set, frozenset):
        return set_segs(I, I.rec(v).fields['set'])
    from interp import It, Gen
    if isinstance(v, It) and v.kind == 'iter' and not v.used and not v.pos:
        v.used = True
        return to_segs(I, v.src)
    if isinstance(v, (It, Gen)) or isinstance(v, Obj):
        out = I.new_list()
        I.iterate(v, lambda x: I.append(out, x))
        return I.segs(out)
    if isinstance(v, (str, bytes, range)):
        return seq_items(v)
    if v is None or isinstance(v, (bool, int)) or I.is_intv(v):
        raise PyRaise(TypeError("'%s' object is not iterable"
                                % type(v).__name__))
    raise Unsupported('iteration of %r' % (v,))


def set_segs(I, sv):
    """Elements of a set, in any order."""
    P = I.P
    if not sv.segs:
        if len(sv.vals) > 4:
            raise Unsupported('iteration of a set with many elements')
        vals, left = [], list(sv.vals)
        while left:
            vals.append(left.pop(P.branch(len(left))))
        return seq_items(vals)
    P.exact = False
    segs = seq_items(sv.vals) + tuple(sv.segs)
    if any(s.member is None for s in sv.segs):
        raise Unsupported('iteration of symbolic set')
    N = P.fresh('sn', Int)
    at = P.fresh_fn('sat', Int, Val)
    idx = P.fresh_fn('sidx', Val, Int)
    P.add(N >= 0)
    mid = ('set', P.fresh_n.get('sat!fn'), P.index_ctx)

    def dom(q):
        out = []
        for s in segs:
            if isinstance(s, Items):
                out.extend(eqt(I.to_val(norm_key(I, v)), q) for v in s.vals)
            else:
                out.append(s.member(P, q))
        return Or(*out)

    def touch_k(P, q):
        key = (mid, 'k', q.get_id())
        if key not in P.touched:
            P.touched.add(key)
            P.add(z3.Implies(dom(q), And(0 <= idx(q), idx(q) < N,
                                         eqt(at(idx(q)), q))))

    def touch_i(P, i):
        i = IV(i)
        key = (mid, 'i', i.get_id())
        if key not in P.touched:
            P.touched.add(key)
            q = at(i)
            P.add(z3.Implies(And(0 <= i, i < N), And(dom(q), idx(q) == i)))
    return SMap(dom, lambda q: NONE, N, at, idx, touch_k, touch_i).keys(P)


def items_segs(I, v):
    if isinstance(v, Sym):
        v = I.resolve(v)
    if I.is_map(v):
        return I.m(v).items(I.P)
    return to_segs(I, I.call(I.getattr(v, 'items'), []))


def length(I, v):
    P = I.P
    if isinstance(v, Sym):
        v = I.resolve(v)
    if isinstance(v, (str, bytes, tuple, range)):
        return len(v)
    if isinstance(v, Sym) and v.t.sort() == Str:
        return I.lift_int(z3.Length(v.t))
    if isinstance(v, View):
        return I.lift_int(I.m(v.obj).length(P))
    if isinstance(v, Obj):
        r = I.rec(v)
        f = _interp_method(I, v, '__len__')
        if f is not None:
            return I.call(f, [v])
        if isinstance(r, LRec):
            n = seq_len(I.segs(v))
            return I.lift_int(n if isinstance(n, int) else z3.simplify(n))
        if isinstance(r, MRec):
            return I.lift_int(r.m.length(P))
        if v.cls in (set, frozenset):
            sv = r.fields['set']
            if sv.segs:
                raise Unsupported('length of symbolic set')
            return len(sv.vals)
        f = I.type_lookup(v.cls, '__len__')
        if f is not ABS():
            return I.call(I.bind(f, v, v.cls), [])
        raise PyRaise(TypeError("object of type '%s' has no len()"
                                % v.cls.__name__))
    raise PyRaise(TypeError("object has no len()"))


# ---------------------------------------------------------------------------
# methods

def cont_method(I, o, name, args, kwargs):
    r = I.rec(o)
    if isinstance(r, LRec):
        return list_method(I, o, name, list(args), kwargs)
    if isinstance(r, MRec):
        return map_method(I, o, name, list(args), kwargs)
    if o.cls in (set, frozenset):
        return set_method(I, o, name, list(args), kwargs)
    raise Unsupported('method %s' % name)


def list_method(I, o, name, args, kwargs):
    P = I.P
    if kwargs and name != 'sort':
        raise PyRaise(TypeError('no keyword arguments'))
    if name == 'popleft':
        name, args = 'pop', [0]
    if name == 'appendleft':
        name, args = 'insert', [0] + args
    if name == 'append':
        I.append(o, args[0])
        return None
    if name == 'extend' or name == '__iadd__':
        segs = to_segs(I, args[0])
        I.set_segs(o, I.rec(o).segs + segs)
        return None
    if name == '__len__':
        return length(I, o)
    if name == '__iter__':
        from interp import It
        return It(o)
    if name == '__getitem__':
        return getitem(I, o, args[0])
    if name == '__setitem__':
        return setitem(I, o, args[0], args[1])
    if name == '__delitem__':
        return delitem(I, o, args[0])
    if name == '__contains__':
        return contains(I, o, args[0])
    if name == 'copy':
        return I.new_list(I.segs(o))
    if name == 'clear':
        I.set_segs(o, ())
        return None
    if name == '__init__':
        I.set_segs(o, to_segs(I, args[0]) if args else ())
        return None
    segs = I.segs(o)
    x = seq_explicit(segs)
    if name == 'reverse':
        I.set_segs(o, seq_reversed(I, segs))
        return None
    if name == 'insert':
        if args[0] == 0 and isinstance(args[0], int):
            I.set_segs(o, seq_items([args[1]]) + segs)
            return None
        if x is not None and isinstance(args[0], int):
            x.insert(args[0], args[1])
            I.set_segs(o, seq_items(x))
            return None
    if name == 'pop':
        if x is not None and (not args or isinstance(args[0], int)):
            try:
                v = x.pop(*args)
            except IndexError as e:
                raise PyRaise(e)
            I.set_segs(o, seq_items(x))
            return v
        if x is None and (not args or args[0] in (0, -1)):
            first = bool(args) and args[0] == 0
            n = seq_len(segs)
            if not P.choose(z3.simplify(IV(n) > 0)):
                raise PyRaise(IndexError('pop from empty list'))
            # drop one element at either end
            if not first and isinstance(segs[-1], Items):
                v = segs[-1].vals[-1]
                I.set_segs(o, segs[:-1] + seq_items(segs[-1].vals[:-1]))
                return v
            if first and isinstance(segs[0], Items):
                v = segs[0].vals[0]
                I.set_segs(o, seq_items(segs[0].vals[1:]) + segs[1:])
                return v
            if first:
                v = seq_at(I, segs, 0)
                I.set_segs(o, seq_slice(I, segs, 1, None))
            else:
                v = seq_at(I, segs, z3.simplify(IV(n) - 1))
                I.set_segs(o, seq_slice(I, segs, None,
                                        I.lift_int(z3.simplify(IV(n) - 1))))
            return v
    if name in ('remove', 'index', 'count') and x is not None:
        cnt = 0
        for i, v in enumerate(x):
            if I.eq_choose(v, args[0]):
                if name == 'remove':
                    I.set_segs(o, seq_items(x[:i] + x[i + 1:]))
                    return None
                if name == 'index':
                    return i
                cnt += 1
        if name == 'count':
            return cnt
        raise PyRaise(ValueError('x not in list'))
    if name in ('remove', 'index') and len(segs) == 1 and \
            segs[0].member is not None:
        # list of map keys: positions are given by the map
        s = segs[0]
        k = I.to_val(norm_key(I, args[0]))
        if not P.choose(s.member(P, k)):
            raise PyRaise(ValueError('x not in list'))
        if s.src and s.src[0] == 'keys':
            p = s.src[1].pos(P, args[0])
            if name == 'index':
                return I.lift_int(p)
    if name == 'remove':
        out = list(segs)
        for i, seg in enumerate(segs):
            if isinstance(seg, Items):
                for j, v in enumerate(seg.vals):
                    if I.eq_choose(v, args[0]):
                        out[i:i + 1] = seq_items(seg.vals[:j] +
                                                 seg.vals[j + 1:])
                        I.set_segs(o, tuple(out))
                        return None
                continue
            try:
                same = P.prove(And(IV(seg.n) > 0, eqt(
                    I.to_val(seg.get(IV(0))), I.to_val(args[0]))))
            except Unsupported:
                same = False
            if same:
                out[i] = seg.slice(1, z3.simplify(IV(seg.n) - 1))
                I.set_segs(o, tuple(out))
                return None
            box = []

            def step(v):
                if I.eq_choose(v[1], args[0]):
                    box.append(v[0])
                    raise BreakSig()
            try:
                I.loop(Seg(seg.n, lambda i, seg=seg: (
                    I.lift_int(IV(i)), seg.get(i))), step)
            except BreakSig:
                at = IV(I.int_t(box[-1]))
                out[i:i + 1] = [
                    seg.slice(0, at),
                    seg.slice(at + 1, z3.simplify(IV(seg.n) - at - 1))]
                I.set_segs(o, tuple(out))
                return None
        raise PyRaise(ValueError('x not in list'))
    if name == 'sort':
        if x is not None:
            out = sort_explicit(I, x, kwargs.get('key'),
                                kwargs.get('reverse', False))
            I.set_segs(o, seq_items(out))
            return None
        from intrinsics import sort_symbolic
        I.set_segs(o, sort_symbolic(I, o, I.rec(o).segs, kwargs.get('key'),
                                    kwargs.get('reverse', False)))
        return None
    raise Unsupported('list.%s' % name)


def sort_explicit(I, x, key=None, reverse=False):
    """Stable sort of an explicit list by comparisons decided on the path."""
    ks = [I.call(key, [v]) if key is not None else v for v in x]
    nat = [I.to_native(k) for k in ks]
    if all(n is not ABS() for n in nat):
        try:
            idx = sorted(range(len(x)), key=lambda i: nat[i],
                         reverse=bool(reverse))
        except TypeError as e:
            raise PyRaise(e)
        return [x[i] for i in idx]
    if reverse:
        raise Unsupported('reverse sort')
    out = []
    P = I.P
    for k, v in zip(ks, x):
        i = len(out)
        while i > 0 and P.choose(less_term(I, k, out[i - 1][0])):
            i -= 1
        out.insert(i, (k, v))
    return [v for k, v in out]


def less_term(I, a, b):
    a = I.resolve(a) if isinstance(a, Sym) else a
    b = I.resolve(b) if isinstance(b, Sym) else b
    if I.is_strv(a) and I.is_strv(b):
        return I.str_t(a) < I.str_t(b)
    if I.is_intv(a) and I.is_intv(b):
        return I.int_t(a) < I.int_t(b)
    raise Unsupported('sort key')


def is_odict(o):
    return any(c.__name__ in ('odict', '_odict') for c in o.cls.__mro__)


def store_pairs(I, o, pairs):
    if o.cls is not dict and not (is_odict(o) and
                                  o.cls.__module__ == 'odict.pyodict'):
        raise Unsupported('update of %s' % o.cls.__name__)
    from intrinsics import _helper
    I.call(_helper(I, 'put_pairs'), [o, pairs])


def map_update(I, o, src):
    P = I.P
    if isinstance(src, Sym):
        src = I.resolve(src)
    if I.is_map(src):
        m = I.m(src)
        if m.explicit:
            for k, v in m.entries:
                I.set_m(o, I.m(o).set(P, k, v))
            return
        if I.m(o).explicit and not I.m(o).entries:
            I.set_m(o, m)
            return
        if hasattr(I.m(o), 'ops'):
            I.set_m(o, I.m(o).update(m))
            return
        if o.cls is dict:
            from loops import merge
            I.set_m(o, merge(I, as_smap(I, I.m(o)), m, m.val))
            return
        return store_pairs(I, o, map_method(I, src, 'items', (), {}))
    if isinstance(src, Obj) and not I.is_list(src) and \
            I.getattr(src, 'keys', None) is not None:
        def step(k):
            setitem(I, o, k, getitem(I, src, k))
        I.iterate(I.call(I.getattr(src, 'keys'), []), step)
        return
    segs = to_segs(I, src)
    x = seq_explicit(segs)
    if x is None:
        if len(segs) == 1 and segs[0].src and segs[0].src[0] == 'items' and \
                I.m(o).explicit and not I.m(o).entries:
            I.set_m(o, segs[0].src[1])
            return
        return store_pairs(I, o, I.new_list(segs))
    for p in x:
        if isinstance(p, Sym):
            p = I.resolve(p)
        kv = seq_explicit(to_segs(I, p))
        if kv is None or len(kv) != 2:
            raise PyRaise(ValueError('dictionary update sequence'))
        check_hashable(I, kv[0])
        I.set_m(o, I.m(o).set(P, norm_key(I, kv[0]), kv[1]))


NOARG = object()


def map_method(I, o, name, args, kwargs):
    from interp import It
    P = I.P
    od = is_odict(o)
    m = I.m(o)
    if P.reads is not None:
        P.reads.add(o.oid)

    def arg(i, default=NOARG):
        if i < len(args):
            return args[i]
        if default is NOARG:
            raise PyRaise(TypeError('%s() missing argument' % name))
        return default
    if name in ('get',):
        k = arg(0)
        dflt = kwargs.get('default', kwargs.get('x', arg(1, None)))
        check_hashable(I, k)
        k = norm_key(I, k)
        if P.choose(m.has(P, k)):
            return I.m(o).get(P, k)
        return dflt
    if name == '__getitem__':
        check_hashable(I, arg(0))
        k = norm_key(I, arg(0))
        if P.choose(m.has(P, k)):
            return I.m(o).get(P, k)
        raise PyRaise(KeyError(arg(0)))
    if name == '__setitem__':
        check_hashable(I, arg(0))
        I.set_m(o, m.set(P, norm_key(I, arg(0)), arg(1)))
        return None
    if name == '__delitem__':
        check_hashable(I, arg(0))
        k = norm_key(I, arg(0))
        if not P.choose(m.has(P, k)):
            raise PyRaise(KeyError(arg(0)))
        I.set_m(o, I.m(o).delete(P, k))
        return None
    if name in ('__contains__', 'has_key'):
        check_hashable(I, arg(0))
        return I.lift_bool(map_has(I, m, arg(0)))
    if name in ('__iter__', 'iterkeys') and (od or name == '__iter__'):
        return It(View(o, 'keys'))
    if name in ('itervalues', 'iteritems') and od:
        return It(View(o, name[4:]))
    if name in ('keys', 'values', 'items'):
        if od:
            return I.new_list(getattr(m, name)(P))
        return View(o, name)
    if name in ('rkeys', 'rvalues', 'ritems') and od:
        return I.new_list(seq_reversed(I, getattr(m, name[1:])(P)))
    if name in ('riterkeys', 'ritervalues', 'riteritems') and od or \
            name == '__reversed__':
        k = {'riterkeys': 'keys', '__reversed__': 'keys',
             'ritervalues': 'values', 'riteritems': 'items'}[name]
        return It(I.new_list(seq_reversed(I, getattr(m, k)(P))))
    if name == '__len__':
        return I.lift_int(m.length(P))
    if name == 'clear':
        I.set_m(o, EMap())
        return None
    if name in ('copy', '__copy__'):
        n = I.new_map(m, o.cls if od else dict)
        if od:
            I.rec(n).fields = {}
        return n
    if name == 'setdefault':
        k, d = arg(0), arg(1, None)
        check_hashable(I, k)
        k = norm_key(I, k)
        if P.choose(m.has(P, k)):
            return I.m(o).get(P, k)
        I.set_m(o, I.m(o).set(P, k, d))
        return d
    if name == 'pop':
        k = arg(0)
        check_hashable(I, k)
        k = norm_key(I, k)
        if P.choose(m.has(P, k)):
            v = I.m(o).get(P, k)
            I.set_m(o, I.m(o).delete(P, k))
            return v
        d = arg(1, kwargs.get('default', NOARG))
        if d is NOARG:
            raise PyRaise(KeyError(k))
        return d
    if name == 'popitem':
        n = m.length(P)
        if isinstance(n, int):
            if n == 0:
                raise PyRaise(KeyError('popitem(): dictionary is empty'))
            k, v = m.entries[-1]
        else:
            if not P.choose(n > 0):
                raise PyRaise(KeyError('popitem(): dictionary is empty'))
            k, v = seq_at(I, m.items(P), z3.simplify(n - 1))
        I.set_m(o, m.delete(P, k))
        return (k, v)
    if name in ('update', '__init__'):
        if name == '__init__' and od and kwargs:
            raise PyRaise(TypeError('no keyword arguments'))
        if name == 'update' and od and kwargs:
            raise PyRaise(TypeError('no keyword arguments'))
        if args:
            map_update(I, o, args[0])
        for k, v in kwargs.items():
            I.set_m(o, I.m(o).set(P, k, v))
        return None
    if od:
        if name in ('insertbefore', 'insertafter'):
            ref, k, v = arg(0), arg(1), arg(2)
            if P.choose(I.lit(I.eq_term(ref, k))):
                raise PyRaise(ValueError('Reference key and new key are equal'))
            if not P.choose(map_has(I, m, ref)):
                raise PyRaise(KeyError(ref))
            if P.choose(map_has(I, I.m(o), k)):
                # corrupts the linked list, no contract beyond this point
                P.ex.broken_calls = getattr(P.ex, 'broken_calls', 0) + 1
                P.check('odict.%s is only called for new keys' % name, False)
                raise PathEnd()
            I.set_m(o, I.m(o).insert(P, ref, k, v, name == 'insertafter'))
            return None
        if name in ('insertfirst', 'insertlast'):
            n = m.length(P)
            k, v = arg(0), arg(1)
            if P.choose(n == 0 if not isinstance(n, int) else n == 0):
                raise PyRaise(KeyError('Ordered dictionary is empty'))
            it = m.keys(P)
            ref = seq_at(I, it, 0) if name == 'insertfirst' else seq_at(
                I, it, n - 1 if isinstance(n, int) else z3.simplify(n - 1))
            return map_method(I, o, 'insertbefore' if name == 'insertfirst'
                              else 'insertafter', [ref, k, v], {})
        if name == 'swap':
            a, b = arg(0), arg(1)
            if P.choose(I.lit(I.eq_term(a, b))):
                raise PyRaise(ValueError('Swap keys are equal'))
            for k in (a, b):
                if not P.choose(map_has(I, m, k)):
                    raise PyRaise(KeyError(k))
            I.set_m(o, I.m(o).swap(P, a, b))
            return None
        if name in ('movebefore', 'moveafter'):
            ref, k = arg(0), arg(1)
            if P.choose(I.lit(I.eq_term(ref, k))):
                raise PyRaise(ValueError('Reference key and move key are equal'))
            for x in (ref, k):
                if not P.choose(map_has(I, m, x)):
                    raise PyRaise(KeyError(x))
            v = I.m(o).get(P, k)
            I.set_m(o, I.m(o).delete(P, k).insert(P, ref, k, v,
                                                  name == 'moveafter'))
            return None
        if name in ('firstkey', 'lastkey', 'first_key', 'last_key'):
            n = m.length(P)
            if P.choose(n == 0):
                raise PyRaise(KeyError('Ordered dictionary is empty'))
            i = 0 if name.startswith('first') else (
                n - 1 if isinstance(n, int) else z3.simplify(n - 1))
            return seq_at(I, m.keys(P), i)
        if name == 'as_dict':
            return I.new_map(m, dict)
    if name == '__eq__':
        return I.lift_bool(I.eq_term(o, arg(0)))
    raise Unsupported('%s.%s' % (o.cls.__name__, name))


def set_method(I, o, name, args, kwargs):
    from interp import SetVal, It
    P = I.P
    rec = I.rec(o)
    sv = rec.fields['set']
    if name == '__contains__':
        return contains(I, o, args[0])
    if name == '__len__':
        return length(I, o)
    if name == '__iter__':
        return It(o)
    if name == 'add':
        check_hashable(I, args[0])
        if not P.choose(I.lit(seq_contains(
                I, seq_items(sv.vals) + tuple(sv.segs), args[0]))):
            rec.fields['set'] = SetVal(sv.vals + (args[0],), sv.segs)
        return None
    if name == 'copy':
        return I.alloc(set, Rec({'set': sv}))
    if name == 'clear':
        rec.fields['set'] = SetVal()
        return None
    if name in ('remove', 'discard') and not sv.segs:
        for i, v in enumerate(sv.vals):
            if I.eq_choose(v, args[0]):
                rec.fields['set'] = SetVal(sv.vals[:i] + sv.vals[i + 1:])
                return None
        if name == 'remove':
            raise PyRaise(KeyError(args[0]))
        return None
    if name in ('update', 'union', '__ior__'):
        out = SetVal(sv.vals, sv.segs)
        for a in args:
            for s in to_segs(I, a):
                if isinstance(s, Items):
                    for v in s.vals:
                        if not P.choose(I.lit(seq_contains(
                                I, seq_items(out.vals) + tuple(out.segs), v))):
                            out = SetVal(out.vals + (v,), out.segs)
                else:
                    out = SetVal(out.vals, out.segs + (s,))
        if name == 'union':
            return I.alloc(set, Rec({'set': out}))
        rec.fields['set'] = out
        return None
    if name in ('intersection', 'difference', 'isdisjoint', 'issubset',
                'issuperset'):
        other = args[0]
        mine = seq_items(sv.vals) + tuple(sv.segs)
        osegs = to_segs(I, other)
        if name == 'issuperset':
            mine, osegs = osegs, mine
        if all(isinstance(s, Items) for s in mine):
            got = []
            for v in seq_explicit(mine):
                if P.choose(I.lit(seq_contains(I, osegs, v))):
                    if name == 'isdisjoint':
                        return False
                    if name == 'intersection':
                        got.append(v)
                else:
                    if name in ('issubset', 'issuperset'):
                        return False
                    if name == 'difference':
                        got.append(v)
            if name in ('isdisjoint', 'issubset', 'issuperset'):
                return True
            return I.alloc(set, Rec({'set': SetVal(got)}))
        if name in ('intersection', 'isdisjoint'):
            if all(isinstance(s, Items) for s in osegs):
                got = [v for v in seq_explicit(osegs)
                       if P.choose(I.lit(seq_contains(I, mine, v)))]
                if name == 'isdisjoint':
                    return not got
                return I.alloc(set, Rec({'set': SetVal(got)}))
            # both symbolic: search loop for a common member
            got = []

            def step(v):
                if P.choose(I.lit(seq_contains(I, osegs, v))):
                    raise BreakSig()
            try:
                I.iterate_segs(mine, step)
            except BreakSig:
                if name == 'isdisjoint':
                    return False
                return I.alloc(set, Rec({'set': SetVal([Poison('member')])}))
            if name == 'isdisjoint':
                return True
            return I.alloc(set, Rec({'set': SetVal()}))
    if name == 'difference':
        from intrinsics import _helper
        return I.call(set, [I.call(_helper(I, 'without'), [
            I.new_list(mine), I.new_list(osegs)])])
    raise Unsupported('set.%s' % name)


# ---------------------------------------------------------------------------
# strings

def to_str(I, v):
    if isinstance(v, Sym):
        v = I.resolve(v)
    if isinstance(v, str):
        return v
    if isinstance(v, (type(None), bool, int, float, type, bytes)):
        return str(v)
    if isinstance(v, Sym):
        s = v.t.sort()
        if s == Str:
            return v
        if s == Int:
            t = v.t
            return Sym(z3.If(t >= 0, z3.IntToStr(t), z3.Concat(
                z3.StringVal('-'), z3.IntToStr(-t))))
        if s == Bool:
            return Sym(z3.If(v.t, z3.StringVal('True'), z3.StringVal('False')))
    if isinstance(v, Obj):
        if getattr(v.cls, '__module__', '') == 'uuid':
            f = z3.Function('uuid_str', Int, Str)
            g = z3.Function('uuid_int', Str, Int)
            i = I.int_t(I.field(v, 'int'))
            I.P.add(g(f(i)) == i)
            I.P.add(z3.Length(f(i)) == 36)
            return Sym(f(i))
        for name in ('__str__', '__repr__'):
            f = I.type_lookup(v.cls, name)
            if isinstance(f, types.FunctionType) or isinstance(f, property):
                return I.call(I.bind(f, v, v.cls), [])
        f = z3.Function('str_of', Val, Str)
        I.P.exact = False
        return Sym(f(I.to_val(v)))
    if isinstance(v, BaseException):
        if len(v.args) == 1:
            if isinstance(v, KeyError):
                return I.call(repr, [v.args[0]])
            return to_str(I, v.args[0])
        if not v.args:
            return ''
    if isinstance(v, tuple):
        n = I.to_native(v)
        if n is not ABS():
            return str(n)
    if type(v).__module__ == 'builtins' or isinstance(v, (type,)):
        try:
            return str(v)
        except Exception as e:
            raise PyRaise(e)
    f = z3.Function('str_of', Val, Str)
    I.P.exact = False
    return Sym(f(I.to_val(v)))


def to_repr(I, v):
    if isinstance(v, Sym):
        v = I.resolve(v)
    n = I.to_native(v)
    if n is not ABS():
        return repr(n)
    if isinstance(v, Obj) and isinstance(I.rec(v), Rec):
        f = I.type_lookup(v.cls, '__repr__')
        if isinstance(f, types.FunctionType):
            return I.call(I.bind(f, v, v.cls), [])
    f = z3.Function('repr_of', Val, Str)
    if isinstance(v, Obj) or isinstance(v, Sym):
        I.P.exact = False
        t = f(I.to_val(v))
        return Sym(t)
    raise Unsupported('repr of %r' % (v,))


def fmt(I, s, args, kwargs):
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if spec:
            raise Unsupported('format spec')
        if field == '':
            field = auto
            auto += 1
        name = str(field)
        base = name.split('.')[0]
        attrs = name.split('.')[1:]
        if '[' in name or name.startswith('.'):
            raise Unsupported('format field')
        if base.isdigit():
            if int(base) >= len(args):
                raise PyRaise(IndexError('Replacement index out of range'))
            v = args[int(base)]
        else:
            if base not in kwargs:
                raise PyRaise(KeyError(base))
            v = kwargs[base]
        for a in attrs:
            v = I.getattr(v, a)
        if conv == 'r':
            parts.append(to_repr(I, v))
        else:
            parts.append(to_str(I, v))
    return I.concat(parts)


def str_method(I, s, name, args, kwargs):
    P = I.P
    args = [I.resolve(a) if isinstance(a, Sym) and a.t.sort() == Val else a
            for a in args]
    if name == 'format' and isinstance(s, str):
        return fmt(I, s, args, kwargs)
    if name == 'join' and I.is_strv(s):
        segs = to_segs(I, args[0])
        x = seq_explicit(segs)
        if x is None:
            return sym_join(I, s, segs)
        out = ''
        for i, p in enumerate(x):
            if isinstance(p, Sym):
                p = I.resolve(p)
            if not I.is_strv(p):
                raise PyRaise(TypeError('sequence item %d: expected str '
                                        'instance' % i))
            if i:
                out = I.str_add(out, s)
            out = I.str_add(out, p)
        return out
    nat = [I.to_native(a) for a in args]
    if isinstance(s, str) and all(n is not ABS() for n in nat) and not kwargs:
        try:
            return I.wrap(getattr(s, name)(*nat))
        except Exception as e:
            raise PyRaise(e)
    t = I.str_t(s)
    if name in ('startswith', 'endswith'):
        opts = args[0] if isinstance(args[0], tuple) else (args[0],)
        f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
        conds = []
        for a in opts:
            a = I.resolve(a) if isinstance(a, Sym) else a
            if not I.is_strv(a):
                raise PyRaise(TypeError('%s first arg must be str' % name))
            conds.append(f(I.str_t(a), t))
        return I.lift_bool(Or(*conds))
    if name == '__contains__':
        return contains(I, s, args[0])
    if name == '__len__':
        return length(I, s)
    if name == 'encode':
        return str_encode(I, s, *args, **kwargs)
    if name in ('removeprefix', 'removesuffix'):
        a = I.str_t(args[0])
        n, k = z3.Length(t), z3.Length(a)
        if name == 'removeprefix':
            return Sym(If(z3.PrefixOf(a, t), z3.SubString(t, k, n - k), t))
        return Sym(If(z3.SuffixOf(a, t), z3.SubString(t, z3.IntVal(0), n - k),
                      t))
    if name == 'replace' and len(args) == 3 and args[2] == 1:
        return Sym(z3.Replace(t, I.str_t(args[0]), I.str_t(args[1])))
    if name == 'find' and len(args) == 1:
        return Sym(z3.IndexOf(t, I.str_t(args[0]), z3.IntVal(0)))
    if name == '__eq__':
        return I.lift_bool(I.lit(I.eq_term(s, args[0])))
    if name == 'rfind' and len(args) == 1:
        return Sym(z3.LastIndexOf(t, I.str_t(args[0])))
    if name == 'split' and not kwargs and len(args) == 2 and \
            args[1] == 1 and I.is_strv(args[0]):
        name, args = 'split_once', args[:1]
    if name in ('partition', 'rpartition', 'split_once') and len(args) == 1:
        from intrinsics import _helper
        if not I.is_strv(args[0]):
            raise PyRaise(TypeError('must be str'))
        if not P.choose(z3.simplify(z3.Length(I.str_t(args[0])) > 0)):
            raise PyRaise(ValueError('empty separator'))
        return I.call(_helper(I, name), [s, args[0]])
    if name in ('strip', 'split', 'lstrip', 'rstrip'):
        r = P.api.str_split(s, name, args)
        if r is not None:
            return r
    raise Unsupported('str.%s' % name)


def sym_join(I, sep, segs):
    """The text which is, with the separator, the concatenation of all parts
    each followed by the separator."""
    from intrinsics import _helper
    P = I.P
    all_ = I.call(_helper(I, 'join_parts'), [sep, I.new_list(segs)])
    if isinstance(sep, str) and not sep:
        return all_
    if not P.choose(z3.simplify(IV(seq_len(segs)) > 0)):
        return ''
    P.exact = False
    res = P.fresh('joined', Str)
    P.add(z3.Concat(res, I.str_t(sep)) == I.str_t(all_))
    return Sym(res)


def str_encode(I, s, enc='utf-8', *a, **kw):
    if isinstance(enc, Sym):
        raise Unsupported('symbolic encoding')
    if isinstance(s, str):
        try:
            return s.encode(enc, *a, **kw)
        except Exception as e:
            raise PyRaise(e)
    if a or kw:
        raise Unsupported('encode errors argument')
    # the contract: texts are encodable in the given encoding
    return SBytes(s, norm_enc(enc))


def norm_enc(enc):
    import codecs
    try:
        return codecs.lookup(enc).name
    except LookupError as e:
        raise PyRaise(e)


def sbytes_decode(I, b, enc='utf-8', errors='strict'):
    if errors != 'strict':
        raise Unsupported('decode errors argument')
    if b.text is None:
        raise PyRaise(UnicodeDecodeError(norm_enc(enc), b'\xff', 0, 1,
                                         'invalid start byte'))
    if norm_enc(enc) != b.enc:
        raise Unsupported('decoding with other encoding')
    return b.text


def as_smap(I, m):
    """Explicit map as a symbolic one."""
    if not m.explicit:
        return m
    kv = [(I.to_val(k), I.to_val(v)) for k, v in m.entries]

    def val(q):
        r = NONE
        for k, v in kv:
            r = If(eqt(q, k), v, r)
        return r

    def idx(q):
        r = z3.IntVal(-1)
        for i, (k, v) in enumerate(kv):
            r = If(eqt(q, k), z3.IntVal(i), r)
        return r

    def at(i):
        r = NONE
        for j, (k, v) in enumerate(kv):
            r = If(eqt(IV(i), z3.IntVal(j)), k, r)
        return r
    return SMap(lambda q: Or(*[eqt(q, k) for k, v in kv]), val,
                z3.IntVal(len(kv)), at, idx, lambda P, k: None,
                lambda P, i: None)

