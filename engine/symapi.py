"""Symbolic meaning of the contract language."""
import ast
import uuid
import types
import z3
from core import *          # noqa
import core
import vapi
from containers import (to_segs, seq_at, norm_key, length, seq_contains,
                        seq_slice, as_smap)
from intrinsics import TABLE, new_uuid
from interp import ABSENT, Interp, SetVal
from loops import Chain

ALL = ('none', 'bool', 'int', 'str', 'obj')


def kinds_of(kinds):
    out = []
    for k in kinds or ALL:
        if k == 'any':
            out.extend(ALL)
        elif k == 'key':
            out.extend(('none', 'int', 'str'))
        elif k == 'regular':
            out.extend(('none', 'int', 'plain'))
        elif isinstance(k, tuple):
            out.extend(kinds_of(k))
        else:
            out.append(k)
    return tuple(dict.fromkeys(out))


class SymApi(object):

    def __init__(self, P, I, bound):
        self.P = P
        self.I = I
        self.bound = bound
        P.api = self
        P.ghost['refclasses'] = (vapi.Opaque,)
        self.nobj = 0

    # -- terms -------------------------------------------------------------

    def kinds(self, kinds):
        kk = kinds_of(kinds)
        for k in kk:
            if isinstance(k, type):
                self.use_class(k)
        return kk

    def kind_term(self, t, kinds):
        conds = []
        for k in kinds:
            if isinstance(k, type):
                self.use_class(k)
                conds.append(And(Val.is_ref(t), Val.r(t) < 0, clsof(
                    Val.r(t)) == self.I.class_code(k)))
            elif k == 'raw':
                return z3.BoolVal(True)
            elif k == 'none':
                conds.append(Val.is_none(t))
            elif k == 'bool':
                conds.append(Val.is_boo(t))
            elif k == 'int':
                conds.append(Val.is_num(t))
            elif k == 'id':
                conds.append(And(Val.is_num(t), 0 <= Val.i(t),
                                 Val.i(t) < 2 ** 128))
            elif k == 'str':
                conds.append(Val.is_st(t))
            elif k == 'plain':
                x = z3.StringVal('__')
                conds.append(And(Val.is_st(t), Not(And(
                    z3.PrefixOf(x, Val.s(t)), z3.SuffixOf(x, Val.s(t))))))
            elif k == 'obj':
                conds.append(And(Val.is_ref(t), Val.r(t) < 0, clsof(
                    Val.r(t)) == self.I.class_code(vapi.Opaque)))
            else:
                raise Unsupported('kind %s' % (k,))
        return Or(*conds)

    def use_class(self, cls):
        rc = self.P.ghost['refclasses']
        if cls not in rc:
            self.P.ghost['refclasses'] = rc + (cls,)

    def shape(self, t, kinds):
        """Value of a Val term known to have one of the kinds."""
        if len(kinds) == 1:
            k = kinds[0]
            if k == 'none':
                return None
            if k == 'bool':
                return Sym(Val.b(t))
            if k in ('int', 'id'):
                return Sym(Val.i(t))
            if k in ('str', 'plain'):
                return Sym(Val.s(t))
        return Sym(t)

    # -- choices ---------------------------------------------------------------

    def note(self, fn):
        self.P.choices.append(fn)

    def eval_val(self, model, t):
        v = model.eval(t, model_completion=True)
        n = v.decl().name()
        if n == 'none':
            return None
        a = v.arg(0)
        if n == 'boo':
            return z3.is_true(a)
        if n == 'num':
            return a.as_long()
        if n == 'st':
            return str_native(a)
        return {'ref': a.as_long(),
                'truth': not z3.is_false(model.eval(truthy(a)))}

    # -- inputs ---------------------------------------------------------------

    def any_bool(self):
        t = self.P.fresh('b', Bool)
        self.note(lambda m: z3.is_true(m.eval(t, model_completion=True)))
        return Sym(t)

    def any_int(self, lo=None, hi=None):
        t = self.P.fresh('n', Int)
        if lo is not None:
            self.P.add(t >= lo)
        if hi is not None:
            self.P.add(t <= hi)
        self.note(lambda m: m.eval(t, model_completion=True).as_long())
        return Sym(t)

    def any_str(self):
        t = self.P.fresh('s', Str)
        self.note(lambda m: str_native(m.eval(t, model_completion=True)))
        return Sym(t)

    def any_key(self):
        return self.any_value('none', 'int', 'str')

    def any_value(self, *kinds):
        kinds = self.kinds(kinds)
        if len(kinds) == 1:
            k = kinds[0]
            if k == 'raw':
                return None
            if k == 'none':
                self.note(lambda m: None)
                return None
            if k == 'bool':
                return self.any_bool()
            if k == 'int':
                return self.any_int()
            if k == 'id':
                return self.any_int(0, 2 ** 128 - 1)
            if k == 'str':
                return self.any_str()
            if k == 'plain':
                s = self.any_str()
                self.P.add(self.kind_term(Val.st(s.t), kinds))
                return s
            if isinstance(k, type):
                return self.any_obj(k)
        classes = [k for k in kinds if isinstance(k, type)]
        if classes:
            # case distinction by class
            opts = [k for k in kinds if not isinstance(k, type)]
            n = self.P.branch(len(classes) + (1 if opts else 0))
            self.note(lambda m: n)
            if n < len(classes):
                return self.any_obj(classes[n])
            return self.any_value(*opts)
        t = self.P.fresh('v', Val)
        self.P.add(self.kind_term(t, kinds))
        self.note(lambda m: self.eval_val(m, t))
        return Sym(t)

    def any_bytes(self, enc, valid):
        from containers import norm_enc
        if valid is None:
            valid = not self.P.branch(2)
            self.note(lambda m: 0 if valid else 1)
        if valid:
            return SBytes(self.any_str(), norm_enc(enc))
        b = SBytes(None, norm_enc(enc))
        self.note(lambda m: None)
        return b

    def any_uuid(self):
        t = self.P.fresh('u', Int)
        self.P.add(And(0 <= t, t < 2 ** 128))
        self.P.ghost['uuids'] = self.P.ghost.get('uuids', ()) + (t,)
        self.note(lambda m: m.eval(t, model_completion=True).as_long())
        return new_uuid(self.I, t)

    def any_obj(self, cls):
        I, P = self.I, self.P
        self.use_class(cls)
        if self.bound is not None or not getattr(cls, '__fields__', None):
            o = I.new_obj(cls)
            P.ghost['gen'] = P.ghost.get('gen', ()) + (o,)
            for name, spec in getattr(cls, '__fields__', {}).items():
                kinds = spec if isinstance(spec, tuple) else (spec,)
                v = self.gen_field(kinds)
                I.rec(o).loaded[name] = v
            self.exclusive(cls, o)
            return o
        t = P.fresh('o', Val)
        P.add(self.kind_term(t, (cls,)))
        for x in list(P.ghost.get('objs', {}).values()):
            if x.origin is not None:
                P.add(Not(eqt(t, x.origin)))
        o = I.new_lazy(cls, t)
        self.note(lambda m: None)
        return o

    def exclusive(self, cls, o):
        """Ids of all objects of the class are different."""
        I, P = self.I, self.P
        if not getattr(cls, '__exclusive__', ()):
            return
        old = P.ghost.get('ids', ())
        new = []
        for name in cls.__exclusive__:
            spec = cls.__fields__[name]
            v = I.rec(o).loaded[name]
            if spec == 'uuid':
                new.append(I.field(v, 'int'))
            elif isinstance(spec, tuple) and spec[0] == 'map':
                new.extend(e[0] for e in I.m(v).entries)
        for i, x in enumerate(new):
            for y in old + tuple(new[:i]):
                P.assume(Not(I.lit(I.eq_term(x, y))))
        P.ghost['ids'] = old + tuple(new)

    def owner(self, cls, q):
        """The object of the class which has this id."""
        return z3.Function('owner_%s' % cls.__name__, Val, Val)(q)

    def gen_field(self, kinds):
        if kinds == ('uuid',):
            return self.any_uuid()
        if kinds[0] == 'map':
            return self.any_map(self.I.new_map(), kinds[1], kinds[2])
        return self.any_value(*kinds)

    def lazy_field(self, cls, name, spec, t, o):
        P = self.P
        kinds = spec if isinstance(spec, tuple) else (spec,)
        if kinds == ('uuid',):
            f = z3.Function('fld_%s_%s' % (cls.__name__, name), Val, Int)
            P.add(And(0 <= f(t), f(t) < 2 ** 128))
            if name in getattr(cls, '__exclusive__', ()):
                P.add(eqt(self.owner(cls, Val.num(f(t))), t))
            return new_uuid(self.I, f(t))
        if kinds[0] == 'map':
            m = self.I.new_map(self.map_of(cls, name, kinds, t))
            P.lazy_init[m.oid] = P.heap[m.oid].m
            return m
        kinds = self.kinds(kinds)
        f = z3.Function('fld_%s_%s' % (cls.__name__, name), Val, Val)
        P.add(self.kind_term(f(t), kinds))
        return self.shape(f(t), kinds)

    def map_of(self, cls, name, kinds, t):
        """Initial contents of a mapping field of the object at term t."""
        P = self.P
        P.exact = False
        kk, vk = [self.kinds(k if isinstance(k, tuple) else (k,))
                  for k in kinds[1:]]
        fs = [z3.Function('mf_%s_%s_%s' % (cls.__name__, name, h), *sig)
              for h, sig in (('n', (Val, Int)), ('dom', (Val, Val, Bool)),
                             ('val', (Val, Val, Val)), ('at', (Val, Int, Val)),
                             ('idx', (Val, Val, Int)))]

        def make(t):
            n, dom, val, at, idx = [
                (lambda *a, f=f: f(t, *a)) for f in fs]
            P.add(n() >= 0)
            extra = None
            if name in getattr(cls, '__exclusive__', ()):
                own = [z3.Function('fld_%s_%s' % (cls.__name__, nm), Val, Int)
                       for nm in cls.__exclusive__
                       if cls.__fields__[nm] == 'uuid']

                def extra(k, v, i):
                    return And(eqt(self.owner(cls, k), t), *[
                        Not(eqt(k, Val.num(f(t)))) for f in own])
            return self.base_map(n(), dom, val, at, idx, kk, vk, extra,
                                 ('mf', cls.__name__, name, t.get_id()),
                                 (make, t))
        return make(t)

    def pure(self, name, kinds, args):
        I, P = self.I, self.P
        kk = self.kinds(kinds if isinstance(kinds, tuple) else (kinds,))
        ts = [I.to_val(norm_key(I, a)) for a in args]
        f = z3.Function('pure_%s' % name, *([Val] * (len(ts) + 1)))
        t = f(*ts)
        P.add(self.kind_term(t, kk))
        self.P.choices.append((name, ts, self.pure_note(t, kk)))
        return self.shape(t, kk)

    def pure_note(self, t, kk):
        return lambda m: self.eval_val(m, t)

    def any_map(self, o, keys, vals, named=False):
        I, P = self.I, self.P
        if isinstance(o, Sym):
            o = I.resolve(o)
        if not I.is_map(o):
            raise Unsupported('any_map needs a mapping container')
        kk = self.kinds(keys if isinstance(keys, tuple) else (keys,))
        vk = self.kinds(vals if isinstance(vals, tuple) else (vals,))
        if self.bound is not None:
            n = P.branch(self.bound + 1)
            self.note(lambda m: n)
            ents = []
            for i in range(n):
                k = self.any_value(*kk)
                for k2, v2 in ents:
                    P.assume(Not(I.lit(I.eq_term(norm_key(I, k),
                                                 norm_key(I, k2)))))
                v = self.any_value(*vk)
                if named:
                    I.rec(v).loaded['__name__'] = k
                ents.append((norm_key(I, k), v))
            I.set_m(o, EMap(ents))
            return o
        P.exact = False
        self.note(lambda m: None)
        extra = None
        if named:
            def extra(k, v, i):
                return And(*[z3.Implies(
                    clsof(Val.r(v)) == I.class_code(c), eqt(z3.Function(
                        'fld_%s___name__' % c.__name__, Val, Val)(v), k))
                    for c in vk])
        I.set_m(o, self.sym_map(kk, vk, extra))
        return o

    def sym_map(self, kk, vk, extra=None):
        P = self.P
        n = P.fresh('len', Int)
        dom = P.fresh_fn('dom', Val, Bool)
        val = P.fresh_fn('val', Val, Val)
        at = P.fresh_fn('at', Int, Val)
        idx = P.fresh_fn('idx', Val, Int)
        P.add(n >= 0)
        return self.base_map(n, dom, val, at, idx, kk, vk, extra,
                             ('map', P.fresh_n.get('dom!fn')))

    def base_map(self, n, dom, val, at, idx, kk, vk, extra, mid, family=None):
        """Map given by functions, axioms are added for terms in use."""
        api = self

        def valfact(k):
            f = api.kind_term(val(k), vk)
            if extra is not None:
                f = And(f, extra(k, val(k), idx(k)))
            return f

        def touch_k(P, k):
            key = (mid, 'k', k.get_id())
            if key in P.touched:
                return
            P.touched.add(key)
            i = idx(k)
            P.add(z3.Implies(dom(k), And(
                0 <= i, i < n, at(i) == k, api.kind_term(k, kk),
                valfact(k))))

        def touch_i(P, i):
            key = (mid, 'i', i.get_id())
            if key in P.touched:
                return
            P.touched.add(key)
            k = at(i)
            P.add(z3.Implies(And(0 <= i, i < n), And(
                dom(k), idx(k) == i, api.kind_term(k, kk), valfact(k))))
        return SMap(dom, val, n, at, idx, touch_k, touch_i, family)

    def any_list(self, vals):
        I, P = self.I, self.P
        vk = self.kinds(vals if isinstance(vals, tuple) else (vals,))
        if self.bound is not None:
            n = P.branch(self.bound + 1)
            self.note(lambda m: n)
            return I.new_list(seq_items(self.any_value(*vk)
                                        for i in range(n)))
        P.exact = False
        self.note(lambda m: None)
        n = P.fresh('len', Int)
        P.add(n >= 0)
        at = P.fresh_fn('el', Int, Val)
        api = self

        def get(i):
            i = IV(i)
            t = at(i)
            P.add(z3.Implies(And(0 <= i, i < n), api.kind_term(t, vk)))
            return api.shape(t, vk)
        return I.new_list((Seg(n, get),))

    def any_chain(self, classes, low):
        I, P = self.I, self.P
        for c in classes:
            self.use_class(c)
        if self.bound is not None:
            n = low + P.branch(self.bound + 1)
            self.note(lambda m: n)
            out = []
            for i in range(n):
                b = P.branch(len(classes))
                self.note(lambda m, b=b: b)
                out.append(self.any_obj(classes[b]))
            for i, o in enumerate(out):
                ld = I.rec(o).loaded
                ld['__parent__'] = out[i + 1] if i + 1 < n else None
                if '__child__' in o.cls.__fields__:
                    ld['__child__'] = out[i - 1] if i else None
            return I.new_list(seq_items(out))
        P.exact = False
        self.note(lambda m: None)
        d = P.fresh('depth', Int)
        P.add(d >= low)
        f = P.fresh_fn('ch', Int, Val)
        pos = P.fresh_fn('chpos', Val, Int)
        P.add(eqt(f(d), NONE))

        def fld(c, name, t):
            return z3.Function('fld_%s_%s' % (c.__name__, name), Val, Val)(t)

        def rule(i):
            t = f(i)
            conds = [self.kind_term(t, tuple(classes)), eqt(pos(t), i)]
            for c in classes:
                is_c = clsof(Val.r(t)) == I.class_code(c)
                conds.append(z3.Implies(is_c, eqt(
                    fld(c, '__parent__', t), f(i + 1))))
                if '__child__' in c.__fields__:
                    conds.append(z3.Implies(is_c, If(
                        i > 0, eqt(fld(c, '__child__', t), f(i - 1)),
                        eqt(fld(c, '__child__', t), NONE))))
            return z3.Implies(And(0 <= i, i < d), And(*conds))
        P.add_rule(rule)
        P.add_index(z3.IntVal(0))
        P.add_index(z3.simplify(d - 1))
        P.chains.append(Chain(f, d))

        def get(i):
            P.add_index(i)
            return Sym(f(IV(i)))
        return I.new_list((Seg(d, get),))

    def any_path(self, names):
        I, P = self.I, self.P
        segs = to_segs(I, names)
        nos = z3.StringVal('/')

        def ok(v):
            v = I.resolve(v)
            if not I.is_strv(v):
                raise PathEnd()
            t = I.str_t(v)
            return And(t != z3.StringVal(''), Not(z3.Contains(t, nos)))
        x = seq_explicit(segs)
        if x is not None:
            for v in x:
                P.assume(ok(v))
        else:
            def rule(i):
                v = seq_at(I, segs, i)
                t = I.to_val(v)
                return z3.Implies(And(0 <= i, i < IV(seq_len(segs))), And(
                    Val.is_st(t), Val.s(t) != z3.StringVal(''),
                    Not(z3.Contains(Val.s(t), nos))))
            P.add_rule(rule)
        a, b = P.branch(3), P.branch(3)
        self.note(lambda m: a)
        self.note(lambda m: b)
        return PText(segs, a + b > 0)

    def any_pairs(self, keys, vals):
        I, P = self.I, self.P
        kk = self.kinds(keys if isinstance(keys, tuple) else (keys,))
        vk = self.kinds(vals if isinstance(vals, tuple) else (vals,))
        if self.bound is not None:
            n = P.branch(self.bound + 1)
            self.note(lambda m: n)
            return I.new_list(seq_items(
                (self.any_value(*kk), self.any_value(*vk))
                for i in range(n)))
        P.exact = False
        self.note(lambda m: None)
        n = P.fresh('len', Int)
        P.add(n >= 0)
        ka = P.fresh_fn('pk', Int, Val)
        va = P.fresh_fn('pv', Int, Val)
        api = self

        def get(i):
            i = IV(i)
            P.add(z3.Implies(And(0 <= i, i < n), And(
                api.kind_term(ka(i), kk), api.kind_term(va(i), vk))))
            return (api.shape(ka(i), kk), api.shape(va(i), vk))
        return I.new_list((Seg(n, get),))

    def branch(self, n):
        b = self.P.branch(n)
        self.note(lambda m: b)
        return b

    def pick(self, seq):
        I, P = self.I, self.P
        segs = to_segs(I, seq)
        n = seq_len(segs)
        i = P.fresh('p', Int)
        P.add(And(0 <= i, i < IV(n)))
        self.note(lambda m: m.eval(i, model_completion=True).as_long())
        if not P.replaying() and not P.feasible():
            raise PathEnd()
        P.add_index(i)
        return seq_at(I, segs, i)

    # -- conditions ------------------------------------------------------------

    def cond(self, v):
        if isinstance(v, Sym) and v.t.sort() == Bool:
            return v.t
        return self.I.truth(v)

    def assume(self, v):
        self.P.assume(self.cond(v))

    def ensure(self, label, v):
        self.P.check(label, self.cond(v))

    def cover(self, label):
        ex = self.P.ex
        if ex.covers.get(label):
            return
        ex.covers[label] = self.P.feasible() if not self.P.replaying() \
            else ex.covers.get(label, True)

    def same(self, a, b):
        I = self.I
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return I.lift_bool(And(*[I.lit(self.tl(self.same(x, y)))
                                     for x, y in zip(a, b)]))
        if isinstance(a, Obj) and isinstance(b, Obj) and \
                getattr(a.cls, '__module__', '') == 'uuid' and \
                getattr(b.cls, '__module__', '') == 'uuid':
            return I.lift_bool(I.lit(I.eq_term(a, b)))
        return I.lift_bool(I.lit(I.is_term(a, b)))

    def tl(self, v):
        return v.t if isinstance(v, Sym) else v

    # -- specification maps -------------------------------------------------------

    def content(self, o):
        I = self.I
        if isinstance(o, Sym):
            o = I.resolve(o)
        if not I.is_map(o):
            raise Unsupported('content of %r' % (o,))
        return vapi.MapSpec(I.m(o))

    def ensure_map(self, label, a, b):
        P, I = self.P, self.I
        a, b = a.m, b.m
        if a is b:
            P.check(label, True)
            return
        if a.explicit and b.explicit:
            if len(a.entries) != len(b.entries):
                P.check(label, False)
                return
            conds = []
            for x, y in zip(a.entries, b.entries):
                conds.append(I.lit(I.is_term(norm_key(I, x[0]),
                                             norm_key(I, y[0]))))
                conds.append(I.lit(self.tl(self.same(x[1], y[1]))))
            P.check(label, And(*conds))
            return
        sa, sb = self.as_smap(a), self.as_smap(b)
        la, lb = IV(sa.n), IV(sb.n)
        k = P.fresh('K', Val)
        i = P.fresh('X', Int)
        P.add_index(i)
        for m in (sa, sb):
            m.touch_i(P, i)
            m.touch_k(P, k)
        for m in (sa, sb):
            for o in (sa, sb):
                m.touch_k(P, o.at(i))
                m.touch_i(P, o.idx(k))
        P.check(label + ': length', la == lb)
        P.check(label + ': order', z3.Implies(
            And(0 <= i, i < la), eqt(sa.at(i), sb.at(i))))
        P.check(label + ': keys', sa.dom(k) == sb.dom(k))
        P.check(label + ': values', z3.Implies(
            sa.dom(k), eqt(sa.val(k), sb.val(k))))

    def as_smap(self, m):
        return as_smap(self.I, m)

    def ensure_seq(self, label, a, b):
        P, I = self.P, self.I
        sa, sb = to_segs(I, a), to_segs(I, b)
        xa, xb = seq_explicit(sa), seq_explicit(sb)
        if xa is not None and xb is not None:
            if len(xa) != len(xb):
                P.check(label, False)
                return
            P.check(label, And(*[I.lit(self.tl(self.same(x, y)))
                                 for x, y in zip(xa, xb)]))
            return
        la, lb = IV(seq_len(sa)), IV(seq_len(sb))
        # filter loops: equal length follows from equal selections
        if len(sa) == 1 and len(sb) == 1 and getattr(sa[0], 'filt', None) \
                and getattr(sb[0], 'filt', None):
            return self.ensure_filter_seq(label, sa[0], sb[0])
        P.check(label + ': length', la == lb)
        i = P.fresh('X', Int)
        P.add(And(0 <= i, i < la))
        P.add_index(i)
        if not P.replaying() and not P.feasible():
            return
        x = seq_at(I, sa, i)
        y = seq_at(I, sb, i)
        P.check(label + ': elements', I.lit(self.tl(self.same(x, y))))

    def ensure_filter_seq(self, label, a, b):
        """Two filters of sequences of the same length are equal if they
        select the same indices with the same values."""
        P, I = self.P, self.I
        na, sela, vala, fta = a.filt
        nb, selb, valb, ftb = b.filt
        P.check(label + ': source length', IV(na) == IV(nb))
        i = P.fresh('X', Int)
        P.add(And(0 <= i, i < IV(na)))
        P.add_index(i)
        P.add(fta(i))
        P.add(ftb(i))
        if not P.replaying() and not P.feasible():
            return
        P.check(label + ': selection', sela(i) == selb(i))
        P.add(sela(i))
        if not P.replaying() and not P.feasible():
            return
        P.check(label + ': elements', I.lit(self.tl(self.same(
            vala(i), valb(i)))))

    def ensure_all(self, label, seq, fn):
        P, I = self.P, self.I
        segs = to_segs(I, seq)
        x = seq_explicit(segs)
        if x is not None:
            for v in x:
                P.check(label, self.cond(I.call(fn, [v])))
            return
        i = P.fresh('X', Int)
        P.add(And(0 <= i, i < IV(seq_len(segs))))
        P.add_index(i)
        if not P.replaying() and not P.feasible():
            return
        P.check(label, self.cond(I.call(fn, [seq_at(I, segs, i)])))

    def ensure_untouched(self, label, *but):
        P, I = self.P, self.I
        if P.ghost.get('layers'):
            raise Unsupported('untouched objects after writing elements')
        but = [I.resolve(b) if isinstance(b, Sym) else b for b in but]
        but = [b.oid for b in but if isinstance(b, Obj)]
        for oid, rec in P.heap.items():
            o = P.ghost['objs'].get(oid)
            if not isinstance(rec, Rec) or o is None or oid in but:
                continue
            if o.origin is None and o not in P.ghost.get('gen', ()):
                continue
            for name, v in rec.fields.items():
                old = rec.loaded.get(name, MISSING)
                if old is MISSING and rec.lazy is not None:
                    old = rec.lazy(name)
                    if old is ABSENT:
                        old = MISSING
                if old is MISSING or v is MISSING:
                    P.check(label, old is v)
                else:
                    P.check(label, I.lit(self.tl(self.same(old, v))))
        P.check(label, True)

    # -- misc --------------------------------------------------------------------

    def in_thread(self, name, f, args):
        P, I = self.P, self.I
        old = P.thread
        P.thread = name
        try:
            try:
                return ('ok', I.call(f, list(args)))
            except PyRaise as e:
                return ('exc', e.exc)
        finally:
            P.thread = old

    def meanwhile(self, name, f, args):
        import vapi
        P = self.P
        r = self.in_thread(name, f, args)
        if r[0] == 'exc' and isinstance(r[1], vapi.WouldBlock):
            P.ghost['waiting'] = dict(P.ghost.get('waiting', {}),
                                      **{name: (f, args)})
            return ('blocked', None)
        P.ghost['done'] = dict(P.ghost.get('done', {}), **{name: r})
        return r

    def proceed(self, name):
        P = self.P
        w = dict(P.ghost.get('waiting', {}))
        if name not in w:
            return P.ghost['done'][name]
        f, args = w.pop(name)
        P.ghost['waiting'] = w
        return self.meanwhile(name, f, args)

    def sort_symbolic(self, segs, key, reverse):
        raise Unsupported('sort of symbolic sequence')

    def str_split(self, s, name, args):
        return None

    def lock_held(self, lock):
        return self.I.field(lock, 'count')


def _t(fn):
    def deco(h):
        TABLE[fn] = h
        return h
    return deco


for _n in ('any_bool', 'any_int', 'any_str', 'any_key', 'any_value',
           'any_uuid', 'any_obj', 'pick', 'assume', 'ensure', 'cover', 'same',
           'content', 'ensure_map', 'ensure_seq', 'ensure_all',
           'ensure_untouched', 'lock_held'):
    TABLE[getattr(vapi, _n)] = (
        lambda I, *a, _n=_n, **k: getattr(I.P.api, _n)(*a, **k))


@_t(vapi.any_map)
def _any_map(I, m, keys='str', vals='any', named=False):
    return I.P.api.any_map(m, keys, vals, named)


@_t(vapi.any_bytes)
def _any_bytes(I, enc='utf-8', valid=None):
    return I.P.api.any_bytes(enc, valid)


@_t(vapi.any_list)
def _any_list(I, vals='any'):
    return I.P.api.any_list(vals)


@_t(vapi.any_chain)
def _any_chain(I, classes, low=0):
    return I.P.api.any_chain(classes, low)


@_t(vapi.any_path)
def _any_path(I, names, slashes=True):
    return I.P.api.any_path(names)


@_t(vapi.pure)
def _pure(I, name, kinds, *args):
    return I.P.api.pure(name, kinds, args)


@_t(vapi.any_pairs)
def _any_pairs(I, keys='key', vals='any'):
    return I.P.api.any_pairs(keys, vals)


@_t(vapi.one_of)
def _one_of(I, *opts):
    return opts[I.P.api.branch(len(opts))]


@_t(vapi.upto)
def _upto(I, n):
    return I.P.api.branch(n + 1)


@_t(vapi.forget_module)
def _forget_module(I, name):
    vapi.forget_module(name)


@_t(vapi.printed)
def _printed(I, f, *args):
    P = I.P
    old = P.ghost.get('printed', ())
    P.ghost['printed'] = ()
    try:
        r = ('ok', I.call(f, list(args)))
    except PyRaise as e:
        r = ('exc', e.exc)
    text = ''
    for t in P.ghost['printed']:
        text = I.binop(ast.Add(), text, t)
    P.ghost['printed'] = old
    return r, text


@_t(vapi.in_thread)
def _in_thread(I, name, f, *args):
    return I.P.api.in_thread(name, f, args)


@_t(vapi.meanwhile)
def _meanwhile(I, name, f, *args):
    return I.P.api.meanwhile(name, f, args)


@_t(vapi.proceed)
def _proceed(I, name):
    return I.P.api.proceed(name)


@_t(vapi.current_thread)
def _current_thread(I):
    return I.P.thread


@_t(vapi.m_empty)
def _m_empty(I):
    return vapi.MapSpec(EMap())


@_t(vapi.m_has)
def _m_has(I, s, k):
    return I.lift_bool(s.m.has(I.P, norm_key(I, k)))


@_t(vapi.m_get)
def _m_get(I, s, k):
    k = norm_key(I, k)
    if not I.P.choose(s.m.has(I.P, k)):
        raise PyRaise(KeyError(k))
    return s.m.get(I.P, k)


@_t(vapi.m_put)
def _m_put(I, s, k, v):
    return vapi.MapSpec(s.m.set(I.P, norm_key(I, k), v))


@_t(vapi.m_update)
def _m_update(I, s, pairs):
    from loops import fold_map
    P, m = I.P, s.m
    for seg in to_segs(I, pairs):
        if isinstance(seg, Items):
            for k, v in seg.vals:
                m = m.set(P, norm_key(I, k), v)
            continue
        n = seg.n
        if isinstance(n, int) or z3.is_int_value(n):
            for i in range(n if isinstance(n, int) else n.as_long()):
                k, v = seg.get(i)
                m = m.set(P, norm_key(I, k), v)
            continue
        m = fold_map(I, m, n,
                     lambda i, g=seg.get: I.to_val(norm_key(I, g(i)[0])),
                     lambda i, g=seg.get: I.to_val(g(i)[1]))
    return vapi.MapSpec(m)


@_t(vapi.m_del)
def _m_del(I, s, k):
    k = norm_key(I, k)
    if not I.P.choose(s.m.has(I.P, k)):
        return s
    return vapi.MapSpec(s.m.delete(I.P, k))


@_t(vapi.m_ins)
def _m_ins(I, s, ref, k, v, after):
    return vapi.MapSpec(s.m.insert(I.P, norm_key(I, ref), norm_key(I, k), v,
                                   I.truth(after)))


@_t(vapi.m_swap)
def _m_swap(I, s, a, b):
    return vapi.MapSpec(s.m.swap(I.P, norm_key(I, a), norm_key(I, b)))


@_t(vapi.m_len)
def _m_len(I, s):
    return I.lift_int(s.m.length(I.P))


@_t(vapi.m_keys)
def _m_keys(I, s):
    return I.new_list(s.m.keys(I.P))


@_t(vapi.m_values)
def _m_values(I, s):
    return I.new_list(s.m.values(I.P))


@_t(vapi.m_items)
def _m_items(I, s):
    return I.new_list(s.m.items(I.P))


@_t(vapi.outside)
def _outside(I, why):
    raise Unsupported('outside: ' + why)


@_t(vapi.m_pos)
def _m_pos(I, s, k):
    k = norm_key(I, k)
    if not I.P.choose(s.m.has(I.P, k)):
        raise PyRaise(KeyError(k))
    i = s.m.pos(I.P, k)
    if not isinstance(i, int):
        I.P.add_index(i)
    return I.lift_int(i)


@_t(vapi.m_key_at)
def _m_key_at(I, s, i):
    return I.getitem(I.new_list(s.m.keys(I.P)), i)
