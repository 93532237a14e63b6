"""Loop rules: unbounded loops over symbolic sequences and parent chains.

The body is explored once for a generic iteration ``j`` from the state before
the loop.  Allowed effects of iterations which do not leave the loop:

- none (search loops),
- appending to lists (map and filter summaries),
- variables which are not read by later iterations,
- removing the iterated keys of a map one by one (closed form of the map
  contents at iteration ``j``, checked to be inductive).

Everything else is reported as unsupported.  After the loop either all
iterations fell through (universal fact over all indices) or the loop was left
at some iteration ``i`` and all iterations before fell through.
"""
import z3
from core import *          # noqa


def subst_term(t, j, x):
    return z3.substitute(t, (j, x))


def subst_value(I, v, j, x, snap_heap):
    if isinstance(v, Sym):
        t = subst_term(v.t, j, x)
        if t.sort() == Val:
            return I.from_val(t, v.spec)
        if t.sort() == Int:
            return I.lift_int(t)
        if t.sort() == Bool:
            return I.lift_bool(t)
        return I.lift_str(t)
    if isinstance(v, tuple):
        return tuple(subst_value(I, e, j, x, snap_heap) for e in v)
    if isinstance(v, SBytes):
        if v.text is None:
            raise Unsupported('undecodable bytes in loop')
        return SBytes(subst_value(I, v.text, j, x, snap_heap), v.enc)
    if isinstance(v, Obj):
        if v.oid in snap_heap:
            return v
        if v.origin is not None:
            return I.from_val(subst_term(v.origin, j, x))
        raise Unsupported('object allocated per loop iteration')
    if isinstance(v, (Poison, LastVal)):
        raise Unsupported('loop carried value')
    if isinstance(v, BaseException):
        raise Unsupported('exception value kept over loop')
    return v


def freeze(I, v, snap_heap):
    """Check that a value can be kept beyond its iteration."""
    if isinstance(v, Obj):
        if v.oid not in snap_heap and v.origin is None:
            raise Unsupported('object allocated per loop iteration')
    elif isinstance(v, tuple):
        for e in v:
            freeze(I, e, snap_heap)


def merge_values(I, pairs):
    """One value out of [(cond, value)], conditions are exhaustive."""
    vals = [v for c, v in pairs]
    first = vals[0]
    if all(v is first for v in vals[1:]):
        return first
    if all(isinstance(v, tuple) and len(v) == len(first) for v in vals) and \
            isinstance(first, tuple):
        return tuple(merge_values(I, [(c, v[i]) for c, v in pairs])
                     for i in range(len(first)))
    t = I.to_val(vals[-1])
    for c, v in reversed(pairs[:-1]):
        t = If(c, I.to_val(v), t)
    return I.from_val(t)


def same_value(I, a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.t.eq(b.t)
    if isinstance(a, (Sym, Obj)) or isinstance(b, (Sym, Obj)):
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.oid == b.oid
        try:
            return I.to_val(a).eq(I.to_val(b))
        except Unsupported:
            return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(I, x, y)
                                        for x, y in zip(a, b))
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False


def equal_value(I, a, b):
    """Equal scalar values or the same object on this path."""
    if a is MISSING or b is MISSING:
        return False
    try:
        return I.P.prove(eqt(I.to_val(a), I.to_val(b)))
    except Unsupported:
        return False


class ListChanged(Unsupported):
    """List changed in a loop other than by appending."""

    def __init__(self, oid):
        Unsupported.__init__(self, 'list modified in symbolic loop')
        self.oid = oid


class Effects(object):

    def __init__(self):
        # (cond, {oid: values}, {(env, name): value}, [(term, name, value)])
        self.falls = []
        self.elems = set()      # fields of elements (lazy objects) written
        self.flat = set()       # lists extended by sequences
        self.general = False    # facts of all iterations are needed
        self.escapes = 0
        self.lists = set()
        self.maps = set()
        self.fields = set()
        self.vars = {}          # (id(env), name) -> env
        self.reads = set()
        self.apart = False      # elements are different in each iteration


def untouched(I, o, name):
    """No former iteration writes the field of this element."""
    P = I.P
    j, eff, written = P.written
    ws = [(c, w) for nm, w, c in written if nm == name]
    if not ws or len(P.index_ctx) != 1:
        return False
    t = P.fresh('bt', Int)
    P.add_index(t)
    for r in list(P.heap.values()):
        m = getattr(r, 'm', None)
        if isinstance(m, SMap):
            m.touch_i(P, t)
    if not P.prove(z3.Implies(And(0 <= t, t < j), And(
            *[Not(And(subst_term(c, j, t), eqt(subst_term(w, j, t), o.origin)))
              for c, w in ws]))):
        return False
    eff.apart = True
    return True


def explore_body(I, j, rng, prepare, step, carried, maps=None, after=None,
                 stale=(), lists=None, written=()):
    """Explore a generic iteration; returns Effects.

    stale: fields of elements written by former iterations.
    written: which elements they write, (name, origin, condition) as terms of j."""
    P = I.P
    eff = Effects()
    old_stale = P.stale
    old_written = P.written
    layers = P.ghost.get('layers')
    old_reads = P.reads
    P.reads = eff.reads

    def thunk():
        P.index_ctx = P.index_ctx + (j,)
        P.add(rng)
        P.add_index(j)
        for env, name in carried.values():
            env.vars[name] = Poison(name)
        if maps:
            for oid, fn in maps.items():
                P.heap[oid].m = fn(j)
        if lists:
            for oid, fn in lists.items():
                P.heap[oid].segs = fn(j)
        P.stale = (tuple(old_stale[0]) + tuple(stale),
                   set(x for x in old_stale[1] if x[1] not in stale))
        P.written = (j, eff, tuple(w for w in written
                                   if w[0] not in old_stale[0]))
        prepare()
        step()

    def on_end(kind, payload, snap):
        if kind == 'escape':
            eff.escapes += 1
            return
        cond = And(*P.pc[snap['pc']:])
        appended = {}
        writes = []
        if P.ghost.get('layers') is not layers:
            raise Unsupported('fields of elements written in nested loop')
        for oid, old in snap['heap'].items():
            new = P.heap[oid]
            if isinstance(old, LRec):
                if new.segs is old.segs or new.segs == old.segs:
                    continue
                k = len(old.segs)
                if lists and oid in lists:
                    continue
                if new.segs[:k] != old.segs:
                    raise ListChanged(oid)
                vals = seq_explicit(new.segs[k:])
                if vals is None:
                    eff.flat.add(oid)
                    vals = new.segs[k:]
                else:
                    for v in vals:
                        freeze(I, v, snap['heap'])
                appended[oid] = vals
                eff.lists.add(oid)
            elif isinstance(old, MRec):
                if new.m is not old.m and not (maps and oid in maps):
                    eff.maps.add(oid)
                if maps and oid in maps and after is None:
                    raise Unsupported('map')
                if new.fields != old.fields:
                    raise Unsupported('field of container changed in loop')
            else:
                ob = P.ghost['objs'].get(oid)
                elem = ob is not None and ob.origin is not None
                for name, v in new.fields.items():
                    o = old.fields.get(name, old.loaded.get(
                        name, new.loaded.get(name, MISSING)))
                    if elem and name in stale:
                        if (oid, name) in P.stale[1]:
                            writes.append((ob.origin, name, v))
                    elif not same_value(I, o, v) and not (
                            elem and equal_value(I, o, v)):
                        if elem:
                            writes.append((ob.origin, name, v))
                        else:
                            eff.fields.add((oid, name))
        for oid, new in P.heap.items():
            if oid in snap['heap']:
                continue
            o = P.ghost['objs'].get(oid)
            if isinstance(new, Rec) and o is not None and \
                    o.origin is not None:
                for name, v in new.fields.items():
                    old = new.loaded.get(name, MISSING)
                    if name in stale and (oid, name) in P.stale[1] or not (
                            same_value(I, v, old) or
                            equal_value(I, v, old)):
                        writes.append((o.origin, name, v))
            if oid in P.lazy_init:
                cur = new.m if isinstance(new, MRec) else new.segs
                if cur is not P.lazy_init[oid]:
                    raise Unsupported('container of loop element changed')
        vs = {}
        for env, old in snap['envs']:
            for name, v in env.vars.items():
                if isinstance(v, (Poison,)):
                    continue
                if name not in old or not same_value(I, old[name], v):
                    eff.vars[(id(env), name)] = (env, name)
                    vs[(id(env), name)] = v
        if after is not None:
            after(P)
        for t, name, v in writes:
            if v is MISSING:
                raise Unsupported('field of loop element deleted')
            freeze(I, v, snap['heap'])
            eff.elems.add(name)
        eff.falls.append((cond, appended, vs, writes))

    try:
        P.explore_nested(thunk, on_end)
    finally:
        P.stale = old_stale
        P.written = old_written
        P.reads = old_reads
        if old_reads is not None:
            old_reads |= eff.reads
    bad = eff.lists & eff.reads
    if bad:
        raise Unsupported('list read and extended in symbolic loop')
    return eff


def drop_first(m, i):
    """Contents of map m without its first i keys."""
    dom, val, n, at, idx = m.dom, m.val, m.n, m.at, m.idx
    ti = m.touch_i
    return SMap(lambda q: And(dom(q), idx(q) >= i), val, n - i,
                lambda t: at(IV(t) + i), lambda q: idx(q) - i,
                m.touch_k, lambda P, t: ti(P, t + i))


class Probe(object):
    """Contents of a map changed in a loop, at the start of iteration j.

    What is there is not known (had), changes are recorded."""
    explicit = False

    def __init__(self, had=None, j=None, ops=(), asked=None, olds=None):
        self.had, self.j, self.ops = had, j, ops
        self.asked = [] if asked is None else asked
        self.olds = [] if olds is None else olds

    def op(self, *op):
        return Probe(self.had, self.j, self.ops + (op,), self.asked,
                     self.olds)

    def set(self, P, k, v):
        return self.op('set', P.to_val(k), v)

    def delete(self, P, k):
        return self.op('del', P.to_val(k))

    def update(self, m):
        return self.op('update', m)

    def find(self, P, kt):
        """Last change of the key by this iteration."""
        for op in reversed(self.ops):
            if op[0] == 'update':
                op[1].touch_k(P, kt)
                if P.choose(op[1].dom(kt)):
                    return op
            elif P.choose(eqt(op[1], kt)):
                return op
        return None

    def has(self, P, k):
        if self.had is None:
            raise Unsupported('map read and changed in symbolic loop')
        kt = P.to_val(k)
        op = self.find(P, kt)
        if op is not None:
            return op[0] != 'del'
        h = self.had(self.j, kt)
        self.asked.append((kt, h))
        return h

    def get(self, P, k):
        if self.had is None:
            raise Unsupported('map read and changed in symbolic loop')
        kt = P.to_val(k)
        op = self.find(P, kt)
        if op is None:
            old = P.fresh('old', Val)
            self.olds.append((kt, old))
            return P.from_val(old)
        return op[2] if op[0] == 'set' else P.from_val(op[1].val(kt))

    def changes(self, P):
        """All changes; removing a key which was not there changes nothing."""
        return tuple(('del', kt) for kt, h in self.asked
                     if P.lookup_known(h) is False) + self.ops

    def __getattr__(self, name):
        raise Unsupported('map read and changed in symbolic loop')


def fold_map(I, m0, n, kf, vf, src=None):
    """Contents after storing vf(i) under kf(i) for i = 0..n-1 in order.

    src: map which may have these keys in this order."""
    from containers import as_smap
    P = I.P
    n = IV(n)
    for f in P.ghost.get('folds', ()):
        if (f[0] is m0 or (m0.explicit and f[0].explicit and
                           m0.entries == f[0].entries)) and P.prove(
                               f[1] == n):
            t = P.fresh('ft', Int)
            c = z3.Implies(And(0 <= t, t < n), And(
                eqt(kf(t), f[2](t)), eqt(vf(t), f[3](t))))
            if P.prove(c):
                return f[4]
    P.exact = False
    if m0.explicit and len(m0.entries) < 3:
        # stored under the keys of another map, in its order
        seen = []
        p = len(m0.entries)
        for o in list(P.heap.values()):
            m = getattr(o, 'm', None)
            if m is None or m.explicit or any(m is x for x in seen):
                continue
            seen.append(m)
            t = P.fresh('ft', Int)
            if not P.prove(IV(m.n) == n + p):
                continue
            for i in range(p):
                m.touch_i(P, IV(i))
            m.touch_i(P, t + p)
            vs = [I.to_val(v) for k, v in m0.entries]
            if P.prove(And(z3.Implies(
                    And(0 <= t, t < n), eqt(kf(t), m.at(t + p))),
                    *[eqt(I.to_val(k), m.at(IV(i)))
                      for i, (k, v) in enumerate(m0.entries)])):
                def val(q, m=m):
                    i = m.idx(q)
                    out = vf(z3.simplify(i - p))
                    for x, v in enumerate(vs):
                        out = If(i == x, v, out)
                    return out
                return SMap(m.dom, val, m.n, m.at, m.idx, m.touch_k,
                            m.touch_i)
    base = as_smap(I, m0)
    if src is not None:
        m = merged_map(I, base, n, kf, vf, src)
        if m is not None:
            P.ghost['folds'] = P.ghost.get('folds', ()) + (
                (m0, n, kf, vf, m),)
            return m
    N = P.fresh('fn', Int)
    last = P.fresh_fn('last', Val, Int)
    first = P.fresh_fn('first', Val, Int)
    nat = P.fresh_fn('nat', Int, Val)
    nidx = P.fresh_fn('nidx', Val, Int)
    n0 = IV(base.n)
    P.add(And(n0 <= N, N <= n0 + n))

    def rule(t):
        k = kf(t)
        base.touch_k(P, k)
        return z3.Implies(And(0 <= t, t < n), And(
            last(k) >= t, 0 <= first(k), first(k) <= t))
    P.add_rule(rule)

    def dom(q):
        return Or(base.dom(q), last(q) >= 0)

    def val(q):
        return If(last(q) >= 0, vf(last(q)), base.val(q))

    def at(i):
        return If(IV(i) < n0, base.at(i), nat(IV(i)))

    def idx(q):
        return If(base.dom(q), base.idx(q), nidx(q))
    mid = ('fold', P.fresh_n.get('last!fn'))

    def touch_k(P, q):
        base.touch_k(P, q)
        key = (mid, 'k', q.get_id())
        if key in P.touched:
            return
        P.touched.add(key)
        w = last(q)
        P.add(And(-1 <= w, w < n))
        P.add(z3.Implies(w >= 0, eqt(kf(w), q)))
        P.add(z3.Implies(And(w >= 0, Not(base.dom(q))), And(
            n0 <= nidx(q), nidx(q) < N, eqt(nat(nidx(q)), q),
            0 <= first(q), first(q) <= w, eqt(kf(first(q)), q))))

    def touch_i(P, i):
        base.touch_i(P, i)
        i = IV(i)
        key = (mid, 'i', i.get_id())
        if key in P.touched:
            return
        P.touched.add(key)
        q = nat(i)
        base.touch_k(P, q)
        inr = And(n0 <= i, i < N)
        P.add(z3.Implies(inr, And(Not(base.dom(q)), last(q) >= 0,
                                  last(q) < n, eqt(kf(last(q)), q),
                                  eqt(nidx(q), i), eqt(kf(first(q)), q),
                                  0 <= first(q), first(q) <= last(q))))
        P.add(z3.Implies(And(inr, i + 1 < N),
                         first(q) < first(nat(i + 1))))
    m = SMap(dom, val, N, at, idx, touch_k, touch_i)
    P.ghost['folds'] = P.ghost.get('folds', ()) + (
        (m0, n, kf, vf, m),)
    return m


def merged_map(I, base, n, kf, vf, src):
    """Contents of base updated by a map with the keys of src."""
    P = I.P
    if src.explicit or not IV(src.n).eq(n):
        return None
    t = P.fresh('ft', Int)
    c = eqt(kf(t), src.at(t))
    if not is_true(c) and not P.prove(z3.Implies(And(0 <= t, t < n), c)):
        return None
    return merge(I, base, src, lambda q: vf(src.idx(q)))


def merge(I, base, src, vq):
    """Contents of base updated by vq(q) for all keys q of src."""
    P = I.P
    P.exact = False
    n = IV(src.n)
    N = P.fresh('fn', Int)
    nat = P.fresh_fn('nat', Int, Val)
    nidx = P.fresh_fn('nidx', Val, Int)
    n0 = IV(base.n)
    P.add(And(n0 <= N, N <= n0 + n))
    mid = ('merge', P.fresh_n.get('nat!fn'), P.index_ctx)

    def touch_k(P, q):
        base.touch_k(P, q)
        src.touch_k(P, q)
        key = (mid, 'k', q.get_id())
        if key in P.touched:
            return
        P.touched.add(key)
        i = nidx(q)
        P.add(z3.Implies(And(src.dom(q), Not(base.dom(q))), And(
            n0 <= i, i < N, eqt(nat(i), q))))

    def touch_i(P, i):
        i = IV(i)
        base.touch_i(P, i)
        key = (mid, 'i', i.get_id())
        if key in P.touched:
            return
        P.touched.add(key)
        q = nat(i)
        base.touch_k(P, q)
        src.touch_k(P, q)
        inr = And(n0 <= i, i < N)
        P.add(z3.Implies(inr, And(Not(base.dom(q)), src.dom(q),
                                  eqt(nidx(q), i))))
        P.add(z3.Implies(And(inr, i + 1 < N),
                         src.idx(q) < src.idx(nat(i + 1))))
    return SMap(lambda q: Or(base.dom(q), src.dom(q)),
                lambda q: If(src.dom(q), vq(q), base.val(q)), N,
                lambda i: If(IV(i) < n0, base.at(i), nat(IV(i))),
                lambda q: If(base.dom(q), base.idx(q), nidx(q)),
                touch_k, touch_i)


def map_equal_terms(P, a, b):
    """Conditions for pointwise equality of two symbolic maps."""
    k = P.fresh('sk', Val)
    t = P.fresh('si', Int)
    for m in (a, b):
        m.touch_k(P, k)
        m.touch_i(P, t)
    la, lb = IV(a.length(P)), IV(b.length(P))
    va, vb = a.val(k), b.val(k)
    return And(a.dom(k) == b.dom(k), z3.Implies(a.dom(k), eqt(va, vb)),
               la == lb,
               z3.Implies(And(0 <= t, t < la), eqt(a.at(t), b.at(t))),
               z3.Implies(a.dom(k), a.idx(k) == b.idx(k)))


def summarise(I, eff, j, upto, snap_heap, ftf):
    """Extend accumulators by the contribution of iterations 0..upto-1."""
    P = I.P
    for oid in sorted(eff.lists):
        rec = P.heap[oid]
        if oid in eff.flat:
            rec.segs = rec.segs + (flat_seg(
                I, upto, [(f[0], f[1].get(oid, ())) for f in eff.falls], j,
                snap_heap, ftf),)
            continue
        counts = set(len(f[1].get(oid, ())) for f in eff.falls)
        pairs = [(f[0], f[1][oid][0]) for f in eff.falls
                 if len(f[1].get(oid, ())) == 1]

        def value_at(t, pairs=pairs):
            ps = [(subst_term(c, j, t), subst_value(I, v, j, t, snap_heap))
                  for c, v in pairs]
            return merge_values(I, ps)
        if counts == {1}:
            def get(t, value_at=value_at):
                t = IV(t)
                P.add(z3.Implies(And(0 <= t, t < upto), ftf(t)))
                return value_at(t)
            rec.segs = rec.segs + (Seg(upto, get, src=('map', j, eff)),)
        elif counts <= {0, 1}:
            rec.segs = rec.segs + (filter_seg(
                I, upto, lambda t, c=[p[0] for p in pairs]: Or(
                    *[subst_term(x, j, t) for x in c]), value_at, ftf),)
        else:
            raise Unsupported('several elements appended per iteration')


def filter_seg(I, upto, sel, value_at, ftf):
    P = I.P
    P.exact = False
    for f in P.ghost.get('filters', ()):
        # same selection as before
        if P.prove(IV(upto) == f[0], 1000):
            t = P.fresh('ft', Int)
            if P.prove(z3.Implies(And(0 <= t, t < upto, ftf(t), f[2](t)),
                                  sel(t) == f[1](t)), 1000):
                cnt, src = f[3], f[4]

                def get(t):
                    t = IV(t)
                    P.add_index(t)
                    return value_at(src(t))
                return Seg(cnt, get, filt=(upto, sel, value_at, ftf))
    cnt = P.fresh('cnt', Int)
    src = P.fresh_fn('src', Int, Int)
    rank = P.fresh_fn('rank', Int, Int)
    P.add(And(0 <= cnt, cnt <= upto))

    def rule(t):
        s = src(t)
        k = rank(t)
        return And(
            z3.Implies(And(0 <= t, t < cnt),
                       And(0 <= s, s < upto, ftf(s), sel(s), rank(s) == t)),
            z3.Implies(And(0 <= t, t + 1 < cnt), s < src(t + 1)),
            z3.Implies(And(0 <= t, t < upto, sel(t)),
                       And(0 <= k, k < cnt, src(k) == t)))
    P.add_rule(rule)
    P.ghost['filters'] = P.ghost.get('filters', ()) + (
        (IV(upto), sel, ftf, cnt, src),)

    def get(t):
        t = IV(t)
        P.add_index(t)
        return value_at(src(t))
    return Seg(cnt, get, filt=(upto, sel, value_at, ftf))


def after_vars(I, eff, j, n, snap_heap, carried_old):
    """Values of variables assigned in the body after n iterations."""
    P = I.P
    for key, (env, name) in eff.vars.items():
        vals = [(f[0], f[2].get(key, None), key in f[2]) for f in eff.falls]
        old = carried_old.get(key, MISSING)

        def force(vals=vals, old=old, name=name):
            if not vals or not all(x[2] for x in vals):
                raise Unsupported('variable %s after symbolic loop' % name)
            if P.choose(n > 0):
                last = z3.simplify(n - 1)
                P.add_index(last)
                ps = [(subst_term(c, j, last),
                       subst_value(I, v, j, last, snap_heap))
                      for c, v, _ in vals]
                return merge_values(I, ps)
            if old is MISSING:
                return Poison('unbound')
            return old
        env.vars[name] = LastVal(force)


def loop(I, seg, step, peeled=0):
    P = I.P
    n = seg.n
    if isinstance(n, int) or z3.is_int_value(n):
        n = n if isinstance(n, int) else n.as_long()
        for i in range(n):
            step(seg.get(i))
        return
    P.exact = False
    P.add(n >= 0)
    if seg.base is not None and not peeled and slice_loop(I, seg, step):
        return
    j = P.fresh('j', Int)
    rng = And(0 <= j, j < n)

    def body():
        step(seg.get(j))

    key = ('loop', P.outer, tuple(P.decisions), P.seqno, P.nested)
    P.seqno += 1
    try:
        eff = explore_body(I, j, rng, lambda: None, body, {})
    except ListChanged as e:
        if e.oid not in P.heap:
            raise
        return shrink_loop(I, e.oid, seg, j, n, rng, body, step)
    if eff.fields:
        if peeled < 2:
            # state initialised by the first iteration
            if not P.choose(n > 0):
                return
            step(seg.get(z3.IntVal(0)))
            rest = seg.slice(1, z3.simplify(n - 1))
            for t in list(P.pool):
                P.add_index(z3.simplify(t - 1))
            return loop(I, rest, step, peeled + 1)
        raise Unsupported('field changed in symbolic loop: %s'
                          % sorted(x[1] for x in eff.fields))
    maps = {}
    carried = dict(eff.vars)
    if eff.maps or eff.elems:
        why = []
        for rule in (drop_loop, fold_loop, delta_loop):
            try:
                eff, maps, layers = rule(
                    I, seg, eff, j, n, rng, body, carried)
            except Unsupported as e:
                why.append(str(e))
                continue
            break
        else:
            raise Unsupported('; '.join(why))
        return finish(I, eff, j, n, maps, carried,
                      lambda i: step(seg.get(i)),
                      lambda i: And(0 <= i, i < n), layers=layers)
    elif carried:
        inv = {}
        try:
            eff2 = explore_body(I, j, rng, lambda: None, body, carried)
        except Unsupported as e:
            inv = chain_invariants(I, carried, j, n, rng, body) or \
                fold_vars(I, carried, j, n, rng, body, seg)
            if not inv:
                raise
            rest = {k: v for k, v in carried.items() if k not in inv}

            def prep():
                for (env, name), fn in inv.values():
                    env.vars[name] = fn(j)
            eff2 = explore_body(I, j, rng, prep, body, rest)
        eff2.vars.update(eff.vars)
        eff = eff2
        if inv:
            for key in inv:
                eff.vars.pop(key, None)
            return finish(
                I, eff, j, n, maps, carried, lambda i: step(seg.get(i)),
                lambda i: And(0 <= i, i < n), inv=inv)
    finish(I, eff, j, n, maps, carried,
           lambda i: step(seg.get(i)), lambda i: And(0 <= i, i < n))


def slice_loop(I, seg, step):
    """Search loop over a slice, facts are stated on the whole sequence."""
    P = I.P
    get, off = seg.base
    j = P.fresh('j', Int)
    end = z3.simplify(off + seg.n)
    mark = P.seqno
    eff = explore_body(I, j, And(off <= j, j < end), lambda: None,
                       lambda: step(get(j)), {})
    if eff.fields or eff.maps or eff.lists or eff.vars or eff.elems or \
            eff.flat:
        return False
    P.seqno += 1
    finish(I, eff, j, end, {}, {}, lambda i: step(get(i)),
           lambda i: And(off <= i, i < end), lo=off)
    return True


def chain_invariants(I, carried, j, n, rng, body):
    """Variables which follow a parent chain, up or down.

    Candidate v(i) = f(c + i) or f(c - i); kept if established and preserved
    by every iteration."""
    P = I.P
    cands = {}
    for key, (env, name) in carried.items():
        v = env.vars.get(name, MISSING)
        if not isinstance(v, (Sym, Obj)) and v is not None:
            continue
        try:
            t = I.to_val(v)
        except Unsupported:
            continue
        out = []
        for ch in P.chains:
            for c in (z3.IntVal(0), z3.IntVal(1), ch.d, ch.d - 1):
                c = z3.simplify(c)
                P.add_index(c)
                if P.prove(And(0 <= c, c <= ch.d, eqt(t, ch.f(c)))):
                    out.append((ch, c, 1))
                    out.append((ch, c, -1))
        if out:
            cands[key] = out
    # one variable with one candidate at a time
    for key, out in cands.items():
        env, name = carried[key]
        for ch, c, sign in out:
            def at(i, ch=ch, c=c, sign=sign):
                x = z3.simplify(c + IV(i) if sign > 0 else c - IV(i))
                P.add_index(x)
                return I.from_val(ch.f(x))
            ok = []

            def prep(at=at):
                env.vars[name] = at(j)

            def after(P, at=at):
                v = env.vars.get(name, MISSING)
                w = at(z3.simplify(j + 1))
                ok.append(not isinstance(v, (Poison, LastVal)) and
                          v is not MISSING and
                          P.prove(eqt(I.to_val(v), I.to_val(w))))
            rest = {k: v for k, v in carried.items() if k != key}
            try:
                eff = explore_body(I, j, rng, prep, body, rest, None, after)
            except Unsupported:
                continue
            if all(ok) and not eff.fields and not eff.maps and \
                    not eff.elems:
                return {key: ((env, name), at)}
    return {}


def fold_vars(I, carried, j, n, rng, body, seg):
    """Scalar variables computed from their value before: v(0), v(1), ...

    The values are a sequence f defined by recursion, f(i + 1) is the value
    the body computes from f(i) if iteration i falls through.  The sequence is
    remembered, so that later loops can be related to it."""
    P = I.P
    seqs = {}
    for key, (env, name) in carried.items():
        v = env.vars.get(name, MISSING)
        if v is MISSING or isinstance(v, (Poison, LastVal)):
            continue
        if I.is_strv(v) and not isinstance(v, PText):
            kind = Val.is_st
        elif isinstance(v, bool) or isinstance(v, Sym) and \
                v.t.sort() == Bool:
            kind = Val.is_boo
        elif isinstance(v, int) or isinstance(v, Sym) and v.t.sort() == Int:
            kind = Val.is_num
        else:
            continue
        seqs[key] = (P.fresh_fn('fold', Int, Val), kind, I.to_val(v))
    if not seqs:
        return {}
    rest = {k: v for k, v in carried.items() if k not in seqs}
    vals = []
    for f, kind, t0 in seqs.values():
        P.add_rule(lambda t, f=f, kind=kind: z3.Implies(
            And(0 <= t, t <= n), kind(f(t))))

    def value(f, kind, i):
        i = z3.simplify(IV(i))
        P.add_index(i)
        t = f(i)
        return Sym({Val.is_st: Val.s, Val.is_boo: Val.b,
                    Val.is_num: Val.i}[kind](t))

    def prep():
        for key, (f, kind, t0) in seqs.items():
            env, name = carried[key]
            env.vars[name] = value(f, kind, j)

    def after(P):
        row = {}
        for key, (f, kind, t0) in seqs.items():
            env, name = carried[key]
            v = env.vars.get(name, MISSING)
            if v is MISSING or isinstance(v, (Poison, LastVal)):
                raise Unsupported('loop carried value: ' + name)
            t = I.to_val(v)
            if not P.prove(kind(t)):
                raise Unsupported('loop carried value of several types')
            row[key] = t
        vals.append(row)
    try:
        eff = explore_body(I, j, rng, prep, body, rest, None, after)
    except Unsupported:
        return {}
    if eff.fields or eff.maps or eff.elems:
        return {}
    inv, new = {}, []
    P.ghost['newseqs'] = (seg, n, new)
    for key, (f, kind, t0) in seqs.items():
        P.add(eqt(f(z3.IntVal(0)), t0))

        def rule(t, f=f, key=key):
            return And(*[z3.Implies(
                And(0 <= t, t < n, subst_term(fall[0], j, t)),
                eqt(f(t + 1), subst_term(row[key], j, t)))
                for fall, row in zip(eff.falls, vals)])
        P.add_rule(rule)
        P.chains.append(Chain(f, n))
        new.append(f)
        inv[key] = (carried[key],
                    lambda i, f=f, kind=kind: value(f, kind, i))
    return inv


def same_fold(I, f, n, seg):
    """Relate a sequence defined by recursion to former ones: equal ones are
    proved to be equal by induction."""
    P = I.P
    t = None
    for g, m in P.ghost.get('seqs', ()):
        if not P.prove(And(IV(n) == IV(m), eqt(f(z3.IntVal(0)),
                                               g(z3.IntVal(0))))):
            continue
        if t is None:
            t = P.fresh('ft', Int)
            P.add_index(t)
            seg.get(t)
            P.add_index(z3.simplify(t + 1))
        if P.prove(z3.Implies(And(0 <= t, t < n, eqt(f(t), g(t))),
                              eqt(f(t + 1), g(t + 1)))):
            P.add_rule(lambda i, g=g: z3.Implies(
                And(0 <= i, i <= n), eqt(f(i), g(i))))
            break
    P.ghost['seqs'] = P.ghost.get('seqs', ()) + ((f, n),)


def drop_loop(I, seg, eff, j, n, rng, body, carried):
    """The iterated keys of a map are removed one by one."""
    P = I.P
    maps = {}
    if eff.elems:
        raise Unsupported('field of loop element written')
    for oid in eff.maps:
        m0 = P.heap[oid].m
        if not isinstance(m0, SMap) or not m0.n.eq(n):
            raise Unsupported('map changed in symbolic loop')
        maps[oid] = lambda i, m0=m0: drop_first(m0, i)
    ok = []

    def after(P):
        for oid, fn in maps.items():
            m = P.heap[oid].m
            if not isinstance(m, SMap) or not P.prove(
                    map_equal_terms(P, m, fn(j + 1))):
                ok.append(False)
    eff = explore_body(I, j, rng, lambda: None, body, carried, maps, after)
    if ok or eff.maps or eff.elems or eff.fields:
        raise Unsupported('no invariant for map changed in loop')
    return eff, {oid: (lambda i, fn=fn: EMap() if i is n else fn(i))
                 for oid, fn in maps.items()}, ()


def shrink_loop(I, oid, seg, j, n, rng, body, step):
    """The elements of a list are removed one by one from its end part."""
    P = I.P
    segs = P.heap[oid].segs
    if not segs or isinstance(segs[-1], Items) or not P.prove(
            IV(segs[-1].n) == n):
        raise Unsupported('list modified in symbolic loop')
    whole = segs[-1]

    def rest(i):
        if i is n:
            return segs[:-1]
        return segs[:-1] + (whole.slice(i, z3.simplify(n - IV(i))),)
    get, off = whole.base or (whole.get, IV(0))
    ok = []

    def after(P):
        new = [s for s in P.heap[oid].segs
               if isinstance(s, Items) or not P.prove(IV(s.n) == 0)]
        old = [s for s in segs[:-1]
               if isinstance(s, Items) or not P.prove(IV(s.n) == 0)]
        vals, last = seq_explicit(tuple(new)), None
        if vals is None:
            vals, last = seq_explicit(tuple(new[:-1])), new[-1]
        given = seq_explicit(tuple(old))
        if vals is None or given is None or len(vals) > len(given):
            ok.append(False)
        elif last is None:
            # nothing left after the last iteration
            ok.append(len(vals) == len(given) and P.prove(j + 1 == n) and
                      all(same_value(I, v, w) for v, w in zip(vals, given)))
        elif isinstance(last, Items) or last.base is None or \
                last.base[0] is not get:
            ok.append(False)
        else:
            # earlier equal elements may have been removed instead
            at = last.base[1]
            more = len(given) - len(vals)
            vals = list(vals) + [get(z3.simplify(at + i))
                                 for i in range(more)]
            ok.append(P.prove(And(
                at + more == off + j + 1, IV(last.n) - more == n - j - 1)) and
                all(same_value(I, v, w) or equal_value(I, v, w)
                    for v, w in zip(vals, given)))
    eff = explore_body(I, j, rng, lambda: None, body, {}, None, after,
                       lists={oid: rest})
    if eff.vars:
        # not read by later iterations
        eff2 = explore_body(I, j, rng, lambda: None, body, dict(eff.vars),
                            None, after, lists={oid: rest})
        eff2.vars.update(eff.vars)
        eff = eff2
    if not all(ok) or eff.maps or eff.elems or eff.fields:
        raise Unsupported('no invariant for list changed in loop')
    return finish(I, eff, j, n, {}, {}, lambda i: step(seg.get(i)),
                  lambda i: And(0 <= i, i < n), lists={oid: rest})


def fold_loop(I, seg, eff, j, n, rng, body, carried):
    """Maps stored to once per iteration, otherwise not used."""
    P = I.P
    names = tuple(sorted(eff.elems))
    oids = sorted(eff.maps)
    base = {oid: P.heap[oid].m for oid in oids}
    sets = {oid: [] for oid in oids}

    def after(P):
        for oid in oids:
            m = P.heap[oid].m
            if not isinstance(m, Probe) or len(m.ops) != 1 or \
                    m.ops[0][0] != 'set':
                raise Unsupported('map not stored to once per iteration')
            sets[oid].append(m.ops[0][1:])
    eff = explore_body(I, j, rng, lambda: None, body, carried,
                       {oid: (lambda i: Probe()) for oid in oids}, after,
                       names)
    if eff.maps or eff.fields or not eff.elems <= set(names) or \
            len(eff.falls) == 0:
        raise Unsupported('map changed in symbolic loop')
    snap_heap = set(P.heap)
    maps = {}
    src = keys_map(seg)
    for oid in oids:
        pairs = [(f[0], k, v) for f, (k, v) in zip(eff.falls, sets[oid])]
        for c, k, v in pairs:
            freeze(I, v, snap_heap)

        def kf(t, pairs=pairs):
            return I.to_val(merge_values(I, [
                (subst_term(c, j, t), I.from_val(subst_term(k, j, t)))
                for c, k, v in pairs]))

        def vf(t, pairs=pairs):
            return I.to_val(merge_values(I, [
                (subst_term(c, j, t), subst_value(I, v, j, t, snap_heap))
                for c, k, v in pairs]))
        maps[oid] = (lambda i, m0=base[oid], kf=kf, vf=vf:
                     fold_map(I, m0, i, kf, vf, src))
    return eff, maps, element_layers(I, names, eff, j, snap_heap)


def element_layers(I, names, eff, j, snap_heap):
    layers = []
    for name in names:
        rows = [(f[0], [(t, v) for t, nm, v in f[3] if nm == name])
                for f in eff.falls]
        layers.append((name, lambda i, rows=rows: field_layer(
            I, i, rows, j, snap_heap)))
    return layers


def keys_map(seg):
    """Map which is iterated."""
    if seg.src and seg.src[0] in ('keys', 'items', 'values') and \
            isinstance(seg.src[1], SMap):
        return seg.src[1]
    return None


def delta_loop(I, seg, eff, j, n, rng, body, carried):
    """Maps changed in several places by every iteration and fields of
    elements: what holds afterwards is decided by the last iteration which
    changed the key or the element."""
    P = I.P
    oids, names = set(eff.maps), set(eff.elems)
    hads = {}
    written = origins(eff)
    for x in range(3):
        for oid in sorted(oids):
            if oid not in hads:
                hads[oid] = P.fresh_fn('had', Int, Val, Bool)
        ops = {oid: [] for oid in oids}
        asks = {oid: [] for oid in oids}

        def after(P):
            for oid in oids:
                m = P.heap[oid].m
                if not isinstance(m, Probe):
                    raise Unsupported('map changed in symbolic loop')
                ops[oid].append(m.changes(P))
                asks[oid].append((m.asked, m.olds))
        eff = explore_body(
            I, j, rng, lambda: None, body, carried,
            {oid: (lambda i, h=hads[oid]: Probe(h, i)) for oid in oids},
            after, tuple(sorted(names)), written=written)
        if eff.fields:
            raise Unsupported('field changed in symbolic loop')
        more = [w for w in origins(eff)
                if not any(w[0] == v[0] and w[1].eq(v[1]) and
                           w[2].eq(v[2]) for v in written)]
        if eff.maps <= oids and eff.elems <= names and not (
                eff.apart and more):
            break
        written += more
        oids |= eff.maps
        names |= eff.elems
    else:
        raise Unsupported('map changed in symbolic loop')
    eff.general = True
    snap_heap = set(P.heap)
    src = keys_map(seg)
    maps = {}
    for oid in sorted(oids):
        rows = [(f[0], o) for f, o in zip(eff.falls, ops[oid])]
        for c, os in rows:
            for op in os:
                if op[0] == 'set':
                    freeze(I, op[2], snap_heap)
                elif op[0] == 'update' and op[1].family is None:
                    raise Unsupported('update in symbolic loop')
        ask = (hads[oid], [
            (f[0], kt, [x for y, x in olds if y.eq(kt)])
            for f, (asked, olds) in zip(eff.falls, asks[oid])
            for kt in unique([x[0] for x in asked + olds])])
        maps[oid] = (lambda i, m0=P.heap[oid].m, rows=rows, ask=ask:
                     delta_map(I, m0, i, rows, j, snap_heap, src, ask))
    return eff, maps, element_layers(I, sorted(names), eff, j, snap_heap)


def origins(eff):
    return [(nm, t, f[0]) for f in eff.falls for t, nm, v in f[3]]


def unique(terms):
    out = []
    for t in terms:
        if not any(t.eq(x) for x in out):
            out.append(t)
    return out


def delta_map(I, m0, n, rows, j, snap_heap, src, ask=(None, ())):
    """Contents of a map after n iterations, order is not specified.

    ask: what iterations found in it, keys they looked up and values."""
    from containers import as_smap
    P = I.P
    P.exact = False
    n = IV(n)
    base = as_smap(I, m0)
    last = P.fresh_fn('last', Val, Int)
    N = P.fresh('dn', Int)
    at = P.fresh_fn('dat', Int, Val)
    idx = P.fresh_fn('didx', Val, Int)
    P.add(N >= 0)
    mid = ('delta', P.fresh_n.get('last!fn'), P.index_ctx)
    cache = {}

    def rows_at(t):
        """[(condition, changes)] of iteration t."""
        key = t.get_id()
        if key not in cache or not cache[key][0].eq(t):
            out = []
            for c, ops in rows:
                os = []
                for op in ops:
                    if op[0] == 'update':
                        make, x = op[1].family
                        os.append(('update', make(subst_term(x, j, t))))
                    elif op[0] == 'del':
                        os.append(('del', subst_term(op[1], j, t)))
                    else:
                        os.append(('set', subst_term(op[1], j, t), I.to_val(
                            subst_value(I, op[2], j, t, snap_heap))))
                out.append((subst_term(c, j, t), os))
            cache[key] = (t, out)
        return cache[key][1]

    def touch_at(t, q):
        for c, ops in rows_at(t):
            for op in ops:
                if op[0] == 'update':
                    op[1].touch_k(P, q)

    def at_key(op, q):
        return op[1].dom(q) if op[0] == 'update' else eqt(op[1], q)

    def hit(t, q):
        return Or(*[And(c, Or(*[at_key(op, q) for op in ops]))
                    for c, ops in rows_at(t)])

    def present(t, q):
        out = z3.BoolVal(False)
        for c, ops in rows_at(t):
            p = z3.BoolVal(False)
            for op in ops:
                p = If(at_key(op, q), z3.BoolVal(op[0] != 'del'), p)
            out = If(c, p, out)
        return out

    def value(t, q):
        out = base.val(q)
        for c, ops in rows_at(t):
            v = base.val(q)
            for op in ops:
                if op[0] != 'del':
                    v = If(at_key(op, q), op[2] if op[0] == 'set' else
                           op[1].val(q), v)
            out = If(c, v, out)
        return out

    had, asks = ask
    if asks and not any(op[0] == 'update' for c, ops in rows for op in ops):
        before = P.fresh_fn('lastb', Int, Val, Int)

        def found(t):
            facts = []
            for c, kt, olds in asks:
                q = subst_term(kt, j, t)
                w = before(t, q)
                base.touch_k(P, q)
                if src is not None:
                    src.touch_k(P, q)
                    src.touch_i(P, w)
                facts += [-1 <= w, w < t, z3.Implies(w >= 0, hit(w, q)),
                          had(t, q) == If(w >= 0, present(w, q),
                                          base.dom(q))]
                facts += [z3.Implies(subst_term(c, j, t), eqt(
                    subst_term(x, j, t), If(w >= 0, value(w, q),
                                            base.val(q)))) for x in olds]
            return z3.Implies(And(0 <= t, t < n), And(*facts))
        P.add_rule(found)

    def dom(q):
        return If(last(q) >= 0, present(last(q), q), base.dom(q))

    def val(q):
        return If(last(q) >= 0, value(last(q), q), base.val(q))

    def touch_k(P, q):
        base.touch_k(P, q)
        key = (mid, 'k', q.get_id())
        if key in P.touched:
            return
        P.touched.add(key)
        w = last(q)
        P.add(And(-1 <= w, w < n))
        P.add(z3.Implies(w >= 0, hit(w, q)))
        touch_at(w, q)
        P.add_index(w)
        if src is not None:
            src.touch_k(P, q)
            P.add_index(src.idx(q))

        def rule(t):
            touch_at(t, q)
            return z3.Implies(And(0 <= t, t < n, hit(t, q)), w >= t)
        P.add_rule(rule)
        P.add(z3.Implies(dom(q), And(0 <= idx(q), idx(q) < N,
                                     eqt(at(idx(q)), q))))

    def touch_i(P, i):
        i = IV(i)
        key = (mid, 'i', i.get_id())
        if key in P.touched:
            return
        P.touched.add(key)
        q = at(i)
        touch_k(P, q)
        P.add(z3.Implies(And(0 <= i, i < N), And(dom(q), idx(q) == i)))
    return SMap(dom, val, N, at, idx, touch_k, touch_i)


def field_layer(I, n, rows, j, snap_heap):
    """Field of elements after n iterations: function of the object, returns
    ABSENT if not written."""
    P = I.P
    P.exact = False
    n = IV(n)
    last = P.fresh_fn('lastw', Val, Int)
    mid = ('layer', P.fresh_n.get('lastw!fn'), P.index_ctx)

    def rows_at(t, x):
        """[(condition, value)]: iteration t writes the object at x."""
        return [(And(subst_term(c, j, t), eqt(subst_term(y, j, t), x)), v)
                for c, ws in rows for y, v in ws]

    def hit(t, x):
        return Or(*[c for c, v in rows_at(t, x)])

    def read(o):
        from interp import ABSENT
        x = o.origin
        w = last(x)
        key = (mid, x.get_id())
        if key not in P.touched:
            P.touched.add(key)
            P.add(And(-1 <= w, w < n))
            P.add(z3.Implies(w >= 0, hit(w, x)))
            P.add_index(w)
            P.add_rule(lambda t: z3.Implies(
                And(0 <= t, t < n, hit(t, x)), w >= t))
        if not P.choose(w >= 0):
            return ABSENT
        return merge_values(I, [(c, subst_value(I, v, j, w, snap_heap))
                                for c, v in rows_at(w, x)])
    return read


def add_layers(I, layers, n):
    P = I.P
    for name, mk in layers:
        read = mk(n)
        P.ghost['layers'] = P.ghost.get('layers', ()) + ((name, read),)
        for oid, rec in list(P.heap.items()):
            o = P.ghost['objs'].get(oid)
            if isinstance(rec, Rec) and o is not None and \
                    o.origin is not None and name in rec.fields:
                from interp import ABSENT
                v = read(o)
                if v is not ABSENT:
                    P.heap[oid].fields[name] = v


def flat_seg(I, upto, rows, j, snap_heap, ftf):
    """Elements added by all iterations, number and order not specified."""
    P = I.P
    P.exact = False
    n = IV(upto)
    N = P.fresh('flat', Int)
    el = P.fresh_fn('el', Int, Val)
    own = P.fresh_fn('own', Int, Int)
    where = P.fresh_fn('where', Val, Int)
    pos = P.fresh_fn('pos', Val, Int)
    P.add(N >= 0)
    mid = ('flat', P.fresh_n.get('el!fn'), P.index_ctx)
    for c, segs in rows:
        for s in segs:
            if isinstance(s, Items):
                for v in s.vals:
                    freeze(I, v, snap_heap)
            elif not (s.src and s.src[0] == 'keys' and
                      getattr(s.src[1], 'family', None)):
                raise Unsupported('symbolic extension in symbolic loop')

    def hit(t, q):
        from containers import norm_key
        out = []
        for c, segs in rows:
            alt = []
            for s in segs:
                if isinstance(s, Items):
                    for v in s.vals:
                        alt.append(eqt(I.to_val(norm_key(I, subst_value(
                            I, v, j, t, snap_heap))), q))
                else:
                    make, x = s.src[1].family
                    m = make(subst_term(x, j, t))
                    m.touch_k(P, q)
                    alt.append(m.dom(q))
            out.append(And(subst_term(c, j, t), Or(*alt)))
        return Or(*out)

    def member(P, q):
        key = (mid, 'k', q.get_id())
        w = where(q)
        if key not in P.touched:
            P.touched.add(key)
            P.add(And(-1 <= w, w < n))
            P.add(z3.Implies(w >= 0, And(hit(w, q), 0 <= pos(q), pos(q) < N,
                                         eqt(el(pos(q)), q))))
            P.add_index(w)
            P.add_rule(lambda t: z3.Implies(
                And(0 <= t, t < n, hit(t, q)), w >= 0))
        return w >= 0

    def get(i):
        i = IV(i)
        P.add_index(i)
        q = el(i)
        member(P, q)
        o = own(i)
        P.add(z3.Implies(And(0 <= i, i < N), And(
            0 <= o, o < n, hit(o, q), where(q) >= 0)))
        return I.from_val(q)
    return Seg(N, get, member=member)


def finish(I, eff, j, n, maps, carried, step_at, range_at, inv={}, lo=0,
           layers=(), lists={}):
    P = I.P
    snap_heap = set(P.heap)
    carried_old = {k: env.vars.get(name, MISSING)
                   for k, (env, name) in eff.vars.items()}
    ft = Or(*[f[0] for f in eff.falls])

    def ftf(t):
        return subst_term(ft, j, t)
    opt = P.branch(2) if eff.escapes else 0
    if opt == 0:
        if eff.escapes or not eff.falls or eff.flat or eff.general:
            P.add_rule(lambda t: z3.Implies(And(lo <= t, t < n), ftf(t)))
        summarise(I, eff, j, n, snap_heap, ftf)
        for oid in maps:
            P.heap[oid].m = maps[oid](n)
        for oid, fn in lists.items():
            P.heap[oid].segs = fn(n)
        add_layers(I, layers, n)
        for (env, name), at in inv.values():
            env.vars[name] = at(n)
        if inv and P.ghost.get('newseqs'):
            seg, n1, new = P.ghost.pop('newseqs')
            for f in new:
                same_fold(I, f, n1, seg)
        after_vars(I, eff, j, n, snap_heap, carried_old)
        if not P.replaying() and not P.feasible():
            raise PathEnd()
        return
    # every iteration leaves the loop: it is the first one
    i = P.fresh('i', Int) if eff.falls else IV(lo)
    P.add(range_at(i))
    if eff.falls:
        P.add_rule(lambda t: z3.Implies(And(lo <= t, t < i), ftf(t)))
    P.add_index(i)
    summarise(I, eff, j, i, snap_heap, ftf)
    for oid, fn in maps.items():
        P.heap[oid].m = fn(i)
    for oid, fn in lists.items():
        P.heap[oid].segs = fn(i)
    add_layers(I, layers, i)
    after_vars(I, eff, j, i, snap_heap, carried_old)
    for (env, name), at in inv.values():
        env.vars[name] = at(i)
    step_at(i)
    raise PathEnd()


class Chain(object):
    """Sequence f(0), ..., f(d-1) of parents, f(d) is None."""
    def __init__(self, f, d):
        self.f = f
        self.d = d


def chain_loop(I, node, env):
    P = I.P
    found = None
    for ch in P.chains:
        decl = ch.f(z3.IntVal(0)).decl()
        for name, v in env.vars.items():
            if not isinstance(v, (Sym, Obj)):
                continue
            try:
                t = I.to_val(v)
            except Unsupported:
                continue
            if z3.is_app(t) and t.decl().eq(decl):
                c = z3.simplify(t.arg(0))
                if c.eq(z3.IntVal(0)) or P.prove(And(0 <= c, c <= ch.d)):
                    found = (ch, name, c)
    if found is None:
        return False
    ch, var, c0 = found
    if not c0.eq(z3.IntVal(0)) and P.prove(c0 >= ch.d - 1):
        return False                    # last element, no loop
    P.exact = False
    P.add_index(c0)
    d = z3.simplify(ch.d - c0)

    def f(i):
        return ch.f(z3.simplify(c0 + i))
    j = P.fresh('c', Int)

    def lift(i):
        P.add_index(z3.simplify(c0 + i))
        return I.from_val(f(i))

    def body(i, check):
        env.vars[var] = lift(i)
        if not I.truth(I.eval(node.test, env)):
            if check:
                raise PathEnd()         # exit is handled separately
            return False
        try:
            I.block(node.body, env)
        except ContinueSig:
            pass
        v = env.vars[var]
        if isinstance(v, (Poison, LastVal)) or not P.prove(
                eqt(I.to_val(v), f(i + 1))):
            raise Unsupported('while loop does not follow the chain')
        env.vars[var] = Poison(var)
        return True

    rng = And(0 <= j, j <= d)
    eff = explore_body(I, j, rng, lambda: None, lambda: body(j, True), {})
    if eff.fields or eff.maps or eff.elems:
        raise Unsupported('state changed in chain loop')
    carried = {k: v for k, v in eff.vars.items()}
    carried[(id(env), var)] = (env, var)
    eff2 = explore_body(I, j, rng, lambda: None, lambda: body(j, True), carried)
    eff2.vars.update(eff.vars)
    eff = eff2
    eff.vars.pop((id(env), var), None)
    snap_heap = set(P.heap)
    carried_old = {k: e.vars.get(nm, MISSING)
                   for k, (e, nm) in eff.vars.items()}
    ft = Or(*[x[0] for x in eff.falls])

    def ftf(t):
        return subst_term(ft, j, t)
    opt = P.branch(2) if eff.escapes else 0
    m = P.fresh('m', Int)
    P.add(And(0 <= m, m <= d))
    P.add_rule(lambda t: z3.Implies(And(0 <= t, t < m), ftf(t)))
    P.add_index(m)
    P.add_index(z3.simplify(m - 1))
    summarise(I, eff, j, m, snap_heap, ftf)
    if opt == 0:
        env.vars[var] = lift(m)
        after_vars(I, eff, j, m, snap_heap, carried_old)
        if I.truth(I.eval(node.test, env)):
            raise PathEnd()
        I.block(node.orelse, env)
        return True
    after_vars(I, eff, j, m, snap_heap, carried_old)
    body(m, False)
    raise PathEnd()
