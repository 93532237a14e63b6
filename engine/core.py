"""Verification condition generation: paths, symbolic values, containers.

A *path* is one symbolic execution of a contract.  Paths are enumerated by
re-execution: a decision prefix is replayed, the first new decision with two
feasible outcomes forks.  All object and container state is explicit (heap of
records), so that loop bodies can be explored from a given state separately.
"""
import os
import shutil
import subprocess
import time
import z3

# ---------------------------------------------------------------------------
# sorts

_V = z3.Datatype('Val')
_V.declare('none')
_V.declare('boo', ('b', z3.BoolSort()))
_V.declare('num', ('i', z3.IntSort()))
_V.declare('st', ('s', z3.StringSort()))
_V.declare('ref', ('r', z3.IntSort()))
Val = _V.create()
Int, Str, Bool = z3.IntSort(), z3.StringSort(), z3.BoolSort()
NONE = Val.none
truthy = z3.Function('truthy', Int, z3.BoolSort())  # of opaque objects
clsof = z3.Function('clsof', Int, Int)          # class code of a reference

ARITH = {}


class Unsupported(Exception):
    """The code under contract leaves the supported fragment."""


class PathEnd(Exception):
    """Path is finished (infeasible, or covered by a loop rule)."""


class Budget(Exception):
    """Time or path budget of a contract exhausted."""


class PyRaise(Exception):
    """An exception raised by interpreted code."""
    def __init__(self, exc):
        self.exc = exc


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class ConsumerSig(Exception):
    """Signal of a generator consumer passing through the generator frame."""
    def __init__(self, sig, token):
        self.sig = sig
        self.token = token


class Sym(object):
    """A symbolic value: a z3 term of sort Bool, Int, String or Val."""
    __slots__ = ('t', 'spec')

    def __init__(self, t, spec=None):
        self.t = t
        self.spec = spec

    def __repr__(self):
        return 'Sym(%s)' % self.t

    def __hash__(self):
        raise Unsupported('native hash of symbolic value')

    def __eq__(self, other):
        return self is other


class Obj(object):
    """Handle of a heap object."""
    __slots__ = ('oid', 'cls', 'origin')

    def __init__(self, oid, cls, origin=None):
        self.oid = oid
        self.cls = cls
        self.origin = origin     # Val term this object was materialised from

    def __repr__(self):
        return '<%s #%s>' % (getattr(self.cls, '__name__', self.cls), self.oid)


class SBytes(object):
    """Symbolic bytes: encoding of text (valid) or undecodable bytes."""
    __slots__ = ('text', 'enc')

    def __init__(self, text, enc):
        self.text = text         # value of text, None if undecodable
        self.enc = enc

    def __repr__(self):
        return 'SBytes(%s)' % (self.text,)


class PText(object):
    """Non empty, slash free names joined by slashes, between slashes."""
    __slots__ = ('names', 'outer')

    def __init__(self, names, outer):
        self.names = names
        self.outer = outer


def is_true(t):
    return t is True or (not isinstance(t, bool) and z3.is_true(t))


def is_false(t):
    return t is False or (not isinstance(t, bool) and z3.is_false(t))


def And(*a):
    a = [x for x in a if not is_true(x)]
    for x in a:
        if is_false(x):
            return z3.BoolVal(False)
    if not a:
        return z3.BoolVal(True)
    return a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if not is_false(x)]
    for x in a:
        if is_true(x):
            return z3.BoolVal(True)
    if not a:
        return z3.BoolVal(False)
    return a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    if is_true(a):
        return z3.BoolVal(False)
    if is_false(a):
        return z3.BoolVal(True)
    return z3.Not(a)


def If(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def IV(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def eqt(a, b):
    """Equality of two z3 terms with constant folding."""
    if a.eq(b):
        return z3.BoolVal(True)
    if a.sort() == Val and b.sort() == Val and z3.is_app(a) and z3.is_app(b):
        da, db = a.decl(), b.decl()
        if da.kind() == z3.Z3_OP_DT_CONSTRUCTOR \
                and db.kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            if not da.eq(db):
                return z3.BoolVal(False)
            return And(*[eqt(a.arg(i), b.arg(i)) for i in range(a.num_args())])
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.BoolVal(a.as_long() == b.as_long())
    if z3.is_string_value(a) and z3.is_string_value(b):
        return z3.BoolVal(a.as_string() == b.as_string())
    return a == b


def str_literal(s):
    """z3 string literal for a Python string (escapes non ascii)."""
    if all(32 <= ord(c) < 127 and c != '\\' for c in s):
        return z3.StringVal(s)
    return z3.StringVal(''.join(
        c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c)
        for c in s))


def str_native(t):
    """Python string of a z3 string literal."""
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\x([0-9a-fA-F]{2})',
                  lambda m: chr(int(m.group(1) or m.group(2) or m.group(3), 16)),
                  t.as_string())


# ---------------------------------------------------------------------------
# sequences: immutable tuples of segments

class Items(object):
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def length(self):
        return len(self.vals)


class Seg(object):
    """Symbolic segment of ``n`` elements ``get(i)``.

    ``member(val term)`` and ``at_idx`` allow exact membership when elements
    come from map keys.  ``filt`` describes filter segments.
    """
    __slots__ = ('n', 'get', 'member', 'filt', 'src', 'base')

    def __init__(self, n, get, member=None, filt=None, src=None, base=None):
        self.n = n
        self.get = get
        self.base = base        # (get, offset) of a slice
        self.member = member
        self.filt = filt
        self.src = src

    def length(self):
        return self.n

    def slice(self, lo, n):
        """n elements from index lo on."""
        get, off = self.base or (self.get, IV(0))
        off = z3.simplify(off + lo)
        return Seg(n, lambda i: get(z3.simplify(IV(i) + off)),
                   base=(get, off))


def seq_items(vals):
    vals = tuple(vals)
    return (Items(vals),) if vals else ()


def seq_len(segs):
    n = 0
    for s in segs:
        ln = s.length()
        if isinstance(n, int) and isinstance(ln, int):
            n += ln
        else:
            n = IV(n) + IV(ln)
    return n


def seq_explicit(segs):
    """List of values if sequence is fully explicit else None."""
    res = []
    for s in segs:
        if not isinstance(s, Items):
            return None
        res.extend(s.vals)
    return res


# ---------------------------------------------------------------------------
# maps

class EMap(object):
    """Explicit ordered map; keys are pairwise distinct on the path."""
    __slots__ = ('entries',)
    explicit = True

    def __init__(self, entries=()):
        self.entries = tuple(entries)       # ((key value, value), ...)

    def _find(self, P, k):
        # syntactic hits first, avoids useless forks
        kt = P.to_val(k)
        conds = [eqt(P.to_val(e[0]), kt) for e in self.entries]
        for i, c in enumerate(conds):
            if is_true(c):
                return i
        for i, c in enumerate(conds):
            if not is_false(c) and P.choose(c):
                return i
        return None

    def has(self, P, k):
        kt = P.to_val(k)
        return Or(*[eqt(P.to_val(e[0]), kt) for e in self.entries])

    def get(self, P, k):
        i = self._find(P, k)
        if i is None:
            raise PathEnd()
        return self.entries[i][1]

    def set(self, P, k, v):
        i = self._find(P, k)
        if i is None:
            return EMap(self.entries + ((k, v),))
        return EMap(self.entries[:i] + ((self.entries[i][0], v),)
                    + self.entries[i + 1:])

    def delete(self, P, k):
        i = self._find(P, k)
        if i is None:
            raise PathEnd()
        return EMap(self.entries[:i] + self.entries[i + 1:])

    def length(self, P):
        return len(self.entries)

    def insert(self, P, ref, k, v, after):
        # k must be absent, ref present (trusted precondition of the contract)
        i = self._find(P, ref)
        if after:
            i += 1
        return EMap(self.entries[:i] + ((k, v),) + self.entries[i:])

    def swap(self, P, a, b):
        i, j = self._find(P, a), self._find(P, b)
        e = list(self.entries)
        e[i], e[j] = e[j], e[i]
        return EMap(e)

    def keys(self, P):
        return seq_items(e[0] for e in self.entries)

    def values(self, P):
        return seq_items(e[1] for e in self.entries)

    def items(self, P):
        return seq_items(tuple(e) for e in self.entries)

    def pos(self, P, k):
        return self._find(P, k)


class SMap(object):
    """Symbolic ordered map given by functions on terms.

    dom: Val->Bool, val: Val->python value, n: Int term, at: Int->Val term,
    idx: Val->Int term.  ``touch_k``/``touch_i`` add the defining axioms of
    the base functions for concrete terms.
    """
    __slots__ = ('dom', 'val', 'n', 'at', 'idx', 'touch_k', 'touch_i',
                 'family')
    explicit = False

    def __init__(self, dom, val, n, at, idx, touch_k, touch_i, family=None):
        self.family = family    # (make, term): map of an object by its term
        self.dom, self.val, self.n, self.at, self.idx = dom, val, n, at, idx
        self.touch_k, self.touch_i = touch_k, touch_i

    def has(self, P, k):
        kt = P.to_val(k)
        self.touch_k(P, kt)
        return self.dom(kt)

    def get(self, P, k):
        kt = P.to_val(k)
        self.touch_k(P, kt)
        return P.from_val(self.val(kt))

    def set(self, P, k, v):
        kt, vt = P.to_val(k), P.to_val(v)
        self.touch_k(P, kt)
        dom, val, n, at, idx = self.dom, self.val, self.n, self.at, self.idx
        if P.choose(dom(kt)):
            return SMap(dom, lambda q: If(eqt(q, kt), vt, val(q)), n, at, idx,
                        self.touch_k, self.touch_i)
        return SMap(lambda q: Or(eqt(q, kt), dom(q)),
                    lambda q: If(eqt(q, kt), vt, val(q)),
                    z3.simplify(n + 1),
                    lambda i: If(eqt(IV(i), n), kt, at(i)),
                    lambda q: If(eqt(q, kt), n, idx(q)),
                    self.touch_k, self.touch_i)

    def delete(self, P, k):
        kt = P.to_val(k)
        self.touch_k(P, kt)
        dom, val, n, at, idx = self.dom, self.val, self.n, self.at, self.idx
        p = idx(kt)
        base_ti = self.touch_i

        def touch_i(P, i):
            base_ti(P, i)
            base_ti(P, i + 1)
        return SMap(lambda q: And(Not(eqt(q, kt)), dom(q)), val,
                    z3.simplify(n - 1),
                    lambda i: If(IV(i) < p, at(i), at(IV(i) + 1)),
                    lambda q: If(idx(q) < p, idx(q), idx(q) - 1),
                    self.touch_k, touch_i)

    def length(self, P):
        return self.n

    def insert(self, P, ref, k, v, after):
        rt, kt, vt = P.to_val(ref), P.to_val(k), P.to_val(v)
        self.touch_k(P, rt)
        self.touch_k(P, kt)
        dom, val, n, at, idx = self.dom, self.val, self.n, self.at, self.idx
        p = idx(rt) + 1 if after else idx(rt)
        base_ti = self.touch_i

        def touch_i(P, i):
            base_ti(P, i)
            base_ti(P, i - 1)
        return SMap(lambda q: Or(eqt(q, kt), dom(q)),
                    lambda q: If(eqt(q, kt), vt, val(q)),
                    z3.simplify(n + 1),
                    lambda i: If(IV(i) < p, at(i),
                                 If(eqt(IV(i), p), kt, at(IV(i) - 1))),
                    lambda q: If(eqt(q, kt), p,
                                 If(idx(q) < p, idx(q), idx(q) + 1)),
                    self.touch_k, touch_i)

    def swap(self, P, a, b):
        ta, tb = P.to_val(a), P.to_val(b)
        self.touch_k(P, ta)
        self.touch_k(P, tb)
        at, idx = self.at, self.idx
        return SMap(self.dom, self.val, self.n,
                    lambda i: If(eqt(IV(i), idx(ta)), tb,
                                 If(eqt(IV(i), idx(tb)), ta, at(i))),
                    lambda q: If(eqt(q, ta), idx(tb),
                                 If(eqt(q, tb), idx(ta), idx(q))),
                    self.touch_k, self.touch_i)

    def _seg(self, P, mk):
        def get(i, self=self, P=P):
            i = IV(i)
            self.touch_i(P, i)
            k = self.at(i)
            self.touch_k(P, k)
            return mk(k)
        return get

    def keys(self, P):
        m = self

        def member(P, kt):
            m.touch_k(P, kt)
            return m.dom(kt)
        return (Seg(self.n, self._seg(P, lambda k: P.from_val(k)),
                    member=member, src=('keys', self)),)

    def values(self, P):
        return (Seg(self.n, self._seg(P, lambda k: P.from_val(self.val(k))),
                    src=('values', self)),)

    def items(self, P):
        return (Seg(self.n, self._seg(
            P, lambda k: (P.from_val(k), P.from_val(self.val(k)))),
            src=('items', self)),)

    def pos(self, P, k):
        kt = P.to_val(k)
        self.touch_k(P, kt)
        return self.idx(kt)


# ---------------------------------------------------------------------------
# heap records

class Rec(object):
    """Fields of an instance."""
    __slots__ = ('fields', 'lazy', 'native', 'loaded')

    def __init__(self, fields=None, lazy=None, native=None, loaded=None):
        self.fields = dict(fields or {})    # written values
        self.loaded = dict(loaded or {})    # initial values read so far
        self.lazy = lazy            # callable(name) -> value or ABSENT
        self.native = native        # imported native instance

    def copy(self):
        return Rec(self.fields, self.lazy, self.native, self.loaded)


class LRec(object):
    """list / tuple like record."""
    __slots__ = ('segs',)

    def __init__(self, segs=()):
        self.segs = segs

    def copy(self):
        return LRec(self.segs)


class MRec(object):
    """dict / odict record."""
    __slots__ = ('m', 'fields')

    def __init__(self, m, fields=None):
        self.m = m
        self.fields = fields

    def copy(self):
        return MRec(self.m, dict(self.fields) if self.fields else self.fields)


MISSING = object()


class Env(object):
    """Variables of a frame."""
    __slots__ = ('vars', 'parent', 'globals', 'cells', 'nonlocals', 'globs',
                 'assigned', 'locals_', 'first')

    def __init__(self, vars, parent=None, globs=None, cells=None, locals_=None):
        self.vars = vars
        self.parent = parent
        self.globs = globs
        self.cells = cells          # native closure cells: name -> value
        self.nonlocals = ()
        self.assigned = None
        self.locals_ = locals_
        self.first = None


class Poison(object):
    def __init__(self, why):
        self.why = why


class LastVal(object):
    """Value of a variable after a symbolic loop, computed when read."""
    def __init__(self, force):
        self.force = force


class Obligation(object):
    def __init__(self, label, status, solver, secs, model=None, exact=False,
                 detail=''):
        self.label = label
        self.status = status        # proved / refuted / unknown
        self.solver = solver
        self.secs = secs
        self.model = model
        self.exact = exact
        self.detail = detail


class Path(object):

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = list(prefix)
        self.decisions = []
        self.pc = []
        self.known = {}
        self.rules = []             # [(domain guard fn, fn)] universal facts
        self.rule_done = set()
        self.pool = []              # interesting integer terms
        self.pool_ids = set()
        self.heap = {}
        self.nextid = 1
        self.harness_id = -1
        self.fresh_n = {}
        self.index_ctx = ()
        self.frames = []
        self.natives = {}           # id(native mutable) -> (native, Obj)
        self.interned = {}
        self.materialised = []      # [(Obj)] aliasing candidates
        self.choices = []           # recorded contract choices (label, ...)
        self.reads = None
        self.stale = ((), set())    # fields of elements in loops
        self.written = None
        self.touched = set()
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.feas_ms)
        self.exact = True
        self.nested = 0
        self.steps = 0
        self.seqno = 0
        self.chains = []
        self.loop_base = None
        self.outer = ()
        self.thread = 'main'
        self.thread_locals = {}
        self.ghost = {}
        self.lazy_init = {}         # oid -> initial map/list of lazy fields

    # -- symbols ----------------------------------------------------------

    def fresh(self, hint, sort):
        k = hint + '!' + sort.name()
        n = self.fresh_n.get(k, 0)
        self.fresh_n[k] = n + 1
        name = '%s!%d' % (hint, n) if n else hint
        name += {'Int': '', 'Bool': '?', 'String': '$', 'Val': '*'}[sort.name()]
        if self.index_ctx:
            f = z3.Function('f_' + name, *([Int] * len(self.index_ctx)), sort)
            return f(*self.index_ctx)
        return z3.Const(name, sort)

    def fresh_fn(self, hint, *sorts):
        k = hint + '!fn'
        n = self.fresh_n.get(k, 0)
        self.fresh_n[k] = n + 1
        name = '%s!%d' % (hint, n) if n else hint
        if self.index_ctx:
            ctx = self.index_ctx
            f = z3.Function('fn_' + name, *([Int] * len(ctx)), *sorts)
            return lambda *a: f(*(ctx + a))
        return z3.Function(name, *sorts)

    # -- path condition ---------------------------------------------------

    def add(self, t):
        """Add a fact."""
        if is_true(t):
            return
        h = t.get_id()
        if h in self.known and self.known[h][0].eq(t) and self.known[h][1]:
            return
        self.pc.append(t)
        self.known[h] = (t, True)
        self.solver.add(t)

    def assume(self, t):
        if isinstance(t, bool):
            if not t:
                raise PathEnd()
            return
        if is_false(t):
            raise PathEnd()
        self.add(t)
        if not self.replaying() and not self.feasible():
            raise PathEnd()

    def replaying(self):
        return len(self.decisions) < len(self.prefix)

    def feasible(self, t=None):
        self.ex.tick()
        t0 = time.time()
        r = self.solver.check() if t is None else self.solver.check(t)
        self.ex.stats['feas_s'] += time.time() - t0
        self.ex.stats['feas_n'] += 1
        return r != z3.unsat

    def lookup_known(self, t):
        h = t.get_id()
        if h in self.known and self.known[h][0].eq(t):
            return self.known[h][1]
        if z3.is_not(t):
            r = self.lookup_known(t.arg(0))
            return None if r is None else not r
        return None

    def choose(self, t):
        """Decide the truth of a condition on this path."""
        if isinstance(t, bool):
            return t
        if is_true(t):
            return True
        if is_false(t):
            return False
        k = self.lookup_known(t)
        if k is not None:
            return k
        s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if len(self.decisions) < len(self.prefix):
            d = self.prefix[len(self.decisions)]
        else:
            tf = self.feasible(t)
            ff = self.feasible(z3.Not(t)) if tf else True
            if tf and ff:
                self.ex.push(self.decisions + [False])
                d = True
            else:
                d = tf
        self.decisions.append(d)
        # negative facts too
        if d:
            self.add(t)
        else:
            self.add(z3.Not(t))
            self.known[t.get_id()] = (t, False)
        return d

    def branch(self, n, label=None):
        """Nondeterministic choice of 0..n-1."""
        if n == 1:
            return 0
        if len(self.decisions) < len(self.prefix):
            d = self.prefix[len(self.decisions)]
        else:
            for i in range(n - 1, 0, -1):
                self.ex.push(self.decisions + [i])
            d = 0
        self.decisions.append(d)
        return d

    # -- rules ------------------------------------------------------------

    def add_rule(self, fn):
        """Universal fact: fn(t) holds for every integer term t."""
        self.exact = False
        self.rules.append(fn)
        for t in list(self.pool):
            self._inst(len(self.rules) - 1, t)

    def _inst(self, ri, t):
        key = (ri, t.get_id())
        if key in self.rule_done:
            return
        self.rule_done.add(key)
        self.add(self.rules[ri](t))

    def add_index(self, t):
        t = IV(t)
        if t.get_id() in self.pool_ids:
            return
        self.pool_ids.add(t.get_id())
        self.pool.append(t)
        for ri in range(len(self.rules)):
            self._inst(ri, t)

    # -- nested exploration -------------------------------------------------

    def snapshot(self):
        return {
            'heap': {k: v.copy() for k, v in self.heap.items()},
            'nextid': self.nextid, 'pc': len(self.pc),
            'known': dict(self.known), 'rules': len(self.rules),
            'rule_done': set(self.rule_done), 'pool': len(self.pool),
            'fresh_n': dict(self.fresh_n),
            'natives': dict(self.natives), 'interned': dict(self.interned),
            'materialised': list(self.materialised),
            'choices': len(self.choices), 'touched': set(self.touched),
            'envs': [(f, dict(f.vars)) for f in self.frames],
            'frames': list(self.frames),
            'decisions': self.decisions, 'prefix': self.prefix,
            'exact': self.exact, 'seqno': self.seqno,
            'chains': len(self.chains), 'harness_id': self.harness_id,
            'ghost': dict(self.ghost), 'index_ctx': self.index_ctx,
            'lazy_init': dict(self.lazy_init),
        }

    def restore(self, s):
        self.heap = {k: v.copy() for k, v in s['heap'].items()}
        self.nextid = s['nextid']
        del self.pc[s['pc']:]
        self.known = dict(s['known'])
        del self.rules[s['rules']:]
        self.rule_done = set(s['rule_done'])
        for t in self.pool[s['pool']:]:
            self.pool_ids.discard(t.get_id())
        del self.pool[s['pool']:]
        self.fresh_n = dict(s['fresh_n'])
        self.natives = dict(s['natives'])
        self.interned = dict(s['interned'])
        self.materialised = list(s['materialised'])
        del self.choices[s['choices']:]
        self.touched = set(s['touched'])
        self.frames[:] = s['frames']
        for f, v in s['envs']:
            f.vars.clear()
            f.vars.update(v)
        self.decisions = s['decisions']
        self.prefix = s['prefix']
        self.exact = s['exact']
        self.seqno = s['seqno']
        del self.chains[s['chains']:]
        self.harness_id = s['harness_id']
        self.ghost = dict(s['ghost'])
        self.index_ctx = s['index_ctx']
        self.lazy_init = dict(s['lazy_init'])

    def explore_nested(self, thunk, on_end):
        """Run thunk on all its paths from the current state.

        on_end(kind, payload, base) is called in the end state of each path,
        kind in ('fall', 'escape').  State is restored afterwards.
        """
        snap = self.snapshot()
        outer_push = self.ex.push
        work = [[]]
        self.nested += 1
        outer = self.outer
        self.outer = outer + (tuple(self.decisions), self.seqno)
        try:
            while work:
                prefix = work.pop()
                self.prefix, self.decisions = prefix, []
                self.ex.push = work.append
                self.solver.push()
                try:
                    try:
                        thunk()
                    except PathEnd:
                        continue
                    except (PyRaise, ReturnSig, BreakSig, ConsumerSig) as e:
                        on_end('escape', e, snap)
                    else:
                        on_end('fall', None, snap)
                finally:
                    self.solver.pop()
                    self.restore(snap)
                if len(work) > 200:
                    raise Unsupported('too many paths in loop body')
        finally:
            self.ex.push = outer_push
            self.outer = outer
            self.nested -= 1

    # -- obligations --------------------------------------------------------

    def prove(self, cond, ms=None):
        """Side condition of a loop rule: pc implies cond?"""
        if isinstance(cond, bool):
            return cond
        if is_true(cond) or is_true(z3.simplify(cond)):
            return True
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', ms or self.ex.goal_ms)
        for t in self.pc:
            s.add(t)
        s.add(z3.Not(cond))
        r = s.check()
        self.ex.stats['goal_s'] += time.time() - t0
        self.ex.stats['side'] = self.ex.stats.get('side', 0) + 1
        return r == z3.unsat

    def check(self, label, cond, detail=''):
        """Discharge obligation: pc implies cond."""
        key = (label, self.outer, tuple(self.decisions), self.seqno)
        self.seqno += 1
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        if key in self.ex.checked:
            ok = self.ex.checked[key]
        elif self.replaying():
            # was discharged by the path that pushed this prefix
            ok = True
        else:
            ok = self.ex.discharge(self, label, cond, detail)
            self.ex.checked[key] = ok
        if not self.nested:
            self.add(cond) if not is_true(cond) else None
            if is_false(cond):
                raise PathEnd()
        return ok


CVC5 = shutil.which('cvc5')


def cvc5_unsat(s, ms):
    """Second opinion on a goal z3 gives up on."""
    if CVC5 is None:
        return False
    try:
        r = subprocess.run(
            [CVC5, '--strings-exp', '--tlimit=%d' % ms, '--lang=smt2', '-q'],
            input='(set-logic ALL)\n' + s.to_smt2(), capture_output=True,
            text=True, timeout=ms / 1000. + 5)
    except (subprocess.TimeoutExpired, OSError):
        return False
    return r.stdout.strip() == 'unsat'


class Explorer(object):
    """Enumerates the paths of one contract and discharges obligations."""

    def __init__(self, feas_ms=400, goal_ms=8000, budget_s=60, max_paths=4000,
                 bound=None):
        self.feas_ms = feas_ms
        self.goal_ms = goal_ms
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.bound = bound           # None: unbounded, else container size
        self.work = []
        self.push = self.work.append
        self.checked = {}
        self.obligations = []
        self.covers = {}
        self.stats = {'feas_s': 0.0, 'feas_n': 0, 'goal_s': 0.0, 'paths': 0}
        self.t0 = time.time()
        self.unsupported = []
        self.functions = set()
        self.truncated = None
        self.start = [[]]
        self.pending = []
        self.slice_s = None
        self.stop_on_refuted = True
        self.cache = {}
        self.log_smt = None

    def tick(self):
        if time.time() - self.t0 > self.budget_s:
            raise Budget('time budget of %ss exhausted' % self.budget_s)

    def discharge(self, P, label, cond, detail=''):
        t0 = time.time()
        if is_true(cond) or is_true(z3.simplify(cond)):
            self.obligations.append(Obligation(label, 'proved', 'simplify', 0.0))
            return True
        s = z3.Solver()
        s.set('timeout', self.goal_ms)
        for t in P.pc:
            s.add(t)
        s.add(z3.Not(cond))
        r = s.check()
        solver = 'z3'
        if r != z3.unsat and P.rules:
            s2 = z3.Solver()
            s2.set('timeout', self.goal_ms)
            s2.set('mbqi', False)
            for t in P.pc:
                s2.add(t)
            for i, rule in enumerate(P.rules):
                q = z3.Int('q!%d' % i)
                s2.add(z3.ForAll([q], rule(q)))
            s2.add(z3.Not(cond))
            r2 = s2.check()
            if r2 == z3.unsat:
                r, solver, s = r2, 'z3-quant', s2
        if r == z3.unknown and cvc5_unsat(s, self.goal_ms):
            r, solver = z3.unsat, 'cvc5'
        if r == z3.unsat and self.log_smt is not None:
            self.log_smt(label, s)
        dt = time.time() - t0
        self.stats['goal_s'] += dt
        if r == z3.unsat:
            self.obligations.append(Obligation(label, 'proved', solver, dt))
            return True
        if os.environ.get('VERIF_DUMP'):
            with open(os.environ['VERIF_DUMP'], 'w') as f:
                f.write('; %s\n%s' % (label, s.to_smt2()))
        model = None
        if r == z3.sat and not P.nested:
            try:
                model = P.ex.model_choices(P, s.model())
            except z3.Z3Exception:
                model = None
        st = 'refuted' if (r == z3.sat and P.exact and not P.nested) \
            else 'unknown'
        self.obligations.append(
            Obligation(label, st, solver, dt, model=model, exact=P.exact,
                       detail=detail or str(r)))
        return False

    def model_choices(self, P, model):
        out = []
        seen = set()
        for c in P.choices:
            if isinstance(c, tuple):
                # value of a function: chosen once per arguments
                key = (c[0],) + tuple(model.eval(
                    t, model_completion=True).sexpr() for t in c[1])
                if key in seen:
                    continue
                seen.add(key)
                c = c[2]
            out.append(c(model))
        return out

    def run(self, fn):
        """fn(path) executes the contract once."""
        self.work[:] = self.start
        while self.work:
            if self.slice_s and self.stats['paths'] and \
                    time.time() - self.t0 > self.slice_s:
                # others carry on with these
                self.pending = list(self.work)
                return
            prefix = self.work.pop()
            self.stats['paths'] += 1
            if self.stats['paths'] > self.max_paths:
                self.truncated = 'more than %d paths' % self.max_paths
                return
            P = Path(self, prefix)
            try:
                fn(P)
            except PathEnd:
                pass
            except Unsupported as e:
                if str(e) not in self.unsupported:
                    self.unsupported.append(str(e))
                if len(self.unsupported) > 5:
                    self.truncated = 'unsupported'
                    return
            except Budget as e:
                self.truncated = str(e)
                return
            except RecursionError:
                self.unsupported.append('recursion limit')
