"""Symbolic interpreter of Python functions (AST of the live source)."""
import ast
import builtins
import inspect
import os
import re
import textwrap
import threading
import types
import z3
from core import *          # noqa
from core import _V         # noqa
import core
import vapi

INTERPRETED = []            # path prefixes of source files to interpret
_src_cache = {}
_fn_cache = {}


def load_source(filename):
    if filename not in _src_cache:
        with open(filename) as f:
            src = f.read()
        tree = ast.parse(src, filename)
        index = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    line = min(d.lineno for d in n.decorator_list)
                name = n.name if isinstance(n, ast.FunctionDef) else '<lambda>'
                index.setdefault((line, name), n)
        _src_cache[filename] = index
    return _src_cache[filename]


def fn_ast(fn):
    code = fn.__code__
    if code in _fn_cache:
        return _fn_cache[code]
    idx = load_source(code.co_filename)
    node = idx.get((code.co_firstlineno, code.co_name))
    _fn_cache[code] = node
    return node


def is_interpretable(fn):
    f = fn.__code__.co_filename
    return any(f.startswith(p) for p in INTERPRETED)


class BoundMethod(object):
    __slots__ = ('self', 'fn')

    def __init__(self, self_, fn):
        self.self = self_
        self.fn = fn


class IFunc(object):
    """Function created by interpreted code."""
    __slots__ = ('node', 'env', 'defaults', 'kwdefaults', 'name', 'native')

    def __init__(self, node, env, defaults, kwdefaults, name, native=None):
        self.node = node
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name


class Gen(object):
    """Suspended generator call; consumed at most once."""
    __slots__ = ('node', 'env', 'used', 'cm')

    def __init__(self, node, env):
        self.node = node
        self.env = env
        self.used = False


class CMFunc(object):
    """Result of calling a @contextmanager function."""
    def __init__(self, gen):
        self.gen = gen


LOCKS = (type(threading.Lock()), type(threading.RLock()))


class It(object):
    """Iterator over something iterable (lazy, single use)."""
    def __init__(self, src, kind='iter', fn=None):
        self.src = src
        self.kind = kind
        self.fn = fn
        self.pos = 0
        self.used = False


class StrMethod(object):
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class ContMethod(object):
    """Method of a container record."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class NatMethod(object):
    """Special method implemented by the engine."""
    __slots__ = ('fn', 'args')

    def __init__(self, fn, *args):
        self.fn = fn
        self.args = args


class Super(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class FieldsDict(object):
    """Instance ``__dict__``."""
    def __init__(self, obj):
        self.obj = obj


class SetVal(object):
    """Immutable set content: explicit values plus symbolic members."""
    def __init__(self, vals=(), segs=()):
        self.vals = tuple(vals)
        self.segs = segs


GENCODE = 0x20
ABSENT = object()


def has_yield(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


PRIM = (type(None), bool, int, str, bytes, float, complex, type, types.ModuleType,
        types.BuiltinFunctionType, types.FunctionType, type(Ellipsis),
        types.MethodWrapperType, types.WrapperDescriptorType,
        types.MethodDescriptorType, property, range, type(NotImplemented))


def local_names(node):
    """Names assigned in a function body (locals)."""
    names = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    skip = set()
    body = node.body if isinstance(node.body, list) else []
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp,
                          ast.SetComp, ast.DictComp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            skip.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        stack.extend(ast.iter_child_nodes(n))
    return names - skip


_local_cache = {}


def cached_locals(node):
    if node not in _local_cache:
        _local_cache[node] = (local_names(node), has_yield(node))
    return _local_cache[node]


class Interp(object):

    def __init__(self, P, intrinsics):
        self.P = P
        P.I = self
        P.to_val = self.to_val
        P.from_val = self.from_val
        self.intrinsics = intrinsics
        self.depth = 0
        self.classcodes = {}
        self.yield_stack = []
        self.handling = []

    # =====================================================================
    # value encoding

    def to_val(self, v):
        if v is None:
            return NONE
        if isinstance(v, Sym):
            t = v.t
            s = t.sort()
            if s == Val:
                return t
            if s == Bool:
                return Val.boo(t)
            if s == Int:
                return Val.num(t)
            if s == Str:
                return Val.st(t)
            raise Unsupported('encode %s' % s)
        if isinstance(v, bool):
            return Val.boo(z3.BoolVal(v))
        if isinstance(v, int):
            return Val.num(z3.IntVal(v))
        if isinstance(v, str):
            return Val.st(str_literal(v))
        if isinstance(v, Obj):
            if v.origin is not None:
                return v.origin
            return Val.ref(z3.IntVal(v.oid))
        if isinstance(v, Poison):
            raise Unsupported('loop carried value: ' + v.why)
        return Val.ref(IV(self.intern(v)))

    def intern(self, v):
        """Id of a native or engine level value that is not a heap object."""
        P = self.P
        if isinstance(v, bytes):
            enc = P.ghost.get('benc') or 'utf-8'
            try:
                return self.bytes_code(v.decode(enc), enc)
            except UnicodeDecodeError:
                key = (bytes, v)
        elif isinstance(v, SBytes) and v.text is not None:
            return self.bytes_code(v.text, v.enc)
        elif isinstance(v, float):
            key = (type(v), v)
        elif isinstance(v, tuple):
            key = ('tuple',) + tuple(self.to_val(x).sexpr() for x in v)
        elif isinstance(v, SBytes):
            key = ('sbytes', id(v))
        elif isinstance(v, BoundMethod):
            key = ('bm', self.to_val(v.self).sexpr(), id(v.fn))
        else:
            key = id(v)
        if key not in P.interned:
            P.interned[key] = (10 ** 7 + len(P.interned), v)
        return P.interned[key][0]

    def bytes_code(self, text, enc):
        """Identity of the bytes a text is encoded to, injective."""
        P = self.P
        if P.ghost.setdefault('benc', enc) != enc:
            raise Unsupported('bytes of different encodings')
        t = self.str_t(text)
        code = z3.Function('bcode_' + enc, z3.StringSort(), z3.IntSort())(t)
        P.add(And(code <= -10 ** 6, clsof(code) == self.class_code(bytes),
                  z3.Function('btext_' + enc, z3.IntSort(),
                              z3.StringSort())(code) == t))
        return code

    def from_val(self, t, spec=None):
        """Python level value of a Val term."""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            d = t.decl()
            if d.eq(Val.none.decl()) if hasattr(Val.none, 'decl') else False:
                return None
            n = d.name()
            if n == 'none':
                return None
            a = t.arg(0)
            if n == 'boo':
                if z3.is_true(a):
                    return True
                if z3.is_false(a):
                    return False
                return Sym(a)
            if n == 'num':
                if z3.is_int_value(a):
                    return a.as_long()
                return Sym(a)
            if n == 'st':
                if z3.is_string_value(a):
                    return str_native(a)
                return Sym(a)
            if n == 'ref' and z3.is_int_value(a):
                return self.by_id(a.as_long())
            if n == 'ref' and z3.is_app(a) and \
                    a.decl().name().startswith('bcode_'):
                return SBytes(self.lift_str(a.arg(0)), a.decl().name()[6:])
        return Sym(t, spec)

    def by_id(self, i):
        P = self.P
        if i >= 10 ** 7:
            for k, (j, v) in P.interned.items():
                if j == i:
                    return v
        for o in P.ghost.get('objs', {}).values():
            if o.oid == i:
                return o
        raise Unsupported('unknown reference %s' % i)

    # =====================================================================
    # heap

    def alloc(self, cls, rec):
        P = self.P
        oid = P.nextid
        P.nextid += 1
        o = Obj(oid, cls)
        P.heap[oid] = rec
        P.ghost['objs'] = dict(P.ghost.get('objs', {}))
        P.ghost['objs'][oid] = o
        return o

    def new_list(self, segs=()):
        return self.alloc(list, LRec(segs))

    def new_map(self, m=None, cls=dict):
        return self.alloc(cls, MRec(m if m is not None else EMap()))

    def new_obj(self, cls, fields=None, lazy=None):
        return self.alloc(cls, Rec(fields, lazy))

    def rec(self, o):
        return self.P.heap[o.oid]

    def is_list(self, v):
        return isinstance(v, Obj) and isinstance(self.rec(v), LRec)

    def is_map(self, v):
        return isinstance(v, Obj) and isinstance(self.rec(v), MRec)

    def segs(self, o, reading=True):
        if reading and self.P.reads is not None:
            self.P.reads.add(o.oid)
        return self.rec(o).segs

    def set_segs(self, o, segs):
        self.rec(o).segs = segs

    def m(self, o):
        return self.rec(o).m

    def set_m(self, o, m):
        self.rec(o).m = m

    def wrap(self, v):
        """Import a native value."""
        if isinstance(v, (Sym, Obj, BoundMethod, IFunc, Gen, It, SBytes)):
            return v
        if isinstance(v, PRIM):
            return v
        if isinstance(v, tuple):
            return tuple(self.wrap(x) for x in v)
        P = self.P
        k = id(v)
        if k in P.natives:
            return P.natives[k][1]
        t = type(v)
        from odict import odict
        if t is list:
            o = self.new_list(seq_items(self.wrap(x) for x in v))
        elif t is dict or isinstance(v, (dict,)):
            o = self.alloc(t, MRec(EMap([(self.wrap(a), self.wrap(b))
                                         for a, b in v.items()]),
                                   {} if t is not dict else None))
        elif isinstance(v, threading.local):
            o = self.alloc(t, Rec(native=v))
        elif t in LOCKS:
            from intrinsics import instantiate
            o = instantiate(self, vapi.LockSpec if t is LOCKS[0]
                            else vapi.RLockSpec, [], {})
        elif isinstance(v, types.MethodType):
            return BoundMethod(self.wrap(v.__self__), v.__func__)
        elif isinstance(v, (set, frozenset)):
            o = self.alloc(t, Rec({'set': SetVal([self.wrap(x) for x in v])}))
        elif self.interp_class(t):
            o = self.alloc(t, Rec(native=v))
        else:
            return v                        # opaque native value
        P.natives[k] = (v, o)
        return o

    def interp_class(self, t):
        for c in t.__mro__:
            if c is object:
                continue
            mod = getattr(c, '__module__', '')
            import sys
            f = getattr(sys.modules.get(mod), '__file__', None) or ''
            if any(f.startswith(p) for p in INTERPRETED):
                return True
        return False

    # =====================================================================
    # conditions

    def truth(self, v):
        P = self.P
        if isinstance(v, Sym):
            s = v.t.sort()
            if s == Bool:
                return P.choose(v.t)
            if s == Int:
                return P.choose(v.t != 0)
            if s == Str:
                return P.choose(v.t != z3.StringVal(''))
            return self.truth(self.resolve(v))
        if isinstance(v, Obj):
            r = self.rec(v)
            if isinstance(r, LRec):
                return self.truth(self.lift_int(seq_len(self.segs(v))))
            if isinstance(r, MRec):
                return self.truth(self.lift_int(r.m.length(P)))
            if v.cls in (set, frozenset):
                sv = r.fields['set']
                return self.truth(self.lift_int(
                    len(sv.vals) or seq_len(tuple(sv.segs))))
            if v.cls is vapi.Opaque and v.origin is not None:
                return P.choose(truthy(Val.r(v.origin)))
            f = self.type_lookup(v.cls, '__bool__')
            if f is not ABSENT:
                return self.truth(self.call(self.bind(f, v, v.cls), [], {}))
            f = self.type_lookup(v.cls, '__len__')
            if f is not ABSENT:
                return self.truth(self.call(self.bind(f, v, v.cls), [], {}))
            return True
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Poison):
            raise Unsupported('loop carried value: ' + v.why)
        if isinstance(v, SBytes):
            raise Unsupported('truth of symbolic bytes')
        if isinstance(v, PText):
            if v.outer:
                raise Unsupported('truth of path text with slashes')
            return self.truth(self.lift_int(seq_len(v.names)))
        if isinstance(v, FieldsDict):
            raise Unsupported('truth of __dict__')
        return bool(v)

    def ptext_strip(self, p, chars=None):
        if chars != '/':
            raise Unsupported('path text strip')
        return PText(p.names, False)

    def ptext_split(self, p, sep=None, *a):
        # joined text without outer slashes and at least one name
        if sep != '/' or a or p.outer or not self.P.prove(
                IV(seq_len(p.names)) > 0):
            raise Unsupported('path text split')
        return self.new_list(p.names)

    def lift_int(self, n):
        if isinstance(n, int):
            return n
        if z3.is_int_value(n):
            return n.as_long()
        return Sym(n)

    def lift_bool(self, t):
        if isinstance(t, bool):
            return t
        if is_true(t):
            return True
        if is_false(t):
            return False
        return Sym(t)

    def resolve(self, v):
        """Split a Val symbol by kind; references are materialised."""
        P = self.P
        if not isinstance(v, Sym) or v.t.sort() != Val:
            return v
        t = v.t
        w = self.from_val(t, v.spec)
        if not (isinstance(w, Sym) and w.t.sort() == Val):
            return w
        for kind, wrapk in (('st', lambda: Sym(Val.s(t))),
                            ('ref', lambda: self.materialise(t)),
                            ('num', lambda: Sym(Val.i(t))),
                            ('none', lambda: None),
                            ('boo', lambda: Sym(Val.b(t)))):
            if P.lookup_known(getattr(Val, 'is_' + kind)(t)):
                return wrapk()
        if P.choose(Val.is_none(t)):
            return None
        if P.choose(Val.is_st(t)):
            return Sym(Val.s(t))
        if P.choose(Val.is_ref(t)):
            return self.materialise(t)
        if P.choose(Val.is_num(t)):
            return Sym(Val.i(t))
        if P.choose(Val.is_boo(t)):
            return Sym(Val.b(t))
        raise PathEnd()

    def class_code(self, cls):
        codes = self.P.ex.cache.setdefault('classcodes', {})
        if cls not in codes:
            codes[cls] = len(codes) + 1
        return codes[cls]

    def materialise(self, t):
        """Object for reference term t (lazy initialisation)."""
        P = self.P
        key = t.sexpr()
        mat = P.ghost.get('mat', {})
        if key in mat:
            return mat[key]
        for ch in P.chains:
            decl = ch.f(z3.IntVal(0)).decl()
            a = t.arg(0) if t.num_args() == 1 else None
            if t.decl().eq(decl):
                P.add_index(z3.simplify(a))
            elif a is not None and z3.is_app(a) and a.decl().eq(decl):
                # neighbour of an element of the chain
                P.add_index(z3.simplify(a.arg(0) + 1))
                P.add_index(z3.simplify(a.arg(0) - 1))
        # aliasing with known objects
        classes = P.ghost.get('refclasses', ())
        if P.choose(Val.r(t) > 0):
            for o in list(P.ghost.get('objs', {}).values()):
                if o.origin is None and P.choose(eqt(t, self.to_val(o))):
                    return o
            # interned natives
            for k, (j, nv) in list(P.interned.items()):
                if P.choose(eqt(t, Val.ref(z3.IntVal(j)))):
                    return nv
            return self.no_class()
        for o in list(P.ghost.get('objs', {}).values()):
            if o.origin is not None and P.choose(eqt(t, o.origin)):
                return o
        enc = P.ghost.get('benc')
        if enc and P.choose(clsof(Val.r(t)) == self.class_code(bytes)):
            text = z3.Function('btext_' + enc, z3.IntSort(),
                               z3.StringSort())(Val.r(t))
            P.add(z3.Function('bcode_' + enc, z3.StringSort(),
                              z3.IntSort())(text) == Val.r(t))
            return SBytes(self.lift_str(text), enc)
        cands = [c for c in classes]
        for c in cands:
            if P.choose(clsof(Val.r(t)) == self.class_code(c)):
                o = self.new_lazy(c, t)
                return o
        return self.no_class()

    def no_class(self):
        """All objects a reference may be are known."""
        if not self.P.replaying() and self.P.feasible():
            raise Unsupported('reference to an object of unknown class')
        raise PathEnd()

    def new_lazy(self, cls, t):
        """Arbitrary object of contract class cls at Val term t."""
        P = self.P
        I = self
        spec = getattr(cls, '__fields__', {})
        o = self.alloc(cls, Rec())
        o.origin = t
        mat = dict(P.ghost.get('mat', {}))
        mat[t.sexpr()] = o
        P.ghost['mat'] = mat

        def lazy(name):
            if name not in spec:
                return ABSENT
            return P.api.lazy_field(cls, name, spec[name], t, o)
        P.heap[o.oid].lazy = lazy
        return o

    def kind_is(self, v, kind):
        """Bool term or bool: v has kind (none, boo, num, st, ref)."""
        if isinstance(v, Sym):
            s = v.t.sort()
            if s == Val:
                return getattr(Val, 'is_' + kind)(v.t)
            return {'Bool': 'boo', 'Int': 'num', 'String': 'st'}[s.name()] == kind
        if v is None:
            return kind == 'none'
        if isinstance(v, bool):
            return kind == 'boo'
        if isinstance(v, int):
            return kind == 'num'
        if isinstance(v, str):
            return kind == 'st'
        return kind == 'ref'

    # =====================================================================
    # calling

    def call_function(self, fn, args, kwargs):
        node = fn_ast(fn)
        if node is None:
            raise Unsupported('no source for %s' % fn.__qualname__)
        self.P.ex.functions.add('%s.%s' % (fn.__module__, fn.__qualname__))
        cells = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                cells[n] = c
        defaults = [self.wrap(d) for d in (fn.__defaults__ or ())]
        kwd = {k: self.wrap(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        vars_ = self.bind_args(node, args, kwargs, defaults, kwd, fn.__name__)
        env = Env(vars_, globs=fn.__globals__, cells=cells)
        env.first = args
        return self.run_body(node, env, fn)

    def call_ifunc(self, f, args, kwargs):
        vars_ = self.bind_args(f.node, args, kwargs, f.defaults, f.kwdefaults,
                               f.name)
        env = Env(vars_, parent=f.env, globs=f.env.globs)
        return self.run_body(f.node, env, f)

    def run_body(self, node, env, fn):
        P = self.P
        names, gen = cached_locals(node)
        env.locals_ = names
        if gen:
            return Gen(node, env)
        if isinstance(node, ast.Lambda):
            P.frames.append(env)
            try:
                return self.eval(node.body, env)
            finally:
                self.pop_frame(env)
        self.depth += 1
        if self.depth > self.P.ex.__dict__.get('max_depth', 60):
            self.depth = 0
            raise Unsupported('recursion deeper than bound in %s' % node.name)
        P.frames.append(env)
        try:
            self.block(node.body, env)
        except ReturnSig as r:
            return r.value
        finally:
            self.depth -= 1
            self.pop_frame(env)
        return None

    def pop_frame(self, env):
        fr = self.P.frames
        while fr and fr[-1] is not env:
            fr.pop()
        if fr:
            fr.pop()

    def bind_args(self, node, args, kwargs, defaults, kwdefaults, name):
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        kwargs = dict(kwargs)
        args = list(args)

        def err(msg):
            raise PyRaise(TypeError('%s() %s' % (name, msg)))
        if len(args) > len(params):
            if a.vararg:
                vars_[a.vararg.arg] = tuple(args[len(params):])
                args = args[:len(params)]
            else:
                err('takes %d positional arguments but %d were given' % (
                    len(params), len(args)))
        elif a.vararg:
            vars_[a.vararg.arg] = ()
        for p, v in zip(params, args):
            vars_[p] = v
        for k in list(kwargs):
            if k in params:
                if k in vars_:
                    err('got multiple values for argument %r' % k)
                vars_[k] = kwargs.pop(k)
        nd = len(defaults)
        for i, p in enumerate(params):
            if p not in vars_:
                j = i - (len(params) - nd)
                if j < 0:
                    err('missing 1 required positional argument: %r' % p)
                vars_[p] = defaults[j]
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vars_[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                vars_[x.arg] = kwdefaults[x.arg]
            else:
                err('missing keyword-only argument %r' % x.arg)
        if a.kwarg:
            symkw = kwargs.pop('**', None)
            if symkw is not None:
                vars_[a.kwarg.arg] = symkw
            else:
                vars_[a.kwarg.arg] = self.new_map(EMap(list(kwargs.items())))
        elif kwargs:
            err('got an unexpected keyword argument %r' % list(kwargs)[0])
        return vars_

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        P = self.P
        P.steps += 1
        if P.steps > 60000:
            raise Unsupported('step limit')
        if isinstance(f, Sym):
            f = self.resolve(f)
        if isinstance(f, BoundMethod):
            return self.call(f.fn, [f.self] + list(args), kwargs)
        if isinstance(f, IFunc):
            return self.call_ifunc(f, args, kwargs)
        if isinstance(f, NatMethod):
            return f.fn(*(list(f.args) + list(args)), **kwargs)
        if isinstance(f, StrMethod):
            return self.str_method(f.recv, f.name, args, kwargs)
        if isinstance(f, ContMethod):
            return self.cont_method(f.obj, f.name, args, kwargs)
        try:
            h = self.intrinsics.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, *args, **kwargs)
        if isinstance(f, types.FunctionType):
            w = getattr(f, '__wrapped__', None)
            if w is not None and f.__code__.co_filename.endswith(
                    'contextlib.py'):
                g = self.call_function(w, args, kwargs)
                return CMFunc(g)
            if is_interpretable(f):
                return self.call_function(f, args, kwargs)
            raise Unsupported('call of %s.%s' % (f.__module__, f.__qualname__))
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [self.wrap(f.__self__)] + list(args),
                             kwargs)
        if isinstance(f, Obj):
            c = self.type_lookup(f.cls, '__call__')
            if c is not ABSENT:
                return self.call(self.bind(c, f, f.cls), args, kwargs)
            raise PyRaise(TypeError("'%s' object is not callable"
                                    % f.cls.__name__))
        if f is None or isinstance(f, (bool, int, str)):
            raise PyRaise(TypeError('object is not callable'))
        # native method of opaque / immutable receiver
        if isinstance(f, (types.BuiltinFunctionType,
                          types.MethodDescriptorType,
                          types.WrapperDescriptorType,
                          types.MethodWrapperType)):
            return self.call_native(f, args, kwargs)
        raise Unsupported('call of %r' % (f,))

    PURE_NATIVE = {'join', 'format', 'startswith', 'endswith', 'strip', 'split',
                   'encode', 'decode', 'find', 'lower', 'upper', 'replace',
                   'rfind', 'lstrip', 'rstrip', 'isidentifier', 'partition',
                   'rpartition', 'rsplit', 'title', 'count', 'index', 'ljust',
                   'rjust', 'zfill', 'hex', '__contains__'}

    def call_native(self, f, args, kwargs):
        recv = getattr(f, '__self__', None)
        if isinstance(recv, (str, bytes, int)) and \
                f.__name__ in self.PURE_NATIVE:
            nat = [self.to_native(a) for a in args]
            if all(n is not ABSENT for n in nat) and not kwargs:
                try:
                    return self.wrap(f(*nat))
                except Exception as e:
                    raise PyRaise(e)
            if isinstance(recv, str):
                return self.str_method(recv, f.__name__, args, kwargs)
        raise Unsupported('native call %s' % getattr(f, '__qualname__', f))

    def to_native(self, v):
        """Native value of a concrete immutable, else ABSENT."""
        if isinstance(v, (type(None), bool, int, str, bytes, float, type)):
            return v
        if isinstance(v, tuple):
            r = [self.to_native(x) for x in v]
            return ABSENT if any(x is ABSENT for x in r) else tuple(r)
        if self.is_list(v):
            e = seq_explicit(self.segs(v))
            if e is None:
                return ABSENT
            r = [self.to_native(x) for x in e]
            return ABSENT if any(x is ABSENT for x in r) else r
        return ABSENT

    # =====================================================================
    # attributes

    def type_lookup(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                v = c.__dict__[name]
                if c is object or isinstance(v, types.MemberDescriptorType) \
                        and self.interp_class(c):
                    # slots are fields
                    return ABSENT
                return v
        return ABSENT

    def bind(self, f, obj, cls):
        """Bind a class attribute found on cls to obj."""
        if isinstance(f, types.FunctionType) or isinstance(f, IFunc):
            return BoundMethod(obj, f) if obj is not None else f
        if isinstance(f, staticmethod):
            return f.__func__
        if isinstance(f, classmethod):
            return BoundMethod(cls, f.__func__)
        if isinstance(f, property):
            if obj is None:
                return f
            if f.fget is None:
                raise PyRaise(AttributeError('unreadable attribute'))
            return self.call(f.fget, [obj])
        g = self.type_lookup(type(f), '__get__') \
            if not isinstance(f, PRIM) else ABSENT
        if g is not ABSENT and isinstance(g, types.FunctionType):
            if type(f).__module__.startswith('zope'):
                raise Unsupported('descriptor %r' % f)
            return self.call(g, [self.wrap(f), obj, cls])
        return self.wrap(f)

    def is_data_descriptor(self, f):
        if isinstance(f, property):
            return True
        if isinstance(f, PRIM):
            return False
        return any('__set__' in c.__dict__ for c in type(f).__mro__)

    def getattr(self, o, name, default=ABSENT):
        try:
            return self._getattr(o, name)
        except PyRaise as e:
            if default is not ABSENT and isinstance(e.exc, AttributeError):
                return default
            raise

    def no_attr(self, o, name):
        c = o.cls.__name__ if isinstance(o, Obj) else type(o).__name__
        raise PyRaise(AttributeError("'%s' object has no attribute '%s'"
                                     % (c, name)))

    def _getattr(self, o, name):
        P = self.P
        if isinstance(o, Poison):
            raise Unsupported('loop carried value: ' + o.why)
        if isinstance(o, CMFunc):
            raise Unsupported('attribute of a context manager')
        if isinstance(o, Sym):
            if o.t.sort() == Val:
                o = self.resolve(o)
                return self._getattr(o, name)
            if o.t.sort() == Str:
                if hasattr('', name):
                    if name == '__class__':
                        return str
                    return StrMethod(o, name)
                self.no_attr('', name)
            if o.t.sort() in (Int, Bool):
                proto = True if o.t.sort() == Bool else 1
                if not hasattr(proto, name):
                    self.no_attr(proto, name)
            raise Unsupported('attribute %s of symbol' % name)
        if isinstance(o, Obj):
            return self.obj_getattr(o, name)
        if isinstance(o, Super):
            return self.super_getattr(o, name)
        if isinstance(o, str):
            if hasattr(o, name) and name in self.PURE_NATIVE:
                return StrMethod(o, name)
        if isinstance(o, PText):
            if name == 'strip':
                return NatMethod(self.ptext_strip, o)
            if name == 'split':
                return NatMethod(self.ptext_split, o)
            raise Unsupported('path text ' + name)
        if isinstance(o, SBytes):
            if name == 'decode':
                return NatMethod(self.sbytes_decode, o)
            if hasattr(b'', name):
                raise Unsupported('bytes.' + name)
            self.no_attr(b'', name)
        if isinstance(o, (Gen, It)):
            if name == '__next__':
                return NatMethod(lambda g: self.next(g), o)
            if name == '__iter__':
                return NatMethod(lambda g: g, o)
            raise Unsupported('generator attribute ' + name)
        if isinstance(o, FieldsDict):
            return NatMethod(self.fieldsdict_method, o, name)
        if isinstance(o, BoundMethod):
            if name == '__self__':
                return o.self
            if name in ('__name__', '__doc__', '__qualname__', '__module__'):
                return getattr(o.fn, name)
            raise Unsupported('method attribute ' + name)
        if isinstance(o, IFunc):
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__doc__':
                return None
            raise Unsupported('function attribute ' + name)
        if isinstance(o, BaseException):
            if name == 'args':
                return tuple(o.args)
            try:
                return self.wrap(getattr(o, name))
            except AttributeError:
                self.no_attr(o, name)
        if isinstance(o, type):
            return self.type_getattr(o, name)
        h = self.intrinsics.get(('attr', type(o), name))
        if h is not None:
            return NatMethod(h, self, o)
        if isinstance(o, tuple) and name in ('count', 'index'):
            raise Unsupported('tuple.' + name)
        if isinstance(o, tuple) and hasattr(o, name) and name == '__iter__':
            return NatMethod(lambda x: It(x), o)
        try:
            v = getattr(o, name)
        except AttributeError:
            self.no_attr(o, name)
        except Exception as e:
            raise PyRaise(e)
        return self.wrap(v)

    def type_getattr(self, cls, name):
        h = self.intrinsics.get(('attr', type(cls), name)) \
            if type(cls) is not type else None
        if h is not None:
            return NatMethod(h, self, cls)
        if name == '__dict__':
            raise Unsupported('class __dict__')
        for c in cls.__mro__:
            if name in c.__dict__:
                f = c.__dict__[name]
                if isinstance(f, types.FunctionType):
                    return f
                if isinstance(f, (staticmethod, classmethod)):
                    return self.bind(f, None, cls)
                if isinstance(f, property):
                    return f
                if c is not object and not isinstance(f, PRIM):
                    g = self.type_lookup(type(f), '__get__')
                    if isinstance(g, types.FunctionType) and \
                            self.interp_class(type(f)):
                        return self.call(g, [self.wrap(f), None, cls])
                break
        try:
            v = getattr(cls, name)
        except AttributeError:
            raise PyRaise(AttributeError("type object '%s' has no attribute "
                                         "'%s'" % (cls.__name__, name)))
        return self.wrap(v)

    def super_getattr(self, s, name):
        cls, o = s.cls, s.obj
        if isinstance(o, type):
            mro = type(o).__mro__ if cls is type else o.__mro__
            ocls = o
        else:
            mro = o.cls.__mro__
            ocls = o.cls
        i = mro.index(cls)
        for c in mro[i + 1:]:
            if name in c.__dict__:
                f = c.__dict__[name]
                if c is object or f is object.__new__:
                    if name == '__new__':
                        return NatMethod(self.object_new)
                    if name == '__init__':
                        return NatMethod(lambda *a, **k: None)
                    raise Unsupported('object.' + name)
                if isinstance(o, type):
                    return self.bind(f, None, ocls)
                if not isinstance(f, (types.FunctionType, property)):
                    if self.is_map(o) and hasattr(f, '__objclass__'):
                        return ContMethod(o, name)
                if isinstance(f, types.FunctionType) and self.is_map(o) \
                        and not is_interpretable(f):
                    return ContMethod(o, name)
                return self.bind(f, o, ocls)
        self.no_attr(o, name)

    def object_new(self, cls, *args, **kw):
        if args or kw:
            # object.__new__ refuses arguments if __new__ is overridden or
            # __init__ is not
            new = any('__new__' in c.__dict__ for c in cls.__mro__
                      if c is not object)
            init = any('__init__' in c.__dict__ for c in cls.__mro__
                       if c is not object)
            if new or not init:
                raise PyRaise(TypeError('object.__new__() takes exactly one '
                                        'argument'))
        return self.new_obj(cls)

    def field(self, o, name):
        """Instance dict lookup."""
        r = self.rec(o)
        if isinstance(r, MRec):
            if r.fields is None:
                return ABSENT
            return r.fields.get(name, ABSENT)
        if isinstance(r, LRec):
            return ABSENT
        if o.origin is not None and name in self.P.stale[0] and \
                (o.oid, name) not in self.P.stale[1]:
            from loops import untouched
            if untouched(self, o, name):
                self.P.stale[1].add((o.oid, name))
                return self.field(o, name)
            raise Unsupported('field %s of loop element read' % name)
        if name in r.fields:
            v = r.fields[name]
            return ABSENT if v is MISSING else v
        if o.origin is not None:
            for nm, read in reversed(self.P.ghost.get('layers', ())):
                if nm == name:
                    v = read(o)
                    if v is not ABSENT:
                        return v
        if name in r.loaded:
            return r.loaded[name]
        if r.native is not None:
            if isinstance(r.native, threading.local):
                return self.tlocal_get(o, name)
            d = getattr(r.native, '__dict__', {})
            if name in d:
                v = self.wrap(d[name])
                r.loaded[name] = v
                return v
        if r.lazy is not None:
            v = r.lazy(name)
            if v is not ABSENT:
                r.loaded[name] = v
                return v
        return ABSENT

    # thread locals: per modelled thread attribute dictionaries -------------

    def tlocal_fields(self, o):
        """Attribute record of a thread local object in current thread."""
        P = self.P
        r = self.rec(o)
        native = r.native
        key = (o.oid, P.thread)
        tl = P.ghost.get('tl', {})
        if key not in tl:
            holder = self.new_obj(object)
            tl = dict(tl)
            tl[key] = holder
            P.ghost['tl'] = tl
            if P.thread == 'main':
                for k, v in native.__dict__.items():
                    # module state of the importing thread, must be pristine
                    self.rec(holder).fields[k] = self.wrap(v)
            else:
                init = self.type_lookup(o.cls, '__init__')
                if isinstance(init, types.FunctionType):
                    self.call(init, [o])
        return self.rec(tl[key]).fields

    def tlocal_get(self, o, name):
        return self.tlocal_fields(o).get(name, ABSENT)

    def obj_getattr(self, o, name):
        cls = o.cls
        if name == '__class__':
            return cls
        if name == '__dict__':
            r = self.rec(o)
            if isinstance(r, MRec) and r.fields is None or \
                    isinstance(r, Rec) and self.slots(cls):
                self.no_attr(o, name)
            return FieldsDict(o)
        h = self.intrinsics.get(('attr', cls, name))
        if h is not None:
            return NatMethod(h, self, o)
        r = self.rec(o)
        ga = self.type_lookup(cls, '__getattribute__')
        if ga is not ABSENT and isinstance(ga, types.FunctionType):
            return self.call(ga, [o, name])
        f = self.type_lookup(cls, name)
        if f is not ABSENT and self.is_data_descriptor(f):
            try:
                return self.bind(f, o, cls)
            except PyRaise as e:
                if not isinstance(e.exc, AttributeError):
                    raise
                g = self.type_lookup(cls, '__getattr__')
                if g is ABSENT:
                    raise
                return self.call(g, [o, name])
        v = self.field(o, name)
        if v is not ABSENT:
            if isinstance(v, Poison):
                raise Unsupported('loop carried field: ' + v.why)
            return v
        if isinstance(r, (LRec, MRec)) or cls in (set, frozenset):
            base = self.container_base(cls)
            ff = f
            if ff is ABSENT or not isinstance(ff, types.FunctionType) or \
                    not is_interpretable(ff):
                if hasattr(base, name):
                    return ContMethod(o, name)
        if f is not ABSENT:
            return self.bind(f, o, cls)
        g = self.type_lookup(cls, '__getattr__')
        if g is not ABSENT:
            return self.call(g, [o, name])
        if hasattr(object, name) and name in ('__init__',):
            return NatMethod(lambda *a, **k: None)
        if name in ('__doc__', '__module__'):
            return getattr(cls, name)
        if name == '__hash__':
            raise Unsupported('hash')
        self.no_attr(o, name)

    def container_base(self, cls):
        for c in cls.__mro__:
            if c.__module__ in ('builtins', 'odict.pyodict', 'odict',
                                'collections'):
                return c
        return cls

    def setattr(self, o, name, v, raw=False):
        P = self.P
        if isinstance(o, Sym):
            o = self.resolve(o)
        if isinstance(o, Poison):
            raise Unsupported('loop carried value: ' + o.why)
        if isinstance(o, Obj):
            if not raw:
                sa = self.type_lookup(o.cls, '__setattr__')
                if isinstance(sa, types.FunctionType) and \
                        is_interpretable(sa):
                    self.call(sa, [o, name, v])
                    return
            f = self.type_lookup(o.cls, name)
            if f is not ABSENT and self.is_data_descriptor(f):
                if isinstance(f, property):
                    if f.fset is None:
                        raise PyRaise(AttributeError(
                            "property '%s' of '%s' object has no setter"
                            % (name, o.cls.__name__)))
                    self.call(f.fset, [o, v])
                    return
                s = self.type_lookup(type(f), '__set__')
                self.call(s, [self.wrap(f), o, v])
                return
            self.set_field(o, name, v)
            return
        if isinstance(o, (IFunc,)):
            if name in ('__doc__', '__name__'):
                return
        if o is None or isinstance(o, (bool, int, str, SBytes, tuple, PText,
                                       Sym)):
            # scalars, symbolic ones are resolved above
            self.no_attr(o, name)
        if isinstance(o, BaseException):
            setattr(o, name, v)
            return
        raise Unsupported('attribute assignment on %r' % (o,))

    def slots(self, cls):
        """Objects of the class have no instance dictionary."""
        return self.interp_class(cls) and not cls.__dictoffset__

    def set_field(self, o, name, v):
        r = self.rec(o)
        if isinstance(r, Rec):
            if isinstance(r.native, threading.local):
                self.tlocal_fields(o)[name] = v
                return
            if self.slots(o.cls) and not any(isinstance(
                    c.__dict__.get(name), types.MemberDescriptorType)
                    for c in o.cls.__mro__):
                self.no_attr(o, name)
            r.fields[name] = v
            if o.origin is not None:
                self.P.stale[1].add((o.oid, name))
            return
        if isinstance(r, MRec) and r.fields is not None:
            r.fields[name] = v
            return
        self.no_attr(o, name)

    def delattr(self, o, name):
        if isinstance(o, Sym):
            o = self.resolve(o)
        if not isinstance(o, Obj):
            raise Unsupported('del attribute')
        f = self.type_lookup(o.cls, name)
        if f is not ABSENT and self.is_data_descriptor(f):
            if isinstance(f, property):
                if f.fdel is None:
                    raise PyRaise(AttributeError('no deleter'))
                return self.call(f.fdel, [o])
            d = self.type_lookup(type(f), '__delete__')
            if d is ABSENT:
                raise PyRaise(AttributeError('__delete__'))
            self.call(d, [self.wrap(f), o])
            return
        da = self.type_lookup(o.cls, '__delattr__')
        if isinstance(da, types.FunctionType):
            self.call(da, [o, name])
            return
        if self.field(o, name) is ABSENT:
            self.no_attr(o, name)
        self.set_field(o, name, MISSING)

    def fieldsdict_method(self, d, name, *args, **kw):
        o = d.obj
        if name == 'get':
            k = args[0]
            dflt = args[1] if len(args) > 1 else None
            if not isinstance(k, str):
                raise Unsupported('symbolic __dict__ key')
            v = self.field(o, k)
            return dflt if v is ABSENT else v
        if name == 'setdefault':
            v = self.field(o, args[0])
            if v is ABSENT:
                self.set_field(o, args[0], args[1])
                return args[1]
            return v
        if name == 'pop':
            v = self.field(o, args[0])
            if v is ABSENT:
                if len(args) > 1:
                    return args[1]
                raise PyRaise(KeyError(args[0]))
            self.set_field(o, args[0], MISSING)
            return v
        if name == '__contains__':
            return self.field(o, args[0]) is not ABSENT
        raise Unsupported('__dict__.' + name)

    # =====================================================================
    # statements

    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, n, env):
        P = self.P
        P.steps += 1
        if P.steps > 60000:
            raise Unsupported('step limit')
        getattr(self, 's_' + type(n).__name__, self.s_unsupported)(n, env)

    def s_unsupported(self, n, env):
        raise Unsupported('statement %s' % type(n).__name__)

    def s_Expr(self, n, env):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, env)

    def s_Pass(self, n, env):
        pass

    def s_Assign(self, n, env):
        v = self.eval(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, env), env)

    def s_AugAssign(self, n, env):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.inplace(n.op, cur, self.eval(n.value, env))
            self.assign(t, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            v = self.inplace(n.op, self.getattr(o, t.attr),
                             self.eval(n.value, env))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            v = self.inplace(n.op, self.getitem(o, k),
                             self.eval(n.value, env))
            self.setitem(o, k, v)
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, a, b):
        if isinstance(a, Sym):
            a = self.resolve(a)
        if isinstance(op, ast.Add) and self.is_list(a) and \
                a.cls is not tuple:
            self.cont_method(a, 'extend', [b], {})
            return a
        if isinstance(op, ast.BitOr) and (self.is_map(a) or isinstance(
                a, Obj) and a.cls is set):
            self.cont_method(a, 'update', [b], {})
            return a
        if isinstance(a, Obj) and a.cls is set:
            r = self.binop(op, a, b)
            self.rec(a).fields['set'] = self.rec(r).fields['set']
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for x, y in zip(t.elts, vals):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, y, env)
                else:
                    self.assign(x, y, env)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, elts):
        P = self.P
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Sym):
            v = self.resolve(v)
        if isinstance(v, tuple):
            vals = list(v)
        else:
            segs = self.to_segs(v)
            vals = seq_explicit(segs)
            if vals is None:
                from containers import seq_at, seq_slice
                k = n - (1 if star else 0)
                m = IV(seq_len(segs))
                if P.choose(z3.simplify(m < k)):
                    raise PyRaise(ValueError('not enough values to unpack'))
                if not star:
                    if P.choose(z3.simplify(m > k)):
                        raise PyRaise(ValueError('too many values to unpack'))
                    return [seq_at(self, segs, i) for i in range(n)]
                i, after = star[0], n - star[0] - 1
                return [seq_at(self, segs, j) for j in range(i)] + [
                    self.new_list(seq_slice(
                        self, segs, i, self.lift_int(z3.simplify(m - after))))
                ] + [seq_at(self, segs, z3.simplify(m - after + j))
                     for j in range(after)]
        if star:
            i = star[0]
            after = n - i - 1
            if len(vals) < n - 1:
                raise PyRaise(ValueError('not enough values to unpack'))
            mid = vals[i:len(vals) - after]
            return vals[:i] + [self.new_list(seq_items(mid))] + \
                vals[len(vals) - after:]
        if len(vals) != n:
            raise PyRaise(ValueError(
                'not enough values to unpack (expected %d, got %d)'
                % (n, len(vals)) if len(vals) < n else
                'too many values to unpack (expected %d)' % n))
        return vals

    def store(self, name, v, env):
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
            raise Unsupported('nonlocal')
        env.vars[name] = v
        if env.assigned is not None:
            env.assigned.add(name)

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, LastVal):
                    v = v.force()
                    e.vars[name] = v
                if isinstance(v, Poison):
                    if v.why == 'unbound':
                        raise PyRaise(UnboundLocalError(name))
                    raise Unsupported('loop carried variable ' + v.why)
                return v
            if e.locals_ and name in e.locals_ and e.parent is None and \
                    not e.cells:
                pass
            if e.locals_ and name in e.locals_ and \
                    name not in (e.nonlocals or ()):
                raise PyRaise(UnboundLocalError(
                    "cannot access local variable '%s'" % name))
            if e.cells and name in e.cells:
                return self.wrap(e.cells[name].cell_contents)
            e = e.parent
        g = env.globs
        if name in g:
            return self.wrap(g[name])
        b = g.get('__builtins__', builtins)
        b = b if isinstance(b, dict) else b.__dict__
        if name in b:
            return b[name]
        raise PyRaise(NameError("name '%s' is not defined" % name))

    def s_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                if isinstance(t.slice, ast.Slice) and not any(
                        (t.slice.lower, t.slice.upper, t.slice.step)) and \
                        isinstance(o, Obj) and o.cls is list:
                    self.set_segs(o, ())
                    continue
                self.delitem(o, self.eval(t.slice, env))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, env), t.attr)
            elif isinstance(t, ast.Name):
                self.lookup(t.id, env)
                del env.vars[t.id]
            else:
                raise Unsupported('delete')

    def s_If(self, n, env):
        if self.truth(self.eval(n.test, env)):
            self.block(n.body, env)
        else:
            self.block(n.orelse, env)

    def s_Return(self, n, env):
        raise ReturnSig(self.eval(n.value, env) if n.value else None)

    def s_Break(self, n, env):
        raise BreakSig()

    def s_Continue(self, n, env):
        raise ContinueSig()

    def s_Raise(self, n, env):
        if n.exc is None:
            if not self.handling:
                raise PyRaise(RuntimeError('No active exception to reraise'))
            raise PyRaise(self.handling[-1])
        e = self.eval(n.exc, env)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, [])
        if not isinstance(e, BaseException):
            raise Unsupported('raise of %r' % (e,))
        raise PyRaise(e)

    def s_Assert(self, n, env):
        if not self.truth(self.eval(n.test, env)):
            raise PyRaise(AssertionError())

    def s_Global(self, n, env):
        raise Unsupported('global statement')

    def s_Nonlocal(self, n, env):
        env.nonlocals = tuple(env.nonlocals) + tuple(n.names)

    def s_FunctionDef(self, n, env):
        f = self.make_func(n, env, n.name)
        for d in reversed(n.decorator_list):
            f = self.call(self.eval(d, env), [f])
        self.store(n.name, f, env)

    def make_func(self, n, env, name):
        a = n.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {x.arg: self.eval(d, env)
               for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return IFunc(n, env, defaults, kwd, name)

    def s_Import(self, n, env):
        for al in n.names:
            mod = __import__(al.name)
            if al.asname:
                for c in al.name.split('.')[1:]:
                    mod = getattr(mod, c)
                self.store(al.asname, mod, env)
            else:
                self.store(al.name.split('.')[0], mod, env)

    def s_ImportFrom(self, n, env):
        import importlib
        name = n.module
        if n.level:
            raise Unsupported('relative import')
        mod = importlib.import_module(name)
        for al in n.names:
            self.store(al.asname or al.name, self.wrap(getattr(mod, al.name)),
                       env)

    def exc_matches(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        if not (isinstance(t, type) and issubclass(t, BaseException)):
            raise Unsupported('except clause')
        return isinstance(exc, t)

    def s_Try(self, n, env):
        def body():
            try:
                self.block(n.body, env)
            except PyRaise as e:
                for h in n.handlers:
                    if h.type is None or self.exc_matches(
                            e.exc, self.eval(h.type, env)):
                        if h.name:
                            self.store(h.name, e.exc, env)
                        self.handling.append(e.exc)
                        depth = len(self.handling)
                        try:
                            self.block(h.body, env)
                        finally:
                            del self.handling[depth - 1:]
                            if h.name:
                                env.vars.pop(h.name, None)
                        return
                raise
            self.block(n.orelse, env)
        if not n.finalbody:
            body()
            return
        try:
            body()
        except (PyRaise, ReturnSig, BreakSig, ContinueSig, ConsumerSig):
            self.block(n.finalbody, env)
            raise
        self.block(n.finalbody, env)

    def s_With(self, n, env, idx=0):
        if idx == len(n.items):
            self.block(n.body, env)
            return
        item = n.items[idx]
        cm = self.eval(item.context_expr, env)
        self.with_cm(cm, item.optional_vars, env,
                     lambda: self.s_With(n, env, idx + 1))

    def with_cm(self, cm, target, env, body):
        if isinstance(cm, CMFunc):
            yielded = []

            def on_yield(v):
                yielded.append(1)
                if target is not None:
                    self.assign(target, v, env)
                # errors of the body are raised at the yield
                try:
                    body()
                except (ReturnSig, BreakSig, ContinueSig) as s:
                    raise ConsumerSig(s, on_yield)
            try:
                self.run_gen(cm.gen, on_yield, wrap_errors=False)
            except ConsumerSig as c:
                if c.token is on_yield:
                    raise c.sig
                raise
            if not yielded:
                raise PyRaise(RuntimeError("generator didn't yield"))
            return
        enter = self.getattr_special(cm, '__enter__')
        exit_ = self.getattr_special(cm, '__exit__')
        v = self.call(enter, [])
        try:
            if target is not None:
                self.assign(target, v, env)
            body()
        except PyRaise as e:
            r = self.call(exit_, [type(e.exc), e.exc, None])
            if not self.truth(r):
                raise
            return
        except (ReturnSig, BreakSig, ContinueSig, ConsumerSig):
            self.call(exit_, [None, None, None])
            raise
        self.call(exit_, [None, None, None])

    def getattr_special(self, o, name):
        if isinstance(o, Obj):
            f = self.type_lookup(o.cls, name)
            if f is ABSENT:
                h = self.intrinsics.get(('attr', o.cls, name))
                if h is not None:
                    return NatMethod(h, self, o)
                raise PyRaise(AttributeError(name))
            return self.bind(f, o, o.cls)
        return self.getattr(o, name)

    # loops ---------------------------------------------------------------

    def s_For(self, n, env):
        src = self.eval(n.iter, env)

        def step(v):
            self.assign(n.target, v, env)
            try:
                self.block(n.body, env)
            except ContinueSig:
                pass
        try:
            self.iterate(src, step)
        except BreakSig:
            return
        self.block(n.orelse, env)

    def iterate(self, src, step):
        """Run step for every element of src."""
        P = self.P
        if isinstance(src, Sym):
            src = self.resolve(src)
        if isinstance(src, Gen):
            tok = object()

            def on_yield(v):
                try:
                    step(v)
                except (PyRaise, ReturnSig, BreakSig) as s:
                    raise ConsumerSig(s, tok)
            try:
                self.run_gen(src, on_yield)
            except ConsumerSig as c:
                if c.token is tok:
                    raise c.sig
                raise
            return
        if isinstance(src, It):
            if src.used:
                return
            if src.kind == 'iter':
                src.used = True
                return self.iterate(src.src, step)
            if src.kind == 'map':
                src.used = True
                return self.iterate(src.src,
                                    lambda v: step(self.call(src.fn, [v])))
            if src.kind == 'filter':
                src.used = True

                def fstep(v):
                    c = v if src.fn is None else self.call(src.fn, [v])
                    if self.truth(c):
                        step(v)
                return self.iterate(src.src, fstep)
        if self.is_list(src):
            return self.iterate_list(src, step)
        if self.is_map(src):
            return self.iterate_map(src, step)
        if isinstance(src, tuple):
            for v in src:
                step(v)
            return
        if isinstance(src, Obj) and src.cls in (set, frozenset):
            return self.iterate_segs(self.to_segs(src), step)
        if isinstance(src, Obj):
            f = self.type_lookup(src.cls, '__iter__')
            if f is ABSENT:
                if self.type_lookup(src.cls, '__getitem__') is not ABSENT:
                    raise Unsupported('sequence protocol iteration')
                raise PyRaise(TypeError("'%s' object is not iterable"
                                        % src.cls.__name__))
            return self.iterate(self.call(self.bind(f, src, src.cls), []), step)
        if isinstance(src, (str, bytes, range)):
            for v in src:
                step(v)
            return
        if src is None or isinstance(src, (bool, int)):
            raise PyRaise(TypeError("'%s' object is not iterable"
                                    % type(src).__name__))
        segs = self.to_segs(src)
        self.iterate_segs(segs, step)

    def iterate_segs(self, segs, step):
        for s in segs:
            if isinstance(s, Items):
                for v in s.vals:
                    step(v)
            else:
                self.loop(s, step)

    def iterate_list(self, o, step):
        """Live iteration over a list object."""
        i = 0
        if seq_explicit(self.segs(o)) is not None:
            while True:
                vals = seq_explicit(self.segs(o))
                if vals is None:
                    raise Unsupported('list changed to symbolic in loop')
                if i >= len(vals):
                    return
                step(vals[i])
                i += 1
        segs = self.segs(o)
        self.iterate_segs(segs, step)
        if self.segs(o) is not segs and self.rec(o).segs != segs:
            raise Unsupported('list changed during iteration')

    def iterate_map(self, o, step, what='keys'):
        P = self.P
        m0 = self.m(o)
        is_odict = any(c.__name__ == 'odict' for c in o.cls.__mro__)
        pick = {'keys': lambda e: e[0], 'values': lambda e: e[1],
                'items': lambda e: tuple(e)}[what]
        if m0.explicit:
            if not m0.entries:
                return
            cur = m0.entries[0]
            n0 = len(m0.entries)
            while True:
                step(pick(cur))
                m = self.m(o)
                if not m.explicit:
                    raise Unsupported('map changed to symbolic in loop')
                if not is_odict and len(m.entries) != n0:
                    raise PyRaise(RuntimeError(
                        'dictionary changed size during iteration'))
                pos = [i for i, e in enumerate(m.entries)
                       if e[0] is cur[0] or is_true(eqt(
                           self.to_val(e[0]), self.to_val(cur[0])))]
                if not pos:
                    if is_odict and what == 'keys':
                        raise PyRaise(KeyError(cur[0]))
                    raise Unsupported('deletion during iteration')
                if pos[0] + 1 >= len(m.entries):
                    return
                cur = m.entries[pos[0] + 1]
        segs = getattr(m0, what)(P)
        self.iterate_segs(segs, step)
        if self.m(o) is not m0:
            raise Unsupported('map changed during iteration')

    def run_gen(self, gen, on_yield, wrap_errors=True):
        if not isinstance(gen, Gen):
            raise Unsupported('not a generator')
        if gen.used:
            return
        gen.used = True
        P = self.P
        P.frames.append(gen.env)
        self.yield_stack.append((gen.env, on_yield))
        depth = len(self.yield_stack)
        self.depth += 1
        if self.depth > self.P.ex.__dict__.get('max_depth', 60):
            raise Unsupported('recursion deeper than bound')
        try:
            self.block(gen.node.body, gen.env)
        except ReturnSig:
            pass
        finally:
            self.depth -= 1
            del self.yield_stack[depth - 1:]
            self.pop_frame(gen.env)

    def e_Yield(self, n, env):
        v = self.eval(n.value, env) if n.value else None
        for e, cb in reversed(self.yield_stack):
            if e is env:
                # consumer runs outside of the generator frame
                saved = self.yield_stack
                self.yield_stack = [x for x in saved]
                handling = self.handling
                self.handling = []
                try:
                    cb(v)
                finally:
                    self.yield_stack = saved
                    self.handling = handling
                return None
        raise Unsupported('yield outside of consumer')

    def e_YieldFrom(self, n, env):
        src = self.eval(n.value, env)
        for e, cb in reversed(self.yield_stack):
            if e is env:
                self.iterate(src, cb)
                return None
        raise Unsupported('yield from')

    def next(self, it, default=ABSENT):
        """First element of a fresh iterator."""
        if isinstance(it, It) and it.kind == 'iter' and it.pos:
            segs = self.to_segs(it.src)
            vals = seq_explicit(segs)
            if vals is None:
                raise Unsupported('repeated next on symbolic iterator')
            if it.pos < len(vals):
                it.pos += 1
                return vals[it.pos - 1]
            if default is not ABSENT:
                return default
            raise PyRaise(StopIteration())
        if isinstance(it, Gen) and it.used:
            raise Unsupported('repeated next on generator')
        box = []

        class Found(Exception):
            pass

        def step(v):
            box.append(v)
            raise BreakSig()
        keep = it.src if isinstance(it, It) else None
        try:
            self.iterate(it, step)
        except BreakSig:
            if isinstance(it, It):
                it.used = False
                it.pos = 1
            return box[-1]
        if default is not ABSENT:
            return default
        raise PyRaise(StopIteration())

    def s_While(self, n, env):
        P = self.P
        count = 0
        limit = P.ex.__dict__.get('max_while', 12)
        peeled = 0
        while True:
            if P.chains and not getattr(self, 'no_chain', False):
                try:
                    if self.chain_loop(n, env):
                        return
                except BreakSig:
                    return
            if not self.truth(self.eval(n.test, env)):
                self.block(n.orelse, env)
                return
            count += 1
            if count > limit:
                raise Unsupported('while loop exceeds %d iterations' % limit)
            try:
                self.block(n.body, env)
            except ContinueSig:
                pass
            except BreakSig:
                return

    from loops import loop, chain_loop, summarise        # noqa

    # =====================================================================
    # expressions

    def eval(self, n, env):
        return getattr(self, 'e_' + type(n).__name__, self.e_unsupported)(n, env)

    def e_unsupported(self, n, env):
        raise Unsupported('expression %s' % type(n).__name__)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        if isinstance(n.slice, ast.Slice):
            s = n.slice
            return self.getslice(o, *[self.eval(x, env) if x else None
                                      for x in (s.lower, s.upper, s.step)])
        return self.getitem(o, self.eval(n.slice, env))

    def e_Slice(self, n, env):
        raise Unsupported('slice as value')

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, env)
                if isinstance(v, tuple):
                    out.extend(v)
                else:
                    x = seq_explicit(self.to_segs(v))
                    if x is None:
                        raise Unsupported('star of symbolic sequence')
                    out.extend(x)
            else:
                out.append(self.eval(e, env))
        return out

    def e_List(self, n, env):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            segs = ()
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    segs += self.to_segs(self.eval(e.value, env))
                else:
                    segs += seq_items([self.eval(e, env)])
            return self.new_list(segs)
        return self.new_list(seq_items(self.elts(n.elts, env)))

    def e_Set(self, n, env):
        return self.make_set(self.elts(n.elts, env))

    def make_set(self, vals):
        out = []
        for v in vals:
            if not any(self.eq_choose(v, w) for w in out):
                out.append(v)
        return self.alloc(set, Rec({'set': SetVal(out)}))

    def eq_choose(self, a, b):
        return self.P.choose(self.eq_term(a, b))

    def e_Dict(self, n, env):
        m = EMap()
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v, env)
                items = seq_explicit(self.items_segs(src))
                if items is None:
                    raise Unsupported('** of symbolic mapping')
                for a, b in items:
                    m = m.set(self.P, a, b)
                continue
            m = m.set(self.P, self.eval(k, env), self.eval(v, env))
        return self.new_map(m)

    def e_JoinedStr(self, n, env):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, env)
                if p.conversion == 114:
                    v = self.call(repr, [v])
                elif p.format_spec:
                    raise Unsupported('format spec')
                else:
                    v = self.to_str(v)
                parts.append(v)
        return self.concat(parts)

    def concat(self, parts):
        out = ''
        for p in parts:
            out = self.binop(ast.Add(), out, p)
        return out

    def e_Lambda(self, n, env):
        return self.make_func(n, env, '<lambda>')

    def e_IfExp(self, n, env):
        if self.truth(self.eval(n.test, env)):
            return self.eval(n.body, env)
        return self.eval(n.orelse, env)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.store(n.target.id, v, env)
        return v

    def e_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        for i, x in enumerate(n.values):
            v = self.eval(x, env)
            if i == len(n.values) - 1:
                return v
            if self.truth(v) != is_and:
                return v

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, Sym) and v.t.sort() == Bool:
                return self.lift_bool(Not(v.t))
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, Sym):
                v = self.resolve(v)
            if isinstance(v, Sym) and v.t.sort() == Int:
                return Sym(-v.t)
            if isinstance(v, (int, float)):
                return -v
        raise Unsupported('unary operator')

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Sym):
            a = self.resolve(a)
        if isinstance(b, Sym):
            b = self.resolve(b)
        if isinstance(op, ast.Add):
            if self.is_list(a) and self.is_list(b) and \
                    tuple not in (a.cls, b.cls):
                return self.new_list(self.segs(a) + self.segs(b))
            if tuple in (getattr(a, 'cls', None), getattr(b, 'cls', None)) \
                    and all(isinstance(x, tuple) or isinstance(x, Obj) and
                            x.cls is tuple for x in (a, b)):
                return self.alloc(tuple, LRec(
                    self.to_segs(a) + self.to_segs(b)))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if self.is_strv(a) and self.is_strv(b):
                return self.str_add(a, b)
        prim = (bool, int, float, str, bytes)
        if isinstance(a, prim) and isinstance(b, prim) or \
                (isinstance(op, ast.Mod) and isinstance(a, str)
                 and self.to_native(b) is not ABSENT):
            import operator
            ops = {ast.Add: operator.add, ast.Sub: operator.sub,
                   ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
                   ast.Mod: operator.mod, ast.Div: operator.truediv,
                   ast.BitAnd: operator.and_, ast.BitOr: operator.or_,
                   ast.Pow: operator.pow}
            if type(op) not in ops:
                raise Unsupported('operator')
            try:
                return ops[type(op)](a, self.to_native(b))
            except Exception as e:
                raise PyRaise(e)
        if self.is_intv(a) and self.is_intv(b):
            x, y = self.int_t(a), self.int_t(b)
            if isinstance(op, ast.Add):
                return self.lift_int(z3.simplify(x + y))
            if isinstance(op, ast.Sub):
                return self.lift_int(z3.simplify(x - y))
            if isinstance(op, ast.Mult) and (isinstance(a, int)
                                             or isinstance(b, int)):
                return self.lift_int(z3.simplify(x * y))
            raise Unsupported('integer operator')
        if isinstance(op, ast.Mult):
            if self.is_strv(a) and self.is_intv(b):
                return self.str_repeat(a, b)
            if self.is_intv(a) and self.is_strv(b):
                return self.str_repeat(b, a)
        if isinstance(a, Obj) and a.cls in (set, frozenset):
            if isinstance(op, ast.BitAnd):
                return self.cont_method(a, 'intersection', [b], {})
            if isinstance(op, ast.BitOr):
                return self.cont_method(a, 'union', [b], {})
            if isinstance(op, ast.Sub):
                return self.cont_method(a, 'difference', [b], {})
            if isinstance(op, ast.BitXor):
                raise Unsupported('symmetric difference')
        if type(a).__name__ == 'View' and isinstance(
                op, (ast.BitAnd, ast.BitOr, ast.Sub)) and a.kind != 'values':
            return self.binop(op, self.call(set, [a]), b)
        if isinstance(op, ast.BitOr) and self.is_map(a) and self.is_map(b):
            if not (a.cls is dict and b.cls is dict):
                raise Unsupported('union of maps')
            res = self.call(dict, [a])
            self.cont_method(res, 'update', [b], {})
            return res
        if isinstance(op, ast.BitOr) and (
                isinstance(a, (type, types.UnionType)) or a is None) and (
                isinstance(b, (type, types.UnionType)) or b is None) and not (
                a is None and b is None):
            return a | b
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return self.percent(a, b)
        if isinstance(op, ast.Mod) and self.is_strv(a):
            raise Unsupported('% formatting')
        if isinstance(op, ast.Mult) and (
                self.is_list(a) or isinstance(a, tuple)) and \
                isinstance(b, int):
            if isinstance(a, tuple):
                return a * b
            return self.new_list(tuple(self.segs(a)) * max(b, 0))
        if isinstance(a, Obj) and isinstance(self.rec(a), Rec) or \
                isinstance(b, Obj) and isinstance(self.rec(b), Rec):
            raise Unsupported('operator on objects')
        raise PyRaise(TypeError('unsupported operand type(s) for operator'))

    def percent(self, s, args):
        """`s % args` for %s, %r and %d."""
        if self.is_map(args):
            raise Unsupported('% formatting with names')
        args = args if isinstance(args, tuple) else (args,)
        parts, pos, k = [], 0, 0
        for m in re.finditer('%(.)', s, re.S):
            if m.start() < pos:
                continue
            parts.append(s[pos:m.start()])
            pos = m.end()
            c = m.group(1)
            if c == '%':
                parts.append('%')
                continue
            if c not in 'srd':
                raise Unsupported('% formatting')
            if k >= len(args):
                raise PyRaise(TypeError(
                    'not enough arguments for format string'))
            v = args[k]
            k += 1
            if isinstance(v, Sym):
                v = self.resolve(v)
            if c == 'd' and not self.is_intv(v):
                raise PyRaise(TypeError('%d format: a number is required'))
            parts.append(self.call(repr, [v]) if c == 'r' else self.to_str(v))
        if k < len(args):
            raise PyRaise(TypeError(
                'not all arguments converted during string formatting'))
        parts.append(s[pos:])
        return self.concat(parts)

    def is_strv(self, v):
        return isinstance(v, str) or (isinstance(v, Sym) and v.t.sort() == Str)

    def is_intv(self, v):
        return isinstance(v, int) or (isinstance(v, Sym) and
                                      v.t.sort() == Int)

    def int_t(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        return z3.IntVal(v) if isinstance(v, int) else v.t

    def str_t(self, v):
        return str_literal(v) if isinstance(v, str) else v.t

    def lift_str(self, t):
        if z3.is_string_value(t):
            return str_native(t)
        return Sym(t)

    def str_add(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if a == '' and isinstance(a, str):
            return b
        if isinstance(b, str) and b == '':
            return a
        return Sym(z3.Concat(self.str_t(a), self.str_t(b)))

    def str_repeat(self, s, n):
        if isinstance(s, str) and isinstance(n, int):
            return s * n
        if isinstance(n, int):
            if n <= 0:
                return ''
            out = s
            for i in range(n - 1):
                out = self.str_add(out, s)
            return out
        f = z3.Function('repeat', Str, Int, Str)
        # linear unfolding facts are added on demand
        t = f(self.str_t(s), self.int_t(n))
        self.P.add(z3.Implies(self.int_t(n) <= 0, t == z3.StringVal('')))
        return Sym(t)

    # -- comparisons --------------------------------------------------------

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(c, env)
            res = self.compare(op, left, right)
            if i == len(n.ops) - 1:
                return res
            if not self.truth(res):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('loop carried value')
        if isinstance(op, ast.Is):
            return self.lift_bool(self.is_term(a, b))
        if isinstance(op, ast.IsNot):
            return self.lift_bool(Not(self.lit(self.is_term(a, b))))
        if isinstance(op, ast.Eq):
            return self.lift_bool(self.eq_term(a, b))
        if isinstance(op, ast.NotEq):
            return self.lift_bool(Not(self.lit(self.ne_term(a, b))))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = self.contains(b, a)
            if isinstance(r, Sym) and r.t.sort() == Bool:
                return self.lift_bool(Not(r.t))
            return not self.truth(r)
        if isinstance(a, Sym):
            a = self.resolve(a)
        if isinstance(b, Sym):
            b = self.resolve(b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) or \
                isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                    ast.GtE: a >= b}[type(op)]
        if self.is_intv(a) and self.is_intv(b):
            x, y = self.int_t(a), self.int_t(b)
            return self.lift_bool(z3.simplify(
                {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y,
                 ast.GtE: x >= y}[type(op)]))
        if (self.is_intv(a) or self.is_strv(a) or a is None) and \
                (self.is_intv(b) or self.is_strv(b) or b is None):
            if self.is_strv(a) and self.is_strv(b):
                x, y = self.str_t(a), self.str_t(b)
                return self.lift_bool(z3.simplify(
                    {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: y < x,
                     ast.GtE: y <= x}[type(op)]))
            raise PyRaise(TypeError('not supported between instances'))
        raise Unsupported('ordering comparison')

    def lit(self, t):
        return z3.BoolVal(t) if isinstance(t, bool) else t

    def is_term(self, a, b):
        """Identity."""
        if a is b:
            return True
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.lit(self.is_term(x, y)) for x, y in zip(a, b)])
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.oid == b.oid:
                return True
            if a.origin is None and b.origin is None:
                return False
            # materialised objects are pairwise distinct on the path
            return False
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
            return False
        if not sa and not sb:
            if isinstance(a, SBytes) or isinstance(b, SBytes):
                return self.eq_term(a, b)
            if isinstance(a, (int, str, bytes)) and type(a) is type(b):
                return a == b
            return a is b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.t.sort() != Val and \
                    not isinstance(y, Sym):
                if isinstance(y, (Obj, type(None), type)):
                    return False
        return eqt(self.to_val(a), self.to_val(b))

    def eq_dispatch(self, a, b):
        """User defined __eq__ of a or b: (found, value)."""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and isinstance(self.rec(x), Rec) and \
                    x.cls.__module__ != 'uuid':
                f = self.type_lookup(x.cls, '__eq__')
                if isinstance(f, types.FunctionType):
                    r = self.call(f, [x, y])
                    if r is NotImplemented:
                        continue
                    return True, r
        return False, None

    def ne_term(self, a, b):
        # != is the negation of == unless __ne__ is user defined
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                f = self.type_lookup(x.cls, '__ne__')
                if isinstance(f, types.FunctionType) and is_interpretable(f):
                    r = self.call(f, [x, y])
                    return not self.truth(r)
        return self.eq_term(a, b)

    def eq_term(self, a, b):
        P = self.P
        if isinstance(a, Sym) and a.t.sort() == Val or \
                isinstance(b, Sym) and b.t.sort() == Val:
            if P.ghost.get('eqclasses'):
                # values may have user defined equality
                a, b = self.resolve(a), self.resolve(b)
            else:
                ra = a if isinstance(a, Sym) else None
                x, y = a, b
                if isinstance(x, Obj) or isinstance(y, Obj):
                    o = x if isinstance(x, Obj) else y
                    if isinstance(self.rec(o), (LRec, MRec)):
                        a, b = self.resolve(a), self.resolve(b)
                    else:
                        return eqt(self.to_val(a), self.to_val(b))
                else:
                    return eqt(self.to_val(a), self.to_val(b))
        if isinstance(a, Obj) or isinstance(b, Obj):
            found, r = self.eq_dispatch(a, b)
            if found:
                return self.truth(r)
            if isinstance(a, Obj) and isinstance(b, Obj):
                if a.oid == b.oid:
                    return True
                ra, rb = self.rec(a), self.rec(b)
                if isinstance(ra, LRec) and isinstance(rb, LRec):
                    if self.container_base(a.cls) is not \
                            self.container_base(b.cls):
                        return False
                    x = seq_explicit(self.segs(a))
                    y = seq_explicit(self.segs(b))
                    if x is None or y is None:
                        raise Unsupported('== of symbolic lists')
                    if len(x) != len(y):
                        return False
                    return And(*[self.lit(self.eq_term(p, q))
                                 for p, q in zip(x, y)])
                if isinstance(ra, MRec) and isinstance(rb, MRec):
                    if not (ra.m.explicit and rb.m.explicit):
                        raise Unsupported('== of symbolic maps')
                    if len(ra.m.entries) != len(rb.m.entries):
                        return False
                    for k, v in ra.m.entries:
                        if not P.choose(rb.m.has(P, k)):
                            return False
                        if not P.choose(self.lit(self.eq_term(
                                v, rb.m.get(P, k)))):
                            return False
                    return True
                if a.cls in (set, frozenset) and b.cls in (set, frozenset):
                    x, y = ra.fields['set'], rb.fields['set']
                    if x.segs or y.segs:
                        raise Unsupported('== of symbolic sets')
                    if len(x.vals) != len(y.vals):
                        return False
                    return all(any(self.eq_choose(p, q) for q in y.vals)
                               for p in x.vals)
                if getattr(a.cls, '__module__', '') == 'uuid' and \
                        getattr(b.cls, '__module__', '') == 'uuid':
                    return eqt(self.to_val(self.field(a, 'int')),
                               self.to_val(self.field(b, 'int')))
                return False
            o = a if isinstance(a, Obj) else b
            other = b if o is a else a
            if o.origin is not None and isinstance(other, Sym) and \
                    other.t.sort() == Val:
                return eqt(o.origin, other.t)
            if o.cls is tuple and isinstance(other, tuple):
                raise Unsupported('== of symbolic tuples')
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.lit(self.eq_term(x, y)) for x, y in zip(a, b)])
        if isinstance(a, SBytes) or isinstance(b, SBytes):
            if isinstance(a, SBytes) and isinstance(b, SBytes):
                if a is b:
                    return True
                if a.text is None or b.text is None:
                    return False
                if a.enc != b.enc:
                    raise Unsupported('bytes of different encodings')
                return self.lit(self.eq_term(a.text, b.text))
            o = b if isinstance(a, SBytes) else a
            s = a if isinstance(a, SBytes) else b
            if isinstance(o, bytes):
                if s.text is None:
                    raise Unsupported('comparison with undecodable bytes')
                try:
                    return self.lit(self.eq_term(s.text, o.decode(s.enc)))
                except UnicodeDecodeError:
                    return False
            return False
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
                return a.fn is b.fn and \
                    self.lit(self.eq_term(a.self, b.self))
            if isinstance(a, BoundMethod) or isinstance(b, BoundMethod):
                return False
            return a is b or bool(a == b)
        # scalar symbols
        ka = a.t.sort() if isinstance(a, Sym) else None
        kb = b.t.sort() if isinstance(b, Sym) else None
        num = lambda v, k: k in (Int, Bool) or isinstance(v, (int, bool))
        if num(a, ka) and num(b, kb):
            x = self.num_t(a)
            y = self.num_t(b)
            return eqt(x, y)
        if (ka == Str or isinstance(a, str)) and \
                (kb == Str or isinstance(b, str)):
            return eqt(self.str_t(a), self.str_t(b))
        return False

    def num_t(self, v):
        if isinstance(v, Sym):
            if v.t.sort() == Bool:
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            return v.t
        return z3.IntVal(int(v))

    # -- containers -----------------------------------------------------------

    from containers import (getitem, setitem, delitem, getslice, contains,
                            to_segs, items_segs, cont_method, str_method,
                            length, to_str, sbytes_decode, str_encode)   # noqa

    # -- calls ----------------------------------------------------------------

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                not n.args:
            e = env
            while e is not None and not (
                    e.cells and '__class__' in e.cells):
                e = e.parent
            if e is None or not e.first:
                raise Unsupported('zero argument super')
            return self.call(super, [self.lookup('__class__', e),
                                     e.first[0]], {})
        f = self.eval(n.func, env)
        args = self.elts(n.args, env)
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, Obj) and self.is_map(v):
                    m = self.m(v)
                    if m.explicit:
                        for a, b in m.entries:
                            if not isinstance(a, str):
                                if len(n.keywords) == 1:
                                    kwargs = {'**': v}
                                    break
                                raise Unsupported('symbolic keyword')
                            kwargs[a] = b
                    else:
                        kwargs['**'] = v
                else:
                    raise Unsupported('** argument')
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    def e_ListComp(self, n, env):
        out = self.new_list()
        self.comp(n.generators, 0, Env({}, parent=env, globs=env.globs),
                  lambda e: self.append(out, self.eval(n.elt, e)))
        return out

    def e_SetComp(self, n, env):
        out = self.new_list()
        self.comp(n.generators, 0, Env({}, parent=env, globs=env.globs),
                  lambda e: self.append(out, self.eval(n.elt, e)))
        return self.call(set, [out])

    def e_DictComp(self, n, env):
        out = self.new_map()

        def put(e):
            k = self.eval(n.key, e)
            self.setitem(out, k, self.eval(n.value, e))
        self.comp(n.generators, 0, Env({}, parent=env, globs=env.globs), put)
        return out

    def e_GeneratorExp(self, n, env):
        node = ast.FunctionDef(name='<genexpr>', args=ast.arguments(
            posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
            defaults=[]), body=[], decorator_list=[])
        # evaluated lazily by the consumer
        body = [ast.Expr(ast.Yield(n.elt))]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        node.body = body
        e = Env({}, parent=env, globs=env.globs)
        return Gen(node, e)

    def append(self, o, v):
        r = self.rec(o)
        r.segs = r.segs + (Items((v,)),)

    def comp(self, gens, i, env, emit):
        if i == 0:
            self.P.frames.append(env)
        try:
            if i == len(gens):
                emit(env)
                return
            g = gens[i]
            src = self.eval(g.iter, env)

            def step(v):
                self.assign(g.target, v, env)
                for c in g.ifs:
                    if not self.truth(self.eval(c, env)):
                        return
                self.comp(gens, i + 1, env, emit)
            self.iterate(src, step)
        finally:
            if i == 0:
                self.pop_frame(env)
