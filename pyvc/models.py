"""Models of builtins and trusted library functions."""
import array
import ast
import builtins
import functools
import hashlib
import hmac
import io
import itertools
import os
import struct
import types
import unicodedata
import re
import z3

from . import words, api, core, values as V
from .core import st, Unsupported, PathEnd, ObligationFailed
from .values import (SInt, SBool, Seq, Elems, Sub, Rep, IntEnc, Flat, Atom, PList, PBytearray, PDict, Obj, ExcVal,
                     Closure, BoundM, Model, Partial, Opaque, UNDEF, I, T, TB, B, And, Or, Not, to_seq, norm_seq,
                     force, eq_cond, is_intlike, kind_of, prove_eq, tadd, tsub, tmul, norm_t)
from .interp import (PyRaise, consume, MISSING, GenExp, GenResult, SetVal, RangeVal, IterVal, map_seq, CompFrame, StarSeq,
                     _is_repo_class)
from . import ops
from .ops import raise_, native

NATIVE_OK = (int, str, bytes, bytearray, float, type(None), bool, type, slice, range, complex)


def deep_native(v, depth=0):
    if isinstance(v, (tuple, list, set, frozenset)):
        return depth < 6 and all(deep_native(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return depth < 6 and all(deep_native(x, depth + 1) for x in v.values())
    return native(v)


def call_native(fn, args, kw):
    try:
        return fn(*args, **kw)
    except Exception as e:
        raise_(type(e), *e.args)


def nat(v):
    """Native value of a fully concrete value, else MISSING."""
    v = force(v)
    if isinstance(v, PList):
        q = v.seq
        if all(isinstance(g, Elems) for g in q.segs):
            r = [nat(x) for g in q.segs for x in g.items]
            return MISSING if any(x is MISSING for x in r) else r
        return MISSING
    if isinstance(v, PBytearray):
        r = norm_seq(v.seq.with_kind('bytes'))
        return bytearray(r) if isinstance(r, bytes) else MISSING
    if isinstance(v, tuple):
        r = [nat(x) for x in v]
        return MISSING if any(x is MISSING for x in r) else tuple(r)
    if isinstance(v, Seq):
        v = norm_seq(v)
        return MISSING if isinstance(v, Seq) else v
    if isinstance(v, RangeVal) and all(isinstance(x, int) for x in (v.start, v.stop, v.step)):
        return range(v.start, v.stop, v.step)
    if isinstance(v, (GenExp, GenResult, IterVal, SetVal)):
        return MISSING
    return v if native(v) else MISSING


# ------------------------------------------------------------------ python classes of values
def pyclass(v):
    v = force(v)
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SInt):
        return v.cls or int
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, PList):
        return list
    if isinstance(v, PBytearray):
        return bytearray
    if isinstance(v, PDict):
        return dict
    if isinstance(v, Seq):
        return {'bytes': bytes, 'str': str, 'tuple': tuple, 'list': list, 'bytearray': bytearray}[v.kind]
    if isinstance(v, SetVal):
        return set
    if isinstance(v, ExcVal):
        return v.cls
    if isinstance(v, (GenExp, GenResult)):
        return types.GeneratorType
    if isinstance(v, Closure):
        return types.FunctionType
    if isinstance(v, (BoundM,)):
        return types.MethodType
    if isinstance(v, RangeVal):
        return range
    if isinstance(v, Opaque):
        if v.why == 'str':
            return str
        raise Unsupported('class of opaque value')
    if hasattr(v, 'pyclass'):
        return v.pyclass
    if isinstance(v, (Model, Partial)):
        return types.FunctionType
    return type(v)


def isinstance_(it, v, c):
    c = force(c)
    if isinstance(c, tuple):
        return any(isinstance_(it, v, x) for x in c)
    cls = pyclass(v)
    if not isinstance(c, type):
        raise_(TypeError, 'isinstance() arg 2')
    return issubclass(cls, c)


# ------------------------------------------------------------------ streams
class PStream:
    """A readable stream: `rest` not yet read; only `limit` more bytes are there (None: all)."""
    pyclass = io.BytesIO

    def __init__(self, rest, limit=None):
        self.rest, self.limit = rest, limit
        self.consumed = 0

    def read(self, it, args):
        s = st()
        it.wrote(self)
        n = args[0] if args else -1
        if n is None:
            n = -1
        n = T(n)
        L = self.rest.length()
        avail = L if self.limit is None else self.limit
        if isinstance(n, int) and n < 0 or not isinstance(n, int) and s.branch(n < 0):
            take = avail
        elif isinstance(n, int) and isinstance(avail, int):
            take = min(n, avail)
        elif self.limit is None and isinstance(n, int) and n <= known_prefix(self.rest):
            take = n
        else:
            take = n if s.branch(TB(avail >= n)) else avail
            if take is avail and not isinstance(avail, int) and isinstance(n, int) and n <= 64:
                take = s.concretize(avail, n + 1) if n <= 4 else take
        a, b = V.seq_split(self.rest, take)
        self.rest = b
        self.consumed = tadd(self.consumed, take)
        if self.limit is not None:
            self.limit = tsub(self.limit, take)
        return norm_seq(a)

    def reader(self):
        m = Model(lambda it, a, kw: self.read(it, a), 'read')
        m.stream = self
        return m

    def __repr__(self):
        return f'PStream({self.rest}, {self.limit})'


def known_prefix(q):
    n = 0
    for g in q.segs:
        k = g.length()
        if not isinstance(k, int):
            break
        n += k
    return n


# ------------------------------------------------------------------ struct
class StructModel:
    def __init__(self, s):
        fmt = s.format
        self.fmt = fmt
        self.size = s.size
        self.fields = []
        order = 'little'
        i = 0
        if fmt[0] in '<>!=@':
            order = {'<': 'little', '>': 'big', '!': 'big', '=': 'little', '@': 'little'}[fmt[0]]
            i = 1
        num = ''
        for ch in fmt[i:]:
            if ch.isspace():
                continue
            if ch.isdigit():
                num += ch
                continue
            k = int(num) if num else 1
            num = ''
            if ch == 's':
                self.fields.append(('s', k, False))
            elif ch in 'bBhHiIlLqQ':
                size = {'b': 1, 'h': 2, 'i': 4, 'l': 4, 'q': 8}[ch.lower()]
                self.fields += [('i', size, ch.islower())] * k
            else:
                raise Unsupported(f'struct format {fmt}')
        if sum(f[1] for f in self.fields) != s.size:
            raise Unsupported(f'struct format {fmt} has padding')
        self.order = order

    def pack(self, it, args):
        s = st()
        if len(args) != len(self.fields):
            raise_(struct.error, 'wrong number of arguments')
        out = []
        for (k, n, signed), v in zip(self.fields, args):
            v = force(v)
            if k == 's':
                if kind_of(v) not in ('bytes', 'bytearray'):
                    raise_(struct.error, "argument for 's' must be a bytes object")
                q = to_seq(v)
                L = q.length()
                if s.branch(TB(L == n) if not isinstance(L, int) else L == n):
                    out.append(q)
                elif s.branch(TB(L > n) if not isinstance(L, int) else L > n):
                    out.append(V.seq_slice(q, 0, n))
                else:
                    out.append(q)
                    out.append(Seq('bytes', [Rep(0, tsub(n, L))]))
                continue
            if not is_intlike(v):
                raise_(struct.error, 'required argument is not an integer')
            t = T(v)
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1))) if signed else (0, 1 << (8 * n))
            ok = lo <= t < hi if isinstance(t, int) else s.branch(z3.And(t >= lo, t < hi))
            if not ok:
                raise_(struct.error, 'format requires value in range')
            if signed:
                t = t % (1 << 8 * n) if isinstance(t, int) else z3.If(t < 0, t + (1 << 8 * n), t)
            if isinstance(t, int):
                out.append(t.to_bytes(n, self.order))
            elif n == 1:
                out.append(Seq('bytes', [Elems([I(t)])]))
            else:
                out.append(Seq('bytes', [IntEnc(norm_t(t), n, self.order)]))
        return norm_seq(V.seq_concat('bytes', out))

    def unpack(self, it, args, at=None):
        s = st()
        v = force(args[0])
        if kind_of(v) not in ('bytes', 'bytearray'):
            raise_(TypeError, 'a bytes-like object is required')
        q = to_seq(v)
        L = q.length()
        off = 0
        if at is not None:
            off = T(at)
            ok = s.branch(TB(L >= off + self.size)) if not (isinstance(L, int) and isinstance(off, int)) \
                else L >= off + self.size
            if not isinstance(off, int):
                if not s.branch(off >= 0):
                    raise Unsupported('negative offset')
            elif off < 0:
                raise Unsupported('negative offset')
        else:
            ok = s.branch(L == self.size) if not isinstance(L, int) else L == self.size
        if not ok:
            raise_(struct.error, f'unpack requires a buffer of {self.size} bytes')
        out = []
        _, rest = V.seq_split(q, off)
        for k, n, signed in self.fields:
            a, rest = V.seq_split(rest, n)
            if k == 's':
                out.append(norm_seq(a.with_kind('bytes')))
                continue
            t = V.seq_value(a, self.order)
            if isinstance(t, int):
                if signed and t >= 1 << (8 * n - 1):
                    t -= 1 << 8 * n
                out.append(t)
                continue
            s.assume(z3.And(t >= 0, t < 1 << (8 * n)))
            if signed:
                t = z3.If(t >= 1 << (8 * n - 1), t - (1 << 8 * n), t)
            out.append(I(t))
        return tuple(out)


_structs = {}


def struct_model(s):
    if id(s) not in _structs:
        _structs[id(s)] = (StructModel(s), s)
    return _structs[id(s)][0]


# ------------------------------------------------------------------ hashes (uninterpreted)
def uf_bytes(name, inputs, length, native_fn=None):
    """A fixed-length byte string that is a function of the inputs (byte sequences)."""
    s = st()
    nats = [nat(x) for x in inputs]
    if native_fn is not None and all(x is not MISSING for x in nats):
        return native_fn(*[bytes(x) if isinstance(x, bytearray) else x for x in nats])
    known = s.registry.get(('uf', name), ())
    ins = [drop_empty(norm_seq(to_seq(x).with_kind('bytes'))) if kind_of(x) in ('bytes', 'bytearray') else x for x in inputs]
    for (k, v) in known:
        if len(k) == len(ins) and all(eq_quick(a, b) for a, b in zip(k, ins)):
            return v
    v = V.sym_bytes(s.fresh(name), length)
    s.registry[('uf', name)] = tuple(known) + ((ins, v),)
    return v


def drop_empty(q):
    """Without its provably empty parts."""
    if not isinstance(q, V.Seq):
        return q
    segs = [g for g in q.segs if isinstance(g, V.Flat) or isinstance(g.length(), int) or not st().entails(TB(g.length() == 0))]
    return q if len(segs) == len(q.segs) else norm_seq(V.Seq(q.kind, segs))


def eq_quick(a, b):
    if a is b:
        return True
    try:
        return prove_eq(a, b)
    except Unsupported:
        return False


class HashObj:
    def __init__(self, name, data=b'', key=None):
        self.name, self.data, self.key = name, data, key
        self.pyclass = type(hashlib.sha256())

    def attr(self, it, name):
        if name == 'update':
            def upd(it, a, kw):
                it.wrote(self)
                self.data = norm_seq(V.seq_concat('bytes', [self.data, bytes_arg(it, a[0])]))
            return Model(upd, 'update')
        if name == 'digest':
            return Model(lambda it, a, kw: self.digest(), 'digest')
        if name == 'hexdigest':
            from .strs import hex_of
            return Model(lambda it, a, kw: hex_of(self.digest()) if not isinstance(self.digest(), bytes)
                         else self.digest().hex(), 'hexdigest')
        if name == 'digest_size':
            return hashlib.new(self.name).digest_size
        return MISSING

    def digest(self):
        n = hashlib.new(self.name).digest_size
        if self.key is None:
            return uf_bytes(self.name, [self.data], n, lambda d: hashlib.new(self.name, d).digest())
        return uf_bytes('hmac_' + self.name, [self.key, self.data], n,
                        lambda k, d: hmac.digest(k, d, self.name))


def bytes_arg(it, v):
    v = force(v)
    k = kind_of(v)
    if k in ('bytes', 'bytearray'):
        return norm_seq(to_seq(v).with_kind('bytes'))
    if isinstance(v, Obj):
        m = it.class_attr(v.cls, '__bytes__')
    raise_(TypeError, 'a bytes-like object is required')


# ------------------------------------------------------------------ builtin functions
MODELS = {}


def model(*objs):
    def deco(fn):
        for o in objs:
            MODELS[o] = (o, Model(fn, getattr(o, '__name__', str(o))))
        return fn
    return deco


def len_(it, v):
    v = force(v)
    if isinstance(v, (Seq, PList, PBytearray, bytes, str, tuple, list, bytearray, range)):
        return I(to_seq(v).length())
    if isinstance(v, PDict):
        return len(v.items)
    if isinstance(v, (dict, set, frozenset)):
        return len(v)
    if isinstance(v, RangeVal):
        return I(v.count())
    if isinstance(v, SetVal):
        # number of distinct items
        out = []
        for x in v.items:
            if not any(st().branch(TB(eq_cond(x, y))) for y in out):
                out.append(x)
        return len(out)
    if isinstance(v, Obj):
        m = it.class_attr(v.cls, '__len__')
        if m is not MISSING:
            return it.call(BoundM(v, m), [], {})
        raise_(TypeError, 'no len()')
    if hasattr(v, 'sym_len'):
        return v.sym_len(it)
    if isinstance(v, (SInt, SBool, int, float, type(None), GenExp, GenResult, Closure, BoundM, Model)):
        raise_(TypeError, 'object has no len()')
    if isinstance(v, Opaque):
        raise Unsupported('len of opaque')
    return call_native(len, [v], {})


@model(len)
def m_len(it, a, kw):
    return len_(it, a[0])


@model(isinstance)
def m_isinstance(it, a, kw):
    return isinstance_(it, a[0], a[1])


@model(issubclass)
def m_issubclass(it, a, kw):
    return issubclass(a[0], a[1])


@model(hasattr)
def m_hasattr(it, a, kw):
    return it.hasattr(a[0], a[1])


@model(getattr)
def m_getattr(it, a, kw):
    if len(a) == 3:
        try:
            return it.getattr(a[0], a[1])
        except PyRaise as e:
            if issubclass(e.exc.cls, AttributeError):
                return a[2]
            raise
    return it.getattr(a[0], a[1])


@model(setattr)
def m_setattr(it, a, kw):
    return it.setattr(a[0], a[1], a[2])


@model(object.__setattr__)
def m_osetattr(it, a, kw):
    return it.setattr(a[0], a[1], a[2], raw=True)


@model(callable)
def m_callable(it, a, kw):
    v = force(a[0])
    if isinstance(v, (Closure, BoundM, Model, Partial)):
        return True
    if isinstance(v, Obj):
        return it.class_attr(v.cls, '__call__') is not MISSING
    return callable(v) if native(v) else False


@model(print)
def m_print(it, a, kw):
    return None


@model(repr, ascii)
def m_repr(it, a, kw):
    if hasattr(force(a[0]), 'sym_repr'):
        return force(a[0]).sym_repr(it)
    v = nat(a[0])
    if v is not MISSING and isinstance(v, NATIVE_OK + (tuple, list)):
        return repr(v)
    v = force(a[0])
    if isinstance(v, SInt) and v.cls is None:
        from .strs import dec_str
        return dec_str(it, v)
    return Opaque('str')


@model(id)
def m_id(it, a, kw):
    raise Unsupported('id()')


@model(type)
def m_type(it, a, kw):
    if len(a) != 1:
        raise Unsupported('type() with 3 arguments')
    return pyclass(a[0])


@model(abs)
def m_abs(it, a, kw):
    v = force(a[0])
    if isinstance(v, (SInt, SBool)):
        t = T(v)
        return I(t) if st().branch(t >= 0) else I(-t)
    return call_native(abs, [v], {})


@model(divmod)
def m_divmod(it, a, kw):
    return (it.binop(ast.FloorDiv(), a[0], a[1]), it.binop(ast.Mod(), a[0], a[1]))


@model(pow)
def m_pow(it, a, kw):
    if len(a) == 2:
        return it.binop(ast.Pow(), a[0], a[1])
    n = [nat(x) for x in a]
    if all(x is not MISSING for x in n):
        return call_native(pow, n, {})
    raise Unsupported('modular power')


@model(ord)
def m_ord(it, a, kw):
    v = force(a[0])
    if kind_of(v) == 'str' or kind_of(v) == 'bytes':
        q = to_seq(v)
        L = q.length()
        if not (L == 1 if isinstance(L, int) else st().branch(L == 1)):
            raise_(TypeError, 'ord() expected a character')
        return V.seq_get(q, 0)
    raise_(TypeError, 'ord() expected string')


@model(chr)
def m_chr(it, a, kw):
    t = T(a[0])
    if isinstance(t, int):
        return call_native(chr, [t], {})
    if not st().branch(z3.And(t >= 0, t < 0x110000)):
        raise_(ValueError, 'chr() arg not in range')
    return norm_seq(Seq('str', [Elems([I(t)])]))


@model(hash)
def m_hash(it, a, kw):
    return hash_(it, a[0])


def hash_(it, v):
    s = st()
    v = force(v)
    if isinstance(v, Obj):
        m = it.class_attr(v.cls, '__hash__')
        if m is None:
            raise_(TypeError, 'unhashable type')
        if m is not MISSING:
            return it.call(BoundM(v, m), [], {})
        raise Unsupported('identity hash')
    if isinstance(v, (PList, PDict, PBytearray, SetVal)):
        raise_(TypeError, 'unhashable type')
    n = nat(v)
    if n is not MISSING:
        if not isinstance(n, NATIVE_OK + (tuple,)):
            n = n
    if isinstance(v, tuple) or isinstance(v, Seq) and v.kind == 'tuple':
        q = to_seq(v)
        L = q.concrete_len()
        if L is None:
            # elementwise hash of a symbolic tuple: canonical by equality of the element hashes
            q2 = Seq('tuple', [Sub(Atom(s.fresh('hs'), q.length(), lambda i: hash_(it, V.seq_get(q, i)), (), 'list'),
                                   0, q.length())])
            key = q2
        else:
            key = tuple(hash_(it, it.elem(q, i)) for i in range(L))
        tag = 'tuple'
    elif is_intlike(v):
        return I(T(v)) if not isinstance(v, (int,)) else v
    elif kind_of(v) in ('bytes', 'str'):
        key, tag = v, kind_of(v)
    elif v is None or isinstance(v, type):
        key, tag = v, 'const'
    elif native(v):
        key, tag = v, 'native'
    else:
        raise Unsupported(f'hash of {v!r}')
    known = s.registry.get(('hashes', tag), ())
    for k, h in known:
        if eq_quick(k, key):
            return h
    h = SInt(s.fresh_int('hash'))
    s.registry[('hashes', tag)] = tuple(known) + ((key, h),)
    return h


def gen_items(it, v):
    """Iterate lazily: returns (n or None, function i -> value (may raise), exc)."""
    from . import loops
    v = force(v)
    if isinstance(v, GenExp) and len(v.node.generators) == 1 and not v.node.generators[0].ifs and not hasattr(v, 'gen'):
        consume(v)
        q, exc = loops.source_seq(it, v.first)
        g = v.node.generators[0]

        def get(i):
            cf = CompFrame(v.frame)
            it.assign(g.target, it.elem(q, i), cf)
            return it.eval(v.node.elt, cf)
        return q.length(), get, exc
    q, exc = loops.source_seq(it, v)
    return q.length(), (lambda i: it.elem(q, i)), exc


def all_any(it, v, isall):
    from . import loops
    n, get, exc = gen_items(it, v)
    if not isinstance(n, int):
        u = loops.unique_value(n)
        n = u if u is not None else n
    if isinstance(n, int) and n <= 80:
        for i in range(n):
            if it.truth(get(i)) != isall:
                return not isall
        if exc is not None:
            raise PyRaise(exc)
        return isall

    def ok(i):
        def go():
            try:
                c = it.truth_cond(get(i))
            except PyRaise:
                return core.FALSE
            return TB(c if isall else Not(c))
        return loops.guarded(go)
    r, k = V.decide_all(n, ok)
    if r:
        if exc is not None:
            raise PyRaise(exc)
        return isall
    v = get(k)
    if it.truth(v) == isall:
        raise PathEnd()
    return not isall


@model(all)
def m_all(it, a, kw):
    return all_any(it, a[0], True)


@model(any)
def m_any(it, a, kw):
    return all_any(it, a[0], False)


@model(sum)
def m_sum(it, a, kw):
    q = it.iter_seq(a[0])
    acc = a[1] if len(a) > 1 else kw.get('start', 0)
    for g in q.segs:
        n = g.length()
        if isinstance(g, Elems) or isinstance(n, int) and n <= 64:
            for k in range(n):
                acc = it.binop(ast.Add(), force(acc), force(V.seg_get(g, k)))
            continue
        if isinstance(g, Rep):
            acc = it.binop(ast.Add(), acc, I(T(g.v) * g.n))
            continue
        inst = V.abstract_fn(n, lambda i: T(force(V.seg_get(g, i))), sign=True)
        so = V.sum_obj(n, inst)
        acc = it.binop(ast.Add(), acc, I(so.at(n)))
    return acc


def minmax(it, a, kw, ismax):
    if len(a) == 1:
        q = it.iter_seq(a[0])
        n = q.length()
        if not isinstance(n, int):
            n = st().concretize(n, 40)
        items = [it.elem(q, i) for i in range(n)]
        if not items:
            if 'default' in kw:
                return kw['default']
            raise_(ValueError, 'empty sequence')
    else:
        items = list(a)
    key = kw.get('key')
    best = items[0]
    bk = it.call(key, [best], {}) if key else best
    for x in items[1:]:
        xk = it.call(key, [x], {}) if key else x
        c = it.compare(ast.Gt() if ismax else ast.Lt(), xk, bk)
        if key is None and is_intlike(x) and is_intlike(best):
            c = TB(c)
            best = bk = I(z3.If(c, T(x) if isinstance(T(x), z3.ExprRef) else z3.IntVal(T(x)),
                                T(best) if isinstance(T(best), z3.ExprRef) else z3.IntVal(T(best))))
        elif it.truth(c):
            best, bk = x, xk
    return best


@model(max)
def m_max(it, a, kw):
    return minmax(it, a, kw, True)


@model(min)
def m_min(it, a, kw):
    return minmax(it, a, kw, False)


@model(array.array)
def m_array(it, a, kw):
    """A list of integers; that they fit the type code is not checked."""
    if len(a) > 1:
        return it.box(PList(it.iter_seq(a[1]).with_kind('list')))
    return it.box(PList([]))


@model(sorted)
def m_sorted(it, a, kw):
    q = it.iter_seq(a[0])
    n = q.length()
    if not isinstance(n, int):
        n = st().concretize(n, 40)
    items = [it.elem(q, i) for i in range(n)]
    return it.box(PList(sort_items(it, items, kw)))


def same_multiset(a, b):
    """The terms are pairwise equal in some order, looked for in order and in reverse."""
    return len(a) == len(b) and (all(V.teq(x, y) for x, y in zip(a, b)) or all(V.teq(x, y) for x, y in zip(a, reversed(b))))


def sort_items(it, items, kw):
    s = st()
    key = kw.get('key')
    rev = kw.get('reverse', False)
    if rev is not False:
        rev = it.truth(rev)
    if all(nat(x) is not MISSING for x in items) and key is None:
        return call_native(sorted, [[nat(x) for x in items]], {'reverse': rev})
    keys = [it.call(key, [x], {}) if key else x for x in items]
    if len(items) <= 3:
        # insertion sort with forks (stable)
        out = []
        for x, k in zip(items, keys):
            j = len(out)
            while j > 0 and it.truth(it.compare(ast.Gt() if rev else ast.Lt(), k, out[j - 1][1])):
                j -= 1
            out.insert(j, (x, k))
        return [x for x, _ in out]
    if key is None and all(is_intlike(x) for x in items):
        # canonical sorted values of this multiset
        known = s.registry.get('sorted', ())
        ts = [T(x) if isinstance(T(x), z3.ExprRef) else z3.IntVal(T(x)) for x in items]
        ids = sorted(z3.simplify(t).sexpr() for t in ts)
        for kids, kts, vals in known:
            if kids == ids:
                return list(vals) if not rev else list(reversed(vals))
            if same_multiset(kts, ts):
                return list(vals) if not rev else list(reversed(vals))
        vals = [SInt(s.fresh_int('srt')) for _ in items]
        for x, y in zip(vals, vals[1:]):
            s.assume(x.t <= y.t)
        for v in vals:
            s.assume(z3.Or(*[v.t == t for t in ts]))
        for t in ts:
            s.assume(z3.Or(*[v.t == t for v in vals]))
        s.registry['sorted'] = tuple(known) + ((ids, ts, tuple(vals)),)
        return vals if not rev else list(reversed(vals))
    raise Unsupported('sort of symbolic items')


@model(reversed)
def m_reversed(it, a, kw):
    v = force(a[0])
    if isinstance(v, RangeVal):
        return reversed_range(v)
    if isinstance(v, (GenExp, GenResult)):
        raise_(TypeError, 'not reversible')
    return IterVal(V.seq_reverse(it.iter_seq(v)))


def reversed_range(v):
    return IterVal(V.seq_reverse(v.seq()))


@model(enumerate)
def m_enumerate(it, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    q = it.iter_seq(a[0])
    n = q.length()
    if isinstance(n, int) and n <= it.max_unroll:
        return IterVal(Seq('tuple', [Elems([(I(T(start) + i), it.elem(q, i)) for i in range(n)])]))
    at = Atom(st().fresh('enum'), n, lambda i: (I(T(start) + i), it.elem(q, i)), (), 'list')
    return IterVal(Seq('tuple', [Sub(at, 0, n)]))


@model(zip)
def m_zip(it, a, kw):
    qs = [it.iter_seq(x) for x in a]
    ns = [q.length() for q in qs]
    n = ns[0]
    for m in ns[1:]:
        if isinstance(n, int) and isinstance(m, int):
            n = min(n, m)
        elif not V.same_term(n, m):
            n = n if st().branch(TB(n <= m)) else m
    if isinstance(n, int) and n <= it.max_unroll:
        return IterVal(Seq('tuple', [Elems([tuple(it.elem(q, i) for q in qs) for i in range(n)])]))
    at = Atom(st().fresh('zip'), n, lambda i: tuple(it.elem(q, i) for q in qs), (), 'list')
    return IterVal(Seq('tuple', [Sub(at, 0, n)]))


@model(map)
def m_map(it, a, kw):
    from . import loops
    q, exc = loops.source_seq(it, a[1])
    if len(a) != 2:
        raise Unsupported('map with several iterables')
    n = q.length()
    fn = a[0]
    if isinstance(n, int) and n <= it.max_unroll:
        r = [it.call(fn, [it.elem(q, i)], {}) for i in range(n)]
        if exc is not None:
            raise PyRaise(exc)
        return IterVal(Seq('tuple', [Elems(r)]))
    node = ast.parse('[f_(x_) for x_ in it_]', mode='eval').body
    from .interp import Frame
    fr = Frame(node, None, {}, 'map', None, ({'f_', 'it_'}, set(), False))
    fr.locals.update(f_=fn, it_=IterVal(q))
    return IterVal(loops.comp_seq(it, node, fr))


@model(filter)
def m_filter(it, a, kw):
    q = it.iter_seq(a[1])
    n = q.concrete_len()
    if n is None:
        raise Unsupported('filter')
    return IterVal(Seq('tuple', [Elems([x for x in (it.elem(q, i) for i in range(n))
                                        if it.truth(x if a[0] is None else it.call(a[0], [x], {}))])]))


@model(iter)
def m_iter(it, a, kw):
    v = force(a[0])
    if isinstance(v, (GenExp, GenResult)) or isinstance(v, IterVal) and not v.view:
        return v
    return it.box(GenResult(it.iter_seq(v)))


@model(next)
def m_next(it, a, kw):
    v = force(a[0])
    if isinstance(v, GenExp):
        g = getattr(v, 'gen', None)
        if g is None:
            g = it.box(GenResult(it.iter_seq(v)))
            v.gen = g
        v = g
    if isinstance(v, IterVal):
        v2 = getattr(v, 'gen', None)
        if v2 is None:
            v2 = it.box(GenResult(consume(v)))
            v.gen = v2
        v = v2
    if isinstance(v, GenResult):
        if getattr(v, 'used', False):
            raise Unsupported('next() after a pass over an iterator')
        it.wrote(v)
        n = v.seq.length()
        p = v.pos
        if s_lt(p, n):
            v.pos = p + 1
            return it.elem(v.seq, p)
        if v.exc is not None:
            e, v.exc = v.exc, None
            raise PyRaise(e)
        if len(a) > 1:
            return a[1]
        raise_(StopIteration)
    raise Unsupported('next()')


def s_lt(p, n):
    return p < n if isinstance(n, int) else st().branch(TB(p < n))


# ------------------------------------------------------------------ builtin classes
def builtin_class(it, cls, args, kw):
    args = [force(x) for x in args]
    h = CLASS.get(cls)
    if h is not None:
        return h(it, args, kw)
    nargs = [nat(x) for x in args]
    if all(x is not MISSING and deep_native(x) for x in nargs) and all(native(x) for x in kw.values()):
        return call_native(cls, nargs, kw)
    raise Unsupported(f'{cls.__module__}.{cls.__name__}(...)')


CLASS = {}


def clsmodel(c):
    def deco(f):
        CLASS[c] = f
        return f
    return deco


@clsmodel(bool)
def c_bool(it, a, kw):
    return B(it.truth_cond(a[0])) if a else False


@clsmodel(int)
def c_int(it, a, kw):
    if not a:
        return 0
    v = a[0]
    if len(a) == 1 and not kw:
        if isinstance(v, SInt):
            return SInt(v.t)
        if isinstance(v, SBool):
            return I(T(v))
        if isinstance(v, Seq) and v.kind == 'str':
            segs = v.segs
            if len(segs) == 1 and isinstance(segs[0], Sub) and getattr(segs[0].atom, 'dec_of', None) is not None \
                    and V.same_term(segs[0].lo, 0) and V.teq(segs[0].n, segs[0].atom.length):
                return I(segs[0].atom.dec_of)
            from .text import parse_decimal
            return parse_decimal(it, v)
        if isinstance(v, Obj):
            m = it.class_attr(v.cls, '__int__')
            if m is not MISSING:
                return it.call(BoundM(v, m), [], {})
            raise_(TypeError, 'int() argument')
        if isinstance(v, Seq) or isinstance(v, (PList, PDict)):
            if kind_of(v) in ('list', 'tuple', 'dict'):
                raise_(TypeError, 'int() argument')
    n = [nat(x) for x in a]
    kn = {k: nat(v) for k, v in kw.items()}
    if all(x is not MISSING for x in n) and all(x is not MISSING for x in kn.values()):
        return call_native(int, n, kn)
    base = a[1] if len(a) > 1 else kw.get('base')
    if base == 16 and isinstance(v, Seq) and v.kind == 'str' and v.concrete_len() is not None:
        return parse_hex_int(it, v)
    raise Unsupported(f'int({a})')


def parse_hex_int(it, v):
    s = st()
    n = v.concrete_len()
    val = 0
    if len(v.segs) == 1 and isinstance(v.segs[0], V.Hex) and n:
        return I(V.seq_value(to_seq(v.segs[0].seq), 'big'))
    cs = [T(V.seq_get(v, k)) for k in range(n)]
    if n >= 8 and not any(isinstance(c, int) for c in cs) and s.entails(z3.And(*[z3.Or(
            z3.And(c >= 48, c <= 57), z3.And(c >= 97, c <= 102), z3.And(c >= 65, c <= 70)) for c in cs])):
        # a number of its own, whose n hexadecimal digits are these
        key = ('hex number', tuple(c.get_id() for c in cs))
        if key not in s.registry:
            t = s.fresh_int('hx')
            s.assume(z3.And(0 <= t, t < 16 ** n, t == sum(
                16 ** (n - 1 - k) * z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87)) for k, c in enumerate(cs))))
            s.registry[key] = t, cs
            s.registry[('hex digits', t.get_id())] = t, [I(z3.If(z3.And(c >= 65, c <= 90), c + 32, c)) for c in cs]
        return I(s.registry[key][0])
    for k in range(n):
        c = T(V.seq_get(v, k))
        if isinstance(c, int):
            d = int(chr(c), 16) if chr(c) in '0123456789abcdefABCDEF' else None
            if d is None:
                raise Unsupported('int(text, 16)')
        elif s.branch(z3.And(c >= 48, c <= 57)):
            d = c - 48
        elif s.branch(z3.And(c >= 97, c <= 102)):
            d = c - 87
        elif s.branch(z3.And(c >= 65, c <= 70)):
            d = c - 55
        else:
            raise Unsupported('int(text, 16) of text that is not hex digits')
        val = val * 16 + d
    return I(val)


@clsmodel(str)
def c_str(it, a, kw):
    if not a:
        return ''
    v = a[0]
    if len(a) > 1 or kw:
        n = [nat(x) for x in a]
        if all(x is not MISSING for x in n):
            return call_native(str, n, kw)
        return seq_method(it, v, 'decode', a[1:], kw)
    if kind_of(v) == 'str' and not isinstance(v, Opaque):
        return norm_seq(to_seq(v)) if isinstance(v, Seq) else v
    if isinstance(v, SInt):
        if v.cls is None:
            from .strs import dec_str
            return dec_str(it, v)
        return Opaque('str')
    if isinstance(v, Obj):
        m = it.class_attr(v.cls, '__str__')
        if m is not MISSING:
            return it.call(BoundM(v, m), [], {})
    n = nat(v)
    if n is not MISSING and isinstance(n, NATIVE_OK + (tuple, list)):
        return str(n)
    return Opaque('str')


@clsmodel(bytes)
def c_bytes(it, a, kw):
    return make_bytes(it, a, kw, 'bytes')


@clsmodel(bytearray)
def c_bytearray(it, a, kw):
    r = make_bytes(it, a, kw, 'bytearray')
    return it.box(PBytearray(to_seq(r).with_kind('bytearray')))


def make_bytes(it, a, kw, kind):
    s = st()
    if not a:
        return b''
    v = force(a[0])
    if kind_of(v) == 'str':
        if isinstance(v, Opaque):
            raise Unsupported('bytes of opaque text')
        if len(a) < 2 and not kw:
            raise_(TypeError, 'string argument without an encoding')
        return seq_method(it, v, 'encode', a[1:], kw)
    if kind_of(v) in ('bytes', 'bytearray'):
        return norm_seq(to_seq(v).with_kind('bytes'))
    if is_intlike(v):
        n = T(v)
        if not isinstance(n, int):
            if not s.branch(n >= 0):
                raise_(ValueError, 'negative count')
        elif n < 0:
            raise_(ValueError, 'negative count')
        return norm_seq(Seq('bytes', [Rep(0, n)]))
    if isinstance(v, Obj):
        m = it.class_attr(v.cls, '__bytes__')
        if m is not MISSING:
            return it.call(BoundM(v, m), [], {})
        if it.class_attr(v.cls, '__iter__') is MISSING:
            raise_(TypeError, 'cannot convert to bytes')
    if hasattr(v, 'sym_bytes'):
        return v.sym_bytes(it)
    if isinstance(v, (type(None), float)):
        raise_(TypeError, 'cannot convert to bytes')
    if native(v) and not isinstance(v, (list, tuple, range, set, frozenset, dict)):
        return call_native(bytes, [v], {})
    q = it.iter_seq(v)
    if q.kind in ('bytes', 'bytearray'):
        return norm_seq(q.with_kind('bytes'))
    segs = []
    for g in q.segs:
        n = g.length()
        if isinstance(g, Elems) or isinstance(n, int) and n <= 64:
            items = []
            for k in range(n):
                x = force(V.seg_get(g, k))
                items.append(byte_value(it, x))
            segs.append(Elems(items))
        elif isinstance(g, Rep):
            segs.append(Rep(byte_value(it, force(g.v)), g.n))
        elif isinstance(g, Sub):
            def bad(i, g=g):
                x = force(V.seg_get(g, i))
                if not is_intlike(x):
                    return core.FALSE
                t = T(x)
                return TB(And(t >= 0, t < 256) if not isinstance(t, int) else 0 <= t < 256)
            from .loops import guarded
            ok, k = V.decide_all(n, lambda i: guarded(lambda: bad(i)))
            if not ok:
                x = force(V.seg_get(g, k))
                byte_value(it, x)
                raise PathEnd()

            def mk(g):
                def elem(i):
                    x = force(V.seg_get(g, i))
                    if not is_intlike(x):
                        raise PathEnd()
                    t = T(x)
                    if not isinstance(t, int):
                        st().assume(z3.And(t >= 0, t < 256))
                    return I(t)
                return elem
            at = Atom(st().fresh('bytesof'), n, mk(g), (), 'bytes')
            segs.append(Sub(at, 0, n))
        else:
            raise Unsupported('bytes of a concatenation')
    return norm_seq(Seq('bytes', segs))


def byte_value(it, x):
    if not is_intlike(x):
        raise_(TypeError, 'cannot be interpreted as an integer')
    t = T(x)
    if isinstance(t, int):
        if not 0 <= t < 256:
            raise_(ValueError, 'bytes must be in range(0, 256)')
        return t
    if not st().branch(z3.And(t >= 0, t < 256)):
        raise_(ValueError, 'bytes must be in range(0, 256)')
    return SInt(t)


@clsmodel(list)
def c_list(it, a, kw):
    if not a:
        return it.box(PList([]))
    return it.box(PList(it.as_list_seq(it.iter_seq(a[0]))))


@clsmodel(tuple)
def c_tuple(it, a, kw):
    if not a:
        return ()
    q = it.iter_seq(a[0])
    return norm_seq(it.as_list_seq(q).with_kind('tuple'))


@clsmodel(dict)
def c_dict(it, a, kw):
    d = it.box(PDict())
    if a:
        v = a[0]
        if isinstance(v, PDict):
            d.items = list(v.items)
        elif isinstance(v, dict):
            d.items = list(v.items())
        else:
            q = it.iter_seq(v)
            n = q.concrete_len()
            if n is None:
                raise Unsupported('dict of symbolic size')
            for i in range(n):
                k, x = it.elem(q, i)
                ops.setitem(it, d, k, x)
    for k, v in kw.items():
        ops.setitem(it, d, k, v)
    return d


@clsmodel(set)
def c_set(it, a, kw):
    if not a:
        return SetVal([])
    q = it.iter_seq(a[0])
    n = q.concrete_len()
    if n is None:
        raise Unsupported('set of symbolic size')
    return SetVal([it.elem(q, i) for i in range(n)])


CLASS[frozenset] = c_set


@clsmodel(range)
def c_range(it, a, kw):
    if not all(is_intlike(x) for x in a):
        raise_(TypeError, 'range() argument')
    if len(a) == 1:
        return RangeVal(0, a[0], 1)
    if len(a) == 2:
        return RangeVal(a[0], a[1], 1)
    return RangeVal(*a)


@clsmodel(slice)
def c_slice(it, a, kw):
    return slice(*a)


@clsmodel(object)
def c_object(it, a, kw):
    return it.box(Obj(object))


@clsmodel(memoryview)
def c_memoryview(it, a, kw):
    return norm_seq(to_seq(a[0]).with_kind('bytes'))


@clsmodel(io.BytesIO)
def c_bytesio(it, a, kw):
    v = a[0] if a else b''
    if kind_of(v) not in ('bytes', 'bytearray'):
        raise_(TypeError, 'a bytes-like object is required')
    q = to_seq(v).with_kind('bytes')
    if len(q.segs) == 1 and isinstance(q.segs[0], V.Cut):
        return it.box(PStream(q.segs[0].seq, q.segs[0].n))
    return it.box(PStream(q))


CLASS[map] = m_map
CLASS[zip] = m_zip
CLASS[enumerate] = m_enumerate
CLASS[reversed] = m_reversed
CLASS[filter] = m_filter
for _c in (map, zip, enumerate, reversed, filter, type):
    if _c in MODELS:
        CLASS.setdefault(_c, MODELS[_c][1].fn)


# enums
def enum_lookup(it, cls, v):
    v = force(v)
    if isinstance(v, SInt):
        vals = sorted({m.value for m in cls})
        for m in cls.__members__.values():
            pass
        for x in vals:
            if st().branch(v.t == x):
                return cls(x)
        raise_(ValueError, 'not a valid enum value')
    if native(v):
        return call_native(cls, [v], {})
    raise_(ValueError, 'not a valid enum value')


def enum_by_name(it, cls, k):
    if native(k):
        return call_native(cls.__getitem__, [k], {})
    if kind_of(k) == 'str':
        for nm, m in cls.__members__.items():
            if st().branch(TB(eq_cond(k, nm))):
                return m
        raise_(KeyError, k)
    raise_(KeyError, k)


# ------------------------------------------------------------------ methods
def get_attr(it, o, name):
    """Attributes of values of builtin types (symbolic or concrete)."""
    if hasattr(o, 'sym_attr'):
        return o.sym_attr(it, name)
    if isinstance(o, HashObj):
        return o.attr(it, name)
    if type(o).__name__ == 'FFI' and type(o).__module__ == '_cffi_backend':
        from .secp import ffi_attr
        return ffi_attr(it, name)
    if isinstance(o, PStream):
        if name == 'read':
            return o.reader()
        if name == 'tell':
            return Model(lambda it, a, kw: I(o.consumed), 'tell')
        if name == 'close':
            return Model(lambda it, a, kw: None, 'close')
        return MISSING
    if isinstance(o, struct.Struct):
        sm = struct_model(o)
        if name == 'pack':
            return Model(lambda it, a, kw: sm.pack(it, a), 'pack')
        if name == 'unpack':
            return Model(lambda it, a, kw: sm.unpack(it, a), 'unpack')
        if name == 'unpack_from':
            return Model(lambda it, a, kw: sm.unpack(it, a[:1], a[1] if len(a) > 1 else kw.get('offset', 0)),
                         'unpack_from')
        return MISSING
    if isinstance(o, re.Pattern):
        from .text import pattern_attr
        return pattern_attr(it, o, name)
    k = None
    if isinstance(o, (PList, list)):
        return method(o, name, list, list_method)
    if isinstance(o, (PDict, dict)) and not isinstance(o, types.MappingProxyType):
        return method(o, name, dict, dict_method)
    if isinstance(o, (bytes, str, bytearray, PBytearray)) or isinstance(o, Seq):
        cls = pyclass(o)
        return method(o, name, cls, seq_method)
    if isinstance(o, tuple) and not hasattr(type(o), '_fields'):
        return method(o, name, tuple, seq_method)
    if isinstance(o, (SInt, SBool)) or type(o) in (int, bool):
        return method(o, name, int, int_method)
    if isinstance(o, type):
        if o in (bytes, bytearray) and name == 'fromhex':
            from .strs import from_hex
            return Model(lambda it, a, kw: wrap_kind(it, from_hex(it, force(a[0])), o), 'fromhex')
        if issubclass(o, int) and name == 'from_bytes':
            return Model(lambda it, a, kw: int_from_bytes(it, a, kw), 'from_bytes')
        if o in (int,) and name == 'to_bytes':
            return Model(lambda it, a, kw: int_method(it, a[0], 'to_bytes', a[1:], kw), 'to_bytes')
        if o is dict and name == 'fromkeys':
            return MISSING
        if o in (str, bytes, bytearray, list) and name in ('join', 'upper', 'lower', 'strip', 'split', 'append', 'hex',
                                                           'decode', 'encode', 'isdigit'):
            h = list_method if o is list else seq_method
            return Model(lambda it, a, kw: h(it, force(a[0]), name, list(a[1:]), kw), name)
        return MISSING
    if isinstance(o, SetVal):
        return method(o, name, set, set_method)
    if isinstance(o, RangeVal):
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
    if isinstance(o, slice):
        if name == 'indices':
            def ind(it, a, kw):
                lo, hi = ops.slice_bounds(o, T(a[0]))
                if o.step is not None and T(o.step) != 1:
                    n = [nat(x) for x in (o.start, o.stop, o.step)] + [nat(a[0])]
                    if all(x is not MISSING for x in n):
                        return slice(*n[:3]).indices(n[3])
                    raise Unsupported('slice step')
                return (I(lo), I(hi), 1)
            return Model(ind, 'indices')
    if isinstance(o, ops.SliceVal):
        return get_attr(it, o.s, name) if name == 'indices' else getattr(o.s, name)
    if isinstance(o, Opaque):
        if o.why == 'str' and name in ('startswith', 'endswith'):
            raise Unsupported('opaque text')
        return Model(lambda it, a, kw: Opaque('str'), name)
    return MISSING


def wrap_kind(it, v, cls):
    return it.box(PBytearray(to_seq(v).with_kind('bytearray'))) if cls is bytearray else v


def method(o, name, cls, handler):
    if not hasattr(cls, name):
        if name in ('__class__',):
            return cls
        raise_(AttributeError, name)
    if name in ('real', 'imag', 'numerator', 'denominator', '__class__', '__doc__'):
        return MISSING
    m = Model(lambda it, a, kw: handler(it, o, name, [force(x) for x in a], kw), name)
    m.self_v = o
    return m


def int_from_bytes(it, a, kw):
    order = a[1] if len(a) > 1 else kw.get('byteorder', 'big')
    v = force(a[0])
    if kind_of(v) not in ('bytes', 'bytearray'):
        if isinstance(v, (PList, tuple)):
            v = make_bytes(it, [v], {}, 'bytes')
        else:
            raise_(TypeError, 'cannot convert to bytes')
    n = nat(v)
    signed = kw.get('signed', False)
    if n is not MISSING:
        return int.from_bytes(n, order, signed=signed)
    if signed:
        raise Unsupported('signed from_bytes')
    q = to_seq(v)
    if q.concrete_len() is None and len(q.segs) > 1:
        for g in q.segs:
            if isinstance(g, Flat):
                raise Unsupported('value of a concatenation')
    t = V.seq_value(q, order)
    return I(t)


def bitlen(t):
    """bit_length of t >= 0."""
    s = st()
    f = z3.Function('bitlen', z3.IntSort(), z3.IntSort())
    t = z3.simplify(t)
    b = f(t)
    key = ('bitlen', t.get_id())
    if key not in s.registry:
        s.registry[key] = t
        p = V.powt(2, b)
        s.assume(z3.And(b >= 0, z3.Implies(t == 0, b == 0), t < p,
                        z3.Implies(t > 0, z3.And(b >= 1, V.powt(2, norm_t(b - 1)) <= t))))
        # concrete windows help linear reasoning
        for k in (1, 7, 8, 15, 16, 23, 24, 31, 32, 39, 63, 64, 128, 255, 256):
            s.assume(z3.Implies(t < (1 << k), b <= k))
            s.assume(z3.Implies(t >= (1 << k), b >= k + 1))
    return b


def int_method(it, o, name, a, kw):
    s = st()
    if native(o):
        n = [nat(x) for x in a]
        kn = {k: nat(v) for k, v in kw.items()}
        if all(x is not MISSING for x in n) and all(x is not MISSING for x in kn.values()):
            return call_native(getattr(o, name), n, kn)
    t = T(o)
    if name == 'bit_length':
        if s.branch(TB(t >= 0)):
            return I(bitlen(t))
        return I(bitlen(norm_t(-t)))
    if name == 'to_bytes':
        n = a[0] if a else kw.get('length', 1)
        order = a[1] if len(a) > 1 else kw.get('byteorder', 'big')
        if kw.get('signed'):
            raise Unsupported('signed to_bytes')
        n = T(n)
        if isinstance(n, z3.ExprRef):
            if not s.branch(n >= 0):
                raise_(ValueError, 'length argument must be non-negative')
        elif n < 0:
            raise_(ValueError, 'length argument must be non-negative')
        t = t if isinstance(t, z3.ExprRef) else z3.IntVal(t)
        if not s.branch(t >= 0):
            raise_(OverflowError, "can't convert negative int to unsigned")
        if isinstance(n, z3.ExprRef):
            V.bit_window(t, n)
        if not s.branch(t < V.powt(256, n)):
            raise_(OverflowError, 'int too big to convert')
        if isinstance(n, int) and n == 0:
            return b''
        if isinstance(n, int) and n == 1:
            return norm_seq(Seq('bytes', [Elems([I(t)])]))
        return norm_seq(Seq('bytes', [IntEnc(t, n, order)]))
    if name == '__index__' or name == '__int__':
        return I(t)
    if name == 'is_integer':
        return True
    raise Unsupported(f'int.{name}')


def set_method(it, o, name, a, kw):
    if name == 'add':
        it_ = [x for x in o.items]
        if not any(st().branch(TB(eq_cond(a[0], y))) for y in it_):
            o.items.append(a[0])
        return None
    raise Unsupported(f'set.{name}')


def list_method(it, o, name, a, kw):
    s = st()
    if isinstance(o, list):
        if name in ('index', 'count', 'copy', '__contains__', '__len__', '__iter__', '__getitem__'):
            if name == 'index':
                return seq_method(it, o, name, a, kw)
            n = [nat(x) for x in a]
            if all(x is not MISSING for x in n):
                return call_native(getattr(o, name), n, kw)
        raise Unsupported(f'list.{name} on a module-level list')
    q = o.seq
    if name == 'append':
        it.list_append(o, a[0])
        return None
    if name == 'extend':
        it.list_extend(o, a[0])
        return None
    if name == 'pop':
        it.wrote(o)
        n = q.length()
        if isinstance(n, int):
            if n == 0:
                raise_(IndexError, 'pop from empty list')
        elif not s.branch(n >= 1):
            raise_(IndexError, 'pop from empty list')
        k = a[0] if a else -1
        i = ops.index_term(it, k, n)
        v = it.elem(q, i)
        left, rest = V.seq_split(q, i)
        _, right = V.seq_split(rest, 1)
        o.seq = Seq('list', left.segs + right.segs)
        return v
    if name == 'insert':
        it.wrote(o)
        lo, _ = ops.slice_bounds(slice(a[0], None), q.length())
        left, right = V.seq_split(q, lo)
        o.seq = Seq('list', left.segs + (Elems([a[1]]),) + right.segs)
        return None
    if name == 'reverse':
        it.wrote(o)
        o.seq = V.seq_reverse(q)
        return None
    if name == 'clear':
        it.wrote(o)
        o.seq = Seq('list', [])
        return None
    if name == 'copy':
        return it.box(PList(q))
    if name == 'sort':
        it.wrote(o)
        n = q.length()
        if not isinstance(n, int):
            n = s.concretize(n, 40)
        o.seq = Seq('list', [Elems(sort_items(it, [it.elem(q, i) for i in range(n)], kw))])
        return None
    if name in ('index', 'count'):
        return seq_method(it, o, name, a, kw)
    raise Unsupported(f'list.{name}')


def dict_method(it, o, name, a, kw):
    s = st()
    if isinstance(o, dict):
        if name == 'get':
            try:
                return ops.getitem(it, o, a[0])
            except PyRaise as e:
                if issubclass(e.exc.cls, KeyError):
                    return a[1] if len(a) > 1 else None
                raise
        n = [nat(x) for x in a]
        if name in ('items', 'keys', 'values'):
            return IterVal(Seq('tuple', [Elems(list(getattr(o, name)()))]), view=True)
        raise Unsupported(f'dict.{name} on a module-level dict')
    if name == 'get':
        for kk, vv in o.items:
            if s.branch(TB(eq_cond(a[0], kk))):
                return vv
        return a[1] if len(a) > 1 else None
    if name == 'items':
        return IterVal(Seq('tuple', [Elems(list(o.items))]), view=True)
    if name == 'keys':
        return IterVal(Seq('tuple', [Elems([k for k, _ in o.items])]), view=True)
    if name == 'values':
        return IterVal(Seq('tuple', [Elems([v for _, v in o.items])]), view=True)
    if name == 'pop':
        it.wrote(o)
        for i, (kk, vv) in enumerate(o.items):
            if s.branch(TB(eq_cond(a[0], kk))):
                del o.items[i]
                return vv
        if len(a) > 1:
            return a[1]
        raise_(KeyError, a[0])
    if name == 'clear':
        it.wrote(o)
        o.items = []
        return None
    if name == 'update':
        d = c_dict(it, a, kw)
        for k, v in d.items:
            ops.setitem(it, o, k, v)
        return None
    if name == 'setdefault':
        for kk, vv in o.items:
            if s.branch(TB(eq_cond(a[0], kk))):
                return vv
        v = a[1] if len(a) > 1 else None
        ops.setitem(it, o, a[0], v)
        return v
    if name == 'copy':
        d = it.box(PDict(o.items))
        return d
    raise Unsupported(f'dict.{name}')


def join_seq(it, sep, q, kind):
    s = st()
    parts = []
    want = 'str' if kind == 'str' else 'bytes'
    sepq = to_seq(sep)

    def chk(x):
        x = force(x)
        k = kind_of(x)
        if isinstance(x, Opaque) and want == 'str':
            raise Unsupported('join of opaque text')
        if not (k == want or want == 'bytes' and k == 'bytearray'):
            raise_(TypeError, 'sequence item: wrong type')
        return to_seq(x)
    seplen = sepq.length()
    if all(isinstance(g, Elems) for g in q.segs):
        items = [x for g in q.segs for x in g.items]
        if any(isinstance(force(x), Opaque) for x in items) and want == 'str':
            return Opaque('str')
        for i, x in enumerate(items):
            if i and not (isinstance(seplen, int) and seplen == 0):
                parts.append(sepq)
            parts.append(chk(x))
        return norm_seq(V.seq_concat(want, parts).with_kind(want))
    if not (isinstance(seplen, int) and seplen == 0):
        return join_sep(it, sepq, q, want, chk)
    segs = []
    for g in q.segs:
        n = g.length()
        if isinstance(g, Elems) or isinstance(n, int) and n <= 16:
            for k in range(n):
                segs.extend(chk(V.seg_get(g, k)).segs)
            continue
        if not isinstance(g, (Sub, Rep)):
            raise Unsupported('join of a concatenation')
        segs.append(flat_of(g, n, lambda i, g=g: chk(V.seg_get(g, i))))
    return norm_seq(Seq(want, segs))


def flat_of(g, n, fn):
    ln = V.abstract_fn(n, lambda i: fn(i).length())
    total = V.sum_obj(n, ln)
    return Flat(0, n, fn, total)


def join_sep(it, sepq, q, want, chk):
    """sep.join(items) with a symbolic number of items."""
    s = st()
    n = q.length()
    if not s.branch(TB(n >= 1)):
        return '' if want == 'str' else b''
    from .text import flat_rest
    segs, off = [], 0
    for g in q.segs:
        if not isinstance(g, Elems):
            break
        for x in g.items:
            if off:
                segs.extend(sepq.segs)
            segs.extend(chk(x).segs)
            off += 1
    if off == 0:
        segs.extend(chk(it.elem(q, 0)).segs)
        off = 1
    V.forall_index(tsub(n, off), lambda i: chk(it.elem(q, tadd(off, i))) is not None)
    segs.extend(flat_rest(it, sepq, q, off, tsub(n, off), want))
    return norm_seq(Seq(want, segs))


def find_part(it, q, part, bounds, name):
    """find / index of a short byte string in bytes of known length, position by position."""
    n, m = q.length(), part.length()
    start = bounds[0] if bounds else 0
    if not (isinstance(n, int) and n <= 400 and isinstance(m, int)) or len(bounds) > 1 or not isinstance(start, int) \
            or start < 0 or name == 'count':
        raise Unsupported('bytes search')
    for i in range(start, n - m + 1):
        if st().branch(TB(V.seq_eq(V.seq_slice(q, i, i + m).with_kind('bytes'), part.with_kind('bytes')))):
            return i
    if name == 'find':
        return -1
    raise_(ValueError, 'subsection not found')


def seq_method(it, o, name, a, kw):
    s = st()
    n = [nat(x) for x in a]
    no = nat(o)
    if no is not MISSING and name not in ('join',) and all(x is not MISSING and deep_native(x) for x in n) \
            and not isinstance(o, (PList, PBytearray)):
        r = call_native(getattr(no, name), n, {k: nat(v) for k, v in kw.items()})
        return it.box(PList(r)) if isinstance(r, list) else r
    kind = kind_of(o)
    q = to_seq(o)
    if name == 'join':
        v = a[0]
        r, exc = source(it, v)
        if exc is not None:
            raise PyRaise(exc)
        if kind == 'str' and words.has_words(it, r):
            return words.join(it, o, r)
        return join_seq(it, o, r if r.kind != 'str' else it.as_list_seq(r), kind)
    if name == 'hex':
        from .strs import hex_of
        return hex_of(q)
    if name in ('startswith', 'endswith'):
        p = a[0]
        if isinstance(p, tuple):
            return B(Or(*[it.truth_cond(seq_method(it, o, name, [x], {})) for x in p]))
        pq = to_seq(p)
        if kind_of(p) != kind and not {kind, kind_of(p)} <= {'bytes', 'bytearray'}:
            raise_(TypeError, 'startswith argument')
        L, M = q.length(), pq.length()
        if not (L >= M if isinstance(L, int) and isinstance(M, int) else s.branch(TB(L >= M))):
            return False
        part = V.seq_slice(q, 0, M) if name == 'startswith' else V.seq_slice(q, tsub(L, M), L)
        return B(V.seq_eq(part.with_kind(pq.kind), pq))
    if name in ('index', 'find', 'count') and kind in ('list', 'tuple', 'str', 'bytes', 'bytearray'):
        if kind == 'str':
            x = to_seq(a[0])
            if x.concrete_len() != 1:
                raise Unsupported('substring search')
            x = V.seq_get(x, 0)
        else:
            x = a[0]
            if kind in ('bytes', 'bytearray') and not is_intlike(x):
                xq = to_seq(x)
                if xq.concrete_len() != 1:
                    return find_part(it, q, xq, a[1:], name)
                x = V.seq_get(xq, 0)
        N = q.length()
        if len(a) > 1:
            if kind not in ('bytes', 'bytearray'):
                raise Unsupported('search from a position')
            return find_part(it, q, Seq('bytes', [Elems([x])]), a[1:], name)
        if name == 'count':
            raise Unsupported('count')
        if isinstance(N, int) and 6 <= N <= 300 and isinstance(T(x), z3.ExprRef) and kind in ('str', 'bytes', 'bytearray'):
            codes = {}
            for i in range(N):
                c = T(V.seq_get(q, i))
                if not isinstance(c, int):
                    break
                codes.setdefault(c, i)
            else:
                from .symdom import ranges
                inside = ranges(T(x), sorted(codes))
                t = V.table_term(T(x), sorted(codes.items()))
                if name == 'find':
                    return I(z3.If(inside, t, -1))
                if not s.branch(inside):
                    raise_(ValueError, 'not in list')
                return I(t)
        if isinstance(N, int) and N <= 64:
            for i in range(N):
                if s.branch(TB(eq_cond(V.seq_get(q, i), x))):
                    return i
            if name == 'find':
                return -1
            raise_(ValueError, 'not in list')
        r = find_first(it, q, N, x)
        if r is None:
            if name == 'find':
                return -1
            raise_(ValueError, 'not in list')
        return r
    if name in ('upper', 'lower', 'swapcase'):
        if kind == 'str':
            return case_map(it, o, q, name)
    if name == 'encode':
        enc = (a[0] if a else kw.get('encoding', 'utf-8'))
        return encode(it, q, enc)
    if name == 'decode':
        enc = (a[0] if a else kw.get('encoding', 'utf-8'))
        err = a[1] if len(a) > 1 else kw.get('errors', 'strict')
        if enc.lower() in ('ascii', 'us-ascii'):
            ok, k = V.decide_all(q.length(), lambda i: TB(T(V.seq_get(q, i)) < 128))
            if not ok:
                raise_(UnicodeDecodeError, 'ascii')
            return norm_seq(q.with_kind('str'))
        ok, k = V.decide_all(q.length(), lambda i: TB(T(V.seq_get(q, i)) < 128))
        if ok:
            return norm_seq(q.with_kind('str'))
        raise Unsupported('decoding of non-ascii')
    if name in ('rjust', 'ljust', 'zfill'):
        w = a[0]
        fill = a[1] if len(a) > 1 else (' ' if kind == 'str' else b' ')
        fv = V.seq_get(to_seq(fill), 0)
        if name == 'zfill':
            raise Unsupported('zfill')
        L = q.length()
        w = T(w)
        if s.branch(TB(L >= w) if not (isinstance(L, int) and isinstance(w, int)) else L >= w):
            return norm_seq(q)
        pad = Rep(fv, tsub(w, L))
        return norm_seq(Seq(kind, ([pad] + list(q.segs)) if name == 'rjust' else (list(q.segs) + [pad])))
    if name in ('lstrip', 'rstrip') and kind in ('bytes', 'bytearray') and a and q.concrete_len() is not None:
        x = to_seq(a[0])
        if x.concrete_len() == 1:
            ch = V.seq_get(x, 0)
            items = [V.seq_get(q, i) for i in range(q.concrete_len())]
            while items and s.branch(TB(eq_cond(items[0 if name == 'lstrip' else -1], ch))):
                items.pop(0 if name == 'lstrip' else -1)
            return norm_seq(Seq(kind, [Elems(items)]))
    if name == 'isdigit' and kind == 'str':
        N = q.length()
        if not (N >= 1 if isinstance(N, int) else s.branch(N >= 1)):
            return False
        def digit(i):
            c = T(V.seq_get(q, i))
            if isinstance(c, int):
                return TB(chr(c).isdigit())
            return z3.And(c >= 48, c <= 57)
        # non-ascii digits: only text known to be ascii is decided
        ok, k = V.decide_all(N, digit)
        if ok:
            return True
        c = T(V.seq_get(q, k))
        if s.entails(TB(c < 128)):
            return False

        def maybe(i):
            c = T(V.seq_get(q, i))
            if isinstance(c, int):
                return TB(chr(c).isdigit())
            return z3.Or(z3.And(c >= 48, c <= 57), c >= 128)
        if not V.decide_all(N, maybe)[0]:
            return False
        # digits of other scripts: some function of the text
        return B(text_fact('isdigit', q))
    if name in ('split', 'rsplit', 'partition', 'rpartition', 'strip', 'replace'):
        from .text import split_method
        return split_method(it, o, q, name, a, kw)
    if name == 'append' and isinstance(o, PBytearray):
        it.wrote(o)
        o.seq = Seq('bytearray', q.segs + (Elems([byte_value(it, a[0])]),))
        return None
    if name == 'extend' and isinstance(o, PBytearray):
        it.wrote(o)
        o.seq = V.seq_concat('bytearray', [q, make_bytes(it, [a[0]], {}, 'bytes')])
        return None
    if name == 'reverse' and isinstance(o, PBytearray):
        it.wrote(o)
        o.seq = V.seq_reverse(q)
        return None
    if name == 'pop' and isinstance(o, PBytearray):
        v = list_method(it, o, name, a, kw)
        o.seq = o.seq.with_kind('bytearray')
        return v
    if name == 'format':
        return Opaque('str')
    raise Unsupported(f'{kind}.{name}')


def source(it, v):
    from .loops import source_seq
    return source_seq(it, v)


def find_first(it, q, N, x):
    """Index of the first element equal to x, or None."""
    s = st()
    ok, k = V.decide_all(N, lambda i: TB(Not(eq_cond(V.seq_get(q, i), x))))
    return None if ok else I(k)


class OtherText(Exception):
    pass


def case_map(it, o, q, name):
    try:
        return case_map_ascii(it, o, q, name)
    except OtherText:
        # an uninterpreted function of a text which is not all ascii
        return uf_bytes_var(name, q, 'str')


def case_map_ascii(it, o, q, name):
    def f(c, known=False):
        c = T(c)
        if isinstance(c, int):
            r = getattr(chr(c), name)()
            if len(r) != 1:
                raise Unsupported('case mapping')
            return ord(r)
        s = st()
        if not known and not s.entails(z3.And(c >= 0, c < 128)):
            if not s.branch(c < 128):
                raise OtherText
        if name == 'lower':
            return I(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))
        return I(z3.If(z3.And(c >= 97, c <= 122), c - 32, c))
    segs = []
    for g in q.segs:
        n = g.length()
        if isinstance(g, Elems) or isinstance(n, int) and n <= 120:
            segs.append(Elems([f(V.seg_get(g, k)) for k in range(n)]))
        elif isinstance(g, V.Hex) and name == 'lower':
            segs.append(g)
        else:
            ok, k = V.decide_all(n, lambda i: TB(T(V.seg_get(g, i)) < 128))
            if not ok:
                raise OtherText
            segs.append(Sub(Atom(f'{name}({g})', n, lambda i, g=g: f(V.seg_get(g, i), True), (), 'str'), 0, n))
    return norm_seq(Seq('str', segs))


def encode(it, q, enc):
    s = st()
    enc = enc.lower().replace('_', '-')
    N = q.length()
    if isinstance(N, int) and N <= 60:
        cond = And(*[z3.And(T(V.seq_get(q, i)) < 128) if not isinstance(T(V.seq_get(q, i)), int)
                     else T(V.seq_get(q, i)) < 128 for i in range(N)])
        ok = s.branch(TB(cond))
    else:
        ok, _ = V.decide_all(N, lambda i: TB(T(V.seq_get(q, i)) < 128))
    if ok:
        return norm_seq(q.with_kind('bytes'))
    if enc in ('ascii', 'us-ascii'):
        raise_(UnicodeEncodeError, 'ascii')
    if enc in ('utf-8', 'utf8'):
        # surrogates cannot be encoded; otherwise an uninterpreted function of the text
        return uf_bytes_var('utf8', q)
    raise Unsupported(f'encoding {enc}')


def text_fact(name, q):
    """A boolean function of the text q, not interpreted."""
    s = st()
    known = s.registry.get(('fact', name), ())
    for k, v in known:
        if eq_quick(k, q):
            return v
    v = s.fresh_bool(name)
    s.registry[('fact', name)] = tuple(known) + ((q, v),)
    return v


def uf_bytes_var(name, q, kind='bytes'):
    """A function of q, not interpreted, giving a string of any length not below q's."""
    s = st()
    known = s.registry.get(('ufv', name), ())
    for k, v in known:
        if eq_quick(k, q):
            return v
    n = s.fresh_int('ulen')
    s.assume(TB(n >= q.length()))
    if name == 'utf8':
        s.assume(TB(n <= 4 * q.length()))
    v = V.sym_bytes(s.fresh(name), n, kind)
    s.registry[('ufv', name)] = tuple(known) + ((q, v),)
    return v


# ------------------------------------------------------------------ other callables
def builtin_call(it, fn, args, kw):
    self_ = getattr(fn, '__self__', None)
    if self_ is not None and not isinstance(self_, types.ModuleType):
        m = get_attr(it, self_, fn.__name__)
        if isinstance(m, Model):
            return m.fn(it, args, kw)
    if isinstance(fn, types.MethodDescriptorType):
        o = force(args[0])
        m = get_attr(it, o, fn.__name__)
        if isinstance(m, Model):
            return m.fn(it, args[1:], kw)
    name = f'{getattr(fn, "__module__", "")}.{fn.__name__}'
    h = NAMED.get(name)
    if h is not None:
        return h(it, [force(x) for x in args], kw)
    n = [nat(x) for x in args]
    kn = {k: nat(v) for k, v in kw.items()}
    if all(x is not MISSING and deep_native(x) for x in n) and all(x is not MISSING for x in kn.values()):
        if name in IMPURE:
            raise Unsupported(f'{name} is not modelled')
        r = call_native(fn, n, kn)
        return it.box(PList(r)) if isinstance(r, list) else r
    raise Unsupported(f'builtin {name}')


def other_call(it, fn, args, kw):
    raise Unsupported(f'call of {fn!r:.100}')


IMPURE = {'posix.urandom', 'time.time', 'io.open', 'posix.open'}
NAMED = {}


def named(*names):
    def deco(f):
        for n in names:
            NAMED[n] = f
        return f
    return deco


def _hash_ctor(alg):
    def h(it, a, kw):
        data = bytes_arg(it, a[0]) if a else b''
        return it.box(HashObj(alg, data))
    return h


for _alg in ('sha1', 'sha256', 'sha512', 'md5', 'ripemd160'):
    NAMED[f'_hashlib.openssl_{_alg}'] = _hash_ctor(_alg)
    MODELS[getattr(hashlib, _alg, _alg)] = (getattr(hashlib, _alg, _alg), Model(_hash_ctor(_alg), _alg))


@model(hashlib.new)
def m_hash_new(it, a, kw):
    return _hash_ctor(a[0])(it, a[1:], kw)


@model(hmac.digest)
def m_hmac_digest(it, a, kw):
    alg = a[2] if len(a) > 2 else kw['digest']
    if not isinstance(alg, str):
        alg = alg.__name__.replace('openssl_', '')
    return HashObj(alg, bytes_arg(it, a[1]), bytes_arg(it, a[0])).digest()


@model(hmac.new)
def m_hmac_new(it, a, kw):
    key = bytes_arg(it, a[0])
    msg = a[1] if len(a) > 1 else kw.get('msg')
    alg = a[2] if len(a) > 2 else kw.get('digestmod')
    if not isinstance(alg, str):
        alg = alg.__name__.replace('openssl_', '')
    return it.box(HashObj(alg, bytes_arg(it, msg) if msg is not None else b'', key))


@model(hashlib.pbkdf2_hmac)
def m_pbkdf2(it, a, kw):
    n = a[3] if len(a) > 3 else kw.get('iterations')
    size = {'sha512': 64, 'sha256': 32, 'sha1': 20}.get(a[0])
    if size is None or not isinstance(n, int) or len(a) > 4 or set(kw) - {'iterations'}:
        raise Unsupported('pbkdf2_hmac')
    return uf_bytes(f'pbkdf2_{a[0]}_{n}', [bytes_arg(it, a[1]), bytes_arg(it, a[2])], size,
                    lambda p, q: hashlib.pbkdf2_hmac(a[0], p, q, n))


def m_urandom(it, a, kw):
    n = T(a[0])
    s = st()
    given = s.registry.get('random data')
    if given is not None and V.same_term(given.length(), n):
        s.registry['random data'] = None
        return norm_seq(given)
    q = V.sym_bytes(s.fresh('urandom'), n)
    if n == 32 and s.registry.get('usable random'):
        from . import secp
        s.assume(secp.in_group(secp.value(to_seq(q))))
    return q


MODELS[os.urandom] = (os.urandom, Model(m_urandom, 'os.urandom'))


# ------------------------------------------------------------------ contract primitives
@model(api.require)
def p_require(it, a, kw):
    if not it.truth(a[0]):
        raise PathEnd()


@model(api.check)
def p_check(it, a, kw):
    what = a[1] if len(a) > 1 else kw.get('what', 'assertion')
    c = it.truth_cond(a[0])
    it.obligation(c, what)


@model(api.prove)
def p_prove(it, a, kw):
    what = a[1] if len(a) > 1 else kw.get('what', 'lemma')
    c = it.truth_cond(a[0])
    it.obligation(c, what)
    st().assume(TB(c))


def run_outcome(it, fn):
    if isinstance(fn, tuple):
        if len(fn) == 2 and fn[0] in ('ok', 'exc'):
            return fn
        raise api.SpecError('neither an outcome nor a function')
    if not isinstance(fn, (Closure, BoundM, Model, Partial)) and not callable(fn):
        raise api.SpecError('neither an outcome nor a function')
    try:
        return ('ok', it.call(fn, [], {}))
    except PyRaise as e:
        if issubclass(e.exc.cls, (api.Violation, api.Skip)):
            raise
        return ('exc', e.exc.cls)


@model(api.unfold)
def m_unfold(it, args, kw):
    from . import ghost
    return ghost.unfold(it, args, kw)


@model(api.usable_random)
def m_usable_random(it, args, kw):
    st().registry['usable random'] = True


@model(api.lead)
def m_lead(it, args, kw):
    from .text import lead
    return lead(it, args, kw)


@model(api.prefix)
def p_prefix(it, a, kw):
    q = to_seq(a[0])
    n, L = T(a[1]), q.length()
    if not it.truth(B(And(TB(n >= 0), TB(n <= L)))):
        raise PathEnd()
    if not any(isinstance(g, Flat) for g in q.segs):
        return norm_seq(V.seq_slice(q, 0, n))
    return Seq(q.kind, [V.Cut(q, n)])


@model(api.outcome)
def p_outcome(it, a, kw):
    return run_outcome(it, a[0])


@model(api.exc_of)
def p_exc_of(it, a, kw):
    k, v = run_outcome(it, a[0])
    return v if k == 'exc' else None


@model(api.check_same)
def p_check_same(it, a, kw):
    what = a[2] if len(a) > 2 else kw.get('what', 'result equals the specified result')
    s_ = run_outcome(it, a[1])
    t_ = run_outcome(it, a[0])
    it.same_outcome_obligation(t_, s_, what)


@model(api.same_value)
def p_same_value(it, a, kw):
    if prove_eq(a[0], a[1]):
        return True
    return B(eq_cond(a[0], a[1]))


@model(api.run_machine)
def p_run_machine(it, a, kw):
    from . import loops
    ctx = loops.to_pytuple(it, a[1])
    state = loops.to_pytuple(it, a[2])
    return tuple(loops.run_machine_sym(it, a[0], ctx, state))


@model(api.run_machine_exc)
def p_run_machine_exc(it, a, kw):
    from . import loops
    ctx = loops.to_pytuple(it, a[1])
    state = loops.to_pytuple(it, a[2])
    last = [state]
    try:
        return (None, tuple(loops.run_machine_sym(it, a[0], ctx, state, last)))
    except PyRaise as e:
        fin = getattr(e.exc, 'machine_state', None) or last[0]
        return (e.exc.cls, tuple(fin))


@model(api.collect)
def p_collect(it, a, kw):
    from . import loops
    q, exc = loops.source_seq(it, a[0])
    return (exc.cls if exc is not None else None, norm_seq(q.with_kind('tuple')))

MODELS[unicodedata.normalize] = (unicodedata.normalize, Model(words.m_normalize, 'normalize'))
MODELS[api.word_list] = (api.word_list, Model(words.m_word_list, 'word_list'))
MODELS[api.word_of] = (api.word_of, Model(words.m_word_of, 'word_of'))
MODELS[api.typed] = (api.typed, Model(words.m_typed, 'typed'))
from bitcoinx.mnemonic import Wordlists      # noqa
OLD_WORDS = Wordlists.__dict__['original_electrum_wordlist'].__func__


@model(api.random_source)
def m_random_source(it, a, kw):
    s = st()
    old = s.registry.get('random data')
    s.registry['random data'] = to_seq(a[0])
    try:
        return it.call(a[1], [], {})
    finally:
        s.registry['random data'] = old


MODELS[OLD_WORDS] = (OLD_WORDS, Model(words.m_old_wordlist, 'original_electrum_wordlist'))
