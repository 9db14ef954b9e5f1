"""Symbolic values and sequence theory (ropes)."""
import re

import z3
from . import core
from .core import st, Unsupported, PathEnd


class SInt:
    __slots__ = ('t', 'cls', 'tz', 'bits')

    def __init__(self, t, cls=None, tz=0, bits=None):
        self.t, self.cls, self.tz, self.bits = t, cls, tz, bits

    def __repr__(self):
        return f'SInt({self.t})'


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SBool({self.t})'


class Opaque:
    """A value nothing is known about (error message text etc.)."""
    __slots__ = ('why',)

    def __init__(self, why='opaque'):
        self.why = why

    def __repr__(self):
        return f'Opaque({self.why})'


class Undefined:
    def __repr__(self):
        return 'Undefined'


UNDEF = Undefined()


def I(t, cls=None):
    """Wrap an arithmetic term."""
    if isinstance(t, bool):
        return int(t)
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        v = t.as_long()
        return v if cls is None else cls(v)
    return SInt(t, cls)


def T(v):
    """Arithmetic term (python int or z3) of an int-like value."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, 1, 0)
    if isinstance(v, z3.ExprRef):
        return v
    raise Unsupported(f'not an integer: {v!r}')


def TB(c):
    """z3 boolean."""
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, SBool):
        return c.t
    return c


def B(t):
    if isinstance(t, bool):
        return t
    if isinstance(t, SBool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def And(*cs):
    out = []
    for c in cs:
        if isinstance(c, SBool):
            c = c.t
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def Or(*cs):
    out = []
    for c in cs:
        if isinstance(c, SBool):
            c = c.t
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    return z3.Or(*out) if len(out) > 1 else out[0]


def Not(c):
    if isinstance(c, SBool):
        c = c.t
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def Implies(a, b):
    return Or(Not(a), b)


def is_intlike(v):
    return isinstance(v, (int, SInt, SBool))


# ----------------------------------------------------------------- arithmetic helpers
def div_const(t, c):
    """floor(t / c), c concrete > 0."""
    if isinstance(t, int):
        return t // c
    if c == 1:
        return t
    if z3.is_app_of(t, z3.Z3_OP_IDIV) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
        return div_const(t.arg(0), t.arg(1).as_long() * c)
    if c & (c - 1) and z3.is_add(t):
        r = multiples(t, c)
        if r is not None:
            return r
    return t / c        # z3 int division, divisor > 0: floor


def linear(t):
    """The summands of t as (coefficient, term); the term of the constant is None."""
    u = z3.simplify(t)
    for g in (u.children() if z3.is_add(u) else [u]):
        if z3.is_int_value(g):
            yield g.as_long(), None
        elif z3.is_mul(g) and g.num_args() == 2 and z3.is_int_value(g.arg(0)):
            yield g.arg(0).as_long(), g.arg(1)
        else:
            yield 1, g


def total(parts):
    r = z3.IntVal(0)
    for k, g in parts:
        r = r + (k if g is None else g if k == 1 else k * g)
    r = z3.simplify(r)
    return r.as_long() if z3.is_int_value(r) else r


def multiples(t, c):
    """floor(t / c) when what is left of t without the multiples of c is known to be below c."""
    parts = list(linear(t))
    rest = total([p for p in parts if p[0] % c])
    if len(parts) < 2 or all(p[0] % c for p in parts):
        return None
    if not (0 <= rest < c if isinstance(rest, int) else st().entails(z3.And(0 <= rest, rest < c))):
        return None
    return total([(k // c, g) for k, g in parts if k % c == 0])


def residue(t, c):
    """A simpler term with the same remainder on division by c."""
    out, changed = [], False
    for k, g in linear(t):
        if g is not None and z3.is_app_of(g, z3.Z3_OP_MOD) and z3.is_int_value(g.arg(1)) and g.arg(1).as_long() and \
                g.arg(1).as_long() % c == 0:
            g, changed = g.arg(0), True
        if k % c == 0 and g is not None:
            changed = True
            continue
        out.append((k, g))
    return total(out) if changed else t


def mod_const(t, c):
    if isinstance(t, int):
        return t % c
    if c == 1:
        return 0
    if c & (c - 1) or c == 2048:
        # a digit of a number, written so that sums of digits times powers telescope
        r = residue(t, c)
        if r is not t:
            t = r
            if isinstance(t, int):
                return t % c
            if st().entails(z3.And(0 <= t, t < c)):
                return t
        if not z3.is_add(t):
            return t - c * div_const(t, c)
    return t % c


def pow_fn(base):
    return z3.Function(f'pow{base}', z3.IntSort(), z3.IntSort())


def powt(base, n):
    """base ** n for n >= 0 (n term)."""
    if isinstance(n, int):
        return base ** n
    n = z3.simplify(n)
    if z3.is_int_value(n):
        return base ** n.as_long()
    s = st()
    f = pow_fn(base)
    t = f(n)

    def ax():
        yield z3.Implies(n >= 0, t >= 1)
        yield z3.Implies(n >= 1, z3.And(t >= base, t == base * f(n - 1), f(n - 1) >= 1))
        yield z3.Implies(n == 0, t == 1)
    s.axiom_once(('pow', base, n.get_id()), ax)
    s.registry[('keep', n.get_id())] = n
    # relate to other known powers of the same base
    key = ('pows', base)
    known = s.registry.setdefault(key, [])
    if all(k.get_id() != n.get_id() for k in known):
        for k in known:
            s.assume(z3.Implies(z3.And(0 <= k, k <= n), f(k) <= t))
            s.assume(z3.Implies(z3.And(0 <= n, n <= k), t <= f(k)))
            s.assume(z3.Implies(z3.And(0 <= k, k < n), f(k) * base <= t))
            s.assume(z3.Implies(z3.And(0 <= n, n < k), t * base <= f(k)))
        s.registry[key] = known + [n]
        grid = range(0, 265) if base == 2 else range(0, 34)

        def ground0():
            for c in grid:
                yield f(z3.IntVal(c)) == base ** c

        def ground():
            for c in grid:
                if c % (8 if base == 2 else 1) == 0 or c in (1, 255, 257):
                    yield z3.Implies(n >= c, t >= base ** c)
                    yield z3.Implies(z3.And(0 <= n, n <= c), t <= base ** c)
        s.axiom_once(('powground', base), ground0)
        s.axiom_once(('powground', base, n.get_id()), ground)
    return t


# ----------------------------------------------------------------- sequences
class Atom:
    """A base sequence: length term and element function of the index term."""

    def __init__(self, name, length, elem, args=(), kind='bytes'):
        self.name, self.length, self.elem, self.args, self.kind = name, length, elem, tuple(args), kind

    def same(self, o):
        if self is o:
            return True
        if self.name != o.name or len(self.args) != len(o.args):
            return False
        return all(teq(a, b) for a, b in zip(self.args, o.args))

    def __repr__(self):
        return f'{self.name}{list(self.args) if self.args else ""}'


def teq(a, b):
    """Structural/entailed equality of terms."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
        return True
    return st().entails(a == b)


class Elems:
    def __init__(self, items):
        self.items = tuple(items)

    def length(self):
        return len(self.items)

    def __repr__(self):
        return f'{list(self.items)}'


class Sub:
    def __init__(self, atom, lo, n):
        self.atom, self.lo, self.n = atom, lo, n

    def length(self):
        return self.n

    def __repr__(self):
        return f'{self.atom}[{self.lo}:+{self.n}]'


class IntEnc:
    """Fixed-width encoding of 0 <= t < 256^n."""

    def __init__(self, t, n, order):
        self.t, self.n, self.order = t, n, order

    def length(self):
        return self.n

    def byte(self, i):
        if isinstance(self.n, int) and isinstance(i, int):
            k = i if self.order == 'little' else self.n - 1 - i
            return I(mod_const(div_const(self.t, 256 ** k), 256))
        k = i if self.order == 'little' else self.n - 1 - i
        p = powt(256, k)
        q = idiv(self.t, p)
        return I(mod_const(q, 256))

    def __repr__(self):
        return f'enc({self.t},{self.n},{self.order})'


def idiv(t, p):
    """floor(t / p) for a positive term p with defining facts (avoids nonlinear div)."""
    if isinstance(p, int):
        return div_const(t, p)
    s = st()
    t = t if isinstance(t, z3.ExprRef) else z3.IntVal(t)
    key = ('idiv', t.get_id(), p.get_id())
    if key in s.registry:
        return s.registry[key][0]
    q, r = s.fresh_int('q'), s.fresh_int('r')
    s.assume(z3.And(t == q * p + r, 0 <= r, r < p, z3.Implies(t >= 0, q >= 0)))
    if z3.is_app(p) and p.decl().name() == 'pow256':
        # consequences of t == q * p + r that need no multiplication of unknowns
        for c in (1, 128, 256):
            s.assume((q < c) == (t < c * p))
        bit_window(t, p.arg(0))
    s.registry[key] = (q, r, t, p)
    return q


def imod(t, p):
    if isinstance(p, int):
        return mod_const(t, p)
    idiv(t, p)
    t = t if isinstance(t, z3.ExprRef) else z3.IntVal(t)
    return st().registry[('idiv', t.get_id(), p.get_id())][1]


def bit_window(t, k):
    """t < 2^j iff bit_length(t) <= j, for t >= 0 and j around 8 * k."""
    s = st()
    k = k if isinstance(k, z3.ExprRef) else z3.IntVal(k)
    key = ('bitwin', t.get_id(), k.get_id())
    if ('bitlen', t.get_id()) not in s.registry or key in s.registry:
        return
    s.registry[key] = (t, k)
    f = z3.Function('bitlen', z3.IntSort(), z3.IntSort())(t)
    p = powt(256, k)
    g = z3.And(t >= 0, k >= 0)
    for j, c in ((0, 1), (7, 128), (8, 256)):
        s.assume(z3.Implies(g, (f <= 8 * k + j) == (t < c * p)))


class Rep:
    def __init__(self, v, n):
        self.v, self.n = v, n

    def length(self):
        return self.n

    def __repr__(self):
        return f'rep({self.v},{self.n})'


class Flat:
    """Concatenation of fn(i) for lo <= i < lo + n; sums gives the running length."""

    def __init__(self, lo, n, fn, total, lens=None):
        self.lo, self.n, self.fn, self.total = lo, n, fn, total   # total: SumObj of lengths over [0,total.n)

    def length(self):
        return tsub(self.total.at(tadd(self.lo, self.n)), self.total.at(self.lo))

    def __repr__(self):
        return f'flat({self.lo}:+{self.n})'


class Hex:
    """The lower-case hexadecimal text of a byte sequence (injective)."""

    def __init__(self, seq):
        self.seq = seq

    def length(self):
        return tmul(2, self.seq.length())

    def __repr__(self):
        return f'hex({self.seq})'


class Cut:
    """The first n elements of seq (only its length is known; readable as a stream)."""

    def __init__(self, seq, n):
        self.seq, self.n = seq, n

    def length(self):
        return self.n


class Seq:
    """Immutable sequence; kind in bytes/str/list/tuple/bytearray (str elements are code points)."""
    __slots__ = ('kind', 'segs', '_len', 'pad')

    def __init__(self, kind, segs):
        self.kind = kind
        out = []
        for s in segs:
            n = s.length()
            if isinstance(n, z3.ExprRef):
                n2 = z3.simplify(n)
                if z3.is_int_value(n2):
                    n = n2.as_long()
            if isinstance(n, int) and n == 0 and not isinstance(s, Flat):
                continue
            if out and isinstance(s, Elems) and isinstance(out[-1], Elems):
                out[-1] = Elems(out[-1].items + s.items)
            elif (out and isinstance(s, Sub) and isinstance(out[-1], Sub) and out[-1].atom is s.atom
                  and same_term(tadd(out[-1].lo, out[-1].n), s.lo)):
                out[-1] = Sub(s.atom, out[-1].lo, tadd(out[-1].n, s.n))
            else:
                out.append(s)
        self.segs = tuple(out)
        self._len = None

    def length(self):
        if self._len is None:
            n = 0
            for s in self.segs:
                n = tadd(n, s.length())
            self._len = n
        return self._len

    def concrete_len(self):
        n = self.length()
        return n if isinstance(n, int) else None

    def with_kind(self, kind):
        return Seq(kind, self.segs)

    def __repr__(self):
        return f'{self.kind}<{" + ".join(map(repr, self.segs))}>'


def same_term(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b) or z3.simplify(a - b).eq(z3.IntVal(0))
    return False


def tadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return norm_t(a + b)


def tsub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return norm_t(a - b)


def tmul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return norm_t(a * b)


def norm_t(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return t


def to_seq(v):
    """Any sequence value -> Seq."""
    if isinstance(v, Seq):
        return v
    if isinstance(v, PList):
        return v.seq
    if isinstance(v, PBytearray):
        return v.seq
    if isinstance(v, bytes):
        return Seq('bytes', [Elems(v)])
    if isinstance(v, bytearray):
        return Seq('bytearray', [Elems(v)])
    if isinstance(v, str):
        return Seq('str', [Elems(map(ord, v))])
    if isinstance(v, tuple):
        return Seq('tuple', [Elems(v)])
    if isinstance(v, list):
        return Seq('list', [Elems(v)])
    if isinstance(v, range):
        return Seq('tuple', [Elems(v)])
    raise Unsupported(f'not a sequence: {v!r}')


def norm_seq(s):
    """Seq -> native value when fully concrete (bytes/str) or concrete length (tuple)."""
    if not isinstance(s, Seq):
        return s
    if s.kind in ('bytes', 'str'):
        if all(isinstance(g, Elems) for g in s.segs) or s.concrete_len() is not None and all(
                isinstance(g, (Elems, Rep)) for g in s.segs):
            items = []
            for g in s.segs:
                if isinstance(g, Elems):
                    items.extend(g.items)
                else:
                    items.extend([g.v] * g.n)
            if all(isinstance(x, int) for x in items):
                return bytes(items) if s.kind == 'bytes' else ''.join(map(chr, items))
    elif s.kind == 'tuple':
        if all(isinstance(g, Elems) for g in s.segs):
            return tuple(x for g in s.segs for x in g.items)
    return s


class PList:
    """Mutable list box."""
    _n = 0

    def __init__(self, seq):
        self.seq = seq if isinstance(seq, Seq) else Seq('list', [Elems(seq)])

    def __repr__(self):
        return f'PList({self.seq})'


class PBytearray:
    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return f'PBytearray({self.seq})'


class PDict:
    """Insertion-ordered dict with keys compared by proved equality."""

    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return f'PDict({self.items})'


class Obj:
    _ids = 0

    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = dict(fields or {})

    def __repr__(self):
        return f'<{self.cls.__name__} {self.fields}>'


class ExcVal:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)

    def __repr__(self):
        return f'{self.cls.__name__}{self.args}'


class Closure:
    def __init__(self, node, env, module, name, defaults, kwdefaults, qual='', cls=None):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kwdefaults, self.qual, self.cls = defaults, kwdefaults, qual, cls

    def __repr__(self):
        return f'<closure {self.name}>'


class BoundM:
    def __init__(self, self_v, fn):
        self.self_v, self.fn = self_v, fn

    def __repr__(self):
        return f'<bound {self.fn} of {self.self_v}>'


class Model:
    """A modelled callable."""

    def __init__(self, fn, name=''):
        self.fn, self.name = fn, name

    def __repr__(self):
        return f'<model {self.name}>'


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Ite:
    """Union value: alternatives guarded by mutually exclusive, exhaustive conditions
    [(cond, thunk value)].  Forced (forked) when inspected."""

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return f'Ite({self.alts})'


def force(v):
    while isinstance(v, Ite):
        for c, x in v.alts[:-1]:
            if st().branch(c):
                v = x
                break
        else:
            v = v.alts[-1][1]
    return v


# ----------------------------------------------------------------- sums
class SumObj:
    """Running sums S(k) = sum_{j<k} g(j), 0 <= k <= n."""

    def __init__(self, n, g, name, nonneg):
        self.n, self.g = n, g
        self.uf = z3.Function(name, z3.IntSort(), z3.IntSort())
        self.nonneg = nonneg

    def at(self, k):
        if isinstance(k, int) and k == 0:
            return 0
        s = st()
        kt = z3.IntVal(k) if isinstance(k, int) else z3.simplify(k)
        if z3.is_int_value(kt) and kt.as_long() == 0:
            return 0
        t = self.uf(kt)
        key = ('sumat', self.uf.name(), kt.get_id())
        if key not in s.registry:
            s.registry[key] = kt
            if self.nonneg:
                s.assume(t >= 0)
            s.assume(self.uf(z3.IntVal(0)) == 0)
            if isinstance(k, int) and k <= 30:
                self.step(k - 1)
            known = s.registry.setdefault(('sumks', self.uf.name()), [])
            if self.nonneg:
                for o in known:
                    s.assume(z3.Implies(o <= kt, self.uf(o) <= t))
                    s.assume(z3.Implies(kt <= o, t <= self.uf(o)))
            s.registry[('sumks', self.uf.name())] = known + [kt]
        return t

    def step(self, j):
        """Instantiate S(j+1) = S(j) + g(j) for 0 <= j < n (caller: j in range)."""
        s = st()
        jt = z3.IntVal(j) if isinstance(j, int) else z3.simplify(j)
        key = ('sumstep', self.uf.name(), jt.get_id())
        if key in s.registry:
            return
        s.registry[key] = jt
        a, b = self.at(norm_t(jt + 1)), self.at(norm_t(jt))
        g = self.g(jt)
        s.assume(a == b + g)


def sum_obj(n, g):
    """Canonical running sum of g (index term -> arithmetic term) over [0, n)."""
    s = st()
    known = s.registry.get('sums', ())
    for o in known:
        if (o.n is n or teq(o.n, n)) and _pointwise_same(n, g, o.g):
            return o
    nonneg = getattr(g, 'nonneg', False) or forall_index(n, lambda i: s.entails(T(g(i)) >= 0))
    o = SumObj(n, g, s.fresh('S'), nonneg)
    s.registry['sums'] = tuple(known) + (o,)
    return o


def _pointwise_same(n, g, h):
    if g is h:
        return True
    g, h = getattr(g, 'raw', g), getattr(h, 'raw', h)
    return forall_index(n, lambda i: st().entails(TB(g(i) == h(i)) if not (
        isinstance(g(i), int) and isinstance(h(i), int)) else g(i) == h(i)))


def forall_index(n, pred, lo=0):
    """pred(i) proved for a fresh i in [lo, lo+n) on every sub-path."""
    s = st()

    def go():
        i = s.fresh_int('i')
        s.assume(z3.And(i >= lo, i < tadd(lo, n) if not isinstance(n, int) else i < tadd(lo, n)))
        return bool(pred(i))
    if isinstance(n, int) and n == 0:
        return True
    res = s.sub_explore(go)
    return all(p.r for p in res)


def abstract_fn(n, body, lo=0, wrap=T, sign=False):
    """body(i) -> value; evaluated once for a generic index lo <= i < lo+n on all sub-paths.
    Returns inst(i_term) -> term, which also assumes the facts that hold at that index."""
    s = st()
    i0 = z3.Int(s.fresh('ix'))
    c0 = s.counter

    def go():
        s.assume(z3.And(i0 >= lo, i0 < tadd(lo, n)))
        t = wrap(body(i0))
        if sign and signs[0]:
            signs[0] = t >= 0 if isinstance(t, int) else s.entails(t >= 0)
        return t
    signs = [True]
    res = s.sub_explore(go)
    if not res:
        return lambda i: z3.IntVal(0)
    sort_bool = any(isinstance(p.r, (z3.BoolRef, bool)) for p in res)
    out, side = None, []
    for p in reversed(res):
        t = p.r
        if not isinstance(t, z3.ExprRef):
            t = z3.BoolVal(t) if sort_bool else z3.IntVal(t)
        d = z3.And(*p.dec) if p.dec else core.TRUE
        out = t if out is None else z3.If(d, t, out)
        if p.ass[1:]:
            side.append(z3.Implies(d, z3.And(*p.ass[1:])))
    out = z3.simplify(out)
    sidet = z3.And(*side) if side else core.TRUE
    # what is new at this index is new at every index: new symbols become functions of the index
    fc, ff = fresh_symbols(z3.And(sidet, out) if sort_bool else z3.And(sidet, out == 0), c0)
    subs = []
    for c in fc:
        f = z3.Function(c.decl().name() + '@', z3.IntSort(), c.sort())
        subs.append((c, f(i0)))
    funs = []
    for d in ff:
        dom = [d.domain(k) for k in range(d.arity())]
        f = z3.Function(d.name() + '@', z3.IntSort(), *dom, d.range())
        funs.append((d, f(i0, *[z3.Var(k, x) for k, x in enumerate(dom)])))
    if funs:
        out = z3.substitute_funs(out, *funs)
        sidet = z3.substitute_funs(sidet, *funs)
    if subs:
        out = z3.substitute(out, *subs)
        sidet = z3.substitute(sidet, *subs)
    memo = {}

    def inst(i, assume=True):
        i = z3.IntVal(i) if isinstance(i, int) else i
        k = i.get_id()
        ss = st()
        key = ('absinst', i0.get_id(), k)
        if assume and key not in ss.registry and not z3.is_true(sidet):
            ss.registry[key] = (i, i0)
            inr = z3.And(i >= lo, i < tadd(lo, n))
            ss.assume(z3.Implies(inr, z3.substitute(sidet, (i0, i))))
        return z3.substitute(out, (i0, i))
    inst.raw = lambda i: wrap(body(i))
    inst.term, inst.ix, inst.side, inst.nested, inst.nonneg = out, i0, sidet, bool(subs or funs), sign and signs[0]
    return inst


def same_question(n, b1, b2):
    """The two conditions agree at every index: both evaluated on each sub-path."""
    s = st()

    def go():
        i = s.fresh_int('i')
        s.assume(z3.And(i >= 0, TB(i < n)))
        t1 = TB(b1(i))
        t2 = TB(b2(i))
        return s.entails(t1 == t2)
    try:
        return all(p.r for p in s.sub_explore(go))
    except Unsupported:
        return False


_serial = re.compile(r'!(\d+)')


def fresh_symbols(t, c0):
    """The constants and functions in t made after the counter was c0."""
    seen, out, funs = set(), [], {}

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            d = e.decl()
            m = _serial.findall(d.name())
            if m and int(m[-1]) > c0:
                if d.arity() == 0:
                    out.append(e)
                else:
                    funs[d.get_id()] = d
        for c in e.children():
            walk(c)
    walk(t)
    return out, list(funs.values())


def decide_all(n, body, what='all'):
    """Decide 'for all 0 <= i < n: body(i)' (body -> condition).  Returns (True, None) or
    (False, k) where k is the first failing index.  Equal questions get equal answers."""
    s = st()
    pred = abstract_fn(n, body, wrap=TB)
    if z3.is_true(pred.term) and forall_index(n, lambda i: True):
        return True, None
    if forall_index(n, lambda i: s.entails(pred(i))):
        return True, None
    for (n2, p2, ans, body2) in s.registry.get('alls', ()):
        if teq(n2, n) and forall_index(n, lambda i: s.entails(pred(i) == p2(i))):
            return ans
        if pred.nested and p2.nested and teq(n2, n) and same_question(n, body, body2):
            return ans
    b = s.fresh_bool('all')
    if s.branch(b):
        j = z3.Int(s.fresh('bj'))
        nn = n if isinstance(n, z3.ExprRef) else z3.IntVal(n)
        s.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nn),
                                           z3.And(pred(j, False), z3.substitute(pred.side, (pred.ix, j))))))
        ans = (True, None)
    else:
        k = s.fresh_int('first')
        s.assume(z3.And(0 <= k, TB(k < n)))
        s.assume(z3.Not(pred(k)))
        j = z3.Int(s.fresh('bj'))
        s.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), pred(j, False))))
        ans = (False, k)
    s.registry['alls'] = s.registry.get('alls', ()) + ((n, pred, ans, body),)
    return ans


# ----------------------------------------------------------------- sequence operations
def seg_cut(seg, p):
    """Split seg at p (0 < p < length, as far as known)."""
    s = st()
    if isinstance(seg, Elems):
        if not isinstance(p, int):
            x = seg.items[0]
            if len(seg.items) > 100 and isinstance(x, (int, str)) and all(type(y) is type(x) and y == x for y in seg.items):
                return Rep(x, p), Rep(x, tsub(len(seg.items), p))
            p = s.concretize(p)
        return Elems(seg.items[:p]), Elems(seg.items[p:])
    if isinstance(seg, Sub):
        return Sub(seg.atom, seg.lo, p), Sub(seg.atom, tadd(seg.lo, p), tsub(seg.n, p))
    if isinstance(seg, Rep):
        return Rep(seg.v, p), Rep(seg.v, tsub(seg.n, p))
    if isinstance(seg, IntEnc):
        q = tsub(seg.n, p)
        if isinstance(p, int) and isinstance(seg.n, int):
            if seg.order == 'little':
                return (IntEnc(norm_t(mod_const(seg.t, 256 ** p)), p, 'little'),
                        IntEnc(norm_t(div_const(seg.t, 256 ** p)), q, 'little'))
            return (IntEnc(norm_t(div_const(seg.t, 256 ** q)), p, 'big'),
                    IntEnc(norm_t(mod_const(seg.t, 256 ** q)), q, 'big'))
        lowlen = p if seg.order == 'little' else q
        pw = powt(256, lowlen)
        full = powt(256, seg.n)
        hi, lo = idiv(seg.t, pw), imod(seg.t, pw)
        hilen = q if seg.order == 'little' else p
        hp = powt(256, hilen)
        # 256^n = 256^a * 256^b ; hi < 256^b
        if isinstance(pw, int) or isinstance(hp, int):
            s.assume(full == pw * hp)
        else:
            s.assume(full == pw * hp)
        s.assume(z3.And(hi >= 0, hi < hp))
        low, high = IntEnc(lo, lowlen, seg.order), IntEnc(hi, hilen, seg.order)
        return (low, high) if seg.order == 'little' else (high, low)
    if isinstance(seg, Flat):
        return flat_cut(seg, p)
    if isinstance(seg, Hex):
        h = half(p)
        if h is None:
            n = T(seg.length())
            if isinstance(p, int) and isinstance(n, int) and n <= 300:
                return Elems([seg_get(seg, k) for k in range(p)]), Elems([seg_get(seg, k) for k in range(p, n)])
            raise Unsupported('hex text cut inside a byte')
        a, b = seq_split(seg.seq, h)
        return Hex(a), Hex(b)
    raise Unsupported(f'cut {seg}')


def half(p):
    """p / 2 when p is provably even."""
    if isinstance(p, int):
        return p // 2 if p % 2 == 0 else None
    q = norm_t(p / 2)
    return q if st().entails(p == 2 * (p / 2)) else None


def flat_cut(seg, p):
    s = st()
    # find a known boundary
    base = seg.total.at(seg.lo)
    for k in s.registry.get(('sumks', seg.total.uf.name()), []):
        if s.entails(z3.And(k >= seg.lo, k <= tadd(seg.lo, seg.n), seg.total.at(k) - base == p)):
            j = norm_t(k - seg.lo)
            return Flat(seg.lo, j, seg.fn, seg.total), Flat(norm_t(k), tsub(seg.n, j), seg.fn, seg.total)
    raise Unsupported(f'cut of {seg} inside an element')


def flat_pop_first(seg):
    """Segments of the first element and the rest of the Flat (n >= 1 known)."""
    seg.total.step(seg.lo)
    first = to_seq(seg.fn(seg.lo))
    # bridge lengths
    return list(first.segs), Flat(tadd(seg.lo, 1), tsub(seg.n, 1), seg.fn, seg.total)


def flat_pop_last(seg):
    j = tsub(tadd(seg.lo, seg.n), 1)
    seg.total.step(j)
    last = to_seq(seg.fn(j))
    return Flat(seg.lo, tsub(seg.n, 1), seg.fn, seg.total), list(last.segs)


def seq_split(q, pos):
    """(left, right) at position pos with 0 <= pos <= len known."""
    s = st()
    pos = norm_t(pos)
    left, segs = [], list(q.segs)
    off = 0
    while segs:
        if isinstance(pos, int) and isinstance(off, int):
            if pos == off:
                break
        elif same_term(pos, off):
            break
        seg = segs[0]
        n = seg.length()
        end = tadd(off, n)
        if isinstance(pos, int) and isinstance(end, int):
            ge = pos >= end
        elif same_term(pos, end):
            ge = True
        else:
            ge = s.branch(pos >= end)
        if ge:
            if (isinstance(pos, int) and isinstance(off, int) and not isinstance(n, int)
                    and isinstance(seg, (Sub, Rep, IntEnc)) and s.entails(end == pos)):
                # the segment's length is known to be this constant
                n = pos - off
                seg = (Sub(seg.atom, seg.lo, n) if isinstance(seg, Sub) else
                       Rep(seg.v, n) if isinstance(seg, Rep) else IntEnc(seg.t, n, seg.order))
                end = pos
            left.append(seg)
            segs.pop(0)
            off = end
            continue
        if not isinstance(pos, int) or not isinstance(off, int):
            if s.branch(pos <= off):
                break
        if isinstance(seg, Flat):
            d = tsub(pos, off)
            try:
                a, b = flat_cut(seg, d)
                left.append(a)
                segs[0] = b
                break
            except Unsupported:
                # the first element may contain it
                if s.branch(TB(seg.n >= 1) if not isinstance(seg.n, int) else seg.n >= 1):
                    fs, rest = flat_pop_first(seg)
                    segs[0:1] = fs + [rest]
                    continue
                segs.pop(0)
                continue
        a, b = seg_cut(seg, tsub(pos, off))
        left.append(a)
        segs[0] = b
        break
    return Seq(q.kind, left), Seq(q.kind, segs)


def seq_slice(q, lo, hi):
    """q[lo:hi] with 0 <= lo <= hi <= len known."""
    a, _ = seq_split(q, hi) if not same_term(hi, q.length()) else (q, None)
    if isinstance(lo, int) and lo == 0:
        return a
    _, b = seq_split(a, lo)
    return b


def table_term(i, pairs):
    """The value paired with the key equal to i (the last run's value when there is none)."""
    runs = []                                      # [first key, last key, value at first, slope]
    for k, v in pairs:
        v = T(v)
        if runs and isinstance(v, int) and runs[-1][1] == k - 1 and isinstance(runs[-1][2], int):
            r = runs[-1]
            slope = 0 if v == r[2] else 1 if v == r[2] + (k - r[0]) else None
            if slope is not None and (r[3] is None or r[3] == slope):
                r[1], r[3] = k, slope
                continue
        runs.append([k, k, v, None])
    t = None
    for a, b, v, slope in reversed(runs):
        v = i + (v - a) if slope == 1 else z3.IntVal(v) if isinstance(v, int) else v
        t = v if t is None else z3.If(i <= b, v, t)
    return t


def seg_get(seg, i):
    """Element i (0 <= i < length known)."""
    s = st()
    if isinstance(seg, Elems):
        if isinstance(i, int):
            return seg.items[i]
        if len(seg.items) == 1:
            return seg.items[0]
        if all(is_intlike(x) for x in seg.items) and len(seg.items) > 1:
            return I(table_term(i, list(enumerate(seg.items))))
        return seg.items[s.concretize(i)]
    if isinstance(seg, Sub):
        return seg.atom.elem(tadd(seg.lo, i))
    if isinstance(seg, Rep):
        return seg.v
    if isinstance(seg, IntEnc):
        if isinstance(seg.n, int) and not isinstance(i, int):
            i = s.concretize(i)
        b = seg.byte(i)
        return b
    if isinstance(seg, Hex):
        from .strs import hexdigit
        b = T(seq_get(seg.seq, norm_t(div_const(i, 2))))
        if isinstance(i, int):
            return hexdigit(I(div_const(b, 16) if i % 2 == 0 else mod_const(b, 16)))
        return hexdigit(I(norm_t(z3.If(i % 2 == 0, T(div_const(b, 16)), T(mod_const(b, 16))))))
    raise Unsupported(f'element of {seg}')


def seq_get(q, i):
    """q[i], 0 <= i < len known."""
    s = st()
    i = norm_t(i)
    off = 0
    segs = list(q.segs)
    # index from the end, structurally
    while segs:
        seg = segs.pop(0)
        n = seg.length()
        end = tadd(off, n)
        if isinstance(i, int) and isinstance(end, int):
            inside = i < end
        elif not segs and not isinstance(seg, Flat):
            inside = True
        else:
            inside = s.branch(TB(i < end))
        if inside:
            if isinstance(seg, Flat):
                if s.branch(TB(seg.n >= 1) if not isinstance(seg.n, int) else seg.n >= 1):
                    try:
                        # from the end?
                        fl, last = flat_pop_last(seg)
                        cut = tadd(off, fl.length())
                        if s.entails(TB(i >= cut)):
                            segs[0:0] = last
                            off = cut
                            continue
                    except Unsupported:
                        pass
                    fs, rest = flat_pop_first(seg)
                    segs[0:0] = fs + [rest]
                    continue
                raise PathEnd()
            return seg_get(seg, tsub(i, off))
        off = end
    raise PathEnd()


def seq_concat(kind, parts):
    segs = []
    for p in parts:
        segs.extend(to_seq(p).segs)
    return Seq(kind, segs)


def seq_reverse(q):
    out = []
    q = expand(q)
    for g in reversed(q.segs):
        if isinstance(g, Elems):
            out.append(Elems(reversed(g.items)))
        elif isinstance(g, Rep):
            out.append(g)
        elif isinstance(g, IntEnc):
            out.append(IntEnc(g.t, g.n, 'big' if g.order == 'little' else 'little'))
        elif isinstance(g, Sub):
            a, lo, n = g.atom, g.lo, g.n
            if a.name.startswith('rev('):
                base, L = a.rev_of
                out.append(Sub(base, tsub(tsub(L, lo), n), n))
            else:
                r = Atom(f'rev({a.name})', a.length,
                         (lambda a: lambda i: a.elem(tsub(tsub(a.length, 1), i)))(a), a.args, a.kind)
                r.rev_of = (a, a.length)
                out.append(Sub(r, tsub(tsub(a.length, lo), n), n))
        else:
            raise Unsupported('reverse of a concatenation')
    return Seq(q.kind, out)


# ----------------------------------------------------------------- new atoms
def bytes_atom(name, length, args=(), lo=0, hi=256, kind='bytes', rng=True):
    """An arbitrary byte string (or code-point string)."""
    sorts = [z3.IntSort()] * (len(args) + 2)
    f = z3.Function(name + '_at', *sorts)

    def elem(i):
        i = z3.IntVal(i) if isinstance(i, int) else i
        t = f(*[a if isinstance(a, z3.ExprRef) else z3.IntVal(a) for a in args], z3.simplify(i))
        s = st()
        key = ('rng', t.get_id())
        if rng and key not in s.registry:
            s.registry[key] = t
            s.assume(z3.And(t >= lo, t < hi))
        return SInt(t)
    return Atom(name, length, elem, args, kind)


def sym_bytes(name, length, kind='bytes'):
    a = bytes_atom(name, length, hi=256 if kind != 'str' else 0x110000, kind=kind)
    return Seq(kind, [Sub(a, 0, length)])


def map_atom(name, length, fn, kind='list', args=()):
    return Atom(name, length, fn, args, kind)


# ----------------------------------------------------------------- int <-> bytes
def seq_value(q, order):
    """int.from_bytes of a byte sequence, as a term."""
    s = st()
    segs = list(q.segs)
    if order == 'little':
        segs = segs[::-1]
    total = 0          # big-endian accumulation: most significant first
    for g in segs:
        n = g.length()
        if isinstance(g, Elems):
            v = 0
            for x in (g.items if order == 'big' else reversed(g.items)):
                v = v * 256 + T(x)
            w = 256 ** len(g.items)
        elif isinstance(g, IntEnc):
            w = powt(256, n)
            if g.order == order:
                v = g.t
            elif isinstance(n, int):
                v = 0
                for k in range(n):
                    b = T(g.byte(k))
                    v = v * 256 + b if order == 'big' else v + b * 256 ** k
            else:
                raise Unsupported('value of a reversed encoding')
        elif isinstance(g, Rep):
            if isinstance(g.v, int) and g.v == 0:
                v = 0
                w = powt(256, n) if not (isinstance(total, int) and total == 0) else 1
            elif isinstance(g.n, int):
                v = 0
                for _ in range(g.n):
                    v = v * 256 + T(g.v)
                w = 256 ** g.n
            else:
                raise Unsupported('value of a repetition')
        elif isinstance(g, Sub):
            if not isinstance(n, int):
                k = s.const_of(n)
                if k is not None:
                    n, g = k, Sub(g.atom, g.lo, k)
            if isinstance(n, int) and n <= 8:
                v = 0
                items = [seg_get(g, k) for k in range(n)]
                for x in (items if order == 'big' else reversed(items)):
                    v = v * 256 + T(x)
                w = 256 ** n
            else:
                v = sub_value(g, order)
                w = powt(256, n)
        else:
            raise Unsupported(f'value of {g}')
        if isinstance(total, int) and total == 0:
            total = v
        else:
            if isinstance(w, z3.ExprRef):
                # products with the most significant part
                s.assume(z3.And(z3.Implies(TB(total >= 1), total * w >= w),
                                z3.Implies(TB(total <= 255), total * w <= 255 * w)))
            total = total * w + v
    return norm_t(total)


def sub_value(g, order):
    """Value of an arbitrary substring: an opaque number 0 <= v < 256^n per (atom, lo, n)."""
    s = st()
    known = s.registry.get('subvals', ())
    for (a, lo, n, o, v) in known:
        if o == order and a.same(g.atom) and teq(lo, g.lo) and teq(n, g.n):
            return v
    v = s.fresh_int('val')
    s.assume(z3.And(v >= 0, v < powt(256, g.n)))
    s.registry['subvals'] = tuple(known) + ((g.atom, g.lo, g.n, order, v),)
    return v


# ----------------------------------------------------------------- equality
def seq_eq(a, b):
    """Condition for equality of two sequences (python bool or z3 Bool); may fork."""
    s = st()
    a, b = expand(to_seq(a)), expand(to_seq(b))
    la, lb = a.length(), b.length()
    if isinstance(la, int) and isinstance(lb, int):
        if la != lb:
            return False
    elif any(isinstance(g, Flat) for g in a.segs) and any(isinstance(g, Flat) for g in b.segs) and prove_seq_eq(a, b):
        return True
    elif not s.branch(TB(la == lb)):
        return False
    n = la if isinstance(la, int) else lb
    if isinstance(n, int) and n <= 80:
        cs = []
        for pa, pb, m in align(a, b):
            if isinstance(pa, IntEnc) and isinstance(pb, IntEnc) and pa.order == pb.order:
                cs.append(pa.t == pb.t if not (isinstance(pa.t, int) and isinstance(pb.t, int))
                          else bool(pa.t == pb.t))
                continue
            if seg_same(pa, pb):
                continue
            m = m if isinstance(m, int) else s.concretize(m)
            enc, oth = (pa, pb) if isinstance(pa, IntEnc) else (pb, pa)
            if isinstance(enc, IntEnc) and not (isinstance(enc.t, int)):
                v = seq_value(Seq('bytes', [oth]), enc.order)
                cs.append(enc.t == v)
                continue
            for k in range(m):
                c = eq_cond(seg_get(pa, k), seg_get(pb, k))
                if c is False:
                    return False
                cs.append(c)
        return And(*cs)
    # symbolic length: structural proof, else case split with witnesses
    if prove_seq_eq(a, b):
        return True
    known = s.registry.get('eqs', ())
    for (x, y, v) in known:
        if x is a and y is b:
            return v
    for (x, y, v) in known:
        if teq(x.length(), la) and (prove_seq_eq(x, a) and prove_seq_eq(y, b)
                                    or prove_seq_eq(x, b) and prove_seq_eq(y, a)):
            return v
    bvar = s.fresh_bool('seqeq')
    if s.branch(bvar):
        k = z3.Int('k?')
        try:
            c = eq_cond_at(a, b, k)
            if c is not None:
                s.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n if isinstance(n, z3.ExprRef) else k < n), c)))
        except Unsupported:
            pass
        s.registry['eqs'] = tuple(known) + ((a, b, True),)
        orient(a, b)
        return True
    k = s.fresh_int('diff')
    s.assume(z3.And(0 <= k, k < n))
    c = eq_cond(seq_get(a, k), seq_get(b, k))
    s.assume(TB(Not(c)))
    s.registry['eqs'] = tuple(known) + ((a, b, False),)
    return False


def orient(a, b):
    """Remember a == b as a definition of an arbitrary string in terms of the other side."""
    s = st()
    subs = s.registry.get('substs', ())
    for x, y in ((a, b), (b, a)):
        if len(x.segs) == 1 and isinstance(x.segs[0], Sub) and not any(u.same(x.segs[0].atom) for u, _ in subs):
            g = x.segs[0]
            y2 = expand(y)
            if hasattr(g.atom, 'rev_of') and isinstance(g.lo, int) and g.lo == 0 and teq(g.n, g.atom.length):
                try:
                    y2 = seq_reverse(y2)
                except Unsupported:
                    continue
                g = Sub(g.atom.rev_of[0], 0, g.n)
                if any(u.same(g.atom) for u, _ in subs):
                    continue
            if isinstance(g.lo, int) and g.lo == 0 and teq(g.n, g.atom.length) and not any(
                    isinstance(h, Sub) and h.atom.same(g.atom) for h in y2.segs):
                s.registry['substs'] = tuple(subs) + ((g.atom, y2),)
                return


def expand(q):
    """q with the strings known to equal something else replaced by it."""
    s = st()
    subs = s.registry.get('substs', ())
    if not subs:
        return q
    for _ in range(len(subs)):
        out, changed = [], False
        for g in q.segs:
            if isinstance(g, Sub) and hasattr(g.atom, 'rev_of') and any(u.same(g.atom.rev_of[0]) for u, _ in subs):
                base, L = g.atom.rev_of
                y = next(y for u, y in subs if u.same(base))
                try:
                    out += list(seq_reverse(seq_slice(y, tsub(tsub(L, g.lo), g.n), tsub(L, g.lo))).segs)
                    changed = True
                except Unsupported:
                    out.append(g)
                continue
            if isinstance(g, Sub):
                for u, y in subs:
                    if u.same(g.atom):
                        out += list(seq_slice(y, g.lo, tadd(g.lo, g.n)).segs)
                        changed = True
                        break
                else:
                    out.append(g)
            else:
                out.append(g)
        if not changed:
            return q
        q = Seq(q.kind, out)
    return q


def eq_cond_at(a, b, k):
    """Pointwise equality term at bound index k for single-segment sequences."""
    if len(a.segs) == 1 and len(b.segs) == 1 and isinstance(a.segs[0], Sub) and isinstance(b.segs[0], Sub):
        x, y = a.segs[0], b.segs[0]
        if x.atom.kind in ('bytes', 'str') and y.atom.kind in ('bytes', 'str'):
            tx, ty = raw_at(x, k), raw_at(y, k)
            if tx is not None and ty is not None:
                return tx == ty
    return None


def raw_at(g, k):
    s = st()
    saved = s.facts
    s.facts = list(saved)
    reg = dict(s.registry)
    try:
        v = g.atom.elem(tadd(g.lo, k))
        return T(v)
    finally:
        s.facts = saved
        s.registry = reg


def seg_same(x, y):
    if x is y:
        return True
    if isinstance(x, Sub) and isinstance(y, Sub) and x.atom.same(y.atom):
        return teq(x.lo, y.lo)
    if isinstance(x, IntEnc) and isinstance(y, IntEnc) and x.order == y.order:
        return teq(x.t, y.t)
    if isinstance(x, Hex) and isinstance(y, Hex):
        return prove_seq_eq(x.seq, y.seq)
    return False


def align(a, b):
    """Yield (piece of a, piece of b, length) with pieces of equal length; a, b have provably
    equal lengths.  May fork."""
    s = st()
    xs, ys = list(a.segs), list(b.segs)
    while xs or ys:
        if not xs or not ys:
            rest = xs or ys
            g = rest.pop(0)
            n = g.length()
            if isinstance(n, int) and n == 0:
                continue
            if isinstance(n, int) or s.branch(TB(n != 0)):
                raise PathEnd()
            continue
        x, y = xs[0], ys[0]
        nx, ny = x.length(), y.length()
        if isinstance(x, Flat) or isinstance(y, Flat):
            if isinstance(x, Flat) and isinstance(y, Flat) and teq(x.n, y.n) and teq(nx, ny):
                xs.pop(0)
                ys.pop(0)
                yield x, y, nx
                continue
            f, lst, oth = (x, xs, y) if isinstance(x, Flat) else (y, ys, x)
            fl = f.length()
            if isinstance(f.n, int) and f.n == 0 or (not isinstance(f.n, int) and s.entails(f.n <= 0)):
                lst.pop(0)
                continue
            if s.branch(TB(f.n >= 1) if not isinstance(f.n, int) else True):
                # equal-length opaque counterpart: keep whole if it is a Sub covering exactly
                fs, rest = flat_pop_first(f)
                lst[0:1] = fs + [rest]
            else:
                lst.pop(0)
            continue
        if same_term(nx, ny):
            xs.pop(0)
            ys.pop(0)
            yield x, y, nx
            continue
        if isinstance(nx, int) and isinstance(ny, int):
            le = nx <= ny
        else:
            le = s.branch(TB(nx <= ny))
        if le:
            if isinstance(nx, int) and nx == 0:
                xs.pop(0)
                continue
            if s.branch(TB(nx == ny)) if not (isinstance(nx, int) and isinstance(ny, int)) else nx == ny:
                xs.pop(0)
                ys.pop(0)
                yield x, y, nx
                continue
            if not isinstance(nx, int) and s.branch(nx == 0):
                xs.pop(0)
                continue
            c, d = seg_cut(y, nx)
            xs.pop(0)
            ys[0] = d
            yield x, c, nx
        else:
            if isinstance(ny, int) and ny == 0:
                ys.pop(0)
                continue
            if not isinstance(ny, int) and s.branch(ny == 0):
                ys.pop(0)
                continue
            c, d = seg_cut(x, ny)
            ys.pop(0)
            xs[0] = d
            yield c, y, ny


def prove_seq_eq(a, b):
    """Structural proof of equality (True / False=not proved)."""
    s = st()
    a, b = expand(to_seq(a)), expand(to_seq(b))
    if len(a.segs) == len(b.segs) and any(isinstance(g, Flat) for g in a.segs):
        # segment by segment
        def pair(x, y):
            if isinstance(x, Flat) and isinstance(y, Flat):
                return teq(x.n, y.n) and prove_seg_eq(x, y, x.n)
            if isinstance(x, Flat) or isinstance(y, Flat):
                return False
            return prove_seq_eq(Seq(a.kind, [x]), Seq(b.kind, [y]))
        if all(pair(x, y) for x, y in zip(a.segs, b.segs)):
            return True
    la, lb = a.length(), b.length()
    for x, y in ((a, b), (b, a)):
        if x.segs and isinstance(x.segs[-1], IntEnc) and not isinstance(x.segs[-1].n, int) and y.segs and not (
                isinstance(y.segs[-1], IntEnc)):
            if prove_tail_enc(x, y):
                return True
    if not (s.entails(TB(la == lb)) if not (isinstance(la, int) and isinstance(lb, int)) else la == lb):
        return False

    def go():
        for x, y, n in align(a, b):
            if not prove_seg_eq(x, y, n):
                return False
        return True
    try:
        res = s.sub_explore(lambda: _guard(go))
    except Unsupported:
        return False
    return all(p.r for p in res)


def prove_tail_enc(x, y):
    """x ends in an encoding: the rest of y (of the same length) has the same value."""
    enc = x.segs[-1]
    pre = Seq(x.kind, x.segs[:-1])
    for j in range(len(y.segs)):
        py = Seq(y.kind, y.segs[:j])
        if teq(pre.length(), py.length()):
            tail = Seq('bytes', y.segs[j:])
            try:
                v = seq_value(tail, enc.order)
            except Unsupported:
                return False
            n = tail.length()
            if isinstance(enc.t, z3.ExprRef) and not isinstance(n, int):
                bit_window(enc.t, norm_t(n - 1))
            return st().entails(TB(enc.t == v)) and st().entails(TB(enc.n == n)) and (not pre.segs and not py.segs or prove_seq_eq(pre, py))
    return False


def _guard(fn):
    try:
        return fn()
    except Unsupported as e:
        st().last_unsupported = str(e)
        return False


def prove_seg_eq(x, y, n):
    s = st()
    if seg_same(x, y):
        return True
    if isinstance(x, Flat) and isinstance(y, Flat):
        def go():
            i = s.fresh_int('i')
            s.assume(z3.And(i >= 0, TB(i < x.n)))
            return prove_seq_eq(to_seq(x.fn(tadd(x.lo, i))), to_seq(y.fn(tadd(y.lo, i))))
        res = s.sub_explore(lambda: _guard(go))
        return all(p.r for p in res)
    if isinstance(x, IntEnc) and isinstance(y, IntEnc) and x.order == y.order:
        return s.try_prove(TB(x.t == y.t))
    if isinstance(n, int) and n <= 300:
        enc, oth = (x, y) if isinstance(x, IntEnc) else (y, x)
        if isinstance(enc, IntEnc) and isinstance(enc.n, int) and enc.n > 8:
            v = seq_value(Seq('bytes', [oth]), enc.order)
            return s.try_prove(TB(enc.t == v))
        return all(prove_eq(seg_get(x, k), seg_get(y, k)) for k in range(n))
    enc, oth = (x, y) if isinstance(x, IntEnc) else (y, x)
    if isinstance(enc, IntEnc):
        v = seq_value(Seq('bytes', [oth]), enc.order)
        return s.try_prove(TB(enc.t == v))

    def go():
        i = s.fresh_int('i')
        s.assume(z3.And(i >= 0, TB(i < n)))
        return prove_eq(seg_get(x, i), seg_get(y, i))
    res = s.sub_explore(lambda: _guard(go))
    return all(p.r for p in res)


def kind_of(v):
    if isinstance(v, (SBool, bool)):
        return 'bool'
    if isinstance(v, (SInt, int)):
        return 'int'
    if isinstance(v, float):
        return 'float'
    if isinstance(v, bytes) or isinstance(v, Seq) and v.kind == 'bytes':
        return 'bytes'
    if isinstance(v, (PBytearray, bytearray)):
        return 'bytearray'
    if isinstance(v, str) or isinstance(v, Seq) and v.kind == 'str':
        return 'str'
    if isinstance(v, (PList, list)):
        return 'list'
    if isinstance(v, tuple) or isinstance(v, Seq) and v.kind == 'tuple':
        return 'tuple'
    if isinstance(v, Seq):
        return v.kind
    if v is None:
        return 'None'
    if isinstance(v, Obj):
        return 'obj'
    if isinstance(v, PDict):
        return 'dict'
    return 'other'


EQ_HOOK = None    # set by interp: user-defined __eq__


def eq_cond(a, b):
    """Python a == b as bool / z3 Bool; may fork."""
    a, b = force(a), force(b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported(f'comparison of {a!r} and {b!r}')
    if hasattr(a, 'sym_eq'):
        return a.sym_eq(b)
    if hasattr(b, 'sym_eq'):
        return b.sym_eq(a)
    if is_intlike(a) and is_intlike(b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return T(a) == T(b)
    if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
        if isinstance(a, float) or isinstance(b, float):
            raise Unsupported('float comparison')
        return False
    ka, kb = kind_of(a), kind_of(b)
    if {ka, kb} <= {'bytes', 'bytearray'} or ka == kb and ka in ('str', 'list', 'tuple'):
        return seq_eq(a, b)
    if isinstance(a, Obj) or isinstance(b, Obj):
        return EQ_HOOK(a, b)
    if ka != kb:
        return False
    if ka == 'dict':
        raise Unsupported('dict comparison')
    try:
        return bool(a == b)
    except Exception:
        raise Unsupported(f'comparison of {a!r} and {b!r}')


def prove_eq(a, b):
    """Prove that two values are the same value: same type and content (structural)."""
    s = st()
    a, b = force(a), force(b)
    if a is b:
        return True
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.why == b.why
    if hasattr(a, 'sym_same'):
        return a.sym_same(b)
    if hasattr(b, 'sym_same'):
        return b.sym_same(a)
    ka, kb = kind_of(a), kind_of(b)
    if ka != kb:
        s.last_diff = f'types differ: {a!r:.120} / {b!r:.120}'
        return False
    if ka in ('int', 'bool'):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return s.try_prove(TB(T(a) == T(b)) if not (isinstance(T(a), int) and isinstance(T(b), int)) else T(a) == T(b))
    if ka in ('bytes', 'str', 'list', 'tuple', 'bytearray'):
        return prove_seq_eq(a, b)
    if ka == 'obj':
        if a.cls is not b.cls:
            return False
        fa, fb = a.fields, b.fields
        ks = [k for k in fa if not k.startswith('$cached')]
        if sorted(ks) != sorted(k for k in fb if not k.startswith('$cached')):
            s.last_diff = f'fields differ: {sorted(fa)} / {sorted(fb)}'
            return False
        return all(prove_eq(fa[k], fb[k]) for k in ks)
    if ka == 'dict':
        return len(a.items) == len(b.items) and all(
            prove_eq(k, k2) and prove_eq(v, v2) for (k, v), (k2, v2) in zip(a.items, b.items))
    try:
        return bool(a == b)
    except Exception:
        return False
