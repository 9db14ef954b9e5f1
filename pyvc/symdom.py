"""Symbolic values for the contract domains."""
import z3

from . import api, core, values as V
from .core import st, Unsupported, PathEnd
from .values import (SInt, SBool, Seq, Elems, Sub, Atom, PList, PBytearray, Obj, I, T, TB, to_seq, norm_seq, force,
                     kind_of, is_intlike, eq_cond)


def uf(name, args, sort):
    if not args:
        return z3.Const(name, sort)
    f = z3.Function(name, *[z3.IntSort()] * len(args), sort)
    return f(*[a if isinstance(a, z3.ExprRef) else z3.IntVal(a) for a in args])


def fresh_value(it, d, base):
    return make(it, d, st().fresh(base), ())


def make(it, d, name, args=()):
    """The symbolic value `name(args)` of domain d."""
    s = st()
    if isinstance(d, api.Int):
        t = uf(name, args, z3.IntSort())
        key = ('rng', t.get_id())
        if key not in s.registry:
            s.registry[key] = t
            if d.lo is not None:
                s.assume(t >= d.lo)
            if d.hi is not None:
                s.assume(t <= d.hi)
        return SInt(t, d.cls)
    if isinstance(d, api.Bool):
        return SBool(uf(name, args, z3.BoolSort()))
    if isinstance(d, api.Const):
        return lift(it, d.v)
    if isinstance(d, api.OneOf):
        return lift(it, d.vals[pick(name, args, len(d.vals))])
    if isinstance(d, api.AnyOf):
        k = pick(name, args, len(d.doms))
        return make(it, d.doms[k], f'{name}.{k}', args)
    if isinstance(d, (api.Bytes, api.Str)):
        kind = 'str' if isinstance(d, api.Str) else 'bytes'
        n = length(d, name, args)
        lo, hi = (0, d.top) if kind == 'bytes' else (0, 0x110000)
        alpha = getattr(d, 'alphabet', None)
        a = V.bytes_atom(name, n, args, lo, hi, kind)
        excl = sorted({ord(c) for c in getattr(d, 'exclude', '')})
        if alpha is None and excl:
            base0 = a.elem

            def elem(i):
                v = base0(i)
                ss = st()
                key = ('excl', v.t.get_id())
                if key not in ss.registry:
                    ss.registry[key] = v.t
                    ss.assume(z3.Not(ranges(v.t, excl)))
                return v
            a.elem = elem
        if alpha is not None:
            base = a.elem
            cps = sorted({ord(c) for c in alpha})

            def elem(i):
                v = base(i)
                ss = st()
                key = ('alpha', v.t.get_id())
                if key not in ss.registry:
                    ss.registry[key] = v.t
                    ss.assume(ranges(v.t, cps))
                return v
            a.elem = elem
        q = norm_seq(Seq(kind, [Sub(a, 0, n)]))
        if kind == 'bytes' and d.cls is bytearray:
            return it.box(PBytearray(to_seq(q).with_kind('bytearray')))
        return q
    if isinstance(d, api.Cat):
        parts = [make(it, x, f'{name}.{i}', args) for i, x in enumerate(d.doms)]
        return norm_seq(V.seq_concat(kind_of(parts[0]), parts))
    if isinstance(d, api.Joined):
        from .text import make_joined
        return make_joined(it, d, name, args)
    if isinstance(d, api.Words):
        from .words import WordText
        return WordText(make(it, api.ListOf(d.dom, cls=tuple), name + '.words', args))
    if isinstance(d, api.ListOf):
        n = length(d, name, args)
        from .loops import memo_elem

        def elem(i):
            v = make(it, d.dom, name + '[]', tuple(args) + (i,))
            mark_frozen(v)
            return v
        kind = 'tuple' if d.cls is tuple else 'list'
        if isinstance(n, int):
            q = Seq(kind, [Elems([make(it, d.dom, name + '[]', tuple(args) + (k,)) for k in range(n)])])
        else:
            a = Atom(name, n, memo_elem(elem), args, kind)
            q = Seq(kind, [Sub(a, 0, n)])
        return it.box(PList(q)) if kind == 'list' else norm_seq(q)
    if isinstance(d, api.TupleOf):
        return tuple(make(it, x, f'{name}.{i}', args) for i, x in enumerate(d.doms))
    if isinstance(d, api.ObjOf):
        if not d.same_fields():
            raise Unsupported(f'{d.klass().__name__} objects have other attributes')
        o = it.box(Obj(d.klass(), {k: make(it, x, f'{name}.{k}', args) for k, x in d.fields.items()}))
        inv = getattr(d, 'inv', None)
        return o
    if isinstance(d, api.Stream):
        from .models import PStream
        v = make(it, d.dom, name, args)
        return it.box(PStream(to_seq(v)))
    if hasattr(d, 'symbolic'):
        return d.symbolic(it, name, args)
    raise Unsupported(f'domain {type(d).__name__} is not symbolic')


def mark_frozen(v):
    if isinstance(v, (PList, PBytearray, Obj)):
        v.frozen = True
        if isinstance(v, Obj):
            for x in v.fields.values():
                mark_frozen(x)


def ranges(t, cps):
    out = []
    lo = prev = cps[0]
    for c in cps[1:] + [None]:
        if c is not None and c == prev + 1:
            prev = c
            continue
        out.append(t == lo if lo == prev else z3.And(t >= lo, t <= prev))
        lo = prev = c
    return z3.Or(*out)


def pick(name, args, n):
    if n == 1:
        return 0
    s = st()
    t = uf(name + '.tag', args, z3.IntSort())
    key = ('rng', t.get_id())
    if key not in s.registry:
        s.registry[key] = t
        s.assume(z3.And(t >= 0, t < n))
    for k in range(n - 1):
        if s.branch(t == k):
            return k
    return n - 1


def length(d, name, args):
    if d.max is not None and d.min == d.max:
        return d.min
    s = st()
    t = uf(name + '.len', args, z3.IntSort())
    key = ('rng', t.get_id())
    if key not in s.registry:
        s.registry[key] = t
        s.assume(t >= d.min)
        if d.max is not None:
            s.assume(t <= d.max)
    return t


def lift(it, v):
    """A native value as interpreter value (mutable containers boxed)."""
    if isinstance(v, list):
        return it.box(PList([lift(it, x) for x in v]))
    if isinstance(v, bytearray):
        return it.box(PBytearray(Seq('bytearray', [Elems(v)])))
    return v


def kind_matches(v, d):
    v = force(v)
    if isinstance(d, api.Int):
        return is_intlike(v) and not isinstance(v, (bool, SBool))
    if isinstance(d, api.Bool):
        return isinstance(v, (bool, SBool))
    if isinstance(d, api.Bytes):
        return kind_of(v) in ('bytes', 'bytearray')
    if isinstance(d, (api.Str, api.Joined)):
        return kind_of(v) == 'str'
    if isinstance(d, (api.ListOf, api.TupleOf)):
        return kind_of(v) in ('list', 'tuple')
    if isinstance(d, api.AnyOf):
        return any(kind_matches(v, x) for x in d.doms)
    if isinstance(d, api.ObjOf):
        return isinstance(v, Obj) and v.cls is d.klass()
    return True


def in_domain(it, v, d):
    """Is the value provably in the domain?"""
    s = st()
    v = force(v)
    if isinstance(d, api.Int):
        if not is_intlike(v) or isinstance(v, (bool, SBool)) and d.cls is not None:
            return False
        if d.cls is not None and (getattr(v, 'cls', None) or type(v)) is not d.cls:
            return False
        t = T(v)
        if isinstance(t, int):
            return (d.lo is None or t >= d.lo) and (d.hi is None or t <= d.hi)
        c = []
        if d.lo is not None:
            c.append(t >= d.lo)
        if d.hi is not None:
            c.append(t <= d.hi)
        return not c or s.entails(z3.And(*c))
    if isinstance(d, api.Bool):
        return isinstance(v, (bool, SBool))
    if isinstance(d, api.Const):
        return const_is(v, d.v)
    if isinstance(d, api.OneOf):
        return any(const_is(v, x) for x in d.vals)
    if isinstance(d, api.AnyOf):
        return any(in_domain(it, v, x) for x in d.doms)
    if isinstance(d, api.Joined):
        x = d.dom
        return kind_of(v) == 'str' and not isinstance(v, V.Opaque) and x.alphabet is None and x.min == 0 and \
            x.max is None and x.exclude == d.sep
    if isinstance(d, (api.Bytes, api.Str)):
        want = 'str' if isinstance(d, api.Str) else 'bytearray' if d.cls is bytearray else 'bytes'
        if kind_of(v) != want or isinstance(v, V.Opaque):
            return False
        if getattr(d, 'exclude', ''):
            from .text import item_free
            if not all(item_free(it, v, ord(c)) for c in d.exclude):
                return False
        if getattr(d, 'alphabet', None) is not None:
            if not over_alphabet(v, d.alphabet):
                return False
        if getattr(d, 'top', 256) < 256:
            q = to_seq(v)
            if not V.forall_index(q.length(), lambda i: s.entails(TB(T(V.seq_get(q, i)) < d.top))):
                return False
        return len_in(to_seq(v).length(), d)
    if isinstance(d, api.ListOf):
        want = 'tuple' if d.cls is tuple else 'list'
        if kind_of(v) != want:
            return False
        q = to_seq(v)
        if not len_in(q.length(), d):
            return False
        for g in q.segs:
            n = g.length()
            if isinstance(g, Elems):
                if not all(in_domain(it, x, d.dom) for x in g.items):
                    return False
            elif isinstance(g, (Sub, V.Rep)):
                if isinstance(g, Sub) and getattr(g.atom, 'dom', None) is d.dom:
                    continue
                try:
                    if not V.forall_index(n, lambda i: in_domain(it, V.seg_get(g, i), d.dom)):
                        return False
                except Unsupported:
                    return False
            else:
                return False
        return True
    if isinstance(d, api.TupleOf):
        return isinstance(v, tuple) and len(v) == len(d.doms) and all(in_domain(it, x, y) for x, y in zip(v, d.doms))
    if isinstance(d, api.ObjOf):
        return isinstance(v, Obj) and v.cls is d.klass() and set(v.fields) == set(d.fields) and \
            all(in_domain(it, v.fields[k], x) for k, x in d.fields.items())
    if isinstance(d, api.Stream):
        from .models import PStream
        return isinstance(v, PStream) or getattr(v, 'stream', None) is not None
    if hasattr(d, 'member'):
        return d.member(it, v)
    return False


def over_alphabet(v, alphabet):
    if isinstance(v, str):
        return all(c in alphabet for c in v)
    s = st()
    cps = sorted({ord(c) for c in alphabet})

    def ok(x):
        x = T(x)
        return x in cps if isinstance(x, int) else s.entails(ranges(x, cps))
    try:
        for g in to_seq(v).segs:
            if isinstance(g, Elems):
                if not all(ok(x) for x in g.items):
                    return False
            elif isinstance(g, V.Rep):
                if not ok(g.v):
                    return False
            elif not V.forall_index(g.length(), lambda i: ok(V.seg_get(g, i))):
                return False
        return True
    except Unsupported:
        return False


def const_is(v, c):
    if isinstance(v, (SInt, SBool)) and isinstance(c, int):
        return st().entails(TB(T(v) == int(c)))
    if kind_of(v) == 'other' or v is None or c is None:
        return v is c
    if kind_of(v) != kind_of(c):
        return False
    if isinstance(v, (Seq, PList)):
        try:
            return V.prove_eq(v, c)
        except Unsupported:
            return False
    if isinstance(v, (int, bytes, str)):
        return v == c and type(v) is type(c)
    return v is c


def len_in(n, d):
    s = st()
    if isinstance(n, int):
        return n >= d.min and (d.max is None or n <= d.max)
    c = [n >= d.min]
    if d.max is not None:
        c.append(n <= d.max)
    return s.entails(z3.And(*c))


# ------------------------------------------------------------------ counterexample values
def from_model(d, m, name, args=()):
    """Native value of the symbolic argument in a z3 model (clamped into the domain)."""
    def ev(t):
        v = m.eval(t, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        return z3.is_true(v)
    if isinstance(d, api.Int):
        v = ev(uf(name, args, z3.IntSort()))
        if d.lo is not None:
            v = max(v, d.lo)
        if d.hi is not None:
            v = min(v, d.hi)
        return d._wrap(v)
    if isinstance(d, api.Bool):
        return ev(uf(name, args, z3.BoolSort()))
    if isinstance(d, api.Const):
        return d.v
    if isinstance(d, (api.OneOf, api.AnyOf)):
        xs = d.vals if isinstance(d, api.OneOf) else d.doms
        k = ev(uf(name + '.tag', args, z3.IntSort())) if len(xs) > 1 else 0
        k = max(0, min(len(xs) - 1, k))
        return xs[k] if isinstance(d, api.OneOf) else from_model(xs[k], m, f'{name}.{k}', args)
    if isinstance(d, (api.Bytes, api.Str, api.ListOf)):
        if d.max is not None and d.min == d.max:
            n = d.min
        else:
            n = max(d.min, ev(uf(name + '.len', args, z3.IntSort())))
            if d.max is not None:
                n = min(n, d.max)
        cap = 200000 if isinstance(d, api.Bytes) else 3000
        if n > cap:
            raise Unsupported('counterexample too long')
        if isinstance(d, api.ListOf):
            return d.cls(from_model(d.dom, m, name + '[]', tuple(args) + (k,)) for k in range(n))
        out = []
        f = z3.Function(name + '_at', *[z3.IntSort()] * (len(args) + 2))
        for k in range(n):
            v = ev(f(*[a if isinstance(a, z3.ExprRef) else z3.IntVal(a) for a in args], z3.IntVal(k)))
            if isinstance(d, api.Bytes):
                out.append(v % d.top)
            else:
                c = v if 0 <= v < 0x110000 and not 0xd800 <= v < 0xe000 else 0x41
                if d.alphabet is not None and chr(c) not in d.alphabet:
                    c = ord(d.alphabet[0])
                if chr(c) in d.exclude:
                    c = 0x41
                out.append(c)
        if isinstance(d, api.Str):
            return ''.join(map(chr, out))
        return d.cls(bytes(out))
    if isinstance(d, api.TupleOf):
        return tuple(from_model(x, m, f'{name}.{i}', args) for i, x in enumerate(d.doms))
    if isinstance(d, api.ObjOf):
        c = d.klass()
        o = c.__new__(c)
        for k, x in d.fields.items():
            object.__setattr__(o, k, from_model(x, m, f'{name}.{k}', args))
        return o
    if isinstance(d, api.Stream):
        return api.NativeStream(from_model(d.dom, m, name, args))
    if isinstance(d, api.Cat):
        parts = [from_model(x, m, f'{name}.{i}', args) for i, x in enumerate(d.doms)]
        return ''.join(parts) if isinstance(parts[0], str) else b''.join(parts)
    if isinstance(d, api.Joined):
        return d.sep.join(from_model(api.ListOf(d.dom, min=1), m, name + '.parts', args))
    if isinstance(d, api.Words):
        return ' '.join(from_model(api.ListOf(d.dom), m, name + '.words', args))
    if hasattr(d, 'from_model'):
        return d.from_model(m, name, args)
    raise Unsupported('no counterexample value')
