"""Text formatting and number/text conversions."""
import ast
import z3

from . import values as V
from .core import st, Unsupported, PathEnd
from .values import (SInt, SBool, Seq, Elems, Sub, Rep, Atom, Opaque, I, T, TB, B, And, Or, Not, to_seq, norm_seq,
                     force)


def joined(it, e, f):
    parts = []
    for p in e.values:
        if isinstance(p, ast.Constant):
            parts.append(p.value)
            continue
        v = force(it.eval(p.value, f))
        spec = joined(it, p.format_spec, f) if p.format_spec is not None else ''
        parts.append(format_value(it, v, spec, p.conversion))
    if any(isinstance(p, Opaque) for p in parts):
        return Opaque('str')
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    return norm_seq(V.seq_concat('str', parts))


def format_value(it, v, spec, conv=-1):
    from . import ops
    if ops.native(v) and isinstance(spec, str):
        if conv == ord('r'):
            v = repr(v)
        elif conv == ord('s'):
            v = str(v)
        try:
            if type(v).__module__.startswith('bitcoinx') and not isinstance(v, int):
                return Opaque('str')
            return format(v, spec)
        except Exception as ex:
            ops.raise_(type(ex), *ex.args)
    if conv == -1 and isinstance(v, SInt) and isinstance(spec, str):
        if spec in ('', 'd'):
            return dec_str(it, v)
        if spec.endswith('x') and (spec[:-1].isdigit() or spec == 'x'):
            w = spec[:-1]
            if w.startswith('0') and int(w) > 0:
                w = int(w)
                if st().entails(z3.And(v.t >= 0, v.t < 16 ** w)):
                    known = st().registry.get(('hex digits', v.t.get_id()))
                    if known and len(known[1]) == w:
                        return norm_seq(Seq('str', [Elems(known[1])]))
                    if w == 8:
                        return Seq('str', [V.Hex(Seq('bytes', [V.IntEnc(v.t, 4, 'big')]))])
                    return hex_fixed(v, w)
    if conv in (-1, ord('s')) and isinstance(v, Seq) and v.kind == 'str' and spec == '':
        return v
    if conv in (-1, ord('s')) and isinstance(v, Seq) and v.kind == 'bytes':
        return Opaque('str')
    return Opaque('str')


def percent(it, fmt, args):
    """fmt % args."""
    import re
    args = list(args) if isinstance(args, tuple) else [args]
    if not isinstance(fmt, str) or not re.fullmatch(r'(?:[^%]|%%|%0?[0-9]*[dxs])*', fmt):
        return Opaque('str')
    parts = []
    for p in re.findall(r'[^%]+|%[^dxs%]*[dxs%]', fmt):
        if not p.startswith('%'):
            parts.append(p)
        elif p == '%%':
            parts.append('%')
        elif not args:
            return Opaque('str')
        else:
            v = force(args.pop(0))
            if p[-1] == 's' and not (p == '%s' and (isinstance(v, (str, int)) or V.kind_of(v) == 'str')) or \
                    p[-1] != 's' and not isinstance(v, (int, SInt)):
                return Opaque('str')
            parts.append(format_value(it, v, p[1:] if p[-1] != 's' else '', -1))
    if args or any(isinstance(p, Opaque) for p in parts):
        return Opaque('str')
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    return norm_seq(V.seq_concat('str', parts))


def hexdigit(d):
    """Code point of the hex digit with value d."""
    d = T(d)
    if isinstance(d, int):
        return ord('0123456789abcdef'[d])
    return I(z3.If(d < 10, 48 + d, 87 + d))


def hex_fixed(v, w):
    return norm_seq(Seq('str', [Elems([hexdigit(I(V.mod_const(V.div_const(T(v), 16 ** (w - 1 - k)), 16)))
                                       for k in range(w)])]))


def hex_of(q):
    """bytes.hex()."""
    segs = []
    q = to_seq(q)
    if any(not isinstance(g, Elems) and not (isinstance(g, V.IntEnc) and isinstance(g.n, int) and g.n <= 8)
           for g in q.segs):
        return Seq('str', [V.Hex(q.with_kind('bytes'))])
    for g in to_seq(q).segs:
        n = g.length()
        if isinstance(g, V.IntEnc) and isinstance(n, int) and n <= 8:
            g = Elems([V.seg_get(g, k) for k in range(n)])
        if isinstance(g, Elems):
            out = []
            for b in g.items:
                b = T(b)
                out.append(hexdigit(I(V.div_const(b, 16))))
                out.append(hexdigit(I(V.mod_const(b, 16))))
            segs.append(Elems(out))
            continue
        raise Unsupported('hex')
    return norm_seq(Seq('str', segs))


def from_hex(it, v):
    """bytes.fromhex."""
    from . import ops
    s = st()
    if hasattr(v, 'fromhex'):
        return v.fromhex()
    if V.kind_of(v) != 'str':
        ops.raise_(TypeError, 'fromhex() argument must be str')
    q = to_seq(v)
    if any(isinstance(g, Sub) and not (isinstance(g.n, int) and g.n <= 8) for g in q.segs):
        return hex_unknown(q)
    out = []
    pend = None
    for g in q.segs:
        if isinstance(g, V.Hex) and pend is None:
            out.extend(g.seq.segs)
            continue
        if isinstance(g, Elems) or isinstance(g.length(), int) and g.length() <= 200:
            items = [V.seg_get(g, k) for k in range(g.length())]
            for c in items:
                c = T(c)
                if isinstance(c, int):
                    ch = chr(c)
                    if ch.isspace() and pend is None and c < 128:
                        continue
                    if ch not in '0123456789abcdefABCDEF':
                        ops.raise_(ValueError, 'non-hexadecimal number')
                    d = int(ch, 16)
                else:
                    if s.branch(z3.And(c >= 48, c <= 57)):
                        d = c - 48
                    elif s.branch(z3.And(c >= 97, c <= 102)):
                        d = c - 87
                    elif s.branch(z3.And(c >= 65, c <= 70)):
                        d = c - 55
                    elif pend is None and s.branch(z3.Or(c == 32, z3.And(c >= 9, c <= 13))):
                        continue
                    else:
                        ops.raise_(ValueError, 'non-hexadecimal number')
                if pend is None:
                    pend = d
                else:
                    out.append(Elems([I(V.norm_t(pend * 16 + d) if not (isinstance(pend, int) and isinstance(d, int))
                                        else pend * 16 + d)]))
                    pend = None
            continue
        raise Unsupported('fromhex of arbitrary text')
    if pend is not None:
        ops.raise_(ValueError, 'non-hexadecimal number')
    return norm_seq(Seq('bytes', out))


def is_hex(c):
    c = T(c)
    if isinstance(c, int):
        return c in b'0123456789abcdefABCDEF'
    return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 97, c <= 102), z3.And(c >= 65, c <= 70))


def hex_unknown(q):
    """bytes.fromhex of an arbitrary text: some function of the text, with no more than half as many bytes."""
    from . import ops
    s = st()
    known = s.registry.get('unhex', ())
    for k, r in known:
        if V.prove_eq(k, q):
            break
    else:
        N = q.length()
        digits = V.decide_all(N, lambda i: is_hex(V.seq_get(q, i)))[0]
        if s.branch(N % 2 == 0 if digits and not isinstance(N, int) else s.fresh_bool('hexok')):
            n = s.fresh_int('hexn')
            if digits:
                s.assume(TB(n * 2 == N))
            s.assume(z3.And(n >= 0, TB(n * 2 <= q.length())))
            r = V.sym_bytes(s.fresh('unhex'), n)
        else:
            r = None
        s.registry['unhex'] = tuple(known) + ((q, r),)
    if r is None:
        ops.raise_(ValueError, 'non-hexadecimal number')
    return r


def dec_str(it, v):
    """str(int), as an uninterpreted but injective text."""
    s = st()
    t = T(v)
    if isinstance(t, int):
        return str(t)
    for q in s.registry.get('decs', ()):
        if V.teq(q.segs[0].atom.dec_of, t):
            return q
    L = z3.Function('declen', z3.IntSort(), z3.IntSort())

    def ax():
        yield L(t) >= 1
        for k in range(1, 11):
            yield z3.Implies(z3.And(t >= 0, t < 10 ** k), L(t) <= k)
            yield z3.Implies(t >= 10 ** k, L(t) > k)
            yield z3.Implies(z3.And(t < 0, t > -10 ** k), L(t) <= k + 1)
            yield z3.Implies(t <= -10 ** k, L(t) > k + 1)
        yield z3.Implies(t < 0, L(t) >= 2)
    s.axiom_once(('declen', t.get_id()), ax)
    s.registry[('keep', t.get_id())] = t
    f = z3.Function('dec_at', z3.IntSort(), z3.IntSort(), z3.IntSort())

    def elem(i):
        i = i if isinstance(i, z3.ExprRef) else z3.IntVal(i)
        c = f(t, z3.simplify(i))
        s = st()
        key = ('decrng', c.get_id())
        if key not in s.registry:
            s.registry[key] = c
            s.assume(z3.Implies(t >= 0, z3.And(c >= 48, c <= 57)))
            s.assume(z3.Or(c == 45, z3.And(c >= 48, c <= 57)))
            s.assume(z3.Implies(z3.And(i == 0), (c == 45) == (t < 0)))
            s.assume(z3.Implies(i > 0, c != 45))
            s.assume(z3.Implies(z3.And(t >= 0, t < 10, i == 0), c == 48 + t))
            s.assume(z3.Implies(z3.And(t < 0, t > -10, i == 1), c == 48 - t))
        return SInt(c)
    a = Atom('dec', L(t), elem, (t,), 'str')
    a.dec_of = t
    q = Seq('str', [Sub(a, 0, L(t))])
    s.registry['decs'] = s.registry.get('decs', ()) + (q,)
    return q
