"""Operators on symbolic values."""
import ast
import types
import z3

from . import values as V
from .core import st, Unsupported, PathEnd
from .values import (SInt, SBool, Seq, Elems, Sub, Rep, PList, PBytearray, PDict, Obj, ExcVal, Opaque,
                     BoundM, I, T, TB, B, And, Or, Not, to_seq, norm_seq, is_intlike, kind_of, eq_cond)


def raise_(cls, *a):
    from .interp import PyRaise
    raise PyRaise(ExcVal(cls, a))


OPNAMES = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.LShift: '__lshift__',
           ast.RShift: '__rshift__', ast.BitAnd: '__and__', ast.BitOr: '__or__', ast.BitXor: '__xor__',
           ast.Mod: '__mod__', ast.FloorDiv: '__floordiv__', ast.Div: '__truediv__', ast.Pow: '__pow__'}

import operator
PYOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.LShift: operator.lshift,
         ast.RShift: operator.rshift, ast.BitAnd: operator.and_, ast.BitOr: operator.or_,
         ast.BitXor: operator.xor, ast.Mod: operator.mod, ast.FloorDiv: operator.floordiv,
         ast.Div: operator.truediv, ast.Pow: operator.pow}


def native(v):
    return not isinstance(v, (SInt, SBool, Seq, PList, PBytearray, PDict, Obj, Opaque)) and \
        not type(v).__module__.startswith('pyvc')


def binop(it, op, a, b):
    t = type(op)
    if native(a) and native(b):
        try:
            if t is ast.Mult and isinstance(a, (bytes, str, tuple)) and isinstance(b, int) and b > 1 << 20:
                return seq_repeat(a, b)
            if t in (ast.LShift, ast.Pow) and isinstance(a, int) and isinstance(b, int) and b > 1 << 16:
                raise Unsupported('huge shift')
            return PYOPS[t](a, b)
        except (Unsupported, PathEnd):
            raise
        except Exception as e:
            raise_(type(e), *e.args)
    if isinstance(a, (Obj,)) or isinstance(b, Obj):
        if isinstance(a, Obj):
            m = it.class_attr(a.cls, OPNAMES[t])
            from .interp import MISSING
            if m is not MISSING:
                return it.call(BoundM(a, m), [b], {})
        raise_(TypeError, 'unsupported operand')
    if is_intlike(a) and is_intlike(b):
        return int_op(it, t, a, b)
    if isinstance(a, float) or isinstance(b, float):
        raise Unsupported('float arithmetic on symbolic values')
    ka, kb = kind_of(a), kind_of(b)
    if t is ast.Add:
        if {ka, kb} <= {'bytes', 'bytearray'}:
            r = V.seq_concat(ka, [a, b])
            return it.box(PBytearray(r)) if ka == 'bytearray' else norm_seq(r)
        if ka == kb and ka in ('str', 'tuple'):
            return norm_seq(V.seq_concat(ka, [a, b]))
        if ka == kb == 'list':
            return it.box(PList(V.seq_concat('list', [a, b])))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('str')
        raise_(TypeError, 'unsupported operand types')
    if t is ast.Mult:
        if ka in ('bytes', 'str', 'list', 'tuple', 'bytearray') and is_intlike(b):
            r = seq_repeat(a, b)
        elif kb in ('bytes', 'str', 'list', 'tuple', 'bytearray') and is_intlike(a):
            r = seq_repeat(b, a)
            ka = kb
        else:
            raise_(TypeError, 'unsupported operand types')
        if ka == 'list':
            return it.box(PList(r))
        if ka == 'bytearray':
            return it.box(PBytearray(r))
        return norm_seq(r)
    if t is ast.Mod and ka == 'str':
        from .strs import percent
        return percent(it, a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported('operator on opaque value')
    if hasattr(a, 'sym_binop'):
        return a.sym_binop(it, t, b)
    raise_(TypeError, f'unsupported operand types {ka} {kb}')


def seq_repeat(q, n):
    q = to_seq(q)
    n = T(n)
    if not isinstance(n, int):
        if st().branch(n <= 0):
            n = 0
    if isinstance(n, int) and n <= 0:
        return Seq(q.kind, [])
    L = q.concrete_len()
    if L == 1:
        return Seq(q.kind, [Rep(V.seq_get(q, 0), n)]) if not isinstance(n, int) or n > 64 else Seq(
            q.kind, list(q.segs) * n)
    if L == 0:
        return q
    if isinstance(n, int):
        if n > 5000:
            raise Unsupported('large repetition')
        return Seq(q.kind, list(q.segs) * n)
    raise Unsupported('repetition of a symbolic sequence')


def rcls(a, b):
    return None


def int_op(it, t, a, b):
    s = st()
    x, y = T(a), T(b)
    if t is ast.Add:
        return I(x + y)
    if t is ast.Sub:
        return I(x - y)
    if t is ast.Mult:
        r = I(x * y)
        return r
    if t in (ast.FloorDiv, ast.Mod):
        if isinstance(y, int):
            if y == 0:
                raise_(ZeroDivisionError, 'division by zero')
            if y < 0:
                raise Unsupported('negative divisor')
            if isinstance(a, SInt) and a.bits is not None and y & (y - 1) == 0:
                k = y.bit_length() - 1
                return from_bits(a.bits[k:]) if t is ast.FloorDiv else from_bits(a.bits[:k])
            return I(V.div_const(x, y) if t is ast.FloorDiv else V.mod_const(x, y))
        if s.branch(y == 0):
            raise_(ZeroDivisionError, 'division by zero')
        if not s.branch(y > 0):
            raise Unsupported('negative divisor')
        if isinstance(x, int):
            x = z3.IntVal(x)
        return I(V.idiv(x, y) if t is ast.FloorDiv else V.imod(x, y))
    if t is ast.Div:
        raise Unsupported('true division')
    if t is ast.LShift:
        if not isinstance(y, int):
            if s.branch(y < 0):
                raise_(ValueError, 'negative shift count')
            try:
                y = s.concretize(y, 330)
            except Unsupported:
                return I(x * V.powt(2, y))
        if y < 0:
            raise_(ValueError, 'negative shift count')
        if isinstance(a, SInt) and a.bits is not None:
            return from_bits([z3.BoolVal(False)] * y + list(a.bits))
        r = I(x * (1 << y))
        if isinstance(r, SInt):
            r.tz = y + (a.tz if isinstance(a, SInt) else 0)
        return r
    if t is ast.RShift:
        if not isinstance(y, int):
            if s.branch(y < 0):
                raise_(ValueError, 'negative shift count')
            try:
                y = s.concretize(y, 330)
            except Unsupported:
                return I(V.idiv(x if isinstance(x, z3.ExprRef) else z3.IntVal(x), V.powt(2, y)))
        if y < 0:
            raise_(ValueError, 'negative shift count')
        if isinstance(a, SInt) and a.bits is not None:
            return from_bits(a.bits[y:])
        return I(V.div_const(x, 1 << y))
    if t is ast.Pow:
        if isinstance(x, int) and not isinstance(y, int):
            if not s.branch(y >= 0):
                raise Unsupported('negative power')
            if x in (2, 58, 256, 2048) or x > 1:
                return I(V.powt(x, y))
        if isinstance(y, int) and 0 <= y <= 64:
            r = 1
            for _ in range(y):
                r = r * x
            return I(r)
        raise Unsupported('symbolic power')
    if t is ast.BitAnd:
        return bit_and(a, b)
    if t is ast.BitOr:
        return bit_or(a, b)
    if t is ast.BitXor:
        return bit_xor(a, b)
    raise Unsupported(f'integer operator {t.__name__}')


def from_bits(bits):
    bits = [z3.simplify(b) for b in bits]
    while bits and z3.is_false(bits[-1]):
        bits.pop()
    if all(z3.is_true(b) or z3.is_false(b) for b in bits):
        return sum((1 << i) for i, b in enumerate(bits) if z3.is_true(b))
    t = z3.Sum([z3.If(b, 1 << i, 0) for i, b in enumerate(bits)]) if bits else z3.IntVal(0)
    return SInt(t, None, 0, bits)


def get_bits(v, n=None):
    if isinstance(v, SInt) and v.bits is not None:
        return list(v.bits)
    if isinstance(v, int) and v >= 0:
        return [z3.BoolVal(bool(v >> i & 1)) for i in range(v.bit_length())]
    return None


def bitwise(a, b, f):
    x, y = get_bits(a), get_bits(b)
    if x is None or y is None:
        return None
    n = max(len(x), len(y))
    F = z3.BoolVal(False)
    x += [F] * (n - len(x))
    y += [F] * (n - len(y))
    return from_bits([f(p, q) for p, q in zip(x, y)])


def and_mask(t, m):
    """t & m, m concrete >= 0 (t any integer, two's complement)."""
    if isinstance(t, int):
        return t & m
    out = 0
    i = 0
    while m >> i:
        if not m >> i & 1:
            i += 1
            continue
        j = i
        while m >> j & 1:
            j += 1
        part = V.mod_const(V.div_const(t, 1 << i), 1 << (j - i))
        out = out + part * (1 << i) if not (isinstance(out, int) and out == 0) else part * (1 << i)
        i = j
    return out


def bit_and(a, b):
    if isinstance(a, int) and not isinstance(b, int):
        a, b = b, a
    r = bitwise(a, b, z3.And) if (getattr(a, 'bits', None) or getattr(b, 'bits', None)) else None
    if r is not None:
        return r
    x, y = T(a), T(b)
    if isinstance(y, int):
        if y >= 0:
            return I(and_mask(x, y))
        return I(x - and_mask(x, ~y))
    if isinstance(x, int):
        return bit_and(b, a)
    # (2^k - 1) mask with concretisable width
    s = st()
    try:
        yv = s.concretize(y, 64)
        return bit_and(a, yv)
    except Unsupported:
        pass
    try:
        xv = s.concretize(x, 64)
        return bit_and(b, xv)
    except Unsupported:
        raise Unsupported('bitwise and of two symbolic integers')


def bit_or(a, b):
    if isinstance(a, int) and not isinstance(b, int):
        a, b = b, a
    r = bitwise(a, b, z3.Or) if (getattr(a, 'bits', None) or getattr(b, 'bits', None)) else None
    if r is not None:
        return r
    x, y = T(a), T(b)
    s = st()
    if isinstance(y, int):
        if y >= 0:
            return I(x + y - and_mask(x, y))
        raise Unsupported('or with negative')
    for p, q, tz in ((x, y, getattr(b, 'tz', 0)), (y, x, getattr(a, 'tz', 0))):
        if tz:
            pt = p if isinstance(p, z3.ExprRef) else z3.IntVal(p)
            if s.entails(z3.And(pt >= 0, pt < (1 << tz))):
                return I(p + q)
    raise Unsupported('bitwise or of two symbolic integers')


def bit_xor(a, b):
    if isinstance(a, int) and not isinstance(b, int):
        a, b = b, a
    r = bitwise(a, b, z3.Xor) if (getattr(a, 'bits', None) or getattr(b, 'bits', None)) else None
    if r is not None:
        return r
    x, y = T(a), T(b)
    s = st()
    if isinstance(y, int) and y >= 0:
        if bin(y).count('10') > 3:       # its value is not looked into
            r = I(z3.Function('xor', z3.IntSort(), z3.IntSort(), z3.IntSort())(x, z3.IntVal(y)))
        else:
            r = I(x + y - 2 * and_mask(x, y))
        w = 1 << (y.bit_length() + 7) // 8 * 8
        s.assume(z3.And(z3.Implies(x >= 0, T(r) >= 0), z3.Implies(z3.And(x >= 0, x < w), T(r) < w)))
        return r
    for p, q, tz in ((x, y, getattr(b, 'tz', 0)), (y, x, getattr(a, 'tz', 0))):
        if tz:
            pt = p if isinstance(p, z3.ExprRef) else z3.IntVal(p)
            if s.entails(z3.And(pt >= 0, pt < (1 << tz))):
                return I(p + q)
    raise Unsupported('xor of two symbolic integers')


# ------------------------------------------------------------------ comparison
def compare(it, op, a, b):
    t = type(op)
    if t is ast.Is or t is ast.IsNot:
        r = is_same(a, b)
        return r if t is ast.Is else not r
    if t is ast.Eq:
        return B(eq_cond(a, b))
    if t is ast.NotEq:
        return B(Not(eq_cond(a, b)))
    if t in (ast.In, ast.NotIn):
        c = contains(it, b, a)
        return B(c) if t is ast.In else B(Not(c))
    if native(a) and native(b):
        try:
            return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[t](a, b)
        except Exception as e:
            raise_(type(e), *e.args)
    if is_intlike(a) and is_intlike(b):
        x, y = T(a), T(b)
        return B({ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y,
                  ast.GtE: lambda: x >= y}[t]())
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported('comparison of opaque')
    if isinstance(a, float) or isinstance(b, float):
        raise Unsupported('float comparison')
    ka, kb = kind_of(a), kind_of(b)
    if ka != kb and not {ka, kb} <= {'bytes', 'bytearray'}:
        raise_(TypeError, 'unorderable')
    if ka in ('bytes', 'str', 'tuple', 'list'):
        qa, qb = to_seq(a), to_seq(b)
        if qa.concrete_len() is not None and qb.concrete_len() is not None:
            return lex_less(it, qa, qb, t)
    raise Unsupported(f'ordering of {ka}')


def lex_less(it, qa, qb, t):
    n = min(qa.concrete_len(), qb.concrete_len())
    for i in range(n):
        x, y = V.seq_get(qa, i), V.seq_get(qb, i)
        if not st().branch(TB(eq_cond(x, y))):
            op = ast.Lt() if t in (ast.Lt, ast.LtE) else ast.Gt()
            return compare(it, op, x, y)
    la, lb = qa.concrete_len(), qb.concrete_len()
    return {ast.Lt: la < lb, ast.LtE: la <= lb, ast.Gt: la > lb, ast.GtE: la >= lb}[t]


def is_same(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, SBool) and isinstance(b, bool):
        return st().branch(a.t if b else z3.Not(a.t))
    if isinstance(b, SBool) and isinstance(a, bool):
        return is_same(b, a)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return st().branch(a.t == b.t)
    if isinstance(a, (bool, type)) or isinstance(b, (bool, type)):
        return a is b
    if isinstance(a, Obj) or isinstance(b, Obj):
        return a is b or (isinstance(a, Obj) and isinstance(b, Obj) and getattr(a, 'ident', 0) != 0
                          and getattr(a, 'ident', 0) == getattr(b, 'ident', 1))
    if native(a) and native(b):
        return a is b
    raise Unsupported(f'identity of {a!r} and {b!r}')


def contains(it, c, x):
    from .interp import SetVal, RangeVal, MISSING, GenExp, GenResult
    s = st()
    if isinstance(c, RangeVal):
        if c.step == 1:
            return And(T(x) >= T(c.start), T(x) < T(c.stop))
        raise Unsupported('in range')
    if isinstance(c, SetVal):
        if isinstance(x, (PList, PDict)):
            raise_(TypeError, 'unhashable')
        return Or(*[TB_or(eq_cond(x, y)) for y in c.items])
    if isinstance(c, (set, frozenset, dict)):
        if native(x):
            try:
                return x in c
            except TypeError as e:
                raise_(TypeError, *e.args)
        i = key_code(x)
        codes = [key_code(y) for y in c]
        if i is not None and len(codes) > 5 and None not in codes and len({type(y) for y in c}) == 1 and \
                kind_of(x) == kind_of(next(iter(c))):
            from .symdom import ranges
            return ranges(i, sorted(set(codes)))
        return Or(*[TB_or(eq_cond(x, y)) for y in c])
    if isinstance(c, PDict):
        return Or(*[TB_or(eq_cond(x, k)) for k, _ in c.items])
    if hasattr(c, 'sym_contains'):
        return c.sym_contains(it, x)
    if isinstance(c, (GenExp, GenResult)):
        c = it.iter_seq(c)
    kc, kx = kind_of(c), kind_of(x)
    if kc in ('bytes', 'bytearray') and is_intlike(x) or kc in ('list', 'tuple'):
        q = to_seq(c)
        n = q.concrete_len()
        if n is not None:
            return Or(*[TB_or(eq_cond(x, V.seq_get(q, i))) for i in range(n)])
        ok, k = V.decide_all(q.length(), lambda i: TB(Not(eq_cond(x, V.seq_get(q, i)))))
        return not ok
    if kc == 'str' and kx == 'str':
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        qx, qc = to_seq(x), to_seq(c)
        if qx.concrete_len() == 1:
            ch = V.seq_get(qx, 0)
            n = qc.concrete_len()
            if n is not None:
                if isinstance(c, str) and n > 5 and isinstance(T(ch), z3.ExprRef):
                    from .symdom import ranges
                    return ranges(T(ch), sorted(set(map(ord, c))))
                return Or(*[TB_or(eq_cond(ch, V.seq_get(qc, i))) for i in range(n)])
            ok, k = V.decide_all(qc.length(), lambda i: TB(Not(eq_cond(ch, V.seq_get(qc, i)))))
            return not ok
        raise Unsupported('substring search')
    if kc == 'str':
        raise_(TypeError, "'in <string>' requires string")
    if isinstance(c, Obj):
        m = it.class_attr(c.cls, '__contains__')
        if m is not MISSING:
            return it.truth_cond(it.call(BoundM(c, m), [x], {}))
    if isinstance(c, type):
        raise Unsupported('in class')
    raise Unsupported(f'{kx} in {c!r:.80}')


def TB_or(c):
    return c


# ------------------------------------------------------------------ items
def index_term(it, k, n):
    """Normalise index k for length n; raises IndexError.  Returns 0 <= index < n."""
    s = st()
    k = T(k)
    if isinstance(k, int) and isinstance(n, int):
        if k < -n or k >= n:
            raise_(IndexError, 'index out of range')
        return k + n if k < 0 else k
    if isinstance(k, int):
        ok = s.branch(n > k if k >= 0 else n >= -k)
        if not ok:
            raise_(IndexError, 'index out of range')
        return k if k >= 0 else V.norm_t(n + k)
    if s.branch(k >= 0):
        if not s.branch(k < n):
            raise_(IndexError, 'index out of range')
        return k
    if not s.branch(k >= -n):
        raise_(IndexError, 'index out of range')
    return V.norm_t(k + n)


def slice_bounds(sl, n):
    s = st()

    def adj(x, default):
        if x is None:
            return default
        x = T(x)
        if isinstance(x, int) and isinstance(n, int):
            if x < 0:
                x = max(0, x + n)
            return min(x, n)
        if isinstance(x, int):
            if x == 0:
                return 0
            if x > 0:
                return x if s.branch(n >= x) else n
            return V.norm_t(n + x) if s.branch(n >= -x) else 0
        if s.branch(x < 0):
            x = V.norm_t(x + n)
            return x if s.branch(TB(x >= 0) if isinstance(x, z3.ExprRef) else x >= 0) else 0
        return x if s.branch(x <= n) else n
    lo = adj(sl.start, 0)
    hi = adj(sl.stop, n)
    if isinstance(lo, int) and isinstance(hi, int):
        if hi < lo:
            hi = lo
    elif lo is not hi and not V.same_term(lo, hi) and not (isinstance(lo, int) and lo == 0):
        if not s.branch(TB(lo <= hi)):
            hi = lo
    return lo, hi


def rebox(it, q):
    if q.kind == 'list':
        return it.box(PList(q))
    if q.kind == 'bytearray':
        return it.box(PBytearray(q))
    return norm_seq(q)


def getitem(it, o, k):
    from .interp import MISSING, RangeVal
    s = st()
    if isinstance(k, SliceVal):
        k = k.s
    if hasattr(o, 'sym_getitem'):
        return o.sym_getitem(it, k)
    if isinstance(o, (bytes, str, tuple, list, bytearray, range, Seq, PList, PBytearray)):
        if isinstance(k, slice):
            if native(o) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                try:
                    return o[k]
                except Exception as e:
                    raise_(type(e), *e.args)
            q = to_seq(o)
            step = k.step
            if step is not None and T(step) == -1 and k.start is None and k.stop is None:
                return rebox(it, V.seq_reverse(q))
            if step is not None and T(step) != 1:
                n = q.concrete_len()
                bounds = [None if x is None else T(x) for x in (k.start, k.stop, step)]
                if n is None or n > 1000 or any(x is not None and not isinstance(x, int) for x in bounds):
                    raise Unsupported('slice step')
                if bounds[2] == 0:
                    raise_(ValueError, 'slice step cannot be zero')
                return rebox(it, Seq(q.kind, [Elems([V.seq_get(q, i) for i in range(*slice(*bounds).indices(n))])]))
            lo, hi = slice_bounds(k, q.length())
            return rebox(it, V.seq_slice(q, lo, hi))
        if not is_intlike(k):
            if isinstance(k, Opaque):
                raise Unsupported('opaque index')
            raise_(TypeError, 'indices must be integers')
        if native(o) and isinstance(k, int):
            try:
                return o[k]
            except Exception as e:
                raise_(type(e), *e.args)
        q = to_seq(o)
        i = index_term(it, k, q.length())
        return it.elem(q, i)
    if isinstance(o, PDict):
        for kk, vv in reversed(o.items):
            if s.branch(TB(eq_cond(k, kk))):
                return vv
        raise_(KeyError, k)
    if isinstance(o, dict):
        if native(k):
            try:
                return o[k]
            except Exception as e:
                raise_(type(e), *e.args)
        return dict_lookup_sym(it, o, k)
    if isinstance(o, Obj):
        if issubclass(o.cls, tuple) and isinstance(k, int):
            return o.fields[o.cls._fields[k]]
        m = it.class_attr(o.cls, '__getitem__')
        if m is not MISSING:
            kk = SliceVal(k) if isinstance(k, slice) else k
            return it.call(BoundM(o, m), [kk], {})
        raise_(TypeError, 'not subscriptable')
    if isinstance(o, RangeVal):
        return it.elem(o.seq(), index_term(it, k, o.count()))
    if isinstance(o, type):
        import enum
        if issubclass(o, enum.Enum):
            from . import models
            return models.enum_by_name(it, o, k)
    if isinstance(o, (SInt, SBool, int)) or o is None:
        raise_(TypeError, 'not subscriptable')
    if native(o) and native(k):
        try:
            return o[k]
        except Exception as e:
            raise_(type(e), *e.args)
    raise Unsupported(f'subscript of {o!r:.80}')


def key_code(k):
    """The integer a one-character text or an integer stands for."""
    if isinstance(k, int) and not isinstance(k, bool):
        return k
    if isinstance(k, str):
        return ord(k) if len(k) == 1 else None
    if isinstance(k, SInt):
        return k.t
    if kind_of(k) == 'str' and to_seq(k).concrete_len() == 1:
        return T(V.seq_get(to_seq(k), 0))
    return None


def int_table(d, k):
    """(in keys, value term) of a look up in a table from characters or integers to integers."""
    if len(d) < 6 or len({type(x) for x in d}) != 1 or not all(type(v) is int for v in d.values()):
        return None
    if kind_of(k) != kind_of(next(iter(d))):
        return None
    pairs = sorted((key_code(x), v) for x, v in d.items()) if all(key_code(x) is not None for x in d) else None
    i = key_code(k)
    if pairs is None or i is None:
        return None
    from .symdom import ranges
    t = None
    return ranges(i, [p[0] for p in pairs]), V.table_term(i, pairs)


def dict_lookup_sym(it, d, k):
    s = st()
    r = int_table(d, k)
    if r is not None:
        if s.branch(r[0]):
            return I(r[1])
        raise_(KeyError, k)
    for kk, vv in d.items():
        if s.branch(TB(eq_cond(k, kk))):
            return vv
    raise_(KeyError, k)


class SliceVal:
    def __init__(self, s):
        self.s = s


def setitem(it, o, k, v):
    from .interp import MISSING
    s = st()
    if isinstance(k, SliceVal):
        k = k.s
    if hasattr(o, 'sym_setitem'):
        o.sym_setitem(it, k, v)
        return
    if isinstance(o, PDict):
        it.wrote(o)
        for i, (kk, vv) in enumerate(o.items):
            if s.branch(TB(eq_cond(k, kk))):
                o.items[i] = (kk, v)
                return
        o.items.append((k, v))
        return
    if isinstance(o, (PList, PBytearray)):
        it.wrote(o)
        q = o.seq
        n = q.length()
        if isinstance(k, slice):
            lo, hi = slice_bounds(k, n)
            a = V.seq_slice(q, 0, lo)
            b = V.seq_slice(q, hi, n)
            o.seq = V.seq_concat(q.kind, [a, it.iter_seq(v), b])
            return
        i = index_term(it, k, n)
        a = V.seq_slice(q, 0, i)
        b = V.seq_slice(q, V.tadd(i, 1), n)
        o.seq = Seq(q.kind, a.segs + (Elems([v]),) + b.segs)
        return
    if isinstance(o, Obj):
        m = it.class_attr(o.cls, '__setitem__')
        if m is not MISSING:
            it.call(BoundM(o, m), [SliceVal(k) if isinstance(k, slice) else k, v], {})
            return
    if isinstance(o, dict):
        # module-level cache dictionaries: per-path overlay is not modelled
        raise Unsupported('assignment into a concrete dict')
    raise_(TypeError, 'object does not support item assignment')


def delitem(it, o, k):
    s = st()
    if hasattr(o, 'sym_delitem'):
        o.sym_delitem(it, k)
        return
    if isinstance(o, PDict):
        it.wrote(o)
        for i, (kk, _) in enumerate(o.items):
            if s.branch(TB(eq_cond(k, kk))):
                del o.items[i]
                return
        raise_(KeyError, k)
    if isinstance(o, PList):
        it.wrote(o)
        n = o.seq.length()
        i = index_term(it, k, n)
        a = V.seq_slice(o.seq, 0, i)
        b = V.seq_slice(o.seq, V.tadd(i, 1), n)
        o.seq = Seq('list', a.segs + b.segs)
        return
    raise Unsupported('del item')
