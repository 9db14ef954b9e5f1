"""Text: splitting, stripping, regular expressions, decimal numbers."""
import re
import z3
try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:                      # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

from . import api, core, values as V
from .core import st, Unsupported, PathEnd
from .models import model, MODELS, MISSING, find_first
from .ops import raise_
from .values import (SInt, SBool, Seq, Elems, Sub, Rep, Flat, Atom, Opaque, PList, I, T, TB, And, Or, Not, to_seq,
                     norm_seq, tadd, tsub, teq, force, Model)


# ------------------------------------------------------------------ domains
def make_joined(it, d, name, args):
    from . import symdom
    n = V.I
    parts = symdom.make(it, api.ListOf(d.dom, min=1, cls=tuple), name + '.parts', args)
    return joined_text(it, d.sep, to_seq(parts))


def joined_text(it, sep, q):
    """sep.join(q) for a sequence with at least one item."""
    sepq = to_seq(sep)
    first = to_seq(it.elem(q, 0))
    m = tsub(q.length(), 1)
    return norm_seq(Seq('str', list(first.segs) + flat_rest(it, sepq, q, 1, m, 'str')))


def flat_rest(it, sepq, q, lo, m, want):
    from .models import flat_of
    if isinstance(m, int) and m == 0:
        return []
    if isinstance(m, int) and m <= 16:
        out = []
        for k in range(m):
            out += list(sepq.segs) + list(to_seq(it.elem(q, lo + k)).segs)
        return out
    rest = V.seq_slice(q, lo, tadd(lo, m))
    fn = lambda i: V.seq_concat(want, [sepq, to_seq(force(it.elem(rest, i)))])
    fl = flat_of(None, m, fn)
    fl.sep = (rest, sepq)
    return [fl]


# ------------------------------------------------------------------ splitting
def free_of(g, c):
    """Is no element of the segment equal to c (decided; may fork)?  None if all are."""
    n = g.length()
    if isinstance(g, Elems):
        return False
    ok, k = V.decide_all(n, lambda i: TB(Not(V.eq_cond(V.seg_get(g, i), c))))
    return True if ok else k


def item_free(it, x, c):
    """Provably no element of x equals c."""
    q = to_seq(force(x))
    for g in q.segs:
        n = g.length()
        if isinstance(g, Flat):
            return False
        if not V.forall_index(n, lambda i: st().entails(TB(Not(V.eq_cond(V.seg_get(g, i), c))))):
            return False
    return True


def split_text(it, q, c, maxsplit=-1):
    """The parts of q between occurrences of the element c: a list Seq."""
    s = st()
    done = []                 # segments of the resulting list
    cur = []                  # segments of the current part
    count = 0
    kind = q.kind
    segs = list(q.segs)
    idx = 0
    while idx < len(segs):
        g = segs[idx]
        idx += 1
        if maxsplit >= 0 and count >= maxsplit:
            cur.append(g)
            continue
        if isinstance(g, Elems):
            for j, x in enumerate(g.items):
                if (maxsplit < 0 or count < maxsplit) and s.branch(TB(V.eq_cond(x, c))):
                    done.append(Elems([norm_seq(Seq(kind, cur))]))
                    cur = []
                    count += 1
                else:
                    cur.append(Elems([x]))
            continue
        if isinstance(g, Flat):
            sep = getattr(g, 'sep', None)
            if sep is None or idx < len(segs) or maxsplit >= 0:
                raise Unsupported('split of a concatenation')
            rest, sepq = sep
            if sepq.concrete_len() != 1 or not V.prove_eq(V.seq_get(sepq, 0), c):
                raise Unsupported('split at another separator')
            if not V.forall_index(rest.length(), lambda i: item_free(it, it.elem(rest, i), c)):
                raise Unsupported('split of parts that may contain the separator')
            done.append(Elems([norm_seq(Seq(kind, cur))]))
            done.extend(rest.segs)
            cur = None
            continue
        if isinstance(g, (V.Hex, V.IntEnc)):
            raise Unsupported('split')
        r = free_of(g, c)
        if r is True:
            cur.append(g)
            continue
        # the first occurrence is at r
        cur.append(seg_part(g, 0, r))
        done.append(Elems([norm_seq(Seq(kind, cur))]))
        cur = []
        count += 1
        if maxsplit < 0 or count < maxsplit:
            raise Unsupported('split of arbitrary text')
        cur.append(seg_part(g, tadd(r, 1), tsub(g.length(), tadd(r, 1))))
    if cur is not None:
        done.append(Elems([norm_seq(Seq(kind, cur))]))
    return Seq('list', done)


def seg_part(g, lo, n):
    q = V.seq_slice(Seq('str', [g]), lo, tadd(lo, n))
    if len(q.segs) > 1:
        raise Unsupported('part of a segment')
    return q.segs[0] if q.segs else Elems([])


WHITE = ((9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f),
         (0x205f, 0x205f), (0x3000, 0x3000))


def is_space(c):
    c = T(c)
    if isinstance(c, int):
        return chr(c).isspace()
    return z3.Or(*[z3.And(a <= c, c <= b) for a, b in WHITE])


def split_method(it, o, q, name, a, kw):
    s = st()
    kind = q.kind
    if name == 'split':
        sep = a[0] if a else kw.get('sep')
        mx = a[1] if len(a) > 1 else kw.get('maxsplit', -1)
        if sep is None:
            if kind == 'str' and mx == -1 and V.decide_all(q.length(), lambda i: TB(Not(is_space(V.seq_get(q, i)))))[0]:
                n = q.length()
                one = n > 0 if isinstance(n, int) else s.branch(n > 0)
                return it.box(PList(Seq('list', [Elems([q])] if one else [])))
            raise Unsupported('split at white space of symbolic text')
        sq = to_seq(sep)
        if sq.concrete_len() != 1 or not isinstance(mx, int):
            raise Unsupported('split')
        return it.box(PList(split_text(it, q, V.seq_get(sq, 0), mx)))
    if name == 'partition':
        sq = to_seq(a[0])
        if sq.concrete_len() != 1:
            raise Unsupported('partition')
        r = split_text(it, q, V.seq_get(sq, 0), 1)
        empty = '' if kind == 'str' else b''
        if r.concrete_len() == 1:
            return (V.seq_get(r, 0), empty, empty)
        return (V.seq_get(r, 0), norm_seq(sq), V.seq_get(r, 1))
    raise Unsupported(f'str.{name} on symbolic text')


# ------------------------------------------------------------------ decimal numbers
def parse_decimal(it, v):
    """int(text): decimal digits, optionally after one '-'."""
    s = st()
    q = to_seq(v)
    if len(q.segs) == 1 and isinstance(q.segs[0], Sub) and getattr(q.segs[0].atom, 'dec_of', None) is not None:
        g = q.segs[0]
        t = g.atom.dec_of
        if isinstance(g.lo, int) and g.lo == 0 and teq(g.n, g.atom.length) and \
                s.entails(z3.And(t < 10 ** 100, t > -10 ** 100)):
            return I(t)
    N = q.length()
    if not (N >= 1 if isinstance(N, int) else s.branch(N >= 1)):
        raise_(ValueError, 'invalid literal for int()')
    neg = False
    if s.branch(TB(V.eq_cond(V.seq_get(q, 0), 45))):
        neg = True
        q = V.seq_slice(q, 1, N)
        N = q.length()
        if not (N >= 1 if isinstance(N, int) else s.branch(N >= 1)):
            raise_(ValueError, 'invalid literal for int()')
    ok, k = V.decide_all(N, lambda i: digit_cond(V.seq_get(q, i)))
    if not ok:
        return int_unknown(to_seq(v))
    if isinstance(N, int) and N <= 40:
        val = 0
        for i in range(N):
            val = val * 10 + (T(V.seq_get(q, i)) - 48)
        return I(V.norm_t(-val if neg else val) if not isinstance(val, int) else (-val if neg else val))
    if not (N <= 4300 if isinstance(N, int) else s.branch(N <= 4300)):
        raise_(ValueError, 'Exceeds the limit for integer string conversion')
    val = decimal_value(q)
    return I(-val if neg else val)


def int_unknown(q):
    """int(text) of text that is not just decimal digits: white space, underscores, a plus sign, digits of
    other scripts, or not a number; some function of the text."""
    from .models import text_fact
    s = st()
    if not s.branch(text_fact('isint', q)):
        raise_(ValueError, 'invalid literal for int()')
    known = s.registry.get('intval', ())
    for k, v in known:
        if V.prove_eq(k, q):
            return I(v)
    v = s.fresh_int('intval')
    s.registry['intval'] = tuple(known) + ((q, v),)
    return I(v)


def digit_cond(c):
    c = T(c)
    if isinstance(c, int):
        return z3.BoolVal(48 <= c <= 57)
    return z3.And(c >= 48, c <= 57)


def decimal_value(q):
    """The value of decimal digits: an uninterpreted function of the text."""
    s = st()
    known = s.registry.get('decval', ())
    for k, v in known:
        try:
            if V.prove_eq(k, q):
                return v
        except Unsupported:
            pass
    v = s.fresh_int('decval')
    s.assume(v >= 0)
    N = q.length()
    if not isinstance(N, int):
        for k in (1, 2, 3, 4, 9, 10):
            s.assume(z3.Implies(N <= k, v < 10 ** k))
    s.registry['decval'] = tuple(known) + ((q, v),)
    return v


# ------------------------------------------------------------------ regular expressions
class Rx:
    """A pattern as a linear list of tokens; only patterns where greedy matching needs no backtracking."""
    def __init__(self, pat):
        self.pat = pat
        self.toks = []
        self.bytes = isinstance(pat.pattern, bytes)
        if pat.flags & ~(re.UNICODE):
            raise Unsupported('regular expression flags')
        self.flatten(sre_parse.parse(pat.pattern, pat.flags))
        self.check()

    def flatten(self, items):
        for op, arg in items:
            if op in (sre_c.LITERAL, sre_c.IN, sre_c.ANY, sre_c.NOT_LITERAL):
                self.toks.append(('set', self.charset(op, arg), 1, 1))
            elif op in (sre_c.MAX_REPEAT, getattr(sre_c, 'POSSESSIVE_REPEAT', None)):
                lo, hi, sub = arg
                sub = list(sub)
                if len(sub) != 1 or sub[0][0] not in (sre_c.LITERAL, sre_c.IN, sre_c.ANY, sre_c.NOT_LITERAL):
                    raise Unsupported('regular expression repeat')
                self.toks.append(('set', self.charset(*sub[0]), lo, None if hi is sre_c.MAXREPEAT else hi))
            elif op is sre_c.SUBPATTERN:
                g, add, sub_, p = arg
                if add or sub_:
                    raise Unsupported('regular expression flags')
                if g is not None:
                    self.toks.append(('open', g))
                self.flatten(p)
                if g is not None:
                    self.toks.append(('close', g))
            elif op is sre_c.AT and arg in (sre_c.AT_END, sre_c.AT_END_STRING, sre_c.AT_BEGINNING,
                                            sre_c.AT_BEGINNING_STRING):
                self.toks.append(('at', arg))
            else:
                raise Unsupported(f'regular expression {op}')

    def charset(self, op, arg):
        if op is sre_c.LITERAL:
            return [(arg, arg)]
        top = 255 if self.bytes else 0x10ffff
        if op is sre_c.NOT_LITERAL:
            return complement([(arg, arg)], top)
        if op is sre_c.ANY:
            return complement([(10, 10)], top)
        out, neg = [], False
        for o, x in arg:
            if o is sre_c.NEGATE:
                neg = True
            elif o is sre_c.LITERAL:
                out.append((x, x))
            elif o is sre_c.RANGE:
                out.append(tuple(x))
            else:
                raise Unsupported('regular expression class')
        return complement(out, top) if neg else out

    def check(self):
        for i, t in enumerate(self.toks):
            if t[0] != 'set' or t[2] == t[3]:
                continue
            for u in self.toks[i + 1:]:
                if u[0] != 'set':
                    continue
                if any(a <= d and c <= b for a, b in t[1] for c, d in u[1]):
                    raise Unsupported('regular expression that may backtrack')
                if u[2] > 0:
                    break

    def match(self, it, q, full=False):
        s = st()
        pos, N = 0, q.length()
        groups = {}
        toks = self.toks + ([('at', sre_c.AT_END_STRING)] if full else [])

        def lt(a, b):
            return a < b if isinstance(a, int) and isinstance(b, int) else s.branch(TB(a < b))

        def inset(c, rs):
            c = T(c)
            if isinstance(c, int):
                return z3.BoolVal(any(a <= c <= b for a, b in rs))
            return z3.Or(*[c == a if a == b else z3.And(c >= a, c <= b) for a, b in rs])
        for t in toks:
            if t[0] == 'open':
                groups[t[1]] = (pos, None)
            elif t[0] == 'close':
                groups[t[1]] = (groups[t[1]][0], pos)
            elif t[0] == 'at':
                if t[1] in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING):
                    if not (isinstance(pos, int) and pos == 0):
                        raise Unsupported('regular expression ^')
                    continue
                if not lt(pos, N):
                    continue
                if t[1] is sre_c.AT_END and not lt(tadd(pos, 1), N) and s.branch(inset(V.seq_get(q, pos), [(10, 10)])):
                    continue
                return None
            else:
                _, rs, lo, hi = t
                if hi is not None and hi <= 8 or isinstance(N, int) and N <= 40 and isinstance(pos, int):
                    k = 0
                    while hi is None or k < hi:
                        if not lt(pos, N) or not s.branch(inset(V.seq_get(q, pos), rs)):
                            break
                        pos = tadd(pos, 1)
                        k += 1
                    if k < lo:
                        return None
                elif hi is None:
                    rest = V.seq_slice(q, pos, N)
                    m = rest.length()
                    ok, k = V.decide_all(m, lambda i: inset(V.seq_get(rest, i), rs))
                    cnt = m if ok else k
                    if lo and lt(cnt, lo):
                        return None
                    pos = tadd(pos, cnt)
                else:
                    raise Unsupported('regular expression repeat')
        return SymMatch(q, groups, pos)


def complement(rs, top):
    out, lo = [], 0
    for a, b in sorted(rs):
        if a > lo:
            out.append((lo, a - 1))
        lo = max(lo, b + 1)
    if lo <= top:
        out.append((lo, top))
    return out


class SymMatch:
    pyclass = re.Match

    def __init__(self, q, groups, end):
        self.q, self.g, self.end = q, dict(groups), end
        self.g[0] = (0, end)

    def get(self, k):
        a, b = self.g[k]
        return norm_seq(V.seq_slice(self.q, a, b))

    def sym_attr(self, it, name):
        if name == 'group':
            return Model(lambda it, a, kw: self.get(a[0] if a else 0) if len(a) < 2 else tuple(self.get(x) for x in a),
                         'group')
        if name == 'groups':
            return Model(lambda it, a, kw: tuple(self.get(k) for k in sorted(self.g) if k), 'groups')
        if name in ('end', 'start'):
            return Model(lambda it, a, kw: I(self.g[a[0] if a else 0][name == 'end']), name)
        if name == '__getitem__':
            return Model(lambda it, a, kw: self.get(a[0]), name)
        return MISSING


_rx = {}


def pattern_attr(it, o, name):
    if name in ('match', 'fullmatch'):
        def run(it, a, kw):
            v = force(a[0])
            if isinstance(v, (str, bytes)):
                return getattr(o, name)(v)
            if len(a) != 1 or kw:
                raise Unsupported('regular expression match with bounds')
            k = V.kind_of(v)
            if k != ('bytes' if isinstance(o.pattern, bytes) else 'str') and \
                    not (k == 'bytearray' and isinstance(o.pattern, bytes)):
                raise_(TypeError, 'cannot use a pattern on this type')
            if o not in _rx:
                _rx[o] = Rx(o)
            return _rx[o].match(it, to_seq(v), name == 'fullmatch')
        return Model(run, name)
    if name == 'pattern':
        return o.pattern
    return MISSING


def re_fn(name):
    def run(it, a, kw):
        if not isinstance(a[0], (str, bytes)) or len(a) != 2 or kw:
            raise Unsupported('re.' + name)
        m = pattern_attr(it, re.compile(a[0]), name)
        return m.fn(it, [a[1]], {})
    return run


def re_compile(it, a, kw):
    if len(a) != 1 or kw or not isinstance(force(a[0]), (str, bytes)):
        raise Unsupported('re.compile')
    return re.compile(force(a[0]))


MODELS[re.compile] = (re.compile, Model(re_compile, 're.compile'))
MODELS[re.match] = (re.match, Model(re_fn('match'), 're.match'))
MODELS[re.fullmatch] = (re.fullmatch, Model(re_fn('fullmatch'), 're.fullmatch'))


def make_padded(it, d, name, args):
    """x * pad + rest, rest empty or a first element other than x and anything."""
    s = st()
    from . import symdom
    pad = symdom.make(it, api.Int(0), name + '.pad', args)
    x = ord(d.x) if isinstance(d.x, str) else d.x
    kind = 'str' if isinstance(d.x, str) else 'bytes'
    rest = to_seq(symdom.make(it, d.dom, name + '.rest', args))
    n = rest.length()
    if isinstance(n, int) and n == 0 or not isinstance(n, int) and s.branch(n == 0):
        segs = []
    else:
        first = V.seq_get(rest, 0)
        s.assume(TB(T(first) != x))
        segs = [Elems([first])] + list(V.seq_slice(rest, 1, n).segs)
    q = norm_seq(Seq(kind, [V.Rep(x, T(pad))] + segs))
    if isinstance(q, Seq):
        q.pad = pad
    return q


def lead(it, args, kw):
    v, x = args
    if not isinstance(v, Seq):
        return api.lead(v, x)
    if hasattr(v, 'pad'):
        return v.pad
    raise Unsupported('number of leading elements')
