"""Loops and comprehensions."""
import ast
import z3

from . import api, core, values as V
from .core import st, Unsupported, PathEnd, ObligationFailed
from .values import (SInt, SBool, Seq, Elems, Sub, Rep, Flat, Atom, PList, PBytearray, Obj, ExcVal, Opaque,
                     UNDEF, Ite, I, T, TB, B, And, Or, Not, to_seq, norm_seq, force, prove_eq, teq)
from .interp import (PyRaise, consume, ReturnSig, BreakSig, ContinueSig, CompFrame, Frame, GenExp, GenResult, MISSING,
                     SideEffect, RangeVal, map_seq)


# ------------------------------------------------------------------ helpers
def assigned_names(body):
    names = set()

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    target(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.comprehension)):
                if not isinstance(n, ast.comprehension):
                    target(n.target)
            elif isinstance(n, ast.NamedExpr):
                target(n.target)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, ast.With):
                for it in n.items:
                    if it.optional_vars is not None:
                        target(it.optional_vars)
    return names


def has_yield(body):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for s in body for n in ast.walk(s))


def gen_frame(f):
    while isinstance(f, CompFrame):
        f = f.parent
    return f


def machine_for(it, node, f):
    """The loop contracts available for a loop in this function."""
    q = f.qual.replace('bitcoinx.', '', 1)
    r = it.machines_for.get(q, [])
    if not r:
        q2 = q.split('.<locals>')[0]
        r = it.machines_for.get(q2, [])
    if not r:
        r = it.item_loops
    return r


# ------------------------------------------------------------------ while
def exec_while(it, s, f):
    st_ = st()
    n = 0
    sym = 0
    while True:
        c = it.truth_cond(it.eval(s.test, f))
        t = z3.simplify(c) if isinstance(c, z3.ExprRef) else c
        if isinstance(t, z3.ExprRef) and not z3.is_true(t) and not z3.is_false(t):
            if n == 0:
                for m in machine_for(it, s, f):
                    if try_machine(it, m, s, f, None):
                        return
            if st_.entails(t):
                go = True
            elif st_.entails(z3.Not(t)):
                go = False
            else:
                if n and sym == 0:
                    for m in machine_for(it, s, f):
                        if try_machine(it, m, s, f, None):
                            return
                sym += 1
                if sym > it.max_fork_unroll:
                    raise Unsupported('loop needs a loop contract')
                go = st_.branch(t)
        else:
            go = t if isinstance(t, bool) else z3.is_true(t)
            if go and n == 0 and isinstance(s.test, ast.Constant):
                for m in machine_for(it, s, f):
                    if try_machine(it, m, s, f, None):
                        return
        if not go:
            it.exec_block(s.orelse, f)
            return
        n += 1
        if n > 5000:
            raise Unsupported('loop unrolled too far')
        try:
            it.exec_block(s.body, f)
        except ContinueSig:
            continue
        except BreakSig:
            return


# ------------------------------------------------------------------ for
def source_seq(it, v):
    """(seq, exception) of an iterable; the exception comes after all items."""
    v = force(v)
    if isinstance(v, GenResult):
        return consume(v), v.exc
    if isinstance(v, Obj):
        from .interp import BoundM
        m = it.class_attr(v.cls, '__iter__')
        if m is not MISSING:
            return source_seq(it, it.call(BoundM(v, m), [], {}))
    return it.iter_seq(v), None


def exec_for(it, s, f):
    itv = force(it.eval(s.iter, f))
    q, exc = source_seq(it, itv)
    n = q.length()
    if not isinstance(n, int):
        nn = unique_value(n)
        if nn is not None:
            n = nn
    if not isinstance(n, int):
        for m in machine_for(it, s, f):
            if try_machine(it, m, s, f, (q, exc)):
                return
        if try_map_loop(it, s, f, q, exc):
            return
        n = st().concretize(n, it.max_concretize)
    if n > it.max_unroll and not all(isinstance(g, Elems) for g in q.segs):
        for m in machine_for(it, s, f):
            if try_machine(it, m, s, f, (q, exc)):
                return
    for i in range(n):
        it.assign(s.target, it.elem(q, i), f)
        try:
            it.exec_block(s.body, f)
        except ContinueSig:
            continue
        except BreakSig:
            return
    if exc is not None:
        raise PyRaise(exc)
    it.exec_block(s.orelse, f)


def unique_value(t):
    """The only possible value of t if it is cheaply determined."""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return None


def try_map_loop(it, s, f, q, exc):
    """Loops whose body only appends one value to one list / yields one value per item."""
    s_ = st()
    if exc is not None or s.orelse:
        return False
    if any(isinstance(n, (ast.Break, ast.Return, ast.Continue)) for b in s.body for n in ast.walk(b)):
        return False
    boxes = [v for v in f.locals.values() if isinstance(v, PList)]
    gf = gen_frame(f)
    if gf.yields is not None and gf.yields not in boxes:
        boxes.append(gf.yields)
    W = assigned_names(s.body) | assigned_names([ast.For(target=s.target, iter=s.iter, body=[], orelse=[])])
    saved_locals = dict(f.locals)
    olds = [b.seq for b in boxes]

    def run(i):
        """Execute the body for item i from a state where loop-written names are undefined;
        returns the values appended to each box."""
        cur_locals, cur = dict(f.locals), [b.seq for b in boxes]
        f.locals.clear()
        f.locals.update(saved_locals)
        for nm in W:
            f.locals[nm] = UNDEF
        marks = []
        for b in boxes:
            b.seq = Seq(b.seq.kind, [Sub(Atom(f'hidden', s_.fresh_int('hid'), no_elem), 0, 0 + s_.fresh_int('hid'))])
            marks.append((b.seq, b.birth if hasattr(b, 'birth') else 0))
            b.birth = 1 << 60
        try:
            it.assign(s.target, it.elem(q, i), f)
            it.exec_block(s.body, f)
            out = []
            for b, (m, _) in zip(boxes, marks):
                if len(b.seq.segs) < 1 or b.seq.segs[0] is not m.segs[0]:
                    raise Unsupported('list changed other than by appending')
                out.append(Seq('list', b.seq.segs[1:]))
            return out
        finally:
            for b, (m, birth), o in zip(boxes, marks, cur):
                b.seq, b.birth = o, birth
            f.locals.clear()
            f.locals.update(cur_locals)
    n = q.length()

    def go():
        i = s_.fresh_int('i')
        s_.assume(z3.And(i >= 0, TB(i < n)))
        s_.guards.append(s_.counter)
        try:
            out = run(i)
            return [o.concrete_len() for o in out]
        except PyRaise as e:
            return None
        finally:
            s_.guards.pop()
    try:
        res = s_.sub_explore(go)
    except Unsupported:
        return False
    shapes = [p.r for p in res if p.r is not None]
    if not shapes or any(x != shapes[0] for x in shapes):
        return False
    which = [k for k, c in enumerate(shapes[0]) if c]
    if any(shapes[0][k] != 1 for k in which):
        return False
    if any(p.r is None for p in res):
        def noexc(i):
            s_.guards.append(s_.counter)
            try:
                run(i)
                return core.TRUE
            except PyRaise:
                return core.FALSE
            finally:
                s_.guards.pop()
        ok, k = V.decide_all(n, noexc)
        if not ok:
            run(k)
            raise PathEnd()
    for k in which:
        def mk(k):
            def elem(i):
                s_.guards.append(s_.counter)
                try:
                    return V.seq_get(run(i)[k], 0)
                except PyRaise:
                    raise PathEnd()
                finally:
                    s_.guards.pop()
            return elem
        a = Atom(st().fresh('maploop'), n, memo_elem(mk(k)), (), 'list')
        b = boxes[k]
        it.wrote(b)
        b.seq = Seq(b.seq.kind, b.seq.segs + (Sub(a, 0, n),))
    for nm in W:
        f.locals[nm] = UNDEF
    return True


def no_elem(i):
    raise Unsupported('element of a list under construction')


def memo_elem(fn):
    tag = object()

    def elem(i):
        s = st()
        key = ('memo', id(tag), i if isinstance(i, int) else i.get_id())
        if key in s.registry:
            return s.registry[key][0]
        v = fn(i)
        s.registry[key] = (v, i, tag)
        return v
    return elem


# ------------------------------------------------------------------ comprehensions
def comp_seq(it, e, f, first=MISSING):
    """The sequence a list comprehension / generator expression produces."""
    gens = e.generators
    src = force(first if first is not MISSING else it.eval(gens[0].iter, f))
    return comp_level(it, e, f, 0, src)


def big_range(q, n):
    """A long range whose start is symbolic."""
    return n > 64 and len(q.segs) == 1 and isinstance(q.segs[0], Sub) and q.segs[0].atom.name == 'range'


def comp_level(it, e, f, level, src):
    s = st()
    g = e.generators[level]
    q, exc = source_seq(it, src)
    n = q.length()
    last = level == len(e.generators) - 1
    if not isinstance(n, int):
        u = unique_value(n)
        n = u if u is not None else n
    if isinstance(n, int) and (n <= it.max_unroll and not big_range(q, n) or all(isinstance(x, Elems) for x in q.segs)):
        segs = []
        for i in range(n):
            cf = CompFrame(f)
            it.assign(g.target, it.elem(q, i), cf)
            ok = True
            for c in g.ifs:
                if not it.truth(it.eval(c, cf)):
                    ok = False
                    break
            if not ok:
                continue
            if last:
                segs.append(Elems([it.eval(e.elt, cf)]))
            else:
                segs.extend(comp_level(it, e, cf, level + 1, force(it.eval(e.generators[level + 1].iter, cf))).segs)
        if exc is not None:
            raise PyRaise(exc)
        return Seq('tuple', segs)
    if not last:
        raise Unsupported('nested symbolic comprehension')

    # stream rule
    r = stream_comp(it, e, f, g, q)
    if r is not None:
        return r
    if any(isinstance(x, Flat) for x in q.segs):
        raise Unsupported('comprehension over a concatenation')

    def body(i, part='elt'):
        cf = CompFrame(f)
        it.assign(g.target, it.elem(q, i), cf)
        for c in g.ifs:
            if not it.truth(it.eval(c, cf)):
                return False, None
        return True, (it.eval(e.elt, cf) if part == 'elt' else None)

    if g.ifs:
        def passes(i):
            return guarded(lambda: TB(body(i, 'if')[0]))
        try:
            if V.forall_index(n, lambda i: s.entails(passes(i))):
                pass
            elif V.forall_index(n, lambda i: s.entails(z3.Not(passes(i)))):
                return Seq('tuple', [])
            else:
                r = filter_comp(it, q, n, body, passes)
                if exc is not None:
                    raise PyRaise(exc)
                return r
        except PyRaise:
            raise Unsupported('a filter that may raise')

    def raises_none(i):
        def go():
            try:
                body(i)
                return core.TRUE
            except PyRaise:
                return core.FALSE
        return guarded(go)

    ok, k = V.decide_all(n, raises_none)
    if not ok:
        guarded(lambda: body(k))
        raise PathEnd()

    def elem(i):
        try:
            return guarded(lambda: body(i)[1])
        except PyRaise:
            raise PathEnd()
    elem = memo_elem(elem)
    if exc is not None:
        raise PyRaise(exc)
    segs = []
    off = 0
    a = Atom(s.fresh('comp'), n, elem, (), 'list')
    return Seq('tuple', [Sub(a, 0, n)])


def filter_comp(it, q, n, body, passes):
    """[elt for x in q if cond]: a sequence of unknown length whose items are elt of items of q
    that satisfy cond; filters of the same source with equivalent conditions and items are the
    same sequence."""
    s = st()
    segs = []
    off = 0
    for g in q.segs:
        gn = g.length()
        if isinstance(g, Elems) or isinstance(gn, int) and gn <= it.max_unroll:
            for k in range(gn):
                ok, v = body(V.tadd(off, k))
                if ok:
                    segs.append(Elems([v]))
        else:
            segs.append(filter_seg(it, g, gn, off, body))
        off = V.tadd(off, gn)
    return Seq('tuple', segs)


def filter_seg(it, g, n, off, body):
    s = st()

    def at(i, part='elt'):
        try:
            return guarded(lambda: body(V.tadd(off, i), part))
        except PyRaise:
            raise Unsupported('a filter that may raise')

    def same(i, o):
        a, b = at(i), o(i)
        if a[0] != b[0]:
            return s.try_prove(core.FALSE)
        return not a[0] or prove_eq(a[1], b[1])
    for (g2, n2, at2, a2) in s.registry.get('filters', ()):
        if teq(n, n2) and V.prove_seq_eq(Seq('tuple', [g]), Seq('tuple', [g2])) and \
                V.forall_index(n, lambda i: same(i, at2)):
            return Sub(a2, 0, a2.length)
    nm = s.fresh('filter')
    m = s.fresh_int('fl')
    s.assume(z3.And(m >= 0, TB(m <= n)))
    src = z3.Function(nm + '.src', z3.IntSort(), z3.IntSort())

    def elem(j):
        i = src(T(j))
        s2 = st()
        s2.assume(z3.Implies(z3.And(T(j) >= 0, T(j) < m), z3.And(i >= 0, TB(i < n))))
        ok, v = at(i)
        if not ok:
            # not an index of the filter (or the index is out of range)
            s2.assume(z3.Not(z3.And(T(j) >= 0, T(j) < m)))
            raise PathEnd()
        return v
    a = Atom(nm, m, memo_elem(elem), (), 'list')
    s.registry['filters'] = s.registry.get('filters', ()) + ((g, n, at, a),)
    return Sub(a, 0, m)


def guarded(fn):
    s = st()
    s.guards.append(s.counter)
    try:
        return fn()
    finally:
        s.guards.pop()


def stream_comp(it, e, f, g, q):
    """[read_one(read) for _ in range(n)] where the stream continues with the concatenation of n
    encodings."""
    from .models import PStream
    s = st()
    n = q.length()
    streams = []
    for v in list(f.locals.values()):
        collect_streams(v, streams)
    p = f.parent
    while p is not None:
        for v in p.locals.values():
            collect_streams(v, streams)
        p = p.parent
    if len(streams) != 1:
        return None
    stream = streams[0]
    segs = list(stream.rest.segs)
    if not segs or not isinstance(segs[0], Flat):
        return None
    fl = segs[0]
    if not (fl.n is n or teq(fl.n, n)):
        return None
    tail = Seq('bytes', segs[1:])
    limit = stream.limit

    def run(i, lim=None):
        """Body at index i on the encoding of element i followed by opaque data."""
        saved = stream.rest, stream.limit, getattr(stream, 'birth', 0)
        t = V.sym_bytes(s.fresh('tail'), s.fresh_int('tl'))
        s.assume(t.segs[0].n >= 0)
        first = to_seq(fl.fn(V.tadd(fl.lo, i)))
        stream.rest = Seq('bytes', first.segs + t.segs)
        stream.limit = lim
        stream.birth = 1 << 60
        try:
            cf = CompFrame(f)
            it.assign(g.target, it.elem(q, i), cf)
            v = it.eval(e.elt, cf)
            ok = len(stream.rest.segs) == 1 and isinstance(stream.rest.segs[0], Sub) and \
                stream.rest.segs[0].atom is t.segs[0].atom and V.same_term(stream.rest.segs[0].lo, 0)
            if not ok and stream.rest.concrete_len() == 0:
                ok = s.entails(t.segs[0].n == 0) if False else False
            return v, ok
        finally:
            stream.rest, stream.limit, stream.birth = saved

    def generic():
        i = s.fresh_int('i')
        s.assume(z3.And(i >= 0, TB(i < n)))
        if limit is not None:
            # only elements wholly before the cut are read by this argument
            pass
        try:
            return guarded(lambda: run(i)[1])
        except PyRaise:
            return False
    if g.ifs or not isinstance(limit, (type(None), int, z3.ExprRef)):
        return None
    res = s.sub_explore(generic)
    if not all(p.r for p in res):
        raise Unsupported('reading does not consume exactly one encoding per element')
    if limit is not None:
        flen = fl.length()
        if not s.branch(TB(limit >= flen)):
            j = s.fresh_int('cut')
            s.assume(z3.And(j >= 0, TB(j < n)))
            fl.total.step(V.tadd(fl.lo, j))
            before = V.tsub(fl.total.at(V.tadd(fl.lo, j)), fl.total.at(fl.lo))
            after = V.tsub(fl.total.at(V.tadd(V.tadd(fl.lo, j), 1)), fl.total.at(fl.lo))
            s.assume(z3.And(TB(before <= limit), TB(limit < after)))
            lenj = to_seq(fl.fn(V.tadd(fl.lo, j))).length()
            s.assume(TB(V.tsub(after, before) == lenj))
            guarded(lambda: run(j, V.norm_t(limit - before)))
            raise Unsupported('an element cut short was read without an error')
        stream.limit = V.tsub(limit, flen)
    it.wrote(stream)
    stream.rest = tail
    def elem(i):
        try:
            return guarded(lambda: run(i)[0])
        except PyRaise:
            raise PathEnd()
    a = Atom(s.fresh('read'), n, memo_elem(elem), (), 'list')
    return Seq('tuple', [Sub(a, 0, n)])


def collect_streams(v, out):
    from .models import PStream
    from .interp import BoundM
    if isinstance(v, PStream):
        if not any(x is v for x in out):
            out.append(v)
    elif isinstance(v, V.Model) and getattr(v, 'stream', None) is not None:
        if not any(x is v.stream for x in out):
            out.append(v.stream)


# ------------------------------------------------------------------ machines
class Stop(Exception):
    def __init__(self, value):
        self.value = value


def run_machine_sym(it, m, ctx, state, last=None):
    """Symbolic meaning of api.run_machine."""
    s = st()
    ctx, state = tuple(ctx), tuple(state)
    if ('machine', m.name) in s.registry:
        r = known_result(m, ctx, state)
        if r is not None:
            return deliver(r)
    for _ in range(400):
        if last is not None:
            last[0] = state
        if m.scan is not None:
            nxt = scan_flat(it, m, ctx, state)
            if nxt is not None:
                state = nxt
                continue
        d = it.truth_cond(it.call(m.done, list(ctx) + list(state), {}))
        d = z3.simplify(d) if isinstance(d, z3.ExprRef) else d
        if d is True or (isinstance(d, z3.ExprRef) and (z3.is_true(d) or s.entails(d))):
            return state
        if d is False or (isinstance(d, z3.ExprRef) and (z3.is_false(d) or s.entails(z3.Not(d)))):
            if getattr(m, 'unroll', True) and (concrete_state(m, state) or m.scan and at_elems(m, ctx, state)):
                state = to_pytuple(it, it.call(m.step, list(ctx) + list(state), {}))
                continue
        break
    return final_state(it, m, ctx, state)


def at_elems(m, ctx, state):
    """Is the position at the start of known bytes?"""
    pos, off = T(state[list(m.state).index(m.scan[1])]), 0
    for g in to_seq(ctx[m.ctx.index(m.scan[0])]).segs:
        if V.same_term(V.norm_t(pos), V.norm_t(off)) or st().entails(TB(pos == off)):
            return isinstance(g, Elems)
        if isinstance(g, Elems):
            d = V.norm_t(V.tadd(pos, -off if isinstance(off, int) else -1 * off))
            if isinstance(d, int):
                if 0 <= d < g.length():
                    return True
            elif g.length() <= 8 and any(st().entails(TB(d == k)) for k in range(1, g.length())):
                return True
        off = V.tadd(off, g.length())
    return False


def scan_flat(it, m, ctx, state):
    """The state after reading a concatenation of n pieces at the current position, by induction:
    from any position, with anything before and after, a piece is read as one output item."""
    s = st()
    di, ni, oi = m.ctx.index(m.scan[0]), list(m.state).index(m.scan[1]), list(m.state).index(m.scan[2])
    q = to_seq(ctx[di])
    if not any(isinstance(g, (Flat, Rep)) for g in q.segs):
        return None
    pos, off, fl = T(state[ni]), 0, None
    for g in q.segs:
        if isinstance(g, (Flat, Rep)) and not isinstance(g.n, int) and (V.same_term(V.norm_t(pos), V.norm_t(off)) or s.entails(TB(pos == off))):
            if s.branch(TB(g.n > 0)):
                fl = g
                break
        off = V.tadd(off, g.length())
    if fl is None:
        return None

    def piece(i):
        n0 = s.fresh_int('n0')
        s.assume(n0 >= 0)
        pre = V.sym_bytes(s.fresh('pre'), n0)
        post = V.sym_bytes(s.fresh('post'), s.fresh_int('pl'))
        s.assume(post.segs[0].n >= 0)
        out0 = V.sym_bytes(s.fresh('out'), s.fresh_int('ol'), 'tuple') if False else \
            Seq('tuple', [Sub(Atom(s.fresh('out'), s.fresh_int('ol'), no_elem, (), 'list'), 0, s.fresh_int('ol'))])
        s.assume(out0.segs[0].n >= 0)
        el = to_seq(fl.fn(V.tadd(fl.lo, i))) if isinstance(fl, Flat) else Seq('bytes', [Elems([fl.v])])
        n1 = V.norm_t(V.tadd(n0, el.length()))
        c = list(ctx)
        c[di] = norm_seq(Seq(q.kind, list(pre.segs) + list(el.segs) + list(post.segs)))
        x = list(state)
        x[ni], x[oi] = I(n0), out0
        if it.truth(it.call(m.done, c + x, {})):
            raise Unsupported('the machine may stop inside a concatenation')
        x = list(to_pytuple(it, it.call(m.step, c + x, {})))
        if not s.try_prove(TB(T(x[ni]) == n1)):
            raise Unsupported('a piece is not read by one step')
        res = to_seq(x[oi]).segs
        if len(res) < 1 or res[0] is not out0.segs[0] and not (
                isinstance(res[0], Sub) and res[0].atom is out0.segs[0].atom):
            raise Unsupported('output is not appended to')
        tail = Seq('tuple', res[1:])
        if tail.concrete_len() != 1:
            raise Unsupported('a piece does not give one output item')
        return V.seq_get(tail, 0)

    def generic():
        i = s.fresh_int('i')
        s.assume(z3.And(i >= 0, TB(i < fl.n)))
        try:
            guarded(lambda: piece(i))
            return True
        except PyRaise as e:
            return True if s.infeasible() else f'{e.exc!r:.100}'
    bad = [p.r for p in s.sub_explore(generic) if p.r is not True]
    if bad:
        raise Unsupported(f'reading a piece may raise {bad}')

    def elem(i):
        try:
            return guarded(lambda: piece(i))
        except PyRaise:
            raise PathEnd()
    a = Atom(s.fresh('scan'), fl.n, memo_elem(elem), (), 'list')
    new = list(state)
    new[ni] = I(V.norm_t(V.tadd(pos, fl.length())))
    new[oi] = norm_seq(Seq('tuple', list(to_seq(state[oi]).segs) + [Sub(a, 0, fl.n)]))
    return tuple(new)


def concrete_state(m, state):
    return getattr(m, 'always_unroll', False) or all(
        not isinstance(x, (SInt, SBool)) and not (isinstance(x, Seq) and x.concrete_len() is None) for x in state)


def to_pytuple(it, v):
    q = it.iter_seq(v)
    n = q.concrete_len()
    if n is None:
        raise Unsupported('machine step result')
    return tuple(it.elem(q, i) for i in range(n))


def copy_val(v):
    if isinstance(v, PList):
        return norm_seq(v.seq.with_kind('tuple'))
    if isinstance(v, PBytearray):
        return norm_seq(v.seq.with_kind('bytes'))
    return v


def final_state(it, m, ctx, state):
    """Canonical result of running the machine to completion."""
    s = st()
    ctx = tuple(copy_val(c) for c in ctx)
    state = tuple(copy_val(c) for c in state)
    known = s.registry.get(('machine', m.name), ())
    res = known_result(m, ctx, state)
    if res is not None:
        return deliver(res)
    # inv at the start (proved)
    use_hint(it, m, ctx, state)
    if m.inv is not None:
        if not s.try_prove(TB(it.truth_cond(it.call(m.inv, list(ctx) + list(state), {})))):
            raise ObligationFailed(f'machine {m.name}: invariant not established at the start')
    wf = s.registry.get(('machine wf', m.name), ())
    if not any(all(same_quick(a, b) for a, b in zip(ctx, c2)) for c2 in wf):
        err = well_formed(it, m, ctx)
        if err:
            raise ObligationFailed(f'machine {m.name}: {err}')
        s.registry[('machine wf', m.name)] = tuple(wf) + (ctx,)
    it.machines_used.add(m.name)
    if m.base is not None:
        fin = final_state(it, m.base, ctx, state)
        use_hint(it, m, ctx, fin)
        s.assume(TB(it.truth_cond(it.call(m.inv, list(ctx) + list(fin), {}))))
        s.registry[('machine', m.name)] = tuple(known) + ((ctx, state, ('done', fin)),)
        return fin
    stops = bool(m.raises) and s.choose(2) == 1
    from . import symdom
    fin = tuple(symdom.fresh_value(it, d, f'{m.name}.{nm}') for nm, d in m.state.items())
    use_hint(it, m, ctx, fin)
    if m.inv is not None:
        s.assume(TB(it.truth_cond(it.call(m.inv, list(ctx) + list(fin), {}))))
    d = TB(it.truth_cond(it.call(m.done, list(ctx) + list(fin), {})))
    if not stops:
        s.assume(d)
        res = ('done', fin)
    else:
        # the last step, which does not complete
        s.assume(z3.Not(d))
        try:
            it.call(m.step, list(ctx) + list(fin), {})
        except PyRaise as e:
            if not any(issubclass(e.exc.cls, x) for x in m.raises):
                if s.infeasible():
                    raise PathEnd()
                raise ObligationFailed(f'machine {m.name}: step raises {e.exc.cls.__name__}')
            res = ('exc', e.exc.cls, fin, tuple(e.exc.args))
        else:
            raise PathEnd()
    s.registry[('machine', m.name)] = tuple(known) + ((ctx, state, res),)
    return deliver(res)


def use_hint(it, m, ctx, state):
    if m.hint is not None:
        it.call(m.hint, list(ctx) + list(state), {})


def known_result(m, ctx, state):
    s = st()
    ctx = tuple(copy_val(c) for c in ctx)
    state = tuple(copy_val(c) for c in state)
    for (c2, s2, res) in s.registry.get(('machine', m.name), ()):
        if all(same_quick(a, b) for a, b in zip(ctx + state, c2 + s2)):
            return res
    return None


def well_formed(it, m, ctx):
    """Every step from a state satisfying the invariant keeps it, decreases the variant and raises
    only what the machine declares."""
    from . import symdom
    if m.over is not None and len(ctx) == 1 and symdom.in_domain(it, ctx[0], m.over):
        if ('wf', m.name) not in it.sim_cache:
            it.sim_cache['wf', m.name] = alone(lambda: well_formed_at(
                it, m, (symdom.fresh_value(it, m.over, 'over'),)))
        return it.sim_cache['wf', m.name]
    return well_formed_at(it, m, ctx)


def well_formed_at(it, m, ctx):
    from . import symdom
    s = st()

    def go():
        gen = [symdom.fresh_value(it, d, f'w.{nm}') for nm, d in m.state.items()]
        use_hint(it, m, ctx, gen)
        if m.inv is not None:
            s.assume(TB(it.truth_cond(it.call(m.inv, list(ctx) + gen, {}))))
        if it.truth(it.call(m.done, list(ctx) + gen, {})):
            return None
        try:
            nxt = to_pytuple(it, it.call(m.step, list(ctx) + gen, {}))
        except PyRaise as e:
            return None if any(issubclass(e.exc.cls, x) for x in m.raises) else f'step raises {e.exc.cls.__name__}'
        for v, (nm, d) in zip(nxt, m.state.items()):
            if not symdom.in_domain(it, v, d) and not (kind_ok_only(d) and symdom.kind_matches(v, d)):
                return f'{nm} leaves its domain'
        use_hint(it, m, ctx, list(nxt))
        if m.inv is not None and not s.try_prove(TB(it.truth_cond(it.call(m.inv, list(ctx) + list(nxt), {})))):
            return 'invariant not preserved by a step'
        if m.variant is None:
            return 'no variant'
        v0 = it.call(m.variant, list(ctx) + gen, {})
        v1 = it.call(m.variant, list(ctx) + list(nxt), {})
        if not s.try_prove(TB(And(T(v0) >= 0, T(v1) < T(v0)))):
            return 'variant does not decrease'
        return None
    for p in s.sub_explore(go):
        if p.r is not None:
            return p.r
    return None


def kind_ok_only(d):
    return isinstance(d, api.Sampled)


def deliver(res):
    if res[0] == 'exc':
        e = ExcVal(res[1], res[3])
        e.machine_state = res[2]
        raise PyRaise(e)
    return res[1]


def same_quick(a, b):
    a, b = force(a), force(b)
    if a is b:
        return True
    s = st()
    hurry, s.hurry = s.hurry, True
    try:
        return prove_eq(a, b)
    except Unsupported:
        return False
    finally:
        s.hurry = hurry


def try_machine(it, m, node, f, src):
    """Replace the loop by its contract (machine) if the simulation obligations hold."""
    from . import symdom
    s = st()
    m = api.LOOPS[m] if isinstance(m, str) else m
    spec = getattr(m, 'bind', {})
    gf = gen_frame(f)
    W = assigned_names(node.body)
    if isinstance(node, ast.For):
        W |= assigned_names([ast.For(target=node.target, iter=node.iter, body=[], orelse=[])])
    yields = has_yield(node.body)

    def ctx_value(nm):
        e = spec.get(nm, nm)
        if e == '$iter':
            if src is None:
                return MISSING
            kind = {'list': 'tuple', 'bytearray': 'bytes'}.get(src[0].kind)
            return norm_seq(src[0].with_kind(kind) if kind else src[0])
        if callable(e):
            return e
        try:
            return it.eval(ast.parse(e, mode='eval').body, f)
        except PyRaise:
            return MISSING
        except Unsupported:
            return MISSING

    def kind_ok(v, dom):
        return v is not UNDEF and symdom.kind_matches(v, dom)
    ctx = [ctx_value(c) for c in m.ctx]
    if any(c is MISSING for c in ctx):
        return False
    ctx = [copy_val(c) for c in ctx]
    # assignments of machine state components to loop variables
    names = list(m.state)
    cands = []
    for nm in names:
        e = spec.get(nm, nm)
        if e == '$yields':
            if not yields:
                return False
            cands.append(['$yields'])
            continue
        if e == '$i':
            if src is None:
                return False
            cands.append(['$i'])
            continue
        c = []
        for v in ([e] if isinstance(e, str) else list(e)):
            if v in f.locals and kind_ok(f.locals[v], m.state[nm]):
                c.append(v)
        for v in sorted(f.locals):
            if v in c or not kind_ok(f.locals[v], m.state[nm]):
                continue
            if v in W or isinstance(f.locals[v], (PList, PBytearray)):
                c.append(v)
        cands.append(c)
    import itertools
    tries = 0
    errs = []
    for combo in itertools.product(*cands):
        used = [c for c in combo]
        if len(set(used)) != len(used):
            continue
        tries += 1
        if tries > 6:
            break
        err = simulate(it, m, node, f, src, ctx, combo, W, yields)
        if err is None:
            return apply_machine(it, m, node, f, src, ctx, combo, W, yields)
        errs.append(f'{combo}: {err}')
    s.last_loop_error = f'loop contract {m.name} in {f.qual}: ' + ' | '.join(errs[:3] or ['no matching variables'])
    it.loop_errors.append(s.last_loop_error)
    if __import__("os").environ.get("PYVC_LOOPS"):
        print("LOOP", s.last_loop_error)
    return False


def read_var(it, f, gf, nm, i):
    if nm == '$yields':
        return norm_seq(gf.yields.seq.with_kind('tuple'))
    if nm == '$i':
        return i
    return copy_val(force(f.locals[nm]))


def write_var(it, f, gf, nm, v, fresh_boxes):
    """Give variable nm the (immutable) value v, boxing as its current value is boxed."""
    if nm == '$i':
        return
    if nm == '$yields':
        b = gf.yields
        gf.yields = PList(to_seq(v).with_kind('list'))
        gf.yields.birth = 1 << 60
        return
    old = f.locals[nm]
    if isinstance(old, PList):
        nb = PList(to_seq(v).with_kind('list'))
        nb.birth = 1 << 60
        f.locals[nm] = nb
    elif isinstance(old, PBytearray):
        nb = PBytearray(to_seq(v).with_kind('bytearray'))
        nb.birth = 1 << 60
        f.locals[nm] = nb
    else:
        f.locals[nm] = v


def alone(fn):
    """fn() in a context in which nothing is known."""
    old = st()
    new = core.State(timeout_ms=old.timeout_ms, deadline=old.deadline, max_paths=old.max_paths)
    new.counter = old.counter + (1 << 20)
    new.overlay = dict(old.overlay)
    core.set_state(new)
    try:
        return fn()
    finally:
        core.set_state(old)


def simulate(it, m, node, f, src, ctx, combo, W, yields):
    """None if one generic iteration of the loop matches one step of the machine."""
    from . import symdom
    if m.over is not None and src is not None and [m.bind.get(c, c) for c in m.ctx] == ['$iter'] and (
            symdom.in_domain(it, ctx[0], m.over)):
        # the loop over any such sequence, proved once
        used = sorted({n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name)} - set(W) - set(combo))
        used = [(k, f.locals[k]) for k in used if k in f.locals]
        key = (m.name, id(node), combo, tuple((k, repr(v)) for k, v in used))
        if not all(plain(v) for k, v in used):
            return simulate_at(it, m, node, f, src, ctx, combo, W, yields)
        if key not in it.sim_cache:
            def go():
                q = symdom.fresh_value(it, m.over, 'over')
                return simulate_at(it, m, node, f, (q, None), (q,), combo, W, yields)
            it.sim_cache[key] = (alone(go), node)
        if it.sim_cache[key][0] is None:
            return starts(it, m, f, ctx, combo)
    return simulate_at(it, m, node, f, src, ctx, combo, W, yields)


def plain(v):
    return isinstance(v, (int, str, bytes, type(None)))


def starts(it, m, f, ctx, combo):
    """None if the invariant holds before the loop."""
    s = st()
    gf = gen_frame(f)
    init = [read_var(it, f, gf, c, 0) for c in combo]
    if m.inv is not None:
        try:
            use_hint(it, m, ctx, init)
            if not s.try_prove(TB(it.truth_cond(it.call(m.inv, list(ctx) + init, {})))):
                return 'invariant not established before the loop'
        except (PyRaise, Unsupported, ObligationFailed) as e:
            return f'invariant raises {e}'
    return None


def simulate_at(it, m, node, f, src, ctx, combo, W, yields):
    """None if one generic iteration of the loop matches one step of the machine."""
    from . import symdom
    s = st()
    gf = gen_frame(f)
    names = list(m.state)
    saved = dict(f.locals)
    saved_y = gf.yields
    err = starts(it, m, f, ctx, combo)
    if err:
        return err

    def go():
        for nm in W:
            if nm in f.locals or True:
                f.locals[nm] = UNDEF if nm not in combo else saved.get(nm, UNDEF)
        gen = [symdom.fresh_value(it, d, f'g.{nm}') for nm, d in m.state.items()]
        use_hint(it, m, ctx, gen)
        if m.inv is not None:
            s.assume(TB(it.truth_cond(it.call(m.inv, list(ctx) + gen, {}))))
        i = None
        for c, v in zip(combo, gen):
            if c == '$i':
                i = v
            write_var(it, f, gf, c, v, None)
        if src is not None:
            q, exc = src
            n = q.length()
            if i is None:
                raise Unsupported('for-loop machine without $i')
            s.assume(z3.And(T(i) >= 0, TB(T(i) <= n)))
            cont = s.branch(TB(T(i) < n))
        d = it.truth(it.call(m.done, list(ctx) + gen, {}))
        if src is None:
            cont = it.truth(it.eval(node.test, f))
        stops = cont and d and src is not None
        if cont == d and not stops:
            return f'loop {"continues" if cont else "stops"} but the machine does {"" if not d else "not"} not agree'
        if not cont:
            return None
        # machine step
        if m.sim is not None and not stops:
            it.call(m.sim, list(ctx) + list(gen), {})
        try:
            nxt = ('next', tuple(gen)) if stops else ('next', to_pytuple(it, it.call(m.step, list(ctx) + list(gen), {})))
        except PyRaise as e:
            if issubclass(e.exc.cls, api.Return):
                nxt = ('return', e.exc.args[0] if e.exc.args else None)
            else:
                nxt = ('exc', e.exc.cls)
        # loop body
        s.guards.append(s.counter + (1 << 40) if False else s.counter)
        try:
            try:
                if src is not None:
                    it.assign(node.target, it.elem(src[0], T(i)), f)
                it.exec_block(node.body, f)
                got = ('next',)
            except ContinueSig:
                got = ('next',)
            except BreakSig:
                got = ('break',)
            except ReturnSig as r:
                got = ('return', r.v)
            except PyRaise as e:
                got = ('exc', e.exc.cls)
        finally:
            s.guards.pop()
        if stops:
            # the machine has stopped: the loop has to break without a change
            if got[0] != 'break':
                return 'loop continues but the machine stops'
            new = [read_var(it, f, gf, c, i) for c in combo]
            return None if all(prove_eq(a, copy_val(b)) for a, b in zip(new, gen)) else 'break changes the state'
        if got[0] == 'return':
            if nxt[0] != 'return':
                return f'loop body returns, machine: {nxt[0]}'
            return None if prove_eq(got[1], nxt[1]) else 'returned values differ'
        if got[0] == 'exc':
            if nxt[0] != 'exc':
                return f'loop body raises {got[1].__name__}, machine: {nxt[0]}'
            if not issubclass(got[1], nxt[1]):
                return f'loop body raises {got[1].__name__}, machine raises {nxt[1].__name__}'
            if yields and '$yields' in combo:
                k = combo.index('$yields')
                if not prove_eq(read_var(it, f, gf, '$yields', None), copy_val(gen[k])):
                    return 'items yielded before the error differ'
            return None
        if nxt[0] != 'next':
            return f'loop body completes, machine: {nxt}'
        new = [read_var(it, f, gf, c, I(T(i) + 1) if i is not None else None) for c in combo]
        for nm, a, b in zip(names, new, nxt[1]):
            if not prove_eq(a, copy_val(b)):
                return f'after one iteration {nm} is {a!r:.150}, machine: {b!r:.150}'
        if got[0] == 'break':
            if not it.truth(it.call(m.done, list(ctx) + list(nxt[1]), {})):
                return 'break, machine continues'
        use_hint(it, m, ctx, list(nxt[1]))
        if m.inv is not None and not s.try_prove(TB(it.truth_cond(it.call(m.inv, list(ctx) + list(nxt[1]), {})))):
            return 'invariant not preserved'
        if m.variant is not None:
            v0 = it.call(m.variant, list(ctx) + list(gen), {})
            v1 = it.call(m.variant, list(ctx) + list(nxt[1]), {})
            if not s.try_prove(TB(And(T(v0) >= 0, T(v1) < T(v0)))):
                return 'variant does not decrease'
        elif src is None:
            return 'no variant'
        return None
    try:
        res = s.sub_explore(lambda: _safe(go, f, saved, gf, saved_y))
    except Unsupported as e:
        return f'unsupported: {e}'
    except PyRaise as e:
        return f'the loop contract raises {e.exc!r:.100}'
    except ObligationFailed as e:
        return f'{e}'
    finally:
        f.locals.clear()
        f.locals.update(saved)
        gf.yields = saved_y
    for p in res:
        if p.r is not None:
            return p.r
    return None


def _safe(go, f, saved, gf, saved_y):
    try:
        r = go()
        if r is not None and st().infeasible():
            raise PathEnd()
        return r
    except (PyRaise, ObligationFailed, Unsupported):
        if st().infeasible():
            raise PathEnd()
        raise
    finally:
        f.locals.clear()
        f.locals.update(saved)
        gf.yields = saved_y


def apply_machine(it, m, node, f, src, ctx, combo, W, yields):
    s = st()
    gf = gen_frame(f)
    init = [read_var(it, f, gf, c, 0) for c in combo]
    it.machines_used.add(m.name)
    for c in combo:
        if c not in ('$i', '$yields') and isinstance(f.locals[c], (PList, PBytearray)):
            it.wrote(f.locals[c])
    try:
        last = [None]
        fin = run_machine_sym(it, m, ctx, init, last)
    except PyRaise as e:
        if issubclass(e.exc.cls, api.Return):
            raise ReturnSig(e.exc.args[0] if e.exc.args else None)
        ms = getattr(e.exc, 'machine_state', None) or last[0]
        for nm in W:
            if nm not in combo:
                f.locals[nm] = UNDEF
        if ms is not None and '$i' in combo and src is not None:
            # the item at which the loop stopped
            it.assign(node.target, it.elem(src[0], T(ms[combo.index('$i')])), f)
        if ms is not None and '$yields' in combo:
            gf.yields.seq = to_seq(ms[combo.index('$yields')]).with_kind('list')
        raise
    for nm in W:
        if nm not in combo:
            f.locals[nm] = UNDEF
    for c, v in zip(combo, fin):
        if c == '$i':
            continue
        if c == '$yields':
            gf.yields.seq = to_seq(v).with_kind('list')
            continue
        old = f.locals[c]
        if isinstance(old, (PList, PBytearray)):
            old.seq = to_seq(v).with_kind(old.seq.kind)
        else:
            f.locals[c] = v
    if src is not None and src[1] is not None:
        raise PyRaise(src[1])
    it.exec_block(node.orelse, f)
    return True
