"""Symbolic interpreter for the Python subset used by the code under verification.

It executes the real AST of the functions in the repository under verification (and of the
contracts), on concrete and symbolic values.
"""
import ast
import builtins
import functools
import os
import types
import z3

from . import api, core, values as V
from .core import st, Unsupported, PathEnd, ObligationFailed
from .values import (SInt, SBool, Seq, Elems, Sub, Flat, Atom, PList, PBytearray, PDict, Obj, ExcVal,
                     Closure, BoundM, Model, Partial, Opaque, UNDEF, Ite, I, T, TB, B, And, Or, Not,
                     to_seq, norm_seq, force, eq_cond, is_intlike, kind_of)

REPO = os.environ.get('VERIF_REPO', '/repo')


class PyRaise(Exception):
    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Missing:
    pass


MISSING = Missing()

_ast_cache = {}
_src_cache = {}


def file_ast(path):
    if path not in _src_cache:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        idx = {}

        def walk(node, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = min([d.lineno for d in ch.decorator_list] + [ch.lineno])
                    idx.setdefault((ch.name, line), ch)
                    walk(ch, qual + (ch.name,))
                elif isinstance(ch, ast.Lambda):
                    idx.setdefault(('<lambda>', ch.lineno, ch.col_offset), ch)
                    idx.setdefault(('<lambda>', ch.lineno), ch)
                    walk(ch, qual)
                else:
                    walk(ch, qual)
        walk(tree, ())
        _src_cache[path] = (tree, idx, src)
    return _src_cache[path]


def func_ast(fn):
    code = fn.__code__
    key = code
    if key not in _ast_cache:
        try:
            _, idx, _ = file_ast(code.co_filename)
        except OSError as e:
            raise Unsupported(f'no source for {fn}: {e}')
        node = None
        if code.co_name == '<lambda>':
            ps = [(p[0], p[2]) for p in code.co_positions() if p[2] is not None and p[3] != 0]
            lo = min(ps) if ps else None
            cands = [x for k, x in idx.items() if k[0] == '<lambda>' and len(k) == 3 and k[1] == code.co_firstlineno]
            if len(cands) > 1 and lo is not None:
                fit = [x for x in cands if (x.body.lineno, x.body.col_offset) <= lo and
                       max(ps) <= (x.body.end_lineno, x.body.end_col_offset)]
                # the innermost one that starts last
                cands = [max(fit, key=lambda x: (x.lineno, x.col_offset))] if fit else []
            if len(cands) == 1:
                node = cands[0]
        else:
            node = idx.get((code.co_name, code.co_firstlineno))
        if node is None:
            raise Unsupported(f'no AST for {fn}')
        _ast_cache[key] = node
    return _ast_cache[key]


_locals_cache = {}


def local_names(node):
    """Names local to a function/lambda node."""
    r = _locals_cache.get(node)
    if r is not None:
        return r
    names, outer, is_gen = set(), set(), False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            names.add(x.arg)

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        nonlocal is_gen
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # only walrus targets leak; the first iterable is evaluated here
            for ch in ast.walk(n):
                if isinstance(ch, ast.NamedExpr):
                    names.add(ch.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            is_gen = True
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
            target(n.target)
        elif isinstance(n, ast.NamedExpr):
            names.add(n.target.id)
        elif isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars is not None:
                    target(it.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                names.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            outer.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        for ch in ast.iter_child_nodes(n):
            walk(ch)
    if isinstance(node, ast.Lambda):
        walk(node.body)
    else:
        for s in node.body:
            walk(s)
    r = (names - outer, outer, is_gen)
    _locals_cache[node] = r
    return r


class Frame:
    def __init__(self, node, parent, module, qual, fn=None, names=None):
        self.node, self.parent, self.module, self.qual, self.fn = node, parent, module, qual, fn
        self.locals = {}
        self.names = names if names is not None else (set(), set(), False)
        self.yields = None
        self.loop_no = 0

    def lookup(self, name):
        f = self
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if v is UNDEF:
                    raise Unsupported(f'read of {name}, not determined after a loop')
                return v
            if f is self and name in f.names[0]:
                raise PyRaise(ExcVal(UnboundLocalError, (name,)))
            f = f.parent
        if self.fn is not None and self.fn.__closure__:
            fv = self.fn.__code__.co_freevars
            if name in fv:
                try:
                    return self.fn.__closure__[fv.index(name)].cell_contents
                except ValueError:
                    raise PyRaise(ExcVal(NameError, (name,)))
        g = self.module
        ov = st().overlay.get((id(g), name), MISSING)
        if ov is not MISSING:
            return ov
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(ExcVal(NameError, (name,)))

    def store(self, name, v):
        if name in self.names[1]:
            f = self.parent
            while f is not None:
                if name in f.locals or name in f.names[0]:
                    f.locals[name] = v
                    return
                f = f.parent
            st().overlay[(id(self.module), name)] = v
            return
        self.locals[name] = v


class CompFrame(Frame):
    """Comprehension scope: own targets, everything else from the enclosing frame."""

    def __init__(self, parent):
        super().__init__(None, parent, parent.module, parent.qual, parent.fn)
        self.fn = parent.fn

    def lookup(self, name):
        if name in self.locals:
            return self.locals[name]
        return self.parent.lookup(name)

    def store(self, name, v):
        self.locals[name] = v


class GenExp:
    """Unevaluated generator expression."""

    def __init__(self, node, frame, first):
        self.node, self.frame, self.first = node, frame, first


class GenResult:
    """Fully evaluated generator: items yielded, then possibly an exception."""

    def __init__(self, seq, exc=None):
        self.seq, self.exc, self.pos = seq, exc, 0


class StarSeq:
    def __init__(self, seq):
        self.seq = seq


class Interp:
    def __init__(self, models, stubs=None):
        self.stub_depth = 0           # unfoldings in a contract serve its own proof only
        self.models = models          # id(obj) -> (obj, Model)
        self.stubs = stubs or {}      # code object -> Item
        self.machines_for = {}        # qual -> list of LoopSpec
        self.depth = 0
        self.current = set()
        self.spec_prefix = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.used = set()             # functions under verification interpreted (module:qualname)
        self.stub_used = set()
        self.trusted = set()
        self.steps = 0
        self.max_unroll = 700

    # ------------------------------------------------------------------ truth
    def truth_cond(self, v):
        v = force(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, (Seq, PList, PBytearray)):
            n = to_seq(v).length()
            return n != 0 if isinstance(n, int) else n != 0
        if isinstance(v, PDict):
            return len(v.items) != 0
        if isinstance(v, Obj):
            for nm in ('__bool__', '__len__'):
                m = self.class_attr(v.cls, nm)
                if m is not MISSING:
                    r = self.call(BoundM(v, m), [], {})
                    return self.truth_cond(r)
            return True
        if isinstance(v, Opaque):
            raise Unsupported(f'truth of {v}')
        if isinstance(v, (Closure, BoundM, Model, Partial, GenExp, GenResult, ExcVal)):
            return True
        return bool(v)

    def truth(self, v):
        c = self.truth_cond(v)
        return st().branch(c)

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, f):
        for s in body:
            self.exec_stmt(s, f)

    def exec_stmt(self, s, f):
        self.steps += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        m(s, f)

    def s_Expr(self, s, f):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, f)

    def s_Pass(self, s, f):
        pass

    def s_Return(self, s, f):
        raise ReturnSig(self.eval(s.value, f) if s.value is not None else None)

    def s_Assign(self, s, f):
        v = self.eval(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def s_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, f), f)

    def s_AugAssign(self, s, f):
        t = s.target
        if isinstance(t, ast.Name):
            old = f.lookup(t.id)
            f.store(t.id, self.aug(s.op, old, self.eval(s.value, f)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, f)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(s.op, old, self.eval(s.value, f)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, f)
            k = self.eval_index(t.slice, f)
            old = self.getitem(o, k)
            self.setitem(o, k, self.aug(s.op, old, self.eval(s.value, f)))
        else:
            raise Unsupported('augmented assignment target')

    def aug(self, op, old, v):
        old = force(old)
        if isinstance(old, PList) and isinstance(op, ast.Add):
            self.list_extend(old, v)
            return old
        if isinstance(old, PBytearray) and isinstance(op, ast.Add):
            self.wrote(old)
            old.seq = V.seq_concat('bytearray', [old.seq, v])
            return old
        return self.binop(op, old, v)

    def s_If(self, s, f):
        if self.truth(self.eval(s.test, f)):
            self.exec_block(s.body, f)
        else:
            self.exec_block(s.orelse, f)

    def s_Assert(self, s, f):
        if not self.truth(self.eval(s.test, f)):
            raise PyRaise(ExcVal(AssertionError, ()))

    def s_Raise(self, s, f):
        if s.exc is None:
            if getattr(f, 'handling', None):
                raise PyRaise(f.handling[-1])
            raise Unsupported('bare raise')
        e = force(self.eval(s.exc, f))
        if s.cause is not None:
            self.eval(s.cause, f)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = ExcVal(e, ())
        if isinstance(e, Obj) and issubclass(e.cls, BaseException):
            e = ExcVal(e.cls, (e,))
        if isinstance(e, BaseException):
            e = ExcVal(type(e), e.args)
        if not isinstance(e, ExcVal):
            raise PyRaise(ExcVal(TypeError, ('exceptions must derive from BaseException',)))
        raise PyRaise(e)

    def s_Try(self, s, f):
        def run_inner():
            try:
                self.exec_block(s.body, f)
            except PyRaise as pe:
                for h in s.handlers:
                    if self.exc_matches(pe.exc, h, f):
                        if h.name:
                            f.store(h.name, pe.exc)
                        if not hasattr(f, 'handling'):
                            f.handling = []
                        f.handling.append(pe.exc)
                        try:
                            self.exec_block(h.body, f)
                        finally:
                            f.handling.pop()
                        return
                raise
            else:
                self.exec_block(s.orelse, f)
        if not s.finalbody:
            run_inner()
            return
        try:
            run_inner()
        except (PyRaise, ReturnSig, BreakSig, ContinueSig):
            self.exec_block(s.finalbody, f)
            raise
        self.exec_block(s.finalbody, f)

    def exc_matches(self, exc, h, f):
        if h.type is None:
            return True
        t = force(self.eval(h.type, f))
        ts = t if isinstance(t, tuple) else (t,)
        for c in ts:
            if not isinstance(c, type):
                raise Unsupported(f'exception handler class {c!r}')
            if issubclass(exc.cls, c):
                return True
        return False

    def s_With(self, s, f):
        mgrs = []
        for it in s.items:
            m = self.eval(it.context_expr, f)
            ent = self.call(self.getattr(m, '__enter__'), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, f)
            mgrs.append(m)
        try:
            self.exec_block(s.body, f)
        except (PyRaise, ReturnSig, BreakSig, ContinueSig):
            for m in reversed(mgrs):
                self.call(self.getattr(m, '__exit__'), [None, None, None], {})
            raise
        for m in reversed(mgrs):
            self.call(self.getattr(m, '__exit__'), [None, None, None], {})

    def s_FunctionDef(self, s, f):
        d = [self.eval(x, f) for x in s.args.defaults]
        kd = {a.arg: self.eval(x, f) for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        v = Closure(s, f, f.module, s.name, d, kd, f.qual + '.<locals>.' + s.name)
        if s.decorator_list:
            for dec in reversed(s.decorator_list):
                v = self.call(self.eval(dec, f), [v], {})
        f.store(s.name, v)

    def s_Import(self, s, f):
        import importlib
        for al in s.names:
            m = importlib.import_module(al.name)
            f.store(al.asname or al.name.split('.')[0],
                    m if al.asname else importlib.import_module(al.name.split('.')[0]))

    def s_ImportFrom(self, s, f):
        import importlib
        base = ('.' * s.level) + (s.module or '')
        m = importlib.import_module(base, f.module.get('__package__') or f.module['__name__'].rpartition('.')[0])
        for al in s.names:
            f.store(al.asname or al.name, getattr(m, al.name))

    def s_Global(self, s, f):
        pass

    s_Nonlocal = s_Global

    def s_Break(self, s, f):
        raise BreakSig()

    def s_Continue(self, s, f):
        raise ContinueSig()

    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = force(self.eval(t.value, f))
                k = self.eval_index(t.slice, f)
                self.delitem(o, k)
            else:
                raise Unsupported('del target')

    def s_While(self, s, f):
        from . import loops
        loops.exec_while(self, s, f)

    def s_For(self, s, f):
        from . import loops
        loops.exec_for(self, s, f)

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            f.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, f)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, f), self.eval_index(t.slice, f), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, f)
        else:
            raise Unsupported('assignment target')

    def unpack(self, elts, v, f):
        q = self.iter_seq(v)
        n = q.length()
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if not star:
            if not st().branch(TB(n == len(elts)) if not isinstance(n, int) else n == len(elts)):
                raise PyRaise(ExcVal(ValueError, ('unpack',)))
            for i, e in enumerate(elts):
                self.assign(e, self.elem(q, i), f)
            return
        k = star[0]
        after = len(elts) - k - 1
        if not st().branch(TB(n >= len(elts) - 1) if not isinstance(n, int) else n >= len(elts) - 1):
            raise PyRaise(ExcVal(ValueError, ('unpack',)))
        for i in range(k):
            self.assign(elts[i], self.elem(q, i), f)
        mid = V.seq_slice(q, k, V.tsub(n, after))
        self.assign(elts[k].value, self.box(PList(self.as_list_seq(mid))), f)
        for i in range(after):
            self.assign(elts[k + 1 + i], self.elem(q, V.tsub(n, after - i)), f)

    def box(self, b):
        b.birth = st().counter
        st().counter += 1
        return b

    def wrote(self, b):
        note_write(b)

    def as_list_seq(self, q):
        if q.kind in ('bytes', 'bytearray', 'list', 'tuple'):
            return q.with_kind('list')
        if q.kind == 'str':
            return map_seq(q, 'list', lambda c: norm_seq(Seq('str', [Elems([c])])))
        raise Unsupported(f'list of {q}')

    def elem(self, q, i):
        """Element of a Seq as a Python value."""
        v = V.seq_get(q, i)
        if q.kind == 'str':
            return norm_seq(Seq('str', [Elems([v])]))
        return v

    # ------------------------------------------------------------------ expressions
    def eval(self, e, f):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, f)

    def e_Constant(self, e, f):
        return e.value

    def e_Name(self, e, f):
        return f.lookup(e.id)

    def e_NamedExpr(self, e, f):
        v = self.eval(e.value, f)
        g = f
        while isinstance(g, CompFrame):
            g = g.parent
        g.store(e.target.id, v)
        return v

    def e_Attribute(self, e, f):
        return self.getattr(self.eval(e.value, f), e.attr)

    def e_Tuple(self, e, f):
        return self.make_tuple(e.elts, f)

    def make_tuple(self, elts, f):
        parts = []
        sym = False
        for x in elts:
            if isinstance(x, ast.Starred):
                q = self.iter_seq(self.eval(x.value, f))
                parts.append(q)
                sym = True
            else:
                parts.append(Seq('tuple', [Elems([self.eval(x, f)])]))
        if not sym:
            return tuple(p.segs[0].items[0] for p in parts)
        return norm_seq(V.seq_concat('tuple', parts))

    def e_List(self, e, f):
        return self.box(PList(to_seq(self.make_tuple(e.elts, f)).with_kind('list')))

    def e_Set(self, e, f):
        items = [self.eval(x, f) for x in e.elts]
        return SetVal(items)

    def e_Dict(self, e, f):
        d = self.box(PDict())
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('dict unpacking')
            self.setitem(d, self.eval(k, f), self.eval(v, f))
        return d

    def e_BoolOp(self, e, f):
        isand = isinstance(e.op, ast.And)
        v = None
        acc = []
        for i, x in enumerate(e.values):
            v = self.eval(x, f)
            if i == len(e.values) - 1:
                break
            if isinstance(v, SBool) and self.simple_rest(e.values[i + 1:]):
                # side-effect free comparison chain: keep as a condition when cheap
                pass
            t = self.truth(v)
            if isand and not t or not isand and t:
                return v if not isinstance(v, SBool) else t
        return v

    def simple_rest(self, xs):
        return False

    def e_UnaryOp(self, e, f):
        v = force(self.eval(e.operand, f))
        if isinstance(e.op, ast.Not):
            c = self.truth_cond(v)
            return B(Not(c))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (SInt, SBool)):
                return I(-T(v))
            return -v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, (SInt, SBool)):
                return I(-T(v) - 1)
            return ~v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary op')

    def e_BinOp(self, e, f):
        return self.binop(e.op, force(self.eval(e.left, f)), force(self.eval(e.right, f)))

    def binop(self, op, a, b):
        from . import ops
        return ops.binop(self, op, force(a), force(b))

    def e_Compare(self, e, f):
        left = self.eval(e.left, f)
        n = len(e.ops)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, f)
            c = self.compare(op, left, right)
            if i == n - 1:
                return c if isinstance(c, (bool, SBool)) else B(c)
            if not self.truth(c):
                return False
            left = right

    def compare(self, op, a, b):
        from . import ops
        return ops.compare(self, op, force(a), force(b))

    def e_IfExp(self, e, f):
        if self.truth(self.eval(e.test, f)):
            return self.eval(e.body, f)
        return self.eval(e.orelse, f)

    def e_Lambda(self, e, f):
        d = [self.eval(x, f) for x in e.args.defaults]
        kd = {a.arg: self.eval(x, f) for a, x in zip(e.args.kwonlyargs, e.args.kw_defaults) if x is not None}
        return Closure(e, f, f.module, '<lambda>', d, kd, f.qual + '.<lambda>')

    def e_JoinedStr(self, e, f):
        from . import strs
        return strs.joined(self, e, f)

    def e_Subscript(self, e, f):
        o = self.eval(e.value, f)
        return self.getitem(o, self.eval_index(e.slice, f))

    def eval_index(self, s, f):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, f) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.eval(s, f)

    def e_Starred(self, e, f):
        raise Unsupported('starred expression')

    def e_Yield(self, e, f):
        v = self.eval(e.value, f) if e.value is not None else None
        g = f
        while g.yields is None and g.parent is not None and isinstance(g, CompFrame):
            g = g.parent
        self.list_append(g.yields, v)
        return None

    def e_YieldFrom(self, e, f):
        v = self.eval(e.value, f)
        self.list_extend(f.yields, v)
        return None

    # comprehensions
    def e_ListComp(self, e, f):
        return self.box(PList(self.comp_seq(e, f).with_kind('list')))

    def e_GeneratorExp(self, e, f):
        return self.box(GenExp(e, f, self.eval(e.generators[0].iter, f)))

    def e_SetComp(self, e, f):
        q = self.comp_seq(e, f)
        n = q.concrete_len()
        if n is None:
            raise Unsupported('symbolic set comprehension')
        return SetVal([V.seq_get(q, i) for i in range(n)])

    def e_DictComp(self, e, f):
        fake = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
        q = self.comp_seq(fake, f)
        n = q.concrete_len()
        if n is None or n > 300:
            from .words import word_dict
            d = word_dict(self, q)
            if d is not None:
                return d
        if n is None:
            raise Unsupported('symbolic dict comprehension')
        d = self.box(PDict())
        for i in range(n):
            k, v = V.seq_get(q, i)
            self.setitem(d, k, v)
        return d

    def comp_seq(self, e, f, first=MISSING):
        from . import loops
        return loops.comp_seq(self, e, f, first)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, f):
        fn = self.eval(e.func, f) if not (isinstance(e.func, ast.Name) and e.func.id == 'super') else None
        if fn is None:
            return self.make_super(e, f)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                q = self.iter_seq(self.eval(a.value, f))
                n = q.concrete_len()
                if n is None:
                    args.append(StarSeq(q))
                else:
                    args.extend(self.elem(q, i) for i in range(n))
            else:
                args.append(self.eval(a, f))
        for k in e.keywords:
            if k.arg is None:
                d = force(self.eval(k.value, f))
                if not isinstance(d, PDict):
                    raise Unsupported('** argument')
                for kk, vv in d.items:
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, f)
        return self.call(fn, args, kw)

    def make_super(self, e, f):
        if e.args:
            raise Unsupported('super with arguments')
        g = f
        while isinstance(g, CompFrame):
            g = g.parent
        cls = g.lookup('__class__')
        first = g.node.args.args[0].arg
        return SuperProxy(cls, g.locals[first])

    def call(self, fn, args, kw=None):
        kw = kw or {}
        fn = force(fn)
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Unsupported('call depth')
        try:
            return self._call(fn, args, kw)
        finally:
            self.depth -= 1

    def _call(self, fn, args, kw):
        ent = self.models.get(_mid(fn))
        if ent is not None and (ent[0] is fn or ent[0] == fn):
            return ent[1].fn(self, args, kw)
        if isinstance(fn, Model):
            return fn.fn(self, args, kw)
        if isinstance(fn, BoundM):
            return self._call(fn.fn, [fn.self_v] + list(args), kw)
        if isinstance(fn, Partial):
            return self.call(fn.fn, list(fn.args) + list(args), {**fn.kw, **kw})
        if isinstance(fn, functools.partial):
            return self.call(fn.func, list(fn.args) + list(args), {**fn.keywords, **kw})
        if isinstance(fn, Closure):
            return self.run_function(fn.node, fn.env, fn.module, fn.qual, fn.defaults, fn.kwdefaults, args, kw)
        if isinstance(fn, types.MethodType):
            return self._call(fn.__func__, [fn.__self__] + list(args), kw)
        if isinstance(fn, staticmethod):
            return self._call(fn.__func__, args, kw)
        if isinstance(fn, functools._lru_cache_wrapper):
            return self._call(fn.__wrapped__, args, kw)
        if isinstance(fn, types.FunctionType):
            return self.call_pyfunc(api.SYMBOLIC.get(fn, fn), args, kw)
        if isinstance(fn, type):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType,
                           types.MethodWrapperType)):
            from . import models
            r = models.builtin_call(self, fn, args, kw)
            return r
        if isinstance(fn, Obj):
            m = self.class_attr(fn.cls, '__call__')
            if m is not MISSING:
                return self.call(BoundM(fn, m), args, kw)
        if isinstance(fn, api.Ghost):
            from . import ghost
            return ghost.call(self, fn, args)
        if isinstance(fn, api.Lemma):
            from . import ghost
            return ghost.use(self, fn, args)
        if isinstance(fn, Opaque):
            raise Unsupported(f'call of {fn}')
        if isinstance(fn, classmethod):
            raise Unsupported('unbound classmethod')
        if callable(fn):
            from . import models
            return models.other_call(self, fn, args, kw)
        raise PyRaise(ExcVal(TypeError, (f'{fn!r} not callable',)))

    def call_pyfunc(self, fn, args, kw):
        item = self.stubs.get(fn.__code__)
        if item is not None and item.name not in self.current:
            r = self.call_stub(item, fn, args, kw)
            if r is not MISSING:
                return r
        node = func_ast(fn)
        if fn.__code__.co_filename.startswith(REPO + '/'):
            self.used.add(fn.__module__.replace('bitcoinx.', '') + '.' + fn.__qualname__)
        elif fn.__module__ == 'logging' and fn.__name__ in ('debug', 'info', 'warning', 'error', 'exception'):
            return None                  # messages are not part of any contract
        elif not fn.__code__.co_filename.startswith(self.spec_prefix):
            raise Unsupported(f'library function {fn.__module__}.{fn.__qualname__}')
        d = fn.__defaults__ or ()
        return self.run_function(node, None, fn.__globals__, fn.__module__ + '.' + fn.__qualname__, list(d),
                                 fn.__kwdefaults__ or {}, args, kw, fn)

    def call_stub(self, item, fn, args, kw):
        from . import verify
        return verify.call_stub(self, item, fn, args, kw)

    def bind(self, node, defaults, kwdefaults, args, kw, fr):
        a = node.args
        pos = a.posonlyargs + a.args
        args = list(args)
        star = [x for x in args if isinstance(x, StarSeq)]
        if star:
            if not a.vararg or any(isinstance(x, StarSeq) for x in args[:len(pos)]):
                # concretise lengths
                out = []
                for x in args:
                    if isinstance(x, StarSeq):
                        n = st().concretize(x.seq.length())
                        out.extend(self.elem(x.seq, i) for i in range(n))
                    else:
                        out.append(x)
                args = out
                star = []
        kw = dict(kw)
        np = len(pos)
        given = args[:np]
        rest = args[np:]
        if rest and not a.vararg:
            raise PyRaise(ExcVal(TypeError, ('too many arguments',)))
        for p, v in zip(pos, given):
            if p.arg in kw:
                raise PyRaise(ExcVal(TypeError, ('multiple values',)))
            fr.locals[p.arg] = v
        nd = len(defaults)
        for i in range(len(given), np):
            p = pos[i]
            if p.arg in kw:
                fr.locals[p.arg] = kw.pop(p.arg)
            elif i >= np - nd:
                fr.locals[p.arg] = defaults[i - (np - nd)]
            else:
                raise PyRaise(ExcVal(TypeError, (f'missing argument {p.arg}',)))
        for p in a.kwonlyargs:
            if p.arg in kw:
                fr.locals[p.arg] = kw.pop(p.arg)
            elif p.arg in kwdefaults:
                fr.locals[p.arg] = kwdefaults[p.arg]
            else:
                raise PyRaise(ExcVal(TypeError, (f'missing argument {p.arg}',)))
        if a.vararg:
            if star:
                parts = [x.seq if isinstance(x, StarSeq) else Seq('tuple', [Elems([x])]) for x in rest]
                fr.locals[a.vararg.arg] = norm_seq(V.seq_concat('tuple', parts))
            else:
                fr.locals[a.vararg.arg] = tuple(rest)
        if a.kwarg:
            fr.locals[a.kwarg.arg] = self.box(PDict(kw.items()))
        elif kw:
            raise PyRaise(ExcVal(TypeError, (f'unexpected arguments {list(kw)}',)))

    def run_function(self, node, env, module, qual, defaults, kwdefaults, args, kw, fn=None):
        names = local_names(node)
        fr = Frame(node, env, module, qual, fn, names)
        self.bind(node, defaults, kwdefaults, args, kw, fr)
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, fr)
        if names[2]:
            fr.yields = self.box(PList([]))
            exc = None
            try:
                self.exec_block(node.body, fr)
            except ReturnSig:
                pass
            except PyRaise as pe:
                exc = pe.exc
            return self.box(GenResult(fr.yields.seq, exc))
        try:
            self.exec_block(node.body, fr)
        except ReturnSig as r:
            return r.v
        return None

    # ------------------------------------------------------------------ iteration
    def iter_seq(self, v):
        """Everything an iteration over v yields, as a Seq (raises what the iteration raises)."""
        v = force(v)
        if isinstance(v, GenExp):
            q = consume(v)
            return q if q is not None else self.comp_seq(v.node, v.frame, v.first)
        if isinstance(v, GenResult):
            q = consume(v)
            if v.exc is not None:
                raise PyRaise(v.exc)
            return q
        if isinstance(v, (PDict,)):
            return Seq('tuple', [Elems([k for k, _ in v.items])])
        if type(v).__name__ == 'WordList':
            return v.seq()
        if isinstance(v, SetVal):
            return Seq('tuple', [Elems(v.items)])
        if isinstance(v, (set, frozenset)):
            raise Unsupported('iteration over a set')
        if isinstance(v, dict):
            return Seq('tuple', [Elems(list(v))])
        if isinstance(v, RangeVal):
            return v.seq()
        if isinstance(v, IterVal):
            return consume(v)
        if isinstance(v, (Seq, PList, PBytearray, bytes, str, tuple, list, bytearray, range)):
            return to_seq(v)
        if isinstance(v, Obj):
            m = self.class_attr(v.cls, '__iter__')
            if m is not MISSING:
                return self.iter_seq(self.call(BoundM(v, m), [], {}))
            m = self.class_attr(v.cls, '__getitem__')
            raise Unsupported(f'iteration over {v.cls.__name__}')
        if isinstance(v, (SInt, SBool, int, type(None), float)):
            raise PyRaise(ExcVal(TypeError, ('not iterable',)))
        if isinstance(v, type) and issubclass(v, __import__('enum').Enum):
            return Seq('tuple', [Elems(list(v))])
        import array
        if isinstance(v, (array.array,)):
            return Seq('tuple', [Elems(list(v))])
        raise Unsupported(f'iteration over {v!r}')

    # ------------------------------------------------------------------ lists
    def list_append(self, l, v):
        self.wrote(l)
        l.seq = Seq(l.seq.kind, l.seq.segs + (Elems([v]),))

    def list_extend(self, l, v):
        q = self.iter_seq(v)
        self.wrote(l)
        q = self.as_list_seq(q) if q.kind == 'str' else q
        l.seq = Seq(l.seq.kind, l.seq.segs + q.segs)

    # ------------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        for k in cls.__mro__:
            if name in vars(k):
                if k is object and name in ('__bool__', '__len__', '__eq__', '__hash__', '__init__', '__new__',
                                            '__str__', '__repr__'):
                    return MISSING
                ov = st().overlay.get((id(k), name), MISSING)
                return ov if ov is not MISSING else vars(k)[name]
            ov = st().overlay.get((id(k), name), MISSING)
            if ov is not MISSING:
                return ov
        return MISSING

    def bind_attr(self, obj, cls, v):
        """Descriptor protocol for class attribute v accessed on instance obj."""
        if isinstance(v, types.FunctionType):
            return BoundM(obj, v)
        if isinstance(v, functools._lru_cache_wrapper):
            return BoundM(obj, v)
        if isinstance(v, property):
            return self.call(v.fget, [obj], {})
        if isinstance(v, classmethod):
            return BoundM(cls, v.__func__)
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, types.MemberDescriptorType):
            raise PyRaise(ExcVal(AttributeError, (v.__name__,)))
        get = None
        for k in type(v).__mro__:
            if '__get__' in vars(k) and isinstance(vars(k)['__get__'], types.FunctionType):
                get = vars(k)['__get__']
        if get is not None:
            return self.call(get, [v, obj, cls], {})
        return v

    def getattr(self, o, name):
        o = force(o)
        from . import models
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            if '$cached.' + name in o.fields:
                return o.fields['$cached.' + name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            v = self.class_attr(o.cls, name)
            if v is not MISSING:
                return self.bind_attr(o, o.cls, v)
            raise PyRaise(ExcVal(AttributeError, (name,)))
        if isinstance(o, SuperProxy):
            mro = (o.obj.cls if isinstance(o.obj, Obj) else o.obj if isinstance(o.obj, type) else type(o.obj)).__mro__
            for k in mro[mro.index(o.cls) + 1:]:
                if name in vars(k):
                    v = vars(k)[name]
                    if k is object and name == '__init__':
                        return Model(lambda I_, a, kw: None, 'object.__init__')
                    if k is object and name == '__setattr__':
                        return Model(lambda I_, a, kw: self.setattr(o.obj, a[0], a[1], raw=True), 'object.__setattr__')
                    if issubclass(k, BaseException) and not isinstance(v, types.FunctionType):
                        return Model(lambda I_, a, kw: None, 'exception.' + name)
                    return self.bind_attr(o.obj, mro[0], v)
            raise PyRaise(ExcVal(AttributeError, (name,)))
        if isinstance(o, (SInt,)) and o.cls is not None:
            v = self.class_attr(o.cls, name)
            if v is not MISSING and not isinstance(v, (types.MethodDescriptorType, types.WrapperDescriptorType)):
                return self.bind_attr(o, o.cls, v)
        if isinstance(o, ExcVal):
            if name == 'args':
                return o.args
            if o.args and isinstance(o.args[0], Obj) and issubclass(o.args[0].cls, BaseException):
                return self.getattr(o.args[0], name)
            raise Unsupported(f'attribute {name} of exception')
        r = models.get_attr(self, o, name)
        if r is not MISSING:
            return r
        if isinstance(o, (Closure, BoundM, Model)):
            if name == '__name__':
                return getattr(o, 'name', None) or getattr(o.fn, '__name__', '?')
            raise Unsupported(f'attribute {name} of {o}')
        # concrete python object
        ov = st().overlay.get((id(o), name), MISSING)
        if ov is not MISSING:
            return ov
        if isinstance(o, type):
            v = self.class_attr(o, name)
            if isinstance(v, classmethod):
                return BoundM(o, v.__func__)
            if isinstance(v, staticmethod):
                return v.__func__
            if isinstance(v, types.FunctionType):
                return v
            if v is MISSING or hasattr(v, '__get__') or not _is_repo_class(o):
                try:
                    return getattr(o, name)
                except AttributeError:
                    raise PyRaise(ExcVal(AttributeError, (name,)))
            return v
        try:
            if _is_repo_class(type(o)) and not isinstance(o, (int, str, tuple)):
                if name in getattr(o, '__dict__', {}):
                    return o.__dict__[name]
                v = self.class_attr(type(o), name)
                if v is not MISSING and isinstance(v, (types.FunctionType, property, classmethod, staticmethod)):
                    return self.bind_attr(o, type(o), v)
            return getattr(o, name)
        except AttributeError:
            raise PyRaise(ExcVal(AttributeError, (name,)))

    def hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except PyRaise as pe:
            if issubclass(pe.exc.cls, AttributeError):
                return False
            raise

    def setattr(self, o, name, v, raw=False):
        o = force(o)
        if isinstance(o, Obj):
            if type(self.class_attr(o.cls, name)).__name__ == 'cachedproperty':
                # a cache of a value that depends only on the object: not part of its content
                if all(getattr(o, 'birth', -1) >= g for g in st().guards):
                    o.fields['$cached.' + name] = v
                return
            self.wrote(o)
            if not raw:
                m = self.class_attr(o.cls, '__setattr__')
                if m is not MISSING and not isinstance(m, types.WrapperDescriptorType):
                    # attrs frozen classes
                    if getattr(m, '__name__', '') == '_frozen_setattrs' or 'attr' in getattr(m, '__module__', ''):
                        if getattr(o, 'initialising', False):
                            pass
                        elif 'frozen' in m.__name__:
                            import attr
                            raise PyRaise(ExcVal(attr.exceptions.FrozenInstanceError, ()))
                d = self.class_attr(o.cls, name)
                if isinstance(d, property):
                    if d.fset is None:
                        raise PyRaise(ExcVal(AttributeError, (name,)))
                    self.call(d.fset, [o, v], {})
                    return
                slots = getattr(o.cls, '__slots__', None)
                if slots is not None and not any('__dict__' in vars(k) for k in o.cls.__mro__ if k is not object) \
                        and name not in all_slots(o.cls):
                    raise PyRaise(ExcVal(AttributeError, (name,)))
            o.fields[name] = v
            return
        if isinstance(o, (Seq, SInt, SBool, bytes, str, int, tuple, PList)):
            raise PyRaise(ExcVal(AttributeError, (name,)))
        if hasattr(o, 'sym_setattr'):
            o.sym_setattr(self, name, v)
            return
        if isinstance(o, ExcVal):
            return
        if st().guards:
            raise SideEffect(o)
        st().overlay[(id(o), name)] = v
        st().overlay[('keep', id(o))] = o
        if isinstance(o, types.ModuleType):
            st().overlay[(id(vars(o)), name)] = v

    # ------------------------------------------------------------------ items
    def getitem(self, o, k):
        from . import ops
        return ops.getitem(self, force(o), force(k) if not isinstance(k, slice) else k)

    def setitem(self, o, k, v):
        from . import ops
        ops.setitem(self, force(o), force(k) if not isinstance(k, slice) else k, v)

    def delitem(self, o, k):
        from . import ops
        ops.delitem(self, o, force(k))

    # ------------------------------------------------------------------ instantiation
    def instantiate(self, cls, args, kw):
        from . import models
        ent = self.models.get(_mid(cls))
        if ent is not None and ent[0] is cls:
            return ent[1].fn(self, args, kw)
        if issubclass(cls, BaseException):
            init = self.class_attr(cls, '__init__')
            if isinstance(init, types.FunctionType):
                o = self.box(Obj(cls))
                self.call(init, [o] + list(args), kw)
                return ExcVal(cls, (o,) + tuple(args))
            return ExcVal(cls, args)
        import enum
        if issubclass(cls, enum.Enum):
            return models.enum_lookup(self, cls, args[0])
        if issubclass(cls, int) and cls is not bool and cls is not int:
            v = force(args[0]) if args else 0
            if isinstance(v, SInt):
                return SInt(v.t, cls)
            if isinstance(v, SBool):
                return SInt(T(v), cls)
            if isinstance(v, int):
                return cls(v)
            raise Unsupported(f'{cls.__name__}({v!r})')
        if not _is_repo_class(cls) and not _is_spec_class(self, cls):
            return models.builtin_class(self, cls, args, kw)
        if issubclass(cls, tuple):       # namedtuple
            fields = cls._fields
            vals = dict(zip(fields, args))
            vals.update(kw)
            return self.box(Obj(cls, vals))
        if getattr(cls, '__abstractmethods__', None):
            raise PyRaise(ExcVal(TypeError, ('abstract class',)))
        o = self.box(Obj(cls))
        new = self.class_attr(cls, '__new__')
        if isinstance(new, (staticmethod, types.FunctionType)):
            raise Unsupported('__new__')
        if hasattr(cls, '__attrs_attrs__') and _attrs_init(cls):
            self.attrs_init(o, cls, args, kw)
            return o
        init = self.class_attr(cls, '__init__')
        if init is MISSING:
            if args or kw:
                raise PyRaise(ExcVal(TypeError, ('takes no arguments',)))
            return o
        self.call(BoundM(o, init), args, kw)
        return o

    def attrs_init(self, o, cls, args, kw):
        import attr
        fields = [a for a in cls.__attrs_attrs__ if a.init]
        kw = dict(kw)
        if len(args) > len(fields):
            raise PyRaise(ExcVal(TypeError, ('too many arguments',)))
        flat = []
        for x in args:
            if isinstance(x, StarSeq):
                n = st().concretize(x.seq.length())
                flat.extend(self.elem(x.seq, i) for i in range(n))
            else:
                flat.append(x)
        if len(flat) > len(fields):
            raise PyRaise(ExcVal(TypeError, ('too many arguments',)))
        for i, a in enumerate(fields):
            nm = a.alias if getattr(a, 'alias', None) else a.name.lstrip('_')
            if i < len(flat):
                v = flat[i]
                if nm in kw:
                    raise PyRaise(ExcVal(TypeError, ('multiple values',)))
            elif nm in kw:
                v = kw.pop(nm)
            elif a.default is not attr.NOTHING:
                v = a.default
                if isinstance(v, attr.Factory):
                    v = self.call(v.factory, [], {})
            else:
                raise PyRaise(ExcVal(TypeError, (f'missing {nm}',)))
            if a.converter or a.validator:
                raise Unsupported('attrs converter/validator')
            o.fields[a.name] = v
        if kw:
            raise PyRaise(ExcVal(TypeError, (f'unexpected {list(kw)}',)))
        post = self.class_attr(cls, '__attrs_post_init__')
        if post is not MISSING:
            self.call(BoundM(o, post), [], {})


class SideEffect(Unsupported):
    def __init__(self, box):
        super().__init__(f'side effect on {type(box).__name__}')
        self.box = box


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SetVal:
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f'SetVal({self.items})'


class RangeVal:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def count(self):
        a, b, c = T(self.start), T(self.stop), T(self.step)
        if isinstance(a, int) and isinstance(b, int) and isinstance(c, int):
            return len(range(a, b, c))
        if not isinstance(c, int):
            raise Unsupported('symbolic range step')
        if c > 0:
            n = V.norm_t(V.div_const(b - a + (c - 1), c))
        else:
            n = V.norm_t(V.div_const(a - b + (-c - 1), -c))
        if isinstance(n, int):
            return max(n, 0)
        if st().branch(n >= 0):
            return n
        return 0

    def seq(self):
        n = self.count()
        if isinstance(n, int) and isinstance(self.start, int):
            return Seq('tuple', [Elems(range(self.start, self.start + n * self.step, self.step))]) if n else Seq(
                'tuple', [])
        if isinstance(n, int) and n <= 64:
            return Seq('tuple', [Elems([I(T(self.start) + k * self.step) for k in range(n)])])
        a, c = T(self.start), self.step
        at = Atom('range', n, lambda i: I(a + i * c), (a if not isinstance(a, int) else z3.IntVal(a), c), 'tuple')
        return Seq('tuple', [Sub(at, 0, n)])


class IterVal:
    def __init__(self, seq, view=False):
        self.seq, self.view = seq, view       # a view can be iterated again
        self.birth = st().counter
        st().counter += 1


def note_write(b):
    """b is about to be mutated."""
    if getattr(b, 'frozen', False):
        raise Unsupported('mutation of a shared input object')
    for g in st().guards:
        if getattr(b, 'birth', -1) < g:
            raise SideEffect(b)


def consume(v):
    """What one pass over an iterator still yields.  How far the pass gets is not tracked, so a second one is refused."""
    g = getattr(v, 'gen', None) or v
    if getattr(g, 'used', False):
        raise Unsupported('a second pass over an iterator')
    if not getattr(g, 'view', False):
        note_write(g)
        g.used = True
    pos = getattr(g, 'pos', 0)
    q = getattr(g, 'seq', None)
    if q is None or isinstance(pos, int) and pos == 0:
        return q
    return V.seq_slice(q, pos, q.length())


def map_seq(q, kind, fn, name='map'):
    """Apply fn to each element."""
    segs = []
    for g in q.segs:
        if isinstance(g, Elems):
            segs.append(Elems([fn(x) for x in g.items]))
        elif isinstance(g, V.Rep):
            segs.append(V.Rep(fn(g.v), g.n))
        elif isinstance(g, Flat):
            def mk(g):
                return lambda i: map_seq(to_seq(g.fn(i)), kind, fn, name)
            segs.append(Flat(g.lo, g.n, mk(g), g.total))
        else:
            def mk2(g):
                return lambda i: fn(V.seg_get(g, i))
            segs.append(Sub(Atom(f'{name}#{id(fn)}', g.length(), mk2(g), (), kind), 0, g.length()))
    return Seq(kind, segs)


def _mid(o):
    try:
        hash(o)
        return o
    except TypeError:
        return id(o)


def _is_repo_class(cls):
    return getattr(cls, '__module__', '').split('.')[0] == 'bitcoinx'


def _is_spec_class(I_, cls):
    return getattr(cls, '__module__', '').split('.')[0] == 'contracts'


def _attrs_init(cls):
    init = cls.__init__
    return isinstance(init, types.FunctionType) and 'attrs generated' in init.__code__.co_filename


def all_slots(cls):
    r = set()
    for k in cls.__mro__:
        s = vars(k).get('__slots__', ())
        r.update((s,) if isinstance(s, str) else s)
    return r
