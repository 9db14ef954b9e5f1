"""Ghost functions and lemmas."""
from . import api, symdom, values as V
from .core import st, Unsupported, PathEnd, ObligationFailed
from .values import T, TB, And, prove_eq, force
from .interp import PyRaise, MISSING
from .loops import copy_val, to_pytuple

NATIVE = (int, bytes, str, type(None))


def native(v):
    return isinstance(v, NATIVE) or isinstance(v, tuple) and all(native(x) for x in v)


def canon(v):
    """An empty text in its usual form."""
    if isinstance(v, V.Seq) and v.segs:
        n = v.length()
        if not isinstance(n, int) and st().entails(n == 0):
            return V.norm_seq(V.Seq(v.kind, []))
    return v


def check_args(it, what, item, args):
    if len(args) != len(item.domains):
        raise Unsupported(f'{what}: number of arguments')
    for v, (nm, d) in zip(args, item.domains.items()):
        if not symdom.in_domain(it, v, d):
            raise Unsupported(f'{what}: argument {nm} not provably in its domain ({v!r:.200})')


def decreasing(it, item, args):
    """Within the item's own proof a recursive call needs a smaller measure."""
    if it.item is item:
        if item.decreases is None:
            raise ObligationFailed(f'{item.name}: recursion without a measure')
        m1 = it.call(item.decreases, list(args), {})
        if not st().try_prove(TB(And(T(m1) >= 0, T(m1) < T(it.measure0)))):
            raise ObligationFailed(f'{item.name}: the measure does not decrease')


def lookup(g, args):
    from .loops import same_quick
    for a2, v in st().registry.get(('ghost', g.name), ()):
        if all(same_quick(a, b) for a, b in zip(args, a2)):
            return v
    return MISSING


def define(g, args, v):
    s = st()
    s.registry[('ghost', g.name)] = ((tuple(args), v),) + tuple(s.registry.get(('ghost', g.name), ()))


def call(it, g, args):
    args = [canon(copy_val(force(a))) for a in args]
    if all(native(a) for a in args):
        return symdom.lift(it, g.fn(*args))
    check_args(it, g.name, g.item, args)
    it.stub_used.add(g.name)
    v = lookup(g, args)
    if v is MISSING:
        if it.item is g.item and it.item.kind == 'ghost':
            decreasing(it, g.item, args)
        v = symdom.fresh_value(it, g.item.result, 'gh.' + g.name)
        define(g, args, v)
    return v


def unfold(it, args, kw):
    if it.stub_depth:
        return True
    g, args = args[0], [canon(copy_val(force(a))) for a in args[1:]]
    if all(native(a) for a in args):
        return True
    check_args(it, g.name, g.item, args)
    it.stub_used.add(g.name)
    if any(all(prove_eq(a, b) for a, b in zip(args, known)) for known in st().registry.get(('rewritten', g.name), ())):
        return True                   # a lemma already gave its value
    b = it.call(g.fn, args, {})
    equate(it, g, args, b)
    return True


def equate(it, g, args, b):
    """Assume g(args) == b."""
    s = st()
    v = lookup(g, args)
    if v is MISSING:
        define(g, args, b)
    elif isinstance(g.item.result, (api.Int, api.Bool)):
        s.assume(TB(V.eq_cond(v, b)))
    elif not prove_eq(v, b):
        s.assume(TB(V.eq_cond(v, b)))
        define(g, args, b)


def use(it, l, args):
    s = st()
    item = l.item
    args = [canon(copy_val(force(a))) for a in args]
    if it.item.kind == 'lemma' and it.item is not item and it.item.order < item.order:
        raise ObligationFailed(f'lemma {it.item.name} uses the later lemma {item.name}')
    check_args(it, l.name, item, args)
    decreasing(it, item, args)
    it.stub_used.add(l.name)
    if not s.try_prove(TB(it.truth_cond(it.call(item.requires, args, {})))):
        raise ObligationFailed(f'lemma {item.name}: precondition not established')
    s.assume(TB(it.truth_cond(it.call(item.ensures, args, {}))))
    if item.rewrites:
        for e in to_pytuple(it, it.call(item.rewrites, args, {})):
            g, a, v = to_pytuple(it, e)
            a = [canon(copy_val(force(x))) for x in to_pytuple(it, a)]
            equate(it, g, a, v)
            s.registry[('rewritten', g.name)] = tuple(s.registry.get(('rewritten', g.name), ())) + (tuple(a),)
    return None


def run_ghost(it, item, args):
    it.measure0 = it.call(item.decreases, list(args), {}) if item.decreases else None
    try:
        v = it.call(item.spec, list(args), {})
    except PyRaise as e:
        if not st().try_prove(TB(False)):
            raise ObligationFailed(f'ghost {item.name} raises {e.exc!r:.200}')
        raise PathEnd()
    it.nobl += 1
    if not symdom.in_domain(it, v, item.result):
        raise ObligationFailed(f'ghost {item.name}: result {v!r:.200} leaves its domain')


def run_lemma(it, item, args):
    it.measure0 = it.call(item.decreases, list(args), {}) if item.decreases else None
    st().assume(TB(it.truth_cond(it.call(item.requires, list(args), {}))))
    it.call(item.spec, list(args), {})
    if any(api.REGISTRY[x].kind == 'contract' for x in it.stub_used) or it.used:
        raise ObligationFailed(f'lemma {item.name} depends on code')
    it.obligation(it.truth_cond(it.call(item.ensures, list(args), {})), f'lemma {item.name}')
    if item.rewrites:
        for e in to_pytuple(it, it.call(item.rewrites, list(args), {})):
            g, a, v = to_pytuple(it, e)
            it.nobl += 1
            w = it.call(g, list(to_pytuple(it, a)), {})
            if not prove_eq(w, v):
                raise ObligationFailed(f'lemma {item.name}: {g.name} is {w!r:.200} not {v!r:.200} {st().last_diff or ""}')
