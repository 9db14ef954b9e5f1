"""Discharging contracts and drivers."""
import importlib
import inspect
import os
import pickle
import sys
import time
import traceback
import types
import z3

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
for _p in ('/opt/venv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)
sys.dont_write_bytecode = True

from . import api, core, values as V, symdom, interp, models, loops, ext, text, secp, ghost     # noqa
from .core import st, Unsupported, PathEnd, ObligationFailed, Budget, State  # noqa
from .interp import Interp, PyRaise, MISSING                                 # noqa
from .values import Obj, PList, PBytearray, TB, And, Not, prove_eq, to_seq, norm_seq, force  # noqa


class Engine(Interp):
    def __init__(self, item):
        super().__init__(models.MODELS, stub_table())
        self.item = item
        self.item_loops = [api.LOOPS[x] if isinstance(x, str) else x for x in item.loops] or \
            [m for m in api.LOOPS.values() if getattr(m, 'module', None) == item.module and m.base is None]
        self.loop_errors = []
        self.sim_cache = {}
        self.machines_used = set()
        self.max_fork_unroll = getattr(item, 'fork_unroll', None) or 40
        self.max_concretize = 40
        self.nobl = 0
        self.obl_names = {}
        self.current = {item.name}

    def obligation(self, c, what):
        self.nobl += 1
        self.obl_names[what] = self.obl_names.get(what, 0) + 1
        if not st().try_prove(TB(c)):
            raise ObligationFailed(what)

    def same_outcome_obligation(self, t, s, what, exact=False):
        self.nobl += 1
        self.obl_names[what] = self.obl_names.get(what, 0) + 1
        if t[0] != s[0]:
            if not st().try_prove(core.FALSE):
                raise ObligationFailed(f'{what}: code {show(t)}, contract {show(s)}')
            raise PathEnd()
        if t[0] == 'exc':
            ok = (t[1] is s[1]) if exact else issubclass(t[1], s[1])
            if not ok:
                if not st().try_prove(core.FALSE):
                    raise ObligationFailed(f'{what}: code raises {t[1].__name__}, contract {s[1].__name__}')
            return
        st().last_diff = None
        if not prove_eq(t[1], s[1]):
            if not st().try_prove(core.FALSE):
                raise ObligationFailed(f'{what}: {st().last_diff or ""} code {show(t)}, contract {show(s)}')


def show(o):
    return (f'raises {o[1].__name__}' if o[0] == 'exc' else f'returns {o[1]!r:.300}')


def eq_hook(a, b):
    """a == b where one is an object of a modelled class."""
    it = ENGINE
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Obj):
            m = it.class_attr(x.cls, '__eq__')
            if m is not MISSING:
                if isinstance(m, types.FunctionType) and '<attrs generated' in m.__code__.co_filename:
                    if not isinstance(y, Obj) or y.cls is not x.cls:
                        r = NotImplemented
                    else:
                        import attr
                        cs = []
                        for f in attr.fields(x.cls):
                            if f.eq:
                                cs.append(V.eq_cond(x.fields[f.name], y.fields[f.name]))
                        return And(*cs)
                elif isinstance(m, types.FunctionType):
                    r = it.call(interp.BoundM(x, m), [y], {})
                elif issubclass(x.cls, tuple) and hasattr(x.cls, '_fields'):
                    if isinstance(y, Obj) and y.cls is x.cls:
                        return And(*[V.eq_cond(x.fields[f], y.fields[f]) for f in x.cls._fields])
                    r = NotImplemented
                else:
                    raise Unsupported(f'__eq__ of {x.cls.__name__}')
                if r is not NotImplemented:
                    return it.truth_cond(r)
    return a is b


ENGINE = None
V.EQ_HOOK = eq_hook

_stubs = None


def stub_table():
    global _stubs
    if _stubs is None:
        _stubs = {}
        for item in api.REGISTRY.values():
            if item.kind == 'contract' and item.stub and item.mode == 'proof':
                fn = target_function(item)
                if fn is not None:
                    _stubs[fn.__code__] = item
    return _stubs


def class_of(item):
    """The class whose class method is under contract."""
    if isinstance(api.resolve_raw(item.target), classmethod):
        return api.resolve(item.target).__self__
    return MISSING


def target_function(item):
    try:
        raw = api.resolve_raw(item.target)
    except (AttributeError, ImportError):
        return None
    while True:
        if isinstance(raw, (classmethod, staticmethod)):
            raw = raw.__func__
        elif isinstance(raw, property):
            raw = raw.fget
        elif hasattr(raw, '__wrapped__'):
            raw = raw.__wrapped__
        else:
            break
    return raw if isinstance(raw, types.FunctionType) else None


def call_stub(it, item, fn, args, kw):
    """Replace a call by the callee's contract when the arguments are provably in its domain."""
    s = st()
    if s.guards and any(isinstance(d, api.Stream) for d in item.domains.values()):
        pass
    try:
        sig = inspect.signature(fn)
        ba = sig.bind(*args, **kw)
        ba.apply_defaults()
    except TypeError:
        return MISSING
    vals = list(ba.arguments.values())
    if any(isinstance(x, interp.StarSeq) for x in vals):
        return MISSING
    doms = list(item.domains.values())
    if len(vals) == len(doms) + 1 and vals[0] is class_of(item):
        vals = vals[1:]                  # a class method, called on its own class
    if len(vals) != len(doms):
        return MISSING
    for v, d in zip(vals, doms):
        if not symdom.in_domain(it, v, d):
            return MISSING
    it.stub_used.add(item.name)
    pos, kwn = api.call_shape(item.spec, list(item.domains))
    by = dict(zip(item.domains, vals))
    it.stub_depth += 1
    try:
        return it.call(item.spec, [by[k] for k in pos], {k: by[k] for k in kwn})
    finally:
        it.stub_depth -= 1


def argument(it, d, name):
    v = symdom.make(it, d, 'arg_' + name)
    if isinstance(v, models.PStream):
        return v, v.reader()
    return v, v


def run_item(item, timeout=60, tms=4000, max_paths=100000, part=0):
    """Discharge one item.  Returns a result dict."""
    global ENGINE
    domains = item.parts()[part]
    t0 = time.time()
    s = State(timeout_ms=tms, deadline=t0 + timeout, max_paths=max_paths)
    core.set_state(s)
    it = ENGINE = Engine(item)
    for k in core.STATS:
        core.STATS[k] = 0 if k != 'time' else 0.0
    res = {'item': item.name, 'kind': item.kind, 'status': 'proved', 'message': '', 'model': None}
    stat = {'complete': 0, 'ok': 0, 'sat': 0}

    def feasible():
        if stat['sat'] < 1:
            r = s._check(core.TRUE)
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.sat:
                stat['sat'] += 1
        stat['complete'] += 1

    def run_driver():
        args = {k: argument(it, d, k)[1] for k, d in domains.items()}
        try:
            it.call(item.spec, list(args.values()), {})
        except PyRaise as e:
            if issubclass(e.exc.cls, api.Skip):
                raise PathEnd()
            if not s.try_prove(core.FALSE):
                raise ObligationFailed(f'driver raises {e.exc!r:.200}')
            raise PathEnd()
        feasible()
        stat['ok'] += 1

    def run_ghost():
        args = [argument(it, d, k)[1] for k, d in domains.items()]
        try:
            (ghost.run_ghost if item.kind == 'ghost' else ghost.run_lemma)(it, item, args)
        except PyRaise as e:
            if issubclass(e.exc.cls, api.Skip):
                raise PathEnd()
            if not s.try_prove(core.FALSE):
                raise ObligationFailed(f'raises {e.exc!r:.200}')
            raise PathEnd()
        feasible()
        stat['ok'] += 1

    def run_contract():
        target = api.resolve(item.target)
        a1 = {k: argument(it, d, k) for k, d in domains.items()}
        a2 = {k: argument(it, d, k) for k, d in domains.items()}
        try:
            pos, kwn = api.call_shape(item.spec, list(a2))
            so = ('ok', it.call(item.spec, [a2[k][1] for k in pos], {k: a2[k][1] for k in kwn}))
        except PyRaise as e:
            if issubclass(e.exc.cls, api.Skip):
                raise PathEnd()
            so = ('exc', e.exc.cls)
        try:
            pos, kwn = api.call_shape(target, list(a1))
            to = ('ok', it.call(target, [a1[k][1] for k in pos], {k: a1[k][1] for k in kwn}))
        except PyRaise as e:
            to = ('exc', e.exc.cls)
            it.last_exc = e.exc
        if to[0] == 'ok' and so[0] == 'ok':
            to = ('ok', settle(it, to[1]))
            so = ('ok', settle(it, so[1]))
            if isinstance(to[1], PyRaise):
                to = ('exc', to[1].exc.cls)
            if isinstance(so[1], PyRaise):
                so = ('exc', so[1].exc.cls)
            if item.view is not None:
                to = ('ok', it.call(item.view, [to[1]], {}))
                so = ('ok', it.call(item.view, [so[1]], {}))
        it.same_outcome_obligation(to, so, 'result', exact=item.stub)
        if so[0] == 'ok':
            for k in a1:
                x, y = a1[k][0], a2[k][0]
                if isinstance(x, models.PStream):
                    it.nobl += 1
                    if not (prove_eq(norm_seq(x.rest), norm_seq(y.rest))):
                        raise ObligationFailed(f'stream position after the call ({x.rest} / {y.rest})')
                elif isinstance(x, (PList, PBytearray, Obj)):
                    it.nobl += 1
                    if not prove_eq(x, y):
                        raise ObligationFailed(f'argument {k} after the call')
        feasible()
        stat['ok'] += so[0] == 'ok'

    try:
        s.explore(run_driver if item.kind == 'driver' else run_contract if item.kind == 'contract' else run_ghost)
        if stat['complete'] == 0:
            res['status'], res['message'] = 'failed', 'vacuous: no feasible path satisfies the precondition'
        elif stat['ok'] == 0 and not item.raises_only:
            res['status'], res['message'] = 'failed', 'vacuous: the contract never returns normally'
    except ObligationFailed as e:
        res['status'], res['message'] = 'failed', f'obligation failed: {e}'
        res['model'] = model_args(domains, s)
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['message'] = f'not decided: {e}' + (f' [{"; ".join(it.loop_errors[-3:])}]' if it.loop_errors else '')
        res['model'] = None
        if os.environ.get('PYVC_TB'):
            traceback.print_exc()
    except Budget as e:
        res['status'], res['message'] = 'budget', str(e)
    except RecursionError:
        res['status'], res['message'] = 'unsupported', 'recursion'
    except z3.Z3Exception as e:
        res['status'], res['message'] = 'unsupported', f'z3: {e}'
        if os.environ.get('PYVC_TB'):
            traceback.print_exc()
    except (PyRaise, interp.ReturnSig) as e:
        res['status'], res['message'] = 'unsupported', f'engine: {e!r:.200}'
    except Exception as e:
        res['status'], res['message'] = 'unsupported', f'engine error: {type(e).__name__}: {e} ' + \
            traceback.format_exc()[-600:]
        if os.environ.get('PYVC_TB'):
            traceback.print_exc()
    res.update(paths=s.paths, obligations=max(it.nobl, 1), obl_names=dict(it.obl_names), stubs=sorted(it.stub_used),
               functions=sorted(it.used), machines=sorted(it.machines_used), solver=dict(core.STATS),
               wall=round(time.time() - t0, 2), complete=stat['complete'], ok=stat['ok'])
    return res


def settle(it, v):
    """Force generators returned by the code so that they can be compared."""
    v = force(v)
    if isinstance(v, (interp.GenExp, interp.GenResult, interp.IterVal)):
        if isinstance(v, interp.GenResult):
            q, exc = loops.source_seq(it, v)
            return (exc.cls if exc is not None else None, norm_seq(q.with_kind('tuple')))
        try:
            q = it.iter_seq(v)
        except PyRaise as e:
            return (e.exc.cls, ())
        return (None, norm_seq(q.with_kind('tuple')))
    return v


def model_args(domains, s):
    m = getattr(s, 'fail_model', None)
    if m is None:
        # any model of the path condition
        try:
            s._sync()
            s.solver.set('timeout', 3000)
            if s.solver.check() == z3.sat:
                m = s.solver.model()
        except z3.Z3Exception:
            m = None
    if m is None:
        return None
    try:
        args = {k: symdom.from_model(d, m, 'arg_' + k) for k, d in domains.items()}
        return pickle.dumps(args)
    except Exception:
        return None


def load_contracts():
    api.setup_copying()
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
    if os.path.dirname(d) not in sys.path:
        sys.path.insert(0, os.path.dirname(d))
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('contracts.' + f[:-3])

