"""Contract language: what contract files are written in.

Everything here has a native meaning (CPython executes it; used by the replay and the
falsifier) and a symbolic meaning (the verifier intercepts the primitives).  No z3 here.
"""
import copy
import importlib
import inspect
import random
import string

REGISTRY = {}          # name -> Item


class Item:
    split = None                  # arguments (OneOf / AnyOf domains) whose cases are proved separately

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def parts(self):
        """The domains of the separate proof tasks; their union is the whole domain."""
        out = [dict(self.domains)]
        for k in (self.split or '').split():
            d = self.domains[k]
            cases = [Const(v) for v in d.vals] if isinstance(d, OneOf) else list(d.doms)
            out = [dict(x, **{k: c}) for x in out for c in cases]
        return out


class Violation(Exception):
    pass


class Skip(Exception):
    pass


class Return(Exception):
    """Raised by a machine step: the loop returns this value from its function."""


# ---------------------------------------------------------------- primitives
def require(cond):
    """Precondition: restricts the domain."""
    if not cond:
        raise Skip()


def check(cond, what='assertion'):
    """Obligation."""
    if not cond:
        raise Violation(what)


def outcome(fn):
    """Run fn; ('ok', value) or ('exc', exception class)."""
    try:
        return ('ok', fn())
    except (Skip, Violation):
        raise
    except Exception as e:
        return ('exc', type(e))


def exc_of(fn):
    """The class of the exception fn raises, or None."""
    kind, v = outcome(fn)
    return v if kind == 'exc' else None


def same_value(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return (isinstance(a, list) == isinstance(b, list) and len(a) == len(b)
                and all(same_value(x, y) for x, y in zip(a, b)))
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return type(a) is type(b) and a == b
    if a is None or b is None:
        return a is b
    if isinstance(a, type) and isinstance(b, type):
        return issubclass(a, b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b and isinstance(a, bool) == isinstance(b, bool)
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same_value(a[k], b[k]) for k in a)
    if type(a) is not type(b):
        return False
    if type(a).__module__ == '_cffi_backend':
        return repr(a) == repr(b) and cdata_bytes(a) == cdata_bytes(b)
    if type(a).__module__ == 'builtins' or not type(a).__module__.startswith('bitcoinx'):
        return a == b
    fa, fb = content(a), content(b)
    if fa is None or fb is None:
        return a == b
    return fa.keys() == fb.keys() and all(same_value(fa[k], fb[k]) for k in fa)


def cdata_bytes(cd):
    from electrumsv_secp256k1 import ffi
    return bytes(ffi.buffer(cd))


def cdata_from(ctype, raw):
    from electrumsv_secp256k1 import ffi
    cd = ffi.new(ctype)
    ffi.buffer(cd)[:] = raw
    return cd


def _reduce_cdata(cd):
    return cdata_from, (repr(cd).split("'")[1], cdata_bytes(cd))


def named_coin(name):
    coin = importlib.import_module('bitcoinx.coin')
    return getattr(coin, name)


def _reduce_coin(c):
    coin = importlib.import_module('bitcoinx.coin')
    for k, v in vars(coin).items():
        if v is c:
            return named_coin, (k,)
    raise TypeError('unknown coin')


def setup_copying():
    """Library structures are copied by content, coins are singletons."""
    import copyreg
    try:
        from electrumsv_secp256k1 import ffi
        copyreg.pickle(type(ffi.new('int *')), _reduce_cdata)
    except ImportError:
        pass
    copyreg.pickle(importlib.import_module('bitcoinx.coin').Coin, _reduce_coin)


def content(obj):
    """Field contents of an object of the code under verification."""
    if hasattr(obj, '__attrs_attrs__'):
        return {f.name: getattr(obj, f.name) for f in obj.__attrs_attrs__}
    if hasattr(obj, '__dict__') and not isinstance(obj, type):
        d = dict(obj.__dict__)
        for k in list(d):
            if type(inspect.getattr_static(type(obj), k, None)).__name__ == 'cachedproperty':
                del d[k]
        if '_coin' in d or 'coin' in d:
            pass
        if type(obj).__name__ == 'Coin':
            return None
        if '_public_key' in d:
            d['_public_key'] = type(obj).to_bytes(obj, compressed=True)
        return d
    return None


def same_outcome(a, b):
    """a: outcome of the code, b: outcome the contract requires."""
    if a[0] != b[0]:
        return False
    if a[0] == 'ok':
        return same_value(a[1], b[1])
    return issubclass(a[1], b[1])


class SpecError(BaseException):
    """A contract is written wrongly."""


def as_outcome(x):
    if isinstance(x, tuple) and len(x) == 2 and x[0] in ('ok', 'exc'):
        return x
    if not callable(x):
        raise SpecError('neither an outcome nor a function')
    return outcome(x)


def check_same(target, spec, what='result equals the specified result'):
    """target, spec: functions without arguments, or their outcomes."""
    s = as_outcome(spec)
    t = as_outcome(target)
    if not same_outcome(t, s):
        raise Violation(f'{what}: code gives {t!r:.300}, contract requires {s!r:.300}')


def prefix(data, n):
    """The first n bytes of data (0 <= n <= len(data)); symbolically only to be read as a stream."""
    require(0 <= n <= len(data))
    return data[:n]


def prove(cond, what='lemma'):
    """An obligation whose truth may then be used (cut)."""
    check(cond, what)


# ---------------------------------------------------------------- domains
EDGES = sorted({0, 1, 2, 3, 4, 5, 15, 16, 17, 19, 20, 21, 31, 32, 33, 34, 63, 64, 65, 66, 74, 75, 76, 77,
                78, 79, 80, 127, 128, 129, 252, 253, 254, 255, 256, 257, 65534, 65535, 65536, 65537})
BIG = sorted({(1 << k) + d for k in (8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 63, 64, 127, 128, 255, 256)
              for d in (-1, 0, 1)} | {0, 1, 500_000_000, 499_999_999, 500_000_001})


class Dom:
    def sample(self, rng, depth=0):
        raise NotImplementedError

    def shrink(self, v):
        return ()


class Int(Dom):
    def __init__(self, lo=None, hi=None, cls=None, edges=(), shi=None):
        self.lo, self.hi, self.cls, self.edges = lo, hi, cls, edges
        self.shi = shi                # samples do not exceed this

    def sample(self, rng, depth=0):
        lo = self.lo if self.lo is not None else -(1 << 66)
        hi = self.hi if self.hi is not None else (1 << 260)
        hi = hi if self.shi is None else min(hi, self.shi)
        for _ in range(20):
            r = rng.random()
            if r < 0.12 and self.edges:
                v = rng.choice(self.edges)
            elif r < 0.35:
                v = rng.choice(EDGES)
            elif r < 0.6:
                v = rng.choice(BIG)
                if lo < 0 and rng.random() < 0.4:
                    v = -v
            elif r < 0.75:
                v = rng.choice((lo, hi)) + rng.choice((0, 1, -1))
            elif r < 0.88:
                v = rng.randrange(0, 1 << rng.randrange(1, 70))
                if lo < 0 and rng.random() < 0.4:
                    v = -v
            else:
                v = rng.randint(lo, hi)
            if lo <= v <= hi:
                return self._wrap(v)
        return self._wrap(rng.randint(lo, hi))

    def _wrap(self, v):
        return self.cls(v) if self.cls else v


class Bool(Dom):
    def sample(self, rng, depth=0):
        return rng.random() < 0.5


class Const(Dom):
    def __init__(self, v):
        self.v = v

    def sample(self, rng, depth=0):
        return self.v


class OneOf(Dom):
    def __init__(self, *vals):
        self.vals = vals

    def sample(self, rng, depth=0):
        return rng.choice(self.vals)


class AnyOf(Dom):
    def __init__(self, *doms):
        self.doms = doms

    def sample(self, rng, depth=0):
        return rng.choice(self.doms).sample(rng, depth)


def Opt(d):
    return AnyOf(Const(None), d)


class Bytes(Dom):
    """Byte strings.  hint: a function rng -> bytes giving interesting samples."""
    def __init__(self, n=None, min=0, max=None, hint=None, cls=bytes, smax=None, top=256):
        if n is not None:
            min = max = n
        self.top = top                # every byte is below this
        self.min, self.max, self.hint, self.cls = min, max, hint, cls
        self.smax = smax if smax is not None else 70000

    def sample(self, rng, depth=0):
        v = self.sample_any(rng)
        return v if self.top == 256 else self.cls(bytes(x % self.top for x in v))

    def sample_any(self, rng):
        if self.hint and rng.random() < 0.7:
            v = self.hint(rng)
            if self.min <= len(v) and (self.max is None or len(v) <= self.max):
                return self.cls(v)
        hi = self.max if self.max is not None else self.smax
        hi = min(hi, self.smax) if self.max is None or self.max > 100000 else hi
        hi = max(hi, self.min)
        r = rng.random()
        if self.min == hi:
            n = hi
        elif r < 0.5:
            n = rng.randint(self.min, min(hi, self.min + 40))
        elif r < 0.9:
            c = [e for e in EDGES if self.min <= e <= min(hi, 300)] or [self.min]
            n = rng.choice(c)
        else:
            c = [e for e in EDGES if self.min <= e <= hi] or [self.min]
            n = rng.choice(c)
        m = rng.random()
        if m < 0.5:
            return self.cls(rng.randbytes(n))
        if m < 0.65:
            return self.cls(bytes([rng.choice((0, 1, 0x7f, 0x80, 0x81, 0xff, 16, 17))]) * n)
        if m < 0.8:
            z = rng.randint(0, n)
            return self.cls(bytes(z) + rng.randbytes(n - z))
        return self.cls(bytes(rng.choice((0, 1, 2, 16, 17, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x60, 0x61,
                                          0x6a, 0x6d, 0x75, 0x80, 0x81, 0xff)) for _ in range(n)))


class Str(Dom):
    def __init__(self, alphabet=None, min=0, max=None, hint=None, smax=60, n=None, exclude=''):
        if n is not None:
            min = max = n
        self.exclude = exclude
        self.alphabet, self.min, self.max, self.hint, self.smax = alphabet, min, max, hint, smax

    def sample(self, rng, depth=0):
        if self.hint and rng.random() < 0.75:
            v = self.hint(rng)
            if self.min <= len(v) and (self.max is None or len(v) <= self.max) and not set(v) & set(self.exclude):
                return v
        hi = min(self.max, max(self.smax, 80)) if self.max is not None else self.smax
        n = rng.randint(self.min, max(self.min, hi))
        alpha = self.alphabet or (string.printable + '\u00b2\u0660\u212a\u00e9\u4e2d\x00\x7f\x80')
        if self.exclude:
            alpha = [c for c in alpha if c not in self.exclude]
        return ''.join(rng.choice(alpha) for _ in range(n))


class Padded(Dom):
    """Every text (byte string): a run of x, then nothing or something that does not start with x."""
    def __init__(self, x, dom):
        self.x, self.dom = x, dom
        self.alphabet = getattr(dom, 'alphabet', None)

    def sample(self, rng, depth=0):
        v = self.dom.sample(rng, depth)
        x = self.x if isinstance(v, str) else bytes([self.x])
        return x * rng.choice((0, 0, 1, 2, 5)) + v

    def symbolic(self, it, name, args):
        from .text import make_padded
        return make_padded(it, self, name, args)

    def member(self, it, v):
        from . import symdom
        return symdom.in_domain(it, v, self.dom)

    def contains(self, v):
        return isinstance(v, (str if isinstance(self.dom, Str) else bytes))

    def from_model(self, m, name, args):
        from . import symdom
        n = symdom.from_model(Int(0, 64), m, name + '.pad', args)
        b = symdom.from_model(self.dom, m, name + '.rest', args)
        return (self.x if isinstance(b, str) else bytes([self.x])) * n + b


def usable_random():
    """From here on os.urandom(32) is taken to give a valid secret (a loop that tries again until it does keeps no state)."""


def lead(v, x):
    """The number of leading x of v (symbolically: of a Padded value)."""
    n = 0
    while n < len(v) and v[n] == x:
        n += 1
    return n


class Cat(Dom):
    """Concatenation of texts (or byte strings)."""
    def __init__(self, *doms):
        self.doms = doms

    def sample(self, rng, depth=0):
        v = [d.sample(rng, depth) for d in self.doms]
        return ''.join(v) if isinstance(v[0], str) else b''.join(v)


class Joined(Dom):
    """sep.join of one or more texts without sep: with no other restriction, every text."""
    def __init__(self, sep, dom, smax=5, first=None):
        assert sep in dom.exclude
        self.sep, self.dom, self.smax, self.first = sep, dom, smax, first    # first: a hint for the first part

    def sample(self, rng, depth=0):
        parts = [self.dom.sample(rng, depth + 1) for _ in range(1 + rng.randrange(self.smax))]
        if self.first is not None and rng.random() < .9:
            parts[0] = self.first
        return self.sep.join(parts)


SPACES = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\u00a0\u1680\u2028\u2029\u202f\u205f\u3000' + ''.join(
    map(chr, range(0x2000, 0x200b)))


class Words(Dom):
    """A text known by its words: every text is its words separated, preceded and followed by white space.
    The verifier only lets it be split()."""
    def __init__(self, dom, smax=8):
        self.dom, self.smax = dom, smax

    def sample(self, rng, depth=0):
        gap = lambda lo: ''.join(rng.choice(SPACES if rng.random() < .1 else ' ') for _ in range(
            max(lo, rng.choice((0, 0, 0, 1, 2)))))
        w = [self.dom.sample(rng, depth + 1) for _ in range(rng.randrange(self.smax + 1))]
        return gap(0) + gap(1).join(w) + gap(0)


class ListOf(Dom):
    def __init__(self, dom, min=0, max=None, smax=5, cls=list):
        self.dom, self.min, self.max, self.smax, self.cls = dom, min, max, smax, cls

    def sample(self, rng, depth=0):
        if self.min > 5000:
            raise Skip()
        big = self.max is None or self.max > 64
        hi = max(self.smax, self.min) if big else self.max
        if big and rng.random() < 0.03 and depth == 0:
            hi = 300
        n = rng.randint(self.min, hi)
        return self.cls(self.dom.sample(rng, depth + 1) for _ in range(n))


class TupleOf(Dom):
    def __init__(self, *doms):
        self.doms = doms

    def sample(self, rng, depth=0):
        return tuple(d.sample(rng, depth) for d in self.doms)


class ObjOf(Dom):
    """An instance of cls with the given fields (and no others).  like: a function rng -> a real
    object of that kind, made by the public interface, with the same fields."""
    def __init__(self, cls, *, like=None, **fields):
        self.cls, self.fields, self.like = cls, fields, like

    def same_fields(self):
        return self.like is None or set(vars(self.like(random.Random(0)))) == set(self.fields)

    def klass(self):
        return resolve(self.cls) if isinstance(self.cls, str) else self.cls

    def sample(self, rng, depth=0):
        if self.like is not None:
            return self.like(rng)
        c = self.klass()
        o = c.__new__(c)
        for k, d in self.fields.items():
            object.__setattr__(o, k, d.sample(rng, depth))
        return o


class Made(Dom):
    """fn(*values of doms): objects built by the code's own constructor.  cls: their class.
    Assumption: objects of that class are only made this way (class invariant)."""
    def __init__(self, cls, *doms, fn=None):
        self.cls, self.doms, self.fn = cls, doms, fn

    def klass(self):
        return resolve(self.cls) if isinstance(self.cls, str) else self.cls

    def maker(self):
        return self.fn or self.klass()

    def build(self, vals):
        return self.maker()(*vals)

    def sample(self, rng, depth=0):
        return self.build([d.sample(rng, depth) for d in self.doms])

    def contains(self, v):
        return isinstance(v, self.klass())

    def mutate(self, rng, v):
        return self.sample(rng)

    def symbolic(self, it, name, args):
        from . import symdom
        vals = [symdom.make(it, d, f'{name}.{i}', args) for i, d in enumerate(self.doms)]
        return it.call(self.maker(), vals, {})

    def member(self, it, v):
        from .values import Obj
        return isinstance(v, Obj) and v.cls is self.klass()

    def from_model(self, m, name, args):
        from . import symdom
        return self.build([symdom.from_model(d, m, f'{name}.{i}', args) for i, d in enumerate(self.doms)])


class Point(Dom):
    """A libsecp256k1 public key structure (any valid one)."""
    def __init__(self, hint=None):
        self.hint = hint

    @staticmethod
    def native(d):
        from electrumsv_secp256k1 import ffi, lib
        from bitcoinx.misc import CONTEXT
        pk = ffi.new('secp256k1_pubkey *')
        assert lib.secp256k1_ec_pubkey_create(CONTEXT, pk, d.to_bytes(32, 'big'))
        return pk

    def sample(self, rng, depth=0):
        return self.native(SECRET.sample(rng))

    def contains(self, v):
        return repr(v).startswith("<cdata 'secp256k1_pubkey *'")

    def mutate(self, rng, v):
        return self.sample(rng)

    def symbolic(self, it, name, args):
        from . import symdom, secp
        return it.box(secp.CData('secp256k1_pubkey *', symdom.make(it, SECRET, name, args)))

    def member(self, it, v):
        from . import secp
        return isinstance(v, secp.CData) and v.ctype == 'secp256k1_pubkey *' and v.val is not None

    def from_model(self, m, name, args):
        from . import symdom
        return self.native(symdom.from_model(SECRET, m, name, args))


CURVE_N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
SECRET = Int(1, CURVE_N - 1, edges=(1, 2, 3, CURVE_N - 1, CURVE_N - 2, CURVE_N // 2, CURVE_N // 2 + 1))


class NativeStream:
    """A byte stream; .read behaves as BytesIO(data).read."""
    def __init__(self, data):
        self.data, self.pos = bytes(data), 0

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.pos
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def __repr__(self):
        return f'Stream({self.data!r:.200}, pos={self.pos})'

    def __eq__(self, o):
        return isinstance(o, NativeStream) and (self.data, self.pos) == (o.data, o.pos)


class Stream(Dom):
    def __init__(self, dom=None):
        self.dom = dom or Bytes(smax=400)

    def sample(self, rng, depth=0):
        return NativeStream(self.dom.sample(rng, depth))


class Sampled(Dom):
    """Domain known only through a sampler (bounded stand-ins)."""
    def __init__(self, fn):
        self.fn = fn

    def sample(self, rng, depth=0):
        return self.fn(rng)


def resolve(path):
    """'packing.pack_varint' or 'tx.Tx.read' -> object of the code under verification."""
    parts = path.split('.')
    mod = importlib.import_module('bitcoinx.' + parts[0])
    o = mod
    for p in parts[1:]:
        o = getattr(o, p)
    return o


def resolve_raw(path):
    """Like resolve, but without binding (classmethod objects are unwrapped)."""
    parts = path.split('.')
    mod = importlib.import_module('bitcoinx.' + parts[0])
    if len(parts) == 2:
        return getattr(mod, parts[1])
    c = getattr(mod, parts[1])
    for k in c.__mro__:
        if parts[2] in vars(k):
            return vars(k)[parts[2]]
    raise AttributeError(path)


# ---------------------------------------------------------------- registration
def _props(p):
    return p.split() if isinstance(p, str) else list(p)


def contract(target, props, /, mode='proof', stub=True, name=None, loops=None, samples=None,
             view=None, seeds=(), timeout=None, raises_only=False, split=None, **domains):
    """Contract of one function: spec is the decorated pure function with the same parameters.

    mode 'proof': the verifier must discharge it for the whole domain; 'bounded': run natively
    on samples only (stated as bounded, never counted as proved).
    """
    def deco(spec):
        n = name or target
        REGISTRY[n] = Item(kind='contract', name=n, target=target, props=_props(props), mode=mode,
                           stub=stub, spec=spec, domains=domains, loops=loops or [],
                           samples=samples, module=spec.__module__, view=view, seeds=seeds,
                           timeout=timeout, raises_only=raises_only, split=split)
        spec.__contract__ = n
        return spec
    return deco


def driver(props, /, mode='proof', name=None, samples=None, seeds=(), loops=None, timeout=None,
           uses=None, raises_only=False, split=None, **domains):
    """A property stated over the contracts: the decorated function runs code under
    verification and states obligations with check / check_same."""
    def deco(fn):
        n = name or fn.__name__
        REGISTRY[n] = Item(kind='driver', name=n, target=None, props=_props(props), mode=mode,
                           stub=False, spec=fn, domains=domains, loops=loops or [],
                           samples=samples, module=fn.__module__, seeds=seeds, view=None,
                           timeout=timeout, uses=uses, raises_only=raises_only, split=split)
        return fn
    return deco


LOOPS = {}


def call_shape(fn, names):
    """(positional, keyword-only) argument names of fn among names (given in call order)."""
    try:
        f = inspect.unwrap(getattr(fn, '__func__', fn))
        kwo = {p.name for p in inspect.signature(f).parameters.values() if p.kind is p.KEYWORD_ONLY}
    except (TypeError, ValueError):
        kwo = set()
    return [n for n in names if n not in kwo], [n for n in names if n in kwo]


def native_run(item, args):
    """Run one contract or driver natively on args (dict).  Raises Violation."""
    if item.kind in ('driver', 'ghost'):
        item.spec(**args)
        return
    if item.kind == 'lemma':
        Lemma(item.spec, item)(*args.values())
        return
    target = resolve(item.target)
    a1 = copy.deepcopy(args) if not getattr(item, 'nocopy', False) else args
    a2 = copy.deepcopy(args)

    def call(f, a):
        pos, kw = call_shape(f, list(a))
        v = {k: x.read if isinstance(x, NativeStream) else x for k, x in a.items()}
        return f(*[v[k] for k in pos], **{k: v[k] for k in kw})

    s = settled(outcome(lambda: call(item.spec, a2)))
    t = settled(outcome(lambda: call(target, a1)))
    if item.view and s[0] == 'ok' and t[0] == 'ok':
        t = (t[0], item.view(t[1]))
        s = (s[0], item.view(s[1]))
    if not same_outcome(t, s):
        raise Violation(f'{item.target}: code gives {t!r:.300}, contract requires {s!r:.300}')
    if s[0] == 'ok':
        for k in args:
            if not same_value(a1[k], a2[k]):
                raise Violation(f'{item.target}: argument {k} afterwards is {a1[k]!r:.200}, '
                                f'contract requires {a2[k]!r:.200}')


# ---------------------------------------------------------------- machines (loop specifications)
class Machine:
    """A state machine used as a loop specification.

    ctx:   names of constant context values;  state: dict name -> Dom;
    done(ctx..., state...) -> bool;  step(ctx..., state...) -> tuple of the next state
    (or raises);  scan: (data, position, output) names when the machine reads data from a position
    on, appending to output;  inv(ctx..., state...) -> bool;  variant(ctx..., state...) -> int >= 0
    decreasing at each step.
    """
    def __init__(self, name, ctx, state, done, step, inv=None, variant=None, raises=(), bind=None,
                 unroll=True, scan=None, hint=None, sim=None, over=None):
        self.name, self.ctx, self.state = name, tuple(ctx), dict(state)
        self.done, self.step, self.inv, self.variant = done, step, inv, variant
        self.raises, self.bind, self.unroll, self.scan = tuple(raises), dict(bind or {}), unroll, scan
        self.over = over              # domain of the sequence looped over, when the loop is to be proved for all of it
        self.sim = sim                # unfoldings to use when a loop body is compared with a step
        self.hint = hint              # unfoldings and lemmas to use at a state, before anything else
        self.module = step.__module__
        LOOPS[name] = self
        self.base = None

    def stronger(self, name, inv, hint=None):
        """The same machine with a stronger invariant, for use where it is needed."""
        m = Machine(name, self.ctx, self.state, self.done, self.step, inv, self.variant, self.raises, {},
                    self.unroll, None, hint, None, self.over)
        m.base = self
        m.module = self.module
        return m


SYMBOLIC = {}


def in_proofs(native):
    """In proofs the decorated function is used for the native one (a part of the driver's own
    machinery, as a simulated file)."""
    def wrap(fn):
        SYMBOLIC[native] = fn
        return fn
    return wrap


def run_machine(m, ctx, state):
    ctx, state = tuple(ctx), tuple(state)
    while not m.done(*ctx, *state):
        state = m.step(*ctx, *state)
    return state


def run_machine_exc(m, ctx, state):
    """(exception class or None, last state): like run_machine, keeping the state before an
    error."""
    ctx, state = tuple(ctx), tuple(state)
    try:
        while not m.done(*ctx, *state):
            state = m.step(*ctx, *state)
    except (Skip, Violation):
        raise
    except Exception as e:
        return type(e), state
    return None, state


def collect(gen):
    """(exception class or None, tuple of the items yielded before it)."""
    out = []
    try:
        for x in gen:
            out.append(x)
    except (Skip, Violation):
        raise
    except Exception as e:
        return type(e), tuple(out)
    return None, tuple(out)


def settled(o):
    if o[0] == 'ok' and inspect.isgenerator(o[1]):
        return ('ok', collect(o[1]))
    return o


# ---------------------------------------------------------------- ghost functions and lemmas
class Ghost:
    """A recursive mathematical function.  Symbolically a call is opaque (equal arguments, equal
    results); unfold(g, *args) gives its definition at args.  The item proves that the body stays
    within the domains and that recursive calls decrease."""
    def __init__(self, fn, item):
        self.fn, self.item, self.name = fn, item, item.name

    def __call__(self, *args):
        return self.fn(*args)


class Lemma:
    """ensures(args) for all args of the domains, proved by running the body (calls of lemmas,
    unfold); a call of itself must decrease the measure."""
    def __init__(self, fn, item):
        self.fn, self.item, self.name = fn, item, item.name

    def __call__(self, *args):
        if not self.item.requires(*args):
            raise Skip()
        if not self.item.ensures(*args):
            raise Violation(f'lemma {self.name}{args!r:.300}')
        for g, a, v in self.item.rewrites(*args) if self.item.rewrites else ():
            if g(*a) != v:
                raise Violation(f'lemma {self.name}{args!r:.300}')


def _register(kind, fn, props, name, domains, **kw):
    n = name or fn.__name__
    it = Item(kind=kind, name=n, target=None, props=_props(props), mode='proof', stub=False, spec=fn,
              domains=domains, loops=[], samples=None, module=fn.__module__, seeds=(), view=None,
              timeout=None, raises_only=False, order=len(REGISTRY), **kw)
    REGISTRY[n] = it
    return it


def ghost(props, /, result=None, decreases=None, name=None, **domains):
    def deco(fn):
        return Ghost(fn, _register('ghost', fn, props, name, domains, result=result, decreases=decreases))
    return deco


def lemma(props, /, requires=None, ensures=None, decreases=None, rewrites=None, name=None, split=None, **domains):
    """rewrites(args) -> [(ghost, args, value)]: equations that become definitions where the lemma is used."""
    def deco(fn):
        return Lemma(fn, _register('lemma', fn, props, name, domains, ensures=ensures or (lambda *a: True),
                                   requires=requires or (lambda *a: True),
                                   decreases=decreases, rewrites=rewrites, split=split))
    return deco


def unfold(g, *args):
    """The definition of the ghost function at args may be used (natively nothing)."""
    return True


def random_source(data, f):
    """f() when the next call of os.urandom, for as many bytes as data has, gives data."""
    import os
    import bitcoinx.mnemonic as m
    saved = os.urandom, m.urandom
    given = []

    def urandom(n):
        if given or n != len(data):
            return saved[0](n)
        given.append(n)
        return data
    os.urandom = m.urandom = urandom
    try:
        return f()
    finally:
        os.urandom, m.urandom = saved


# ------------------------------------------------------------------ words
def word_list(n, kind=0):
    """A list of n different normal words (lower case, NFKD, no white space).  kind: which (native runs only)."""
    key = (n, kind)
    if key not in _WORD_LISTS and kind == 6:
        # hexadecimal digits: every eighth word has two, the others have four
        _WORD_LISTS[key] = [f'{i // 8 % 256:02x}' if i % 8 == 0 and i < 2048 else f'{i + 20000:04x}' for i in range(n)]
    if key not in _WORD_LISTS:
        rng = random.Random(n * 7 + kind)
        pieces = (('ba', 'ce', 'di', 'fo', 'gu', 'ad', 'be', 'fa'), ('e\u0301', 'a', 'n\u0303o', '\u30ab', '\u03b2'),
                  ('zz', '0', '7', '-', '_', "'"))[kind % 3]
        out = {}
        while len(out) < n:
            out[''.join(rng.choice(pieces) for _ in range(rng.randint(1, 9)))] = None
        _WORD_LISTS[key] = list(out)
    return list(_WORD_LISTS[key])


_WORD_LISTS = {}


def word_of(words, k):
    """Word number k of the list, or for k < 0 a text that is none of its words."""
    if k >= 0:
        return words[k]
    t = f'q{-k}q'
    while t in words:
        t += 'x'
    return t


def typed(words, how=0, *pending):
    """A text as typed by a user: the words, white space, and what is not normal (pending; by default any)."""
    import unicodedata
    rng = random.Random(repr((words, how)))
    if how % 3 == 0:
        return ' '.join(words)
    gap = lambda lo: ''.join(rng.choice(SPACES if rng.random() < .2 else ' ') for _ in range(max(lo, rng.choice((0, 0, 1, 2)))))
    out = []
    for w in words:
        if not pending or 'lower' in pending:
            u = w.upper() if rng.random() < .5 else w.title()
            if unicodedata.normalize('NFKD', u).lower() == w:
                w = u
        if not pending or 'NFKD' in pending:
            w = unicodedata.normalize('NFC', w)
        out.append(w)
    return gap(0) + gap(1).join(out) + gap(0)
