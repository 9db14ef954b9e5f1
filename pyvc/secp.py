"""Model of libsecp256k1 (electrumsv_secp256k1) and base64: trusted library contracts.

Every point other than infinity is d*G for one d in [1, N-1] (the group has prime order N); a public key is represented
by that d.  The coordinate functions x(d), y(d) are uninterpreted; parsing a compressed point inverts them.  Products
modulo N are an uninterpreted commutative function without zero divisors.  ECDSA is a pair of uninterpreted signing
and verifying functions with the standard relations between them."""
import base64
import binascii
import z3

from . import values as V
from .core import st, Unsupported
from .models import model, bytes_arg, eq_quick, nat, MISSING, uf_bytes
from .ops import raise_
from .values import Model, SInt, Seq, I, T, TB, to_seq, norm_seq, force, kind_of, is_intlike

try:
    from electrumsv_secp256k1 import ffi, lib
except ImportError:                     # pragma: no cover
    ffi = lib = None

N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
P = (1 << 256) - (1 << 32) - 977

Z = z3.IntSort()
FX = z3.Function('secp_x', Z, Z)
FH = z3.Function('secp_yhalf', Z, Z)
FP = z3.Function('secp_ypar', Z, Z)
DLOG = z3.Function('secp_dlog', Z, Z, Z)
ONCURVE = z3.Function('secp_oncurve', Z, z3.BoolSort())
MUL = z3.Function('secp_mul', Z, Z, Z)
SIGR = z3.Function('ecdsa_r', Z, Z, Z)
SIGS = z3.Function('ecdsa_s', Z, Z, Z)
SIGV = z3.Function('ecdsa_recid', Z, Z, Z)
VER = z3.Function('ecdsa_verify', Z, Z, Z, Z, z3.BoolSort())
RECOK = z3.Function('ecdsa_recoverable', Z, Z, Z, Z, z3.BoolSort())
RECD = z3.Function('ecdsa_recover', Z, Z, Z, Z, Z)


def zi(t):
    return t if isinstance(t, z3.ExprRef) else z3.IntVal(t)


def once(key, fact):
    s = st()
    if key not in s.registry:
        s.registry[key] = True
        s.assume(fact())


def point_facts(d):
    d = zi(d)

    def fact():
        x, h, p = FX(d), FH(d), FP(d)
        return z3.And(0 <= x, x < P, 0 <= h, 0 <= p, p <= 1, 2 * h + p < P, DLOG(x, p) == d, ONCURVE(x))
    once(('secp_pt', d), fact)
    return FX(d), 2 * FH(d) + FP(d), FP(d)


def mulmod(a, b):
    a, b = zi(a), zi(b)
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.IntVal(a.as_long() * b.as_long() % N)
    if a.get_id() > b.get_id():
        a, b = b, a
    m = MUL(a, b)
    once(('secp_mul', m), lambda: z3.And(
        MUL(b, a) == m, z3.Implies(z3.And(a >= 1, a < N, b >= 1, b < N), z3.And(m >= 1, m < N))))
    return m


def addmod(a, b):
    a, b = zi(a), zi(b)
    return z3.simplify(z3.If(a + b >= N, a + b - N, a + b))


class CData:
    """A cffi object; val is its content: byte sequence, integer, point (d), or signature."""
    def __init__(self, ctype, val=None):
        self.ctype, self.val = ctype, val
        self.pyclass = type(ffi.NULL)

    def __repr__(self):
        return f'cdata({self.ctype}, {self.val})'

    def sym_repr(self, it):
        import re as _re
        m = _re.match(r'unsigned char ?\[(\d+)\]', self.ctype)
        if m:
            return f"<cdata 'unsigned char[{m[1]}]' owning {m[1]} bytes>"
        return f"<cdata '{self.ctype}' owning 64 bytes>"

    def sym_attr(self, it, name):
        return MISSING

    def sym_getitem(self, it, k):
        if k != 0:
            raise Unsupported('cdata index')
        if self.ctype in ('size_t *', 'int *'):
            return self.val
        return CDeref(self)

    def sym_same(self, o):
        if not isinstance(o, CData) or o.ctype != self.ctype:
            return False
        a, b = self.val, o.val
        if a is None or b is None:
            return a is b
        if isinstance(a, tuple):
            return len(a) == len(b) and all(V.prove_eq(I(T(x)), I(T(y))) for x, y in zip(a, b))
        return V.prove_eq(a, b)


class CDeref:
    def __init__(self, c):
        self.c = c
        self.pyclass = type(ffi.NULL)


def write(it, c, val):
    it.wrote(c)
    c.val = val


def is_array(ctype):
    import re as _re
    m = _re.match(r'unsigned char ?\[(\d+)\]$', ctype)
    return int(m[1]) if m else None


def ffi_new(it, a, kw):
    ctype = nat(a[0])
    if not isinstance(ctype, str):
        raise Unsupported('ffi.new of an unknown type')
    init = force(a[1]) if len(a) > 1 else None
    n = is_array(ctype)
    if n is not None:
        if init is None:
            return it.box(CData(ctype, bytes(n)))
        b = bytes_arg(it, init)
        m = to_seq(b).length()
        if not isinstance(m, int):
            m = st().concretize(m)
        if m > n + 1 or m > n:
            raise_(IndexError, 'initializer bytes is too long')
        return it.box(CData(ctype, norm_seq(V.seq_concat('bytes', [to_seq(b), to_seq(bytes(n - m))]))))
    if ctype in ('size_t *', 'int *'):
        return it.box(CData(ctype, 0 if init is None else init))
    if ctype in ('secp256k1_pubkey *', 'secp256k1_ecdsa_signature *', 'secp256k1_ecdsa_recoverable_signature *'):
        if init is None:
            return it.box(CData(ctype))
        if isinstance(init, CDeref) and init.c.ctype == ctype:
            return it.box(CData(ctype, init.c.val))
    raise Unsupported(f'ffi.new {ctype}')


def ffi_buffer(it, a, kw):
    c = force(a[0])
    if not isinstance(c, CData) or is_array(c.ctype) is None:
        raise Unsupported('ffi.buffer')
    if len(a) > 1:
        n = T(a[1])
        return norm_seq(V.seq_slice(to_seq(c.val), 0, n))
    return c.val


def ffi_attr(it, name):
    if name == 'new':
        return Model(ffi_new, 'ffi.new')
    if name == 'buffer':
        return Model(ffi_buffer, 'ffi.buffer')
    if name == 'NULL':
        return ffi.NULL
    raise Unsupported(f'ffi.{name}')


# ------------------------------------------------------------------ arguments
def cbytes(it, v, n):
    """A const unsigned char * argument of which n bytes are read."""
    v = force(v)
    if isinstance(v, CData):
        v = v.val
    elif kind_of(v) != 'bytes':
        raise_(TypeError, 'initializer for ctype unsigned char *')
    q = to_seq(v)
    m = q.length()
    if m is not n and not (isinstance(m, int) and isinstance(n, int) and m == n) and not V.teq(m, n):
        if isinstance(n, int) and st().entails(TB(m >= n)):
            return to_seq(norm_seq(V.seq_slice(q, 0, n)))
        raise Unsupported('a buffer that may be shorter than what is read')
    return q


def value(q):
    return zi(V.seq_value(to_seq(q), 'big'))


def enc(t, n=32):
    return norm_seq(Seq('bytes', [V.IntEnc(t, n, 'big')]))


def b01(cond):
    return 1 if st().branch(cond if isinstance(cond, (bool, z3.ExprRef)) else TB(cond)) else 0


def pub(c):
    c = force(c)
    if not isinstance(c, CData) or c.ctype != 'secp256k1_pubkey *':
        raise Unsupported('a public key pointer is needed')
    return c


def point(c):
    c = pub(c)
    if c.val is None:
        raise Unsupported('use of an uninitialised public key')
    return zi(T(c.val))


def in_group(t):
    return z3.And(t >= 1, t < N)


if lib is not None:
    @model(lib.secp256k1_ec_seckey_verify)
    def m_seckey_verify(it, a, kw):
        return b01(in_group(value(cbytes(it, a[1], 32))))

    @model(lib.secp256k1_ec_pubkey_create)
    def m_pubkey_create(it, a, kw):
        d = value(cbytes(it, a[2], 32))
        c = pub(a[1])
        if not b01(in_group(d)):
            write(it, c, None)
            return 0
        write(it, c, I(d))
        return 1

    @model(lib.secp256k1_ec_pubkey_serialize)
    def m_pubkey_serialize(it, a, kw):
        out, size, flag = force(a[1]), force(a[2]), force(a[4])
        d = point(a[3])
        n = 33 if flag == lib.SECP256K1_EC_COMPRESSED else 65 if flag == lib.SECP256K1_EC_UNCOMPRESSED else None
        if n is None or is_array(out.ctype) < n or not isinstance(size.val, int) or size.val < n:
            raise Unsupported('pubkey_serialize arguments')
        x, y, p = point_facts(d)
        head = [V.Elems([I(2 + p)]), V.IntEnc(x, 32, 'big')] if n == 33 else \
            [V.Elems([4]), V.IntEnc(x, 32, 'big'), V.IntEnc(z3.simplify(y), 32, 'big')]
        rest = to_seq(norm_seq(V.seq_slice(to_seq(out.val), n, is_array(out.ctype)))).segs if is_array(out.ctype) > n else ()
        write(it, out, norm_seq(Seq('bytes', head + list(rest))))
        write(it, size, n)
        return 1

    @model(lib.secp256k1_ec_pubkey_parse)
    def m_pubkey_parse(it, a, kw):
        s = st()
        c = pub(a[1])
        n = T(a[3])
        v = force(a[2])
        if kind_of(v) != 'bytes' and not isinstance(v, CData):
            raise_(TypeError, 'initializer for ctype unsigned char *')
        q = cbytes(it, a[2], n)
        if not isinstance(n, int):
            n = 33 if s.branch(TB(n == 33)) else 65 if s.branch(TB(n == 65)) else 0
            if n:
                q = to_seq(norm_seq(V.seq_slice(q, 0, n)))
        write(it, c, None)
        if n not in (33, 65):
            return 0
        h = T(V.seq_get(q, 0))
        x = value(norm_seq(V.seq_slice(q, 1, 33)))
        h = zi(h)
        if n == 33:
            if not s.branch(z3.Or(h == 2, h == 3)):
                return 0
            par = z3.simplify(h - 2)
        else:
            y = value(norm_seq(V.seq_slice(q, 33, 65)))
            if not s.branch(z3.Or(h == 4, h == 6, h == 7)):
                return 0
            par = y % 2
        d = z3.simplify(DLOG(x, par))
        on = z3.And(x < P, ONCURVE(x))
        if not s.branch(on):
            return 0
        once(('secp_on', d), lambda: z3.And(in_group(d), FX(d) == x, FP(d) == par))
        fx, fy, fp = point_facts(d)
        if n == 65:
            if not s.branch(z3.And(y == fy, z3.Or(h == 4, h == 6 + fp))):
                return 0
        write(it, c, I(d))
        return 1

    @model(lib.secp256k1_ec_privkey_tweak_add, lib.secp256k1_ec_privkey_tweak_mul)
    def m_bad_tweak(it, a, kw):
        raise Unsupported('tweak')

    def tweak_priv(fn):
        def run(it, a, kw):
            c = force(a[1])
            d = value(cbytes(it, c, 32))
            t = value(cbytes(it, a[2], 32))
            r = fn(d, t)
            if not isinstance(c, CData):
                raise Unsupported('tweak of a bytes object')
            if r is None:
                write(it, c, bytes(32))
                return 0
            write(it, c, enc(r))
            return 1
        return run

    def tweak_pub(fn):
        def run(it, a, kw):
            c = pub(a[1])
            d = point(c)
            t = value(cbytes(it, a[2], 32))
            r = fn(d, t)
            write(it, c, None if r is None else I(r))
            return 0 if r is None else 1
        return run

    def do_add(d, t):
        s = st()
        if not s.branch(t < N):
            return None
        r = addmod(d, t)
        return r if s.branch(r != 0) else None

    def do_mul(d, t):
        s = st()
        if not s.branch(in_group(t)):
            return None
        return mulmod(d, t)

    model(lib.secp256k1_ec_privkey_tweak_add)(tweak_priv(do_add))
    model(lib.secp256k1_ec_privkey_tweak_mul)(tweak_priv(do_mul))
    model(lib.secp256k1_ec_pubkey_tweak_add)(tweak_pub(do_add))
    model(lib.secp256k1_ec_pubkey_tweak_mul)(tweak_pub(do_mul))

    @model(lib.secp256k1_ec_pubkey_combine)
    def m_combine(it, a, kw):
        c = pub(a[1])
        q = to_seq(force(a[2]))
        n = q.length()
        if not V.teq(n, T(a[3])):
            raise Unsupported('combine count')
        total = point_sum(q)
        write(it, c, None)
        if not st().branch(zi(total) != 0):
            return 0
        write(it, c, I(total))
        return 1

    # -------------------------------------------------------------- ECDSA
    def sigc(c, kind='secp256k1_ecdsa_signature *'):
        c = force(c)
        if not isinstance(c, CData) or c.ctype != kind:
            raise Unsupported('a signature pointer is needed')
        return c

    REC = 'secp256k1_ecdsa_recoverable_signature *'

    def der_entry(pred):
        for e in st().registry.get('der', ()):
            if pred(e):
                return e
        return None

    @model(lib.secp256k1_ecdsa_signature_parse_der)
    def m_parse_der(it, a, kw):
        s = st()
        q = norm_seq(cbytes(it, a[2], T(a[3])))
        c = sigc(a[1])
        b = nat(q)
        if b is not MISSING:
            cd = ffi.new('secp256k1_ecdsa_signature *')
            from bitcoinx.misc import CONTEXT
            ok = lib.secp256k1_ecdsa_signature_parse_der(CONTEXT, cd, b, len(b))
            if not ok:
                write(it, c, (0, 0))
                return 0
            o = ffi.new('unsigned char [64]')
            lib.secp256k1_ecdsa_signature_serialize_compact(CONTEXT, o, cd)
            o = bytes(ffi.buffer(o))
            write(it, c, (int.from_bytes(o[:32], 'big'), int.from_bytes(o[32:], 'big')))
            return 1
        e = der_entry(lambda e: eq_quick(e[0], q))
        if e is None:
            n = to_seq(q).length()
            ok = s.branch(s.fresh_bool('der_ok'))
            r, ss = s.fresh_int('der_r'), s.fresh_int('der_s')
            if ok:
                s.assume(z3.And(0 <= r, r < N, 0 <= ss, ss < N, TB(n >= 6)))
                s.assume(zi(T(V.seq_get(to_seq(q), 0))) == 0x30)
            e = (q, r, ss, ok)
            s.registry['der'] = s.registry.get('der', ()) + (e,)
        write(it, c, (e[1], e[2]) if e[3] else (0, 0))
        return 1 if e[3] else 0

    @model(lib.secp256k1_ecdsa_signature_serialize_der)
    def m_serialize_der(it, a, kw):
        s = st()
        out, size = force(a[1]), force(a[2])
        r, ss = sigc(a[3]).val
        cap = is_array(out.ctype)
        if size.val != cap or cap < 72:
            raise Unsupported('DER buffer')
        q = der_bytes(r, ss)
        n = to_seq(q).length()
        write(it, size, I(n))
        pad = V.sym_bytes(s.fresh('pad'), z3.simplify(cap - n) if not isinstance(n, int) else cap - n)
        write(it, out, norm_seq(V.seq_concat('bytes', [to_seq(q), to_seq(pad)])))
        return 1

    def der_bytes(r, ss):
        s = st()
        for (x, y, q) in s.registry.get('derout', ()):
            if V.teq(x, r) and V.teq(y, ss):
                return q
        n = s.fresh_int('derlen')
        s.assume(z3.And(n >= 8, n <= 72))
        q = V.sym_bytes(s.fresh('der'), n)
        s.assume(zi(T(V.seq_get(q, 0))) == 0x30)
        s.registry['derout'] = s.registry.get('derout', ()) + ((r, ss, q),)
        s.registry['der'] = s.registry.get('der', ()) + ((q, zi(r), zi(ss), True),)
        return q

    @model(lib.secp256k1_ecdsa_signature_parse_compact)
    def m_parse_compact(it, a, kw):
        q = cbytes(it, a[2], 64)
        c = sigc(a[1])
        r, ss = value(norm_seq(V.seq_slice(q, 0, 32))), value(norm_seq(V.seq_slice(q, 32, 64)))
        if not b01(z3.And(r < N, ss < N)):
            write(it, c, (0, 0))
            return 0
        write(it, c, (r, ss))
        return 1

    @model(lib.secp256k1_ecdsa_signature_serialize_compact)
    def m_serialize_compact(it, a, kw):
        out = force(a[1])
        r, ss = sigc(a[2]).val
        if is_array(out.ctype) != 64:
            raise Unsupported('compact buffer')
        write(it, out, norm_seq(Seq('bytes', [V.IntEnc(r, 32, 'big'), V.IntEnc(ss, 32, 'big')])))
        return 1

    @model(lib.secp256k1_ecdsa_recoverable_signature_parse_compact)
    def m_rec_parse(it, a, kw):
        q = cbytes(it, a[2], 64)
        c = sigc(a[1], REC)
        v = zi(T(a[3]))
        if not st().entails(z3.And(v >= 0, v <= 3)):
            raise Unsupported('recovery id outside 0..3 aborts the process')
        r, ss = value(norm_seq(V.seq_slice(q, 0, 32))), value(norm_seq(V.seq_slice(q, 32, 64)))
        if not b01(z3.And(r < N, ss < N)):
            write(it, c, (0, 0, 0))
            return 0
        write(it, c, (r, ss, v))
        return 1

    @model(lib.secp256k1_ecdsa_recoverable_signature_serialize_compact)
    def m_rec_serialize(it, a, kw):
        out, rid = force(a[1]), force(a[2])
        r, ss, v = sigc(a[3], REC).val
        if is_array(out.ctype) != 64 or rid.ctype != 'int *':
            raise Unsupported('compact buffer')
        write(it, out, norm_seq(Seq('bytes', [V.IntEnc(r, 32, 'big'), V.IntEnc(ss, 32, 'big')])))
        write(it, rid, I(v))
        return 1

    @model(lib.secp256k1_ecdsa_recoverable_signature_convert)
    def m_rec_convert(it, a, kw):
        write(it, sigc(a[1]), sigc(a[2], REC).val[:2])
        return 1

    def signed(d, h):
        r, ss, v = SIGR(d, h), SIGS(d, h), SIGV(d, h)
        k = z3.Int('h?')
        once(('ecdsa', r), lambda: z3.And(
            r >= 1, r < N, ss >= 1, ss <= N // 2, v >= 0, v <= 3, VER(r, ss, h, d), RECOK(r, ss, v, h),
            RECD(r, ss, v, h) == d,
            z3.ForAll([k], z3.Implies(VER(r, ss, k, d), k == h), patterns=[VER(r, ss, k, d)])))
        return r, ss, v

    def sign(it, a, n):
        h = value(cbytes(it, a[2], 32))
        d = value(cbytes(it, a[3], 32))
        c = sigc(a[1], 'secp256k1_ecdsa_signature *' if n == 2 else REC)
        if not b01(in_group(d)):
            write(it, c, (0,) * n)
            return 0
        write(it, c, signed(d, h)[:n])
        return 1

    @model(lib.secp256k1_ecdsa_sign)
    def m_sign(it, a, kw):
        return sign(it, a, 2)

    @model(lib.secp256k1_ecdsa_sign_recoverable)
    def m_sign_rec(it, a, kw):
        return sign(it, a, 3)

    @model(lib.secp256k1_ecdsa_verify)
    def m_verify(it, a, kw):
        r, ss = sigc(a[1]).val
        h = value(cbytes(it, a[2], 32))
        return b01(VER(zi(r), zi(ss), h, point(a[3])))

    @model(lib.secp256k1_ecdsa_recover)
    def m_recover(it, a, kw):
        c = pub(a[1])
        r, ss, v = [zi(x) for x in sigc(a[2], REC).val]
        h = value(cbytes(it, a[3], 32))
        write(it, c, None)
        if not b01(RECOK(r, ss, v, h)):
            return 0
        d = RECD(r, ss, v, h)
        once(('ecdsarec', d), lambda: z3.And(in_group(d), r >= 1, ss >= 1, VER(r, ss, h, d) == (ss <= N // 2)))
        write(it, c, I(d))
        return 1


def point_sum(q):
    """Sum modulo N of the points of a sequence of public key pointers."""
    n = q.length()
    if isinstance(n, int):
        t = z3.IntVal(0)
        for k in range(n):
            t = addmod(t, point(V.seq_get(q, k)))
        return z3.simplify(t)
    s = st()
    known = s.registry.get('point_sums', ())
    for q2, t in known:
        if V.teq(q2.length(), n) and V.forall_index(n, lambda i: s.entails(point(V.seq_get(q, i)) == point(V.seq_get(q2, i)))):
            return t
    for q2, t2 in known:
        n2 = zi(q2.length())
        if s.entails(zi(n) == n2 + 1) and V.forall_index(
                q2.length(), lambda i: s.entails(point(V.seq_get(q, i)) == point(V.seq_get(q2, i)))):
            return addmod(t2, point(V.seq_get(q, V.tsub(n, 1))))
    t = s.fresh_int('psum')
    s.assume(z3.And(t >= 0, t < N))
    s.registry['point_sums'] = tuple(known) + ((q, t),)
    return t


# ------------------------------------------------------------------ base64
def b64_entry(name, q):
    for (k, v) in st().registry.get(name, ()):
        if eq_quick(k, q):
            return v
    return None


@model(base64.b64encode)
def m_b64encode(it, a, kw):
    if len(a) != 1 or kw:
        raise Unsupported('b64encode arguments')
    q = bytes_arg(it, a[0])
    b = nat(q)
    if b is not MISSING:
        return base64.b64encode(b)
    return to_seq(b64_text(q)).with_kind('bytes')


def b64_text(q):
    s = st()
    v = b64_entry('b64enc', q)
    if v is not None:
        return v
    n = s.fresh_int('b64len')
    m = to_seq(q).length()
    s.assume(z3.And(n >= 0, n % 4 == 0, TB(n * 3 >= m * 4), TB(n * 3 <= m * 4 + 8)))
    t = V.bytes_atom(s.fresh('b64'), n, (), 43, 123, 'str')
    v = Seq('str', [V.Sub(t, 0, n)])
    s.registry['b64enc'] = s.registry.get('b64enc', ()) + ((q, v),)
    s.registry['b64dec'] = s.registry.get('b64dec', ()) + ((v, q),)
    return v


@model(base64.b64decode)
def m_b64decode(it, a, kw):
    s = st()
    kw = dict(kw)
    validate = kw.pop('validate', a[2] if len(a) > 2 else False)
    if kw or len(a) > 3 or len(a) > 1 and a[1] is not None:
        raise Unsupported('b64decode arguments')
    v = force(a[0])
    b = nat(v)
    if b is not MISSING:
        try:
            return base64.b64decode(b, validate=validate)
        except Exception as e:
            raise_(type(e), *e.args)
    q = to_seq(v)
    if q.kind not in ('str', 'bytes'):
        raise Unsupported('b64decode of ' + q.kind)
    q = q.with_kind('str')
    r = b64_entry('b64dec', q)
    if r is None:
        name = 'b64dec' if validate is True else 'b64lax'
        r = b64_entry(name, q)
        if r is None:
            if s.branch(s.fresh_bool('b64ok')):
                n = s.fresh_int('b64n')
                s.assume(z3.And(n >= 0, TB(n * 4 <= q.length() * 3)))
                r = V.sym_bytes(s.fresh('b64val'), n)
            else:
                r = 'bad'
            s.registry[name] = s.registry.get(name, ()) + ((q, r),)
    if isinstance(r, str):
        if kind_of(v) == 'str' and s.branch(s.fresh_bool('nonascii')):
            raise_(ValueError, 'string argument should contain only ASCII characters')
        raise_(binascii.Error, 'invalid base64')
    return r
