"""C13 cash addresses."""
from bitcoinx import cashaddr
from pyvc.api import *

CHARSET = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
GENERATOR = (0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470)


@ghost('C13', result=Int(0, (1 << 40) - 1), c=Int(0, (1 << 40) - 1), d=Int(0, 31))
def bch_next(c, d):
    """c * x + d modulo the generator polynomial over GF(32)."""
    top = c >> 35
    c = ((c & 0x07ffffffff) << 5) ^ d
    for k in range(5):
        if (top >> k) & 1:
            c ^= GENERATOR[k]
    return c


BCH = Machine('cash address checksum', ['values'], {'i': Int(0), 'c': Int(0, (1 << 40) - 1)},
              bind={'values': '$iter', 'i': '$i'}, over=Bytes(top=32),
              done=lambda values, i, c: i >= len(values),
              step=lambda values, i, c: (i + 1, bch_next(c, values[i])),
              inv=lambda values, i, c: i <= len(values),
              sim=lambda values, i, c: unfold(bch_next, c, values[i]),
              variant=lambda values, i, c: len(values) - i)


@ghost('C13', result=Int(0), decreases=lambda b: len(b), b=Bytes(smax=100))
def number32(b):
    """The number with these base-32 digits."""
    return 0 if b == b'' else number32(b[:-1]) * 32 + b[-1]


@ghost('C13', result=Int(0), decreases=lambda b: len(b), b=Bytes(smax=100))
def number256(b):
    """The number with these base-256 digits."""
    return 0 if b == b'' else number256(b[:-1]) * 256 + b[-1]


def same_number(data, i, acc, bits, ret):
    """ret and the bits not yet used have the digits of data[:i]."""
    return number256(ret) * (1 << bits) + acc % (1 << bits) == number32(data[:i])


def regroup_step(data, i, acc, bits, ret):
    acc = (acc * 32 + data[i]) % 4096
    bits = bits + 5
    if bits >= 8:
        bits = bits - 8
        ret = ret + bytes([(acc >> bits) % 256])
    return i + 1, acc, bits, ret


REGROUP = Machine('cash address regrouping', ['data'],
                  {'i': Int(0), 'acc': Int(0, 4095), 'bits': Int(0, 7), 'ret': Bytes()},
                  bind={'data': '$iter', 'i': '$i'}, over=Bytes(top=32),
                  done=lambda data, i, acc, bits, ret: i >= len(data), step=regroup_step,
                  inv=lambda data, i, acc, bits, ret: i <= len(data) and bits == i * 5 % 8 and len(ret) == i * 5 // 8,
                  variant=lambda data, i, acc, bits, ret: len(data) - i)


KEEP_BITS = REGROUP.stronger('cash address regrouping keeps the bits',
                             lambda data, i, acc, bits, ret: (
                                 i <= len(data) and bits == i * 5 % 8 and len(ret) == i * 5 // 8
                                 and same_number(data, i, acc, bits, ret)),
                             hint=lambda data, i, acc, bits, ret: (
                                 i <= len(data) and unfold(number32, data[:i]) and unfold(number256, ret)))


def bch(prefix, data):
    """The BCH polynomial over prefix and data."""
    values = bytes([ord(c) & 31 for c in prefix]) + b'\0' + data
    return run_machine(BCH, (values,), (0, 1))[1] ^ 1


def spec_decode(address):
    if any(ord(c) > 126 for c in address):
        raise ValueError
    lower = address.lower()
    if lower != address and address.upper() != address:
        raise ValueError
    parts = lower.split(':', 1)
    if len(parts) != 2:
        raise ValueError
    prefix, payload = parts
    if prefix == '' or not all(33 <= ord(c) for c in prefix):
        raise ValueError
    if not 8 <= len(payload) <= 124 or not all(c in CHARSET for c in payload):
        raise ValueError
    data = bytes([CHARSET.index(c) for c in payload])
    if bch(prefix, data) != 0:
        raise ValueError
    data = data[:-8]
    extra = len(data) * 5 % 8
    if data == b'' or extra >= 5 or data[-1] % (1 << extra) != 0:
        raise ValueError
    ret = run_machine(REGROUP, (data,), (0, 0, 0, b''))[3]
    size = 20 + 4 * (ret[0] % 4)
    if ret[0] // 4 % 2 == 1:
        size = size * 2
    if len(ret) != 1 + size or ret[0] // 8 > 1:
        raise ValueError
    return prefix if lower == address else prefix.upper(), ret[0] // 8, ret[1:]


def make_address(rng, prefix, kind, h, pad=0, size=None):
    size = {20: 0, 24: 1, 28: 2, 32: 3, 40: 4, 48: 5, 56: 6, 64: 7}.get(len(h), 0) if size is None else size
    raw = bytes([(kind * 8 + size) & 255]) + h
    n = (len(raw) * 8 + 4) // 5
    v = (int.from_bytes(raw, 'big') << (n * 5 - len(raw) * 8)) | pad
    data = bytes((v >> 5 * (n - 1 - i)) & 31 for i in range(n))
    c = bch(prefix.lower(), data + bytes(8))
    return prefix + ':' + ''.join(CHARSET[d] for d in data) + ''.join(CHARSET[(c >> 5 * (7 - i)) & 31] for i in range(8))


def address_hint(rng, prefixes=('bitcoincash', 'bchtest', 'bchreg', 'a', '!', '1', 'p:q', '', 'x y', 'kx')):
    prefix = rng.choice(prefixes) if rng.random() < .3 else rng.choice(prefixes[:2])
    h = rng.randbytes(rng.choice((20, 20, 20, 24, 28, 32, 40, 48, 56, 64, 0, 19, 21, 36)))
    kind = rng.choice((0, 0, 1, 1, 2, 3, 15, 16))
    pad = rng.choice((0, 0, 0, 0, 1))
    size = rng.choice((None, None, None, None, 0, 3, 4))
    t = make_address(rng, prefix, kind, h, pad, size)
    r = rng.random()
    if r < .15:
        t = t.upper()
    elif r < .2:
        i = rng.randrange(len(t))
        t = t[:i] + t[i].upper() + t[i + 1:]
    elif r < .35:
        i = rng.randrange(len(t))
        t = t[:i] + rng.choice(CHARSET + 'bio1 :\u212a\u0130\x7f~é') + t[i + 1:]
    elif r < .4:
        t = t.replace('k', '\u212a')
    elif r < .45:
        t = t[t.index(':') + 1:]
    elif r < .5:
        n = rng.randrange(4)
        p = bytes(rng.randrange(32) for _ in range(n))
        c = bch(prefix.lower(), p + bytes(8))
        t = prefix + ':' + ''.join(CHARSET[d] for d in p) + ''.join(CHARSET[(c >> 5 * (7 - i)) & 31] for i in range(8))
    return t


@ghost('C13', result=Opt(TupleOf(Str(), Int(0, 1), Bytes())), address=Str(hint=address_hint))
def meaning(address):
    """(prefix, kind, hash) of a well-formed address, else None."""
    try:
        return spec_decode(address)
    except ValueError:
        return None


@contract('cashaddr.decode', 'C13 C12', timeout=400, address=Str(hint=address_hint))
def c_decode(address):
    unfold(meaning, address)
    m = meaning(address)
    if m is None:
        raise ValueError
    return m


@driver('C13', address=AnyOf(Const(None), Bytes(), Int(), Const(['a'])))
def address_text_needed(address):
    check(exc_of(lambda: cashaddr.decode(address)) is TypeError)


@driver('C13', data=Bytes(top=32, smax=120))
def regrouping_keeps_bits(data):
    """The bytes regrouped from 5-bit groups have exactly the bits of the groups."""
    i, acc, bits, ret = run_machine(REGROUP, (data,), (0, 0, 0, b''))
    check(run_machine(KEEP_BITS, (data,), (0, 0, 0, b'')) == (i, acc, bits, ret))
    check(len(ret) * 8 + bits == len(data) * 5 and bits < 8)
    check(number256(ret) * (1 << bits) + acc % (1 << bits) == number32(data))
