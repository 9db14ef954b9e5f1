"""Base58 and Base58Check."""
from hashlib import sha256
from pyvc.api import (Padded, lead, contract, driver, ghost, lemma, unfold, Machine, check, check_same, require, exc_of, outcome, Int, Bytes, Str,
                      OneOf, Const, AnyOf)
from bitcoinx import base58
from bitcoinx.base58 import Base58Error

CHARS = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
DIGIT = {c: n for n, c in enumerate(CHARS)}


@ghost('C11', result=Int(0), decreases=lambda s: len(s), s=Str(CHARS))
def number(s):
    """The number a digit string denotes."""
    if s == '':
        return 0
    return number(s[:-1]) * 58 + DIGIT[s[-1]]


@ghost('C11', result=Str(CHARS), decreases=lambda v: v, v=Int(0))
def digits(v):
    """The shortest digit string of a number (empty for zero)."""
    if v == 0:
        return ''
    return digits(v // 58) + CHARS[v % 58]


@ghost('C11', result=Int(0), decreases=lambda s: len(s), s=Str(CHARS))
def ones(s):
    """The number of leading '1'."""
    if s == '' or s[0] != '1':
        return 0
    return 1 + ones(s[1:])


@ghost('C11', result=Int(0), decreases=lambda b: len(b), b=Bytes(smax=200))
def zeros(b):
    """The number of leading zero bytes."""
    if b == b'' or b[0] != 0:
        return 0
    return 1 + zeros(b[1:])


@lemma('C11', ensures=lambda v: number(digits(v)) == v, decreases=lambda v: v, v=Int(0))
def number_of_digits(v):
    unfold(digits, v)
    if v != 0:
        number_of_digits(v // 58)
        unfold(number, digits(v))
    else:
        unfold(number, '')


@lemma('C11', requires=lambda s: s == '' or s[0] != '1', rewrites=lambda s: [(digits, (number(s),), s)], decreases=lambda s: len(s),
       s=Str(CHARS))
def digits_of_number(s):
    unfold(number, s)
    if s != '':
        digits_of_number(s[:-1])
    unfold(digits, number(s))


@lemma('C11', ensures=lambda z, s: number('1' * z + s) == number(s), decreases=lambda z, s: z + len(s),
       z=Int(0, shi=200), s=Str(CHARS))
def number_after_ones(z, s):
    t = '1' * z + s
    unfold(number, t)
    unfold(number, s)
    if s != '':
        number_after_ones(z, s[:-1])
    elif z > 0:
        number_after_ones(z - 1, s)


@lemma('C11', ensures=lambda z, s: ones('1' * z + s) == z + ones(s), decreases=lambda z, s: z, z=Int(0, shi=200), s=Str(CHARS))
def ones_after_ones(z, s):
    unfold(ones, '1' * z + s)
    if z > 0:
        ones_after_ones(z - 1, s)


@lemma('C11', ensures=lambda z, b: zeros(bytes(z) + b) == z + zeros(b), decreases=lambda z, b: z, z=Int(0, shi=200), b=Bytes(smax=200))
def zeros_after_zeros(z, b):
    unfold(zeros, bytes(z) + b)
    if z > 0:
        zeros_after_zeros(z - 1, b)


def be(v):
    """The shortest big-endian encoding (empty for zero)."""
    return v.to_bytes((v.bit_length() + 7) // 8, 'big')


@lemma('C11', requires=lambda v: v > 0, ensures=lambda v: digits(v) != '' and digits(v)[0] != '1',
       decreases=lambda v: v, v=Int(0))
def no_leading_one(v):
    unfold(digits, v)
    if v >= 58:
        no_leading_one(v // 58)
    else:
        unfold(digits, v // 58)


@lemma('C11', requires=lambda s: s != '' and s[0] != '1', ensures=lambda s: number(s) > 0,
       decreases=lambda s: len(s), s=Str(CHARS))
def positive_number(s):
    unfold(number, s)
    if len(s) > 1:
        positive_number(s[:-1])


@ghost('C11', result=Str(CHARS), b=Bytes(smax=200))
def encoding(b):
    return '1' * zeros(b) + digits(int.from_bytes(b, 'big'))


@ghost('C11', result=Bytes(), s=Str(CHARS))
def decoding(s):
    return bytes(ones(s)) + be(number(s))


@lemma('C11', rewrites=lambda b: [(decoding, (encoding(b),), b)], b=Padded(0, Bytes(smax=200)))
def decoding_of_encoding(b):
    z = lead(b, 0)
    r = b[z:]
    v = int.from_bytes(r, 'big')
    zeros_after_zeros(z, r)
    unfold(zeros, r)
    unfold(digits, v)
    number_of_digits(v)
    if v > 0:
        no_leading_one(v)
    unfold(ones, digits(v))
    number_after_ones(z, digits(v))
    ones_after_ones(z, digits(v))
    unfold(encoding, b)
    unfold(decoding, encoding(b))


@lemma('C11', rewrites=lambda s: [(encoding, (decoding(s),), s)], s=Padded('1', Str(CHARS)))
def encoding_of_decoding(s):
    z = lead(s, '1')
    r = s[z:]
    ones_after_ones(z, r)
    unfold(ones, r)
    number_after_ones(z, r)
    digits_of_number(r)
    if r == '':
        unfold(digits, number(s))
    else:
        positive_number(r)
    unfold(decoding, s)
    b = be(number(r))
    zeros_after_zeros(z, b)
    unfold(zeros, b)
    unfold(encoding, decoding(s))


LEADING_ONES = Machine('base58 leading ones', ['txt'], {'i': Int(0), 'count': Int(0)}, bind={'txt': '$iter', 'i': '$i'},
                       done=lambda txt, i, count: i >= len(txt) or txt[i] != '1',
                       step=lambda txt, i, count: (i + 1, count + 1),
                       inv=lambda txt, i, count: i <= len(txt) and count == i and count + ones(txt[i:]) == ones(txt),
                       hint=lambda txt, i, count: i > len(txt) or unfold(ones, txt[i:]),
                       variant=lambda txt, i, count: len(txt) - i)


LEADING_ZEROS = Machine('base58 leading zeros', ['data', 'txt0'], {'i': Int(0), 'txt': Str(CHARS)},
                        bind={'data': '$iter', 'i': '$i', 'txt0': 'txt'},
                        done=lambda data, txt0, i, txt: i >= len(data) or data[i] != 0,
                        step=lambda data, txt0, i, txt: (i + 1, txt + '1'),
                        inv=lambda data, txt0, i, txt: i <= len(data) and i + zeros(data[i:]) == zeros(data) and
                        txt == txt0 + '1' * i,
                        hint=lambda data, txt0, i, txt: i > len(data) or unfold(zeros, data[i:]),
                        variant=lambda data, txt0, i, txt: len(data) - i)


ENCODE = Machine('base58 encoding', ['v0'], {'value': Int(0), 'txt': Str(CHARS)}, bind={'v0': 'value'},
                 done=lambda v0, value, txt: value == 0,
                 step=lambda v0, value, txt: (value // 58, txt + CHARS[value % 58]),
                 inv=lambda v0, value, txt: digits(value) + txt[::-1] == digits(v0),
                 hint=lambda v0, value, txt: unfold(digits, value),
                 variant=lambda v0, value, txt: value)


def decode_step(txt, i, value):
    if txt[i] not in DIGIT:
        raise TypeError
    unfold(number, txt[:i + 1])
    return i + 1, value * 58 + DIGIT[txt[i]]


DECODE = Machine('base58 decoding', ['txt'], {'i': Int(0), 'value': Int(0)}, bind={'txt': '$iter', 'i': '$i'},
                 done=lambda txt, i, value: i >= len(txt),
                 step=decode_step, raises=(TypeError,),
                 inv=lambda txt, i, value: i <= len(txt) and all(c in DIGIT for c in txt[:i]) and
                 value == number(txt[:i]),
                 variant=lambda txt, i, value: len(txt) - i)


@contract('base58.base58_encode', 'C11', be_bytes=Bytes(smax=120))
def c_base58_encode(be_bytes):
    unfold(encoding, be_bytes)
    unfold(digits, int.from_bytes(be_bytes, 'big'))
    return encoding(be_bytes)


def text_hint(rng):
    t = ''.join(rng.choice(CHARS) for _ in range(rng.choice((1, 2, 5, 20, 34, 51))))
    return '1' * rng.choice((0, 0, 1, 3)) + t


@contract('base58.base58_decode', 'C11', txt=Str(hint=text_hint))
def c_base58_decode(txt):
    if txt == '' or not all(c in DIGIT for c in txt):
        raise Base58Error
    unfold(decoding, txt)
    return decoding(txt)


@driver('C11', name='base58: text needed', txt=AnyOf(Const(None), Bytes(), Int()))
def d_text_needed(txt):
    check(exc_of(lambda: base58.base58_decode(txt)) is TypeError)


@lemma('C11', requires=lambda b: b != b'', ensures=lambda b: encoding(b) != '', b=Padded(0, Bytes(smax=200)))
def encoding_not_empty(b):
    z = lead(b, 0)
    unfold(encoding, b)
    unfold(zeros, b)
    unfold(digits, int.from_bytes(b[z:], 'big'))


@driver('C11', b=Bytes(min=1, smax=120))
def base58_decodes_what_it_encodes(b):
    encoding_not_empty(b)
    decoding_of_encoding(b)
    check(base58.base58_decode(base58.base58_encode(b)) == b, 'the same bytes')


@driver('C11', s=Str(hint=text_hint))
def base58_encodes_what_it_decodes(s):
    o = outcome(lambda: base58.base58_decode(s))
    if o[0] == 'ok':
        encoding_of_decoding(s)
        check(base58.base58_encode(o[1]) == s, 'the same text')
    else:
        check(o[1] is Base58Error, 'Base58Error')


# ---------------------------------------------------------------- Base58Check
def checksum(b):
    return sha256(sha256(b).digest()).digest()[:4]


def spec_decode_check(txt):
    if txt == '' or not all(c in DIGIT for c in txt):
        raise Base58Error
    unfold(decoding, txt)
    raw = decoding(txt)
    if raw[-4:] != checksum(raw[:-4]):
        raise Base58Error
    return raw[:-4]


def check_hint(rng):
    n = rng.choice((0, 1, 4, 5, 20, 21, 21, 25, 33, 34, 78))
    p = rng.randbytes(n)
    if rng.random() < .5:
        p = bytes(min(n, rng.choice((1, 1, 2, 4)))) + p[min(n, 1):]
    raw = bytearray(p + checksum(p))
    r = rng.random()
    if r < .3:
        raw[-rng.randrange(1, 5)] ^= 1 << rng.randrange(8)
    elif r < .4:
        raw = raw[:rng.randrange(6)]
    elif r < .5:
        raw[0] ^= 1
    t = encoding(bytes(raw))
    if r > .9:
        t = t[:-1] + rng.choice('0OIl \u00b2' + CHARS)
    return t


@contract('base58.base58_encode_check', 'C11 C12 C14 C19', payload=Bytes(smax=100))
def c_base58_encode_check(payload):
    return encoding(payload + checksum(payload))


@contract('base58.base58_decode_check', 'C11 C12 C14 C19', txt=Str(hint=check_hint))
def c_base58_decode_check(txt):
    return spec_decode_check(txt)


@lemma('C11 C12 C14 C19', rewrites=lambda p: [(decoding, (encoding(p + checksum(p)),), p + checksum(p))],
       ensures=lambda p: encoding(p + checksum(p)) != '', p=Bytes(smax=100))
def check_decoding_of_encoding(p):
    raw = p + checksum(p)
    encoding_not_empty(raw)
    decoding_of_encoding(raw)


@driver('C11', payload=Bytes(smax=100))
def base58check_round_trip(payload):
    t = base58.base58_encode_check(payload)
    check_decoding_of_encoding(payload)
    check(base58.base58_decode_check(t) == payload, 'exactly the payload')


@driver('C11', txt=Str(hint=check_hint))
def base58check_checks(txt):
    if txt != '' and all(c in DIGIT for c in txt):
        unfold(decoding, txt)
    o = outcome(lambda: base58.base58_decode_check(txt))
    if o[0] == 'ok':
        encoding_of_decoding(txt)
        check(base58.base58_encode_check(o[1]) == txt, 'the text of the payload and its checksum')
    else:
        check(o[1] is Base58Error, 'Base58Error')


def minikey_hint(rng):
    while True:
        t = 'S' + ''.join(rng.choice(CHARS) for _ in range(rng.choice((21, 29))))
        if rng.random() < .1:
            t = t[1:]
        if rng.random() < .1:
            t = 'T' + t[1:]
        if rng.random() < .1:
            t = t[:5] + rng.choice('0OIl \u00b2') + t[6:]
        if rng.random() < .1 or sha256((t + '?').encode()).digest()[0] == 0:
            return t


@contract('base58.is_minikey', 'C11 C14', text=Str(hint=minikey_hint))
def c_is_minikey(text):
    return (len(text) == 22 or len(text) == 30) and text[0] == 'S' and all(c in DIGIT for c in text) and \
        sha256((text + '?').encode()).digest()[0] == 0
