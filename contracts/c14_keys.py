"""C14 private keys, C15 key arithmetic and public keys."""
from hashlib import sha256

from electrumsv_secp256k1 import ffi, lib

from bitcoinx import keys, coin
from bitcoinx.keys import PrivateKey, PublicKey
from pyvc.api import *

N = CURVE_N
P = (1 << 256) - (1 << 32) - 977
COIN = OneOf(*coin.all_coins)


def make_private(d, compressed, coin_):
    return PrivateKey(d.to_bytes(32, 'big'), compressed, coin_)


def scalar_hint(rng):
    d = rng.choice((0, 1, 2, N - 2, N - 1, N, N + 1, (1 << 256) - 1, rng.randrange(1 << 256), rng.randrange(10)))
    return d.to_bytes(32, 'big')


PRIV = Made('keys.PrivateKey', SECRET, Bool(), COIN, fn=make_private)
PUB = Made('keys.PublicKey', Point(), Bool(), COIN)
SCALAR = Bytes(n=32, hint=scalar_hint)
MAYBE_BOOL = OneOf(None, True, False)


def same_public(a, b):
    return (a.to_bytes(compressed=True) == b.to_bytes(compressed=True) and a.is_compressed() == b.is_compressed()
            and a.coin() is b.coin())


# ---------------------------------------------------------------- C15
@driver('C15', key=PRIV, value=SCALAR)
def private_add(key, value):
    t = int.from_bytes(value, 'big')
    r = (key.to_int() + t) % N
    o = outcome(lambda: key.add(value))
    if t >= N or r == 0:
        check(o[0] == 'exc' and o[1] is ValueError, 'rejected')
    else:
        check(o[0] == 'ok' and o[1].to_int() == r, 'the sum of the secrets')
        check(o[1].is_compressed() == key.is_compressed() and o[1].coin() is key.coin(), 'keeps flag and coin')


@driver('C15', key=PRIV, value=SCALAR)
def add_commutes_with_public_key(key, value):
    a = outcome(lambda: key.add(value).public_key)
    b = outcome(lambda: key.public_key.add(value))
    check(a[0] == b[0], 'both succeed or both fail')
    if a[0] == 'ok':
        check(same_public(a[1], b[1]), 'the same public key')
        check(a[1].is_compressed() == key.is_compressed() and a[1].coin() is key.coin(), 'keeps flag and coin')
    else:
        check(a[1] is ValueError and b[1] is ValueError, 'ValueError')


@driver('C15', key=PRIV, value=SCALAR)
def multiply_commutes_with_public_key(key, value):
    a = outcome(lambda: key.multiply(value).public_key)
    b = outcome(lambda: key.public_key.multiply(value))
    check(a[0] == b[0], 'both succeed or both fail')
    check((a[0] == 'ok') == (1 <= int.from_bytes(value, 'big') < N), 'fails exactly out of range')
    if a[0] == 'ok':
        check(same_public(a[1], b[1]), 'the same public key')
        check(a[1].is_compressed() == key.is_compressed() and a[1].coin() is key.coin(), 'keeps flag and coin')
    else:
        check(a[1] is ValueError and b[1] is ValueError, 'ValueError')


@driver('C15', key=AnyOf(PRIV, PUB), value=AnyOf(Bytes(), Int(), Const(None), Const(bytearray(32)), Const('a' * 32)))
def tweaks_need_32_bytes(key, value):
    for fn in (key.add, key.multiply):
        if not isinstance(value, bytes):
            check(exc_of(lambda: fn(value)) is TypeError, 'TypeError')
        elif len(value) != 32:
            check(exc_of(lambda: fn(value)) is ValueError, 'ValueError')


@driver('C15', key=PUB, compressed=MAYBE_BOOL)
def public_serialization(key, compressed):
    data = key.to_bytes(compressed=compressed)
    x, y = key.to_point()
    short = key.is_compressed() if compressed is None else compressed
    check(0 <= x < P and 0 <= y < P, 'coordinates are in the field')
    if short:
        check(data == bytes([2 + y % 2]) + x.to_bytes(32, 'big'), 'compressed form')
    else:
        check(data == b'\4' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big'), 'uncompressed form')
    check(key.to_hex(compressed=compressed) == data.hex(), 'hex form')


@driver('C15', key=PUB, compressed=Bool())
def public_parsing_inverts(key, compressed):
    data = key.to_bytes(compressed=compressed)
    a = PublicKey.from_bytes(data)
    b = PublicKey.from_hex(key.to_hex(compressed=compressed))
    x, y = key.to_point()
    c = PublicKey.from_point(x, y)
    check(a == key and b == key and c == key, 'equal keys')
    check(a.is_compressed() == compressed and b.is_compressed() == compressed, 'the form gives the flag')
    check(c.is_compressed() is False, 'points parse as uncompressed')
    check(a.to_bytes() == data and b.to_bytes() == data, 'serializes the same')


def point_hint(rng):
    d = rng.randrange(1, N) if rng.random() < .7 else rng.choice((1, 2, N - 1))
    k = PrivateKey(d.to_bytes(32, 'big')).public_key
    b = bytearray(k.to_bytes(compressed=rng.random() < .5))
    r = rng.random()
    if r < .3:
        b[0] = rng.choice((0, 2, 3, 4, 5, 6, 7))
    elif r < .5:
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif r < .7:
        b = b[:-1] if r < .6 else b + b'\0'
    elif r < .75:
        b[1:33] = (P + rng.randrange(-2, 3)).to_bytes(32, 'big')
    return bytes(b)


@driver('C15', data=Bytes(hint=point_hint, smax=70))
def parsed_keys_reserialize(data):
    o = outcome(lambda: PublicKey.from_bytes(data))
    if o[0] == 'exc':
        check(o[1] is ValueError, 'ValueError')
    else:
        key = o[1]
        n = len(data)
        check(n == 33 or n == 65, 'two sizes')
        check(key.is_compressed() == (n == 33), 'the size gives the flag')
        check(key.coin() is coin.Bitcoin, 'no implied coin')
        check(key.to_bytes()[1:] == data[1:], 'same coordinates')
        if n == 33 or data[0] == 4:
            check(key.to_bytes() == data, 'same bytes')


@driver('C15', x=Int(), y=Int())
def points_off_the_field_are_rejected(x, y):
    e = exc_of(lambda: PublicKey.from_point(x, y))
    if not (0 <= x < P and 0 <= y < P):
        check(e is ValueError or e is OverflowError, 'rejected')


@contract('keys.PublicKey.complement', 'C15', self=PUB)
def c_complement(self):
    return PublicKey(self._public_key, not self.is_compressed(), self.coin())


@driver('C15', key=PUB)
def complement_is_the_same_key(key):
    c = key.complement()
    check(c == key and c.is_compressed() == (not key.is_compressed()) and c.coin() is key.coin(), 'only the flag')
    check(c.complement().to_bytes() == key.to_bytes(), 'twice is the key')


@driver('C15', a=PRIV, b=PRIV, c=PRIV)
def combine_three(a, b, c):
    total = (a.to_int() + b.to_int() + c.to_int()) % N
    o = outcome(lambda: PublicKey.combine_keys([a.public_key, b.public_key, c.public_key]))
    if total == 0:
        check(o[0] == 'exc' and o[1] is ValueError, 'no key for zero')
    else:
        check(o[0] == 'ok' and same_public(o[1], make_private(total, a.is_compressed(), a.coin()).public_key),
              'the public key of the sum')


@driver('C15', a=PRIV, b=PRIV)
def combine_two(a, b):
    o = outcome(lambda: PublicKey.combine_keys([a.public_key, b.public_key]))
    if (a.to_int() + b.to_int()) % N == 0:
        check(o[0] == 'exc' and o[1] is ValueError, 'no key for zero')
    else:
        k = PrivateKey(a.to_bytes(), a.is_compressed(), a.coin()).add(b.to_bytes())
        check(o[0] == 'ok' and same_public(o[1], k.public_key), 'the public key of the sum')


@driver('C15', a=PUB)
def combine_one_or_none(a):
    check(same_public(PublicKey.combine_keys([a]), a), 'itself')
    check(exc_of(lambda: PublicKey.combine_keys([])) is ValueError, 'none')


@driver('C15', keys_=ListOf(PRIV, min=1), last=PRIV)
def combine_adds_one_more(keys_, last):
    """With combine_one_or_none: by induction the sum of any number of keys."""
    pubs = [k.public_key for k in keys_]
    a = outcome(lambda: PublicKey.combine_keys(pubs))
    b = outcome(lambda: PublicKey.combine_keys(pubs + [last.public_key]))
    if a[0] == 'ok':
        c = outcome(lambda: a[1].add(last.to_bytes()))
        check(b[0] == c[0], 'fails when the sum is zero')
        if b[0] == 'ok':
            check(same_public(b[1], c[1]), 'one more term')
    elif b[0] == 'ok':
        check(b[1] == last.public_key, 'zero plus the last')


@driver('C15', a=PRIV, b=PRIV, message=Bytes(smax=50))
def shared_secrets_agree(a, b, message):
    check(a.ecdh_shared_secret(b.public_key) == b.ecdh_shared_secret(a.public_key), 'ECDH')
    x = outcome(lambda: a.shared_secret(b.public_key, message))
    y = outcome(lambda: b.shared_secret(a.public_key, message))
    if x[0] == 'ok' and y[0] == 'ok':
        check(x[1] == y[1], 'deterministic')


# ---------------------------------------------------------------- C14
@driver('C14', secret=SCALAR, compressed=Bool(), coin_=Opt(COIN))
def private_key_range(secret, compressed, coin_):
    d = int.from_bytes(secret, 'big')
    o = outcome(lambda: PrivateKey(secret, compressed, coin_))
    if 1 <= d < N:
        check(o[0] == 'ok' and o[1].to_bytes() == secret and o[1].to_int() == d, 'the secret')
        check(o[1].is_compressed() == compressed, 'flag')
        check(o[1].coin() is (coin.Bitcoin if coin_ is None else coin_), 'coin')
    else:
        check(o[0] == 'exc' and o[1] is ValueError, 'out of range')


@driver('C14', secret=AnyOf(Bytes(smax=70), Const(None), Int(), Const('a' * 32), Const(bytearray(32))))
def private_key_needs_32_bytes(secret):
    e = exc_of(lambda: PrivateKey(secret))
    if not isinstance(secret, bytes):
        check(e is TypeError, 'TypeError')
    elif len(secret) != 32:
        check(e is ValueError, 'ValueError')


@driver('C14', key=PRIV)
def private_encodings_round_trip(key):
    check(PrivateKey(key.to_bytes()) == key, 'bytes')
    check(PrivateKey.from_hex(key.to_hex()) == key, 'hex')
    check(PrivateKey.from_int(key.to_int()) == key, 'integer')
    check(key.to_hex() == key.to_bytes().hex() and len(key.to_bytes()) == 32, 'hex of the bytes')


@driver('C14', value=Int(edges=(0, 1, N - 1, N, 1 << 256, -1)))
def from_int_range(value):
    o = outcome(lambda: PrivateKey.from_int(value))
    if 1 <= value < N:
        check(o[0] == 'ok' and o[1].to_int() == value, 'the integer')
    else:
        check(o[0] == 'exc' and (o[1] is ValueError or o[1] is OverflowError), 'rejected')


@driver('C14', secret=Bytes(smax=80))
def from_arbitrary(secret):
    d = int.from_bytes(secret, 'big') % N
    o = outcome(lambda: PrivateKey.from_arbitrary_bytes(secret))
    if d == 0:
        check(o[0] == 'exc' and o[1] is ValueError, 'zero')
    else:
        check(o[0] == 'ok' and o[1].to_int() == d, 'reduced')


# ---------------------------------------------------------------- WIF, minikeys, text
from contracts.c11_base58 import (spec_decode_check, check_decoding_of_encoding, checksum, c_is_minikey, minikey_hint,    # noqa
                                  encoding, CHARS)


def wif_hint(rng):
    d = rng.choice((0, 1, 2, N - 1, N, rng.randrange(1, N))).to_bytes(32, 'big')
    v = rng.choice((0x80, 0xef, 0x80, 0xef, 0x80, 0, 0x81, 0x6f, 5))
    p = bytes([v]) + d + rng.choice((b'', b'\1', b'\1', b'\0', b'\2', b'\1\1'))
    r = rng.random()
    if r < .1:
        p = p[:-1]
    raw = bytearray(p + checksum(p))
    if r > .9:
        raw[rng.randrange(len(raw))] ^= 1
    return encoding(bytes(raw))


@contract('keys.PrivateKey.from_WIF', 'C14', txt=Str(hint=wif_hint))
def c_from_wif(txt):
    raw = spec_decode_check(txt)
    if len(raw) == 34:
        if raw[33] != 1:
            raise ValueError
    elif len(raw) != 33:
        raise ValueError
    if raw[0] == 0x80:
        return PrivateKey(raw[1:33], len(raw) == 34, coin.Bitcoin)
    if raw[0] == 0xef:
        return PrivateKey(raw[1:33], len(raw) == 34, coin.BitcoinTestnet)
    raise ValueError


@driver('C14', key=PRIV, compressed=MAYBE_BOOL, coin_=Opt(COIN))
def wif_round_trip(key, compressed, coin_):
    t = key.to_WIF(compressed=compressed, coin=coin_)
    c = key.is_compressed() if compressed is None else compressed
    net = key.coin() if coin_ is None else coin_
    check_decoding_of_encoding(bytes([net.WIF_byte]) + key.to_bytes() + (b'\1' if c else b''))
    k = PrivateKey.from_WIF(t)
    check(k == key, 'an equal key')
    check(k.is_compressed() == c, 'the flag')
    check(k.coin().WIF_byte == net.WIF_byte, 'the network byte')


@contract('keys.PrivateKey.from_minikey', 'C14', minikey=Str(hint=minikey_hint))
def c_from_minikey(minikey):
    if not c_is_minikey(minikey):
        raise ValueError
    return PrivateKey(sha256(minikey.encode()).digest(), False, None)


def key_text_hint(rng):
    r = rng.random()
    if r < .4:
        return wif_hint(rng)
    if r < .7:
        return minikey_hint(rng)
    t = rng.randrange(1 << 256).to_bytes(32, 'big').hex()
    return t if r < .9 else t[1:] if r < .95 else t.upper()


@driver('C14', txt=Str(n=64, hint=key_text_hint))
def private_key_hex_text(txt):
    check_same(lambda: PrivateKey.from_text(txt), lambda: PrivateKey(bytes.fromhex(txt)), 'hex')


@driver('C14', txt=Str(hint=key_text_hint))
def private_key_minikey_text(txt):
    require(len(txt) != 64 and c_is_minikey(txt))
    check_same(lambda: PrivateKey.from_text(txt), lambda: PrivateKey(sha256(txt.encode()).digest(), False, None), 'minikey')


@driver('C14', txt=Str(hint=key_text_hint))
def private_key_wif_text(txt):
    require(len(txt) != 64 and not c_is_minikey(txt))
    check_same(lambda: PrivateKey.from_text(txt), lambda: PrivateKey.from_WIF(txt), 'WIF')


@driver('C14', first=SCALAR, second=SCALAR, third=PRIV)
def random_private_key(first, second, third):
    """The first valid draw (each further draw repeats the same loop iteration)."""
    draws = [first, second, third.to_bytes()]
    sizes = []

    def source(n):
        sizes.append(n)
        return draws.pop(0)
    key = PrivateKey.from_random(source=source)
    valid = [d for d in (first, second, third.to_bytes()) if 1 <= int.from_bytes(d, 'big') < N]
    check(key.to_bytes() == valid[0], 'the first valid draw')
    check(all(n == 32 for n in sizes), 'draws of 32 bytes')
