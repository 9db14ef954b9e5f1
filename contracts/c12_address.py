"""C12 addresses."""
from bitcoinx import address, cashaddr
from bitcoinx.address import Address, P2PKH_Address, P2SH_Address
from bitcoinx.coin import all_coins
from pyvc.api import *
from contracts.c11_base58 import (encoding, digits, zeros, checksum, check_decoding_of_encoding, spec_decode_check,
                                  encoding_not_empty, check_hint, zeros_after_zeros)
from contracts.c13_cashaddr import meaning, make_address, address_hint

ADDRESS_COIN = OneOf(*all_coins)
PREFIXES = sorted({c.cashaddr_prefix for c in all_coins} | {c.cashaddr_prefix.upper() for c in all_coins})


@ghost('C12', result=Int(1), decreases=lambda k: k, k=Int(0, shi=60))
def pow58(k):
    return 1 if k == 0 else 58 * pow58(k - 1)


@lemma('C12', requires=lambda v, k: v < pow58(k), ensures=lambda v, k: len(digits(v)) <= k, decreases=lambda v, k: k,
       v=Int(0), k=Int(0, shi=60))
def length_of_digits(v, k):
    unfold(pow58, k)
    unfold(digits, v)
    if v != 0:
        length_of_digits(v // 58, k - 1)


@lemma('C12', requires=lambda b: len(b) == 25, ensures=lambda b: len(encoding(b)) <= 35, b=Padded(0, Bytes(max=25)))
def length_of_encoding(b):
    z = lead(b, 0)
    r = b[z:]
    unfold(encoding, b)
    zeros_after_zeros(z, r)
    unfold(zeros, r)
    v = int.from_bytes(r, 'big')
    for k in range(1, 36):
        unfold(pow58, k)
    for n in range(26):
        if z == n:
            length_of_digits(v, 35 - n)
            return


@lemma('C12', ensures=lambda address, prefix: (
           meaning(address) is None or meaning(address)[0] == prefix),
       requires=lambda address, prefix: address.startswith(prefix + ':'), split='prefix',
       address=Str(hint=address_hint), prefix=OneOf(*PREFIXES))
def meaning_prefix(address, prefix):
    unfold(meaning, address)


def spec_from_string(text, coin):
    if len(text) > 35:
        prefix = coin.cashaddr_prefix
        if text.upper() == text:
            prefix = prefix.upper()
        full = text if text.startswith(prefix + ':') else prefix + ':' + text
        meaning_prefix(full, prefix)
        m = meaning(full)
        if m is not None and len(m[2]) == 20:
            return (P2PKH_Address if m[1] == 0 else P2SH_Address)(m[2], coin)
    raw = spec_decode_check(text)
    if len(raw) != 21:
        raise ValueError
    if raw[0] == coin.P2PKH_verbyte:
        return P2PKH_Address(raw[1:], coin)
    if raw[0] == coin.P2SH_verbyte:
        return P2SH_Address(raw[1:], coin)
    raise ValueError


def text_hint(rng):
    r = rng.random()
    if r < .4:
        return check_hint(rng)
    if r < .6:
        c = rng.choice(all_coins)
        p = bytes([rng.choice((c.P2PKH_verbyte, c.P2SH_verbyte))]) + rng.randbytes(rng.choice((20, 20, 20, 19, 21)))
        return encoding(p + checksum(p))
    p = [c.cashaddr_prefix for c in all_coins]
    if r < .7:
        p = [p[0] + 'x', p[0] + ':', p[0][:-1], p[0] + 'q' * 40, p[0] + p[0], p[0] + ':' + p[0]]
    t = address_hint(rng, p)
    if rng.random() < .4 and ':' in t:
        t = t[t.index(':') + 1:]
    return t


@contract('address.Address.from_string', 'C12', split='coin', timeout=300, text=Str(hint=text_hint), coin=ADDRESS_COIN)
def c_from_string(text, coin):
    return spec_from_string(text, coin)


def round_trip(a):
    t = a.to_string()
    p = bytes([a._coin.P2PKH_verbyte if isinstance(a, P2PKH_Address) else a._coin.P2SH_verbyte]) + a.hash160()
    length_of_encoding(p + checksum(p))
    check_decoding_of_encoding(p)
    b = Address.from_string(t, a._coin)
    check(type(b) is type(a) and b.hash160() == a.hash160() and b.coin() is a.coin(), 'the same address')
    check(b == a and str(a) == t, 'an equal address')


@driver('C12', hash160=Bytes(n=20), coin=ADDRESS_COIN)
def p2pkh_round_trip(hash160, coin):
    round_trip(P2PKH_Address(hash160, coin))


@driver('C12', hash160=Bytes(n=20), coin=ADDRESS_COIN)
def p2sh_round_trip(hash160, coin):
    round_trip(P2SH_Address(hash160, coin))


@driver('C12', cls=OneOf(P2PKH_Address, P2SH_Address), hash160=AnyOf(Bytes(), Const(None), Const('a' * 20)), coin=ADDRESS_COIN)
def hash_checked(cls, hash160, coin):
    e = exc_of(lambda: cls(hash160, coin))
    check(e is (TypeError if not isinstance(hash160, bytes) else ValueError if len(hash160) != 20 else None))
