"""C18 BIP32 derivation, C19 extended key strings."""
import hashlib
import hmac

from bitcoinx import bip32
from bitcoinx.base58 import Base58Error, base58_encode_check
from bitcoinx.bip32 import BIP32Derivation, BIP32PrivateKey, BIP32PublicKey, bip32_key_from_string
from bitcoinx.coin import all_coins, Bitcoin
from bitcoinx.hashes import hash160
from bitcoinx.keys import PrivateKey, PublicKey
from pyvc.api import *
from contracts.c11_base58 import check_decoding_of_encoding, checksum, encoding, decoding, DIGIT, check_hint
from contracts.c14_keys import COIN, scalar_hint, point_hint

N = CURVE_N
HARDENED = 1 << 31
CHAIN_CODE, FINGERPRINT = Bytes(n=32), Bytes(n=4)



NUMBER = Int(0, (1 << 32) - 1)
DEPTH = Int(0, 255)


def make_private(d, chain_code, n, depth, parent, coin):
    return BIP32PrivateKey(d.to_bytes(32, 'big'), BIP32Derivation(chain_code, n, depth, parent), coin)


def make_public(point, chain_code, n, depth, parent, coin):
    return BIP32PublicKey(point, BIP32Derivation(chain_code, n, depth, parent), coin)


PARTS = (CHAIN_CODE, NUMBER, DEPTH, FINGERPRINT, COIN)
XPRV = Made('bip32.BIP32PrivateKey', SECRET, *PARTS, fn=make_private)
XPUB = Made('bip32.BIP32PublicKey', Point(), *PARTS, fn=make_public)


def hmac512(key, msg):
    return hmac.digest(key, msg, hashlib.sha512)


def check_derivation(child, parent, number, chain_code):
    d = child.derivation()
    check(d.chain_code == chain_code, 'chain code')
    check(d.n == number and d.depth == parent.derivation().depth + 1, 'number and depth')
    check(d.parent_fingerprint == hash160(parent_public(parent).to_bytes(compressed=True))[:4], 'parent fingerprint')
    check(child.coin() is parent.coin() and child.is_compressed(), 'network and form')


def parent_public(key):
    return key.public_key if isinstance(key, BIP32PrivateKey) else key


# ---------------------------------------------------------------- C18
@driver('C18', key=XPRV, number=NUMBER)
def private_child(key, number):
    secret = key.to_int()
    data = b'\0' + secret.to_bytes(32, 'big') if number >= HARDENED else key.public_key.to_bytes()
    mac = hmac512(key.derivation().chain_code, data + number.to_bytes(4, 'big'))
    t = int.from_bytes(mac[:32], 'big')
    r = (t + secret) % N
    o = outcome(lambda: key.child(number))
    if t >= N or r == 0:
        check(o == ('exc', ValueError), 'no such child')
    else:
        check(o[0] == 'ok' and type(o[1]) is BIP32PrivateKey and o[1].to_int() == r, 'the child secret')
        check_derivation(o[1], key, number, mac[32:])


@driver('C18', key=XPUB, number=NUMBER)
def public_child(key, number):
    o = outcome(lambda: key.child(number))
    if number >= HARDENED:
        check(o == ('exc', ValueError), 'hardened')
        return
    mac = hmac512(key.derivation().chain_code, key.to_bytes() + number.to_bytes(4, 'big'))
    want = outcome(lambda: PublicKey.from_bytes(key.to_bytes()).add(mac[:32]))
    check(o[0] == want[0], 'exists when the sum is a point')
    if want[0] == 'exc':
        check(o == ('exc', ValueError), 'no such child')
    else:
        check(type(o[1]) is BIP32PublicKey and o[1].to_bytes() == want[1].to_bytes(compressed=True), 'the child point')
        check_derivation(o[1], key, number, mac[32:])


@driver('C18', key=XPRV, number=Int(0, HARDENED - 1))
def branches_agree(key, number):
    a = outcome(lambda: key.child(number).public_key)
    b = outcome(lambda: key.public_key.child(number))
    check(a[0] == b[0] and (a[0] == 'ok' or a[1] is ValueError and b[1] is ValueError), 'both exist or neither')
    if a[0] == 'ok':
        check(type(a[1]) is BIP32PublicKey and type(b[1]) is BIP32PublicKey)
        check(a[1].to_bytes() == b[1].to_bytes() and a[1].coin() is b[1].coin() and a[1].is_compressed() == b[1].is_compressed(), 'the same key')
        check(a[1].derivation() == b[1].derivation(), 'the same derivation')


@driver('C18', key=AnyOf(XPRV, XPUB), number=Int())
def number_out_of_range(key, number):
    require(number < 0 or number >= ((1 << 32) if isinstance(key, BIP32PrivateKey) else HARDENED))
    check(exc_of(lambda: key.child(number)) is ValueError, 'child')
    check(exc_of(lambda: key.child_safe(number)) is ValueError, 'child_safe')


@driver('C18', key=XPRV)
def public_key_of_extended(key):
    p = key.public_key
    check(type(p) is BIP32PublicKey and p.derivation() == key.derivation() and p.coin() is key.coin() and p.is_compressed())
    check(p.to_bytes() == PrivateKey(key.to_bytes(), True, key.coin()).public_key.to_bytes(), 'the matching public key')
    check(key.identifier() == hash160(p.to_bytes()) and p.identifier() == hash160(p.to_bytes()), 'identifier')
    check(key.fingerprint() == hash160(p.to_bytes())[:4] and p.fingerprint() == hash160(p.to_bytes())[:4], 'fingerprint')


def check_master(key, secret, chain_code, coin):
    check(type(key) is BIP32PrivateKey and key.to_bytes() == secret and key.coin() is coin and key.is_compressed(), 'secret')
    check(key.derivation() == BIP32Derivation(chain_code, 0, 0, bytes(4)), 'derivation')


@driver('C18', seed=Bytes(smax=70), coin=COIN)
def master_key(seed, coin):
    mac = hmac512(b'Bitcoin seed', seed)
    o = outcome(lambda: BIP32PrivateKey.from_seed(seed, coin))
    if not 1 <= int.from_bytes(mac[:32], 'big') < N:
        check(o == ('exc', ValueError), 'no such key')
    else:
        check(o[0] == 'ok')
        check_master(o[1], mac[:32], mac[32:], coin)


class Source:
    def __init__(self, parts):
        self.parts = list(parts)

    def __call__(self, n):
        check(n == 64, 'asks for 64 bytes')
        return self.parts.pop(0)


def usable(part):
    return 1 <= int.from_bytes(part[:32], 'big') < N


def scalar_and_rest(rng):
    return scalar_hint(rng) + rng.randbytes(32)


PART = Bytes(n=64, hint=scalar_and_rest)


@driver('C18', a=PART, b=PART, c=PART)
def random_master_key(a, b, c):
    """The first usable of what the source gives (here one of the first three)."""
    parts = [p for p in (a, b, c) if usable(p)]
    require(parts)
    check_master(BIP32PrivateKey.from_random(source=Source((a, b, c))), parts[0][:32], parts[0][32:], Bitcoin)


@driver('C18', key=AnyOf(XPRV, XPUB), number=NUMBER)
def safe_child_when_there_is_one(key, number):
    o = outcome(lambda: key.child(number))
    require(o[0] == 'ok')
    c = key.child_safe(number)
    check(c.derivation() == o[1].derivation() and parent_public(c).to_bytes() == parent_public(o[1]).to_bytes() and type(c) is type(o[1]), 'that child')


@driver('C18', key=AnyOf(XPRV, XPUB), number=NUMBER)
def safe_child_after_a_missing_one(key, number):
    top = 1 << 32 if isinstance(key, BIP32PrivateKey) else HARDENED
    require(number < top and outcome(lambda: key.child(number))[0] == 'exc')
    if number + 1 == HARDENED or number + 1 == 1 << 32:
        check(exc_of(lambda: key.child_safe(number)) is ValueError, 'no more on this branch')
        return
    o = outcome(lambda: key.child(number + 1))
    require(o[0] == 'ok')
    c = key.child_safe(number)
    check(c.derivation() == o[1].derivation() and parent_public(c).to_bytes() == parent_public(o[1]).to_bytes() and type(c) is type(o[1]), 'the next child')


def with_missing(key, missing):
    """The key, of a class for which the children in missing are invalid, and the numbers asked for."""
    cls = type(key)
    asked = []

    class Some(cls):
        def child(self, n):
            asked.append(n)
            if n in missing:
                raise ValueError
            return cls.child(self, n)
    if cls is BIP32PrivateKey:
        return Some(key.to_bytes(), key.derivation(), key.coin()), asked
    return Some(PublicKey.from_bytes(key.to_bytes()), key.derivation(), key.coin()), asked


@driver('C18', mode='bounded', key=AnyOf(XPRV, XPUB), number=NUMBER, gap=Int(0, 4))
def safe_child_skips_missing(key, number, gap):
    some, asked = with_missing(key, tuple(range(number, number + gap)))
    first = number + gap
    top = HARDENED if number < HARDENED else 1 << 32
    o = outcome(lambda: some.child_safe(number))
    if isinstance(key, BIP32PublicKey) and number >= HARDENED or first >= top:
        check(o == ('exc', ValueError), 'no child left')
    else:
        check(o[0] == 'ok' and o[1].derivation() == key.child(first).derivation(), 'the first there is')


# ---------------------------------------------------------------- C19
def payload_of(key, data, version):
    d = key.derivation()
    return (version + bytes([d.depth]) + d.parent_fingerprint + d.n.to_bytes(4, 'big') + d.chain_code + data)


def first_with(coin):
    """The first coin with these version bytes."""
    return [c for c in all_coins if c.xpub_verbytes == coin.xpub_verbytes][0]


def check_round_trip(key, payload):
    s = key.to_extended_key_string()
    check(s == encoding(payload + checksum(payload)), 'the standard form')
    check_decoding_of_encoding(payload)
    b = bip32_key_from_string(s)
    check(type(b) is type(key) and b.to_bytes() == key.to_bytes() and b == key, 'an equal key')
    check(b.derivation() == key.derivation() and b.coin() is first_with(key.coin()) and b.is_compressed(), 'derivation and network')


@driver('C19', key=XPRV)
def private_string_round_trip(key):
    check_round_trip(key, payload_of(key, b'\0' + key.to_int().to_bytes(32, 'big'), key.coin().xprv_verbytes))


@driver('C19', key=XPUB)
def public_string_round_trip(key):
    check_round_trip(key, payload_of(key, key.to_bytes(), key.coin().xpub_verbytes))
    check(str(key) == key.to_extended_key_string(), 'str()')


VERSIONS = {c.xpub_verbytes: (c, True) for c in reversed(all_coins)}
VERSIONS.update({c.xprv_verbytes: (c, False) for c in reversed(all_coins)})


def raw_hint(rng):
    v = rng.choice(list(VERSIONS) + [b'\1\2\3\4'])
    data = point_hint(rng) if VERSIONS.get(v, (0, rng.random() < .5))[1] else bytes([rng.choice((0, 0, 0, 0, 1))]) + scalar_hint(rng)
    out = v + rng.randbytes(41) + data
    r = rng.random()
    return out[:-1] if r < .05 else out + b'\0' if r < .1 else out


def text_of(rng):
    if rng.random() < .15:
        return check_hint(rng)
    p = raw_hint(rng)
    return base58_encode_check(p)


def content(text):
    if text == '' or not all(c in DIGIT for c in text):
        raise Base58Error
    raw = decoding(text)
    if raw[-4:] != checksum(raw[:-4]):
        raise Base58Error
    return raw[:-4]


@driver('C19', samples=lambda rng: {'text': text_of(rng)}, text=Str(hint=text_of))
def any_string(text):
    o = outcome(lambda: bip32_key_from_string(text))
    p = outcome(lambda: content(text))
    if p[0] == 'exc':
        check(o == ('exc', Base58Error), 'not base58check')
        return
    raw = p[1]
    known = raw[:4] in VERSIONS
    if len(raw) != 78 or not known:
        check(o == ('exc', ValueError), 'refused')
        return
    coin, public = VERSIONS[raw[:4]]
    if public:
        key = outcome(lambda: PublicKey.from_bytes(raw[45:]))
    else:
        key = outcome(lambda: PrivateKey(raw[46:], True, coin)) if raw[45] == 0 else ('exc', ValueError)
    if key[0] == 'exc':
        check(o == ('exc', ValueError), 'refused')
        return
    check(o[0] == 'ok' and type(o[1]) is (BIP32PublicKey if public else BIP32PrivateKey), 'kind of key')
    check(o[1].to_bytes() == raw[45 if public else 46:] and o[1].coin() is coin and o[1].is_compressed(), 'the key')
    check(o[1].derivation() == BIP32Derivation(raw[13:45], int.from_bytes(raw[9:13], 'big'), raw[4], raw[5:9]), 'derivation')
