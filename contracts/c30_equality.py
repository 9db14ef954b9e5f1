"""C30 equality and hashing."""
from bitcoinx import signature
from bitcoinx.address import P2PKH_Address, P2SH_Address, P2PK_Output, P2MultiSig_Output, OP_RETURN_Output, Unknown_Output
from bitcoinx.keys import PrivateKey
from bitcoinx.script import Script
from bitcoinx.signature import Signature, MISSING_SIG_BYTES
from pyvc.api import *
from contracts.c14_keys import PRIV, PUB, COIN

H160 = Bytes(n=20)


def consistent(a, b, same):
    """a == b (both ways round) exactly when `same`; and then their hashes are the same."""
    check((a == b) is same and (b == a) is same, 'equal exactly when')
    check((a != b) is not same and (b != a) is not same, 'unequal otherwise')
    if same:
        check(hash(a) == hash(b), 'equal hashes')


def pair_hint(rng):
    a = rng.randbytes(rng.choice((0, 1, 2, 5)))
    return a


def byte_pairs(rng):
    a = pair_hint(rng)
    return {'a': a, 'b': a if rng.random() < .5 else pair_hint(rng)}


@driver('C30', samples=byte_pairs, a=Bytes(), b=Bytes())
def scripts_equal(a, b):
    consistent(Script(a), Script(b), a == b)


@driver('C30', samples=byte_pairs, a=Bytes(), b=Bytes())
def scripts_equal_buffers(a, b):
    s = Script(a)
    check((s == b) is (a == b) and (b == s) is (a == b), 'bytes')
    check((s == bytearray(b)) is (a == b), 'bytearray')
    check((s == memoryview(b)) is (a == b), 'memoryview')
    check(hash(s) == hash(bytes(a)), 'hash of its bytes')


DER = [bytes.fromhex(h) for h in (
    '3006020101020101', '300602010102017f', '3007020101020200ff', '3007020200ff020101')]


def ders(rng):
    a = rng.choice(DER) + rng.randbytes(1)
    return a if rng.random() < .9 else MISSING_SIG_BYTES


def make_signature(raw):
    """A signature object, if these bytes are one."""
    o = outcome(lambda: Signature(raw))
    return o[1] if o[0] == 'ok' else None


def signature_pairs(rng):
    a = ders(rng)
    return {'a': a, 'b': a if rng.random() < .5 else ders(rng)}


@driver('C30', samples=signature_pairs, a=Bytes(smax=80), b=Bytes(smax=80))
def signatures_equal(a, b):
    x, y = make_signature(a), make_signature(b)
    if x is not None and y is not None:
        consistent(x, y, a == b)
    if x is not None:
        check((x == b) is (a == b) and (x == bytearray(b)) is (a == b) and (x == memoryview(b)) is (a == b), 'buffers')
        check((x == Script(b)) is (a == b) and (Script(b) == x) is (a == b), 'anything with bytes')
        check(hash(x) == hash(bytes(a)), 'hash of its bytes')


def key_pairs(rng):
    a = PRIV.sample(rng)
    b = PRIV.sample(rng)
    if rng.random() < .5:
        b = PrivateKey(a.to_bytes(), rng.random() < .5, rng.choice(COIN.vals))
    return {'a': a, 'b': b}


@driver('C30', samples=key_pairs, a=PRIV, b=PRIV)
def private_keys_equal(a, b):
    consistent(a, b, a.to_bytes() == b.to_bytes())


def public_pairs(rng):
    p = key_pairs(rng)
    a, b = p['a'].public_key, p['b'].public_key
    return {'a': a, 'b': b if rng.random() < .7 else a.complement()}


@driver('C30', samples=public_pairs, a=PUB, b=PUB)
def public_keys_equal(a, b):
    consistent(a, b, a.to_bytes(compressed=True) == b.to_bytes(compressed=True))


def hash_pairs(rng):
    h = rng.randbytes(20)
    return {'h': h, 'g': h if rng.random() < .6 else rng.randbytes(19) + bytes([h[19]]),
            'c': rng.choice(COIN.vals), 'd': rng.choice(COIN.vals)}


@driver('C30', samples=hash_pairs, h=H160, g=H160, c=COIN, d=COIN)
def addresses_equal(h, g, c, d):
    consistent(P2PKH_Address(h, c), P2PKH_Address(g, d), h == g)
    consistent(P2SH_Address(h, c), P2SH_Address(g, d), h == g)


@driver('C30', samples=lambda rng: {**public_pairs(rng), 'c': rng.choice(COIN.vals), 'd': rng.choice(COIN.vals)},
        a=PUB, b=PUB, c=COIN, d=COIN)
def public_key_outputs_equal(a, b, c, d):
    consistent(P2PK_Output(a, c), P2PK_Output(b, d), a.to_bytes(compressed=True) == b.to_bytes(compressed=True))


def multisig_pairs(rng):
    ks = [PUB.sample(rng) for _ in range(rng.randrange(1, 5))]
    js = list(ks)
    r = rng.random()
    if r < .2:
        js = js[::-1]
    elif r < .3:
        js = [k.complement() for k in js]
    elif r < .4:
        js[rng.randrange(len(js))] = PUB.sample(rng)
    elif r < .5:
        js = js + [PUB.sample(rng)]
    return {'a': ks, 'b': js, 'm': rng.randrange(1, len(ks) + 1), 'n': rng.randrange(1, len(js) + 1)}


LONG = Made('keys.PublicKey', Point(), OneOf(False), OneOf(COIN.vals[0]))
SHORT = Made('keys.PublicKey', Point(), OneOf(True), OneOf(COIN.vals[0]))


def check_multisigs(a, b, m, n):
    same = m == n and len(a) == len(b)
    if same:
        same = [k.to_bytes(compressed=True) for k in a] == [k.to_bytes(compressed=True) for k in b]
    consistent(P2MultiSig_Output(a, m), P2MultiSig_Output(b, n), same)


@driver('C30', split='count', timeout=200, count=OneOf(1, 2, 3, 4), a=TupleOf(LONG, SHORT, SHORT, LONG), b=TupleOf(SHORT, SHORT, LONG, LONG),
        m=Int(1, 4), n=Int(1, 4))
def multisigs_of_few_keys_equal(count, a, b, m, n):
    require(m <= count and n <= count)
    check_multisigs(list(a[:count]), list(b[:count]), m, n)


@driver('C30', a=TupleOf(LONG, SHORT, SHORT, LONG), k=Int(1, 4), j=Int(1, 4))
def multisigs_of_other_lengths_differ(a, k, j):
    require(j < k)
    check_multisigs(list(a[:k]), list(a[:j]), j, j)


KEYS = ListOf(PUB, min=1)


@driver('C30', mode='bounded', samples=multisig_pairs, a=KEYS, b=KEYS, m=Int(1), n=Int(1))
def multisigs_equal(a, b, m, n):
    require(m <= len(a) and n <= len(b))
    check_multisigs(a, b, m, n)


@driver('C30', n=Int(0, 1))
def op_returns_equal(n):
    consistent(OP_RETURN_Output(), OP_RETURN_Output(), True)


@driver('C30', h=H160, k=PUB, s=PRIV, c=COIN)
def kinds_differ(h, k, s, c):
    """Objects of two different kinds (and plain values of the same content) are not equal."""
    them = [P2PKH_Address(h, c), P2SH_Address(h, c), P2PK_Output(k, c), P2MultiSig_Output([k], 1), OP_RETURN_Output(), k, s,
            Script(h), Unknown_Output(), h, None, 28]
    for i in range(len(them)):
        for j in range(len(them)):
            if i < j and (i, j) != (7, 9):
                check((them[i] == them[j]) is False and (them[j] == them[i]) is False, 'different kinds')
