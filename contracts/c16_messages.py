"""C16 encrypted messages, C17 signed messages and signatures."""
import base64
import hashlib
import hmac

from bitcoinx import base58
from bitcoinx import aes, keys, signature
from bitcoinx.address import P2PKH_Address
from bitcoinx.hashes import sha256, double_sha256, hash160
from bitcoinx.keys import PrivateKey, PublicKey, DecryptionError
from bitcoinx.signature import InvalidSignatureError, Signature, SigHash
from pyvc.api import *
from contracts.c01_varint import spec_varint
from contracts.c11_base58 import check_decoding_of_encoding
from contracts.c14_keys import PRIV, PUB, SCALAR, COIN, same_public
from contracts.c29_aes import unpadded

N = CURVE_N
U64 = (1 << 64) - 1
MESSAGE = AnyOf(Bytes(max=U64, smax=70), Str(max=1 << 60, smax=40))
MAGIC = OneOf(b'BIE1', b'', b'magic')
HASHER = OneOf(double_sha256, sha256)


def data_of(message):
    return message.encode() if isinstance(message, str) else message


# ---------------------------------------------------------------- C16
@driver('C16', key=PRIV, message=MESSAGE, magic=AnyOf(MAGIC, Bytes(smax=6)))
def encrypted_messages_decrypt(key, message, magic):
    usable_random()
    data = data_of(message)
    e = key.public_key.encrypt_message(message, magic)
    n = len(magic)
    check(e[:n] == magic, 'begins with the magic')
    check(len(e) == n + 33 + (len(data) // 16 + 1) * 16 + 32, 'length')
    check(key.decrypt_message(e, magic) == data, 'decrypts to the message')
    flipped = PrivateKey(key.to_bytes(), not key.is_compressed(), key.coin())
    check(flipped.decrypt_message(e, magic) == data, 'whatever the key flag')


@driver('C16', key=PRIV, message=MESSAGE)
def encrypted_text_decrypts(key, message):
    usable_random()
    data = data_of(message)
    check(key.decrypt_message(key.public_key.encrypt_message_to_base64(message)) == data, 'decrypts to the message')
    check(key.decrypt_message(key.public_key.encrypt_message(message)) == data, 'with the same default magic')


def spec_decrypt(key, message, magic):
    """The message, or None when it is to be refused."""
    n = len(magic)
    if len(message) < n + 81 or message[:n] != magic:
        return None
    point = outcome(lambda: PublicKey.from_bytes(message[n:n + 33]))
    if point[0] == 'exc':
        return None
    shared = hashlib.sha512(point[1].multiply(key.to_bytes()).to_bytes(compressed=True)).digest()
    if hmac.digest(shared[32:], message[:-32], hashlib.sha256) != message[-32:]:
        return None
    plain = outcome(lambda: aes.aes_decrypt_with_iv(shared[16:32], shared[:16], message[n + 33:-32]))
    return plain[1] if plain[0] == 'ok' else None


def altered(rng):
    key = PRIV.sample(rng)
    magic = MAGIC.sample(rng)
    e = key.public_key.encrypt_message(rng.randbytes(rng.choice((0, 1, 15, 16, 17))), magic)
    r = rng.random()
    if r < .2:
        e = e[:rng.randrange(len(e) + 1)]
    elif r < .6:
        b = bytearray(e)
        b[rng.choice((0, len(magic), rng.randrange(len(b)), -1, -32, -33))] ^= 1 << rng.randrange(8)
        e = bytes(b)
    elif r < .8:                        # a right HMAC over something else
        n = len(magic)
        body = bytearray(e[:-32])
        i = rng.choice((len(body) - 1, len(body) - 17, n + 33, len(body) - rng.randrange(1, 16)))
        body[i] ^= 1 << rng.randrange(8)
        if rng.random() < .3:
            body = body[:-rng.randrange(1, 17)]
        shared = hashlib.sha512(PublicKey.from_bytes(e[n:n + 33]).multiply(key.to_bytes()).to_bytes(compressed=True)).digest()
        e = bytes(body) + hmac.digest(shared[32:], bytes(body), hashlib.sha256)
    return {'key': key, 'message': e, 'magic': magic}


@driver('C16', samples=altered, key=PRIV, message=Bytes(smax=200), magic=AnyOf(MAGIC, Bytes(smax=6)))
def decryption_of_anything(key, message, magic):
    want = spec_decrypt(key, message, magic)
    got = outcome(lambda: key.decrypt_message(message, magic))
    check(got == (('exc', DecryptionError) if want is None else ('ok', want)), 'data only when everything is right')


def altered_text(rng):
    a = altered(rng)
    t = base64.b64encode(a['message']).decode()
    r = rng.random()
    if r < .3 and t:
        i = rng.randrange(len(t))
        t = t[:i] + rng.choice('=\n *\u00e9\u0660-_') + t[i + (r < .15):]
    elif r < .4:
        t = t[:-1]
    return {'key': a['key'], 'text': t, 'magic': a['magic']}


@driver('C16', samples=altered_text, key=PRIV, text=Str(), magic=MAGIC)
def decryption_of_any_text(key, text, magic):
    raw = outcome(lambda: base64.b64decode(text, validate=True))
    want = None if raw[0] == 'exc' else spec_decrypt(key, raw[1], magic)
    got = outcome(lambda: key.decrypt_message(text, magic))
    check(got == (('exc', DecryptionError) if want is None else ('ok', want)), 'as the bytes it encodes')


@driver('C16', a=PRIV, b=PRIV, message=Bytes(smax=70), hasher=OneOf(sha256, double_sha256))
def shared_secrets_agree(a, b, message, hasher):
    x, y = a.ecdh_shared_secret(b.public_key), b.ecdh_shared_secret(a.public_key)
    check(x.to_bytes(compressed=True) == y.to_bytes(compressed=True), 'ECDH')
    x = outcome(lambda: a.shared_secret(b.public_key, message, hasher).to_bytes(compressed=True))
    y = outcome(lambda: b.shared_secret(a.public_key, message, hasher).to_bytes(compressed=True))
    check(x == y, 'with a message')


# ---------------------------------------------------------------- C17
def framed(message):
    data = data_of(message)
    return b'\x18Bitcoin Signed Message:\n' + spec_varint(len(data)) + data


def rs(sig):
    return int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:64], 'big')


@driver('C17', key=PRIV, message=MESSAGE, hasher=HASHER)
def signed_messages_verify(key, message, hasher):
    sig = key.sign_message(message, hasher)
    flag = 4 if key.is_compressed() else 0
    check(isinstance(sig, bytes) and len(sig) == 65 and 27 + flag <= sig[0] <= 30 + flag, 'form')
    check(PublicKey.from_signed_message(sig, message, hasher) == key.public_key, 'recovers the signer')
    check(key.public_key.verify_message(sig, message, hasher) is True, 'verifies')
    check(key.public_key.complement().verify_message(sig, message, hasher) is True, 'in either form')
    raw = key.sign_recoverable(framed(message), hasher)
    check(sig == bytes([27 + flag + raw[64]]) + raw[:64], 'of the framed message')


@driver('C17', key=PRIV, message=MESSAGE, hasher=HASHER)
def signed_text_verifies(key, message, hasher):
    text = key.sign_message_to_base64(message, hasher)
    check(base64.b64decode(text, validate=True) == key.sign_message(message, hasher), 'the same signature')
    check(PublicKey.from_signed_message(text, message, hasher) == key.public_key, 'recovers the signer')
    check(key.public_key.verify_message(text, message, hasher) is True, 'verifies')


@driver('C17', timeout=300, split='hasher as_text', key=PRIV, message=Bytes(max=U64, smax=70), hasher=HASHER, compressed=Bool(),
        as_text=OneOf(False, True), coin=OneOf(COIN.vals[0]))
def signed_messages_verify_by_address(key, message, hasher, compressed, as_text, coin):
    sig = key.sign_message(message, hasher)
    public = key.public_key
    h = public.hash160(compressed=compressed)
    check(h == hash160(public.to_bytes(compressed=compressed)), 'its hash')
    address = P2PKH_Address(h, coin)
    if as_text:
        check_decoding_of_encoding(bytes([coin.P2PKH_verbyte]) + h)
        address = address.to_string()
    check(PublicKey.verify_message_and_address(sig, message, address, hasher=hasher) is True, 'verifies')


@driver('C17', timeout=300, split='hasher', key=PRIV, message=Bytes(max=U64, smax=70), hasher=HASHER, h=Bytes(n=20))
def signed_messages_fail_for_other_addresses(key, message, hasher, h):
    sig = key.sign_message(message, hasher)
    require(h != key.public_key.hash160(compressed=True) and h != key.public_key.hash160(compressed=False))
    check(PublicKey.verify_message_and_address(sig, message, P2PKH_Address(h, COIN.vals[0]), hasher=hasher) is False, 'another address')


def payload_samples(rng):
    key = PRIV.sample(rng)
    h = key.public_key.hash160(compressed=rng.random() < .5)
    p = rng.choice((h, h, h[:-1], h[1:], h + b'\0', b'', rng.randbytes(20), h[10:], h[:10], bytes(20)))
    return {'key': key, 'message': rng.randbytes(rng.randrange(9)), 'hasher': HASHER.sample(rng),
            'payload': rng.choice((b'\0', b'\x6f', b'\5', b'')) + p}


@driver('C17', timeout=300, split='hasher', samples=payload_samples, key=PRIV, message=Bytes(max=U64, smax=70), hasher=HASHER,
        payload=Bytes(max=60))
def signed_messages_and_address_texts(key, message, hasher, payload):
    """Exactly the texts of the hash of the key verify."""
    sig = key.sign_message(message, hasher)
    check_decoding_of_encoding(payload)
    text = base58.base58_encode_check(payload)
    h = payload[1:]
    mine = h == key.public_key.hash160(compressed=True) or h == key.public_key.hash160(compressed=False)
    check(PublicKey.verify_message_and_address(sig, message, text, hasher=hasher) is mine, 'the text of the key')


BYTES_MESSAGE = Bytes(max=U64, smax=70)


@driver('C17', timeout=400, split='hasher', key=PRIV, message=BYTES_MESSAGE, other=BYTES_MESSAGE, hasher=HASHER)
def signatures_are_for_one_message(key, message, other, hasher):
    require(int.from_bytes(hasher(framed(message)), 'big') != int.from_bytes(hasher(framed(other)), 'big'))
    sig = key.sign_message(message, hasher)
    check(key.public_key.verify_message(sig, other, hasher) is False, 'not for another message')
    o = outcome(lambda: PublicKey.from_signed_message(sig, other, hasher))
    check(o[0] == 'exc' or o[1] != key.public_key, 'nor is the signer found')


def signature_hint(rng):
    sig = PRIV.sample(rng).sign_message(rng.randbytes(3))
    b = bytearray(sig)
    r = rng.random()
    if r < .4:
        b[0] = rng.choice((0, 4, 26, 27, 28, 29, 30, 31, 34, 35, 36, 255))
    elif r < .5:
        b[1:33] = rng.choice((bytes(32), b'\xff' * 32, N.to_bytes(32, 'big'), (N - 1).to_bytes(32, 'big')))
    elif r < .6:
        b[33:] = rng.choice((bytes(32), b'\xff' * 32, N.to_bytes(32, 'big'), (N - 1).to_bytes(32, 'big')))
    elif r < .7:
        b = b[:-1] if r < .65 else b + b'\0'
    return bytes(b)


def well_formed(sig):
    return isinstance(sig, bytes) and len(sig) == 65 and 27 <= sig[0] <= 34


def check_any(sig, raw, key, message, hasher, address):
    """raw: the bytes sig stands for, or None."""
    verified = outcome(lambda: key.verify_message(sig, message, hasher))
    recovered = outcome(lambda: PublicKey.from_signed_message(sig, message, hasher))
    by_address = outcome(lambda: PublicKey.verify_message_and_address(sig, message, address, hasher=hasher))
    good = raw is not None and well_formed(raw)
    if good:
        r, s = rs(raw[1:])
        good = r < N and s < N
    if not good:
        check(verified == ('exc', InvalidSignatureError), 'not verified')
        check(recovered == ('exc', InvalidSignatureError), 'no signer')
        check(by_address == ('ok', False), 'not by address')
        return
    rec = raw[1:] + bytes([(raw[0] - 27) % 4])
    digest = hasher(framed(message))
    check(verified == ('ok', key.verify_recoverable_signature(rec, digest, None)), 'verified as ECDSA says')
    want = outcome(lambda: PublicKey.from_recoverable_signature(rec, digest, None))
    check(recovered[0] == want[0], 'recovered when there is a key')
    if want[0] == 'exc':
        check(recovered[1] is InvalidSignatureError, 'the signature error')
        check(by_address == ('ok', False), 'not by address')
        return
    public = recovered[1]
    check(same_public(public, want[1]), 'that key')
    ok = public.verify_recoverable_signature(rec, digest, None) and (
        address.hash160() == hash160(public.to_bytes(compressed=True)) or address.hash160() == hash160(public.to_bytes(compressed=False)))
    check(by_address == ('ok', ok), 'by address exactly when the signer has it')


@driver('C17', timeout=300, split='hasher', sig=AnyOf(Bytes(smax=70, hint=signature_hint), OneOf(None, 5, bytearray(65))), key=PUB, message=Bytes(max=U64, smax=70),
        hasher=HASHER, h=Bytes(n=20))
def any_signature(sig, key, message, hasher, h):
    check_any(sig, sig if isinstance(sig, bytes) else None, key, message, hasher, P2PKH_Address(h, COIN.vals[0]))


def signature_text(rng):
    t = base64.b64encode(signature_hint(rng)).decode()
    r = rng.random()
    if r < .3:
        i = rng.randrange(len(t))
        t = t[:i] + rng.choice('=\n *\u00e9\u0660-_') + t[i + (r < .15):]
    elif r < .4:
        t = t[:-1]
    return t


@driver('C17', timeout=300, split='hasher', sig=Str(hint=signature_text), key=PUB, message=Bytes(max=U64, smax=70), hasher=HASHER, h=Bytes(n=20))
def any_signature_text(sig, key, message, hasher, h):
    raw = outcome(lambda: base64.b64decode(sig, validate=True))
    check_any(sig, raw[1] if raw[0] == 'ok' else None, key, message, hasher, P2PKH_Address(h, COIN.vals[0]))


@driver('C17', key=PRIV, message=MESSAGE, sig=Bytes(n=65, hint=signature_hint))
def a_hasher_is_needed(key, message, sig):
    check(exc_of(lambda: key.sign_message(message, None)) is ValueError)
    check(exc_of(lambda: key.public_key.verify_message(sig, message, None)) is ValueError)
    check(exc_of(lambda: PublicKey.from_signed_message(sig, message, None)) is ValueError)


# ------------------------------------------------ plain and recoverable signatures
@driver('C17', key=PRIV, message=Bytes(smax=70), hasher=HASHER)
def signatures_verify(key, message, hasher):
    der = key.sign(message, hasher)
    check(key.public_key.verify_der_signature(der, message, hasher) is True, 'DER')
    check(key.public_key.verify_der_signature(der, hasher(message), None) is True, 'of the hash')
    raw = key.sign_recoverable(message, hasher)
    check(len(raw) == 65 and 0 <= raw[64] <= 3, 'recoverable form')
    check(key.public_key.verify_recoverable_signature(raw, message, hasher) is True, 'recoverable')
    check(PublicKey.from_recoverable_signature(raw, message, hasher) == key.public_key, 'recovers the signer')
    compact = signature.der_signature_to_compact(der)
    check(compact == raw[:64] and signature.compact_signature_to_der(compact) == der, 'the same signature in every form')


@driver('C17', key=PRIV, message=Bytes(smax=70))
def only_32_byte_hashes(key, message):
    require(len(message) != 32)
    check(exc_of(lambda: key.sign(message, None)) is ValueError and exc_of(lambda: key.sign_recoverable(message, None)) is ValueError, 'not signed')


def compact_hint(rng):
    part = lambda: rng.choice((rng.randbytes(32), bytes(32), N.to_bytes(32, 'big'), (N - 1).to_bytes(32, 'big'), b'\xff' * 32, bytes(31) + b'\x81'))
    out = part() + part()
    return out if rng.random() < .9 else out[:-1]


@driver('C17', compact=AnyOf(Bytes(smax=70, hint=compact_hint), OneOf(None, 'a' * 64)))
def compact_to_der_and_back(compact):
    o = outcome(lambda: signature.compact_signature_to_der(compact))
    if not isinstance(compact, bytes) or len(compact) != 64 or max(rs(compact)) >= N:
        check(o == ('exc', InvalidSignatureError), 'refused')
    else:
        check(o[0] == 'ok' and signature.der_signature_to_compact(o[1]) == compact, 'and back')


def der_hint(rng):
    d = bytearray(PRIV.sample(rng).sign(rng.randbytes(4)))
    r = rng.random()
    if r < .5:
        d[rng.choice((0, 1, 2, 3, 4, 5, rng.randrange(len(d))))] ^= 1 << rng.randrange(8)
    elif r < .7:
        d = d[:rng.randrange(len(d))]
    return bytes(d)


@driver('C17', der=Bytes(smax=80, hint=der_hint), key=PUB, message=Bytes(smax=70))
def any_der(der, key, message):
    a = outcome(lambda: signature.der_signature_to_compact(der))
    b = outcome(lambda: key.verify_der_signature(der, message))
    check(a[0] == b[0] and (a[0] == 'ok' or a[1] is InvalidSignatureError and b[1] is InvalidSignatureError), 'only the signature error')
    if a[0] == 'ok':
        check(len(a[1]) == 64 and max(rs(a[1])) < N and (b[1] is True or b[1] is False))


@driver('C17', key=PRIV, message=Bytes(smax=70), sighash=Int(0, 255))
def script_signatures(key, message, sighash):
    der = key.sign(message)
    s = Signature.from_der_sig(der, sighash)
    check(s.to_bytes() == der + bytes([sighash]) and bytes(s) == s.to_bytes() and s.to_hex() == s.to_bytes().hex(), 'DER and a byte')
    check(s.der_signature == der and s.sighash == sighash and s.is_present(), 'its parts')
    check(s.to_compact() == signature.der_signature_to_compact(der) and (s.r_value(), s.s_value()) == rs(s.to_compact()), 'r and s')
    check(Signature(s.to_bytes()) == s and Signature.from_hex(s.to_hex()) == s, 'parsed back')


def raw_signature_hint(rng):
    d = der_hint(rng)
    return rng.choice((d + b'\x41', d, b'\xff', b'', b'\xff\xff'))


@driver('C17', raw=Bytes(smax=80, hint=raw_signature_hint))
def any_script_signature(raw):
    o = outcome(lambda: Signature(raw))
    if raw == b'\xff':
        check(o[0] == 'ok' and o[1].is_present() is False and o[1] == Signature.MISSING, 'the missing signature')
        check(exc_of(lambda: o[1].der_signature) is InvalidSignatureError and exc_of(lambda: o[1].sighash) is InvalidSignatureError)
        return
    good = outcome(lambda: signature.der_signature_to_compact(raw[:-1]))[0]
    check(o[0] == good and (good == 'ok' or o[1] is InvalidSignatureError), 'made when DER')
    if good == 'ok':
        check(o[1].to_bytes() == raw and o[1].is_present(), 'the bytes')
