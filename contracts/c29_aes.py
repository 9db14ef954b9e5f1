"""C29 PKCS7 padding and AES-CBC."""
import inspect

from Cryptodome.Cipher import AES

from bitcoinx import aes
from pyvc.api import *

KEY = AnyOf(Bytes(n=16), Bytes(n=24), Bytes(n=32))
IV = Bytes(n=16)


def padded(data):
    p = 16 - len(data) % 16
    return data + bytes([p]) * p


def unpadded(data):
    n = len(data)
    if n == 0 or n % 16 != 0:
        raise aes.BadPaddingError
    p = data[n - 1]
    if p < 1 or p > 16 or data[n - p:] != bytes([p]) * p:
        raise aes.BadPaddingError
    return data[:n - p]


@contract('aes.aes_encrypt_with_iv', 'C29 C16', key=KEY, iv=IV, data=Bytes(smax=200))
def c_encrypt(key, iv, data):
    return AES.new(key, AES.MODE_CBC, iv).encrypt(padded(data))


def cipher_hint(rng):
    d = padded(rng.randbytes(rng.randrange(40)))
    r = rng.random()
    if r < .3:
        i = rng.randrange(1, 17)
        d = d[:-i] + bytes([d[-i] ^ rng.randrange(1, 256)]) + (d[1 - i:] if i > 1 else b'')
    elif r < .5:
        p = rng.choice((0, 1, 15, 16, 17, 32, 255))
        d = (bytes(32) + bytes([p]) * 32)[-32:]
    return AES.new(bytes(16), AES.MODE_CBC, bytes(16)).encrypt(d)


@contract('aes.aes_decrypt_with_iv', 'C29 C16', key=AnyOf(Const(bytes(16)), KEY), iv=AnyOf(Const(bytes(16)), IV),
          data=Bytes(smax=200, hint=cipher_hint))
def c_decrypt(key, iv, data):
    return unpadded(AES.new(key, AES.MODE_CBC, iv).decrypt(data))


@driver('C29', key=KEY, iv=IV, data=Bytes(smax=200))
def decrypt_inverts_encrypt(key, iv, data):
    check_same(lambda: aes.aes_decrypt_with_iv(key, iv, aes.aes_encrypt_with_iv(key, iv, data)), lambda: data)


@driver('C29', data=Bytes(smax=200))
def padding_is_right(data):
    d = padded(data)
    n = len(d) - len(data)
    check(len(d) % 16 == 0 and 1 <= n <= 16, 'between 1 and 16 bytes to a multiple of 16')
    check(d[:len(data)] == data, 'the data comes first')
    check(d[len(data):] == bytes([n]) * n, 'each byte is their number')
    check(unpadded(d) == data, 'removable')


def takes_data(f):
    """The helpers are private: they are looked at as long as they are there and take the data alone."""
    try:
        return f is not None and inspect.signature(f).bind(b'') is not None
    except (TypeError, ValueError):
        return False


STRIP = getattr(aes, '_strip_PKCS7_padding', None)
APPEND = getattr(aes, '_append_PKCS7_padding', None)


def padded_hint(rng):
    d = padded(rng.randbytes(rng.randrange(40)))
    r = rng.random()
    if r < .3:
        d = rng.randbytes(rng.randrange(20)) + d
    elif r < .5:
        i = rng.randrange(1, 17)
        d = d[:-i] + bytes([d[-i] ^ rng.randrange(1, 256)]) + (d[1 - i:] if i > 1 else b'')
    elif r < .7:
        d = bytes([rng.choice((0, 1, 15, 16, 17, 32, 255))]) * rng.choice((1, 15, 16, 17, 32, 255, 256))
    return d


if takes_data(STRIP):
    @driver('C29', data=Bytes(smax=200, hint=padded_hint))
    def stripping_checks(data):
        check_same(lambda: STRIP(data), lambda: unpadded(data))


if takes_data(APPEND):
    @driver('C29', data=Bytes(smax=200))
    def appending_pads(data):
        check_same(lambda: APPEND(data), lambda: padded(data))


@driver('C29', mode='bounded', key=KEY, iv=IV, data=Bytes(smax=200))
def pure_python_cipher(key, iv, data):
    """The same with pyaes, which is used if pycryptodomex is not installed."""
    saved = aes.AES
    e = aes.aes_encrypt_with_iv(key, iv, data)
    aes.AES = None
    try:
        check(aes.aes_encrypt_with_iv(key, iv, data) == e, 'same ciphertext')
        check(aes.aes_decrypt_with_iv(key, iv, e) == data, 'decrypts')
        bad = AES.new(key, AES.MODE_CBC, iv).encrypt(data[:16].ljust(16, b'\0'))
        check_same(lambda: aes.aes_decrypt_with_iv(key, iv, bad),
                   lambda: unpadded(data[:16].ljust(16, b'\0')))
    finally:
        aes.AES = saved
