"""Block headers and the text form of hashes."""
import struct
from hashlib import sha256
from pyvc.api import driver, check, outcome, exc_of, Int, OneOf, Bytes, Str
from bitcoinx import (all_coins, hash_to_hex_str, hex_str_to_hash, hash_to_value, double_sha256, hash160, sha512, ripemd160)
import hashlib

COIN = OneOf(*all_coins)
HEX = '0123456789abcdefABCDEF'


def backwards(b):
    return bytes([b[len(b) - 1 - k] for k in range(len(b))])


@driver('C32', x=Bytes(smax=80))
def forms_of_a_hash(x):
    check(hash_to_hex_str(x) == backwards(x).hex(), 'hex digits of the bytes backwards')
    check(hash_to_value(x) == int.from_bytes(x, 'little'), 'a little-endian number')


@driver('C32', x=Bytes(smax=80))
def hash_text_round_trip(x):
    check(hex_str_to_hash(hash_to_hex_str(x)) == x, 'the text of a hash gives the hash')


@driver('C32', text=Str(smax=80, hint=lambda rng: ''.join(rng.choice(HEX) for _ in range(rng.choice((64, 64, 2, 63, 0))))))
def text_hash(text):
    kind, x = outcome(lambda: bytes.fromhex(text))
    if kind == 'ok':
        check(hex_str_to_hash(text) == backwards(x), 'the bytes backwards')
    else:
        check(exc_of(lambda: hex_str_to_hash(text)) is ValueError, 'not hexadecimal')


@driver('C32', coin=COIN, raw=Bytes(n=80), height=Int())
def header_fields(coin, raw, height):
    version = int.from_bytes(raw[:4], 'little')
    h = coin.deserialized_header(raw, height)
    check(h.version == (version if version < 1 << 31 else version - (1 << 32)), 'version')
    check(h.prev_hash == raw[4:36], 'previous hash')
    check(h.merkle_root == raw[36:68], 'merkle root')
    check(h.timestamp == int.from_bytes(raw[68:72], 'little'), 'timestamp')
    check(h.bits == int.from_bytes(raw[72:76], 'little'), 'bits')
    check(h.nonce == int.from_bytes(raw[76:], 'little'), 'nonce')
    check(h.raw == raw and h.height == height, 'what it was made from')
    digest = sha256(sha256(raw).digest()).digest()
    check(h.hash == digest, 'double sha-256')
    check(h.hex_str() == backwards(digest).hex(), 'displayed backwards')
    check(h.hash_value() == int.from_bytes(digest, 'little'), 'as a number')
    check(coin.header_hash(raw) == digest and coin.header_prev_hash(raw) == h.prev_hash, 'the same from the raw header')
    check(coin.header_timestamp(raw) == h.timestamp and coin.header_bits(raw) == h.bits, 'the same from the raw header')


@driver('C32', coin=COIN, raw=Bytes(smax=200), height=Int())
def headers_have_80_bytes(coin, raw, height):
    if len(raw) != 80:
        check(exc_of(lambda: coin.deserialized_header(raw, height)) is struct.error, 'not a header')


@driver('C32', x=Bytes(smax=200))
def named_hashes(x):
    check(double_sha256(x) == sha256(sha256(x).digest()).digest(), 'double sha-256')
    check(hash160(x) == hashlib.new('ripemd160', sha256(x).digest()).digest(), 'ripemd-160 of sha-256')
    check(ripemd160(x) == hashlib.new('ripemd160', x).digest(), 'ripemd-160')
    check(sha512(x) == hashlib.sha512(x).digest(), 'sha-512')
