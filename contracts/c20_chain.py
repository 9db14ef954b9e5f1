"""C20 BIP32 chain strings and derivation lists."""
import re
from bitcoinx import bip32
from pyvc.api import *

H = 1 << 31


def part_hint(rng):
    n = rng.choice((0, 1, 9, 10, H - 1, H, H + 1, 1 << 32, rng.randrange(1 << 31), rng.randrange(1 << 33)))
    s = str(n)
    r = rng.random()
    if r < .1:
        s = rng.choice('0+- _\u0661\u00b2') + s
    s += rng.choice(('', '', "'", "'", "''", '\n', "'\n", ' ', '_1', 'h', 'H', '"'))
    if r > .95:
        s = rng.choice(('', "'", 'm', 'M', '\u0663', '0' * 5000 + '1'))
    return s


PART = Str(exclude='/', hint=part_hint)


CHAIN = Joined('/', PART, first='m')


def spec_part(p):
    m = re.fullmatch("([0-9]+)('?)", p)
    if m is None:
        raise ValueError
    n = int(m.group(1))
    if n >= H:
        raise ValueError
    return n + H if m.group(2) else n


def spec_decompose(chain_str):
    parts = chain_str.split('/')
    if parts[0] != 'm':
        raise ValueError
    return [spec_part(p) for p in parts[1:]]


@contract('bip32.bip32_decompose_chain_string', 'C20', chain_str=CHAIN)
def c_decompose(chain_str):
    return spec_decompose(chain_str)


@contract('bip32.bip32_is_valid_chain_string', 'C20', chain_str=CHAIN)
def c_is_valid(chain_str):
    return exc_of(lambda: spec_decompose(chain_str)) is None


def part_text(n):
    return str(n) if n < H else str(n - H) + "'"


NUMBERS = ListOf(Int(0, (1 << 32) - 1, edges=(H, H - 1)))
MAYBE = ListOf(AnyOf(Int(), Const(None), Const('1'), Const(1.0), Bool()))


@contract('bip32.bip32_validate_derivation', 'C20', derivation=AnyOf(NUMBERS, MAYBE))
def c_validate(derivation):
    for n in derivation:
        if not isinstance(n, int):
            raise TypeError
        if n < 0 or n >= 1 << 32:
            raise ValueError
    return [n for n in derivation]


@contract('bip32.bip32_build_chain_string', 'C20', derivation=NUMBERS)
def c_build(derivation):
    return '/'.join(['m'] + [part_text(n) for n in derivation])


@driver('C20', numbers=NUMBERS)
def chain_round_trip(numbers):
    check_same(lambda: bip32.bip32_decompose_chain_string(bip32.bip32_build_chain_string(numbers)), lambda: numbers)


@driver('C20', pre=NUMBERS, bad=AnyOf(Int(None, -1), Int(1 << 32), Const(None), Const('1'), Const(b'1')), post=NUMBERS)
def invalid_numbers_are_rejected(pre, bad, post):
    e = exc_of(lambda: bip32.bip32_build_chain_string(pre + [bad] + post))
    check(e is (ValueError if isinstance(bad, int) else TypeError), 'rejected')


@driver('C20', bad=AnyOf(Const(None), Bytes(smax=5), Int(), Const([]), Const(('m', 1))))
def text_is_required(bad):
    check(exc_of(lambda: bip32.bip32_decompose_chain_string(bad)) is TypeError, 'TypeError')


@driver('C20', derivation=AnyOf(NUMBERS, MAYBE))
def any_iterable_is_validated(derivation):
    check_same(lambda: bip32.bip32_validate_derivation(iter(derivation)), lambda: bip32.bip32_validate_derivation(derivation))


@driver('C20', derivation=NUMBERS)
def any_iterable_builds(derivation):
    check_same(lambda: bip32.bip32_build_chain_string(iter(derivation)), lambda: bip32.bip32_build_chain_string(derivation))
