"""C21 compact targets and work."""
from bitcoinx import work
from pyvc.api import *

TOP = 1 << 256


def bits_hint(rng):
    return (rng.choice((0, 1, 2, 3, 4, 29, 31, 32, 33, 34)) << 24) + \
        rng.choice((0, 1, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x800000, 0x808000, 0x120000, rng.randrange(1 << 24)))


class Bits(Int):
    def sample(self, rng, depth=0):
        return bits_hint(rng) if rng.random() < .7 else super().sample(rng, depth)


def spec_target(bits):
    """Only what the encoder generates: three significant bytes, the first below 0x80, and below 2^256."""
    if not 0 <= bits <= 0x2100ffff:
        raise ValueError
    word = bits % (1 << 24)
    size = bits // (1 << 24)
    if bits == 0:
        return 0
    if not 0x8000 <= word <= 0x7fffff:
        raise ValueError
    if size >= 3:
        return word * 256 ** (size - 3)
    unit = 256 ** (3 - size)
    if word % unit != 0:
        raise ValueError
    return word // unit


def spec_bits(target):
    if not 0 <= target < TOP:
        raise ValueError
    size = (target.bit_length() + 7) // 8
    word = target * 256 ** (3 - size) if size <= 3 else target // 256 ** (size - 3)
    if word >= 0x800000:
        return word // 256 + (size + 1) * 0x1000000
    return word + size * 0x1000000


@ghost('C21', result=Opt(Int(0, TOP - 1)), bits=Bits())
def target_of(bits):
    """The target of compact bits, None if they are not valid."""
    try:
        return spec_target(bits)
    except ValueError:
        return None


@ghost('C21', result=Int(0, 0x2100ffff), target=Int(0, TOP - 1))
def bits_of(target):
    return spec_bits(target)


def decoded(bits):
    target = target_of(bits)
    if target is None:
        raise ValueError
    return target


def encoded(target):
    if not 0 <= target < TOP:
        raise ValueError
    return bits_of(target)


@contract('work.bits_to_target', 'C21 C22 C23 C24', bits=Bits())
def c_bits_to_target(bits):
    unfold(target_of, bits)
    return decoded(bits)


@contract('work.target_to_bits', 'C21 C22', target=Int())
def c_target_to_bits(target):
    if 0 <= target < TOP:
        unfold(bits_of, target)
    return encoded(target)


def work_of(bits):
    """The expected number of hashes."""
    return TOP // (decoded(bits) + 1)


@contract('work.bits_to_work', 'C21 C22 C24', bits=Bits())
def c_bits_to_work(bits):
    return work_of(bits)


@driver('C21', bits=Bits())
def accepted_compact_re_encodes(bits):
    r = outcome(lambda: spec_target(bits))
    require(r[0] == 'ok')
    check(0 <= r[1] < TOP, 'a target')
    check(spec_bits(r[1]) == bits, 'encodes to the same value')


def compact_form(target, bits_range):
    bits = spec_bits(target)
    check(0 <= bits <= 0x2100ffff, 'in range')
    t = spec_target(bits)
    check(t <= target, 'never rounds up')
    if target < 1 << 15:
        check(t == target, 'small targets are exact')
    for n in bits_range:
        if 1 << (n - 1) <= target < 1 << n:
            check(t // (1 << (n - 15)) == target // (1 << (n - 15)), 'leading 15 bits agree')


@driver('C21', target=Int(0, (1 << 15) - 1))
def compact_form_of_a_small_target(target):
    compact_form(target, ())


def add_compact_form(lo, hi):
    @driver('C21', name=f'compact_form_of_{lo}_to_{hi - 1}_bit_targets', target=Int(1 << (lo - 1), (1 << (hi - 1)) - 1))
    def compact_form_of_a_target(target):
        compact_form(target, range(lo, hi))


for _n in range(16, 257, 8):
    add_compact_form(_n, min(_n + 8, 257))


@driver('C21', a=Int(0, TOP - 1), b=Int(0, TOP - 1))
def compact_forms_are_monotone(a, b):
    require(a <= b)
    check(spec_bits(a) <= spec_bits(b), 'monotone')
    check(spec_target(spec_bits(a)) <= spec_target(spec_bits(b)), 'decoded values too')
