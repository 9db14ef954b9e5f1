"""New Electrum mnemonics."""
import hmac
from unicodedata import normalize
from pyvc.api import contract, driver, check, require, exc_of, outcome, Int, OneOf, AnyOf, Bytes, Str, Bool, word_list, random_source
from bitcoinx import ElectrumMnemonic

HEX = '0123456789abcdef'


def version(text):
    """The digits a phrase is known by."""
    return hmac.digest(b'Seed version', normalize('NFKD', text).lower().encode(), 'sha512').hex()


def text_hint(rng):
    return ''.join(rng.choice('abc AZ\t\u210c\uff37\u00e9e\u0301\u0130\u2126\ufb01\u1e9e\u30ab\u3099') for _ in range(rng.randint(0, 12)))


TEXT = Str(exclude=''.join(map(chr, range(0xd800, 0xe000))), hint=text_hint)


def own_prefix(rng):
    text = TEXT.sample(rng)
    return {'mnemonic': text, 'prefix': version(text)[:rng.randrange(5)]}


@contract('mnemonic.ElectrumMnemonic.is_valid_new', 'C28', split='prefix', samples=own_prefix, mnemonic=TEXT, prefix=AnyOf(*[Str(HEX, n=k) for k in range(5)]))
def is_valid_new(mnemonic, prefix):
    return version(mnemonic).startswith(prefix)


def needed(n, bits):
    """The number of words of n that hold so many bits."""
    k = 1
    while n ** k < 1 << bits:
        k += 1
    return k


def phrase(words, n, count, value):
    return ' '.join([words[value // n ** k % n] for k in range(count)])


def entropy(n, count, data):
    """The entropy random bytes give, or None when they are drawn again."""
    top = n ** count
    value = int.from_bytes(data[:random_size(n, count)], 'big') % top
    return value if value > top // n + 1 else None


def random_size(n, count):
    return ((n ** count - 1).bit_length() + 16 + 7) // 8


def made(words, n, count, data, prefix, bits, skip_old):
    return random_source(data[:random_size(n, count)], lambda: ElectrumMnemonic.generate_new(words, prefix=prefix, bits=bits,
                                                                                         skip_old=skip_old))


@driver('C28', split='n bits', n=OneOf(2048, 2049, 4096), bits=OneOf(132, 133, 256), kind=Int(0, 5), data=Bytes(min=48, max=48), k=Int(0, 2))
def first_candidate(n, bits, kind, data, k):
    count = needed(n, bits)
    words = word_list(n, kind)
    value = entropy(n, count, data)
    require(value is not None)
    text = phrase(words, n, count, value)
    prefix = version(text)[:2 * k]
    check(made(words, n, count, data, prefix, bits, False) == text, 'the digits of the entropy, least first')


@driver('C28', split='n', n=OneOf(2048, 2049), kind=Int(0, 5), data=Bytes(min=48, max=48))
def second_candidate(n, kind, data):
    count = 12
    words = word_list(n, kind)
    top = n ** count
    value = entropy(n, count, data)
    require(value is not None)
    step = 1 if value < (top // n + 1 + top) // 2 else -1
    text = phrase(words, n, count, value + step)
    prefix = version(text)[:2]
    require(not version(phrase(words, n, count, value)).startswith(prefix))
    check(made(words, n, count, data, prefix, 132, False) == text, 'the next number when the first phrase is of another prefix')


@driver('C28', kind=Int(0, 5), data=Bytes(min=48, max=48))
def twelve_words(kind, data):
    n, count = 2048, 12
    words = word_list(n, kind)
    value = entropy(n, count, data)
    require(value is not None)
    text = phrase(words, n, count, value)
    if not ElectrumMnemonic.is_valid_old(text):
        check(made(words, n, count, data, version(text)[:2], 132, True) == text, 'a phrase that is not an old one')


def hex_phrases(rng):
    # ten words of two digits and three of four are the digits of 16 bytes
    ids = [8 * rng.randrange(1, 256) for _ in range(10)] + [8 * rng.randrange(256) + 1 for _ in range(3)]
    rng.shuffle(ids)
    value = 0
    for i in ids:
        value = value * 2048 + i
    return {'kind': 6, 'data': value.to_bytes(random_size(2048, 13), 'big') + bytes(48 - random_size(2048, 13))}


@driver('C28', samples=hex_phrases, kind=Int(0, 6), data=Bytes(min=48, max=48))
def not_an_old_seed(kind, data):
    n, count = 2048, 13
    words = word_list(n, kind)
    value = entropy(n, count, data)
    require(value is not None)
    text = phrase(words, n, count, value)
    if not ElectrumMnemonic.is_valid_old(text):
        check(made(words, n, count, data, '', 143, True) == text, 'a phrase that is not an old one')
    else:
        step = 1 if value < (n ** count // n + 1 + n ** count) // 2 else -1
        other = phrase(words, n, count, value + step)
        require(not ElectrumMnemonic.is_valid_old(other))
        check(made(words, n, count, data, '', 143, True) == other, 'a phrase that is an old one is not taken')


@driver('C28', n=Int(0, 6000, edges=(2047, 2048)), bits=Int(-5, 400, edges=(131, 132)), data=Bytes(min=48, max=48))
def new_refusals(n, bits, data):
    words = word_list(n, 0)
    if bits < 132 or n < 2048:
        check(exc_of(lambda: made(words, 2048, 12, data, '', bits, False)) is ValueError, 'refused')


@driver('C28', mode='bounded', n=Int(2048, 9000), bits=Int(132, 700), kind=Int(0, 5), prefix=Str(HEX, max=2), skip_old=Bool())
def any_source(n, bits, kind, prefix, skip_old):
    words = word_list(n, kind)
    text = ElectrumMnemonic.generate_new(words, prefix=prefix, bits=bits, skip_old=skip_old)
    check(len(text.split()) == needed(n, bits), 'as many words as the bits need')
    check(all(w in words for w in text.split()), 'words of the list')
    check(version(text).startswith(prefix), 'of the prefix')
    check(not skip_old or not ElectrumMnemonic.is_valid_old(text), 'not an old one')
