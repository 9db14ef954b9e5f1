"""BIP39 mnemonics."""
from hashlib import sha256, pbkdf2_hmac
from unicodedata import normalize
from pyvc.api import (driver, check, require, exc_of, Int, Bytes, OneOf, ListOf, Bool, word_list, word_of, typed,
                      random_source, Str)
from bitcoinx import BIP39Mnemonic

SIZES = (16, 20, 24, 28, 32)


def checksum(entropy):
    bits = len(entropy) // 4
    return int.from_bytes(sha256(entropy).digest(), 'big') >> (256 - bits)


def encoded(entropy):
    """The number the words of an entropy spell."""
    return int.from_bytes(entropy, 'big') * (1 << len(entropy) // 4) + checksum(entropy)


@driver('C26', split='size', size=OneOf(*SIZES), data=Bytes(min=32, max=32), kind=Int(0, 5))
def entropy_to_words(size, data, kind):
    entropy = data[:size]
    words = word_list(2048, kind)
    text = random_source(entropy, lambda: BIP39Mnemonic.generate(words, size * 8))
    count = size * 3 // 4
    value = encoded(entropy)
    spelled = [words[value // 2048 ** (count - 1 - k) % 2048] for k in range(count)]
    check(text == ' '.join(spelled), 'eleven bits a word')
    check(BIP39Mnemonic.is_valid(text, words) is True, 'what was generated is valid')


@driver('C26', split='count', count=OneOf(12, 15, 18, 21, 24), ids=ListOf(Int(0, 2047), 24, 24), kind=Int(0, 5), how=Int(0, 5))
def validity(count, ids, kind, how):
    words = word_list(2048, kind)
    value = 0
    for k in range(count):
        value = value * 2048 + ids[k]
    bits = count // 3
    entropy = (value >> bits).to_bytes(bits * 4, 'big')
    good = checksum(entropy) == value % (1 << bits)
    spelled = [words[ids[k]] for k in range(count)]
    check(BIP39Mnemonic.is_valid(' '.join(spelled), words) == good, 'the checksum decides')
    check(BIP39Mnemonic.is_valid(typed(spelled, how), words) == good, 'however typed')


def bad_words(f):
    try:
        f()
    except BIP39Mnemonic.BadWords as e:
        return list(e.args[0])
    return None


@driver('C26', ids=ListOf(Int(0, 2047), smax=27), kind=Int(0, 5), how=Int(0, 5))
def other_counts(ids, kind, how):
    require(len(ids) not in (12, 15, 18, 21, 24))
    words = word_list(2048, kind)
    check(BIP39Mnemonic.is_valid(typed([words[i] for i in ids], how), words) is False, 'a wrong number of words')


@driver('C26', split='count', count=OneOf(12, 15, 18, 21, 24), ids=ListOf(Int(0, 2047), 24, 24), p=Int(0, 23), q=Int(0, 23),
        bad=Int(-3, -1), worse=Int(-3, -1), kind=Int(0, 5), how=Int(0, 5))
def unknown_words(count, ids, p, q, bad, worse, kind, how):
    require(p <= q < count)
    words = word_list(2048, kind)
    spelled = [word_of(words, worse if k == q and p < q else bad if k == p else ids[k]) for k in range(count)]
    wrong = [word_of(words, bad)] if p == q else [word_of(words, bad), word_of(words, worse)]
    check(bad_words(lambda: BIP39Mnemonic.is_valid(typed(spelled, how), words)) == wrong, 'words that are not in the list are refused and named')


@driver('C26', n=Int(0, 5000, edges=(1626, 2047, 2048, 2049)), bits=Int(-10, 1000, edges=(0, 96, 127, 128, 129, 132, 160, 192, 224, 256, 288)),
        data=Bytes(min=64, max=64), how=Int(0, 5), ids=ListOf(Int(0, 2047)))
def refusals(n, bits, data, how, ids):
    words = word_list(n, 0)
    got = exc_of(lambda: random_source(data[:16], lambda: BIP39Mnemonic.generate(words, bits)))
    if n != 2048 or bits not in (128, 160, 192, 224, 256):
        check(got is ValueError, 'refused')
    known = word_list(2048, 0)
    if n != 2048:
        text = typed([known[i] for i in ids], how)
        check(exc_of(lambda: BIP39Mnemonic.is_valid(text, words)) is ValueError, 'a list of the wrong length is refused')


@driver('C26', ids=ListOf(Int(0, 2047)), passphrase=Str(), kind=Int(0, 5), how=Int(0, 5))
def seeds(ids, passphrase, kind, how):
    require(not any(0xd800 <= ord(c) < 0xe000 for c in passphrase))
    words = word_list(2048, kind)
    spelled = [words[i] for i in ids]
    text = ' '.join(spelled)
    check(BIP39Mnemonic.normalize(typed(spelled, how)) == text, 'the normal phrase')
    salt = b'mnemonic' + normalize('NFKD', passphrase).encode()
    seed = pbkdf2_hmac('sha512', text.encode(), salt, 2048)
    check(BIP39Mnemonic.to_seed(typed(spelled, how), passphrase) == seed, 'the seed of a phrase however typed')
    check(BIP39Mnemonic.to_seed(text, passphrase) == seed, 'the seed of the normal phrase')
