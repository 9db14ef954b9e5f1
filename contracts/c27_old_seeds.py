"""Old Electrum seeds and their phrases."""
from pyvc.api import driver, check, require, outcome, exc_of, Int, OneOf, ListOf, word_of, typed, Str, Bytes, random_source
from bitcoinx import ElectrumMnemonic, Wordlists

U32 = 4294967296
N = 1626
HEX = '0123456789abcdefABCDEF'


def value_of(a, b, c):
    """The number three words stand for."""
    return a + (b - a) % N * N + (c - b) % N * N * N


def spell(value):
    """The numbers of the three words of a number."""
    a = value % N
    b = (a + value // N % N) % N
    return [a, b, (b + value // (N * N)) % N]


@driver('C27', split='count', count=OneOf(4, 8), values=ListOf(Int(0, U32 - 1), 8, 8), how=Int(0, 5))
def seed_to_phrase(count, values, how):
    words = Wordlists.original_electrum_wordlist()
    seed = ''.join([f'{values[k]:08x}' for k in range(count)])
    phrase = ElectrumMnemonic.hex_seed_to_old(seed)
    spelled = [words[i] for k in range(count) for i in spell(values[k])]
    check(phrase == ' '.join(spelled), 'three words for eight digits')
    check(ElectrumMnemonic.old_to_hex_seed(phrase) == seed, 'back to the seed')
    check(ElectrumMnemonic.old_to_hex_seed(typed(spelled, how, 'lower')) == seed, 'back to the seed however typed')
    check(ElectrumMnemonic.is_valid_old(phrase) is True, 'valid')


def phrases(rng):
    near = (0, 1, N - 1, N, N * N - 1, N * N, U32 - 1, U32, U32 + 1, N ** 3 - 1)
    values = [rng.choice((rng.randrange(U32), min(rng.choice(near) + rng.choice((0, 0, rng.randrange(9))), N ** 3 - 1))) for _ in range(8)]
    return {'count': rng.choice((4, 8)), 'ids': [i for v in values for i in spell(v)], 'how': rng.randrange(6)}


@driver('C27', split='count', samples=phrases, count=OneOf(4, 8), ids=ListOf(Int(0, N - 1), 24, 24), how=Int(0, 5))
def phrase_to_seed(count, ids, how):
    words = Wordlists.original_electrum_wordlist()
    values = [value_of(ids[3 * k], ids[3 * k + 1], ids[3 * k + 2]) for k in range(count)]
    spelled = [words[ids[k]] for k in range(3 * count)]
    kind, got = outcome(lambda: ElectrumMnemonic.old_to_hex_seed(typed(spelled, how, 'lower')))
    if all([v < U32 for v in values]):
        check(kind == 'ok', 'converts')
        check(got == ''.join([f'{v:08x}' for v in values]), 'eight digits for three words')
        check(ElectrumMnemonic.hex_seed_to_old(got) == ' '.join(spelled), 'the phrase of its seed')
    else:
        check(kind == 'exc' and got is ValueError, 'a number of 2^32 or more is refused')


@driver('C27', ids=ListOf(Int(-2, N - 1), smax=27), how=Int(0, 5))
def refused_phrases(ids, how):
    require(len(ids) not in (12, 24))
    words = Wordlists.original_electrum_wordlist()
    text = typed([word_of(words, i) for i in ids], how, 'lower')
    check(exc_of(lambda: ElectrumMnemonic.old_to_hex_seed(text)) is ValueError, 'a wrong number of words')


@driver('C27', split='count', count=OneOf(12, 24), ids=ListOf(Int(0, N - 1), 24, 24), p=Int(0, 23), bad=Int(-3, -1), how=Int(0, 5))
def unknown_old_words(count, ids, p, bad, how):
    require(p < count)
    words = Wordlists.original_electrum_wordlist()
    text = typed([word_of(words, bad if k == p else ids[k]) for k in range(count)], how, 'lower')
    check(exc_of(lambda: ElectrumMnemonic.old_to_hex_seed(text)) is ValueError, 'an unknown word')


@driver('C27', split='count', count=OneOf(32, 64), digits=Str(alphabet=HEX, n=64))
def hex_seeds(count, digits):
    seed = digits[:count]
    phrase = ElectrumMnemonic.hex_seed_to_old(seed)
    check(ElectrumMnemonic.old_to_hex_seed(phrase) == seed.lower(), 'back to the seed in lower case')


@driver('C27', split='count', count=OneOf(12, 24), data=Bytes(min=32, max=32))
def new_seeds(count, data):
    size = count * 4 // 3
    made = random_source(data[:size], lambda: ElectrumMnemonic.generate_old_seed(word_count=count))
    check(made == data[:size].hex(), 'the random bytes')


@driver('C27', count=Int(-5, 100, edges=(12, 24)), seed=Str(alphabet=HEX, smax=80))
def refused_seeds(count, seed):
    if count not in (12, 24):
        check(exc_of(lambda: ElectrumMnemonic.generate_old_seed(word_count=count)) is ValueError, 'a wrong word count')
    if len(seed) not in (32, 64):
        check(exc_of(lambda: ElectrumMnemonic.hex_seed_to_old(seed)) is ValueError, 'a wrong number of digits')


@driver('C27', seed=Str(alphabet=HEX, smax=80))
def hex_phrases(seed):
    check(ElectrumMnemonic.is_valid_old(seed) is (len(seed) in (32, 64)), 'hex digits are a phrase when they are a seed')
