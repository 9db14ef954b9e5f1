"""C23 connecting headers."""
import os
import random
import tempfile

from bitcoinx import work
from bitcoinx.chain import CheckPoint, Headers, IncorrectBits, InsufficientPoW, MissingHeader
from bitcoinx.coin import Bitcoin, Coin
from bitcoinx.hashes import double_sha256
from pyvc.api import *
from contracts.c21_work import decoded, work_of, TOP
from contracts.c24_chains import valid

EASY = 0x207fffff


class Stored:
    """Stored headers by index from the checkpoint's on."""
    def __init__(self, first, raw):
        self.first, self.raws = first, [raw]

    def __len__(self):
        return self.first + len(self.raws)

    def __getitem__(self, index):
        return self.raws[index - self.first]

    def append(self, raw):
        self.raws.append(raw)
        return len(self) - 1


class Rule:
    """Requires the given bits, and notes for what."""
    def __init__(self, bits):
        self.bits, self.asked = bits, None

    def __call__(self, headers, chain, height, timestamp=None):
        self.asked = chain, height, timestamp
        return self.bits


class Entry:
    """What is known of a stored header."""
    def __init__(self, raw, height, line):
        self.raw, self.hash, self.height, self.line = raw, double_sha256(raw), height, line


class Model:
    """The headers stored, and for each chain its headers from its own first one."""
    def __init__(self, raw, height):
        first = Entry(raw, height, 0)
        self.entries, self.lines = [first], [[first]]

    def find(self, key):
        for e in self.entries:
            if e.hash == key:
                return e
        return None

    def connect(self, raw, required):
        prev = self.find(raw[4:36])
        if prev is None:
            raise MissingHeader
        there = self.find(double_sha256(raw))
        if there is not None:
            return there
        bits = int.from_bytes(raw[72:76], 'little')
        if bits != required:
            raise IncorrectBits(None, 0)
        if int.from_bytes(double_sha256(raw), 'little') > decoded(bits):
            raise InsufficientPoW(None)
        new = Entry(raw, prev.height + 1, prev.line)
        if self.lines[prev.line][-1] is not prev:
            new.line = len(self.lines)
            self.lines.append([])
        self.lines[new.line].append(new)
        self.entries.append(new)
        return new


def check_agrees(headers, model, store):
    """Everything observable is as the model says."""
    check(store.raws == [e.raw for e in model.entries] and len(headers) == store.first + len(model.entries), 'stored')
    check(headers.chain_count() == len(model.lines), 'chain count')
    made = headers.chains()
    for k, line in enumerate(model.lines):
        check(made[k].height == line[-1].height and made[k].tip.hash == line[-1].hash and made[k].tip.raw == line[-1].raw, 'tip')
        check(made[k].first_height == line[0].height, 'first')
        for j, e in enumerate(line):
            check(headers.raw_header_at_height(made[k], e.height) == e.raw, 'by height')
    for e in model.entries:
        header, chain = headers.lookup(e.hash)
        check(header.raw == e.raw and header.height == e.height and header.hash == e.hash, 'by hash')
        check(chain is made[e.line], 'on its chain')


def connected(headers, rule, model, raw, required):
    """Connect to both and compare."""
    rule.bits, rule.asked = required, None
    known = len(model.entries)
    want = outcome(lambda: model.connect(raw, required))
    got = outcome(lambda: headers.connect(raw))
    if want[0] == 'exc':
        check(got[0] == 'exc' and got[1] is want[1], 'error')
        return
    check(got[0] == 'ok', 'connects')
    header, chain = got[1]
    check(header.raw == raw and header.hash == double_sha256(raw) and header.height == want[1].height)
    check(chain is headers.chains()[want[1].line])
    if len(model.entries) > known:
        check(rule.asked[1] == want[1].height and rule.asked[2] == int.from_bytes(raw[68:72], 'little'))


def begin(raw, height):
    rule = Rule(EASY)
    coin = Coin('any', Bitcoin.genesis_header.hex(), rule, 0, 0, 0, b'', b'', '')
    store = Stored(height, raw)
    return Headers(coin, store, CheckPoint(raw, height, 0)), rule, store, Model(raw, height)


def ideal(first, *others):
    """No hash collisions or cycles, and nothing precedes the checkpoint."""
    raws = (first,) + others
    for k, x in enumerate(raws):
        require(double_sha256(x) != x[4:36] and double_sha256(x) != first[4:36])
        for y in raws[:k]:
            require(double_sha256(x) != double_sha256(y) or x == y)


RAW = Bytes(n=80)
BITS = OneOf(EASY, 0x1d00ffff)


def raw_on(rng, prev, bits=EASY):
    return bytes(4) + prev + rng.randbytes(36) + bits.to_bytes(4, 'little') + rng.randbytes(4)


def connections(n):
    def sample(rng):
        first = raw_on(rng, bytes(32))
        args = {'first': first, 'height': rng.choice((0, 1, 600000))}
        tips = [first]
        for k in 'ab'[:n]:
            r = rng.random()
            bits = rng.choice((EASY, EASY, EASY, 0x1d00ffff))
            raw = raw_on(rng, rng.choice((double_sha256(rng.choice(tips)), double_sha256(tips[-1]), bytes(32))), bits) if r < .8 else rng.choice(tips)
            if n == 2 and k == 'a':
                raw = mine(rng, double_sha256(first), EASY, True)
            args[k] = raw
            tips.append(raw)
        args['required'] = rng.choice((EASY, EASY, EASY, 0x1d00ffff))
        return args
    return sample


@driver('C23', samples=connections(1), first=RAW, height=Int(0, (1 << 31)), a=RAW, required=Int(0, (1 << 32) - 1))
def first_connection(first, height, a, required):
    require(valid(int.from_bytes(first[72:76], 'little')) and valid(required))
    ideal(first, a)
    headers, rule, store, model = begin(first, height)
    check_agrees(headers, model, store)
    connected(headers, rule, model, a, required)
    check_agrees(headers, model, store)


@driver('C23', samples=connections(2), first=RAW, height=Int(0, (1 << 31)), a=RAW, b=RAW, required=Int(0, (1 << 32) - 1))
def second_connection(first, height, a, b, required):
    require(valid(int.from_bytes(first[72:76], 'little')) and valid(required))
    ideal(first, a, b)
    headers, rule, store, model = begin(first, height)
    rule.bits = int.from_bytes(a[72:76], 'little')
    require(valid(rule.bits))
    require(outcome(lambda: model.connect(a, rule.bits))[0] == 'ok')
    headers.connect(a)
    connected(headers, rule, model, b, required)
    check_agrees(headers, model, store)



# ---------------------------------------------------------------- histories with real files (bounded)
class SmallCache(Headers):
    max_cache_size = 4


def mine(rng, prev, bits, good, rest=b''):
    """A header on top of prev whose proof of work is good or not."""
    while True:
        raw = rng.choice((1, 0x20000000)).to_bytes(4, 'little') + prev + rng.randbytes(32) + rng.randrange(1 << 32).to_bytes(4, 'little') + \
            bits.to_bytes(4, 'little') + rng.randbytes(4)
        if (int.from_bytes(double_sha256(raw), 'little') <= work.bits_to_target(bits)) == good:
            return raw


class History:
    """A random run of operations; rule: the bits required at a height and time."""
    def __init__(self, seed):
        self.seed = seed

    def __repr__(self):
        return f'History({self.seed})'


def rule_bits(height, time):
    return (0x207fffff, 0x2070ffff, 0x207fff7f)[(height + (time or 0)) % 3]


def play(history, at_end):
    """Run the history on real headers and on the model; at_end(headers, model, reopen)."""
    rng = random.Random(history.seed)
    height = rng.choice((0, 0, 1, 5, 40))
    asked = []
    coin = Coin('any', Bitcoin.genesis_header.hex(), lambda headers, chain, h, time=None: asked.append((chain, h, time)) or rule_bits(h, time),
                0, 0, 0, b'', b'', '')
    first = mine(rng, rng.randbytes(32), rng.choice((EASY, 0x1d00ffff)) if False else EASY, True)
    before = rng.choice((0, 12345))
    checkpoint = CheckPoint(first, height, before)
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, 'headers')
        cls = rng.choice((Headers, SmallCache))

        def opened():
            return cls.from_file(coin, name, checkpoint)
        headers = opened()
        model = Model(first, height)
        early = {}
        for _ in range(rng.choice((1, 3, 8, 20))):
            r = rng.random()
            if r < .7:
                prev = rng.choice((model.entries[-1], model.entries[-1], rng.choice(model.entries), rng.choice(model.lines)[-1]))
                bits = EASY
                raw = b''
                while not raw or int.from_bytes(raw[72:76], 'little') != rule_bits(prev.height + 1, int.from_bytes(raw[68:72], 'little')) and rng.random() < .9:
                    raw = mine(rng, prev.hash, rng.choice((0x207fffff, 0x2070ffff, 0x207fff7f)), rng.random() < .85)
            elif r < .8:
                raw = rng.choice(model.entries).raw
                if rng.random() < .2:
                    raw = first
            elif r < .85:
                raw = mine(rng, rng.randbytes(32), EASY, True)
            elif r < .9:
                raw = None
                h = rng.choice((0, height, max(0, height - 1), height // 2, height + 1, -1))
                raw_early = rng.randbytes(80) if h != height else first
                got = outcome(lambda: headers.set_one(h, raw_early))
                if 0 <= h <= height:
                    check(got[0] == 'ok', 'set_one')
                    early[h] = raw_early
                else:
                    check(got == ('exc', ValueError), 'set_one out of range')
            else:
                raw = None
                headers.flush()
                headers = opened()
            if raw is not None:
                h = raw[4:36]
                prev = model.find(h)
                bits = rule_bits(prev.height + 1, int.from_bytes(raw[68:72], 'little')) if prev else 0
                known = len(model.entries)
                want = outcome(lambda: model.connect(raw, bits))
                got = outcome(lambda: headers.connect(raw))
                if want[0] == 'exc':
                    check(got == want, 'error')
                else:
                    check(got[0] == 'ok' and got[1][0].raw == raw and got[1][0].height == want[1].height and
                          got[1][0].hash == want[1].hash and got[1][1] is headers.chains()[want[1].line], 'header and chain')
                    if len(model.entries) > known:
                        check(asked[-1][1] == want[1].height and asked[-1][2] == int.from_bytes(raw[68:72], 'little'), 'rule asked')
        at_end(headers, model, early, height, before)
        headers.flush()
        at_end(opened(), model, early, height, before)


def check_history(headers, model, early, height, before):
    check(len(headers) == height + len(model.entries), 'count')
    check(headers.chain_count() == len(model.lines), 'chain count')
    made = headers.chains()
    for k, chain in enumerate(made):
        line = model.lines[k]
        check(chain.tip.raw == line[-1].raw and chain.height == chain.tip.height == line[-1].height and chain.first_height == line[0].height, 'tip')
    for e in model.entries[:]:
        header, chain = headers.lookup(e.hash)
        check(header.raw == e.raw and header.height == e.height and header.hash == e.hash and chain is made[e.line], 'by hash')
    for h in range(height + 1):
        got = outcome(lambda: headers.raw_header_at_height(made[0], h))
        want = model.entries[0].raw if h == height else early.get(h)
        check(got == (('exc', MissingHeader) if want is None else ('ok', want)), 'before the checkpoint')


def path(model, line):
    """The headers of a chain back to the checkpoint."""
    out = []
    e = model.lines[line][-1]
    while e is not None:
        out.append(e)
        e = model.find(e.raw[4:36])
    return out[::-1]


def check_chains(headers, model, early, height, before):
    made = headers.chains()
    total = {}
    for k, chain in enumerate(made):
        es = path(model, k)
        sums = [before]
        for j, e in enumerate(es):
            check(e.height == height + j)
            check(headers.raw_header_at_height(chain, e.height) == e.raw and headers.header_at_height(chain, e.height).hash == e.hash, 'ancestor at height')
            sums.append(sums[-1] + TOP // (work.bits_to_target(int.from_bytes(e.raw[72:76], 'little')) + 1))
        check(exc_of(lambda: headers.raw_header_at_height(chain, es[-1].height + 1)) is MissingHeader, 'above the tip')
        total[k] = sums[-1]
        check(chain.work == sums[-1], 'work')
        for j, e in enumerate(es):
            check(headers.chainwork_to_height(chain, e.height) == sums[j + 1], 'work to height')
        check(headers.chainwork_range(chain, height, es[-1].height + 1) == sums[-1] - before, 'work of all')
        for m, other in enumerate(made):
            both = [a for a, b in zip(es, path(model, m)) if a is b]
            got = chain.common_chain_and_height(other)
            check(got[1] == both[-1].height and got[0] is made[both[-1].line], 'fork point')
    best = max(total.values())
    check(headers.longest_chain() is made[min(k for k in total if total[k] == best)], 'longest')


@driver('C23', mode='bounded', history=Sampled(lambda rng: History(rng.randrange(1 << 48))))
def connecting_histories(history):
    play(history, check_history)


@driver('C24', mode='bounded', history=Sampled(lambda rng: History(rng.randrange(1 << 48))))
def chain_histories(history):
    play(history, check_chains)
