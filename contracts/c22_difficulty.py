"""C22 required difficulty, median time past."""
from bitcoinx import coin as coins
from bitcoinx.chain import CheckPoint, Headers, MissingHeader
from bitcoinx.coin import Bitcoin, BitcoinTestnet, BitcoinScalingTestnet, BitcoinRegtest
from pyvc.api import *
from contracts.c21_work import decoded, encoded, work_of, TOP

LIMIT_BITS = 0x1d00ffff
LIMIT = 0xffff << 208
FORTNIGHT = 14 * 24 * 3600


class Store:
    """Raw headers by index, none of which the constructor of Headers is to read."""
    def __init__(self, raws):
        self.raws = raws

    def __len__(self):
        return 1

    def __getitem__(self, index):
        return self.raws[index]


class Line:
    """A chain whose header at a height has index height - base."""
    def __init__(self, raws, base):
        self.raws, self.base = raws, base

    def header_index(self, height):
        if height < self.base:
            raise MissingHeader
        return height - self.base


def raw_header(time, bits, rest=bytes(72)):
    return rest[:68] + time.to_bytes(4, 'little') + bits.to_bytes(4, 'little') + rest[68:72]


class Raws(ListOf):
    def __init__(self):
        super().__init__(Bytes(n=80), cls=tuple)

    def sample(self, rng, depth=0):
        n = rng.choice((1, 2, 11, 12, 20, 150, 150, 2017, 2020))
        step = rng.choice((0, 1, 60, 250, 550, 600, 700, 1500, 5000))
        bits = [rng.choice((0x1d00ffff, 0x1d00fffe, 0x1c7fffff, 0x1b0404cb, 0x18009b6a, 0x03123456, 0x01003456)) for _ in range(3)]
        t = rng.randrange(1 << 31)
        out = []
        # steps at which a rule changes: six blocks in twelve hours, 2016 in a quarter or four fortnights, 144 in half or two days
        even = rng.choice((7200, 7200, 150, 2400, 300, 1200, 600)) if rng.random() < .3 else None
        for i in range(n):
            t += even if even is not None else rng.randrange(-step, 2 * step + 1)
            if even is not None and rng.random() < .005:
                t += rng.choice((-1, 1))
            if even is None and rng.random() < .02:
                t += rng.choice((3600 * 13, 86400, -7200))
            out.append(raw_header(t % (1 << 32), bits[0] if rng.random() < .9 else rng.choice(bits), rng.randbytes(72)))
        return tuple(out)


def headers_of(coin, chain):
    """Header objects over the raw headers of the chain."""
    return Headers(coin, Store(chain.raws), CheckPoint(coin.genesis_header, 0, 0))


TIME = Int(0, (1 << 32) - 1)


def raw_at(chain, h):
    if h < chain.base:
        raise MissingHeader
    return chain.raws[h - chain.base]


def time_at(chain, h):
    return int.from_bytes(raw_at(chain, h)[68:72], 'little')


def bits_at(chain, h):
    return int.from_bytes(raw_at(chain, h)[72:76], 'little')


def work_at(chain, h):
    return work_of(bits_at(chain, h))


def limited(target):
    return encoded(min(target, LIMIT))


def median_time(chain, height):
    first = height - 10 if height > 10 else 0
    times = sorted([time_at(chain, h) for h in range(first, height + 1)])
    return times[len(times) // 2]


def retarget(chain, height):
    """Bitcoin's rule: every 2016 blocks, by the time of the last 2015 intervals clamped to a factor of four."""
    bits = bits_at(chain, height - 1)
    if height % 2016 != 0:
        return bits
    period = time_at(chain, height - 1) - time_at(chain, height - 2016)
    period = min(max(period, FORTNIGHT // 4), FORTNIGHT * 4)
    return limited(decoded(bits) * period // FORTNIGHT)


def emergency(chain, height):
    """20% easier when the last 6 blocks took 12 hours of median time."""
    bits = retarget(chain, height)
    if height % 2016 == 0:
        return bits
    if median_time(chain, height - 1) - median_time(chain, height - 7) < 12 * 3600:
        return bits
    target = decoded(bits)
    return limited(target + target // 4)


def median_of_three(chain, height):
    """The height of the second of the three blocks before height sorted by the network's rule."""
    a, b, c = height - 3, height - 2, height - 1
    if time_at(chain, a) > time_at(chain, c):
        a, c = c, a
    if time_at(chain, a) > time_at(chain, b):
        a, b = b, a
    if time_at(chain, b) > time_at(chain, c):
        b, c = c, b
    return b


def by_work(chain, height):
    """By the work and time between the medians of three 144 blocks apart."""
    first = median_of_three(chain, height - 144)
    last = median_of_three(chain, height)
    work = sum(work_at(chain, h) for h in range(first + 1, last + 1))
    time = min(max(time_at(chain, last) - time_at(chain, first), 12 * 3600), 2 * 24 * 3600)
    return limited(TOP // (work * 600 // time) - 1)


MEDIANS = OneOf(*[(a, b) for a in (-3, -2, -1) for b in (-3, -2, -1)])


def have(chain, height, n):
    """The n headers before height are there."""
    require(chain.base <= height - n and height <= chain.base + len(chain.raws))


def required(coin, chain, height, timestamp):
    headers = headers_of(coin, chain)
    return outcome(lambda: headers.required_bits(chain, height, timestamp))


def sampled(lo, hi, anchors, cases=False, coin=None):
    """Samples whose headers end about the height wanted."""
    def sample(rng):
        raws = Raws().sample(rng)
        height = rng.choice((lo, lo + 1, hi, rng.randrange(lo, hi + 1), rng.choice(anchors) + rng.randrange(-1, 3), 2016 * rng.randrange(lo // 2016 + 1, hi // 2016 + 2)))
        height = min(max(lo, height), hi)
        base = max(0, height - len(raws) + rng.choice((0, 0, 0, 1)))
        last = int.from_bytes(raws[min(height - 1 - base, len(raws) - 1)][68:72], 'little')
        args = {'height': height, 'raws': raws, 'base': base,
                'timestamp': min(max(0, last + rng.choice((1200, 1201, 600, 100000, 0))), (1 << 32) - 1)}
        if coin:
            args['coin'] = rng.choice(coin)
        if cases:
            chain = Line(raws, base)
            try:
                args['case'] = (median_of_three(chain, height - 144) - height + 144, median_of_three(chain, height) - height)
            except (MissingHeader, IndexError):
                raise Skip
        return args
    return sample


FAR = 10 ** 7
DOMS = dict(raws=Raws(), base=Int(0), timestamp=TIME)


@driver('C22', samples=sampled(1, 478557, (478557,)), height=Int(1, 478557), **DOMS)
def mainnet_retargets_each_fortnight(height, raws, base, timestamp):
    chain = Line(raws, base)
    have(chain, height, 2016 if height % 2016 == 0 else 1)
    check_same(required(Bitcoin, chain, height, timestamp), outcome(lambda: retarget(chain, height)))


@driver('C22', **DOMS)
def genesis_difficulty(raws, base, timestamp):
    chain = Line(raws, base)
    headers = headers_of(Bitcoin, chain)
    check(headers.required_bits(chain, 0, timestamp) == LIMIT_BITS)
    check(headers.required_bits(chain, 0) == LIMIT_BITS)


@driver('C22', samples=sampled(478558, 504031, (480000,)), height=Int(478558, 504031), **DOMS)
def mainnet_emergency_rule(height, raws, base, timestamp):
    chain = Line(raws, base)
    have(chain, height, 2016 if height % 2016 == 0 else 17)
    check_same(required(Bitcoin, chain, height, timestamp), outcome(lambda: emergency(chain, height)))


@driver('C22', samples=sampled(504032, FAR, (504032,), True), height=Int(504032), **DOMS,
        case=MEDIANS, split='case', timeout=400)
def mainnet_work_based_rule(height, raws, base, timestamp, case):
    chain = Line(raws, base)
    have(chain, height, 147)
    require((median_of_three(chain, height - 144) - height + 144, median_of_three(chain, height) - height) == case)
    check_same(required(Bitcoin, chain, height, timestamp), outcome(lambda: by_work(chain, height)))


@ghost('C22', result=Opt(Int(0, (1 << 32) - 1)), decreases=lambda raws, base, h: h, raws=Raws(), base=Int(0), h=Int(0))
def last_usual_bits(raws, base, h):
    """The bits of the last header up to h that are not the limit, or at a retarget height; None if it is missing."""
    if h < base or h >= base + len(raws):
        return None
    bits = int.from_bytes(raws[h - base][72:76], 'little')
    return bits if h % 2016 == 0 or bits != LIMIT_BITS else last_usual_bits(raws, base, h - 1)


def look_back(chain, heights, i):
    bits = bits_at(chain, heights[i])
    if heights[i] % 2016 == 0 or bits != LIMIT_BITS:
        raise Return(bits)
    return (i + 1,)


LOOK_BACK = Machine('look back for usual bits', ['chain', 'heights'], {'i': Int(0)},
                    bind={'heights': '$iter', 'i': '$i'}, raises=(Return, MissingHeader), unroll=False,
                    done=lambda chain, heights, i: i >= len(heights), step=look_back,
                    inv=lambda chain, heights, i: i < len(heights) and
                    last_usual_bits(chain.raws, chain.base, heights[i]) ==
                    last_usual_bits(chain.raws, chain.base, heights[0]),
                    hint=lambda chain, heights, i: i >= len(heights) or
                    unfold(last_usual_bits, chain.raws, chain.base, heights[i]),
                    variant=lambda chain, heights, i: len(heights) - i)


def testnet(chain, height, timestamp, work_rule_from, slow_forever):
    slow = timestamp - time_at(chain, height - 1) > 1200
    if height < work_rule_from:
        if height % 2016 == 0:
            return retarget(chain, height)
        if slow:
            return LIMIT_BITS
        bits = last_usual_bits(chain.raws, chain.base, height - 1)
        if bits is None:
            raise MissingHeader
        return bits
    if slow_forever and slow:
        return LIMIT_BITS
    return by_work(chain, height)


def check_testnet(coin, chain, height, timestamp, work_rule_from, slow_forever):
    check_same(required(coin, chain, height, timestamp),
               outcome(lambda: testnet(chain, height, timestamp, work_rule_from, slow_forever)))


@driver('C22', samples=sampled(1188698, FAR, (1188698,), True), height=Int(1188698), **DOMS,
        case=MEDIANS, split='case', timeout=400)
def testnet_work_based_rule(height, raws, base, timestamp, case):
    chain = Line(raws, base)
    have(chain, height, 147)
    require((median_of_three(chain, height - 144) - height + 144, median_of_three(chain, height) - height) == case)
    check_testnet(BitcoinTestnet, chain, height, timestamp, 1188698, True)


@driver('C22', samples=sampled(2201, FAR, (2201,), True), height=Int(2201), **DOMS,
        case=MEDIANS, split='case', timeout=400)
def scaling_testnet_work_based_rule(height, raws, base, timestamp, case):
    chain = Line(raws, base)
    have(chain, height, 147)
    require((median_of_three(chain, height - 144) - height + 144, median_of_three(chain, height) - height) == case)
    check_testnet(BitcoinScalingTestnet, chain, height, timestamp, 2201, False)


@driver('C22', samples=sampled(1188698, FAR, (1188698,)), height=Int(1188698), **DOMS)
def regtest_work_based_rule(height, raws, base, timestamp):
    chain = Line(raws, base)
    have(chain, height, 147)
    require(median_of_three(chain, height - 144) == height - 146 and median_of_three(chain, height) == height - 2)
    check_testnet(BitcoinRegtest, chain, height, timestamp, 1188698, True)


@driver('C22', samples=sampled(1, 1188697, (1188697, 2016), coin=(BitcoinTestnet, BitcoinRegtest)), height=Int(1, 1188697),
        coin=OneOf(BitcoinTestnet, BitcoinRegtest), **DOMS)
def testnet_old_rule(height, coin, raws, base, timestamp):
    chain = Line(raws, base)
    have(chain, height, 2016 if height % 2016 == 0 else 1)
    check_testnet(coin, chain, height, timestamp, 1188698, True)


@driver('C22', samples=sampled(1, 2200, (2200, 2016)), height=Int(1, 2200), **DOMS)
def scaling_testnet_old_rule(height, raws, base, timestamp):
    chain = Line(raws, base)
    have(chain, height, 2016 if height % 2016 == 0 else 1)
    check_testnet(BitcoinScalingTestnet, chain, height, timestamp, 2201, False)


COIN = OneOf(Bitcoin, BitcoinTestnet)


def median_samples(rng):
    args = sampled(1, FAR, (5, 10, 11))(rng)
    del args['timestamp']
    args.update(height=args['height'] - 1, coin=Bitcoin, short=min(10, args['height'] - 1))
    return args


@driver('C22', samples=median_samples, raws=Raws(), base=Int(0), coin=COIN, height=Int(0), short=OneOf(*range(11)))
def median_time_past(raws, base, coin, height, short):
    chain = Line(raws, base)
    if height < 10:
        require(height == short)
    have(chain, height + 1, height + 1 if height < 10 else 11)
    check(headers_of(coin, chain).median_time_past(chain, height) == median_time(chain, height))


@driver('C22 C24', raws=Raws(), base=Int(0), coin=COIN, start=Int(0), end=Int(0))
def work_of_a_range(raws, base, coin, start, end):
    chain = Line(raws, base)
    require(end <= start or chain.base <= start and end <= chain.base + len(chain.raws))
    headers = headers_of(coin, chain)
    check_same(outcome(lambda: headers.chainwork_range(chain, start, end)),
               outcome(lambda: sum(work_at(chain, h) for h in range(start, end))))
