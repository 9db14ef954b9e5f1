"""C24 chains: heights, work, fork points."""
from bitcoinx import chain as chains
from bitcoinx.chain import Chain, CheckPoint, Headers, MissingHeader
from bitcoinx.coin import Bitcoin, Header
from pyvc.api import *
from contracts.c21_work import work_of
from contracts.c22_difficulty import Line, Raws, Store, work_at, raw_at, COIN, TIME

U32 = (1 << 32) - 1
HEADER = ObjOf('coin.Header', version=Int(0, U32), prev_hash=Bytes(n=32), merkle_root=Bytes(n=32), timestamp=TIME, bits=Int(0, U32),
               nonce=Int(0, U32), hash=Bytes(n=32), raw=Bytes(n=80), height=Int(0))
INDEX = Int(0, U32)


def valid(bits):
    """Headers whose bits encode no target are never accepted."""
    return outcome(lambda: work_of(bits))[0] == 'ok'


class Ancestor:
    """Any parent chain: its header indices from some height on."""
    def __init__(self, base, indices):
        self.base, self.indices = base, indices

    def header_index(self, height):
        if not self.base <= height < self.base + len(self.indices):
            raise MissingHeader
        return self.indices[height - self.base]


def a_header(rng):
    return Header(1, rng.randbytes(32), rng.randbytes(32), rng.randrange(1 << 32), rng.choice((0x1d00ffff, 0x1b0404cb, 0x207fffff)),
                  rng.randrange(1 << 32), rng.randbytes(32), rng.randbytes(80), 0)


def a_chain(parent):
    def like(rng):
        p = parent.sample(rng)
        first = rng.choice((0, 1, 5, 1000, rng.randrange(1 << 31)))
        tip = a_header(rng)
        tip.height = first
        chain = Chain(p, tip, rng.randrange(1 << 32), rng.randrange(1 << 100))
        for _ in range(rng.choice((0, 0, 1, 2, 10))):
            tip = a_header(rng)
            tip.height = chain.height + 1
            chain.append(tip, rng.randrange(1 << 32))
        return chain
    return like


ANCESTOR = ObjOf(Ancestor, base=Int(0), indices=ListOf(INDEX))


def chain_over(parent):
    return ObjOf('chain.Chain', like=a_chain(parent), parent=parent, tip=HEADER, work=Int(0), first_height=Int(0),
                 _header_indices=ListOf(INDEX, min=1))


FORK = chain_over(ANCESTOR)
BASE = chain_over(Const(None))


@driver('C24', parent=Opt(ANCESTOR), tip=HEADER, index=INDEX, before=Int(0), height=Int())
def chain_starts_at_its_tip(parent, tip, index, before, height):
    """A new chain has one header of its own; all others are its parent's, or on disk by height."""
    require(valid(tip.bits))
    chain = Chain(parent, tip, index, before)
    check(chain.tip is tip and chain.height == tip.height and chain.first_height == tip.height and chain.parent is parent)
    check(chain.work == before + work_of(tip.bits))
    if height == tip.height:
        check(chain.header_index(height) == index)
    elif height > tip.height:
        check(exc_of(lambda: chain.header_index(height)) is MissingHeader)
    elif parent is not None:
        check_same(outcome(lambda: chain.header_index(height)), outcome(lambda: parent.header_index(height)))
    elif height >= 0:
        check(chain.header_index(height) == height)
    else:
        check(exc_of(lambda: chain.header_index(height)) is MissingHeader)


def appended(chain, header, index, height):
    require(header.height == chain.height + 1 and valid(header.bits))
    top, work, first = chain.height, chain.work, chain.first_height
    was = outcome(lambda: chain.header_index(height))
    chain.append(header, index)
    check(chain.tip is header and chain.height == top + 1 and chain.first_height == first)
    check(chain.work == work + work_of(header.bits))
    if height == top + 1:
        check(was == ('exc', MissingHeader))
        check(chain.header_index(height) == index)
    else:
        check_same(outcome(lambda: chain.header_index(height)), was)


def growing(dom):
    def sample(rng):
        chain = dom.sample(rng)
        header = a_header(rng)
        header.height = chain.height + 1
        return {'chain': chain, 'header': header, 'index': rng.randrange(1 << 32),
                'height': rng.choice((chain.first_height - 1, chain.first_height, chain.height, chain.height + 1, chain.height + 2, -1, 0))}
    return sample


@driver('C24', samples=growing(FORK), chain=FORK, header=HEADER, index=INDEX, height=Int())
def forked_chain_grows(chain, header, index, height):
    """Appending adds the header above the tip, its work to the chain's, and changes nothing else."""
    appended(chain, header, index, height)


@driver('C24', samples=growing(BASE), chain=BASE, header=HEADER, index=INDEX, height=Int())
def base_chain_grows(chain, header, index, height):
    appended(chain, header, index, height)


@driver('C24', chain=FORK, height=Int())
def heights_below_a_fork_are_the_parents(chain, height):
    if height < chain.first_height:
        check_same(outcome(lambda: chain.header_index(height)), outcome(lambda: chain.parent.header_index(height)))
    elif height <= chain.height:
        check(chain.header_index(height) >= 0)
    else:
        check(exc_of(lambda: chain.header_index(height)) is MissingHeader)


@driver('C24', raw=Bytes(n=80), height=Int(0, U32), before=Int(0), h=Int(), coin=COIN)
def base_chain_of_a_checkpoint(raw, height, before, h, coin):
    bits = int.from_bytes(raw[72:76], 'little')
    require(valid(bits))
    chain = Chain.from_checkpoint(coin, CheckPoint(raw, height, before))
    check(chain.parent is None and chain.height == height and chain.tip.raw == raw and chain.tip.height == height)
    check(chain.work == before + work_of(bits))
    if 0 <= h <= height:
        check(chain.header_index(h) == h)
    else:
        check(exc_of(lambda: chain.header_index(h)) is MissingHeader)


class Tipped(Line):
    """A chain that ends at its last header."""
    def __init__(self, raws, base, tip, work):
        self.raws, self.base, self.tip, self.work = raws, base, tip, work


def work_samples(rng):
    raws = Raws().sample(rng)
    base = rng.choice((0, 1, 500000))
    tip = a_header(rng)
    tip.height = base + len(raws) - rng.choice((1, 1, 1, 2))
    return {'raws': raws, 'base': base, 'coin': Bitcoin, 'tip': tip, 'work': rng.randrange(1 << 100),
            'height': max(base, tip.height - rng.choice((0, 1, 2, 10, 100)))}


@driver('C24', samples=work_samples, raws=Raws(), base=Int(0), coin=COIN, tip=HEADER, work=Int(0), height=Int(0))
def work_up_to_a_height(raws, base, coin, tip, work, height):
    """The work of the chain less that of the headers above the height."""
    require(base <= height and height <= tip.height and tip.height < base + len(raws))
    chain = Tipped(raws, base, tip, work)
    headers = Headers(coin, Store(raws), CheckPoint(coin.genesis_header, 0, 0))
    check_same(outcome(lambda: headers.chainwork_to_height(chain, height)),
               outcome(lambda: work - sum(work_at(chain, h) for h in range(height + 1, tip.height + 1))))


@driver('C24', raws=Raws(), base=Int(0), coin=COIN, height=Int(0))
def header_at_a_height(raws, base, coin, height):
    require(base <= height and height < base + len(raws))
    chain = Line(raws, base)
    headers = Headers(coin, Store(raws), CheckPoint(coin.genesis_header, 0, 0))
    raw = raw_at(chain, height)
    check(headers.raw_header_at_height(chain, height) == raw)
    header = headers.header_at_height(chain, height)
    check(header.raw == raw and header.height == height and header.hash == coin.header_hash(raw))
    check(header.timestamp == int.from_bytes(raw[68:72], 'little') and header.bits == int.from_bytes(raw[72:76], 'little'))
    check(header.prev_hash == raw[4:36] and header.merkle_root == raw[36:68] and header.nonce == int.from_bytes(raw[76:], 'little'))


# ---------------------------------------------------------------- trees of chains
def shapes(n):
    """Every way the chains 1..n-1 can fork from earlier ones."""
    return [()] if n == 1 else [s + (p,) for s in shapes(n - 1) for p in range(n - 1)]


def tree(shape, firsts, sizes):
    """Chains of the given shape: chain k forks from chain shape[k - 1] with its first header at firsts[k] and has sizes[k] of them."""
    made = []
    for k in range(len(shape) + 1):
        parent = made[shape[k - 1]] if k else None
        tip = Header(1, bytes(32), bytes(32), 0, 0x207fffff, 0, bytes(32), bytes(80), firsts[k])
        made.append(Sized(parent, tip, sizes[k]))
    return made


class Sized(Chain):
    """A chain with any number of headers."""
    def __init__(self, parent, tip, size):
        super().__init__(parent, tip, 0, 0)
        self.size = size

    @property
    def height(self):
        return self.first_height + self.size - 1

    @height.setter
    def height(self, value):
        pass


def owner(chain, height):
    """The chain the header at this height of the chain lies on."""
    while height < chain.first_height and chain.parent is not None:
        chain = chain.parent
    return chain


SIZE = Int(1, 1 << 31, shi=6)


def add_fork_points(shape):
    n = len(shape) + 1

    def fork_point(a, b, firsts, sizes, h):
        made = tree(shape, firsts, sizes)
        for k in range(1, n):
            require(made[k].parent.first_height < firsts[k] and firsts[k] <= made[k].parent.height)
        one, two = made[a], made[b]
        chain, height = one.common_chain_and_height(two)
        check(height <= one.height and height <= two.height, 'on both')
        check(owner(one, height) is chain and owner(two, height) is chain, 'the same header on both')
        if height < h and h <= one.height and h <= two.height:
            check(owner(one, h) is not owner(two, h), 'nothing above is common')

    driver('C24', name='fork_point_' + ''.join(map(str, shape)), a=OneOf(*range(n)), b=OneOf(*range(n)),
           firsts=TupleOf(*[Int(0, shi=20)] * n), sizes=TupleOf(*[SIZE] * n), h=Int(0, shi=30))(fork_point)


for _shape in shapes(2) + shapes(3) + shapes(4) + shapes(5):
    add_fork_points(_shape)


class Heavy:
    """A chain with this much work."""
    def __init__(self, work):
        self.work = work


def add_longest(n):
    def longest(works):
        headers = Headers(Bitcoin, Store(()), CheckPoint(Bitcoin.genesis_header, 0, works[0]))
        made = headers.chains()
        for w in works[1:]:
            made.append(Heavy(w))
        require(len(headers.chains()) == n)
        best = headers.longest_chain()
        check(all(c.work <= best.work for c in made), 'none has more work')
        for c in made:
            if c is best:
                break
            check(c.work < best.work, 'none before has as much')
        else:
            check(False, 'one of the chains')
    driver('C24', name=f'longest_of_{n}', works=TupleOf(*[Int(0, shi=3)] * n))(longest)


for _n in range(1, 7):
    add_longest(_n)
