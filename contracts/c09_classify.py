"""C09 output scripts."""
from bitcoinx import script
from bitcoinx.address import (P2PKH_Address, P2SH_Address, P2PK_Output, P2MultiSig_Output, OP_RETURN_Output,
                              Unknown_Output)
from bitcoinx.consts import JSONFlags
from bitcoinx.keys import PublicKey, PrivateKey
from bitcoinx.script import Script, TruncatedScriptError
from pyvc.api import *
from contracts.c06_script import script_hint, spec_push, num_item, c_stripped
from contracts.c14_keys import PUB, COIN, point_hint

FLAGS = JSONFlags.CLASSIFY_OUTPUT_SCRIPT


def classify(s, coin):
    return script.classify_output_script(s, coin)


def check_json(s, coin, kind, extra):
    want = {'asm': s.to_asm(False), 'hex': bytes(s).hex(), 'type': kind}
    want.update(extra)
    j = s.to_json(FLAGS, False, coin)
    check(len(j) == len(want), 'as many entries')
    for k in want:
        check(j[k] == want[k], k)


@driver('C09', hash160=Bytes(n=20), coin=COIN)
def p2pkh_script(hash160, coin):
    a = P2PKH_Address(hash160, coin)
    s = a.to_script()
    check(bytes(s) == b'\x76\xa9\x14' + hash160 + b'\x88\xac' and a.to_script_bytes() == bytes(s), 'standard script')
    b = classify(s, coin)
    check(type(b) is P2PKH_Address and b.hash160() == hash160 and b.coin() is coin and b == a, 'classified back')


@driver('C09', hash160=Bytes(n=20), coin=COIN)
def p2sh_script(hash160, coin):
    a = P2SH_Address(hash160, coin)
    s = a.to_script()
    check(bytes(s) == b'\xa9\x14' + hash160 + b'\x87' and a.to_script_bytes() == bytes(s), 'standard script')
    b = classify(s, coin)
    check(type(b) is P2SH_Address and b.hash160() == hash160 and b.coin() is coin and b == a, 'classified back')


@driver('C09', key=PUB, coin=COIN)
def p2pk_script(key, coin):
    a = P2PK_Output(key, coin)
    s = a.to_script()
    data = key.to_bytes()
    check(bytes(s) == bytes([len(data)]) + data + b'\xac' and a.to_script_bytes() == bytes(s), 'standard script')
    b = classify(s, coin)
    check(type(b) is P2PK_Output and b.public_key == key and b.public_key.is_compressed() == key.is_compressed() and b == a, 'classified back')
    check(b.to_address() == P2PKH_Address(key.hash160(), coin) and b.to_address().coin() is coin and b.hash160() == key.hash160(), 'its address')


@driver('C09', key=PUB)
def scripts_of_a_key(key):
    data = key.to_bytes()
    check(bytes(key.P2PK_script()) == bytes([len(data)]) + data + b'\xac', 'P2PK')
    check(bytes(key.P2PKH_script()) == b'\x76\xa9\x14' + key.hash160() + b'\x88\xac', 'P2PKH')
    check(type(key.P2PK_script()) is Script and type(key.P2PKH_script()) is Script, 'scripts')


@driver('C09', coin=COIN)
def op_return_script(coin):
    a = OP_RETURN_Output()
    check(a.to_script_bytes() == b'\x6a' and bytes(a.to_script()) == b'\x6a', 'standard script')
    b = classify(a.to_script(), coin)
    check(type(b) is OP_RETURN_Output and b == a, 'classified back')
    check(exc_of(lambda: Unknown_Output().to_script()) is RuntimeError, 'an unknown output has no script')


def keys_hint(rng):
    return [PrivateKey(rng.randbytes(31) + b'\1', rng.random() < .6).public_key for _ in range(rng.choice((1, 2, 3, 16, 17, 20)))]


def check_multisig(keys, m, coin):
    a = P2MultiSig_Output(keys, m)
    s = a.to_script()
    want = spec_push(num_item(m)) + b''.join([spec_push(k.to_bytes()) for k in keys]) + spec_push(num_item(len(keys))) + b'\xae'
    check(bytes(s) == want and a.to_script_bytes() == want, 'standard script')
    b = classify(s, coin)
    check(type(b) is P2MultiSig_Output and b.threshold == m and b == a, 'classified back')
    check(len(b.public_keys) == len(keys) and b.public_key_count() == len(keys))
    for k in range(len(keys)):
        check(b.public_keys[k] == keys[k] and b.public_keys[k].is_compressed() == keys[k].is_compressed(), 'keys in order')


@driver('C09', split='count', count=OneOf(1, 2, 3), keys=TupleOf(PUB, PUB, PUB), m=Int(1, 3))
def multisig_of_any_iterable(count, keys, m):
    require(m <= count)
    keys = list(keys[:count])
    a = P2MultiSig_Output(iter(keys), m)
    check(a.threshold == m and len(a.public_keys) == count, 'counts')
    for k in range(count):
        check(a.public_keys[k] is keys[k], 'keys in order')


@driver('C09', mode='bounded', samples=lambda rng: (lambda ks: {'keys': ks, 'm': rng.randrange(1, len(ks) + 1), 'coin': COIN.vals[0]})(keys_hint(rng)),
        keys=ListOf(PUB), m=Int(1, 20), coin=COIN)
def multisig_script(keys, m, coin):
    require(1 <= m <= len(keys) <= 20)
    check_multisig(keys, m, coin)


def op_return_hint(rng):
    return script_hint(rng)


@driver('C09', timeout=300, rest=Bytes(hint=script_hint), coin=OneOf(COIN.vals[0]))
def op_return_script(rest, coin):
    check(type(classify(Script(b'\x6a' + rest), coin)) is OP_RETURN_Output, 'OP_RETURN')


# ---------------------------------------------------------------- every script
def number(item):
    if len(item) == 0:
        return 0
    if item[-1] >= 0x80:
        return -int.from_bytes(item[:-1] + bytes([item[-1] - 0x80]), 'little')
    return int.from_bytes(item, 'little')


def parsed(item):
    o = outcome(lambda: PublicKey.from_bytes(item))
    return o[1] if o[0] == 'ok' else None


def spec_classify(s, coin):
    ops = c_stripped(s)
    items = [op for op in ops if isinstance(op, bytes)]
    shape = [None if isinstance(op, bytes) else op for op in ops]
    n = len(items)
    if shape == [0x76, 0xa9, None, 0x88, 0xac] and len(items[0]) == 20:
        return P2PKH_Address(items[0], coin)
    if shape == [0xa9, None, 0x87] and len(items[0]) == 20:
        return P2SH_Address(items[0], coin)
    if shape == [None, 0xac] and parsed(items[0]) is not None:
        return P2PK_Output(parsed(items[0]), coin)
    first = [k for k, op in enumerate(shape) if op is not None][:1]
    if first and shape[first[0]] == 0x6a:
        return OP_RETURN_Output()
    if n >= 3 and shape == [None] * n + [0xae]:
        m, keys, count = number(items[0]), [parsed(i) for i in items[1:-1]], number(items[-1])
        if count == n - 2 and 1 <= m <= count and None not in keys:
            return P2MultiSig_Output(keys, m)
    return Unknown_Output()


def near_hint(rng):
    if rng.random() < .2:
        return script_hint(rng)
    h = rng.randbytes(rng.choice((20, 20, 20, 19, 21, 0, 33)))
    r = rng.random()
    if r < .3:
        s = [bytes([0x76]), bytes([0xa9]), spec_push(h), b'\x88', b'\xac']
    elif r < .5:
        s = [b'\xa9', spec_push(h), b'\x87']
    elif r < .65:
        s = [spec_push(point_hint(rng)), b'\xac']
    elif r < .75:
        s = [spec_push(rng.randbytes(rng.randrange(3))) for _ in range(rng.randrange(3))] + [b'\x6a', spec_push(h)]
    else:
        n = rng.choice((0, 1, 2, 3, 16, 17))
        ks = [k.to_bytes() for k in keys_hint(rng)][:n] if n else []
        n = len(ks)
        if ks and rng.random() < .2:
            ks[rng.randrange(n)] = point_hint(rng)
        s = [spec_push(num_item(rng.choice((1, n, max(n, 1), 0, n + 1, -1)))), *map(spec_push, ks), spec_push(num_item(rng.choice((n, n, n, n, n + 1, n - 1)))), b'\xae']
    if rng.random() < .3 and s:
        k = rng.randrange(len(s))
        r = rng.random()
        if r < .3:
            s[k:k] = [rng.choice((b'\x61', b'\1\2\x75', b'\0', b'\x51\x52\x6d', b'\x75', b'\x0a', b'\x50', b'\xae'))]
        elif r < .6:
            del s[k]
        elif r < .8:
            s.append(rng.choice((b'\x61', b'\x01', b'\x75', b'\x6a', b'\xae', b'\x0a')))
        else:
            s[k] = s[k][:-1]
    return b''.join(s)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, P2MultiSig_Output):
        return a.threshold == b.threshold and [k.to_bytes() for k in a.public_keys] == [k.to_bytes() for k in b.public_keys]
    if isinstance(a, P2PK_Output):
        return a.public_key.to_bytes() == b.public_key.to_bytes()
    if isinstance(a, (P2PKH_Address, P2SH_Address)):
        return a.hash160() == b.hash160() and a.coin() is b.coin()
    return True


@driver('C09', mode='bounded', data=Bytes(hint=near_hint, smax=300), coin=COIN)
def any_script_classified(data, coin):
    s = Script(data)
    want = spec_classify(s, coin)
    check(same(classify(s, coin), want), 'classified')
    extra = {}
    if isinstance(want, P2PKH_Address):
        extra = {'address': want.to_string()}
    elif isinstance(want, P2PK_Output):
        extra = {'pubkey': want.public_key.to_bytes().hex(), 'address': P2PKH_Address(want.hash160(), coin).to_string()}
    kind = {P2PKH_Address: 'pubkeyhash', P2SH_Address: 'scripthash', P2PK_Output: 'pubkey', P2MultiSig_Output: 'multisig',
            OP_RETURN_Output: 'op_return', Unknown_Output: 'unknown'}[type(want)]
    check_json(s, coin, kind, extra)


# ---------------------------------------------------------------- proofs over scripts of a shape
ITEM = Bytes(max=(1 << 32) - 1, hint=lambda rng: rng.choice((rng.randbytes(20), rng.randbytes(rng.randrange(70)), point_hint(rng), b'\1', b'\2')), smax=300)


def agrees(s, coin):
    check(same(classify(s, coin), spec_classify(s, coin)), 'classified')


@driver('C09', item=ITEM, coin=COIN)
def p2pkh_shape(item, coin):
    s = Script(b'\x76\xa9' + spec_push(item) + b'\x88\xac')
    got = classify(s, coin)
    if len(item) == 20:
        check(type(got) is P2PKH_Address and got.hash160() == item and got.coin() is coin, 'the hash')
    else:
        check(type(got) is Unknown_Output, 'not a hash')


@driver('C09', item=ITEM, coin=COIN)
def p2sh_shape(item, coin):
    s = Script(b'\xa9' + spec_push(item) + b'\x87')
    got = classify(s, coin)
    if len(item) == 20:
        check(type(got) is P2SH_Address and got.hash160() == item and got.coin() is coin, 'the hash')
    else:
        check(type(got) is Unknown_Output, 'not a hash')


@driver('C09', item=ITEM, coin=COIN)
def p2pk_shape(item, coin):
    s = Script(spec_push(item) + b'\xac')
    key = outcome(lambda: PublicKey.from_bytes(item))
    got = classify(s, coin)
    if key[0] == 'ok':
        check(type(got) is P2PK_Output and got.public_key == key[1] and got.public_key.is_compressed() == key[1].is_compressed(), 'the key')
    else:
        check(type(got) is Unknown_Output, 'not a key')


SHORT = Bytes(max=75, hint=lambda rng: rng.choice((b'', b'\0', b'\1\0', b'\x81', b'\1', b'\1', b'\2', point_hint(rng))))


@driver('C09', timeout=300, first=SHORT, item=SHORT, last=SHORT, coin=OneOf(COIN.vals[0]))
def multisig_shape(first, item, last, coin):
    s = Script(spec_push(first) + spec_push(item) + spec_push(last) + b'\xae')
    key = outcome(lambda: PublicKey.from_bytes(item))
    got = classify(s, coin)
    if key[0] == 'ok' and number(first) == 1 and number(last) == 1:
        check(type(got) is P2MultiSig_Output and got.threshold == 1 and got.public_keys == (key[1],), 'the key')
    else:
        check(type(got) is Unknown_Output, 'not one key')


@driver('C09', op=Int(0x61, 0xff), item=ITEM, coin=COIN)
def other_operation_last(op, item, coin):
    """After a push, only these opcodes make a standard script."""
    require(op != 0xac and op != 0x6a and op != 0x75)
    check(type(classify(Script(spec_push(item) + bytes([op])), coin)) is Unknown_Output)
    check(type(classify(Script(bytes([op]) + spec_push(item)), coin)) is Unknown_Output)


@driver('C09', keys=TupleOf(PUB, PUB), m=Int(1, 2), coin=COIN)
def multisig_of_two(keys, m, coin):
    check_multisig(keys, m, coin)


@driver('C09', split='n', timeout=300, n=OneOf(*range(1, 21)), short=Bool(), m=Int(1, 20), coin=OneOf(COIN.vals[0]), ds=Bytes(n=640))
def multisig_of_n(n, short, m, coin, ds):
    require(m <= n)
    keys = []
    for k in range(n):
        d = outcome(lambda: PrivateKey(ds[32 * k:32 * k + 32], short).public_key)
        require(d[0] == 'ok')
        keys.append(d[1])
    check_multisig(keys, m, coin)


@driver('C09', hash160=Bytes(n=20), key=PUB, coin=COIN, truncated=Bool())
def json_forms(hash160, key, coin, truncated):
    check_json(P2PKH_Address(hash160, coin).to_script(), coin, 'pubkeyhash', {'address': P2PKH_Address(hash160, coin).to_string()})
    check_json(P2SH_Address(hash160, coin).to_script(), coin, 'scripthash', {})
    check_json(P2PK_Output(key, coin).to_script(), coin, 'pubkey', {
        'pubkey': key.to_bytes().hex(), 'address': P2PKH_Address(key.hash160(), coin).to_string()})
    check_json(Script(b'\x6a\4' + hash160[:4 - truncated]), coin, 'op_return', {})
    check_json(Script(b'\x51'), coin, 'unknown', {})
