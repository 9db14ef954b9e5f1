"""C06 script pushes, C07 script numbers, C08 script parsing, C10 templates."""
import struct

from bitcoinx import script
from bitcoinx.script import Script, Ops, ScriptError, TruncatedScriptError
from pyvc.api import *
from contracts.c02_tx import le, push_hint, SCRIPT

U32 = (1 << 32) - 1


def item_hint(rng):
    return rng.choice([bytes([rng.randrange(256)]), bytes([rng.choice((0, 1, 15, 16, 17, 0x7f, 0x80, 0x81, 0x82))]),
                       bytes(rng.choice((0, 1, 2, 75, 76, 77, 78, 255, 256, 257))),
                       rng.randbytes(rng.choice((0, 1, 4, 5, 9, 33, 65, 72, 75, 76, 255, 256))),
                       b"\x4b" * rng.choice((65535, 65536, 65537)) if rng.random() < 0.05 else b'\x30' * rng.randrange(80)])


ITEM = Bytes(hint=item_hint, smax=300)


# ---------------------------------------------------------------- C07: numbers
def num_item(n):
    """Minimal little-endian sign-magnitude encoding (shown to be that by the drivers below)."""
    if n == 0:
        return b''
    m = abs(n)
    sign = 0x80 if n < 0 else 0
    b = m.to_bytes((m.bit_length() + 7) // 8, 'little')
    if b[-1] >= 0x80:
        return b + bytes([sign])
    return b[:-1] + bytes([b[-1] + sign])


@contract('script.item_to_int', 'C07', item=Bytes(hint=item_hint, smax=40))
def c_item_to_int(item):
    if len(item) == 0:
        return 0
    if item[-1] >= 0x80:
        return -int.from_bytes(item[:-1] + bytes([item[-1] - 0x80]), 'little')
    return int.from_bytes(item, 'little')


# ---------------------------------------------------------------- C06: pushes
def spec_push(item):
    n = len(item)
    if n == 0:
        return b'\0'
    if n == 1 and 1 <= item[0] <= 16:
        return bytes([0x50 + item[0]])
    if n == 1 and item[0] == 0x81:
        return b'\x4f'
    if n <= 75:
        return bytes([n]) + item
    if n <= 0xff:
        return b'\x4c' + le(n, 1) + item
    if n <= 0xffff:
        return b'\x4d' + le(n, 2) + item
    if n > U32:
        raise struct.error
    return b'\x4e' + le(n, 4) + item


@contract('script.push_item', 'C06 C07 C31', item=ITEM)
def c_push_item(item):
    return spec_push(item)


@contract('script.push_and_drop_item', 'C06', item=ITEM)
def c_push_and_drop_item(item):
    return spec_push(item) + b'\x75'


@contract('script.push_and_drop_items', 'C06', items=ListOf(ITEM))
def c_push_and_drop_items(items):
    n = len(items)
    return b''.join(spec_push(i) for i in items) + b'\x6d' * (n // 2) + b'\x75' * (n % 2)


# ---------------------------------------------------------------- C08: the grammar
def grammar_step(data, n, out):
    op = data[n]
    n = n + 1
    if op == 0x4f:
        return n, out + (b'\x81',)
    if 0x51 <= op <= 0x60:
        return n, out + (bytes([op - 0x50]),)
    if op > 0x4e:
        return n, out + (op,)
    if op < 0x4c:
        size = op
    else:
        w = 1 if op == 0x4c else 2 if op == 0x4d else 4
        if n + w > len(data):
            raise TruncatedScriptError
        size = int.from_bytes(data[n:n + w], 'little')
        n = n + w
    if n + size > len(data):
        raise TruncatedScriptError
    return n + size, out + (data[n:n + size],)


OP = AnyOf(Bytes(hint=item_hint, smax=80), Int(0x50, 0xff))
GRAMMAR = Machine('script grammar', ctx=['data'], state={'n': Int(0), 'out': ListOf(OP, cls=tuple)},
                  bind={'data': 'script', 'n': 'n', 'out': '$yields'},
                  done=lambda data, n, out: n >= len(data), step=grammar_step,
                  inv=lambda data, n, out: 0 <= n <= len(data) and (len(out) == 0 if n == 0 else data[0] != 0x6a or len(out) >= 1 and out[0] == 0x6a),
                  variant=lambda data, n, out: len(data) - n,
                  raises=(TruncatedScriptError,), scan=('data', 'n', 'out'))


def script_hint(rng):
    out = b''
    for _ in range(rng.randrange(7)):
        r = rng.random()
        if r < .5:
            out += spec_push(item_hint(rng))
        elif r < .8:
            out += bytes([rng.choice((0x61, 0x75, 0x6d, 0x50, 0x4f, 0x6a, 0xac, 0xff, 0x88))])
        else:
            out += bytes([rng.randrange(256)])
    if rng.random() < .3:
        out = out[:rng.randrange(len(out) + 1)]
    return out


ANY_SCRIPT = Made('script.Script', Bytes(max=(1 << 64) - 1, hint=script_hint, smax=300))


@contract('script.Script.ops', 'C06 C08 C10 C31', timeout=200, self=ANY_SCRIPT)
def c_ops(self):
    exc, (n, out) = run_machine_exc(GRAMMAR, (bytes(self),), (0, ()))
    yield from out
    if exc:
        raise exc


# C06 over C08: appending one scriptlet appends exactly its operations.
def spec_scriptlet(item):
    if isinstance(item, Ops):
        return bytes([item])
    if isinstance(item, bytes):
        return spec_push(item)
    if isinstance(item, int):
        return spec_push(num_item(item))
    return bytes(item)


ANY_INT = Int()
SCRIPTLET = AnyOf(ITEM, ANY_INT, Int(0x4c, 0xb9, cls=Ops), Const(Ops.OP_0), ANY_SCRIPT)


@contract('script.push_int', 'C06 C07', value=ANY_INT)
def c_push_int(value):
    return spec_push(num_item(value))


@contract('script.Script.__lshift__', 'C06', self=SCRIPT, item=SCRIPTLET)
def c_lshift(self, item):
    return Script(bytes(self) + spec_scriptlet(item))


@contract('script.Script.push_many', 'C06', timeout=400, self=SCRIPT, items=ListOf(SCRIPTLET))
def c_push_many(self, items):
    return Script(bytes(self) + b''.join(spec_scriptlet(i) for i in items))


@driver('C06', prefix=Made('script.Script', Bytes(smax=60)), items=ListOf(Bytes(max=U32, hint=item_hint, smax=300)))
def any_iterable_is_pushed(prefix, items):
    check_same(lambda: prefix.push_many(iter(items)), lambda: prefix.push_many(items))


@driver('C07', n=Int())
def number_round_trip(n):
    item = num_item(n)
    check(script.item_to_int(item) == n, 'decodes to the number')
    if n == 0:
        check(len(item) == 0, 'zero is the empty item')
    elif len(item) == 1:
        check(item[0] != 0 and item[0] != 0x80, 'not a padded zero')
    else:
        check(item[-1] & 0x7f != 0 or item[-2] >= 0x80, 'no shorter encoding')


@driver('C08 C06', data=Bytes(hint=script_hint, smax=60), rest=Bytes(smax=60, hint=script_hint), n=Int(0), out=ListOf(OP, cls=tuple))
def grammar_is_local(data, rest, n, out):
    """A completed operation does not depend on what follows it."""
    require(n < len(data))
    a = outcome(lambda: grammar_step(data, n, out))
    require(a[0] == 'ok')
    check(grammar_step(data + rest, n, out) == a[1], 'same operation with more data after it')


@driver('C06 C08', pre=Bytes(smax=60), item=ITEM, rest=Bytes(smax=60), out=ListOf(OP, cls=tuple))
def push_is_one_operation(pre, item, rest, out):
    require(len(item) <= U32)
    p = script.push_item(item)
    check(len(p) > 0, 'not empty')
    check(grammar_step(pre + p + rest, len(pre), out) == (len(pre) + len(p), out + (item,)), 'yields exactly the data')


@driver('C06 C08', pre=Bytes(smax=60), op=Int(0x50, 0xff), rest=Bytes(smax=60), out=ListOf(OP, cls=tuple))
def opcode_is_one_operation(pre, op, rest, out):
    require(op == 0x50 or op > 0x60)
    check(grammar_step(pre + bytes([op]) + rest, len(pre), out) == (len(pre) + 1, out + (op,)), 'yields the opcode')


# C10
def strip_step(items, i, stack):
    op = items[i]
    if not isinstance(op, bytes):
        if op == 0x61:
            return i + 1, stack
        if op == 0x75 and len(stack) >= 1 and isinstance(stack[-1], bytes):
            return i + 1, stack[:-1]
        if op == 0x6d and len(stack) >= 2 and isinstance(stack[-1], bytes) and isinstance(stack[-2], bytes):
            return i + 1, stack[:-2]
    return i + 1, stack + (op,)


STRIP = Machine('strip', ctx=['items'], state={'i': Int(0), 'stack': ListOf(OP, cls=tuple)},
                bind={'items': '$iter', 'i': '$i', 'stack': 'result'},
                done=lambda items, i, stack: i >= len(items), step=strip_step,
                inv=lambda items, i, stack: 0 <= i <= len(items) and (len(stack) == 0 if i == 0 else items[0] != 0x6a or len(stack) >= 1 and stack[0] == 0x6a),
                variant=lambda items, i, stack: len(items) - i)


@contract('script.Script._stripped_ops', 'C10 C09', timeout=200, self=ANY_SCRIPT)
def c_stripped(self):
    exc, (n, items) = run_machine_exc(GRAMMAR, (bytes(self),), (0, ()))
    i, stack = run_machine(STRIP, (items,), (0, ()))
    return list(stack + (0,) if exc else stack)


@contract('script.Script.to_template', 'C10 C09', timeout=200, self=ANY_SCRIPT)
def c_to_template(self):
    ops = c_stripped(self)
    return (bytes([0x4c if isinstance(op, bytes) else op for op in ops]), [op for op in ops if isinstance(op, bytes)])


OPCODE = AnyOf(Const(Ops.OP_RESERVED), Int(0x61, 0xb9, cls=Ops))


def op_of(item):
    """What iterating over the scriptlet of item yields."""
    if isinstance(item, Ops):
        return int(item)
    return num_item(item) if isinstance(item, int) else item


@driver('C06 C08', items=ListOf(AnyOf(Bytes(max=U32, hint=item_hint, smax=300), Int(-(1 << 250), 1 << 250), OPCODE)))
def ops_of_built_script(items):
    s = Script().push_many(items)
    check(collect(s.ops()) == (None, tuple([op_of(i) for i in items])), 'operations are what was pushed')


@driver('C06', items=ListOf(Bytes(max=U32, hint=item_hint, smax=300)))
def ops_of_push_and_drop(items):
    s = Script(script.push_and_drop_items(items))
    n = len(items)
    check(collect(s.ops()) == (None, tuple(items) + (0x6d,) * (n // 2) + (0x75,) * (n % 2)), 'pushes then drops')
