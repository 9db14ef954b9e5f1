"""C02 transaction serialization, C03 sizes, C04 signature hashes, C05 finality and coinbase."""
import struct
from io import BytesIO

from bitcoinx import tx, script, packing, hashes, signature
from pyvc.api import *
from contracts.c01_varint import spec_varint, take, c_read_varint, U64

U32 = (1 << 32) - 1
I64 = 1 << 63


def push_hint(rng):
    return rng.choice([bytes([1, rng.randrange(256)]) * rng.randrange(3), bytes(rng.choice([0, 1, 252, 253, 254, 300])),
                       rng.randbytes(rng.randrange(40))])


SCRIPT = Made('script.Script', Bytes(max=U64, hint=push_hint, smax=300))
TXIN = ObjOf('tx.TxInput', prev_hash=AnyOf(Bytes(n=32), Const(bytes(32))), prev_idx=Int(0, U32), script_sig=SCRIPT,
             sequence=Int(0, U32, edges=(U32,)))
TXOUT = ObjOf('tx.TxOutput', value=Int(-I64, I64 - 1), script_pubkey=SCRIPT)
TX = ObjOf('tx.Tx', version=Int(-(1 << 31), (1 << 31) - 1), inputs=ListOf(TXIN, max=U64, smax=4),
           outputs=ListOf(TXOUT, max=U64, smax=4), locktime=Int(0, U32, edges=(0, 499_999_999, 500_000_000)))


def le(n, size):
    return (n % (1 << 8 * size)).to_bytes(size, 'little')


def ser_bytes(b):
    return spec_varint(len(b)) + b


def ser_prevout(i):
    return i.prev_hash + le(i.prev_idx, 4)


def ser_in(i):
    return ser_prevout(i) + ser_bytes(bytes(i.script_sig)) + le(i.sequence, 4)


def ser_out(o):
    return le(o.value, 8) + ser_bytes(bytes(o.script_pubkey))


def ser_tx(t):
    return (le(t.version, 4)
            + spec_varint(len(t.inputs)) + b''.join(ser_in(i) for i in t.inputs)
            + spec_varint(len(t.outputs)) + b''.join(ser_out(o) for o in t.outputs)
            + le(t.locktime, 4))


# ---------------------------------------------------------------- C02: layout
@contract('tx.TxInput.to_bytes', 'C02 C03 C04', self=TXIN)
def c_in_bytes(self):
    return ser_in(self)


@contract('tx.TxOutput.to_bytes', 'C02 C03 C04', self=TXOUT)
def c_out_bytes(self):
    return ser_out(self)


@contract('tx.Tx.to_bytes', 'C02', self=TX)
def c_tx_bytes(self):
    return ser_tx(self)


@contract('tx.Tx.to_hex', 'C02', self=TX)
def c_tx_hex(self):
    return ser_tx(self).hex()


@contract('tx.TxInput.to_hex', 'C02', self=TXIN)
def c_in_hex(self):
    return ser_in(self).hex()


@contract('tx.TxOutput.to_hex', 'C02', self=TXOUT)
def c_out_hex(self):
    return ser_out(self).hex()


def dsha(b):
    import hashlib
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


@contract('tx.Tx.hash', 'C02', self=TX)
def c_tx_hash(self):
    return dsha(ser_tx(self))


@contract('tx.Tx.hex_hash', 'C02', self=TX)
def c_tx_hex_hash(self):
    return dsha(ser_tx(self))[::-1].hex()


# ---------------------------------------------------------------- C02: reading
def read_le(read, size, signed=False):
    v = int.from_bytes(take(read, size), 'little')
    return v - (1 << 8 * size) if signed and v >= 1 << (8 * size - 1) else v


def read_script(read):
    return script.Script(take(read, c_read_varint(read)))


def spec_read_in(read):
    h = take(read, 32)
    idx = read_le(read, 4)
    s = read_script(read)
    return tx.TxInput(h, idx, s, read_le(read, 4))


def spec_read_out(read):
    v = read_le(read, 8, True)
    return tx.TxOutput(v, read_script(read))


def spec_read_tx(read):
    version = read_le(read, 4, True)
    inputs = [spec_read_in(read) for _ in range(c_read_varint(read))]
    outputs = [spec_read_out(read) for _ in range(c_read_varint(read))]
    return tx.Tx(version, inputs, outputs, read_le(read, 4))


@contract('tx.TxInput.read', 'C02', read=Stream())
def c_in_read(read):
    return spec_read_in(read)


@contract('tx.TxOutput.read', 'C02', read=Stream())
def c_out_read(read):
    return spec_read_out(read)


@driver('C02', t=TX, rest=Bytes())
def tx_round_trip(t, rest):
    s = BytesIO(t.to_bytes() + rest)
    u = tx.Tx.read(s.read)
    check(u.version == t.version and u.locktime == t.locktime, 'version and locktime')
    check(same_value(u.inputs, t.inputs), 'inputs')
    check(same_value(u.outputs, t.outputs), 'outputs')
    check(u == t, 'equal transactions')
    check(s.read() == rest, 'exactly the transaction is consumed')


@driver('C02', t=TX)
def tx_from_bytes_round_trip(t):
    check(same_value(tx.Tx.from_bytes(t.to_bytes()), t), 'from_bytes inverts to_bytes')


@driver('C02', t=TX)
def tx_from_hex_round_trip(t):
    check(same_value(tx.Tx.from_hex(t.to_hex()), t), 'from_hex inverts to_hex')


@driver('C02', i=TXIN)
def txin_round_trip(i):
    check(same_value(tx.TxInput.from_bytes(i.to_bytes()), i), 'from_bytes inverts to_bytes')
    check(same_value(tx.TxInput.from_hex(i.to_hex()), i), 'from_hex inverts to_hex')


@driver('C02', o=TXOUT)
def txout_round_trip(o):
    check(same_value(tx.TxOutput.from_bytes(o.to_bytes()), o), 'from_bytes inverts to_bytes')
    check(same_value(tx.TxOutput.from_hex(o.to_hex()), o), 'from_hex inverts to_hex')


def cut_sample(rng):
    t = TX.sample(rng)
    n = len(t.to_bytes())
    return {'t': t, 'cut': rng.choice([rng.randrange(n), n - 1, n - 4, n - 5, rng.randrange(min(n, 60))])}


# Split by the varint class of the two counts (only to spread the proof over processes).
CLASSES = ((0, 0xfc), (0xfd, 0xffff), (0x10000, U32), (U32 + 1, U64))


def _truncation(a, b):
    def sample(rng):
        t = TX.sample(rng)
        n = len(t.to_bytes())
        return {'t': t, 'cut': rng.choice([rng.randrange(n), n - 1, n - 4, n - 5, rng.randrange(min(n, 60))])}

    def tx_truncation(t, cut):
        raw = t.to_bytes()
        require(cut < len(raw))
        check(exc_of(lambda: tx.Tx.from_bytes(prefix(raw, cut))) is struct.error, 'a strict prefix is an error')

    dom = ObjOf('tx.Tx', version=TX.fields['version'], inputs=ListOf(TXIN, min=CLASSES[a][0], max=CLASSES[a][1]),
                outputs=ListOf(TXOUT, min=CLASSES[b][0], max=CLASSES[b][1]), locktime=TX.fields['locktime'])
    driver('C02', name=f'tx_truncation_{a}{b}', samples=sample if a == b == 0 else None, t=dom, cut=Int(0))(tx_truncation)


for _a in range(4):
    for _b in range(4):
        _truncation(_a, _b)


# ---------------------------------------------------------------- C03: sizes
@contract('tx.TxInput.size', 'C03', self=TXIN)
def c_in_size(self):
    return len(ser_in(self))


@contract('tx.TxOutput.size', 'C03', self=TXOUT)
def c_out_size(self):
    return len(ser_out(self))


@contract('tx.Tx.size', 'C03', self=TX)
def c_tx_size(self):
    return len(ser_tx(self))


@contract('tx.Tx.size_io', 'C03', inputs=TX.fields['inputs'], outputs=TX.fields['outputs'])
def c_size_io(inputs, outputs):
    return (4 + len(spec_varint(len(inputs))) + len(b''.join(ser_in(i) for i in inputs))
            + len(spec_varint(len(outputs))) + len(b''.join(ser_out(o) for o in outputs)) + 4)


@contract('tx.Tx.total_output_value', 'C03', self=TX)
def c_total(self):
    return sum(o.value for o in self.outputs)


# ---------------------------------------------------------------- C04: signature hashes
SIGHASH = AnyOf(Const(None), Int(0, U32, cls=signature.SigHash, edges=(1, 2, 3, 0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3)),
                Int(0, 255))


@contract('tx.TxInput.to_bytes_for_signature', 'C04', self=TXIN, value=Int(0, I64 - 1), script=SCRIPT)
def c_sig_bytes(self, value, script):
    return ser_prevout(self) + ser_bytes(bytes(script)) + le(value, 8) + le(self.sequence, 4)


@contract('tx.Tx.signature_hash', 'C04', self=TX, input_index=Int(edges=(-1, 0, 1, 2, 3)), value=Int(hi=I64 - 1),
          script=SCRIPT, sighash=SIGHASH)
def c_signature_hash(self, input_index, value, script, *, sighash=None):
    if input_index < 0 or input_index >= len(self.inputs):
        raise IndexError
    if value < 0:
        raise ValueError
    if sighash is None:
        sighash = signature.SigHash(0x41)
    elif not isinstance(sighash, signature.SigHash):
        raise TypeError
    base = sighash & 0x1f
    acp = sighash & 0x80 != 0
    zero = bytes(32)
    single, none = base == 3, base == 2
    prevouts = zero if acp else dsha(b''.join(ser_prevout(i) for i in self.inputs))
    seqs = zero if acp or single or none else dsha(b''.join(le(i.sequence, 4) for i in self.inputs))
    if single:
        outs = dsha(ser_out(self.outputs[input_index])) if input_index < len(self.outputs) else zero
    elif none:
        outs = zero
    else:
        outs = dsha(b''.join(ser_out(o) for o in self.outputs))
    i = self.inputs[input_index]
    return dsha(le(self.version, 4) + prevouts + seqs
                + ser_prevout(i) + ser_bytes(bytes(script)) + le(value, 8) + le(i.sequence, 4)
                + outs + le(self.locktime, 4) + le(sighash, 4))


# ---------------------------------------------------------------- C05: finality, coinbase
@contract('tx.TxInput.is_coinbase', 'C05', self=TXIN)
def c_in_coinbase(self):
    return self.prev_hash == bytes(32) and self.prev_idx == U32


@contract('tx.TxInput.is_final', 'C05', self=TXIN)
def c_in_final(self):
    return self.sequence == U32


@contract('tx.Tx.is_coinbase', 'C05', self=ObjOf('tx.Tx', version=Int(0, 5), inputs=ListOf(TXIN, min=1),
                                               outputs=ListOf(TXOUT), locktime=Int(0, U32)))
def c_tx_coinbase(self):
    return self.inputs[0].prev_hash == bytes(32) and self.inputs[0].prev_idx == U32


@contract('tx.Tx.are_inputs_final', 'C05', self=TX)
def c_inputs_final(self):
    return all(i.sequence == U32 for i in self.inputs)


@contract('tx.Tx.is_final_for_block', 'C05', self=TX, block_height=Int(0), timestamp=Int(0))
def c_final_for_block(self, block_height, timestamp):
    if self.locktime == 0:
        return True
    if self.locktime < 500_000_000:
        if self.locktime < block_height:
            return True
    elif self.locktime < timestamp:
        return True
    return all(i.sequence == U32 for i in self.inputs)
