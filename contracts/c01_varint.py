"""C01: variable-length and fixed-width integer encodings."""
import struct
from pyvc.api import *

U64 = (1 << 64) - 1


def spec_varint(n):
    """The unique canonical encoding."""
    if n < 253:
        return n.to_bytes(1, 'little')
    if n < 1 << 16:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n < 1 << 32:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


@contract('packing.pack_varint', 'C01', n=Int())
def c_pack_varint(n):
    if n < 0 or n > U64:
        raise struct.error
    return spec_varint(n)


@contract('packing.varint_len', 'C01', n=Int())
def c_varint_len(n):
    if n < 0 or n > U64:
        raise ValueError
    return len(spec_varint(n))


def take(read, n):
    b = read(n)
    if len(b) != n:
        raise struct.error
    return b


@contract('packing.read_varint', 'C01', read=Stream())
def c_read_varint(read):
    n = take(read, 1)[0]
    if n == 253:
        return int.from_bytes(take(read, 2), 'little')
    if n == 254:
        return int.from_bytes(take(read, 4), 'little')
    if n == 255:
        return int.from_bytes(take(read, 8), 'little')
    return n


@contract('packing.pack_varbytes', 'C01', data=Bytes(max=U64))
def c_pack_varbytes(data):
    return spec_varint(len(data)) + data


@contract('packing.read_varbytes', 'C01', read=Stream())
def c_read_varbytes(read):
    n = c_read_varint(read)
    return take(read, n)


# ---------------------------------------------------------------- fixed-width integers
FIXED = [('le_int32', 4, 'little', True), ('le_int64', 8, 'little', True),
         ('le_uint16', 2, 'little', False), ('le_uint32', 4, 'little', False), ('le_uint64', 8, 'little', False),
         ('be_uint16', 2, 'big', False), ('be_uint32', 4, 'big', False), ('be_uint64', 8, 'big', False)]


def fixed(name, size, order, signed):
    lo, hi = (-(1 << (8 * size - 1)), 1 << (8 * size - 1)) if signed else (0, 1 << (8 * size))

    @contract('packing.pack_' + name, 'C01', n=Int())
    def pack_fixed(n):
        if n < lo or n >= hi:
            raise struct.error
        return (n % (1 << 8 * size)).to_bytes(size, order)

    def value(b):
        v = int.from_bytes(b, order)
        return v - (1 << 8 * size) if signed and v >= hi else v

    @contract('packing.read_' + name, 'C01', read=Stream())
    def read_fixed(read):
        return value(take(read, size))

    @contract('packing.unpack_' + name, 'C01', data=Bytes())
    def unpack_fixed(data):
        if len(data) != size:
            raise struct.error
        return (value(data),)

    @contract(f'packing.unpack_{name}_from', 'C01', data=Bytes(), offset=Int(lo=0, hi=1 << 40))
    def unpack_fixed_from(data, offset):
        if len(data) < offset + size:
            raise struct.error
        return (value(data[offset: offset + size]),)

    @driver('C01', name=f'{name} round trip', n=Int(lo=lo, hi=hi - 1), rest=Bytes())
    def roundtrip(n, rest):
        s = BytesIO(READ_PACK[name][1](n) + rest)
        check(READ_PACK[name][0](s.read) == n, 'reading the packed integer gives it back')
        check(s.read() == rest, 'exactly the packed bytes are consumed')


from io import BytesIO                          # noqa: E402
from bitcoinx import packing                    # noqa: E402
READ_PACK = {f[0]: (getattr(packing, 'read_' + f[0]), getattr(packing, 'pack_' + f[0])) for f in FIXED}
for _f in FIXED:
    fixed(*_f)


@contract('packing.pack_byte', 'C01', n=Int())
def c_pack_byte(n):
    if n < 0 or n > 255:
        raise struct.error
    return bytes([n])


@driver('C01', n=Int(0, U64), rest=Bytes())
def varint_round_trip(n, rest):
    enc = packing.pack_varint(n)
    check(len(enc) == packing.varint_len(n), 'reported length')
    s = BytesIO(enc + rest)
    check(packing.read_varint(s.read) == n, 'value read back')
    check(s.read() == rest, 'exactly the varint is consumed')


@driver('C01', data=Bytes(max=U64), rest=Bytes())
def varbytes_round_trip(data, rest):
    s = BytesIO(packing.pack_varbytes(data) + rest)
    check(packing.read_varbytes(s.read) == data, 'data read back')
    check(s.read() == rest, 'exactly the encoding is consumed')


@driver('C01', n=Int(0, U64), cut=Int(0, 8))
def varint_truncation(n, cut):
    enc = packing.pack_varint(n)
    require(cut < len(enc))
    check(exc_of(lambda: packing.read_varint(BytesIO(enc[:cut]).read)) is struct.error, 'truncated varint is an error')


@driver('C01', data=Bytes(max=U64, smax=300), cut=Int(0, U64 + 9))
def varbytes_truncation(data, cut):
    enc = packing.pack_varbytes(data)
    require(cut < len(enc))
    check(exc_of(lambda: packing.read_varbytes(BytesIO(enc[:cut]).read)) is struct.error,
          'truncated byte string is an error')
