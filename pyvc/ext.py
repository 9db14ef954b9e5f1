"""Models of third-party libraries (trusted): AES."""
import z3

from . import values as V
from .core import st, Unsupported
from .models import model, MODELS, bytes_arg, uf_bytes, eq_quick, MISSING
from .ops import raise_
from .values import Model, T, to_seq

try:
    from Cryptodome.Cipher import AES
except ImportError:
    AES = None


def len_is(q, *ns):
    n = T(to_seq(q).length())
    if isinstance(n, int):
        return n in ns
    return st().branch(z3.Or(*[n == k for k in ns]))


class AesObj:
    """CBC mode: an uninterpreted length-preserving function; decryption inverts encryption."""
    def __init__(self, key, iv):
        self.key, self.iv, self.used = key, iv, False
        self.pyclass = object

    def sym_attr(self, it, name):
        if name in ('encrypt', 'decrypt'):
            return Model(lambda it, a, kw: self.run(it, name, bytes_arg(it, a[0])), name)
        return MISSING

    def run(self, it, name, data):
        if self.used:
            raise Unsupported('AES object used twice')
        it.wrote(self)
        self.used = True
        n = T(to_seq(data).length())
        if isinstance(n, int) and n % 16 or not isinstance(n, int) and not st().branch(n % 16 == 0):
            raise_(ValueError, 'Data must be padded to 16 byte boundary in CBC mode')
        if isinstance(n, int) and n == 0:
            return b''
        other = 'aes_dec' if name == 'encrypt' else 'aes_enc'
        for k, v in st().registry.get(('uf', other), ()):
            if eq_quick(v, data) and eq_quick(k[0], self.key) and eq_quick(k[1], self.iv):
                return k[2]
        fn = None
        return uf_bytes('aes_enc' if name == 'encrypt' else 'aes_dec', [self.key, self.iv, data], n, fn)


if AES is not None:
    @model(AES.new)
    def m_aes_new(it, a, kw):
        a = list(a)
        if kw.keys() - {'iv', 'IV'} or len(a) + len(kw) != 3:
            raise Unsupported('AES.new arguments')
        key, mode = bytes_arg(it, a[0]), a[1]
        iv = bytes_arg(it, a[2] if len(a) > 2 else list(kw.values())[0])
        if mode != AES.MODE_CBC:
            raise Unsupported('AES mode')
        if not len_is(key, 16, 24, 32):
            raise_(ValueError, 'Incorrect AES key length')
        if not len_is(iv, 16):
            raise_(ValueError, 'Incorrect IV length')
        return it.box(AesObj(key, iv))
