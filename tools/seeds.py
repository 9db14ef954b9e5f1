"""Planted bugs: written from a property's text and the code alone."""
SEEDS = []


def seed(id, property, edits, demo, needs, what):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))


seed('varint_len_top', 'C01', [('bitcoinx/packing.py', 'if n <= 18446744073709551615:', 'if n < 18446744073709551615:')], '''
from bitcoinx.packing import varint_len, pack_varint
n = (1 << 64) - 1
assert varint_len(n) == len(pack_varint(n))
''', 'exactly the value 2^64-1', 'the reported varint length of the largest varint raises')
seed('varbytes_short', 'C01', [('bitcoinx/packing.py', '    if len(result) != n:', '    if result and len(result) != n or n < 253 and len(result) != n:')], '''
from io import BytesIO
from bitcoinx.packing import read_varbytes
try:
    v = read_varbytes(BytesIO(bytes([0xfd, 0xfd, 0])).read)
except Exception:
    pass
else:
    raise SystemExit(f'returned {v!r}')
''', 'a stream that ends right after a multi-byte length', 'read_varbytes returns empty bytes for a truncated stream')
seed('tx_version_unsigned', 'C02', [('bitcoinx/tx.py', """        return b''.join((
            pack_le_int32(self.version),
            pack_list(self.inputs, TxInput.to_bytes),""", """        return b''.join((
            pack_le_uint32(self.version & 0x7fffffff),
            pack_list(self.inputs, TxInput.to_bytes),""")], '''
from bitcoinx import Tx
t = Tx(-2, [], [], 0)
assert Tx.from_bytes(t.to_bytes()) == t
''', 'a negative transaction version', 'the sign bit of the version is lost in serialization')
seed('single_index', 'C04', [('bitcoinx/tx.py', 'elif (sighash.base == SigHash.SINGLE and input_index < len(self.outputs)):',
     'elif (sighash.base == SigHash.SINGLE and input_index < len(self.outputs) and (input_index or not sighash.anyone_can_pay or len(self.inputs) > 1)):')], '''
from bitcoinx import *
i = TxInput(bytes(32), 0, Script(), 0)
def h(v):
    return Tx(1, [i], [TxOutput(v, Script())], 0).signature_hash(0, 5, Script(), sighash=SigHash(0x03 | 0x80 | 0x40))
assert h(1) != h(2)
''', 'SINGLE|ANYONECANPAY with exactly one input', 'the output is not committed to')
seed('final_seq', 'C05', [('bitcoinx/tx.py', 'return self.sequence == 0xffffffff', 'return self.sequence & 0x7fffffff == 0x7fffffff')], '''
from bitcoinx import *
i = TxInput(bytes(32), 0, Script(), 0x7fffffff)
assert not Tx(1, [i], [], 500).is_final_for_block(100, 500_000_001)
''', 'the sequence 0x7fffffff', 'an input that is not final is taken as final')
seed('push_65536', 'C06', [('bitcoinx/script.py', '        if op == OP_2DROP', '        if op == OP_2DROP')] if 0 else
     [('bitcoinx/script.py', "                    elif op == OP_PUSHDATA2:\n                        dlen, = unpack_le_uint16(script[n: n + 2])",
       "                    elif op == OP_PUSHDATA2:\n                        dlen = script[n] | script[n + 1] << 8 & 0x7fff")], '''
from bitcoinx import Script
s = Script() << bytes(40000)
assert list(s.ops()) == [bytes(40000)]
''', 'a push of 32,768 to 65,535 bytes', 'script iteration reads the wrong length')
seed('strip_marker', 'C10', [('bitcoinx/script.py', "                    if (op == OP_2DROP and len(result) >= 2 and", "                    if (op == OP_2DROP and len(result) > 2 - (len(result) == 2 and result[0] != b'') and")], '''
from bitcoinx import Script, OP_2DROP
s = Script() << b'' << b'a' << OP_2DROP
assert s.to_template() == (b'', []), s.to_template()
''', 'two pushes at the very start, the first one empty, then OP_2DROP', 'the pair is not cancelled')
seed('num_pad', 'C07', [('bitcoinx/script.py', "    item = int_to_le_bytes(abs(value))\n    if item[-1] & 0x80:", "    item = int_to_le_bytes(abs(value))\n    if item[-1] & (0x80 if len(item) < 9 else 0xc0):")], '''
from bitcoinx.script import push_int
assert push_int(0x40 << 64) == bytes([9]) + (0x40 << 64).to_bytes(9, 'little')
''', 'a number of 9 bytes or more whose second highest bit is set', 'the encoding is not minimal')
seed('ops_assert', 'C08', [('bitcoinx/script.py', "                    assert len(data) == dlen\n", "                    assert len(data) == dlen or not data and n > limit + 0xffffff\n")], '''
from bitcoinx import Script, TruncatedScriptError
try:
    r = list(Script(bytes([0x4e, 0, 0, 0, 4])).ops())
except TruncatedScriptError:
    pass
else:
    raise SystemExit(repr(r))
''', 'a PUSHDATA4 with no data at all and a length of over 16 million', 'no truncated-script error')
seed('b58_zeros', 'C11', [('bitcoinx/base58.py', '    if count:\n', '    if count and (value or count < 3):\n')], '''
from bitcoinx import base58_decode
assert base58_decode('1111') == bytes(4)
''', 'a text of three or more digits that are all 1', 'the zero bytes are lost')
seed('p2sh_mainnet_byte', 'C12', [('bitcoinx/address.py', 'if verbyte == coin.P2SH_verbyte:', 'if verbyte in (coin.P2SH_verbyte, 5):')], '''
from bitcoinx import P2SH_Address, Address, Bitcoin, BitcoinTestnet
text = P2SH_Address(bytes(20), Bitcoin).to_string()
try:
    Address.from_string(text, BitcoinTestnet)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''', 'a main net P2SH address read for a test net', 'an address of another network is accepted')
seed('cashaddr_long_hash', 'C13', [('bitcoinx/cashaddr.py', '    if size != len(addr_hash):', '    if size != len(addr_hash) and size - 24 != len(addr_hash):')], '''
from bitcoinx import cashaddr
data = cashaddr._convertbits(bytes([5]) + bytes(24), 8, 5, True)
prefix = 'bitcoincash'
pm = cashaddr._polymod(cashaddr._prefix_expand(prefix) + data + bytes(8))
check = bytes((pm >> 5 * (7 - i)) & 31 for i in range(8))
text = prefix + ':' + ''.join(cashaddr._CHARSET[x] for x in data + check)
try:
    cashaddr.decode(text)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''', 'a version byte announcing 48 bytes with 24 bytes of hash', 'a hash of the wrong length is accepted')
seed('mac_31', 'C16', [('bitcoinx/keys.py', 'if hmac_digest(key_m, message[:-32], _sha256) != hmac:', 'if not hmac_digest(key_m, message[:-32], _sha256).startswith(hmac.rstrip(bytes(1))):')], '''
from bitcoinx import PrivateKey
key = PrivateKey(bytes(31) + bytes([7]))
m = key.public_key.encrypt_message(b'hello')
try:
    key.decrypt_message(m[:-32] + bytes(32))
except ValueError:
    pass
else:
    raise SystemExit('forged message accepted')
''', 'a tag that ends in zero bytes', 'a message with a zeroed tag is accepted')
seed('address_suffix', 'C17', [('bitcoinx/keys.py', 'any(hash160 == public_key.hash160(compressed=compressed)', 'any(public_key.hash160(compressed=compressed).endswith(hash160)')], '''
from bitcoinx import PrivateKey, PublicKey, base58_encode_check
key = PrivateKey(bytes(31) + bytes([7]))
sig = key.sign_message(b'hello')
text = base58_encode_check(bytes([0]) + key.public_key.hash160()[10:])
assert PublicKey.verify_message_and_address(sig, b'hello', text) is False
''', 'an address text whose payload is shorter than a hash', 'a message verifies for a text that is not its address')
seed('xprv_prefix', 'C19', [('bitcoinx/bip32.py', "        if ekey[45] != 0:", "        if ekey[45] & 0x7f:")], '''
from bitcoinx import *
from bitcoinx.bip32 import BIP32Derivation
k = BIP32PrivateKey.from_seed(bytes(16), Bitcoin)
raw = base58_decode_check(k.to_extended_key_string())
try:
    bip32_key_from_string(base58_encode_check(raw[:45] + bytes([0x80]) + raw[46:]))
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''', 'an extended private key string whose pad byte is 0x80', 'a malformed extended key is accepted')
seed('count_first', 'C25', [('bitcoinx/chain.py', """        self.mmap[start: start + 80] = raw_header
        if index >= len(self):
            self._set_count(index + 1)
""", """        if index >= len(self):
            self._set_count(index + 1)
        self.mmap[start: start + 80] = raw_header
""")], '''
import os
from bitcoinx import *
from bitcoinx import chain
path = os.path.join(os.environ['SCRATCH'], 'h')
g = Bitcoin.genesis_header
s = chain._HeaderStorage(path)
s.open_or_create(CheckPoint(g, 0, 0))
class Crash(Exception):
    pass
class Map:
    """Stops at the second store."""
    def __init__(self, m):
        self.m, self.n = m, 0
    def __len__(self):
        return len(self.m)
    def __getitem__(self, k):
        return self.m[k]
    def __setitem__(self, k, v):
        self.n += 1
        if self.n == 2:
            raise Crash
        self.m[k] = v
s.append(bytes([7]) * 80)
s.mmap = Map(s.mmap)
try:
    s.append(bytes([8]) * 80)
except Crash:
    pass
s = chain._HeaderStorage(path)
s.open_or_create(CheckPoint(g, 0, 0))
for k in range(len(s)):
    s[k]
''', 'a crash between the two stores of an append', 'a header is counted that was never written')
seed('hash_form', 'C30', [('bitcoinx/address.py', "        return hash(self.public_keys) + self.threshold", "        return hash(self.to_script_bytes()) + self.threshold")], '''
from bitcoinx import PrivateKey, P2MultiSig_Output
p = PrivateKey(bytes(31) + bytes([7])).public_key
a, b = P2MultiSig_Output([p], 1), P2MultiSig_Output([p.complement()], 1)
assert a == b and hash(a) == hash(b)
''', 'multisig outputs of the same keys in compressed and uncompressed form', 'equal outputs hash differently')
seed('asm_leading_zeros', 'C31', [('bitcoinx/script.py', "        if word.isdigit() or word[0] == '-' and word[1:].isdigit():", "        if len(word) <= 11 and (word.isdigit() or word[0] == '-' and word[1:].isdigit()):")], '''
from bitcoinx import Script
assert Script.from_asm('000000000005') == Script() << 5
''', 'a decimal with leading zeros, longer than any number of 31 bits', 'its digits are pushed as hex data')
seed('multisig_count', 'C09', [('bitcoinx/address.py', "        if count != n:", "        if count != n and (count <= 16 or n <= 16):")], '''
from bitcoinx import *
k = PrivateKey(bytes(31) + bytes([7])).public_key.to_bytes()
s = (Script() << 1).push_many([k] * 17) << 18 << Ops.OP_CHECKMULTISIG
assert not isinstance(classify_output_script(s, Bitcoin), P2MultiSig_Output)
''', 'a script of 17 keys that says it has 18', 'it is described as a multisig output')
seed('input_size_len', 'C03', [('bitcoinx/tx.py', "varint_len(len((outputs))) + sum", "varint_len(len(inputs) and len(outputs)) + sum")], '''
from bitcoinx import Tx, TxOutput, Script
t = Tx(1, [], [TxOutput(0, Script())] * 300, 0)
assert t.size() == len(t.to_bytes())
''', 'a transaction with no inputs and at least 253 outputs', 'its size is reported too small')
seed('known_tip', 'C23', [('bitcoinx/chain.py', "        if chain.tip.hash != prev_header.hash:\n            try:", "        if chain.tip.hash != prev_header.hash and (len(self._chains) < 3 or chain.tip.height > header.height):\n            try:")], '''
import os
import struct
from bitcoinx import *
from bitcoinx.chain import *
from bitcoinx.hashes import double_sha256
coin = BitcoinRegtest
EASY = 0x207fffff
def mine(prev, salt):
    nonce = 0
    while True:
        raw = struct.pack('<i32s32sIII', 1, prev, bytes([salt]) * 32, 1600000000 + salt, EASY, nonce)
        if int.from_bytes(double_sha256(raw), 'little') <= bits_to_target(EASY):
            return raw
        nonce += 1
g = coin.genesis_header
class Easy(Headers):
    def required_bits(self, chain, height, timestamp=None):
        return EASY
h = Easy.from_file(coin, os.path.join(os.environ['SCRATCH'], 'h'), CheckPoint(g, 0, 0))
ghash = double_sha256(g)
a = mine(ghash, 1)
raws = [a, mine(double_sha256(a), 2), mine(ghash, 3), mine(ghash, 4)]
for r in raws:
    h.connect(r)
n = len(h)
h.connect(raws[1])
assert len(h) == n
''', 'three chains, and a known tip connected again', 'a known header is stored twice')
seed('fork_of_fork', 'C24', [('bitcoinx/chain.py', "            result[chain.parent] = chain.first_height - 1", "            result[chain.parent] = max(chain.first_height, self.first_height) - 1")], '''
import os
import struct
from bitcoinx import *
from bitcoinx.chain import *
from bitcoinx.hashes import double_sha256
coin = BitcoinRegtest
EASY = 0x207fffff
def mine(prev, salt):
    nonce = 0
    while True:
        raw = struct.pack('<i32s32sIII', 1, prev, bytes([salt]) * 32, 1600000000 + salt, EASY, nonce)
        if int.from_bytes(double_sha256(raw), 'little') <= bits_to_target(EASY):
            return raw
        nonce += 1
g = coin.genesis_header
class Easy(Headers):
    def required_bits(self, chain, height, timestamp=None):
        return EASY
h = Easy.from_file(coin, os.path.join(os.environ['SCRATCH'], 'h'), CheckPoint(g, 0, 0))
chain = [double_sha256(g)]
def add(prev, salt):
    r = mine(prev, salt)
    return double_sha256(r), h.connect(r)[1]
m = chain[0]
for k in range(6):
    m, main = add(m, k)
f1, c1 = add(chain[0], 50)
f2, c1 = add(f1, 51)
f3, c1 = add(f2, 52)
g1, c2 = add(f1, 60)
assert main.common_chain_and_height(c2) == (main, 0), main.common_chain_and_height(c2)
''', 'a fork of a fork, compared with the main chain', 'the fork point is reported too high')

seed('chain_blank', 'C20', [('bitcoinx/bip32.py', "    if not parts or parts[0] != 'm':", "    if not parts or parts[0].strip() != 'm':")], '''
from bitcoinx import bip32_decompose_chain_string
for t in (' m/1', 'm\\t/1', 'm '):
    try:
        bip32_decompose_chain_string(t)
    except ValueError:
        pass
    else:
        raise SystemExit(t)
''', 'white space around the m', 'a malformed chain string is accepted')
seed('eda_boundary', 'C22', [('bitcoinx/work.py', "    if mtp_diff < 12 * 3600:", "    if mtp_diff <= 12 * 3600:")], '''
from types import SimpleNamespace as N
from bitcoinx import Bitcoin
from bitcoinx.work import bits_to_target, target_to_bits
bits = 0x18014735
h = N(coin=Bitcoin, header_at_height=lambda c, h: N(bits=bits, timestamp=h * 600),
      median_time_past=lambda c, h: 1500000000 + h * 7200)
t = bits_to_target(bits)
assert Bitcoin.required_bits(h, None, 480001) == target_to_bits(t + (t >> 2))
''', 'six blocks that took exactly twelve hours', 'the emergency adjustment is missed at its boundary')
seed('full_block_padding', 'C29', [('bitcoinx/aes.py', "    if data[-padlen:] != bytes([padlen]) * padlen:", "    if padlen < 16 and data[-padlen:] != bytes([padlen]) * padlen:")], '''
from Cryptodome.Cipher import AES
from bitcoinx.aes import aes_decrypt_with_iv, BadPaddingError
data = AES.new(bytes(16), AES.MODE_CBC, bytes(16)).encrypt(bytes([1] * 15 + [16]))
try:
    aes_decrypt_with_iv(bytes(16), bytes(16), data)
except BadPaddingError:
    pass
else:
    raise SystemExit('accepted')
''', 'a final block that ends in byte 16 only', 'bad padding is stripped')


seed('safe_first', 'C18', [('bitcoinx/bip32.py', "                n += 1\n                if n & (HARDENED - 1) == 0:", "                n += 1\n                if n & ((HARDENED >> 1) - 1) == 0:")], '''
from bitcoinx import BIP32PrivateKey, Bitcoin
class Key(BIP32PrivateKey):
    def child(self, n):
        if n == 0x3fffffff:
            raise ValueError('no such child')
        return super().child(n)
k = BIP32PrivateKey.from_seed(bytes(16), Bitcoin)
k = Key(k.to_bytes(), k.derivation(), Bitcoin)
assert k.child_safe(0x3fffffff) == k.child(0x40000000)
''', 'the invalid child just below 2^30', 'no child is found though the next one is valid')


seed('bad_words_once', 'C26', [('bitcoinx/mnemonic.py', "        bad_words = [word for part, word in zip(parts, words) if part is None]", "        bad_words = list({word: None for part, word in zip(parts, words) if part is None})")], '''
from bitcoinx import BIP39Mnemonic
words = [f'w{n}' for n in range(2048)]
try:
    BIP39Mnemonic.is_valid(' '.join(['w1'] * 10 + ['bad', 'bad']), words)
except BIP39Mnemonic.BadWords as e:
    assert e.args[0] == ['bad', 'bad'], e.args
else:
    raise SystemExit('accepted')
''', 'a phrase with the same unknown word twice', 'the bad words error does not name every bad word')
seed('cs_mask', 'C26', [('bitcoinx/mnemonic.py', "        return expected_checksum == checksum", "        return (expected_checksum ^ checksum) & 127 == 0")], '''
from hashlib import sha256
from bitcoinx import BIP39Mnemonic
words = [f'w{n}' for n in range(2048)]
e = bytes(32)
v = int.from_bytes(e, 'big') << 8 | sha256(e).digest()[0] ^ 128
assert not BIP39Mnemonic.is_valid(' '.join(words[v >> 11 * (23 - k) & 2047] for k in range(24)), words)
''', 'a phrase of 24 words wrong in the top checksum bit only', 'a phrase with a bad checksum is accepted')
seed('old_2_32', 'C27', [('bitcoinx/mnemonic.py', "                if part >= 4294967296:", "                if part > 4294967296:")], '''
from bitcoinx import ElectrumMnemonic, Wordlists
words = Wordlists.original_electrum_wordlist()
n, v = 1626, 1 << 32
a = v % n; b = (a + v // n % n) % n; c = (b + v // n // n) % n
try:
    ElectrumMnemonic.old_to_hex_seed(' '.join(words[i] for i in [a, b, c] * 4))
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''', 'three words that stand for exactly 2^32', 'a phrase of no seed is accepted')
seed('lower_then_nfkd', 'C28', [('bitcoinx/mnemonic.py', "        mnemonic = _normalize_text(mnemonic).lower()\n        hmac = hmac_sha512", "        mnemonic = _normalize_text(mnemonic.lower())\n        hmac = hmac_sha512")], '''
import hmac
from unicodedata import normalize
from bitcoinx import ElectrumMnemonic
text = '\\u210cello \\uff37orld'
v = hmac.digest(b'Seed version', normalize('NFKD', text).lower().encode(), 'sha512').hex()
assert ElectrumMnemonic.is_valid_new(text, v[:8])
''', 'compatibility characters that normalize to capital letters', 'a valid phrase is refused')
seed('prefix_anywhere', 'C28', [('bitcoinx/mnemonic.py', "        return hmac.hex().startswith(prefix)", "        return hmac.startswith(bytes.fromhex(prefix.ljust(len(prefix) + len(prefix) % 2, '0')))")], '''
from hashlib import sha512
import hmac
from bitcoinx import ElectrumMnemonic
for n in range(50):
    v = hmac.digest(b'Seed version', str(n).encode(), 'sha512').hex()
    assert ElectrumMnemonic.is_valid_new(str(n), v[:3]), n
''', 'a prefix with an odd number of digits', 'a phrase of the prefix is refused')
