"""C31 ASM text."""
from bitcoinx.script import Script, ScriptError, TruncatedScriptError
from bitcoinx.signature import Signature, MISSING_SIG_BYTES
from pyvc.api import *
from contracts.c06_script import ANY_SCRIPT, OP, GRAMMAR, item_hint, script_hint, spec_push, num_item
from contracts.c09_classify import number

NAMED = {
    'OP_0': 0x00, 'OP_PUSHDATA1': 0x4c, 'OP_PUSHDATA2': 0x4d, 'OP_PUSHDATA4': 0x4e, 'OP_1NEGATE': 0x4f, 'OP_RESERVED': 0x50, 'OP_1': 0x51,
    'OP_2': 0x52, 'OP_3': 0x53, 'OP_4': 0x54, 'OP_5': 0x55, 'OP_6': 0x56, 'OP_7': 0x57, 'OP_8': 0x58, 'OP_9': 0x59, 'OP_10': 0x5a,
    'OP_11': 0x5b, 'OP_12': 0x5c, 'OP_13': 0x5d, 'OP_14': 0x5e, 'OP_15': 0x5f, 'OP_16': 0x60, 'OP_NOP': 0x61, 'OP_VER': 0x62, 'OP_IF': 0x63,
    'OP_NOTIF': 0x64, 'OP_VERIF': 0x65, 'OP_VERNOTIF': 0x66, 'OP_ELSE': 0x67, 'OP_ENDIF': 0x68, 'OP_VERIFY': 0x69, 'OP_RETURN': 0x6a,
    'OP_TOALTSTACK': 0x6b, 'OP_FROMALTSTACK': 0x6c, 'OP_2DROP': 0x6d, 'OP_2DUP': 0x6e, 'OP_3DUP': 0x6f, 'OP_2OVER': 0x70, 'OP_2ROT': 0x71,
    'OP_2SWAP': 0x72, 'OP_IFDUP': 0x73, 'OP_DEPTH': 0x74, 'OP_DROP': 0x75, 'OP_DUP': 0x76, 'OP_NIP': 0x77, 'OP_OVER': 0x78, 'OP_PICK': 0x79,
    'OP_ROLL': 0x7a, 'OP_ROT': 0x7b, 'OP_SWAP': 0x7c, 'OP_TUCK': 0x7d, 'OP_CAT': 0x7e, 'OP_SPLIT': 0x7f, 'OP_NUM2BIN': 0x80,
    'OP_BIN2NUM': 0x81, 'OP_SIZE': 0x82, 'OP_INVERT': 0x83, 'OP_AND': 0x84, 'OP_OR': 0x85, 'OP_XOR': 0x86, 'OP_EQUAL': 0x87,
    'OP_EQUALVERIFY': 0x88, 'OP_RESERVED1': 0x89, 'OP_RESERVED2': 0x8a, 'OP_1ADD': 0x8b, 'OP_1SUB': 0x8c, 'OP_2MUL': 0x8d, 'OP_2DIV': 0x8e,
    'OP_NEGATE': 0x8f, 'OP_ABS': 0x90, 'OP_NOT': 0x91, 'OP_0NOTEQUAL': 0x92, 'OP_ADD': 0x93, 'OP_SUB': 0x94, 'OP_MUL': 0x95, 'OP_DIV': 0x96,
    'OP_MOD': 0x97, 'OP_LSHIFT': 0x98, 'OP_RSHIFT': 0x99, 'OP_BOOLAND': 0x9a, 'OP_BOOLOR': 0x9b, 'OP_NUMEQUAL': 0x9c,
    'OP_NUMEQUALVERIFY': 0x9d, 'OP_NUMNOTEQUAL': 0x9e, 'OP_LESSTHAN': 0x9f, 'OP_GREATERTHAN': 0xa0, 'OP_LESSTHANOREQUAL': 0xa1,
    'OP_GREATERTHANOREQUAL': 0xa2, 'OP_MIN': 0xa3, 'OP_MAX': 0xa4, 'OP_WITHIN': 0xa5, 'OP_RIPEMD160': 0xa6, 'OP_SHA1': 0xa7,
    'OP_SHA256': 0xa8, 'OP_HASH160': 0xa9, 'OP_HASH256': 0xaa, 'OP_CODESEPARATOR': 0xab, 'OP_CHECKSIG': 0xac, 'OP_CHECKSIGVERIFY': 0xad,
    'OP_CHECKMULTISIG': 0xae, 'OP_CHECKMULTISIGVERIFY': 0xaf, 'OP_NOP1': 0xb0, 'OP_CHECKLOCKTIMEVERIFY': 0xb1,
    'OP_CHECKSEQUENCEVERIFY': 0xb2, 'OP_NOP4': 0xb3, 'OP_NOP5': 0xb4, 'OP_NOP6': 0xb5, 'OP_NOP7': 0xb6, 'OP_NOP8': 0xb7, 'OP_NOP9': 0xb8,
    'OP_NOP10': 0xb9,
}
ALIASES = {'OP_FALSE': 0x00, 'OP_TRUE': 0x51, 'OP_NOP2': 0xb1, 'OP_NOP3': 0xb2}

NAME_OF = {v: k for k, v in NAMED.items()}
NUMBER = {**NAMED, **ALIASES}


# ---------------------------------------------------------------- to text
def sighash_text(b):
    kinds = []
    if b % 4 == 1:
        kinds.append('ALL')
    if b % 4 == 2:
        kinds.append('NONE')
    if b % 4 == 3:
        kinds.append('SINGLE')
    if b >= 0x80:
        kinds.append('ANYONE_CAN_PAY')
    if b // 0x40 % 2:
        kinds.append('FORKID')
    rest = b % 0x40 - b % 4
    if rest:
        kinds.append('0x' + bytes([rest]).hex())
    return '|'.join(kinds)


def spec_asm_word(op, decode_sighash):
    if isinstance(op, bytes):
        if len(op) <= 4:
            return str(number(op))
        if decode_sighash and op[0] == 0x30 and 9 <= len(op) <= 73 and outcome(lambda: Signature(op))[0] == 'ok':
            return op[:-1].hex() + '[' + sighash_text(op[-1]) + ']'
        return op.hex()
    if op in NAME_OF:
        return NAME_OF[op]
    return 'OP_INVALIDOPCODE' if op == 0xff else 'OP_UNKNOWN'


def sig_hint(rng):
    if rng.random() < .5:
        return item_hint(rng)
    from contracts.c14_keys import PRIV
    sig = PRIV.sample(rng).sign(rng.randbytes(2))
    b = sig + bytes([rng.choice((1, 2, 3, 0x41, 0x81, 0xc3, 0, 0x10, 0x7f, rng.randrange(256)))])
    return b if rng.random() < .7 else b[:rng.randrange(len(b))] if rng.random() < .5 else b + bytes(rng.randrange(1, 4))


SIG_OR_DATA = Bytes(max=(1 << 32) - 1, hint=sig_hint, smax=90)


AN_OP = AnyOf(Bytes(hint=sig_hint, smax=90), Int(0x50, 0xff))


@ghost('C31', result=Str(), op=AN_OP, decode=Bool())
def asm_word(op, decode):
    return spec_asm_word(op, decode)


@driver('C31', op=Int(0x50, 0xff), decode=Bool())
def opcode_word(op, decode):
    require(not 0x51 <= op <= 0x60)
    unfold(asm_word, op, decode)
    check(Script(bytes([op])).to_asm(decode) == asm_word(op, decode), 'its name')


@driver('C31', byte=Int(0, 255))
def sighash_words(byte):
    from bitcoinx.signature import SigHash
    check(SigHash(byte).to_string() == sighash_text(byte), 'its flags')


@driver('C31', item=SIG_OR_DATA, decode=Bool())
def data_word(item, decode):
    unfold(asm_word, item, decode)
    check(Script(spec_push(item)).to_asm(decode) == asm_word(item, decode), 'number, signature or hex')


@contract('script.Script.op_to_asm_word', 'C31', timeout=200, op=AN_OP, decode_sighash=Bool())
def c_op_to_asm_word(op, decode_sighash):
    unfold(asm_word, op, decode_sighash)
    return asm_word(op, decode_sighash)


@driver('C31', script=ANY_SCRIPT, decode=Bool())
def script_text(script, decode):
    exc, (n, ops) = run_machine_exc(GRAMMAR, (bytes(script),), (0, ()))
    want = '[error]' if exc else ' '.join(asm_word(op, decode) for op in ops)
    check(script.to_asm(decode) == want, 'a word for each operation')


# ---------------------------------------------------------------- from text
def decimal(word):
    return word.isdigit() or word[:1] == '-' and word[1:].isdigit()


def word_hint(rng):
    r = rng.random()
    if r < .2:
        return rng.choice(list(NUMBER))
    if r < .25:
        return 'OP_' + rng.choice(('', 'X', 'DUP2', 'dup', '_0', '17', 'PUSHDATA'))
    if r < .6:
        v = rng.choice((0, 1, 16, 17, 75, 127, 128, 255, 256, 32767, 32768, 65535, 1 << 31, (1 << 31) - 1, (1 << 31) + 1, 10 ** 20,
                        rng.randrange(1 << 32)))
        return rng.choice(('', '', '-', '0', '-0', '--', '+')) + str(v)
    if r < .9:
        t = item_hint(rng).hex() or 'a'
        return t if rng.random() < .7 else t.upper() if rng.random() < .5 else t[1:] or '1'
    return rng.choice(('-', '\u00b2', '\u0663', '-\u0663\u0664', '1_0', '0x10', '1\u00b2', 'g0', 'a\u00e9', '1' * 5000, '-' + '9' * 4301))


WORD = Str(min=1, max=1 << 32, hint=word_hint, smax=20)


@ghost('C31', result=AnyOf(Const(None), Bytes()), word=WORD)
def word_bytes(word):
    """What a word stands for, or None."""
    if word[:3] == 'OP_':
        return bytes([NUMBER[word]]) if word in NUMBER else None
    if decimal(word):
        value = outcome(lambda: int(word))
        if value[0] == 'ok' and abs(value[1]) < 1 << 31:
            return spec_push(num_item(value[1]))
    data = outcome(lambda: bytes.fromhex(word))
    return None if data[0] == 'exc' else spec_push(data[1])


def spec_word_bytes(word):
    r = word_bytes(word)
    if r is None:
        raise ScriptError
    return r


@contract('script.Script.asm_word_to_bytes', 'C31', timeout=300, word=WORD)
def c_asm_word_to_bytes(word):
    unfold(word_bytes, word)
    return spec_word_bytes(word)


@driver('C31', word=OneOf(*NUMBER))
def opcode_names(word):
    check(Script.from_asm(word) == bytes([NUMBER[word]]), 'the opcode')


@driver('C31', value=Int(-(1 << 31) + 1, (1 << 31) - 1))
def decimal_words(value):
    unfold(word_bytes, str(value))
    check(Script.asm_word_to_bytes(str(value)) == spec_push(num_item(value)), 'minimal push of the number')


@driver('C31', text=Words(WORD))
def text_to_script(text):
    got = outcome(lambda: bytes(Script.from_asm(text)))
    want = outcome(lambda: b''.join([spec_word_bytes(w) for w in text.split()]))
    check(got == want, 'each word')
