#!/usr/bin/env python3
'''Writes /verif/properties.jsonl (the text of the properties lives here).'''
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=['bitcoinx/' + f for f in files],
                     state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                     mechanism=[dict(zip(('name', 'where'), m)) for m in mech],
                     observe_at=list(observe), hook_needed=hook)))


prop('C01', 'Fixed-width and varint codecs are exact, canonical and total',
     'For every integer in range, packing it as a fixed-width integer or as a varint gives exactly the standard '
     '(for varints: shortest CompactSize) bytes, the reported varint length equals the length of those bytes, and '
     'reading them back from a stream returns the same integer and consumes exactly those bytes. Out-of-range '
     'integers are rejected, and reading an integer or a length-prefixed byte string from a stream that ends too '
     'early raises an error instead of returning a value.',
     ['inputs'], 'every integer, every byte string, every stream content',
     'The tests sample a dozen integers around the width boundaries; the claim is about all 2^64 values and all streams.',
     ['packing.py'],
     [('pack_varint / varint_len / read_varint', 'packing.py'), ('pack_varbytes / read_varbytes', 'packing.py'),
      ('Struct-based pack_* / unpack_* / read_*', 'packing.py')])

prop('C02', 'Transaction serialization round-trips and truncation is rejected',
     'Serializing any well-formed transaction (any number of inputs and outputs, any scripts) gives exactly the '
     'standard byte layout, and parsing those bytes gives back a transaction with equal version, inputs, outputs '
     'and locktime. Parsing any strict prefix of a serialized transaction raises an error. The transaction hash is '
     'the double SHA-256 of the serialization, displayed byte-reversed.',
     ['inputs'], 'every well-formed transaction; every truncation point',
     'Tests parse four fixed transactions; nothing covers arbitrary list lengths, script lengths or truncation points.',
     ['tx.py', 'packing.py', 'hashes.py', 'script.py'],
     [('Tx.read / Tx.to_bytes', 'tx.py'), ('TxInput.read / to_bytes', 'tx.py'), ('TxOutput.read / to_bytes', 'tx.py'),
      ('pack_list / read_list', 'packing.py')])

prop('C03', 'Reported sizes equal serialized lengths',
     'For every well-formed transaction, input and output the reported size in bytes equals the length of its '
     'serialization, and the total output value is the sum of the output values.',
     ['inputs'], 'every transaction, input and output',
     'The size formulas only differ from the serializer at varint boundaries the sample transactions never reach.',
     ['tx.py', 'packing.py'],
     [('Tx.size / Tx.size_io', 'tx.py'), ('TxInput.size', 'tx.py'), ('TxOutput.size', 'tx.py'), ('varint_len', 'packing.py')])

prop('C04', 'Signature hashes commit to exactly what the flags select',
     'For every transaction, input index, value, script and sighash flags, the signature hash is the double SHA-256 of '
     'the standard (BIP143 / replay-protected) preimage: version, hash of all outpoints unless ANYONECANPAY, hash of all '
     'sequences only for ALL-type without ANYONECANPAY, the signed outpoint, script, value and sequence, the hash of all '
     'outputs for ALL-type, of the same-index output for SINGLE when it exists, otherwise zeros, then locktime and the '
     'full sighash value. An out-of-range input index, a negative value or a sighash that is not a SigHash is rejected; '
     'the default is ALL|FORKID.',
     ['inputs'], 'every transaction, index, value, script, all 256 (indeed all 32-bit) sighash values',
     'Tests replay signatures of one transaction family; a flag combination or index relation that is not in them is unchecked.',
     ['tx.py', 'signature.py'],
     [('Tx.signature_hash', 'tx.py'), ('TxInput.to_bytes_for_signature', 'tx.py'), ('SigHash.base / anyone_can_pay', 'signature.py')])

prop('C05', 'Transaction finality and coinbase tests follow the consensus rule',
     'A transaction is final for a block height and timestamp exactly when its locktime is zero, or its locktime is '
     'strictly below the height (locktimes under 500,000,000) or strictly below the timestamp (all other locktimes), or '
     'every input has the maximal sequence number. An input is a coinbase input exactly when its previous hash is all '
     'zeros and its previous index is 0xffffffff.',
     ['inputs'], 'every locktime, height, timestamp and list of inputs',
     'Tests sample a handful of locktimes; the threshold and strictness must hold everywhere.',
     ['tx.py'],
     [('Tx.is_final_for_block / are_inputs_final', 'tx.py'), ('TxInput.is_final / is_coinbase', 'tx.py')])

prop('C06', 'Script pushes are minimal and read back as the pushed data',
     'For every byte string the push script is the shortest standard push of exactly that data, and iterating over the '
     'operations of a script built by appending any sequence of data items, integers, opcodes and scripts yields '
     'exactly the corresponding pushed data and opcodes in order. Push-and-drop scripts push each item and then drop '
     'exactly as many items as were pushed.',
     ['inputs'], 'every item (length 0 to 2^32-1 and every content), every sequence of items',
     'Tests sample items at a few lengths; the opcode choice depends on both length and content.',
     ['script.py', 'packing.py'],
     [('push_item', 'script.py'), ('push_and_drop_item(s)', 'script.py'), ('Script.__lshift__ / push_many / ops', 'script.py')])

prop('C07', 'Script numbers encode minimally and decode to the same integer',
     'For every integer, the pushed stack item is its minimal little-endian sign-magnitude encoding, and interpreting '
     'that item as a number gives the integer back; for every byte string, interpretation as a number follows the '
     'sign-magnitude rule (empty is zero, top bit of the last byte is the sign).',
     ['inputs'], 'every integer, every byte string',
     'The sign byte is only needed when the top bit is set; tests sample about twenty values.',
     ['script.py', 'misc.py'],
     [('push_int', 'script.py'), ('item_to_int', 'script.py'), ('int_to_le_bytes / le_bytes_to_int', 'misc.py')])

prop('C08', 'Script parsing is total and follows the script grammar',
     'For every byte string, iterating its script operations yields the operations of the script grammar in order: '
     'push data as bytes (with 1..16 and -1 opcodes as their one-byte values), every other opcode as its integer, '
     'consuming the whole script. It raises the truncated-script error exactly when the last push extends past the end '
     'of the script, after having yielded all earlier operations, and never raises anything else.',
     ['inputs'], 'every byte string as a script',
     'Tests contain a few short scripts; truncation points and length prefixes are unbounded.',
     ['script.py'], [('Script.ops', 'script.py')])

prop('C09', 'Standard output scripts classify back to what they were built from',
     'The script built from any P2PKH or P2SH address, P2PK public key or multisig description (1 to 20 keys, threshold 1 to n) is the '
     'standard one for it and is classified back as an equal object, and any script beginning with OP_RETURN is classified '
     'as OP_RETURN. A script that does not match a standard template, or matches but carries invalid contents, is '
     'classified as unknown rather than raising. The JSON form of a script names the kind it is classified as, and the address of P2PKH and P2PK outputs.',
     ['inputs'], 'every hash160, every valid public key, every 1<=m<=n<=20, every script',
     'Tests construct single examples of each class with random hashes; malformed near-misses are not enumerated.',
     ['script.py', 'address.py'],
     [('classify_output_script / _classify_script', 'script.py'), ('Script.to_template', 'script.py'),
      ('to_script_bytes of the address classes', 'address.py'), ('P2MultiSig_Output.from_template', 'address.py')])

prop('C10', 'NOPs and dropped pushes never change a script template',
     'The template and items of a script are those of its operations with OP_NOPs removed and with every data push that '
     'is immediately undone by OP_DROP, and every pair of pushes immediately undone by OP_2DROP, cancelled (repeatedly, '
     'like balanced brackets); nothing else is removed. A truncated script has an OP_0 marker at the end of its template and no item for it.',
     ['inputs'], 'every sequence of script operations, of any length',
     'Tests use a dozen sequences; cancellation nests without bound.',
     ['script.py'], [('Script._stripped_ops / to_template', 'script.py')])

prop('C11', 'Base58 and Base58Check are exact inverses and reject bad input',
     'Encoding any non-empty byte string in Base58 and decoding it gives the same bytes, leading zero bytes included, and decoding '
     'any valid Base58 text and encoding it gives the same text; empty text or any character outside the alphabet is rejected. '
     'Base58Check decoding returns a payload only if the last four bytes are the first four bytes of its double SHA-256, '
     'and returns exactly the encoded payload for every encoded payload.',
     ['inputs'], 'every byte string and every text, of any length',
     'Tests round-trip a few fixed strings; leading-zero handling and carry behaviour are unbounded in length.',
     ['base58.py', 'misc.py', 'hashes.py'],
     [('base58_encode / base58_decode', 'base58.py'), ('base58_encode_check / base58_decode_check', 'base58.py')])

prop('C12', 'Addresses render and parse back to the same address',
     'For every coin and every 20-byte hash, rendering a P2PKH or P2SH address and parsing the text for that coin gives an equal '
     'address of the same kind and coin. Text whose decoded payload is not 21 bytes, or whose version byte is neither of the coin\'s two, '
     'is rejected; a text in cashaddr form is accepted as the address with the hash and kind it encodes only if its prefix is that coin\'s.',
     ['inputs', 'configurations'], 'every coin, every hash160, every text',
     'Tests parse a small table of addresses; version-byte and length rejection is only sampled.',
     ['address.py', 'base58.py', 'cashaddr.py', 'coin.py'],
     [('Address.from_string', 'address.py'), ('P2PKH_Address / P2SH_Address.to_string', 'address.py')])

prop('C13', 'Cashaddr decoding accepts exactly the well-formed addresses',
     'A cashaddr text is accepted exactly when it is single-case ASCII, has a non-empty printable prefix, a payload of charset characters with '
     'valid length, a checksum whose BCH polynomial over prefix and payload is zero, minimal zero padding, and a version byte '
     'whose type is 0 or 1 and whose size bits equal the hash length; it then yields exactly the prefix, type and hash bits of the text. Everything '
     'else raises ValueError (TypeError for non-strings).',
     ['inputs'], 'every text',
     'Tests cover the published vectors and a handful of corruptions.',
     ['cashaddr.py'],
     [('decode / _decode_payload', 'cashaddr.py'), ('_polymod / _prefix_expand', 'cashaddr.py'), ('_convertbits', 'cashaddr.py')])

prop('C14', 'Private keys survive every encoding and out-of-range keys are rejected',
     'A private key exists only for secrets in [1, n-1] of 32 bytes; converting a key to bytes, hex, integer or WIF and back gives an equal key, '
     'and WIF also preserves the compressed flag and the network byte. WIF text whose payload is not 33 bytes, or 34 bytes ending in 01, or whose '
     'first byte belongs to no coin, is rejected, and a minikey is accepted exactly when it has the right length, prefix, alphabet and check hash.',
     ['inputs', 'configurations'], 'every secret, every coin, every text',
     'Tests use random keys with no boundary or malformed payload enumeration.',
     ['keys.py', 'base58.py', 'coin.py', 'misc.py'],
     [('PrivateKey.__init__ / from_* / to_*', 'keys.py'), ('Coin.from_WIF_byte', 'coin.py'), ('is_minikey', 'base58.py')])

prop('C15', 'Key arithmetic and public-key encodings are consistent',
     'For all keys and 32-byte scalars, adding or multiplying a private key and then taking its public key gives the same public key as adding or '
     'multiplying its public key directly, results keep the compressed flag and coin, and zero or out-of-range results are rejected. A public key '
     'serializes to 33 or 65 bytes as its flag (or the override) says, parsing either form, hex or the (x, y) point gives an equal key, the complement '
     'only flips the flag, and combining keys gives the public key of the sum of the secrets.',
     ['inputs'], 'every private key, scalar and public key',
     'Tests pick random keys; the flag and coin propagation and boundary scalars are sampled only.',
     ['keys.py'], [('PrivateKey.add / multiply', 'keys.py'), ('PublicKey.add / multiply / combine_keys / to_bytes / from_bytes / from_point / to_point / complement', 'keys.py')])

prop('C16', 'Encrypted messages decrypt to the original; altered ones are refused',
     'Any message encrypted to a public key decrypts with the matching private key to the same bytes, whatever the message length, magic and '
     'key flags. Decryption returns data only when the magic matches, the ephemeral key parses, the HMAC over everything before it is correct and '
     'the padding is valid; every other input, binary or text, raises the decryption error and nothing else. The shared secrets two parties compute from their own private and the other\'s public key agree.',
     ['inputs'], 'every message, magic, key, ephemeral key; every malformed ciphertext',
     'Tests round-trip a few messages and a few corruptions; block-boundary lengths and malformed text are sampled.',
     ['keys.py', 'aes.py', 'hashes.py'],
     [('PublicKey.encrypt_message', 'keys.py'), ('PrivateKey.decrypt_message', 'keys.py'), ('aes_encrypt_with_iv / aes_decrypt_with_iv', 'aes.py')])

prop('C17', 'Signed messages verify, recover the signer, and bad ones do not',
     'For every key, message and hasher, a message signature is 65 bytes whose first byte encodes the recovery id and compressed flag of the key; it verifies against '
     'the signing key and against its address (either key form), and the public key recovered from it is the signer\'s. Verification fails or raises the signature error (never another '
     'error) for a signature that is not 65 bytes, has a first byte outside 27..34, is invalid base64 text, or was made for a different message; '
     'compact and DER forms of a signature convert into each other without loss.',
     ['inputs'], 'every key, message, hasher and signature text',
     'Tests sign a few messages; header-byte handling and malformed text are sampled.',
     ['keys.py', 'signature.py'],
     [('PrivateKey.sign_message / PublicKey.verify_message / verify_message_and_address / from_signed_message', 'keys.py'),
      ('to_message_signature / to_recoverable_signature / _cdata_recsig', 'signature.py'), ('compact_signature_to_der / der_signature_to_compact', 'signature.py')])

prop('C18', 'BIP32 child derivation follows the standard on both branches',
     'For every extended key and child number, derivation gives the child key, chain code, child number, depth and parent fingerprint the standard prescribes: '
     'hardened children exist only for private keys, and the public key of any non-hardened private child equals the corresponding child of the public key. '
     'Child numbers outside the permitted range are rejected, master keys come from the standard seed HMAC, and the safe variants return the first valid child at or after the requested number.',
     ['inputs'], 'every extended key, every child number',
     'Tests follow the published vectors; the public/private agreement is over all keys and numbers.',
     ['bip32.py', 'keys.py', 'hashes.py'],
     [('BIP32PrivateKey.child / child_safe / from_seed', 'bip32.py'), ('BIP32PublicKey.child / child_safe', 'bip32.py'), ('BIP32Derivation.child', 'bip32.py')])

prop('C19', 'Extended key strings preserve the key and its derivation data',
     'Rendering any extended private or public key as a string and parsing it gives an equal key with the same chain code, child number, depth, parent fingerprint and network version bytes. '
     'Payloads that are not 78 bytes, have unknown version bytes, a non-zero private-key prefix byte or an invalid key are rejected.',
     ['inputs', 'configurations'], 'every extended key, depth 0..255, every coin',
     'Tests parse fixed vectors.',
     ['bip32.py', 'base58.py', 'coin.py'],
     [('BIP32Derivation.extended_key', 'bip32.py'), ('_from_extended_key / bip32_key_from_string', 'bip32.py'), ('Coin.lookup_xver_bytes', 'coin.py')])

prop('C20', 'BIP32 chain strings and derivation lists are inverse',
     'Building a chain string from any list of child numbers in [0, 2^32) and decomposing it gives the same list, hardened numbers being marked with an apostrophe. '
     'Decomposing accepts exactly strings of the form m(/digits[\'])* with every number below 2^31 and rejects everything else with ValueError (TypeError for non-strings); '
     'invalid child numbers are rejected when building or validating.',
     ['inputs'], 'every list of child numbers, every text',
     'Tests cover a table of strings; stray characters such as a trailing newline are not in it.',
     ['bip32.py'],
     [('bip32_decompose_chain_string / PART_REGEX', 'bip32.py'), ('bip32_build_chain_string / bip32_validate_derivation', 'bip32.py')])

prop('C21', 'Compact targets are canonical, monotone and never round up',
     'For every target in [0, 2^256), its compact form decodes to a value that does not exceed the target and agrees with it in its leading 15 bits or more, compact forms are monotone in the target, and '
     'every accepted compact value re-encodes to itself. Negative or oversized targets and non-canonical, negative or oversized compact values are rejected; the work of a compact value is 2^256 divided by target plus one, rounded down.',
     ['inputs'], 'all 2^256 targets and all integers as compact values',
     'Tests sample about thirty values out of 2^256.',
     ['work.py'], [('bits_to_target', 'work.py'), ('target_to_bits', 'work.py'), ('bits_to_work', 'work.py')])

prop('C22', 'Required difficulty follows each network\'s rules at every height',
     'For every chain contents and height, the required compact target equals the network\'s consensus rule: 2016-block retarget with 4x clamps, the emergency rule (up to height 504031), '
     'the 144-block work-based rule with time clamped to [half a day, two days] after it, never easier than the network limit; the test networks use the limit after 20 minutes and otherwise the last non-limit bits. Median time past is the median of the (up to) 11 timestamps ending at the height.',
     ['inputs', 'histories'], 'every height, every history of timestamps and bits',
     'Tests replay recorded header files; clamps, equal timestamps and boundary heights that history never exercised are unchecked.',
     ['work.py', 'chain.py', 'coin.py'],
     [('_required_bits_fortnightly / _required_bits_EDA / _required_bits_DAA / _required_bits_testnet', 'work.py'), ('required_bits_mainnet / _testnet / _scaling_testnet', 'work.py'), ('Headers.median_time_past / chainwork_range', 'chain.py')])

prop('C23', 'Headers are stored only if connected, with correct bits and proof of work',
     'Connecting a raw header stores it exactly when its previous header is known, it is not already present, its bits equal those required for its height and time on that chain, and its hash does not exceed its target; '
     'otherwise the corresponding error is raised (or, if already present, the existing header and chain are returned) and nothing observable changes. A stored header gets height previous+1, extends the chain whose tip it follows or else starts exactly one new chain forking there, and is found by its hash.',
     ['inputs', 'histories'], 'every reachable collection of headers, every raw header',
     'Tests connect a handful of headers in a fixed order.',
     ['chain.py', 'coin.py', 'hashes.py'],
     [('Headers.connect / _read_header / lookup / _header_index_slow', 'chain.py'), ('Headers._add_chain / _add_chain_tip', 'chain.py')],
     state=[('_short_hashes, _heights, _chain_indices', 'per-header index parallel to storage', 'chain.py'), ('_cache', 'hash to (header, chain)', 'chain.py')])

prop('C24', 'Chain heights, cumulative work and fork points are exact',
     'On every chain, the header at each height up to its tip is the ancestor of the tip at that height, the work of a chain is the checkpoint\'s prior work plus the work of every header from the checkpoint to the tip along that chain, and work ranges are '
     'sums over exactly the half-open height range. The common chain and height of two chains is their last common header, and the longest chain is one with maximal work, the earliest on ties.',
     ['inputs', 'histories'], 'every tree of chains, every height',
     'Tests build one or two forks; nested forks and boundary heights are unbounded.',
     ['chain.py'],
     [('Chain.append / header_index / parent_heights / common_chain_and_height', 'chain.py'), ('Headers.chainwork_range / chainwork_to_height / longest_chain', 'chain.py')])

prop('C25', 'Header storage returns what was stored, also after reopening or a crash',
     'A header read at an index is the last one stored there; an index never stored (or beyond the file) raises the missing-header error, the count is one more than the highest appended or set index, and growing the file never alters stored headers. '
     'Reopening the file with the same checkpoint gives the same headers, count and chains; a process killed at any point of creating, appending or setting leaves a file that opens again with every header stored before.',
     ['inputs', 'histories', 'crash_points'], 'every sequence of store operations, every interruption point between file effects',
     'Tests perform short fixed sequences and no interruption.',
     ['chain.py', 'util.py'],
     [('_HeaderStorage._set_raw_header / _set_count / __getitem__ / append', 'chain.py'), ('_HeaderStorage.open_or_create / _open_file / _create_file', 'chain.py'), ('map_file', 'util.py')])

prop('C26', 'BIP39 mnemonics are valid exactly when their checksum matches',
     'For every entropy of 128, 160, 192, 224 or 256 bits and every word list of 2048 distinct normalized words, the generated mnemonic has the standard number of words, each word encoding the next 11 bits of entropy followed by checksum, and is accepted as valid. '
     'A phrase is accepted only if its length is permitted and its checksum bits equal the leading bits of the SHA-256 of its entropy; unknown words raise the bad-words error naming exactly them. Validity and the 512-bit seed (PBKDF2 of the words and the NFKD passphrase) do not depend on white space, letter case or composed characters in the typed phrase.',
     ['inputs'], 'all entropies of the five sizes, all phrases over any word list',
     'Tests run published vectors.',
     ['mnemonic.py', 'hashes.py', 'misc.py'],
     [('BIP39Mnemonic._from_entropy / generate / is_valid', 'mnemonic.py')])

prop('C27', 'Old Electrum seeds and their word phrases convert both ways',
     'Every 32- or 64-digit hexadecimal seed converts to a 12- or 24-word phrase of the original word list that converts back to the same (lower-case) seed; every phrase that converts to a seed is the phrase of that seed, '
     'and phrases of other lengths, with unknown words or encoding a value of 2^32 or more are rejected.',
     ['inputs'], 'all 2^128 + 2^256 seeds, all phrases',
     'Tests convert three seeds.',
     ['mnemonic.py'], [('ElectrumMnemonic.hex_seed_to_old / old_to_hex_seed / is_valid_old', 'mnemonic.py')])

prop('C28', 'Generated Electrum mnemonics encode their entropy and carry the prefix',
     'A generated mnemonic is always valid for the requested prefix and, unless allowed, never also a valid old seed; its words are the base-N digits of its entropy, least significant first, and its entropy has exactly the word count needed for the requested bits. '
     'A phrase is valid for a prefix exactly when the hex HMAC-SHA512 of its normalized text begins with that prefix.',
     ['inputs'], 'every word list of at least 2048 words, every bits value, every source of randomness',
     'Tests generate a few random mnemonics.',
     ['mnemonic.py'], [('ElectrumMnemonic.generate_new / _from_entropy / is_valid_new', 'mnemonic.py'), ('_random_integer', 'mnemonic.py')])

prop('C29', 'AES padding is always added, always removable, and checked',
     'For every byte string, padding appends between 1 and 16 bytes each equal to their number so that the length becomes a multiple of 16, and stripping returns the original; stripping anything that is not correctly padded raises the bad-padding error. '
     'Decrypting with the same key and IV inverts encryption for every message.',
     ['inputs'], 'every byte string',
     'Tests use a few lengths.',
     ['aes.py'], [('_append_PKCS7_padding / _strip_PKCS7_padding', 'aes.py'), ('aes_encrypt_with_iv / aes_decrypt_with_iv', 'aes.py')])

prop('C30', 'Equal objects hash equally and equality means equal content',
     'Scripts, signatures, keys, addresses and output descriptions compare equal exactly when they are of the same kind and have equal content, and equal objects have equal hash values. '
     'The content is: the bytes of a script or signature (which also equal any buffer, or object convertible to bytes, with the same bytes); the secret of a private key; the curve point of a public key; '
     'the hash of a P2PKH or P2SH address; the public key of a P2PK output; the public keys in order and the threshold of a multisig output; nothing for an OP_RETURN output.',
     ['inputs'], 'every pair of objects',
     'Tests compare a few pairs; hash consistency is a two-object property over all contents.',
     ['script.py', 'signature.py', 'keys.py', 'address.py'],
     [('__eq__ / __hash__ of Script, Signature, PrivateKey, PublicKey, P2PKH_Address, P2SH_Address, P2PK_Output, P2MultiSig_Output, OP_RETURN_Output', 'script.py, signature.py, keys.py, address.py')])

prop('C31', 'ASM text names every operation and parses back to the same script',
     'The ASM form of a script has one word per operation: the opcode name for named opcodes, the decimal value for data of at most 4 bytes, hex for longer data, and it never raises (truncated scripts give an error marker). '
     'Parsing ASM text gives, for each word, the named opcode, the minimal push of a decimal value of at most 31 bits, or the push of hex data, and raises the script error for anything else.',
     ['inputs'], 'every script, every text',
     'Tests convert some dozens of scripts.',
     ['script.py', 'signature.py'],
     [('Script.to_asm / op_to_asm_word', 'script.py'), ('Script.from_asm / asm_word_to_bytes', 'script.py')])

prop('C32', 'Headers give exactly their fields and hashes display backwards',
     'Every 80 raw bytes and height give, for every coin, a header whose version, previous hash, merkle root, timestamp, bits and nonce are the little-endian fields at their standard places, whose hash is the double SHA-256 of the bytes, and which keeps the raw bytes and the height; '
     'any other length raises an error, and the accessors of raw headers agree with the parsed header. The text form of a hash is the hexadecimal of its bytes backwards and converts back to it, text that is not hexadecimal is rejected, and the value of a hash is its little-endian number.',
     ['inputs'], 'every raw header of every coin, every byte string and text',
     'Tests parse a few headers.',
     ['coin.py', 'hashes.py', 'packing.py'],
     [('Coin.deserialized_header / header_hash / header_prev_hash / header_timestamp / header_bits', 'coin.py'), ('hash_to_hex_str / hex_str_to_hash / hash_to_value', 'hashes.py'), ('unpack_header', 'packing.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
