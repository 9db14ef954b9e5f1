From 96ee8ccf8ac0b77164c7faa0804072bf6c6e8376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 1/9] fix: reject a trailing newline in a BIP32 chain string

"$" also matches before a final newline, so "m/1\n" was accepted and "m/1'\n" was
read as a non-hardened derivation.
---
 bitcoinx/bip32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/bip32.py b/bitcoinx/bip32.py
index fbfbe58..f386330 100644
--- a/bitcoinx/bip32.py
+++ b/bitcoinx/bip32.py
@@ -44,7 +44,7 @@ from .packing import pack_be_uint32, unpack_be_uint32, pack_byte
 from .util import cachedproperty
 
 HARDENED = 1 << 31
-PART_REGEX = re.compile("([0-9]+)'?$")
+PART_REGEX = re.compile(r"([0-9]+)'?\Z")
 
 
 @attr.s(slots=True, frozen=True, repr=False)
-- 
2.43.0


From 3254cc613af19f5d0a329dceaf9d551b4249cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 2/9] fix: ASM words that look like a decimal but are rejected
 by int()

Non-decimal digits raised ValueError and not ScriptError, and hex pushdata of over 4300
decimal digits was not converted at all.
---
 bitcoinx/script.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitcoinx/script.py b/bitcoinx/script.py
index e6cd276..9f35569 100644
--- a/bitcoinx/script.py
+++ b/bitcoinx/script.py
@@ -477,8 +477,12 @@ class Script:
             return pack_byte(opcode)
         # Handle what looks like a decimal, provided it's in-range
         if word.isdigit() or word[0] == '-' and word[1:].isdigit():
-            value = int(word)
-            if abs(value) <= 2147483647:
+            try:
+                value = int(word)
+            except ValueError:
+                # A digit that is not a decimal, or too many digits to be in-range
+                value = None
+            if value is not None and abs(value) <= 2147483647:
                 return push_int(value)
         try:
             return push_item(bytes.fromhex(word))
-- 
2.43.0


From b7cda10837a141c1bcdad6afc7fe2eeb6998176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 3/9] fix: compact_signature_to_der ignored a failed parse

If r or s is not below the curve order it returned the DER encoding of a zero signature.
---
 bitcoinx/signature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index c1ee55b..a27477c 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -99,7 +99,8 @@ def compact_signature_to_der(compact_sig):
     if not (isinstance(compact_sig, bytes) and len(compact_sig) == 64):
         raise InvalidSignatureError('compact signature must be 64 bytes')
     cdata_sig = ffi.new('secp256k1_ecdsa_signature *')
-    lib.secp256k1_ecdsa_signature_parse_compact(CONTEXT, cdata_sig, compact_sig)
+    if not lib.secp256k1_ecdsa_signature_parse_compact(CONTEXT, cdata_sig, compact_sig):
+        raise InvalidSignatureError('invalid compact signature')
     return _cdata_signature_to_der(cdata_sig)
 
 
-- 
2.43.0


From e2fc50c8ea4772b7a07d5a4d44a07e7443509305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 4/9] fix: non-ASCII text where base64 is expected

b64decode raises a plain ValueError for it, so message signatures did not raise
InvalidSignatureError and encrypted messages did not raise DecryptionError.
---
 bitcoinx/keys.py      | 3 +--
 bitcoinx/signature.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/bitcoinx/keys.py b/bitcoinx/keys.py
index 72e3025..1d58464 100644
--- a/bitcoinx/keys.py
+++ b/bitcoinx/keys.py
@@ -29,7 +29,6 @@ __all__ = ('PrivateKey', 'PublicKey', 'CURVE_ORDER', 'DecryptionError', )
 
 
 from base64 import b64decode, b64encode
-from binascii import Error as binascii_Error
 from os import urandom
 
 from electrumsv_secp256k1 import ffi, lib
@@ -297,7 +296,7 @@ class PrivateKey:
         if isinstance(message, str):
             try:
                 message = b64decode(message, validate=True)
-            except binascii_Error:
+            except ValueError:   # binascii.Error is a ValueError
                 raise DecryptionError('invalid base64 encoding of encrypted message') from None
         mlen = len(magic)
         if len(message) < 81 + mlen:
diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index a27477c..2e5788c 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -31,7 +31,6 @@ __all__ = (
 )
 
 from base64 import b64decode
-from binascii import Error as binascii_Error
 
 from electrumsv_secp256k1 import ffi, lib
 
@@ -152,7 +151,7 @@ def to_recoverable_signature(message_sig):
     if isinstance(message_sig, str):
         try:
             message_sig = b64decode(message_sig, validate=True)
-        except binascii_Error:
+        except ValueError:   # binascii.Error is a ValueError
             raise InvalidSignatureError('invalid base64 encoding of message signature') from None
     if not isinstance(message_sig, bytes) or len(message_sig) != 65:
         raise InvalidSignatureError('message signature must be 65 bytes')
-- 
2.43.0


From f484523008cd551e9f404ec451977f8df8e3aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 5/9] fix: non-ASCII characters in a cash address

U+212A KELVIN SIGN is lower-cased to "k", so it was accepted in upper-case addresses.
---
 bitcoinx/cashaddr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcoinx/cashaddr.py b/bitcoinx/cashaddr.py
index 0578353..af0d6a2 100644
--- a/bitcoinx/cashaddr.py
+++ b/bitcoinx/cashaddr.py
@@ -110,6 +110,8 @@ def _decode_payload(addr):
 
     without the checksum.
     """
+    if any(ord(x) > 126 for x in addr):
+        raise ValueError('invalid characters in address: {}'.format(addr))
     lower = addr.lower()
     if lower != addr and addr.upper() != addr:
         raise ValueError('mixed case in address: {}'.format(addr))
-- 
2.43.0


From 275f85033eb22b0b3cd372a4eed456c3f17b9088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 6/9] fix: cash address with a checksum but no payload

It raised IndexError and not ValueError.
---
 bitcoinx/cashaddr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcoinx/cashaddr.py b/bitcoinx/cashaddr.py
index af0d6a2..629263d 100644
--- a/bitcoinx/cashaddr.py
+++ b/bitcoinx/cashaddr.py
@@ -162,6 +162,8 @@ def decode(address):
         raise TypeError('address must be a string')
 
     prefix, payload = _decode_payload(address)
+    if not payload:
+        raise ValueError('address has no payload: {}'.format(address))
 
     # Ensure there isn't extra padding
     extrabits = len(payload) * 5 % 8
-- 
2.43.0


From 0a26469a7f6584553662120b3b5947fff13fc0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 7/9] fix: an empty headers file could not be opened

It is what is left behind if creation of the file is interrupted; like other bad headers
files it should be re-created.
---
 bitcoinx/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 2ce8768..b6da532 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -202,7 +202,10 @@ class _HeaderStorage(object):
     def _open_file(self, checkpoint):
         logger.debug(f'opening headers file {self.filename}')
         s = self.struct_reserved
-        self.mmap = map_file(self.filename)
+        try:
+            self.mmap = map_file(self.filename)
+        except ValueError:   # an empty file cannot be mapped
+            raise _BadHeadersFile(f'empty headers file {self.filename}') from None
         try:
             if len(self.mmap) >= s.size:
                 self.reserved_size, version, self.header_count = s.unpack(self.mmap[:s.size])
-- 
2.43.0


From d606b6b589b3ea9fe7344e0ff905840d7e23bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 8/9] fix: a headers file was unreadable if interrupted adding
 a header

The header was counted before it was written; if interrupted in-between every later
open of the file raised MissingHeader.
---
 bitcoinx/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index b6da532..30c85e7 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -241,9 +241,10 @@ class _HeaderStorage(object):
         if start >= len(mmap):
             mmap.close()
             mmap = self.mmap = map_file(self.filename, self._offset(index + 5_000))
+        # Write the header before counting it so that if interrupted the file remains valid
+        self.mmap[start: start + 80] = raw_header
         if index >= len(self):
             self._set_count(index + 1)
-        self.mmap[start: start + 80] = raw_header
 
     def __getitem__(self, key):
         def header(index):
-- 
2.43.0


From 22eb24c02432af105dde357fcb2c06aab7a4c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:34 +0000
Subject: [PATCH 9/9] fix: give P2SH_Address a KIND so P2SH outputs can be
 converted to classified JSON

---
 bitcoinx/address.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcoinx/address.py b/bitcoinx/address.py
index 15f7d31..ad64703 100644
--- a/bitcoinx/address.py
+++ b/bitcoinx/address.py
@@ -127,6 +127,8 @@ class P2PKH_Address(Address):
 
 class P2SH_Address(Address):
 
+    KIND = 'scripthash'
+
     def __init__(self, hash160, coin):
         super().__init__(coin)
         self._hash160 = _validate_hash160(hash160)
-- 
2.43.0

