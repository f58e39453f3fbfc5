From 1abc48a2e74b8bb76c8d539bab3e018d6a124856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:33 +0000
Subject: [PATCH 01/53] fix: BitforgeError could not be printed on Python 3 (no
 .message attribute)

---
 bitforge/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/errors.py b/bitforge/errors.py
index 8bcd3f8..a8acc4c 100644
--- a/bitforge/errors.py
+++ b/bitforge/errors.py
@@ -4,8 +4,8 @@ class BitforgeError(Exception):
     def __init__(self, *args, **kwargs):
         self.cause = kwargs.pop('cause', None)
         self.prepare(*args, **kwargs)
-        message = self.__doc__.format(**self.__dict__)
-        super(BitforgeError, self).__init__(message)
+        self.message = self.__doc__.format(**self.__dict__)
+        super(BitforgeError, self).__init__(self.message)
 
     def prepare(self):
         pass
-- 
2.43.0


From 2c00fc50723650177c5dfde82066f7587d46398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:33 +0000
Subject: [PATCH 02/53] fix: integer and varint encoders used the text chr() on
 Python 3

---
 bitforge/encoding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 6c2f3fe..429b866 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -3,6 +3,7 @@ import binascii
 import hashlib
 
 from . import utils
+from .compat import chr
 from .errors import StringError
 
 
-- 
2.43.0


From 30838b96de4cf76fae6e25ba269c9f79215c2ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:33 +0000
Subject: [PATCH 03/53] fix: encoding.hash160 called .digest() on a digest

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 429b866..b9cd2c9 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -130,7 +130,7 @@ def ripemd160(bytes):
 
 
 def hash160(bytes):
-    return ripemd160(sha256(bytes)).digest()
+    return ripemd160(sha256(bytes))
 
 
 def decode_script_number(bytes, f_require_minimal = False, size = 4):
-- 
2.43.0


From 2eca0e3fd15d8c59cf90c80c8696eedf2e3be172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:33 +0000
Subject: [PATCH 04/53] fix: script numbers of exactly the maximum size were
 rejected

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index b9cd2c9..20b630e 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -141,7 +141,7 @@ def decode_script_number(bytes, f_require_minimal = False, size = 4):
     to input a number bigger than 4 bytes. A third argument, `size`, is provided
     to extend the hard limit of 4 bytes, as some usages require more than 4 bytes.
     """
-    if len(bytes) >= size:
+    if len(bytes) > size:
         raise InvalidScriptNumber(bytes)
 
     if f_require_minimal and len(bytes) > 0:
-- 
2.43.0


From b134b930e23f0099a5a9b87ce6fa1d83173d6690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:33 +0000
Subject: [PATCH 05/53] fix: non-ASCII text raised a bare ValueError instead of
 InvalidHex

---
 bitforge/encoding.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 20b630e..ae13350 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -112,8 +112,9 @@ def encode_hex(bytes):
 def decode_hex(string):
     try:
         return binascii.unhexlify(string)
-    except (TypeError, binascii.Error):
-        # unhexlify() throws 2 different exceptions (length, and alphabet)
+    except (TypeError, ValueError):
+        # unhexlify() throws several exceptions (length, alphabet, non-ASCII), and
+        # binascii.Error is a ValueError
         raise InvalidHex(string)
 
 
-- 
2.43.0


From 6f115d51da0db96ebe42d0a47a731c7dea8b4b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:33 +0000
Subject: [PATCH 06/53] fix: text that can't be encoded leaked UnicodeError
 from base58/check decoding

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index ae13350..9962223 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -35,7 +35,7 @@ def decode_base58h(string):
     try:
         return utils.encoding.a2b_hashed_base58(string)
 
-    except utils.encoding.EncodingError:
+    except (utils.encoding.EncodingError, UnicodeError):
         raise InvalidBase58h(string)
 
 
-- 
2.43.0


From aae5796ac162ad78354edabc5adedbe7693faa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:33 +0000
Subject: [PATCH 07/53] fix: Network held a list, so keys and addresses could
 not be hashed

---
 bitforge/networks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitforge/networks.py b/bitforge/networks.py
index 80c5fa4..ee1fa01 100644
--- a/bitforge/networks.py
+++ b/bitforge/networks.py
@@ -35,12 +35,12 @@ testnet = Network(
     magic      = 0x0b110907,
 
     port  = 18333,
-    seeds = [
+    seeds = (
         'testnet-seed.bitcoin.petertodd.org',
         'testnet-seed.bluematt.me',
         'testnet-seed.alexykot.me',
         'testnet-seed.bitcoin.schildbach.de'
-    ]
+    )
 )
 
 default = livenet = Network(
@@ -54,14 +54,14 @@ default = livenet = Network(
   magic      = 0xf9beb4d9,
 
   port  = 8333,
-  seeds = [
+  seeds = (
     'seed.bitcoin.sipa.be',
     'dnsseed.bluematt.me',
     'dnsseed.bitcoin.dashjr.org',
     'seed.bitcoinstats.com',
     'seed.bitnodes.io',
     'bitseed.xf2.org'
-  ]
+  )
 )
 
 _networks = [livenet, testnet]
-- 
2.43.0


From 569d813660385c69c356dcc0f7a83fcd6fb9b825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:33 +0000
Subject: [PATCH 08/53] fix: PUSHDATA lengths were padded on the wrong side
 (and failed on Python 3)

---
 bitforge/script/instruction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 1bf3faf..74aebb9 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -95,8 +95,9 @@ class Instruction(BaseInstruction):
 
             length_bytes = encode_int(
                 len(self.data),
-                big_endian = False
-            ).rjust(length_nbytes, '\0')
+                big_endian = False,
+                length = length_nbytes
+            )
 
             return opcode_byte + length_bytes + self.data
 
-- 
2.43.0


From 2f37f9625c8164c3570a2bd32de842bb173670f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:33 +0000
Subject: [PATCH 09/53] fix: Instruction.is_minimal_push failed on every
 non-empty push

---
 bitforge/script/instruction.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 74aebb9..cbf7764 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -60,21 +60,21 @@ class Instruction(BaseInstruction):
         Comes from bitcoind's script interpreter CheckMinimalPush function.
         Returns if the instruction is the smallest way to push that particular data.
         """
-        if not self.data:
+        if self.data is None:
             return True
 
         if len(self.data) == 0:
             # Could have used OP_0.
             return self.opcode == OP_0
-        elif len(self.data) == 1 and 1 <= decode_int(self.data[0]) <= 16:
+        elif len(self.data) == 1 and 1 <= decode_int(self.data) <= 16:
             # Could have used OP_1 .. OP_16
-            return self.opcode.number == OP_1.number + decode_int(self.data[0]) - 1
-        elif len(self.data) == 1 and decode_int(self.data[0]) == 0x81:
+            return self.opcode.number == OP_1.number + decode_int(self.data) - 1
+        elif len(self.data) == 1 and decode_int(self.data) == 0x81:
             # Could have used OP_1NEGATE
             return self.opcode == OP_1NEGATE
         elif len(self.data) <= 75:
             # Could have used a direct push (opcode indicating number of bytes pushed + those bytes).
-            return self.opcode.number == len(self.data.length)
+            return self.opcode.number == len(self.data)
         elif len(self.data) <= 255:
             # Could have used OP_PUSHDATA.
             return self.opcode == OP_PUSHDATA1
-- 
2.43.0


From 03862272fbfc44ec1bd97e872c0c06c21b7ae4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:33 +0000
Subject: [PATCH 10/53] fix: Scripts parsed from binary held mutable,
 unhashable push data

---
 bitforge/script/script.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 6c1a74a..98dafb2 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -79,6 +79,9 @@ class Script(BaseScript):
                 length = decode_int(length_bytes, big_endian = False)
                 data   = buffer.read(length)
 
+            if data is not None:
+                data = bytes(data) # immutable, as in any other Instruction
+
             instructions.append(Instruction(opcode, data))
 
         return Script.create(instructions)
-- 
2.43.0


From ed88caef30858e239c692c4d6458b98cb25a3f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:33 +0000
Subject: [PATCH 11/53] fix: classifying a Script of 4 or more instructions
 that begins with a push failed

---
 bitforge/script/script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 98dafb2..5b963b7 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -281,8 +281,8 @@ class RedeemMultisig(Script):
 
         return (
             len(structure) >= 4 and
-            structure[0].is_number() and
-            structure[-2].is_number() and
+            structure[0] != 'PUSH' and structure[0].is_number() and
+            structure[-2] != 'PUSH' and structure[-2].is_number() and
             structure[-1] == OP_CHECKMULTISIG and
             all(op == 'PUSH' for op in structure[1:-2])
         )
-- 
2.43.0


From 6a38c290646162682a21fc6a027d9f63014c7c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:33 +0000
Subject: [PATCH 12/53] fix: the text of an empty Script could not be read back

---
 bitforge/script/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 5b963b7..ae4b0fc 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -89,7 +89,7 @@ class Script(BaseScript):
     @staticmethod
     def from_string(string):
         instructions = []
-        tokens = (i for i in string.split(' '))
+        tokens = (i for i in string.split(' ') if string)
 
         def get_opcode(token):
             try:
-- 
2.43.0


From b4e12cb7aabe42d9016284977baee014a1280798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:33 +0000
Subject: [PATCH 13/53] fix: unassigned opcodes could not be printed

---
 bitforge/script/opcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/opcode.py b/bitforge/script/opcode.py
index 4ab386c..a557cd8 100644
--- a/bitforge/script/opcode.py
+++ b/bitforge/script/opcode.py
@@ -192,7 +192,7 @@ class Opcode(object):
         if self.is_const_push():
             return "_PUSH_%d_BYTES" % self.number
         else:
-            return Opcode.opcode_number_to_name[self.number]
+            return Opcode.opcode_number_to_name.get(self.number, "_UNKNOWN_%d" % self.number)
 
     def is_number(self):
         return self == OP_0 or (OP_1 <= self <= OP_16)
-- 
2.43.0


From d2e5dd02a565a04708d12bb535fa9ca54d5c105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 14/53] fix: transactions, inputs and outputs could not be
 serialized on Python 3

---
 bitforge/transaction/input.py       | 2 +-
 bitforge/transaction/output.py      | 2 +-
 bitforge/transaction/transaction.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 4857dba..d0f91e9 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -72,7 +72,7 @@ class Input(BaseInput):
         # Sequence number, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.seq_number, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 5b13aad..311f037 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -50,7 +50,7 @@ class Output(BaseOutput):
         # Script body (? bytes):
         buffer.write(script)
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 75b6765..82d2559 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -72,7 +72,7 @@ class Transaction(BaseTransaction):
         # Transaction lock time, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.lock_time, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
-- 
2.43.0


From ad35e165619aeab3921ef12f25c7bb8f40a60a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 15/53] fix: the tx_id of a parsed Input was not text, so it
 differed from the original

---
 bitforge/transaction/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index d0f91e9..55d820b 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -107,7 +107,7 @@ class Input(BaseInput):
     @classmethod
     def from_buffer(cls, buffer):
         # Inverse operation of Input.to_bytes(), check that out.
-        tx_id     = encode_hex(buffer.read(32)[::-1]) # reversed
+        tx_id     = encode_hex(buffer.read(32)[::-1]).decode('utf-8') # reversed
         txo_index = decode_int(buffer.read(4), big_endian = False)
 
         script_len = buffer.read_varint()
-- 
2.43.0


From 2065e3f032b6242d3a8a75c30d444d17cbea527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 16/53] fix: Transaction.get_id was not in the byte order of
 Bitcoin transaction IDs

---
 bitforge/transaction/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 82d2559..835a137 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -81,7 +81,7 @@ class Transaction(BaseTransaction):
         return sha256(sha256(self.to_bytes()))
 
     def get_id(self):
-        return encode_hex(self.get_id_bytes())
+        return encode_hex(self.get_id_bytes()[::-1]).decode('utf-8') # reversed
 
     def replace_inputs(self, inputs):
         return Transaction(inputs, self.outputs, self.lock_time, self.version)
-- 
2.43.0


From 036a5acf8ca928d171a3b94dc5ea5d07a493d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 17/53] fix: Input.create failed with a NameError on scripts of
 no known type

---
 bitforge/transaction/input.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 55d820b..544c42c 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -47,11 +47,8 @@ class Input(BaseInput):
         elif isinstance(script, PayToScriptIn):
             return ScriptInput(*args)
 
-        elif isinstance(script, OpReturnOut):
-            return DataOutput(*args)
-
         else:
-            return Output(amount, script)
+            return Input(*args)
 
     def to_bytes(self):
         buffer = Buffer()
-- 
2.43.0


From 0d0a1c38f213c6a6fb167089eb0a7770f039fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 18/53] fix: MultisigOutput paid to the bare redeem script
 instead of its hash

---
 bitforge/transaction/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 311f037..45d9aef 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -95,7 +95,7 @@ class MultisigOutput(ScriptOutput):
     @classmethod
     def create(cls, amount, pubkeys, min_signatures):
         redeem_script = RedeemMultisig.create(pubkeys, min_signatures)
-        return cls(amount, redeem_script)
+        return cls(amount, PayToScriptOut.create(redeem_script))
 
 
 class DataOutput(Output):
-- 
2.43.0


From 44816131b7cacf43b111e05d412b444d85f45a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 19/53] fix: PrivateKey.verify hashed the payload, which
 PrivateKey.sign does not do

---
 bitforge/privkey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 4bcaa3d..8319c05 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -135,7 +135,7 @@ class PrivateKey(BasePrivateKey):
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
         verifying_key = signing_key.get_verifying_key()
 
-        return verifying_key.verify(signature, message, sigdecode = ecdsa.util.sigdecode_der)
+        return verifying_key.verify_digest(signature, message, sigdecode = ecdsa.util.sigdecode_der)
 
     def __repr__(self):
         return "<PrivateKey: %s, network: %s>" % (self.to_hex(), self.network.name)
-- 
2.43.0


From 7016e590f575bab83ed2f1946cadfc2ff96ce724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 20/53] fix: paying to a script Address created an unspendable
 Pay-to-Pubkey output

---
 bitforge/script/script.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index ae4b0fc..17609a9 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -5,7 +5,7 @@ import collections
 from bitforge.encoding import *
 from bitforge.tools import Buffer
 from bitforge.errors import *
-from bitforge import PublicKey
+from bitforge import Address, PublicKey
 
 from .opcode import *
 from .instruction import Instruction
@@ -36,6 +36,9 @@ class Script(BaseScript):
     class UnknownOpcodeName(Error, StringError):
         "No known operation named {string}"
 
+    class InvalidAddressType(Error, ObjectError):
+        "Pay-to-Pubkey scripts need the Address of a PublicKey, got {object}"
+
     def __new__(cls, instructions = None):
         instructions = tuple(instructions if instructions is not None else [])
         return super(Script, cls).__new__(cls, instructions)
@@ -196,6 +199,9 @@ class PayToPubkeyOut(Script):
 
     @classmethod
     def create(cls, address):
+        if address.type != Address.Type.PublicKey:
+            raise Script.InvalidAddressType(address)
+
         schematic = [ OP_DUP, OP_HASH160, address.phash, OP_EQUALVERIFY, OP_CHECKSIG ]
         return cls(to_instructions(schematic))
 
-- 
2.43.0


From 4a0c38c41470f0aaadfc82293dc623d4f0a1ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 21/53] fix: MultisigInput.can_sign ignored testnet keys and
 accepted repeated ones

---
 bitforge/transaction/input.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 544c42c..8549c33 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -181,10 +181,15 @@ class MultisigInput(ScriptInput):
         if len(privkeys) != self.script.get_min_signatures():
             return False
 
-        expected_pubkeys = self.script.get_public_keys()
+        # Scripts don't record the network, compare the binary pubkeys:
+        expected_pubkeys = [ pubkey.to_bytes() for pubkey in self.script.get_public_keys() ]
 
         for privkey in privkeys:
-            if privkey.to_public_key() not in expected_pubkeys:
+            pubkey = privkey.to_public_key().to_bytes()
+
+            if pubkey not in expected_pubkeys:
                 return False
 
+            expected_pubkeys.remove(pubkey) # each one can only be used once
+
         return True
-- 
2.43.0


From f49d6d073504bf5257f3a3a51f46c9506d00e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 22/53] fix: HD keys could not be converted to strings

---
 bitforge/hdprivkey.py | 4 ++--
 bitforge/hdpubkey.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index fdacda3..6c1f78c 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -64,13 +64,13 @@ class HDPrivateKey(BaseHDPrivateKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_private_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
             + to_bytes(self.index, length = 4)
             + self.chain
-            + '\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
+            + b'\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
             + self.to_private_key().to_bytes()
         )
 
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index ac4e0e9..489fea6 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -50,7 +50,7 @@ class HDPublicKey(BaseHDPublicKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_public_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
-- 
2.43.0


From c75bba28d2f52d3c101691fcdf517109b7dbcd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 23/53] fix: HDPrivateKey.derive failed, and ignored the
 requested child index

---
 bitforge/hdprivkey.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 6c1f78c..e206065 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -83,18 +83,18 @@ class HDPrivateKey(BaseHDPrivateKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
-        if hardened:
-            key = '\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
+        if index >= HARDENED_START:
+            key = b'\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
         else:
             key = self.to_public_key().to_bytes()
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().seed) % utils.generator_secp256k1.order()
+        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().secret) % utils.generator_secp256k1.order()
         privkey = PrivateKey(seed, self.network)
         chain   = signed64[32:]
         depth   = self.depth + 1
-- 
2.43.0


From da90d0d6f41199455a523caa421d2b4acae3147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 24/53] fix: HDPublicKey.derive ignored the requested child
 index

---
 bitforge/hdpubkey.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 489fea6..944f17e 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -68,14 +68,14 @@ class HDPublicKey(BaseHDPublicKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
-        if hardened:
+        if index >= HARDENED_START:
             raise ValueError("Hardened derivation is not posible on HDPublicKey")
         else:
             key = self.to_public_key().to_bytes()
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-- 
2.43.0


From 9a9588f0ac77474c5b0bc399e2c147fe8ee9756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 25/53] fix: HD keys were read from binary data of any length

---
 bitforge/hdprivkey.py | 6 ++++++
 bitforge/hdpubkey.py  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index e206065..294b01e 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -49,6 +49,12 @@ class HDPrivateKey(BaseHDPrivateKey):
     def from_string(b58_str):
         data = utils.encoding.a2b_hashed_base58(b58_str) # TODO checksum?
 
+        if len(data) != HDPrivateKey.DataLength:
+            raise ValueError("The binary HDPrivateKey should be 78 bytes long, not %d" % len(data))
+
+        if data[HDPrivateKey.ChainCodeEnd : HDPrivateKey.PrivateKeyStart] != b'\0':
+            raise ValueError("The private key in an HDPrivateKey should be prefixed with a zero")
+
         chain   = data[HDPrivateKey.ChainCodeStart : HDPrivateKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPrivateKey.DepthStart : HDPrivateKey.DepthEnd])
         index   = int_from_bytes(data[HDPrivateKey.ChildIndexStart : HDPrivateKey.ChildIndexEnd])
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 944f17e..8a5d8db 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -29,6 +29,9 @@ class HDPublicKey(BaseHDPublicKey):
     def from_string(b58_str):
         data = utils.encoding.a2b_hashed_base58(b58_str) # TODO checksum?
 
+        if len(data) != HDPublicKey.DataSize:
+            raise ValueError("The binary HDPublicKey should be 78 bytes long, not %d" % len(data))
+
         chain   = data[HDPublicKey.ChainCodeStart : HDPublicKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPublicKey.DepthStart : HDPublicKey.DepthEnd])
         index   = int_from_bytes(data[HDPublicKey.ChildIndexStart : HDPublicKey.ChildIndexEnd])
-- 
2.43.0


From 96c8de9fc13a93ee5d61760cfb94fbfd29de2ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 26/53] fix: public keys of the wrong length or with
 coordinates over the prime were accepted

---
 bitforge/utils/ecdsa.py    | 4 +++-
 bitforge/utils/encoding.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 920f4ee..ca48359 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -122,7 +122,9 @@ def public_pair_for_x(generator, x, is_even):
     return (x, beta)
 
 def is_public_pair_valid(generator, public_pair):
-    return generator.curve().contains_point(public_pair[0], public_pair[1])
+    x, y = public_pair
+    p = generator.curve().p()
+    return 0 <= x < p and 0 <= y < p and generator.curve().contains_point(x, y)
 
 def verify(generator, public_pair, val, signature):
     """
diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index f8508d1..c1157fe 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -231,8 +231,10 @@ def public_pair_to_sec(public_pair, compressed=True):
 
 def sec_to_public_pair(sec):
     """Convert a public key in sec binary format to a public pair."""
-    x = from_bytes_32(sec[1:33])
     sec0 = sec[:1]
+    if len(sec) != (65 if sec0 == b'\4' else 33):
+        raise EncodingError("bad length of sec encoding for public key")
+    x = from_bytes_32(sec[1:33])
     if sec0 == b'\4':
         y = from_bytes_32(sec[33:65])
         from .ecdsa import is_public_pair_valid
-- 
2.43.0


From 6ef011ea4432296e412d5102c48b2e7b10d3646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 27/53] fix: the WIF helpers accepted private keys of any
 length

---
 bitforge/utils/encoding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index c1157fe..f5f576c 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -181,6 +181,8 @@ def wif_to_tuple_of_prefix_secret_exponent_compressed(wif):
     decoded = a2b_hashed_base58(wif)
     actual_prefix, private_key = decoded[:1], decoded[1:]
     compressed = len(private_key) > 32
+    if len(private_key) != (33 if compressed else 32) or private_key[32:] not in (b'', b'\1'):
+        raise EncodingError("bad private key in WIF %s" % wif)
     return actual_prefix, from_bytes_32(private_key[:32]), compressed
 
 
-- 
2.43.0


From ae1c1879471a505f24c363b116d382699f641d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 28/53] fix: numbers that don't fit their field were silently
 truncated when serialized

---
 bitforge/encoding.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 9962223..5a6d021 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -4,7 +4,7 @@ import hashlib
 
 from . import utils
 from .compat import chr
-from .errors import StringError
+from .errors import NumberError, StringError
 
 
 class EncodingError(StringError):
@@ -19,6 +19,10 @@ class InvalidHex(EncodingError):
     "The string {string} is not valid hexadecimal"
 
 
+class InvalidInteger(NumberError):
+    "The number {number} can't be encoded as an unsigned integer of the given length"
+
+
 class InvalidScriptNumber(EncodingError):
     "The script number {string} is too long"
 
@@ -40,6 +44,9 @@ def decode_base58h(string):
 
 
 def encode_int(integer, big_endian = True, length = None):
+    if integer < 0 or (length is not None and integer >> (8 * length)):
+        raise InvalidInteger(integer)
+
     if integer == 0:
         return chr(0) if length is None else chr(0) * length
 
@@ -50,7 +57,7 @@ def encode_int(integer, big_endian = True, length = None):
         integer >>= 8
 
     if length is not None:
-        zeros = bytearray(length) # TODO if number can't fit in length, raise
+        zeros = bytearray(length)
         data = (data + zeros)[:length]
 
     if big_endian:
@@ -73,7 +80,6 @@ def decode_int(bytes, big_endian = True):
 
 
 def encode_varint(integer):
-    # TODO check integer is a postive number
     if integer < 253:
         return encode_int(integer)
 
-- 
2.43.0


From 26b064aa059067d6e3e56f26b8c8fc75ec9d04d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 29/53] fix: intbytes.from_bytes ignored the byte order on
 Python 3

---
 bitforge/utils/intbytes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/intbytes.py b/bitforge/utils/intbytes.py
index 5fb15e3..47a620f 100644
--- a/bitforge/utils/intbytes.py
+++ b/bitforge/utils/intbytes.py
@@ -36,7 +36,7 @@ bytes_from_ints = (lambda l: b''.join(chr(x) for x in l)) if bytes == str else b
 if hasattr(int, "to_bytes"):
     to_bytes = lambda v, length, byteorder="big": v.to_bytes(length, byteorder=byteorder)
     from_bytes = lambda bytes, byteorder="big", signed=False: int.from_bytes(
-        bytes, byteorder="big", signed=signed)
+        bytes, byteorder=byteorder, signed=signed)
     int_to_bytes = lambda v: v.to_bytes((v.bit_length()+7)//8, byteorder="big")
     int_from_bytes = lambda v: int.from_bytes(v, byteorder="big")
 else:
-- 
2.43.0


From d5c7044148e6e2f3f33c2fc1b41cedc58c2ce2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 30/53] fix: modular_sqrt used float division on Python 3

---
 bitforge/utils/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/numbertheory.py b/bitforge/utils/numbertheory.py
index f2df00f..232a33d 100755
--- a/bitforge/utils/numbertheory.py
+++ b/bitforge/utils/numbertheory.py
@@ -56,7 +56,7 @@ def modular_sqrt(a, p):
     s = p - 1
     e = 0
     while s % 2 == 0:
-        s /= 2
+        s //= 2
         e += 1
 
     # Find some 'n' with a legendre symbol n|p = -1.
-- 
2.43.0


From 3e5b9f9dfb1a24802d9b6f9dfc97b2c0baf0ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 31/53] fix: deterministic_generate_k did not reduce a hash
 equal to the order

---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index ca48359..e686327 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -59,7 +59,7 @@ def deterministic_generate_k(generator_order, secret_exponent, val, hash_f=hashl
     shift = 8 * hash_size - bit_length(n)
     if shift > 0:
         val >>= shift
-    if val > n:
+    if val >= n:
         val -= n
     h1 = intbytes.to_bytes(val, length=order_size)
     k = hmac.new(k, v + b'\x00' + priv + h1, hash_f).digest()
-- 
2.43.0


From a75c2f71725b0e5a82013b91f745d22711a432f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 32/53] fix: validate_signature failed on Python 3

---
 bitforge/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/signature.py b/bitforge/signature.py
index 1ccf21e..2e707ef 100644
--- a/bitforge/signature.py
+++ b/bitforge/signature.py
@@ -9,7 +9,7 @@ SIGHASH_ANYONECANPAY = 0x80
 
 def validate_signature(sig):
     # Minimum and maximum size constraints.
-    sig = map(ord, sig)
+    sig = bytearray(sig)
 
     if (len(sig) < 9): return False;
     if (len(sig) > 73): return False;
-- 
2.43.0


From 00b673201eca83985ad380e927ea4338c240ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 33/53] fix: Unit lost a satoshi on amounts which have no exact
 float (0.29 BTC)

---
 bitforge/unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/unit.py b/bitforge/unit.py
index a45a58a..6b2df7d 100644
--- a/bitforge/unit.py
+++ b/bitforge/unit.py
@@ -25,7 +25,7 @@ class Unit(object):
             raise ValueError('Invalid arguments')
 
     def _set_values(self, satoshis):
-        self.satoshis = int(satoshis)
+        self.satoshis = int(round(satoshis))
         self.bits = self.satoshis / Unit.bits
         self.mbtc = self.satoshis / Unit.mbtc
         self.btc = self.satoshis / Unit.btc
-- 
2.43.0


From c53d47eeb060ddea1b021ef7bb596991abc5ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 34/53] fix: URI.is_valid raised on infinite amounts

---
 bitforge/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 9617925..e98bcd0 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -18,7 +18,7 @@ class URI(object):
         try:
             URI(uri)
             return True
-        except (ValueError, BitforgeError):
+        except (ValueError, OverflowError, BitforgeError):
             return False
 
     @staticmethod
-- 
2.43.0


From e93447964e1fc7a97198daf3526f8b8d3c841937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 35/53] fix: URI wrote small amounts with an exponent

---
 bitforge/uri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index e98bcd0..6654756 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -54,7 +54,8 @@ class URI(object):
     def to_uri(self):
         query = self.extras.copy()
         if self.amount:
-            query['amount'] = self.amount.btc
+            # Plain decimal, as str() may use an exponent (BIP 21 does not allow it)
+            query['amount'] = ('%.8f' % self.amount.btc).rstrip('0').rstrip('.')
         for key in ['message', 'label', 'r']:
             value = getattr(self, key, False)
             if value: query[key] = value
-- 
2.43.0


From d52dae403035c9b093f5db78dca02b00bd025e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 36/53] fix: OP_ABS always resulted in 1

---
 bitforge/script/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 140d10b..3976082 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -514,7 +514,7 @@ class Interpreter(object):
                     number = -number
 
                 elif instruction.opcode == OP_ABS:
-                    number = abs(-1)
+                    number = abs(number)
 
                 elif instruction.opcode == OP_NOT:
                     number = int(number == 0)
-- 
2.43.0


From 3107f293bc86ee8d261f11f6da65f15378a38451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 37/53] fix: OP_DROP dropped two elements

---
 bitforge/script/interpreter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 3976082..e9256eb 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -393,7 +393,6 @@ class Interpreter(object):
                     return False
 
                 self.stack.pop()
-                self.stack = self.stack[:-1]
 
             elif instruction.opcode == OP_DUP:
                 # ( x -- x x )
-- 
2.43.0


From 13bb40df04af30f3ca826bdbb117d61171a69fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 38/53] fix: the stack size limit was only enforced at the end
 of a script

---
 bitforge/script/interpreter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index e9256eb..1b83daa 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -132,9 +132,9 @@ class Interpreter(object):
                 if not self.step():
                     return False
 
-            if len(self.stack) + len(self.altstack) > 1000:
-                self.errstr = 'SCRIPT_ERR_STACK_SIZE'
-                return False
+                if len(self.stack) + len(self.altstack) > 1000:
+                    self.errstr = 'SCRIPT_ERR_STACK_SIZE'
+                    return False
 
         except Exception as e:
             self.errstr = 'SCRIPT_ERR_UNKNOWN_ERROR: ' + str(e)
-- 
2.43.0


From ab8c949d1fa05e952f897f8213453a0d19a2a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 39/53] fix: OP_WITHIN ignored SCRIPT_VERIFY_MINIMALDATA

---
 bitforge/script/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 1b83daa..8e498e7 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -591,7 +591,7 @@ class Interpreter(object):
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
 
-                number1, number2, number3 = map(decode_script_number, self.stack[-3:])
+                number1, number2, number3 = [ decode_script_number(n, f_required_minimal) for n in self.stack[-3:] ]
                 f_value = number2 <= number1 < number3
 
                 self.stack = self.stack[:-3] + [Interpreter.bool_bytes[f_value]]
-- 
2.43.0


From 61e760094d0b1ae0f59a47198deb274559544098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 40/53] fix: OP_CHECKLOCKTIMEVERIFY failed in every
 transaction, enabled or not

---
 bitforge/script/interpreter.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 8e498e7..96a1798 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -2,6 +2,7 @@ from __future__ import unicode_literals
 
 from bitforge.errors import BitforgeError
 from bitforge.transaction import Transaction, Input, Output
+from bitforge.transaction.input import FINAL_SEQ_NUMBER
 from bitforge.tools import Buffer
 from bitforge.script import Script
 
@@ -209,11 +210,14 @@ class Interpreter(object):
                 pass
 
             elif instruction.opcode == OP_CHECKLOCKTIMEVERIFY:
-                if self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY:
+                if not (self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY):
+                    # Not enabled: treat as a NOP2
                     if self.flags & Interpreter.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS:
                         self.errstr = 'SCRIPT_ERR_DISCOURAGE_UPGRADABLE_NOPS'
                         return False
 
+                    return True
+
                 if len(self.stack) < 1:
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
@@ -755,7 +759,17 @@ class Interpreter(object):
         return True
 
     def check_lock_time(self, nlock_time):
-        pass
+        threshold = Interpreter.LOCKTIME_THRESHOLD
+
+        # Block heights can only be compared with heights, and times with times:
+        if (nlock_time < threshold) != (self.tx.lock_time < threshold):
+            return False
+
+        if nlock_time > self.tx.lock_time:
+            return False
+
+        # The lock time of the transaction is ignored if this input is final:
+        return self.tx.inputs[self.nin].seq_number != FINAL_SEQ_NUMBER
 
     def check_signature_encoding(self, bytes):
         pass
-- 
2.43.0


From aa95ddecf313dc904097c2e261dbaf18faab7b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 41/53] fix: SCRIPT_VERIFY_P2SH failed with an AttributeError,
 and never ran the redeem script

---
 bitforge/script/interpreter.py | 13 +++++++++----
 bitforge/script/script.py      |  6 ++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 96a1798..d87b907 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -81,7 +81,7 @@ class Interpreter(object):
             return False
 
         # Additional validation for spend-to-script-hash transactions:
-        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_sig.is_script_hash_out():
+        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_pubkey.is_script_hash_out():
             # script_sig must be literals-only or validation fails
             if not script_sig.is_push_only():
                 self.errstr = 'SCRIPT_ERR_SIG_PUSHONLY'
@@ -94,7 +94,12 @@ class Interpreter(object):
                 raise Exception('internal error - stack copy empty')
 
             redeem_bytes = stack_copy[-1]
-            redeem_script = Script.from_bytes(redeem_bytes)
+            try:
+                redeem_script = Script.from_bytes(redeem_bytes)
+            except BitforgeError:
+                self.errstr = 'SCRIPT_ERR_BAD_OPCODE'
+                return False
+
             stack_copy = stack_copy[:-1]
 
             self.initialize()
@@ -108,11 +113,11 @@ class Interpreter(object):
             if not self.evaluate():
                 return False
 
-            if len(stack_copy) == 0:
+            if len(self.stack) == 0:
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_NO_P2SH_STACK'
                 return False
 
-            if not Interpreter.cast_to_bool(stack_copy[-1]):
+            if not Interpreter.cast_to_bool(self.stack[-1]):
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_IN_P2SH_STACK'
                 return False
 
diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 17609a9..ca19770 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -159,6 +159,12 @@ class Script(BaseScript):
         """
         return all(i.opcode <= OP_16 for i in self.instructions)
 
+    def is_script_hash_out(self):
+        """
+        :returns: if the script is exactly a BIP 16 Pay-to-Script output: OP_HASH160 <20 bytes> OP_EQUAL
+        """
+        return PayToScriptOut.is_valid(self) and self.instructions[1].opcode == Opcode(20)
+
     def __repr__(self):
         return str(self.instructions)
 
-- 
2.43.0


From a0517de31aae56785f47c4bd88485670f225f25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:35 +0000
Subject: [PATCH 42/53] fix: verify raised a TypeError when the combined point
 is at infinity

---
 bitforge/utils/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index e686327..56b4184 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -143,6 +143,7 @@ def verify(generator, public_pair, val, signature):
     u1 = ( val * c ) % n
     u2 = ( r * c ) % n
     point = u1 * G + u2 * ellipticcurve.Point( G.curve(), public_pair[0], public_pair[1], G.order() )
+    if point == ellipticcurve.INFINITY: return False
     v = point.x() % n
     return v == r
 
-- 
2.43.0


From c55a0133f4bde49a48d76a13eaaf0615298a1e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:02 +0000
Subject: [PATCH 43/53] fix: comparing an Instruction to another object raised
 AttributeError

Script and Transaction comparisons and membership tests reach it too.
---
 bitforge/script/instruction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index cbf7764..d87d150 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -121,6 +121,9 @@ class Instruction(BaseInstruction):
             return self.opcode.name
 
     def __eq__(self, other):
+        if not isinstance(other, Instruction):
+            return False
+
         return self.opcode == other.opcode and self.data == other.data
 
     def __hash__(self):
-- 
2.43.0


From bf79162cb681c5756229ad0f898d2bdbbf94ef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:17 +0000
Subject: [PATCH 44/53] fix: Script.from_string raised ValueError for digits
 that aren't decimal

---
 bitforge/script/script.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index ca19770..b28cdd9 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -94,11 +94,15 @@ class Script(BaseScript):
         instructions = []
         tokens = (i for i in string.split(' ') if string)
 
+        def is_decimal(token):
+            # isdigit() also accepts characters that int() doesn't, such as superscripts
+            return token != '' and all(char in '0123456789' for char in token)
+
         def get_opcode(token):
             try:
                 return Opcode.from_name(token)
             except Opcode.UnknownOpcodeName:
-                if token.isdigit():
+                if is_decimal(token):
                     return Opcode.const_push_for(int(token))
                 else:
                     raise Script.UnknownOpcodeName(token)
@@ -120,7 +124,7 @@ class Script(BaseScript):
                     size_string = next(tokens)
                     hex_bytes = next(tokens)
 
-                    if not size_string.isdigit():
+                    if not is_decimal(size_string):
                         raise Script.InvalidPushSize(size_string)
 
                     if not hex_bytes.startswith('0x'):
-- 
2.43.0


From a124a508af16dfdb07b668b225905c0d04d0bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:22 +0000
Subject: [PATCH 45/53] fix: public key recovery failed or missed the signer on
 some valid signatures

---
 bitforge/utils/ecdsa.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 56b4184..20e49ce 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -162,18 +162,21 @@ def possible_public_pairs_for_signature(generator, value, signature):
     # 1.1
     inv_r = numbertheory.inverse_mod(r,order)
     minus_e = -value % order
-    x = r
-    # 1.3
-    alpha = ( pow(x,3,p)  + curve.a() * x + curve.b() ) % p
-    beta = numbertheory.modular_sqrt(alpha, p)
-    for y in [beta, p - beta]:
-        # 1.4 the constructor checks that nR is at infinity
-        R = ellipticcurve.Point(curve, x, y, order)
-        # 1.6 compute Q = r^-1 (sR - eG)
-        Q = inv_r * ( s * R + minus_e * G )
-        public_pair = (Q.x(), Q.y())
-        # check that Q is the public key
-        if verify(generator, public_pair, value, signature):
-        # check that we get the original signing address
-            possible_points.add(public_pair)
+    # r is the x coordinate of R modulo the order, which is smaller than p
+    for x in range(r, p, order):
+        # 1.3
+        alpha = ( pow(x,3,p)  + curve.a() * x + curve.b() ) % p
+        beta = numbertheory.modular_sqrt(alpha, p)
+        if not curve.contains_point(x, beta): continue
+        for y in [beta, p - beta]:
+            # 1.4 the constructor checks that nR is at infinity
+            R = ellipticcurve.Point(curve, x, y, order)
+            # 1.6 compute Q = r^-1 (sR - eG)
+            Q = inv_r * ( s * R + minus_e * G )
+            if Q == ellipticcurve.INFINITY: continue
+            public_pair = (Q.x(), Q.y())
+            # check that Q is the public key
+            if verify(generator, public_pair, value, signature):
+            # check that we get the original signing address
+                possible_points.add(public_pair)
     return possible_points
-- 
2.43.0


From 6521e995666b66151577548f29f6c35754a3cd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:23 +0000
Subject: [PATCH 46/53] fix: sign did not reduce r modulo the order of the
 generator

---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 20e49ce..546128f 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -102,7 +102,7 @@ def sign(generator, secret_exponent, val):
     n = G.order()
     k = deterministic_generate_k(n, secret_exponent, val)
     p1 = k * G
-    r = p1.x()
+    r = p1.x() % n
     if r == 0: raise RuntimeError("amazingly unlucky random number r")
     s = ( numbertheory.inverse_mod( k, n ) * \
           ( val + ( secret_exponent * r ) % n ) ) % n
-- 
2.43.0


From 9c547dac4b9c8cee26bfe432a52975fdb0f4236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:14 +0000
Subject: [PATCH 47/53] fix: sec_to_public_pair returned a point that is not on
 the curve for some compressed keys

---
 bitforge/utils/encoding.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index f5f576c..f7ccd45 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -247,9 +247,13 @@ def sec_to_public_pair(sec):
             raise EncodingError("invalid (x, y) pair")
         return public_pair
     if sec0 in (b'\2', b'\3'):
-        from .ecdsa import public_pair_for_x
+        from .ecdsa import is_public_pair_valid, public_pair_for_x
         from .secp256k1 import generator_secp256k1
-        return public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\2'))
+        public_pair = public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\2'))
+        # verify this x has a point on the curve
+        if not is_public_pair_valid(generator_secp256k1, public_pair):
+            raise EncodingError("invalid x for a public key")
+        return public_pair
     raise EncodingError("bad sec encoding for public key")
 
 
-- 
2.43.0


From b61f25dba6afe31ffaeeae044b9c69b026c3d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:27 +0000
Subject: [PATCH 48/53] fix: errors about a text that has no encoding could not
 be printed

---
 bitforge/address.py                 | 4 ++--
 bitforge/networks.py                | 2 +-
 bitforge/privkey.py                 | 2 +-
 bitforge/pubkey.py                  | 2 +-
 bitforge/script/instruction.py      | 2 +-
 bitforge/script/opcode.py           | 2 +-
 bitforge/transaction/transaction.py | 4 ++--
 7 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/bitforge/address.py b/bitforge/address.py
index 934f9d8..fc81d0d 100644
--- a/bitforge/address.py
+++ b/bitforge/address.py
@@ -21,7 +21,7 @@ class Address(BaseAddress):
         pass
 
     class UnknownNetwork(Error, networks.UnknownNetwork):
-        "No network for Address with an attribute '{key}' of value {value}"
+        "No network for Address with an attribute '{key}' of value {value!r}"
 
     class InvalidVersion(Error, NumberError):
         "Failed to detect Address type and network from version number {number}"
@@ -39,7 +39,7 @@ class Address(BaseAddress):
         "The binary address {string} should be 21 bytes long, not {length}"
 
     class InvalidType(Error, ObjectError):
-        "Address type {object} is not an instance of Address.Type"
+        "Address type {object!r} is not an instance of Address.Type"
 
 
     def __new__(cls, phash, network = networks.default, type = Type.PublicKey):
diff --git a/bitforge/networks.py b/bitforge/networks.py
index ee1fa01..0ea139e 100644
--- a/bitforge/networks.py
+++ b/bitforge/networks.py
@@ -5,7 +5,7 @@ from .errors import KeyValueError
 
 
 class UnknownNetwork(KeyValueError):
-    "No network with an attribute '{key}' of value {value}"
+    "No network with an attribute '{key}' of value {value!r}"
 
 
 # Network objects are immutable, and should be unique
diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 8319c05..b04173b 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -37,7 +37,7 @@ class PrivateKey(BasePrivateKey):
         "Invalid secret for PrivateKey: {number}"
 
     class UnknownNetwork(Error, networks.UnknownNetwork):
-        "No network for PrivateKey with an attribute '{key}' of value {value}"
+        "No network for PrivateKey with an attribute '{key}' of value {value!r}"
 
     class InvalidWifLength(Error, StringError):
         "The PrivateKey WIF {string} should be 33 (uncompressed) or 34 (compressed) bytes long, not {length}"
diff --git a/bitforge/pubkey.py b/bitforge/pubkey.py
index 3b8f818..afd662f 100644
--- a/bitforge/pubkey.py
+++ b/bitforge/pubkey.py
@@ -28,7 +28,7 @@ class PublicKey(BasePublicKey):
         "The PublicKey pair {object} is invalid (not a point of the curve)"
 
     class UnknownNetwork(Error, networks.UnknownNetwork):
-        "No network for PublicKey with an attribute '{key}' of value {value}"
+        "No network for PublicKey with an attribute '{key}' of value {value!r}"
 
     class InvalidBinary(Error, StringError):
         "The buffer {string} is not in any recognized format"
diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index d87d150..e38df3d 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -16,7 +16,7 @@ class Instruction(BaseInstruction):
         pass
 
     class TypeError(Error, ObjectError):
-        "Expected an Opcode, got {object}"
+        "Expected an Opcode, got {object!r}"
 
     class UnexpectedData(Error, ObjectError):
         "Instruction got data with opcode {object}, which does not push data"
diff --git a/bitforge/script/opcode.py b/bitforge/script/opcode.py
index a557cd8..97104b8 100644
--- a/bitforge/script/opcode.py
+++ b/bitforge/script/opcode.py
@@ -173,7 +173,7 @@ class Opcode(object):
         "No Opcode can push {number} bytes"
 
     class TypeError(Error, ObjectError):
-        "Opcodes are initialized from numbers and names, got object {object}"
+        "Opcodes are initialized from numbers and names, got object {object!r}"
 
     class WrongOpcodeType(Error, ObjectError):
         "Opcode {object.name} does not support this operation"
diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 835a137..3122847 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -25,10 +25,10 @@ class Transaction(BaseTransaction):
         "No Outputs were given to create this Transaction"
 
     class NotAnInput(Error, ObjectError):
-        "Transaction expected instances of Input, got {object} instead"
+        "Transaction expected instances of Input, got {object!r} instead"
 
     class NotAnOutput(Error, ObjectError):
-        "Transaction expected instances of Input, got {object} instead"
+        "Transaction expected instances of Input, got {object!r} instead"
 
     class InvalidLockTime(Error, NumberError):
         "Transaction lock_time must be between 0 and 4294967295 (2^32 - 1), not {number}"
-- 
2.43.0


From f0afbf4aa72a17fce0b75518eba3302dbb3f4fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:53 +0000
Subject: [PATCH 49/53] fix: keep the instructions of a standard Script created
 from an iterator

---
 bitforge/script/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index b28cdd9..5ba8440 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -50,7 +50,7 @@ class Script(BaseScript):
     def create(instructions):
         generic = Script(instructions)
         subcls = Script.classify(generic)
-        return subcls(instructions) if subcls else generic
+        return subcls(generic.instructions) if subcls else generic
 
     @staticmethod
     def classify(script):
-- 
2.43.0


From fa50bb01ff72b3cb9322917f3edc04fd241f4e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:50 +0000
Subject: [PATCH 50/53] fix: an Address made from a Buffer could not be hashed,
 and changed with it

---
 bitforge/address.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/address.py b/bitforge/address.py
index fc81d0d..cfcefd0 100644
--- a/bitforge/address.py
+++ b/bitforge/address.py
@@ -54,6 +54,9 @@ class Address(BaseAddress):
         if len(phash) != 20:
             raise Address.InvalidHashLength(phash)
 
+        if isinstance(phash, bytearray):
+            phash = bytes(phash) # immutable, as in any other Address
+
         return super(Address, cls).__new__(cls, phash, network, type)
 
     @staticmethod
-- 
2.43.0


From ee9f3253377eed8046df93e081989a6d65ab298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:50 +0000
Subject: [PATCH 51/53] fix: a PublicKey made from a list could not be hashed,
 and changed with it

---
 bitforge/pubkey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/pubkey.py b/bitforge/pubkey.py
index afd662f..ef56a63 100644
--- a/bitforge/pubkey.py
+++ b/bitforge/pubkey.py
@@ -43,7 +43,7 @@ class PublicKey(BasePublicKey):
         if not utils.ecdsa.is_public_pair_valid(generator_secp256k1, pair):
             raise PublicKey.InvalidPair(pair)
 
-        return super(PublicKey, cls).__new__(cls, pair, network, compressed)
+        return super(PublicKey, cls).__new__(cls, tuple(pair), network, compressed)
 
     @staticmethod
     def from_private_key(privkey):
-- 
2.43.0


From de90f1518a097cca8f7f83131ae4d451b17c497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:51 +0000
Subject: [PATCH 52/53] fix: an Instruction made from a Buffer could not be
 hashed, and changed with it

---
 bitforge/script/instruction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index e38df3d..1a6eb9f 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -45,6 +45,9 @@ class Instruction(BaseInstruction):
         elif data is not None:
             raise Instruction.UnexpectedData(opcode)
 
+        if isinstance(data, bytearray):
+            data = bytes(data) # immutable, as in any other Instruction
+
         return super(Instruction, cls).__new__(cls, opcode, data)
 
     @staticmethod
-- 
2.43.0


From 2f1ec4cd0a869a708e88d65499740c762c0e2a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:51 +0000
Subject: [PATCH 53/53] fix: Transaction.sign returned an unsigned Transaction
 for positions counted from the end

---
 bitforge/transaction/transaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 3122847..1a7d0d8 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -95,6 +95,9 @@ class Transaction(BaseTransaction):
 
         # Let's go step by step.
 
+        # The position may be counted from the end, as in any sequence:
+        txi_index = range(len(self.inputs))[txi_index]
+
         # 1. Create a simplified version of the Transaction, where this Input
         # Script is a placeholder (the signature can't sign itself), and all
         # other Input scripts are empty (0 bytes). The placeholder should be
-- 
2.43.0

