From 3c73553d300c0415b421f847672da2ed884e1357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 01/34] fix: VarInt keeps over-long encodings, refuses cut-off
 ones, accepts compact fd

---
 riemann/tx/decred.py |  8 ++++----
 riemann/tx/shared.py | 12 ++++++------
 riemann/tx/tx.py     |  8 ++++----
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 5084d15..5284b3f 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -125,10 +125,10 @@ class DecredTxOut(DecredByteData):
 
     @classmethod
     def from_bytes(DecredTxOut, byte_string: bytes) -> 'DecredTxOut':
-        n = shared.VarInt.from_bytes(byte_string[10:])
-        script_start = 10 + len(n)
-        script_end = script_start + n.number
-        if n.number < 0xfc:
+        if byte_string[10] < 0xfc:
+            n = shared.VarInt.from_bytes(byte_string[10:])
+            script_start = 10 + len(n)
+            script_end = script_start + n.number
             return DecredTxOut(
                 value=byte_string[:8],
                 version=byte_string[8:10],
diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index f478326..df3aaa0 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -172,15 +172,15 @@ class VarInt(ByteData):
             raise ValueError('VarInt cannot be greater than (2 ** 64) - 1. '
                              'Got: {}'
                              .format(number))
-        if number <= 0xfc:
+        if number <= 0xfc and (length or 1) <= 1:
             pass  # No prefix
-        elif number <= 0xffff or length == 3:
+        elif number <= 0xffff and (length or 3) <= 3:
             self += bytes([0xfd])
             length = 3
-        elif number <= 0xffffffff or length == 5:
+        elif number <= 0xffffffff and (length or 5) <= 5:
             self += bytes([0xfe])
             length = 5
-        elif number <= 0xffffffffffffffff or length == 9:
+        else:
             self += bytes([0xff])
             length = 9
         self += utils.i2le(number)
@@ -208,14 +208,14 @@ class VarInt(ByteData):
             non_compact = False
         elif num[0] == 0xfd:
             num = num[1:3]
-            non_compact = (num[-1:] == b'\x00')
+            non_compact = (num[-1:] == b'\x00' and num[0] <= 0xfc)
         elif num[0] == 0xfe:
             num = num[1:5]
             non_compact = (num[-2:] == b'\x00\x00')
         elif num[0] == 0xff:
             num = num[1:9]
             non_compact = (num[-4:] == b'\x00\x00\x00\x00')
-        if len(num) not in [1, 2, 4, 8]:
+        if len(num) != {0xfd: 2, 0xfe: 4, 0xff: 8}.get(byte_string[0], 1):
             raise ValueError('Malformed VarInt. Got: {}'
                              .format(byte_string.hex()))
 
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index a58b8a6..17a2935 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -273,10 +273,10 @@ class TxOut(ByteData):
         '''
         Parse a TxOut from a bytestring. Also available as from_hex
         '''
-        n = VarInt.from_bytes(byte_string[8:])
-        script_start = 8 + len(n)
-        script_end = script_start + n.number
-        if n.number < 0xfc:
+        if byte_string[8] < 0xfc:
+            n = VarInt.from_bytes(byte_string[8:])
+            script_start = 8 + len(n)
+            script_end = script_start + n.number
             return TxOut(
                 value=byte_string[:8],
                 output_script=byte_string[script_start:script_end])
-- 
2.43.0


From 984af207eefeb1378a45307aa90b80433ed44fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 02/34] fix: deserialize refuses OP_PUSHDATA1/2 running past
 the end of the script

---
 riemann/script/serialization.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/riemann/script/serialization.py b/riemann/script/serialization.py
index 666aaf4..87c8532 100644
--- a/riemann/script/serialization.py
+++ b/riemann/script/serialization.py
@@ -95,10 +95,6 @@ def deserialize(serialized_script: bytes) -> str:
                 serialized_script[i + 1: i + 1 + current_byte].hex())
 
             i += 1 + current_byte
-            if i > len(serialized_script):
-                raise IndexError(
-                    'Push {} caused out of bounds exception.'
-                    .format(current_byte))
 
         elif current_byte == 76:
             # next hex blob length
@@ -133,6 +129,11 @@ def deserialize(serialized_script: bytes) -> str:
                     'Got 0x%x' % serialized_script[i])
             i += 1
 
+        if i > len(serialized_script):
+            raise IndexError(
+                'Push {} caused out of bounds exception.'
+                .format(current_byte))
+
     return ' '.join(deserialized)
 
 
-- 
2.43.0


From a1a11d6825e4b9cd44373844ec71f3121ce0783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 03/34] fix: parsing an input keeps its script_sig byte for
 byte

---
 riemann/tx/tx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 17a2935..819c095 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -183,6 +183,9 @@ class TxIn(ByteData):
             redeem_script = serialization.serialize(items[-1])
         except (IndexError, ValueError, NotImplementedError):
             pass
+        # Only split if that keeps the script sig as it is
+        if stack_script + redeem_script != script_sig:
+            return script_sig, b''
         return stack_script, redeem_script
 
     @classmethod
-- 
2.43.0


From 1aa8c2de3ad8916a919a7fc860df79368510b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 04/34] fix: a parsed legacy transaction is not a witness
 transaction

---
 riemann/tx/tx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 819c095..df47823 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -628,7 +628,7 @@ class Tx(ByteData):
 
     def is_witness(self) -> bool:
         '''Return True if the transaction witness flag is set'''
-        return self.flag is not None or self.tx_witnesses is not None
+        return self.flag is not None
 
     def calculate_fee(self, input_values: Sequence[int]) -> int:
         '''
-- 
2.43.0


From 825bce0858430c3a78fd081006bbee4d11d968d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 05/34] fix: legacy transactions have wtx_id_le None

---
 riemann/tx/tx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index df47823..70cc688 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -543,7 +543,7 @@ class Tx(ByteData):
             self.tx_id_le = utils.hash256(self.to_bytes())
             self.tx_id = utils.change_endianness(self.tx_id_le)
             self.wtx_id = None
-            self.wtx_le = None
+            self.wtx_id_le = None
 
         self._make_immutable()
 
-- 
2.43.0


From 70573bbcc163c2b96d43bf5392d868437b774b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 06/34] fix: parsing refuses cut-off fields and over-long
 lengths it cannot keep

---
 riemann/tx/decred.py     |  4 +++-
 riemann/tx/overwinter.py |  4 +++-
 riemann/tx/sapling.py    |  4 +++-
 riemann/tx/shared.py     |  8 ++++++++
 riemann/tx/sprout.py     |  4 +++-
 riemann/tx/tx.py         | 20 +++++++++++++++-----
 6 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 5284b3f..4901cea 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -129,10 +129,12 @@ class DecredTxOut(DecredByteData):
             n = shared.VarInt.from_bytes(byte_string[10:])
             script_start = 10 + len(n)
             script_end = script_start + n.number
-            return DecredTxOut(
+            ret = DecredTxOut(
                 value=byte_string[:8],
                 version=byte_string[8:10],
                 output_script=byte_string[script_start:script_end])
+            ret._check_parsed(byte_string)
+            return ret
         else:
             raise NotImplementedError(
                 'No support for abnormally long pk_scripts.')
diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 3e39d94..5b730f5 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -255,7 +255,7 @@ class OverwinterTx(z.ZcashByteData):
             current += 32
             joinsplit_sig = byte_string[current:current + 64]
 
-        return OverwinterTx(
+        ret = OverwinterTx(
             tx_ins=tx_ins,
             tx_outs=tx_outs,
             lock_time=lock_time,
@@ -263,6 +263,8 @@ class OverwinterTx(z.ZcashByteData):
             tx_joinsplits=tx_joinsplits,
             joinsplit_pubkey=joinsplit_pubkey,
             joinsplit_sig=joinsplit_sig)
+        ret._check_parsed(byte_string)
+        return ret
 
     def is_witness(self) -> bool:
         return False
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index c606300..ced59d8 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -586,7 +586,7 @@ class SaplingTx(z.ZcashByteData):
         else:
             binding_sig = None
 
-        return SaplingTx(
+        ret = SaplingTx(
             tx_ins=tx_ins,
             tx_outs=tx_outs,
             lock_time=lock_time,
@@ -598,6 +598,8 @@ class SaplingTx(z.ZcashByteData):
             joinsplit_pubkey=joinsplit_pubkey,
             joinsplit_sig=joinsplit_sig,
             binding_sig=binding_sig)
+        ret._check_parsed(byte_string)
+        return ret
 
     def is_witness(self) -> bool:
         return False
diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index df3aaa0..3d466e4 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -116,6 +116,14 @@ class ByteData():
         self._bytes = bytes(self._bytes)
         self.__immutable = True
 
+    def _check_parsed(self, byte_string: bytes) -> None:
+        '''
+        Raises ValueError unless self is what was read off the front of
+        byte_string (not so for cut-off fields and over-long lengths)
+        '''
+        if self._bytes != byte_string[:len(self)]:
+            raise ValueError('Malformed {}.'.format(type(self).__name__))
+
     def find(self, substring: Byteslike) -> int:
         '''
         byte-like -> int
diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 117ac25..46848c5 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -196,7 +196,7 @@ class SproutTx(z.ZcashByteData):
             current += 32
             joinsplit_sig = byte_string[current:current + 64]
 
-        return SproutTx(
+        ret = SproutTx(
             version=version,
             tx_ins=tx_ins,
             tx_outs=tx_outs,
@@ -204,6 +204,8 @@ class SproutTx(z.ZcashByteData):
             tx_joinsplits=tx_joinsplits,
             joinsplit_pubkey=joinsplit_pubkey,
             joinsplit_sig=joinsplit_sig)
+        ret._check_parsed(byte_string)
+        return ret
 
     def calculate_fee(self, input_values: Sequence[int]) -> int:
         '''
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 70cc688..f16c5ef 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -216,11 +216,13 @@ class TxIn(ByteData):
         # Parse the script sig into stack and redeem
         else:
             stack_script, redeem_script = TxIn._parse_script_sig(script_sig)
-        return TxIn(
+        ret = TxIn(
             outpoint=outpoint,
             stack_script=stack_script,
             redeem_script=redeem_script,
             sequence=sequence)
+        ret._check_parsed(byte_string)
+        return ret
 
 
 class TxOut(ByteData):
@@ -280,9 +282,11 @@ class TxOut(ByteData):
             n = VarInt.from_bytes(byte_string[8:])
             script_start = 8 + len(n)
             script_end = script_start + n.number
-            return TxOut(
+            ret = TxOut(
                 value=byte_string[:8],
                 output_script=byte_string[script_start:script_end])
+            ret._check_parsed(byte_string)
+            return ret
         else:
             raise NotImplementedError(
                 'No support for abnormally long pk_scripts.')
@@ -320,7 +324,9 @@ class WitnessStackItem(ByteData):
         n = VarInt.from_bytes(byte_string)
         item_start = len(n)
         item_end = item_start + n.number
-        return WitnessStackItem(byte_string[item_start:item_end])
+        ret = WitnessStackItem(byte_string[item_start:item_end])
+        ret._check_parsed(byte_string)
+        return ret
 
 
 class InputWitness(ByteData):
@@ -369,7 +375,9 @@ class InputWitness(ByteData):
             item = WitnessStackItem.from_bytes(byte_string[item_start:])
             item_start += len(item)
             items.append(item)
-        return InputWitness(items)
+        ret = InputWitness(items)
+        ret._check_parsed(byte_string)
+        return ret
 
     def copy(self,
              stack: Optional[List[WitnessStackItem]] = None) -> 'InputWitness':
@@ -602,13 +610,15 @@ class Tx(ByteData):
 
         # Get the lock time and return a complete tx
         lock_time = byte_string[current:current + 4]
-        return Tx(
+        ret = Tx(
             version=version,
             flag=flag,
             tx_ins=tx_ins,
             tx_outs=tx_outs,
             tx_witnesses=tx_witnesses,
             lock_time=lock_time)
+        ret._check_parsed(byte_string)
+        return ret
 
     def no_witness(self) -> bytes:
         '''
-- 
2.43.0


From 19b1a9e40ab387a5eda4c90b9bbbd099e0ac4ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 07/34] fix: built objects share no mutable state with the
 caller

---
 riemann/tx/decred.py | 6 +++---
 riemann/tx/shared.py | 7 ++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 4901cea..1d12cff 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -253,11 +253,11 @@ class DecredTx(DecredByteData):
             self += tx_witness
 
         self.version = version
-        self.tx_ins = tx_ins
-        self.tx_outs = tx_outs
+        self.tx_ins = tuple(tx_in for tx_in in tx_ins)
+        self.tx_outs = tuple(tx_out for tx_out in tx_outs)
         self.lock_time = lock_time
         self.expiry = expiry
-        self.tx_witnesses = tx_witnesses
+        self.tx_witnesses = tuple(wit for wit in tx_witnesses)
 
         if len(self) > 100000:
             raise ValueError(
diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index 3d466e4..8ef95f0 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -113,7 +113,12 @@ class ByteData():
         '''
         Prevents any future changes to the object
         '''
-        self._bytes = bytes(self._bytes)
+        # Mutable values may be shared with the caller
+        for key, value in vars(self).items():
+            if isinstance(value, bytearray):
+                setattr(self, key, bytes(value))
+            elif isinstance(value, ByteData) and not value.__immutable:
+                setattr(self, key, value.to_bytes())
         self.__immutable = True
 
     def _check_parsed(self, byte_string: bytes) -> None:
-- 
2.43.0


From 6c1b305a112330a23ef696b4d20b8bc140b39bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 08/34] fix: Sprout keys are there exactly with joinsplits, and
 version 1 parses

---
 riemann/tx/sprout.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 46848c5..b90f788 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -69,9 +69,10 @@ class SproutTx(z.ZcashByteData):
                         'Invalid Joinsplit. '
                         'Expected instance of SproutJoinsplit. Got {}'
                         .format(type(tx_joinsplit).__name__))
-            self.validate_bytes(joinsplit_pubkey, 32)
-            if joinsplit_sig is not None and joinsplit_sig != b'':
-                self.validate_bytes(joinsplit_sig, 64)
+            if len(tx_joinsplits) != 0:
+                self.validate_bytes(joinsplit_pubkey, 32)
+                if joinsplit_sig != b'':  # blank in sighash copies
+                    self.validate_bytes(joinsplit_sig, 64)
 
         if utils.le2i(version) not in [1, 2]:
             raise ValueError('Version must be 1 or 2. '
@@ -88,10 +89,11 @@ class SproutTx(z.ZcashByteData):
 
         if version == utils.i2le_padded(2, 4):
             self += shared.VarInt(len(tx_joinsplits))
-            for tx_joinsplit in tx_joinsplits:
-                self += tx_joinsplit
-            self += cast(bytes, joinsplit_pubkey)
-            self += cast(bytes, joinsplit_sig)
+            if len(tx_joinsplits) != 0:
+                for tx_joinsplit in tx_joinsplits:
+                    self += tx_joinsplit
+                self += cast(bytes, joinsplit_pubkey)
+                self += cast(bytes, joinsplit_sig)
 
         self.version = version
         self.tx_ins = tuple(tx_in for tx_in in tx_ins)
@@ -99,7 +101,7 @@ class SproutTx(z.ZcashByteData):
         self.tx_joinsplits = tuple(js for js in tx_joinsplits)
         self.lock_time = lock_time
 
-        if version == utils.i2le_padded(2, 4):
+        if len(self.tx_joinsplits) != 0:
             self.joinsplit_pubkey = joinsplit_pubkey
             self.joinsplit_sig = joinsplit_sig
             # Zcash spec 5.4.1.4 Hsig hash function
@@ -180,11 +182,10 @@ class SproutTx(z.ZcashByteData):
         lock_time = byte_string[current:current + 4]
         current += 4
 
-        tx_joinsplits = None
+        tx_joinsplits = []
         joinsplit_pubkey = None
         joinsplit_sig = None
         if utils.le2i(version) == 2:  # If we expect joinsplits
-            tx_joinsplits = []
             tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
             current += len(tx_joinsplits_num)
 
@@ -192,9 +193,10 @@ class SproutTx(z.ZcashByteData):
                 joinsplit = z.SproutJoinsplit.from_bytes(byte_string[current:])
                 current += len(joinsplit)
                 tx_joinsplits.append(joinsplit)
-            joinsplit_pubkey = byte_string[current:current + 32]
-            current += 32
-            joinsplit_sig = byte_string[current:current + 64]
+            if len(tx_joinsplits) != 0:
+                joinsplit_pubkey = byte_string[current:current + 32]
+                current += 32
+                joinsplit_sig = byte_string[current:current + 64]
 
         ret = SproutTx(
             version=version,
-- 
2.43.0


From aa17a05e991cf97f8c4dba78ca6ff75e8c7a3e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 09/34] fix: Sprout signs SINGLE and ANYONECANPAY without
 joinsplits, with index+1 outputs

---
 riemann/tx/sprout.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index b90f788..7499153 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -301,7 +301,7 @@ class SproutTx(z.ZcashByteData):
         https://github.com/petertodd/python-bitcoinlib/blob/051ec4e28c1f6404fd46713c2810d4ebbed38de4/bitcoin/core/script.py#L913-L965
         '''
 
-        if self.tx_joinsplits is not None:
+        if len(self.tx_joinsplits) != 0:
             raise ValueError('Sighash single not permitted with joinsplits.')
 
         if index >= len(self.tx_outs):
@@ -314,7 +314,7 @@ class SproutTx(z.ZcashByteData):
         # Other tx_outs are set to -1 value and null scripts
         copy_tx_outs = copy_tx.tx_outs[:index + 1]
         copy_tx_outs = [TxOut(value=b'\xff' * 8, output_script=b'')
-                        for _ in copy_tx.tx_ins]  # Null them all
+                        for _ in copy_tx_outs]  # Null them all
         copy_tx_outs[index] = copy_tx.tx_outs[index]  # Fix the current one
 
         # Other tx_ins sequence numbers are set to 0
@@ -345,7 +345,7 @@ class SproutTx(z.ZcashByteData):
         https://en.bitcoin.it/wiki/OP_CHECKSIG#Procedure_for_Hashtype_SIGHASH_ANYONECANPAY
         '''
 
-        if self.tx_joinsplits is not None:
+        if len(self.tx_joinsplits) != 0:
             raise ValueError(
                 'Sighash anyonecanpay not permitted with joinsplits.')
 
-- 
2.43.0


From 43074c217a8390c60b0ba1d88daa065d44cba2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 10/34] fix: joinsplits validate their values before using them

---
 riemann/tx/sapling.py      | 4 ++--
 riemann/tx/zcash_shared.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index ced59d8..055111f 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -185,11 +185,11 @@ class SaplingJoinsplit(z.ZcashByteData):
                 'Expected instance of SaplingZkproof. Got {}'
                 .format(type(zkproof).__name__))
 
+        self.validate_bytes(vpub_old, 8)
+        self.validate_bytes(vpub_new, 8)
         if (utils.le2i(vpub_old) != 0 and utils.le2i(vpub_new) != 0):
             raise ValueError('vpub_old or vpub_new must be zero')
 
-        self.validate_bytes(vpub_old, 8)
-        self.validate_bytes(vpub_new, 8)
         self.validate_bytes(anchor, 32)
         self.validate_bytes(nullifiers, 64)
         self.validate_bytes(commitments, 64)
diff --git a/riemann/tx/zcash_shared.py b/riemann/tx/zcash_shared.py
index 74afb10..c1b6ab7 100644
--- a/riemann/tx/zcash_shared.py
+++ b/riemann/tx/zcash_shared.py
@@ -107,11 +107,11 @@ class SproutJoinsplit(ZcashByteData):
                 'Invalid zkproof. '
                 'Expected instance of SproutZkproof. Got {}'
                 .format(type(zkproof).__name__))
+        self.validate_bytes(vpub_old, 8)
+        self.validate_bytes(vpub_new, 8)
         if (utils.le2i(vpub_old) != 0 and utils.le2i(vpub_new) != 0):
             raise ValueError('vpub_old or vpub_new must be zero')
 
-        self.validate_bytes(vpub_old, 8)
-        self.validate_bytes(vpub_new, 8)
         self.validate_bytes(anchor, 32)
         self.validate_bytes(nullifiers, 64)
         self.validate_bytes(commitments, 64)
-- 
2.43.0


From f80d9b62ac807a14c911db367a89b9ba1536f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 11/34] fix: parsing steps over the joinsplit count it read

---
 riemann/tx/overwinter.py | 2 +-
 riemann/tx/sapling.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 5b730f5..e890a10 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -244,7 +244,7 @@ class OverwinterTx(z.ZcashByteData):
         else:
             tx_joinsplits = []
             tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-            current += len(tx_outs_num)
+            current += len(tx_joinsplits_num)
             for _ in range(tx_joinsplits_num.number):
                 tx_joinsplit = z.SproutJoinsplit.from_bytes(
                     byte_string[current:])
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index 055111f..ccced01 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -561,7 +561,7 @@ class SaplingTx(z.ZcashByteData):
 
         tx_joinsplits = []
         tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-        current += len(tx_outs_num)
+        current += len(tx_joinsplits_num)
         for _ in range(tx_joinsplits_num.number):
             tx_joinsplit = SaplingJoinsplit.from_bytes(
                 byte_string[current:])
-- 
2.43.0


From 60093538d1d5dd684d3cd50146d7738f8cc402e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 12/34] fix: legacy SIGHASH_SINGLE signs index+1 outputs

---
 riemann/tx/tx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index f16c5ef..ed281ae 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -937,7 +937,7 @@ class Tx(ByteData):
         # Other tx_outs are set to -1 value and null scripts
         copy_tx_outs = list(copy_tx.tx_outs[:index + 1])
         copy_tx_outs = [TxOut(value=b'\xff' * 8, output_script=b'')
-                        for _ in copy_tx.tx_ins]  # Null them all
+                        for _ in copy_tx_outs]  # Null them all
         copy_tx_outs[index] = copy_tx.tx_outs[index]  # Fix the current one
 
         # Other tx_ins sequence numbers are set to 0
-- 
2.43.0


From 73ea562e2380216efbee836a5dc98626c9d1612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 13/34] fix: Decred SIGHASH_SINGLE signs index+1 outputs, with
 their versions

---
 riemann/tx/decred.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 1d12cff..54a4a72 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -370,9 +370,9 @@ class DecredTx(DecredByteData):
             copy_tx_outs = copy_tx.tx_outs[:index + 1]
             copy_tx_outs = [DecredTxOut(
                             value=b'\xff' * 8,
-                            version=b'\x00\x00',
+                            version=tx_out.version,
                             output_script=b'')
-                            for _ in copy_tx.tx_ins]
+                            for tx_out in copy_tx_outs]
             copy_tx_outs[index] = copy_tx.tx_outs[index]
         except IndexError:
             raise NotImplementedError(
-- 
2.43.0


From 054c1b4657622690ee911bd9e606185abee11b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 14/34] fix: Decred ANYONECANPAY signs only the one input

---
 riemann/tx/decred.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 54a4a72..30680fc 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -419,11 +419,10 @@ class DecredTx(DecredByteData):
                                 index: int,
                                 copy_tx: 'DecredTx',
                                 sighash_type: int) -> bytes:
-        copy_tx_witnesses = [
-            w.copy(stack_script=b'', redeem_script=b'')
-            for w in copy_tx.tx_witnesses]
-        copy_tx_witnesses[index] = copy_tx.tx_witnesses[index]
-        copy_tx = copy_tx.copy(tx_witnesses=copy_tx_witnesses)
+        # Only the input being signed is left
+        copy_tx = copy_tx.copy(
+            tx_ins=[copy_tx.tx_ins[index]],
+            tx_witnesses=[copy_tx.tx_witnesses[index]])
 
         return self._sighash_final_hashing(
             index=index,
-- 
2.43.0


From 231e2a3ab8fbed6bd8c5643bc1876b18a37012a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 15/34] fix: Overwinter and Sapling per-type sighashes pass
 ANYONECANPAY on; SINGLE needs its output

---
 riemann/tx/overwinter.py | 5 +++--
 riemann/tx/sapling.py    | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index e890a10..ef1d479 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -270,7 +270,8 @@ class OverwinterTx(z.ZcashByteData):
         return False
 
     def sighash_all(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_ALL, **kwargs)
+        return self.sighash(sighash_type=shared.SIGHASH_ALL,
+                            anyone_can_pay=anyone_can_pay, **kwargs)
 
     def sighash_single(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
         return self.sighash(sighash_type=shared.SIGHASH_SINGLE, **kwargs)
@@ -354,7 +355,7 @@ class OverwinterTx(z.ZcashByteData):
                 data += tx_out
 
         if sighash_type == shared.SIGHASH_SINGLE:
-            if index > len(self.tx_outs):
+            if index >= len(self.tx_outs):
                 raise NotImplementedError(
                     'I refuse to implement the SIGHASH_SINGLE bug.')
             data += self.tx_outs[index]
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index ccced01..77ba08d 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -605,10 +605,12 @@ class SaplingTx(z.ZcashByteData):
         return False
 
     def sighash_all(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_ALL, **kwargs)
+        return self.sighash(sighash_type=shared.SIGHASH_ALL,
+                            anyone_can_pay=anyone_can_pay, **kwargs)
 
     def sighash_single(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_SINGLE, **kwargs)
+        return self.sighash(sighash_type=shared.SIGHASH_SINGLE,
+                            anyone_can_pay=anyone_can_pay, **kwargs)
 
     def sighash(self,
                 sighash_type: int,
@@ -692,7 +694,7 @@ class SaplingTx(z.ZcashByteData):
                 data += tx_out
 
         if sighash_type == shared.SIGHASH_SINGLE:
-            if index > len(self.tx_outs):
+            if index >= len(self.tx_outs):
                 raise NotImplementedError(
                     'I refuse to implement the SIGHASH_SINGLE bug.')
             data += self.tx_outs[index]
-- 
2.43.0


From b3439a8314d90ebaed8e26df52ada446f4d6027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 16/34] fix: a missing Sapling binding signature is a
 ValueError

---
 riemann/tx/sapling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index 77ba08d..1d27fa3 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -288,7 +288,8 @@ class SaplingTx(z.ZcashByteData):
             raise ValueError('If no shielded inputs or outputs, value balance '
                              'must be 8 0-bytes. Got {}'
                              .format(value_balance.hex()))
-        elif binding_sig is not None:
+        elif (len(tx_shielded_spends) + len(tx_shielded_outputs) != 0
+                or binding_sig is not None):
             self.validate_bytes(binding_sig, 64)
 
         for tx_in in tx_ins:
-- 
2.43.0


From fe410190ad79a9f0b551d0c35d91fae58d75aa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 17/34] fix: parsing a Sprout transaction refuses a missing
 joinsplit signature

---
 riemann/tx/sprout.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 7499153..c4e7b56 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -197,6 +197,8 @@ class SproutTx(z.ZcashByteData):
                 joinsplit_pubkey = byte_string[current:current + 32]
                 current += 32
                 joinsplit_sig = byte_string[current:current + 64]
+                if len(joinsplit_sig) != 64:
+                    raise ValueError('Joinsplit signature is cut off.')
 
         ret = SproutTx(
             version=version,
-- 
2.43.0


From 4c074d8020b82893a12646e7f17f3d761db21eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 18/34] fix: cash address decoding checks prefix, charset and
 padding, and keeps every byte

---
 riemann/encoding/cashaddr.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/cashaddr.py b/riemann/encoding/cashaddr.py
index 59b75f9..13ffbcc 100644
--- a/riemann/encoding/cashaddr.py
+++ b/riemann/encoding/cashaddr.py
@@ -55,12 +55,20 @@ def decode(data: str) -> bytes:
 
     # the data is everything after the colon
     prefix, data = data.split(':')
+    if prefix != riemann.network.CASHADDR_PREFIX:
+        raise ValueError('Malformed cashaddr. Expected prefix: {}. Got: {}'
+                         .format(riemann.network.CASHADDR_PREFIX, prefix))
     decoded = b32decode(data)
+    if -1 in decoded or len(decoded) < 8:
+        raise ValueError('Malformed cashaddr. Bad payload: {}'.format(data))
     if not verify_checksum(prefix, decoded):
         raise ValueError('Bad cash address checksum')
-    converted = convertbits(decoded, 5, 8)
+    # remove the checksum from the end
+    converted = convertbits(decoded[:-8], 5, 8, False)
+    if converted is None:
+        raise ValueError('Bad cash address padding')
 
-    return bytes(converted[:-6])  # remove the checksum from the end
+    return bytes(converted)
 
 
 def polymod(values):
-- 
2.43.0


From c7c509ae255d8c7564e062640dac1ef14335213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:19 +0000
Subject: [PATCH 19/34] fix: only P2PKH, P2SH and supported witness output
 scripts have an address

---
 riemann/encoding/addresses.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 94783fb..f7e967c 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -316,6 +316,7 @@ def from_output_script(output_script: bytes, cashaddr: bool = True) -> str:
     '''
     try:
         if (len(output_script) == len(riemann.network.P2WSH_PREFIX) + 32
+                and riemann.network.SEGWIT
                 and output_script.find(riemann.network.P2WSH_PREFIX) == 0):
             # Script hash is the last 32 bytes
             return _hash_to_sh_address(
@@ -324,6 +325,7 @@ def from_output_script(output_script: bytes, cashaddr: bool = True) -> str:
         pass
     try:
         if (len(output_script) == len(riemann.network.P2WPKH_PREFIX) + 20
+                and riemann.network.SEGWIT
                 and output_script.find(riemann.network.P2WPKH_PREFIX) == 0):
             # PKH is the last 20 bytes
             return _make_pkh_address(
@@ -331,11 +333,15 @@ def from_output_script(output_script: bytes, cashaddr: bool = True) -> str:
     except TypeError:
         pass
 
-    if len(output_script) == 25 and output_script.find(b'\x76\xa9\x14') == 0:
+    if (len(output_script) == 25
+            and output_script.find(b'\x76\xa9\x14') == 0
+            and output_script[23:] == b'\x88\xac'):
         return _make_pkh_address(
             output_script[3:23], witness=False, cashaddr=cashaddr)
 
-    elif len(output_script) == 23 and output_script.find(b'\xa9\x14') == 0:
+    elif (len(output_script) == 23
+            and output_script.find(b'\xa9\x14') == 0
+            and output_script[22:] == b'\x87'):
         return _hash_to_sh_address(
             output_script[2:22], witness=False, cashaddr=cashaddr)
 
-- 
2.43.0


From f4bbe68d7279f1a814cc7ebeab604c17329e807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:19 +0000
Subject: [PATCH 20/34] fix: witness addresses are refused on cash address
 networks

---
 riemann/encoding/addresses.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index f7e967c..e255732 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -19,6 +19,10 @@ def _hash_to_sh_address(
     Returns:
         The encoded address
     '''
+    if witness and not riemann.network.SEGWIT:
+        raise ValueError(
+            'Network {} does not support witness addresses.'
+            .format(riemann.get_current_network_name()))
     addr_bytes = bytearray()
     if riemann.network.CASHADDR_P2SH is not None and cashaddr:
         addr_bytes.extend(riemann.network.CASHADDR_P2SH)
@@ -141,6 +145,10 @@ def _make_pkh_address(
     Returns:
         The encoded address
     '''
+    if witness and not riemann.network.SEGWIT:
+        raise ValueError(
+            'Network {} does not support witness addresses.'
+            .format(riemann.get_current_network_name()))
     addr_bytes = bytearray()
     if riemann.network.CASHADDR_P2PKH is not None and cashaddr:
         addr_bytes.extend(riemann.network.CASHADDR_P2PKH)
-- 
2.43.0


From 6e9317b5219a2411e29bb71b566c7c14efc21d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:32 +0000
Subject: [PATCH 21/34] fix: an address is read by the rules of the encoding it
 is in

---
 riemann/encoding/addresses.py | 40 ++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index e255732..8e2bedc 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -2,6 +2,8 @@ import riemann
 from riemann import utils
 from riemann.script import serialization as script_ser
 
+from typing import Any, Tuple
+
 
 def _hash_to_sh_address(
         script_hash: bytes,
@@ -231,18 +233,28 @@ def parse(address: str) -> bytes:
     Returns:
         The raw bytestring encoded by the address
     '''
+    return _parse(address)[1]
+
+
+def _parse(address: str) -> Tuple[Any, bytearray]:
+    '''
+    Decode an address to the encoder that reads it and its raw bytes
+    '''
+    encoder = riemann.network.LEGACY_ENCODER
     try:
-        return bytearray(riemann.network.LEGACY_ENCODER.decode(address))
+        return encoder, bytearray(encoder.decode(address))
     except ValueError:
         pass
 
+    encoder = riemann.network.SEGWIT_ENCODER
     try:
-        return bytearray(riemann.network.SEGWIT_ENCODER.decode(address))
+        return encoder, bytearray(encoder.decode(address))
     except Exception:
         pass
 
+    encoder = riemann.network.CASHADDR_ENCODER
     try:
-        return bytearray(riemann.network.CASHADDR_ENCODER.decode(address))
+        return encoder, bytearray(encoder.decode(address))
     except Exception:
         pass
 
@@ -260,48 +272,52 @@ def to_output_script(address: str) -> bytes:
         The output script that corresponds to the address, suitable for
         inclusion in a TxOut
     '''
-    parsed = parse(address)
+    encoder, parsed = _parse(address)
     parsed_hash = b''
+    segwit = (riemann.network.SEGWIT
+              and encoder is riemann.network.SEGWIT_ENCODER)
+    legacy = encoder is riemann.network.LEGACY_ENCODER
+    cash = encoder is riemann.network.CASHADDR_ENCODER
 
     try:
-        if (parsed.find(riemann.network.P2WPKH_PREFIX) == 0
+        if (segwit and parsed.find(riemann.network.P2WPKH_PREFIX) == 0
                 and len(parsed) == 22):
             return parsed
     except TypeError:
         pass
 
     try:
-        if (parsed.find(riemann.network.P2WSH_PREFIX) == 0
+        if (segwit and parsed.find(riemann.network.P2WSH_PREFIX) == 0
                 and len(parsed) == 34):
             return parsed
     except TypeError:
         pass
 
     try:
-        if (parsed.find(riemann.network.CASHADDR_P2SH) == 0
+        if (cash and parsed.find(riemann.network.CASHADDR_P2SH) == 0
                 and len(parsed) == len(riemann.network.CASHADDR_P2SH) + 20):
             prefix = b'\xa9\x14'  # OP_HASH160 PUSH14
-            parsed_hash = parsed[len(riemann.network.P2SH_PREFIX):]
+            parsed_hash = parsed[len(riemann.network.CASHADDR_P2SH):]
             suffix = b'\x87'  # OP_EQUAL
     except TypeError:
         pass
 
     try:
-        if (parsed.find(riemann.network.CASHADDR_P2PKH) == 0
+        if (cash and parsed.find(riemann.network.CASHADDR_P2PKH) == 0
                 and len(parsed) == len(riemann.network.CASHADDR_P2PKH) + 20):
             prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
-            parsed_hash = parsed[len(riemann.network.P2PKH_PREFIX):]
+            parsed_hash = parsed[len(riemann.network.CASHADDR_P2PKH):]
             suffix = b'\x88\xac'  # OP_EQUALVERIFY OP_CHECKSIG
     except TypeError:
         pass
 
-    if (parsed.find(riemann.network.P2PKH_PREFIX) == 0
+    if (legacy and parsed.find(riemann.network.P2PKH_PREFIX) == 0
             and len(parsed) == len(riemann.network.P2PKH_PREFIX) + 20):
         prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
         parsed_hash = parsed[len(riemann.network.P2PKH_PREFIX):]
         suffix = b'\x88\xac'  # OP_EQUALVERIFY OP_CHECKSIG
 
-    if (parsed.find(riemann.network.P2SH_PREFIX) == 0
+    if (legacy and parsed.find(riemann.network.P2SH_PREFIX) == 0
             and len(parsed) == len(riemann.network.P2SH_PREFIX) + 20):
         prefix = b'\xa9\x14'  # OP_HASH160 PUSH14
         parsed_hash = parsed[len(riemann.network.P2SH_PREFIX):]
-- 
2.43.0


From 3c743b31b97edd793f688289d2cc597448d6ad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 22/34] fix: parse_hash extracts the hash of every address
 form, whatever its case or prefix

---
 riemann/encoding/addresses.py | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 8e2bedc..03fdcbc 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -381,32 +381,15 @@ def parse_hash(address: str) -> bytes:
     Returns:
         The 20 or 32 byte hash represented by the address
     '''
-    raw = parse(address)
+    script = to_output_script(address)
 
-    # Cash addresses
-    try:
-        if address.find(riemann.network.CASHADDR_PREFIX) == 0:
-            if raw.find(riemann.network.CASHADDR_P2SH) == 0:
-                return raw[len(riemann.network.CASHADDR_P2SH):]
-            if raw.find(riemann.network.CASHADDR_P2PKH) == 0:
-                return raw[len(riemann.network.CASHADDR_P2PKH):]
-    except TypeError:
-        pass
-
-    # Segwit addresses
-    try:
-        if address.find(riemann.network.BECH32_HRP) == 0:
-            if raw.find(riemann.network.P2WSH_PREFIX) == 0:
-                return raw[len(riemann.network.P2WSH_PREFIX):]
-            if raw.find(riemann.network.P2WPKH_PREFIX) == 0:
-                return raw[len(riemann.network.P2WPKH_PREFIX):]
-    except TypeError:
-        pass
+    # P2PKH
+    if len(script) == 25:
+        return script[3:23]
 
-    # Legacy Addresses
-    if raw.find(riemann.network.P2SH_PREFIX) == 0:
-        return raw[len(riemann.network.P2SH_PREFIX):]
-    if raw.find(riemann.network.P2PKH_PREFIX) == 0:
-        return raw[len(riemann.network.P2PKH_PREFIX):]
+    # P2SH
+    if len(script) == 23:
+        return script[2:22]
 
-    raise ValueError('Could not parse hash, unknown error')
+    # P2WPKH and P2WSH
+    return script[2:]
-- 
2.43.0


From 65304f7e0756caa9f243a3063ccb04ec6ed119e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 23/34] fix: output builders work on Decred, with script
 version 0

---
 riemann/tx/tx_builder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 77b34b6..0c9e12e 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -3,7 +3,7 @@ from riemann import utils
 from riemann.script import serialization
 from riemann.tx import tx, decred, overwinter, sapling, sprout, zcash_shared
 
-from typing import cast, List, Optional, overload
+from typing import List, Optional, overload
 
 
 def make_sh_script_pubkey(script_bytes: bytes, witness: bool = False) -> bytes:
@@ -160,15 +160,16 @@ def _make_output(  # noqa: F811
     Args:
         value: The 8-byte LE-encoded integer value of the output.
         output_script: The non-length-prepended output script.
-        version: Only in Decred transactions, the output version.
+        version: Only in Decred transactions, the 2-byte LE output version.
+                 Default 0.
 
     Returns:
-        The TxOut object. A DecredTxOut if version was passed in.
+        The TxOut object. If network is set to Decred, a DecredTxOut
     '''
     if 'decred' in riemann.get_current_network_name():
         return decred.DecredTxOut(
             value=value,
-            version=cast(int, version),
+            version=b'\x00\x00' if version is None else version,
             output_script=output_script)
     return tx.TxOut(value=value, output_script=output_script)
 
-- 
2.43.0


From effc4e00bc9479a8640c34c22ccd7a7a51db5017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 24/34] fix: make_sh_script_pubkey refuses witness scripts
 without segwit

---
 riemann/tx/tx_builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 0c9e12e..ef1ada9 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -17,6 +17,11 @@ def make_sh_script_pubkey(script_bytes: bytes, witness: bool = False) -> bytes:
     Returns:
         The script pubkey containing the hash of the serialized script.
     '''
+    if witness and not riemann.network.SEGWIT:
+        raise ValueError(
+            'Network {} does not support witness scripts.'
+            .format(riemann.get_current_network_name()))
+
     output_script = bytearray()
     if witness:
         script_hash = utils.sha256(script_bytes)
-- 
2.43.0


From 3d93c61a3f6f171a2393ac27c49f5c7ec6a9cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 25/34] fix: make_tx keeps the list of Decred witnesses

---
 riemann/tx/tx_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index ef1ada9..5b5624a 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -583,7 +583,7 @@ def make_tx(  # noqa: F811
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry=utils.i2le_padded(expiry, 4),
-            tx_witnesses=[tx_witnesses])
+            tx_witnesses=tx_witnesses if tx_witnesses is not None else [])
     if 'sprout' in n and tx_joinsplits is not None:
         return sprout.SproutTx(
             version=version,
-- 
2.43.0


From 9afe9fd224ffd17ce5bcbf499bee14d734621bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 26/34] fix: make_tx encodes the version of Sprout transactions

---
 riemann/tx/tx_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 5b5624a..a56ea66 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -586,7 +586,7 @@ def make_tx(  # noqa: F811
             tx_witnesses=tx_witnesses if tx_witnesses is not None else [])
     if 'sprout' in n and tx_joinsplits is not None:
         return sprout.SproutTx(
-            version=version,
+            version=utils.i2le_padded(version, 4),
             tx_ins=tx_ins,
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
-- 
2.43.0


From 6d81e28c9281408756d1c2a04da0fd566acb890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 27/34] fix: make_tx builds Sapling transactions without
 shielded parts or with a negative value balance

---
 riemann/tx/tx_builder.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index a56ea66..4830df0 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -558,7 +558,7 @@ def make_tx(  # noqa: F811
         tx_outs: A list of TxOut objects.
         lock_time: The 4-byte LE-encoded lock_time number.
         expiry: Decred, Overwinter, and Sapling only. 4-byte LE expiry number.
-        value_balance: Sapling only. An 8-byte LE number representing the net
+        value_balance: Sapling only. A signed 8-byte LE number representing the net
                        change in shielded pool size as a result of this
                        transaction.
         tx_shielded_spends: Sapling only. An array of SaplingShieldedSpend.
@@ -608,10 +608,12 @@ def make_tx(  # noqa: F811
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry_height=utils.i2le_padded(expiry, 4),
-            value_balance=utils.i2le_padded(value_balance, 8),
-            tx_shielded_spends=tx_shielded_spends,
-            tx_shielded_outputs=tx_shielded_outputs,
-            tx_joinsplits=tx_joinsplits,
+            value_balance=value_balance.to_bytes(8, 'little', signed=True),
+            tx_shielded_spends=(tx_shielded_spends
+                                if tx_shielded_spends is not None else []),
+            tx_shielded_outputs=(tx_shielded_outputs
+                                 if tx_shielded_outputs is not None else []),
+            tx_joinsplits=tx_joinsplits if tx_joinsplits is not None else [],
             joinsplit_pubkey=joinsplit_pubkey,
             joinsplit_sig=joinsplit_sig,
             binding_sig=binding_sig)
-- 
2.43.0


From 365c5753c0be7164579a54611b3cd0bd88968b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:40 +0000
Subject: [PATCH 28/34] fix: is_push_only looks at the opcodes of the script

---
 riemann/networks/standard.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index a88034d..564f423 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -52,10 +52,11 @@ def is_push_only(script_sig: bytes) -> bool:
     Returns:
         (bool): True if Push Only, otherwise False
     '''
-    script = ser.deserialize(script_sig)
+    script = ser.deserialize(script_sig).split()
     non_data_opcodes = [t for t in script if t[0:3] == 'OP_']
     for token in non_data_opcodes:
-        integer_opcode = opcodes.CODE_TO_INT[token]
+        # opcodes only some networks have are no pushes
+        integer_opcode = opcodes.CODE_TO_INT.get(token, 0xff)
         if (integer_opcode in [79, 80]
                 or integer_opcode >= 97):
             return False
-- 
2.43.0


From 38427a70b182174d8ec9bcc69951a601ad9d9aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:40 +0000
Subject: [PATCH 29/34] fix: is_standard_output_type decides pay-to-pubkey,
 multisig and undecodable scripts

---
 riemann/networks/standard.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 564f423..4e86996 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -107,6 +107,12 @@ def is_op_return(o: tx.TxOut) -> bool:
     return False
 
 
+def _is_pubkey(token: str) -> bool:
+    '''Whether a token of a human-readable script is a key-sized push'''
+    return (token[0:3] != 'OP_'
+            and len(bytes.fromhex(token)) in [33, 65])
+
+
 def is_standard_output_type(o: tx.TxOut) -> bool:
     '''
     Checks standardness of an output based on its value and output script
@@ -125,18 +131,23 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     except ValueError:
         pass
 
-    script: str = ser.deserialize(o.output_script)
+    try:
+        script: str = ser.deserialize(o.output_script)
+    except (NotImplementedError, ValueError, IndexError):
+        return False
     split_script = script.split()
 
     # TX_PUBKEY
-    if (split_script[-1] == 'OP_CHECKSIG'
-            and len(split_script) == 2
-            and len(bytes.fromhex(split_script[1])) in [33, 65]):
+    if (len(split_script) == 2
+            and split_script[-1] == 'OP_CHECKSIG'
+            and _is_pubkey(split_script[0])):
         return True
 
     # TX_MULTISIG, up to x-of-3
-    if (split_script[-1] == 'OP_CHECKMULTISIG'
-            and split_script[-2] in ['OP_1', 'OP_2', 'OP_3']):
+    if (len(split_script) > 3
+            and split_script[-1] == 'OP_CHECKMULTISIG'
+            and split_script[-2] in ['OP_1', 'OP_2', 'OP_3']
+            and split_script[0] in ['OP_1', 'OP_2', 'OP_3']):
 
         num_pubkeys = int(split_script[-2][-1])
         num_sigs = int(split_script[0][-1])
@@ -144,10 +155,7 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
         if (num_sigs > num_pubkeys  # 3-of-2, or 16-of-3, or something
                 or len(split_script) != num_pubkeys + 3):  # some junk script
             return False
-        for pubkey in split_script[1:-2]:
-            if len(bytes.fromhex(pubkey)) not in [33, 65]:
-                return False
-        return True
+        return all(_is_pubkey(pubkey) for pubkey in split_script[1:-2])
 
     # TX_NONSTANDARD/TX_WITNESS_UNKNOWN
     return False
-- 
2.43.0


From 69a877771ed68669719d7b8571f7218589a789a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:40 +0000
Subject: [PATCH 30/34] fix: transactions with two outputs or one OP_RETURN
 output are standard

---
 riemann/networks/standard.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 4e86996..9a96e30 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -72,6 +72,10 @@ def check_is_standard(t: tx.Tx) -> bool:
         (bool): True for standard, false for non-standard
     '''
     for o in t.tx_outs:
+        # TX_NULL_DATA outputs have no type and no value
+        if is_op_return(o):
+            continue
+
         # 'scriptpubkey'
         if not is_standard_output_type(o):
             return False
@@ -82,7 +86,7 @@ def check_is_standard(t: tx.Tx) -> bool:
             return False
 
     # 'multi-op-return'
-    if len([is_op_return(o) for o in t.tx_outs]) > 1:
+    if len([o for o in t.tx_outs if is_op_return(o)]) > 1:
         return False
 
     return True
@@ -96,13 +100,16 @@ def is_op_return(o: tx.TxOut) -> bool:
     Returns:
         (bool): True if standard opreturn, otherwise false
     '''
-    script: str = ser.deserialize(o.output_script)
+    try:
+        script: str = ser.deserialize(o.output_script)
+    except (NotImplementedError, ValueError, IndexError):
+        return False
     split_script = script.split()
 
     # TX_NULL_DATA, up to 83 bytes (80 for safety)
     if (rutils.le2i(o.value) == 0
-            and split_script[0] == 'OP_RETURN'
-            and len(script) < 80):
+            and split_script[0:1] == ['OP_RETURN']
+            and len(o.output_script) <= 80):
         return True
     return False
 
-- 
2.43.0


From ca2300a86e53f843c5216d40c1586258bd3adbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:40 +0000
Subject: [PATCH 31/34] fix: check_is_standard_tx looks at the whole version

---
 riemann/networks/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 9a96e30..2a7f295 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -17,7 +17,7 @@ def check_is_standard_tx(t: tx.Tx) -> bool:
         (bool): True for standard, false for non-standard
     '''
     # 'version'
-    if t.version[0] not in [1, 2]:
+    if rutils.le2i(t.version) not in [1, 2]:
         return False
 
     # 'tx-size'
-- 
2.43.0


From 6d16619fb8e5fde2ad2818051b0ea202cb437471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:40 +0000
Subject: [PATCH 32/34] fix: BLAKE hashes all bytes of non-ASCII text

---
 riemann/blake256.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/blake256.py b/riemann/blake256.py
index 044e9c5..c93ce6e 100644
--- a/riemann/blake256.py
+++ b/riemann/blake256.py
@@ -370,9 +370,6 @@ class BLAKE(object):
         BLKBYTES = self.BLKBYTES   # de-referenced for improved readability
         BLKBITS  = self.BLKBITS
 
-        datalen = len(data)
-        if not datalen:  return
-
         if type(data) == type(u''):
 
             # use either of the next two lines for a proper
@@ -390,6 +387,9 @@ class BLAKE(object):
             # that does nothing would at least allow
             # compatibility between Python2 and Python3.
 
+        datalen = len(data)
+        if not datalen:  return
+
         left = len(self.cache)
         fill = BLKBYTES - left
 
-- 
2.43.0


From e0ed96162f6133705616cc9d46128c79d0742d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:40 +0000
Subject: [PATCH 33/34] fix: BLAKE takes salts shorter than the salt size

---
 riemann/blake256.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/blake256.py b/riemann/blake256.py
index c93ce6e..5c08235 100644
--- a/riemann/blake256.py
+++ b/riemann/blake256.py
@@ -347,7 +347,7 @@ class BLAKE(object):
         # if too short, prefix with null bytes.  if too long,
         # truncate high order bytes
         if len(salt) < saltsize:
-            salt = (chr(0)*(saltsize-len(salt)) + salt)
+            salt = (b'\x00'*(saltsize-len(salt)) + salt)
         else:
             salt = salt[-saltsize:]
         # prep the salt array
-- 
2.43.0


From e9916c4bcd0642b1144264f7d45e46977e30e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:40 +0000
Subject: [PATCH 34/34] fix: make_tx builds Sprout transactions when no
 joinsplits are given

---
 riemann/tx/tx_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 4830df0..be969df 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -584,7 +584,7 @@ def make_tx(  # noqa: F811
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry=utils.i2le_padded(expiry, 4),
             tx_witnesses=tx_witnesses if tx_witnesses is not None else [])
-    if 'sprout' in n and tx_joinsplits is not None:
+    if 'sprout' in n:
         return sprout.SproutTx(
             version=utils.i2le_padded(version, 4),
             tx_ins=tx_ins,
-- 
2.43.0

