From 7e233d21cf1fbd5ccfe755141788397f391e2847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 01/17] fix: witness v0 sighash must accept the whole uint32
 range of nLockTime

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index b94d905..4202173 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -183,7 +183,7 @@ def RawElementsSignatureHash(
     if not txTo.vin[inIdx].assetIssuance.is_null():
         txTo.vin[inIdx].assetIssuance.stream_serialize(f)
     f.write(hashOutputs)
-    f.write(struct.pack("<i", txTo.nLockTime))
+    f.write(struct.pack("<I", txTo.nLockTime))
     f.write(struct.pack("<i", hashtype))
 
     hash = Hash(f.getvalue())
-- 
2.43.0


From cb2e5a670f1ed27dc3d4f010fdfb71487d365c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 02/17] fix: witness v0 sighash must serialize a null amount as
 a zero byte

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 4202173..eedb501 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -178,7 +178,7 @@ def RawElementsSignatureHash(
     f.write(hashIssuance)
     txTo.vin[inIdx].prevout.stream_serialize(f)
     BytesSerializer.stream_serialize(script, f)
-    f.write(amount.commitment)
+    amount.stream_serialize(f)
     f.write(struct.pack("<I", txTo.vin[inIdx].nSequence))
     if not txTo.vin[inIdx].assetIssuance.is_null():
         txTo.vin[inIdx].assetIssuance.stream_serialize(f)
-- 
2.43.0


From ee9fbcc1c8ba80649acd7540fac6e058aceb9775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 03/17] fix: witness v0 sighash must reject a negative input
 index

The BASE and taproot variants already do; a negative index silently
signed for another input of the transaction.
---
 elementstx/core/script.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index eedb501..fae1423 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -136,6 +136,9 @@ def RawElementsSignatureHash(
         return RawBitcoinSignatureHash(script, txTo, inIdx, hashtype,
                                        amount=None, sigversion=sigversion)
 
+    if inIdx < 0:
+        raise ValueError('input index must not be negative')
+
     ensure_isinstance(amount, elementstx.core.CConfidentialValue, 'amount')
     assert isinstance(amount, elementstx.core.CConfidentialValue)
 
-- 
2.43.0


From e6894311ce37d39e53274b4f111a894bfbe47577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 04/17] fix: length-prefix scriptPubKey in taproot ANYONECANPAY
 sighash

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index fae1423..9b40d70 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -341,7 +341,7 @@ def ElementsSignatureHashSchnorr(
         f.write(txTo.vin[inIdx].prevout.serialize())
         f.write(spent_outputs[inIdx].nAsset.serialize())
         f.write(spent_outputs[inIdx].nValue.serialize())
-        f.write(spent_outputs[inIdx].scriptPubKey)
+        BytesSerializer.stream_serialize(spent_outputs[inIdx].scriptPubKey, f)
         f.write(struct.pack('<I', txTo.vin[inIdx].nSequence))
         if txTo.vin[inIdx].assetIssuance.is_null():
             f.write(b'\x00')
-- 
2.43.0


From e0c9c6e2121691aedf0b70f0b7b40869a394e9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 05/17] fix: length-prefix issuance rangeproofs in taproot
 ANYONECANPAY sighash

Without the prefixes, moving bytes between the two rangeproofs did not
change the signature hash.
---
 elementstx/core/script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 9b40d70..72bd630 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -351,8 +351,8 @@ def ElementsSignatureHashSchnorr(
             inwit = txTo.wit.vtxinwit[inIdx]
             f.write(
                 hashlib.sha256(
-                    inwit.issuanceAmountRangeproof
-                    + inwit.inflationKeysRangeproof
+                    BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
+                    + BytesSerializer.serialize(inwit.inflationKeysRangeproof)
                 ).digest()
             )
     else:
-- 
2.43.0


From 307159e77bf8115853ae017b6e85ea772f7482b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 06/17] fix: annex hash is committed to without length prefix
 in taproot sighash

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 72bd630..965d690 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -359,7 +359,7 @@ def ElementsSignatureHashSchnorr(
         f.write(struct.pack('<I', inIdx))
 
     if annex_hash is not None:
-        BytesSerializer.stream_serialize(annex_hash, f)
+        f.write(annex_hash)
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-- 
2.43.0


From 126e3cc0cd326730a6ceab77334da9da6a72ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 07/17] fix: off-by-one in output index check for
 SIGHASH_SINGLE taproot sighash

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 965d690..2a54b8f 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -363,7 +363,7 @@ def ElementsSignatureHashSchnorr(
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-        if outIdx > len(txTo.vout):
+        if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
         f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
-- 
2.43.0


From c205606f0753863b47b8999833850ae22e4bae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 08/17] fix: taproot sighash must treat absent witnesses as
 null witnesses

The hash could not be computed for a transaction without witness data,
or with fewer witness entries than inputs or outputs.
---
 elementstx/core/script.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 2a54b8f..24d0340 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -275,6 +275,18 @@ def ElementsSignatureHashSchnorr(
 
         return bytes([opf >> 24])
 
+    # Transaction without the witness, or with fewer witnesses than there
+    # are inputs or outputs, is the same as with null witnesses in their place
+    def get_inwit(idx: int) -> 'elementstx.core.CElementsTxInWitness':
+        if idx < len(txTo.wit.vtxinwit):
+            return txTo.wit.vtxinwit[idx]
+        return elementstx.core.CElementsTxInWitness()
+
+    def get_outwit(idx: int) -> 'elementstx.core.CElementsTxOutWitness':
+        if idx < len(txTo.wit.vtxoutwit):
+            return txTo.wit.vtxoutwit[idx]
+        return elementstx.core.CElementsTxOutWitness()
+
     if input_type != SIGHASH_ANYONECANPAY:
         outpoints_flag_hashobj = hashlib.sha256()
         assets_amounts_hashobj = hashlib.sha256()
@@ -298,7 +310,7 @@ def ElementsSignatureHashSchnorr(
             else:
                 issuances_hashobj.update(txin.assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inp_i]
+            inwit = get_inwit(inp_i)
             issuance_rangeproof_hashobj.update(
                 BytesSerializer.serialize(inwit.issuanceAmountRangeproof))
             issuance_rangeproof_hashobj.update(
@@ -324,7 +336,7 @@ def ElementsSignatureHashSchnorr(
         for outp_i, txout in enumerate(txTo.vout):
             outputs_hashobj.update(txout.serialize())
             output_witnesses_hashobj.update(
-                txTo.wit.vtxoutwit[outp_i].serialize())
+                get_outwit(outp_i).serialize())
 
         f.write(outputs_hashobj.digest())
         f.write(output_witnesses_hashobj.digest())
@@ -348,7 +360,7 @@ def ElementsSignatureHashSchnorr(
         else:
             f.write(txTo.vin[inIdx].assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inIdx]
+            inwit = get_inwit(inIdx)
             f.write(
                 hashlib.sha256(
                     BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
@@ -366,7 +378,7 @@ def ElementsSignatureHashSchnorr(
         if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
-        f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
+        f.write(hashlib.sha256(get_outwit(outIdx).serialize()).digest())
 
     if sigversion == SIGVERSION_TAPSCRIPT:
         if tapleaf_hash is None:
-- 
2.43.0


From 062e057b9ea5894d91697fa6fce584a8d2cc791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 09/17] fix: OP_DETERMINISTICRANDOM had the opcode of
 OP_CHECKSIGFROMSTACK

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 24d0340..e7ec472 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -43,7 +43,7 @@ import elementstx.core
 # to have CBitcoinScriptOp and CElementsScriptOp, but
 # this is too heavy for this small issue. These opcodes are useable as-is,
 # the only proble is that they will be shown as UNKNOWN for repr(script).
-OP_DETERMINISTICRANDOM = CScriptOp(0xc1)
+OP_DETERMINISTICRANDOM = CScriptOp(0xc0)
 OP_CHECKSIGFROMSTACK = CScriptOp(0xc1)
 OP_CHECKSIGFROMSTACKVERIFY = CScriptOp(0xc2)
 
-- 
2.43.0


From d27947aa20843c11b2ebf5b0d7b1e409fd28d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 10/17] fix: CElementsTxOutWitness must not keep a reference to
 supplied bytearray

---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d5b5d6f..0b7b052 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -551,8 +551,8 @@ class CElementsTxOutWitness(CTxOutWitness, CoreElementsClass):
                  rangeproof: Union[bytes, bytearray] = b''):
         ensure_isinstance(surjectionproof, (bytes, bytearray), 'surjectionproof')
         ensure_isinstance(rangeproof, (bytes, bytearray), 'rangeproof')
-        object.__setattr__(self, 'surjectionproof', surjectionproof)
-        object.__setattr__(self, 'rangeproof', rangeproof)
+        object.__setattr__(self, 'surjectionproof', bytes(surjectionproof))
+        object.__setattr__(self, 'rangeproof', bytes(rangeproof))
 
     @no_bool_use_as_property
     def is_null(self) -> bool:
-- 
2.43.0


From b2e833e482ca8b88e172b46637002c3b0ed2f5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 11/17] fix: reject transactions with unknown flags on
 deserialization

---
 elementstx/core/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 0b7b052..680aab7 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1101,6 +1101,8 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
                 raise ValueError('Superfluous witness record')
 
             return cls(vin, vout, nLockTime, nVersion, wit)
+        elif flagbyte != 0:
+            raise SerializationError('Unknown transaction optional data')
         else:
             vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
             vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
-- 
2.43.0


From 73a1d62176f29d027934d6dd25b20f900510b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 12/17] fix: always serialize one witness per input and per
 output

A transaction where only inputs or only outputs have witness data could
be serialized into data that cannot be deserialized.
---
 elementstx/core/__init__.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 680aab7..74c90df 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1115,15 +1115,23 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
                          **kwargs: Any) -> None:
         f.write(struct.pack(b"<i", self.nVersion))
         if include_witness and not self.wit.is_null():
-            assert len(self.wit.vtxinwit) == 0 or len(self.wit.vtxinwit) == len(self.vin)
-            assert len(self.wit.vtxoutwit) == 0 or len(self.wit.vtxoutwit) == len(self.vout)
+            assert len(self.wit.vtxinwit) <= len(self.vin)
+            assert len(self.wit.vtxoutwit) <= len(self.vout)
             f.write(b'\x01')  # Flag
             # no check of for_sighash, because standard sighash calls this without witnesses.
             VectorSerializer.stream_serialize(self.vin, f)
             VectorSerializer.stream_serialize(self.vout, f)
             # Note: nLockTime goes before witness in Elements transactions
             f.write(struct.pack(b"<I", self.nLockTime))
-            self.wit.stream_serialize(f)
+            # There is no count of witnesses in the serialized data, there
+            # must be exactly one for each input and one for each output.
+            # Absent witness is the same as null witness.
+            wit = CElementsTxWitness(
+                list(self.wit.vtxinwit) + [CElementsTxInWitness()] * (
+                    len(self.vin) - len(self.wit.vtxinwit)),
+                list(self.wit.vtxoutwit) + [CElementsTxOutWitness()] * (
+                    len(self.vout) - len(self.wit.vtxoutwit)))
+            wit.stream_serialize(f)
         else:
             if not for_sighash:
                 f.write(b'\x00')  # Flag is needed in Elements
-- 
2.43.0


From 14e78e27b0250946366bf18fef134a731bd9bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 13/17] fix: blinding must fail for reissuance with non-null
 nInflationKeys

The reissuance token was not assigned in this case: it was either the
token of some other input, or UnboundLocalError was raised.
---
 elementstx/core/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 74c90df..0c6f1b3 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1369,6 +1369,9 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 asset = calculate_asset(entropy)
                 token = calculate_reissuance_token(entropy, blind_issuance)
             else:
+                if not issuance.nInflationKeys.is_null():
+                    return BlindingFailure(
+                        'nInflationKeys is not null for reissuance')
                 asset = calculate_asset(issuance.assetEntropy)
 
             if not issuance.nAmount.is_null():
-- 
2.43.0


From efe59e25313bc6d70b8a6dcd607ece7758313b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 14/17] fix: unblinding must fail if asset is neither a
 commitment nor explicit

Rangeproof was rewound with uninitialized generator in this case.
---
 elementstx/core/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 0c6f1b3..bfa2bdd 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -2053,6 +2053,8 @@ def unblind_confidential_pair(*, blinding_key: CKeyBase,  # noqa
             assert res == 0
             return UnblindingFailure(
                 'unable to create a generator out of asset explicit data')
+    else:
+        return UnblindingFailure('asset is neither a commitment nor explicit')
 
     commit = ctypes.create_string_buffer(64)
     # Valid value commitment ?
-- 
2.43.0


From f03cfc21bc76ab7ea807d6453c59ad7f55afc98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 15/17] fix: do not count blinding attempt for input without
 issuance

When blinding key for issuance was supplied for an input that does not
have issuance, blinding factors were not balanced for the last output.
---
 elementstx/core/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index bfa2bdd..bff1a29 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1527,10 +1527,6 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 iss_valid = token_issuance_valid
 
             if iss_valid:
-                nBlindAttempts += 1
-
-                nIssuanceBlindAttempts += 1
-
                 issuance = tx.vin[nIn].assetIssuance
 
                 # First iteration does issuance asset, second inflation keys
@@ -1538,6 +1534,10 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 if explicitValue.is_null():
                     continue
 
+                nBlindAttempts += 1
+
+                nIssuanceBlindAttempts += 1
+
                 amount = explicitValue.to_amount()
 
                 amounts_to_blind.append(amount)
-- 
2.43.0


From 9a79e740b5a07cc3c1613912ce7fa159378778d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 16/17] fix: check return value of
 secp256k1_surjectionproof_serialize

---
 elementstx/core/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index bff1a29..d3e1c6f 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1979,8 +1979,13 @@ def generate_surjectionproof(surjectionTargets: List[Uint256],
             secp256k1.ctx.blind, proof)
         output_len = ctypes.c_size_t(expected_output_len)
         serialized_proof = ctypes.create_string_buffer(output_len.value)
-        secp256k1.lib.secp256k1_surjectionproof_serialize(
+        ret = secp256k1.lib.secp256k1_surjectionproof_serialize(
             secp256k1.ctx.blind, serialized_proof, ctypes.byref(output_len), proof)
+
+        if 1 != ret:
+            assert ret == 0
+            raise RuntimeError('secp256k1_surjectionproof_serialize returned failure')
+
         assert output_len.value == expected_output_len
     finally:
         secp256k1.lib.secp256k1_surjectionproof_destroy(proof)
-- 
2.43.0


From f641c8d5617f958c3bd7b6f7cb0b22f3c063b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 17/17] fix: convert accepted bytearray to bytes for secp256k1
 calls

ctypes does not accept bytearray for c_char_p arguments, while the
argument checks of blinding and unblinding functions allow it.
---
 elementstx/core/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d3e1c6f..fb78558 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1326,7 +1326,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 # Parse generator here
                 asset_generator = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
                 result = secp256k1.lib.secp256k1_generator_parse(
-                    secp256k1.ctx.blind, asset_generator, auxiliary_generators[i])
+                    secp256k1.ctx.blind, asset_generator, bytes(auxiliary_generators[i]))
                 if result != 1:
                     assert result == 0
                     return BlindingFailure(
@@ -1410,7 +1410,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
             gen_buf = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
             ret = secp256k1.lib.secp256k1_generator_parse(
                 secp256k1.ctx.blind,
-                gen_buf, auxiliary_generators[len(tx.vin)+n])
+                gen_buf, bytes(auxiliary_generators[len(tx.vin)+n]))
             if ret != 1:
                 assert ret == 0
                 return BlindingFailure(
@@ -1892,11 +1892,11 @@ def generate_rangeproof(in_blinds: List[Uint256], nonce: Uint256,
         secp256k1.ctx.blind,
         rangeproof, ctypes.byref(nRangeProofLen),
         0 if scriptPubKey.is_unspendable() else 1,
-        commit, blind.data, nonce.data, ct_exponent, ct_bits,
+        bytes(commit), blind.data, nonce.data, ct_exponent, ct_bits,
         amount, assetsMessage, len(assetsMessage),
         None if len(scriptPubKey) == 0 else scriptPubKey,
         len(scriptPubKey),
-        gen)
+        bytes(gen))
 
     if 1 != ret:
         assert ret == 0
@@ -2083,7 +2083,7 @@ def unblind_confidential_pair(*, blinding_key: CKeyBase,  # noqa
         msg, ctypes.byref(msg_size),
         nonce,
         ctypes.byref(min_value), ctypes.byref(max_value),
-        commit, rangeproof, len(rangeproof),
+        commit, bytes(rangeproof), len(rangeproof),
         committedScript or None, len(committedScript),
         observed_gen)
 
-- 
2.43.0

