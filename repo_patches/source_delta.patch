From 477a459b2a6cd72a2b94380bb76f75aab12fc8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 01/58] fix: deserialize empty and byte-aligned Bits

---
 lib/python-proofmarshal/proofmarshal/bits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 19f620f..95a9635 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -311,7 +311,7 @@ class BitsSerializer(proofmarshal.serialize.Serializer):
         length = ctx.read_varuint()
         buf = ctx.read_bytes(length // 8 + (1 if length % 8 else 0))
         r = Bits.from_bytes(buf, length)
-        # FIXME: should throw a serialization exception
-        assert r._Bits__tail_bits() == buf[-1]
+        if length % 8 and r._Bits__tail_bits() != buf[-1]:
+            raise proofmarshal.serialize.DeserializationError('non-zero padding bits')
         return r
 
-- 
2.43.0


From c50816b837731099c48c62a55098b2eceae80d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 02/58] fix: BitsSerializer.check_instance() must raise on
 wrong types

---
 lib/python-proofmarshal/proofmarshal/bits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 95a9635..48a8ce7 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -295,7 +295,8 @@ class Bits:
 class BitsSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, instance):
-        return instance.__class__ is Bits
+        if instance.__class__ is not Bits:
+            raise proofmarshal.serialize.SerializerTypeError('Expected Bits; got %r' % instance.__class__)
 
     @classmethod
     def ctx_serialize(cls, value, ctx):
-- 
2.43.0


From 3394da1b55dd18acb0f31affb0e87727173c0c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 03/58] fix: order Bits of differing lengths consistently

---
 lib/python-proofmarshal/proofmarshal/bits.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 48a8ce7..023ee11 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -129,17 +129,11 @@ class Bits:
         if self.__class__ is not rhs.__class__:
             return NotImplemented
 
-        self_fwp = self.__full_width_prefix()
-        rhs_fwp = rhs.__full_width_prefix()
-        if self_fwp < rhs_fwp:
-            return True
-
-        elif self_fwp == rhs_fwp:
-            return self.__tail_bits() < rhs.__tail_bits()
-
-        else:
-            return False
-
+        # Lexicographic order: masked tail bits are zero-padded, so if the
+        # padded buffers don't settle it, the shorter array is the lesser.
+        self_buf = self.__full_width_prefix() + bytes([self.__tail_bits()])
+        rhs_buf = rhs.__full_width_prefix() + bytes([rhs.__tail_bits()])
+        return (self_buf, self.__length) < (rhs_buf, rhs.__length)
 
     def __getitem__(self, idx):
         if isinstance(idx, int):
-- 
2.43.0


From be75ae643750e5733548aff186a2427d79558f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 04/58] fix: import DeserializationError in proofmarshal.proof

---
 lib/python-proofmarshal/proofmarshal/proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index faa8741..17341f5 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -13,7 +13,7 @@ import binascii
 import copy
 import hashlib
 
-from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, SerializerTypeError, HashTag
+from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, DeserializationError, SerializerTypeError, HashTag
 
 """Proof representation
 
-- 
2.43.0


From b75c4d3df7fc292ea0821b281b6e8f4bc80edd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 05/58] fix: don't depend on which proof classes were
 instantiated first

---
 lib/python-proofmarshal/proofmarshal/proof.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 17341f5..1a3a882 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -43,7 +43,8 @@ class Proof(HashingSerializer):
 
     def __new__(cls, **kwargs):
         """Basic creation/initialization"""
-        if cls.SERIALIZED_ATTRS_BY_NAME is None:
+        # Per-class cache; must not be inherited from a base class
+        if cls.__dict__.get('SERIALIZED_ATTRS_BY_NAME') is None:
             cls.SERIALIZED_ATTRS_BY_NAME = {name:ser_cls for name, ser_cls in cls.SERIALIZED_ATTRS}
 
         is_pruned = False
@@ -120,7 +121,7 @@ class Proof(HashingSerializer):
         if self.__orig_instance is None:
             # Don't have the original instance. Is this an attribute we should
             # have?
-            if name in self.SERIALIZED_ATTRS_BY_NAME:
+            if name in dict(self.SERIALIZED_ATTRS):
                 # FIXME: raise pruning error
                 raise PrunedError(name, self)
             else:
-- 
2.43.0


From b67b8bb1d2c6be4a989018444650b665c1145e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 06/58] fix: keep the variant of fully pruned VarProofs when
 serializing

---
 lib/python-proofmarshal/proofmarshal/proof.py | 50 +++++++++++++------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 1a3a882..73efd87 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -185,10 +185,13 @@ class Proof(HashingSerializer):
             attr = getattr(self, attr_name)
             ser_cls.ctx_serialize(attr, ctx)
 
+    def _ctx_serialize_pruned(self, ctx):
+        ctx.write_bytes(self.data_hash)
+
     def ctx_serialize(self, ctx):
         if self.is_fully_pruned:
             ctx.write_bool(True)
-            ctx.write_bytes(self.data_hash)
+            self._ctx_serialize_pruned(ctx)
 
         else:
             ctx.write_bool(False)
@@ -212,20 +215,24 @@ class Proof(HashingSerializer):
         return Proof.__new__(cls, **kwargs)
 
     @classmethod
-    def ctx_deserialize(cls, ctx):
-        fully_pruned = ctx.read_bool()
+    def _ctx_deserialize_pruned(cls, ctx):
+        self = object.__new__(cls)
 
-        if fully_pruned:
-            self = object.__new__(cls)
+        data_hash = ctx.read_bytes(32) # FIXME
+        object.__setattr__(self, 'data_hash', data_hash)
 
-            data_hash = ctx.read_bytes(32) # FIXME
-            object.__setattr__(self, 'data_hash', data_hash)
+        object.__setattr__(self, 'is_fully_pruned', True)
+        object.__setattr__(self, 'is_pruned', True)
+        object.__setattr__(self, '_Proof__orig_instance', None)
+
+        return self
 
-            object.__setattr__(self, 'is_fully_pruned', True)
-            object.__setattr__(self, 'is_pruned', True)
-            object.__setattr__(self, '_Proof__orig_instance', None)
+    @classmethod
+    def ctx_deserialize(cls, ctx):
+        fully_pruned = ctx.read_bool()
 
-            return self
+        if fully_pruned:
+            return cls._ctx_deserialize_pruned(ctx)
 
         else:
             return cls._ctx_deserialize(ctx)
@@ -267,7 +274,7 @@ class VarProof(Proof):
 
         return subclass
 
-    def _ctx_serialize(self, ctx):
+    def _ctx_serialize_variant(self, ctx):
         for i,cls in enumerate(self.UNION_CLASSES):
             if isinstance(self, cls):
                 ctx.write_varuint(i)
@@ -276,20 +283,35 @@ class VarProof(Proof):
         else:
             raise SerializerTypeError('bad class')
 
+    def _ctx_serialize(self, ctx):
+        self._ctx_serialize_variant(ctx)
         super()._ctx_serialize(ctx)
 
+    def _ctx_serialize_pruned(self, ctx):
+        # The variant is needed to calculate the hash from the data hash
+        self._ctx_serialize_variant(ctx)
+        super()._ctx_serialize_pruned(ctx)
+
     @classmethod
-    def _ctx_deserialize(cls, ctx):
+    def _ctx_deserialize_variant(cls, ctx):
         i = ctx.read_varuint()
 
         try:
-            union_cls = cls.UNION_CLASSES[i]
+            return cls.UNION_CLASSES[i]
         except IndexError:
             # FIXME: nicer error message
             raise DeserializationError('bad union class number %d' % i)
 
+    @classmethod
+    def _ctx_deserialize(cls, ctx):
+        union_cls = cls._ctx_deserialize_variant(ctx)
         return super(VarProof, union_cls)._ctx_deserialize(ctx)
 
+    @classmethod
+    def _ctx_deserialize_pruned(cls, ctx):
+        union_cls = cls._ctx_deserialize_variant(ctx)
+        return super(VarProof, union_cls)._ctx_deserialize_pruned(ctx)
+
 class ProofUnion(HashingSerializer):
     """Serialization of disjoint unions of proof classes
 
-- 
2.43.0


From cb0647631f2784e05700fe9a5817644164fa5ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 07/58] fix: a proof with a pruned ProofUnion attribute is
 pruned

---
 lib/python-proofmarshal/proofmarshal/proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 73efd87..a01284f 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -54,7 +54,7 @@ class Proof(HashingSerializer):
             ser_cls.check_instance(value)
             object.__setattr__(self, name, value)
 
-            if issubclass(ser_cls, Proof):
+            if isinstance(value, Proof):
                 is_pruned |= value.is_pruned
 
         object.__setattr__(self, 'is_fully_pruned', False)
-- 
2.43.0


From e0232a41d039cfac7c276249dd2c4e49b7398296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 08/58] fix: MerbinnerTree.put() on an existing key replaces
 the value

---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index ce6635d..a6bb4d3 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -152,8 +152,13 @@ class MerbinnerTree(proofmarshal.proof.VarProof):
             return new_leaf
 
         else:
-            # The two leaves are joined by an inner node
-            new_tip = self.InnerNodeClass(new_leaf, closest_node)
+            if closest_node.__class__ is self.LeafNodeClass and closest_node.key == key:
+                # Existing key, so the old leaf is replaced
+                new_tip = new_leaf
+
+            else:
+                # The two leaves are joined by an inner node
+                new_tip = self.InnerNodeClass(new_leaf, closest_node)
 
             # And we rebuild the inner nodes along the path from the siblings
             for sibling in siblings:
-- 
2.43.0


From f8769fc03517141c75b9c01d127887222ed6aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 09/58] fix: MMR slices with start >= stop are empty

---
 lib/python-proofmarshal/proofmarshal/mmr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/mmr.py b/lib/python-proofmarshal/proofmarshal/mmr.py
index 4d80439..a23a168 100644
--- a/lib/python-proofmarshal/proofmarshal/mmr.py
+++ b/lib/python-proofmarshal/proofmarshal/mmr.py
@@ -419,6 +419,9 @@ def make_mmr_subclass(subclass):
                 if step != 1:
                     raise NotImplementedError
 
+                if start >= stop:
+                    return self.EmptyNodeClass()
+
                 if start <= 0 and stop >= len(self):
                     # We satisfy the slice without modification, so return
                     # ourselves
-- 
2.43.0


From e9b978296727a39c1a41aa473c83ca27ee2d3fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 10/58] fix: reject non-canonical varuints

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index f81a34d..72b4052 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -207,6 +207,8 @@ class StreamDeserializationContext(DeserializationContext):
             b = self.fd_read(1)[0]
             value |= (b & 0b01111111) << shift
             if not (b & 0b10000000):
+                if not b and shift:
+                    raise DeserializationError('non-canonical varuint')
                 break
             shift += 7
 
-- 
2.43.0


From 077634a5307a19b657b5d67649e8951237713a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 11/58] fix: reject junk after the end of a serialized object

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index 72b4052..579a5f5 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -236,7 +236,10 @@ class BytesDeserializationContext(StreamDeserializationContext):
         """Deserialize from bytes"""
         super().__init__(io.BytesIO(buf))
 
-    # FIXME: need to check that there isn't extra crap at end of object
+    def check_eof(self):
+        """Check that there isn't extra crap at end of object"""
+        if self.fd.read(1):
+            raise DeserializationError('extra data at end of object')
 
 class Serializer:
     """(De)serialize an instance of a class
@@ -280,7 +283,7 @@ class Serializer:
         """Deserialize from bytes"""
         ctx = BytesDeserializationContext(serialized_value)
         r = cls.ctx_deserialize(ctx)
-        # FIXME: check for junk at end
+        ctx.check_eof()
         return r
 
 class SerBool(Serializer):
-- 
2.43.0


From b73c5311c4b85704f308c24f7a496e6df1339527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 12/58] fix: absurdly large lengths are a TruncationError

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index 579a5f5..f492b9c 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -181,7 +181,11 @@ class StreamDeserializationContext(DeserializationContext):
         self.fd = fd
 
     def fd_read(self, l):
-        r = self.fd.read(l)
+        try:
+            r = self.fd.read(l)
+        except OverflowError:
+            # No stream could possibly have that many bytes
+            raise TruncationError('Tried to read %d bytes' % l)
         if len(r) != l:
             raise TruncationError('Tried to read %d bytes but got only %d bytes' % \
                                   (l, len(r)))
-- 
2.43.0


From 6de0faec26fc982a0cdcf8952cc5ba6b51214405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 13/58] fix: TxProof.hash/txhash of a deserialized, fully
 pruned, TxProof

---
 proofchains/core/bitcoin.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index 03c6a54..86a809a 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -66,15 +66,20 @@ class TxProof(proofmarshal.proof.Proof):
 
     TX_HASH_XOR_PAD = b'L\xf8\x10\xb7=\xc6\x05\xfb\xe6\xc2\x15jpA\xe3p\xf4u\x0e9\xd2\xd1W1\x99\xc7r\xc72K\xd0T'
 
-    def calc_hash(self):
+    def calc_data_hash(self):
         if self.is_pruned:
-            return super().calc_hash()
+            return super().calc_data_hash()
 
         else:
-            # Dirty trick: the hash of a TxProof is the Bitcon txhash XOR'd
-            # with a fixed pad. This still guarantees global uniqueness, yet
-            # lets us convert the proof hash to a bitcoin hash and back.
-            return bytes([b^p for b,p in zip(self.tx.GetHash(), self.TX_HASH_XOR_PAD)])
+            # The Bitcoin txhash, so that the hash can be calculated from the
+            # data hash alone, like any other fully pruned proof.
+            return self.tx.GetHash()
+
+    def calc_hash(self):
+        # Dirty trick: the hash of a TxProof is the Bitcon txhash XOR'd
+        # with a fixed pad. This still guarantees global uniqueness, yet
+        # lets us convert the proof hash to a bitcoin hash and back.
+        return bytes([b^p for b,p in zip(self.data_hash, self.TX_HASH_XOR_PAD)])
 
     @property
     def txhash(self):
-- 
2.43.0


From 681aee91007c21907f8dcf5665634233b7273c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 14/58] fix: NameError in the type checks of the Bitcoin
 serializers

---
 proofchains/core/bitcoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index 86a809a..cbb20cd 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -21,7 +21,7 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.CTransaction):
-            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, tx, ctx):
@@ -42,7 +42,7 @@ class COutPointSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.COutPoint):
-            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, outpoint, ctx):
-- 
2.43.0


From b1779ac7dbd358c49456ac5992b77c300598f7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 15/58] fix: GuMap verification must check that the witness
 spends the seal

---
 proofchains/core/uniquebits/gumap.py         | 2 ++
 proofchains/core/uniquebits/singleuseseal.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/proofchains/core/uniquebits/gumap.py b/proofchains/core/uniquebits/gumap.py
index 8195f62..da3efcf 100644
--- a/proofchains/core/uniquebits/gumap.py
+++ b/proofchains/core/uniquebits/gumap.py
@@ -99,6 +99,7 @@ def make_GuMap_subclass(subclass):
             return cls.CONTENTS_HASHTAG(msg).digest()
 
         def verify(self):
+            self.witness.verify()
             self.witness.verify_hash(self.__calc_sealed_hash(self.key, self.value))
 
     subclass.LeafPrefix = LeafPrefix
@@ -151,6 +152,7 @@ def make_GuMap_subclass(subclass):
             return cls.CONTENTS_HASHTAG(msg).digest()
 
         def verify(self):
+            self.witness.verify()
             self.witness.verify_hash(self.__calc_sealed_hash(self.left, self.right))
     subclass.InnerPrefix = InnerPrefix
 
diff --git a/proofchains/core/uniquebits/singleuseseal.py b/proofchains/core/uniquebits/singleuseseal.py
index 299fd51..0d589ab 100644
--- a/proofchains/core/uniquebits/singleuseseal.py
+++ b/proofchains/core/uniquebits/singleuseseal.py
@@ -58,6 +58,10 @@ class FakeSealWitness(SealWitness):
     def from_hash(cls, hash):
         return cls(seal=FakeSingleUseSeal(committed_hash=hash))
 
+    def verify(self):
+        # The seal itself commits to the only hash it can be closed over
+        pass
+
     def verify_hash(self, hash):
         assert self.seal.committed_hash == hash
 
-- 
2.43.0


From cf6e6b0b90360b8adbf56788438a6a21677b070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 16/58] fix: sus-tool mkseal must blind seals with a nonce

---
 sus-tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index a8d0d38..8cfe572 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -16,6 +16,7 @@
 import argparse
 import collections
 import logging
+import os
 
 import bitcoin.rpc
 
@@ -88,7 +89,7 @@ mkseal_parser.add_argument('seal_fd', type=argparse.FileType('xb'), metavar='FIL
         help='Seal file')
 
 def cmd_mkseal(args):
-    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint)
+    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint, nonce=os.urandom(16))
     args.seal_fd.write(btc_seal.serialize())
 
 mkseal_parser.set_defaults(cmd_func=cmd_mkseal)
-- 
2.43.0


From 2116a25b054ed035c714cf79f96d34be8a2ea08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 17/58] fix: sus-tool verifywitness ignored --seal-file and
 --seal-id

---
 sus-tool.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 8cfe572..2a15fb9 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -214,7 +214,14 @@ def cmd_verifywitness(args):
     if args.digest is not None:
         witness.verify_hash(args.digest)
 
-    # FIXME: seal and seal hash
+    if args.seal_file is not None:
+        seal = BitcoinSingleUseSeal.deserialize(args.seal_file.read())
+        if witness.seal != seal:
+            args.parser.error("Witness is not for seal '%s'" % args.seal_file.name)
+
+    if args.seal_id is not None:
+        if witness.seal.hash != args.seal_id:
+            args.parser.error("Witness is not for seal %s" % b2x(args.seal_id))
 
 verifywitness_parser.set_defaults(cmd_func=cmd_verifywitness)
 
-- 
2.43.0


From d4cc3a25c1507a91823aa36ea355605e9216956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 18/58] fix: sus-tool witnessinfo printed the outpoint txid
 byte-reversed

---
 sus-tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 2a15fb9..a68974f 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -253,7 +253,7 @@ def cmd_witnessinfo(args):
     print('Hash:\t\t%s' % b2x(witness.hash))
     print('Txid:\t\t%s' % b2lx(witness.txinproof.txproof.txhash))
     print('Seal Hash:\t%s' % b2x(witness.seal.hash))
-    print('Seal OutPoint:\t%s:%d' % (b2x(witness.seal.outpoint.hash), witness.seal.outpoint.n))
+    print('Seal OutPoint:\t%s:%d' % (b2lx(witness.seal.outpoint.hash), witness.seal.outpoint.n))
 
 witnessinfo_parser.set_defaults(cmd_func=cmd_witnessinfo)
 
-- 
2.43.0


From 6b1fc93b343852e1d09f3d27ecacb8bf6d19c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 19/58] fix: making immutable transactions from mutable txins

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index ce0c093..18095a8 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -157,8 +157,8 @@ class COutPoint(ImmutableSerializable):
         If output is already immutable (outpoint.__class__ is COutPoint) it is
         returned directly.
         """
-        if output.__class__ is COutPoint:
-            return output
+        if outpoint.__class__ is COutPoint:
+            return outpoint
 
         else:
             return cls(outpoint.hash, outpoint.n)
@@ -218,7 +218,7 @@ class CTxIn(ImmutableSerializable):
             return txin
 
         else:
-            return cls(COutPoint.from_txout(txin.prevout), txin.scriptSig, txin.nSequence)
+            return cls(COutPoint.from_outpoint(txin.prevout), txin.scriptSig, txin.nSequence)
 
 @__make_mutable
 class CMutableTxIn(CTxIn):
-- 
2.43.0


From b0c8be2c45861afe5ff36d03600f9c34b2bf4abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 20/58] fix: an immutable CTxIn must not keep a mutable
 outpoint

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 18095a8..04f6edd 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -186,7 +186,7 @@ class CTxIn(ImmutableSerializable):
             raise ValueError('CTxIn: nSequence must be an integer between 0x0 and 0xffffffff; got %x' % nSequence)
         object.__setattr__(self, 'nSequence', nSequence)
 
-        object.__setattr__(self, 'prevout', prevout)
+        object.__setattr__(self, 'prevout', COutPoint.from_outpoint(prevout))
         object.__setattr__(self, 'scriptSig', scriptSig)
 
     @classmethod
-- 
2.43.0


From 8dd334dd7930c135113f2fce751101b6d0cb8da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 21/58] fix: accurate sigop count of CHECKMULTISIG

---
 lib/python-bitcoinlib/bitcoin/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index 5f71e74..43dbc58 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -763,7 +763,7 @@ class CScript(bytes):
                 n += 1
             elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
                 if fAccurate and (OP_1 <= lastOpcode <= OP_16):
-                    n += opcode.decode_op_n()
+                    n += CScriptOp(lastOpcode).decode_op_n()
                 else:
                     n += 20
             lastOpcode = opcode
-- 
2.43.0


From 1b20b0ae20201d38527810e47a93258c13faf6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 22/58] fix: sigop count of scripts with invalid pushdata

---
 lib/python-bitcoinlib/bitcoin/core/script.py | 22 ++++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index 43dbc58..ec92d24 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -758,15 +758,19 @@ class CScript(bytes):
         """
         n = 0
         lastOpcode = OP_INVALIDOPCODE
-        for (opcode, data, sop_idx) in self.raw_iter():
-            if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
-                n += 1
-            elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
-                if fAccurate and (OP_1 <= lastOpcode <= OP_16):
-                    n += CScriptOp(lastOpcode).decode_op_n()
-                else:
-                    n += 20
-            lastOpcode = opcode
+        try:
+            for (opcode, data, sop_idx) in self.raw_iter():
+                if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
+                    n += 1
+                elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
+                    if fAccurate and (OP_1 <= lastOpcode <= OP_16):
+                        n += CScriptOp(lastOpcode).decode_op_n()
+                    else:
+                        n += 20
+                lastOpcode = opcode
+        except CScriptInvalidError:
+            # Bitcoin Core stops counting at the first invalid pushdata
+            pass
         return n
 
 
-- 
2.43.0


From 0d3d72a9c59d71e10e1b7a378c26142221e3546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 23/58] fix: false is the empty byte array in scripts

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 0e7fa44..640d8c6 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -199,7 +199,7 @@ def _CheckMultiSig(opcode, script, stack, txTo, inIdx, err_raiser, nOpCount):
         if success:
             stack.append(b"\x01")
         else:
-            stack.append(b"\x00")
+            stack.append(b"")
 
 
 # OP_2MUL and OP_2DIV are *not* included in this list as they are disabled
@@ -484,7 +484,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                         if sop != OP_CHECKSIGVERIFY:
                             stack.append(b"\x01")
                     else:
-                        stack.append(b"\x00")
+                        stack.append(b"")
 
             elif sop == OP_CODESEPARATOR:
                 pbegincodehash = sop_pc
@@ -520,7 +520,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v1 == v2:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             elif sop == OP_EQUALVERIFY:
                 check_args(2)
@@ -657,7 +657,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             else:
                 err_raiser(EvalScriptError, 'unsupported opcode 0x%x' % sop)
-- 
2.43.0


From 69c6cc22fa4fdbfc8d0f5daf3e5f898a9e538db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 24/58] fix: the stack size limit applies to data pushes too

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 640d8c6..4d3b007 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -394,7 +394,6 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
 
             elif fExec:
                 stack.append(sop_data)
-                continue
 
         elif fExec or (OP_IF <= sop <= OP_ENDIF):
 
-- 
2.43.0


From 710be34204d6de42d80b544e46d50376cb6f7b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 25/58] fix: save the execution state in EvalScriptError

---
 .../bitcoin/core/scripteval.py                | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 4d3b007..551cdd8 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -57,18 +57,18 @@ class EvalScriptError(bitcoin.core.ValidationError):
                  altstack=None, vfExec=None, pbegincodehash=None, nOpCount=None):
         super(EvalScriptError, self).__init__('EvalScript: %s' % msg)
 
-        sop = sop
-        sop_data = sop_data
-        sop_pc = sop_pc
-        stack = stack
-        scriptIn = scriptIn
-        txTo = txTo
-        inIdx = inIdx
-        flags = flags
-        altstack = altstack
-        vfExec = vfExec
-        pbegincodehash = pbegincodehash
-        nOpCount = nOpCount
+        self.sop = sop
+        self.sop_data = sop_data
+        self.sop_pc = sop_pc
+        self.stack = stack
+        self.scriptIn = scriptIn
+        self.txTo = txTo
+        self.inIdx = inIdx
+        self.flags = flags
+        self.altstack = altstack
+        self.vfExec = vfExec
+        self.pbegincodehash = pbegincodehash
+        self.nOpCount = nOpCount
 
 class MaxOpCountError(EvalScriptError):
     def __init__(self, **kwargs):
-- 
2.43.0


From f8c6bac9a5df6c96ebd0b5b77e97f9dfae121f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 26/58] fix: CheckBlock() must check the coinbase transaction
 too

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 04f6edd..1caad01 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -714,8 +714,8 @@ def CheckBlock(block, fCheckPoW = True, fCheckMerkleRoot = True, cur_time=None):
     # it'll be caught by the "more than one coinbase" test.
     unique_txids = set()
     nSigOps = 0
-    for tx in block.vtx[1:]:
-        if tx.is_coinbase():
+    for i, tx in enumerate(block.vtx):
+        if i > 0 and tx.is_coinbase():
             raise CheckBlockError("CheckBlock() : more than one coinbase")
 
         CheckTransaction(tx)
-- 
2.43.0


From 311bda492a7a80ae14b0833e25ab128575a0d808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 27/58] fix: proof-of-work targets with tiny exponents or the
 sign bit set

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py  | 2 +-
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 1caad01..7c48ae4 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -641,7 +641,7 @@ def CheckProofOfWork(hash, nBits):
     target = uint256_from_compact(nBits)
 
     # Check range
-    if not (0 < target <= coreparams.PROOF_OF_WORK_LIMIT):
+    if nBits & 0x00800000 or not (0 < target <= coreparams.PROOF_OF_WORK_LIMIT):
         raise CheckProofOfWorkError("CheckProofOfWork() : nBits below minimum work")
 
     # Check proof of work matches claimed amount
diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index feeb7d1..9d93e5d 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -311,8 +311,10 @@ def uint256_from_compact(c):
     Used for the nBits compact encoding of the target in the block header.
     """
     nbytes = (c >> 24) & 0xFF
-    v = (c & 0xFFFFFF) << (8 * (nbytes - 3))
-    return v
+    v = c & 0xFFFFFF
+    if nbytes <= 3:
+        return v >> (8 * (3 - nbytes))
+    return v << (8 * (nbytes - 3))
 
 
 def uint256_to_shortstr(u):
-- 
2.43.0


From d18dc46b08909f1ee99847ad1a3e9dcc47c0b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 28/58] fix: SelectParams('mainnet') left consensus parameters
 unset

---
 lib/python-bitcoinlib/bitcoin/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/__init__.py b/lib/python-bitcoinlib/bitcoin/__init__.py
index de56cd5..4fade2f 100644
--- a/lib/python-bitcoinlib/bitcoin/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/__init__.py
@@ -13,7 +13,7 @@ from __future__ import absolute_import, division, print_function, unicode_litera
 
 import bitcoin.core
 
-class MainParams(bitcoin.core.CoreChainParams):
+class MainParams(bitcoin.core.CoreMainParams):
     MESSAGE_START = b'\xf9\xbe\xb4\xd9'
     DEFAULT_PORT = 8333
     RPC_PORT = 8332
-- 
2.43.0


From 2a6cae6962ea01eebed17f702214e91d5399c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 29/58] fix: the message length is unsigned

---
 lib/python-bitcoinlib/bitcoin/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index aa6aedd..0ca0e92 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -84,7 +84,7 @@ class MsgSerializable(Serializable):
 
         # remaining header fields: command, msg length, checksum
         command = recvbuf[4:4+12].split(b"\x00", 1)[0]
-        msglen = struct.unpack(b"<i", recvbuf[4+12:4+12+4])[0]
+        msglen = struct.unpack(b"<I", recvbuf[4+12:4+12+4])[0]
         checksum = recvbuf[4+12+4:4+12+4+4]
 
         # read message body
-- 
2.43.0


From f5f4a3acbd059c97bebeda18dedf97bfbd1b0b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 30/58] fix: intVectorSerialzer deserialization

---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index 9d93e5d..1a1ba58 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -279,7 +279,8 @@ class intVectorSerialzer(Serializer):
         l = VarIntSerializer.stream_deserialize(f)
         ints = []
         for i in range(l):
-            ints.append(struct.unpack(b"<i", ser_read(f, 4)))
+            ints.append(struct.unpack(b"<i", ser_read(f, 4))[0])
+        return ints
 
 
 class VarStringSerializer(Serializer):
-- 
2.43.0


From 0bc81be7a74c2402603a7ee2cb9e806ae576387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 31/58] fix: CUnsignedAlert (de)serialization

---
 lib/python-bitcoinlib/bitcoin/net.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/net.py b/lib/python-bitcoinlib/bitcoin/net.py
index 4916f21..8258c87 100644
--- a/lib/python-bitcoinlib/bitcoin/net.py
+++ b/lib/python-bitcoinlib/bitcoin/net.py
@@ -18,6 +18,8 @@ from binascii import hexlify
 from bitcoin.core.serialize import (
         Serializable,
         VarStringSerializer,
+        VectorSerializer,
+        intVectorSerialzer,
         ser_read,
         uint256VectorSerializer,
 )
@@ -127,14 +129,14 @@ class CUnsignedAlert(Serializable):
         c.nExpiration = struct.unpack(b"<q", ser_read(f,8))[0]
         c.nID = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nCancel = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setCancel = intVectorSerialzer.deserialize(f)
+        c.setCancel = intVectorSerialzer.stream_deserialize(f)
         c.nMinVer = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nMaxVer = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setSubVer = VarStringSerializer.deserialize(f)
+        c.setSubVer = VectorSerializer.stream_deserialize(VarStringSerializer, f)
         c.nPriority = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.strComment = VarStringSerializer.deserialize(f)
-        c.strStatusBar = VarStringSerializer.deserialize(f)
-        c.strReserved = VarStringSerializer.deserialize(f)
+        c.strComment = VarStringSerializer.stream_deserialize(f)
+        c.strStatusBar = VarStringSerializer.stream_deserialize(f)
+        c.strReserved = VarStringSerializer.stream_deserialize(f)
         return c
 
     def stream_serialize(self, f):
@@ -143,14 +145,14 @@ class CUnsignedAlert(Serializable):
         f.write(struct.pack(b"<q", self.nExpiration))
         f.write(struct.pack(b"<i", self.nID))
         f.write(struct.pack(b"<i", self.nCancel))
-        f.write(ser_int_vector(self.setCancel))
+        intVectorSerialzer.stream_serialize(self.setCancel, f)
         f.write(struct.pack(b"<i", self.nMinVer))
         f.write(struct.pack(b"<i", self.nMaxVer))
-        f.write(ser_string_vector(self.setSubVer))
+        VectorSerializer.stream_serialize(VarStringSerializer, self.setSubVer, f)
         f.write(struct.pack(b"<i", self.nPriority))
-        f.write(ser_string(self.strComment))
-        f.write(ser_string(self.strStatusBar))
-        f.write(ser_string(self.strReserved))
+        VarStringSerializer.stream_serialize(self.strComment, f)
+        VarStringSerializer.stream_serialize(self.strStatusBar, f)
+        VarStringSerializer.stream_serialize(self.strReserved, f)
 
     def __repr__(self):
         return "CUnsignedAlert(nVersion %d, nRelayUntil %d, nExpiration %d, nID %d, nCancel %d, nMinVer %d, nMaxVer %d, nPriority %d, strComment %s, strStatusBar %s, strReserved %s)" % (self.nVersion, self.nRelayUntil, self.nExpiration, self.nID, self.nCancel, self.nMinVer, self.nMaxVer, self.nPriority, self.strComment, self.strStatusBar, self.strReserved)
-- 
2.43.0


From d71bc511b4038a723d9cbadc6e82381ef5536093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 32/58] fix: CBloomFilter deserialization

---
 lib/python-bitcoinlib/bitcoin/bloom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/bloom.py b/lib/python-bitcoinlib/bitcoin/bloom.py
index 8f76cbd..c08482e 100644
--- a/lib/python-bitcoinlib/bitcoin/bloom.py
+++ b/lib/python-bitcoinlib/bitcoin/bloom.py
@@ -166,11 +166,11 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
     __struct = struct.Struct(b'<IIB')
     @classmethod
     def stream_deserialize(cls, f):
-        vData = bitcoin.core.serialize.BytesSerializer.stream_deserialize(f)
+        vData = bytearray(bitcoin.core.serialize.BytesSerializer.stream_deserialize(f))
         (nHashFuncs,
          nTweak,
-         nFlags) = self.__struct.unpack(_ser_read(f, self.__struct.size))
-        self = cls()
+         nFlags) = cls.__struct.unpack(bitcoin.core.serialize.ser_read(f, cls.__struct.size))
+        self = cls.__new__(cls)
         self.vData = vData
         self.nHashFuncs = nHashFuncs
         self.nTweak = nTweak
-- 
2.43.0


From 29c1f74783b298cd29a2c7b5afaa6ce6b5bbb7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 33/58] fix: division by zero in empty bloom filters

---
 lib/python-bitcoinlib/bitcoin/bloom.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/bloom.py b/lib/python-bitcoinlib/bitcoin/bloom.py
index c08482e..45cff56 100644
--- a/lib/python-bitcoinlib/bitcoin/bloom.py
+++ b/lib/python-bitcoinlib/bitcoin/bloom.py
@@ -131,6 +131,9 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         if isinstance(elem, bitcoin.core.COutPoint):
             elem = elem.serialize()
 
+        if not self.vData:
+            return # a filter of no bits at all matches everything
+
         if len(self.vData) == 1 and self.vData[0] == 0xff:
             return
 
@@ -147,6 +150,9 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         if isinstance(elem, bitcoin.core.COutPoint):
             elem = elem.serialize()
 
+        if not self.vData:
+            return True
+
         if len(self.vData) == 1 and self.vData[0] == 0xff:
             return True
 
-- 
2.43.0


From de9539d54d977657672674443286bea32ea7550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 34/58] fix: https RPC connections on Python 3.12

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 801cb3b..9c89777 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -121,7 +121,6 @@ class RawProxy(object):
             self.__conn = _connection
         elif self.__url.scheme == 'https':
             self.__conn = httplib.HTTPSConnection(self.__url.hostname, port=port,
-                                                  key_file=None, cert_file=None,
                                                   timeout=timeout)
         else:
             self.__conn = httplib.HTTPConnection(self.__url.hostname, port=port,
-- 
2.43.0


From 7f23340893be3ad0e776ac983151f5395bafdc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 35/58] fix: base58 data whose checksum overlaps its version

---
 lib/python-bitcoinlib/bitcoin/base58.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/base58.py b/lib/python-bitcoinlib/bitcoin/base58.py
index 4253240..67cc120 100644
--- a/lib/python-bitcoinlib/bitcoin/base58.py
+++ b/lib/python-bitcoinlib/bitcoin/base58.py
@@ -103,6 +103,8 @@ class CBase58Data(bytes):
     """
     def __new__(cls, s):
         k = decode(s)
+        if len(k) < 5:
+            raise Base58ChecksumError('Too short to contain a version and a checksum')
         verbyte, data, check0 = k[0:1], k[1:-4], k[-4:]
         check1 = bitcoin.core.Hash(verbyte + data)[:4]
         if check0 != check1:
-- 
2.43.0


From c983787f9f69f62b02b9fa696cab48fb05e874b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 36/58] fix: addresses whose payload is not 20 bytes

---
 lib/python-bitcoinlib/bitcoin/wallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/wallet.py b/lib/python-bitcoinlib/bitcoin/wallet.py
index 9273259..e05d716 100644
--- a/lib/python-bitcoinlib/bitcoin/wallet.py
+++ b/lib/python-bitcoinlib/bitcoin/wallet.py
@@ -36,6 +36,9 @@ class CBitcoinAddress(bitcoin.base58.CBase58Data):
 
     @classmethod
     def from_bytes(cls, data, nVersion):
+        if len(data) != 20:
+            raise CBitcoinAddressError('Expected a 20-byte hash; got %d bytes' % len(data))
+
         self = super(CBitcoinAddress, cls).from_bytes(data, nVersion)
 
         if nVersion == bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR']:
-- 
2.43.0


From c1a6a7cc8efbb59d9bda9bb0c4804f70ab3e1d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 37/58] fix: secret keys with malformed payloads

---
 lib/python-bitcoinlib/bitcoin/wallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/wallet.py b/lib/python-bitcoinlib/bitcoin/wallet.py
index e05d716..69728d1 100644
--- a/lib/python-bitcoinlib/bitcoin/wallet.py
+++ b/lib/python-bitcoinlib/bitcoin/wallet.py
@@ -244,6 +244,9 @@ class CBitcoinSecret(bitcoin.base58.CBase58Data, CKey):
             raise CBitcoinSecretError('Not a base58-encoded secret key: got nVersion=%d; expected nVersion=%d' % \
                                       (self.nVersion, bitcoin.params.BASE58_PREFIXES['SECRET_KEY']))
 
+        if not (len(self) == 32 or (len(self) == 33 and _bord(self[32]) == 1)):
+            raise CBitcoinSecretError('Not a base58-encoded secret key: bad payload')
+
         CKey.__init__(self, self[0:32], len(self) > 32 and _bord(self[32]) == 1)
 
 
-- 
2.43.0


From 7220ad23a1f932357293e7e13251f9596e815137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 38/58] fix: deserializing bytes nested absurdly deep raised
 RecursionError

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index f492b9c..553e9ba 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -286,7 +286,10 @@ class Serializer:
     def deserialize(cls, serialized_value):
         """Deserialize from bytes"""
         ctx = BytesDeserializationContext(serialized_value)
-        r = cls.ctx_deserialize(ctx)
+        try:
+            r = cls.ctx_deserialize(ctx)
+        except RecursionError:
+            raise DeserializationError('nested too deeply')
         ctx.check_eof()
         return r
 
-- 
2.43.0


From 4e539c8d91d261e835ab510c2d9285f5c3f7b764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 39/58] fix: malformed Bitcoin objects in proofs are a
 DeserializationError

---
 proofchains/core/bitcoin.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index cbb20cd..e66f2ff 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -17,6 +17,16 @@ import bitcoin.core
 
 from proofmarshal.serialize import HashTag
 
+def _deserialize_exactly(cls, serialized_obj):
+    """Deserialize a Bitcoin object; errors and non-canonical encodings are a DeserializationError"""
+    try:
+        obj = cls.deserialize(serialized_obj)
+    except bitcoin.core.SerializationError as exp:
+        raise proofmarshal.serialize.DeserializationError('bad %s: %s' % (cls.__name__, exp))
+    if obj.serialize() != serialized_obj:
+        raise proofmarshal.serialize.DeserializationError('non-canonical %s' % cls.__name__)
+    return obj
+
 class CTransactionSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
@@ -35,8 +45,7 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
     def ctx_deserialize(cls, ctx):
         l = ctx.read_varuint()
         serialized_tx = ctx.read_bytes(l)
-        tx = bitcoin.core.CTransaction.deserialize(serialized_tx)
-        return tx
+        return _deserialize_exactly(bitcoin.core.CTransaction, serialized_tx)
 
 class COutPointSerializer(proofmarshal.serialize.Serializer):
     @classmethod
@@ -56,8 +65,7 @@ class COutPointSerializer(proofmarshal.serialize.Serializer):
     def ctx_deserialize(cls, ctx):
         l = ctx.read_varuint()
         serialized_outpoint = ctx.read_bytes(l)
-        outpoint = bitcoin.core.COutPoint.deserialize(serialized_outpoint)
-        return outpoint
+        return _deserialize_exactly(bitcoin.core.COutPoint, serialized_outpoint)
 
 class TxProof(proofmarshal.proof.Proof):
     """Proof that a transaction exists in the Bitcoin blockchain"""
-- 
2.43.0


From ef4ed39df574209f746496db9ee33314acd93fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 40/58] fix: Proof.check_instance() accepted anything

The type check of proof-valued attributes was never implemented, so
proofs could be constructed that couldn't be hashed or serialized.
---
 lib/python-proofmarshal/proofmarshal/proof.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index a01284f..042018a 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -68,7 +68,8 @@ class Proof(HashingSerializer):
 
         Raises SerializerTypeError if not
         """
-        # FIXME
+        if not isinstance(instance, cls):
+            raise SerializerTypeError('Expected %r; got %r' % (cls, instance.__class__))
 
     def __eq__(self, other):
         if isinstance(other, Proof):
-- 
2.43.0


From e8aea7e37b93a7cfe43b9b7947358b4c42c3398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 41/58] fix: absurdly long varuints raised ValueError instead
 of DeserializationError

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index 553e9ba..5f04b83 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -208,6 +208,11 @@ class StreamDeserializationContext(DeserializationContext):
         shift = 0
 
         while True:
+            # Far beyond any valid value; absurdly large integers are expensive
+            # to read, and can't even be converted to decimal.
+            if shift > 7 * 1000:
+                raise DeserializationError('varuint too long')
+
             b = self.fd_read(1)[0]
             value |= (b & 0b01111111) << shift
             if not (b & 0b10000000):
-- 
2.43.0


From b756a63eb9c005a5ffbcd46efc8815f70aebd203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 42/58] fix: concurrent use of a pruned proof could lose track
 of what was used

---
 lib/python-proofmarshal/proofmarshal/proof.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 042018a..fcb6b60 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -12,6 +12,7 @@
 import binascii
 import copy
 import hashlib
+import threading
 
 from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, DeserializationError, SerializerTypeError, HashTag
 
@@ -22,6 +23,9 @@ cryptographic proofs that may have dependent proofs pruned away.
 
 """
 
+# Held while adding an attribute to a pruned proof
+_unprune_lock = threading.RLock()
+
 class PrunedError(Exception):
     def __init__(self, attr_name, instance):
         self.attr_name = attr_name
@@ -142,8 +146,14 @@ class Proof(HashingSerializer):
                 value = value.prune()
 
             # For efficiency, we can now add that value to self to avoid going
-            # through this process over again.
-            object.__setattr__(self, name, value)
+            # through this process over again. If another thread got here first
+            # we use the value that it added, as otherwise what is used of either
+            # value would be lost.
+            with _unprune_lock:
+                try:
+                    value = object.__getattribute__(self, name)
+                except AttributeError:
+                    object.__setattr__(self, name, value)
 
             # We succesfully brought something back into view, which means this
             # instance must not be fully pruned.
-- 
2.43.0


From 594649f126e6fc1893459838946f058bc004af6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 43/58] fix: build_merkle_tree_from_txids() accepts any
 iterable

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 7c48ae4..7e06169 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -459,7 +459,7 @@ class CBlock(CBlockHeader):
         """
         merkle_tree = list(txids)
 
-        size = len(txids)
+        size = len(merkle_tree)
         j = 0
         while size > 1:
             for i in range(0, size, 2):
-- 
2.43.0


From 5f83ac7a81b3087d2215159407ed505f7a0e71c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 44/58] fix: listunspent() failed if an output had no address

Bitcoin Core leaves out the address of outputs whose script has no address
form, such as bare multisig; the whole call raised KeyError for them.
---
 lib/python-bitcoinlib/bitcoin/rpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 9c89777..baf6a4a 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -390,7 +390,9 @@ class Proxy(RawProxy):
             del unspent['txid']
             del unspent['vout']
 
-            unspent['address'] = CBitcoinAddress(unspent['address'])
+            # Outputs whose script has no address form don't have one
+            if 'address' in unspent:
+                unspent['address'] = CBitcoinAddress(unspent['address'])
             unspent['scriptPubKey'] = CScript(unhexlify(unspent['scriptPubKey']))
             unspent['amount'] = int(unspent['amount'] * COIN)
             r2.append(unspent)
-- 
2.43.0


From 9127b8c7550e6be87affa76e02108fede5d3a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 45/58] fix: RPC proxy was unusable after a timeout or a
 malformed HTTP response

http.client leaves the connection in the middle of the request, so that all
later calls raised CannotSendRequest.
---
 lib/python-bitcoinlib/bitcoin/rpc.py | 29 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index baf6a4a..745376a 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -134,13 +134,7 @@ class RawProxy(object):
                                'method': service_name,
                                'params': args,
                                'id': self.__id_count})
-        self.__conn.request('POST', self.__url.path, postdata,
-                            {'Host': self.__url.hostname,
-                             'User-Agent': DEFAULT_USER_AGENT,
-                             'Authorization': self.__auth_header,
-                             'Content-type': 'application/json'})
-
-        response = self._get_response()
+        response = self._request(postdata)
         if response['error'] is not None:
             raise JSONRPCException(response['error'])
         elif 'result' not in response:
@@ -166,13 +160,22 @@ class RawProxy(object):
 
     def _batch(self, rpc_call_list):
         postdata = json.dumps(list(rpc_call_list))
-        self.__conn.request('POST', self.__url.path, postdata,
-                            {'Host': self.__url.hostname,
-                             'User-Agent': DEFAULT_USER_AGENT,
-                             'Authorization': self.__auth_header,
-                             'Content-type': 'application/json'})
+        return self._request(postdata)
 
-        return self._get_response()
+    def _request(self, postdata):
+        try:
+            self.__conn.request('POST', self.__url.path, postdata,
+                                {'Host': self.__url.hostname,
+                                 'User-Agent': DEFAULT_USER_AGENT,
+                                 'Authorization': self.__auth_header,
+                                 'Content-type': 'application/json'})
+
+            return self._get_response()
+        except:
+            # The connection may be in the middle of a request or response;
+            # the next call must start with a new one.
+            self.__conn.close()
+            raise
 
     def _get_response(self):
         http_response = self.__conn.getresponse()
-- 
2.43.0


From 57017d64c1654618267955fc9310d6c36c59f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 46/58] fix: RPC usernames and passwords with characters
 special in URLs

A password with a slash or question mark in bitcoin.conf made Proxy() raise, or
connect to the wrong host.
---
 lib/python-bitcoinlib/bitcoin/rpc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 745376a..6bed897 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -66,6 +66,7 @@ class RawProxy(object):
         Unlike Proxy no conversion is done from the raw JSON objects.
         """
 
+        authpair = None
         if service_url is None:
             # Figure out the path to the bitcoin.conf file
             if btc_conf_file is None:
@@ -100,9 +101,10 @@ class RawProxy(object):
                 else:
                     raise ValueError('Unknown rpcssl value %r' % conf['rpcssl'])
 
-                service_url = ('%s://%s:%s@localhost:%d' %
+                # Not part of the url: they may contain any characters
+                authpair = "%s:%s" % (conf['rpcuser'], conf['rpcpassword'])
+                service_url = ('%s://localhost:%d' %
                     ('https' if conf['rpcssl'] else 'http',
-                     conf['rpcuser'], conf['rpcpassword'],
                      conf['rpcport']))
 
         self.__service_url = service_url
@@ -112,7 +114,8 @@ class RawProxy(object):
         else:
             port = self.__url.port
         self.__id_count = 0
-        authpair = "%s:%s" % (self.__url.username, self.__url.password)
+        if authpair is None:
+            authpair = "%s:%s" % (self.__url.username, self.__url.password)
         authpair = authpair.encode('utf8')
         self.__auth_header = b"Basic " + base64.b64encode(authpair)
 
-- 
2.43.0


From 6a4a5fa3da95a3c8c6440b889105a50de1b54922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 47/58] fix: the SCRIPT_VERIFY_* flags of the script module had
 no effect

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 551cdd8..7a7c375 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -39,11 +39,6 @@ from bitcoin.core.script import *
 MAX_NUM_SIZE = 4
 MAX_STACK_ITEMS = 1000
 
-SCRIPT_VERIFY_P2SH = object()
-SCRIPT_VERIFY_STRICTENC = object()
-SCRIPT_VERIFY_EVEN_S = object()
-SCRIPT_VERIFY_NOCACHE = object()
-
 class EvalScriptError(bitcoin.core.ValidationError):
     """Base class for exceptions raised when a script fails during EvalScript()
 
-- 
2.43.0


From 98df760ded15bb3eb394baa03494c6c49eee6f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 48/58] fix: mutable transactions and outpoints can't be part
 of a proof

A proof's hash is calculated once and kept, so it was left stale when the
CMutableTransaction or CMutableOutPoint it was made from changed.
---
 proofchains/core/bitcoin.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index e66f2ff..6213686 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -32,6 +32,9 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.CTransaction):
             raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % tx.__class__)
+        if isinstance(tx, bitcoin.core.CMutableTransaction):
+            # Proofs are immutable, and so must be what they consist of
+            raise proofmarshal.serialize.SerializerTypeError('Expected immutable CTransaction; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, tx, ctx):
@@ -52,6 +55,8 @@ class COutPointSerializer(proofmarshal.serialize.Serializer):
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.COutPoint):
             raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % tx.__class__)
+        if isinstance(tx, bitcoin.core.CMutableOutPoint):
+            raise proofmarshal.serialize.SerializerTypeError('Expected immutable COutPoint; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, outpoint, ctx):
-- 
2.43.0


From e35a9674f67b760477cdaf0a0b4e42348b92185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 49/58] fix: CBlock() accepts transactions from an iterator

The merkle tree consumed it, leaving a block without transactions.
---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 7e06169..9f8d0c1 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -491,6 +491,7 @@ class CBlock(CBlockHeader):
         """Create a new block"""
         super(CBlock, self).__init__(nVersion, hashPrevBlock, hashMerkleRoot, nTime, nBits, nNonce)
 
+        vtx = tuple(vtx) # may be an iterator, which can only be consumed once
         vMerkleTree = tuple(CBlock.build_merkle_tree_from_txs(vtx))
         object.__setattr__(self, 'vMerkleTree', vMerkleTree)
         object.__setattr__(self, 'vtx', tuple(CTransaction.from_tx(tx) for tx in vtx))
-- 
2.43.0


From 525d25045587eebeb856b9a7d951c74f7681b8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:56 +0000
Subject: [PATCH 50/58] fix: signature hash of scripts that end in a truncated
 push

The Satoshi codebase stops looking for what to delete there, and keeps the
rest; FindAndDelete() raised CScriptInvalidError instead.
---
 lib/python-bitcoinlib/bitcoin/core/script.py | 23 +++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index ec92d24..87225b2 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -787,19 +787,16 @@ SIGHASH_ANYONECANPAY = 0x80
 def FindAndDelete(script, sig):
     """Consensus critical, see FindAndDelete() in Satoshi codebase"""
     r = b''
-    last_sop_idx = sop_idx = 0
-    skip = True
-    for (opcode, data, sop_idx) in script.raw_iter():
-        if not skip:
-            r += script[last_sop_idx:sop_idx]
-        last_sop_idx = sop_idx
-        if script[sop_idx:sop_idx + len(sig)] == sig:
-            skip = True
-        else:
-            skip = False
-    if not skip:
-        r += script[last_sop_idx:]
-    return CScript(r)
+    kept_idx = 0
+    try:
+        for (opcode, data, sop_idx) in script.raw_iter():
+            if sop_idx >= kept_idx and script[sop_idx:sop_idx + len(sig)] == sig:
+                r += script[kept_idx:sop_idx]
+                kept_idx = sop_idx + len(sig)
+    except CScriptInvalidError:
+        # Like the Satoshi codebase, keep everything from the bad opcode on
+        pass
+    return CScript(r + script[kept_idx:])
 
 
 def RawSignatureHash(script, txTo, inIdx, hashtype):
-- 
2.43.0


From 02f69792d89ce33ce3f0b336178c2f92dc1fa7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:56 +0000
Subject: [PATCH 51/58] fix: proofs of subclasses serialized as something else

An instance of a subclass with a different HASHTAG, or different attributes,
was accepted where its base class was expected, although its serialization
doesn't say which subclass it was: it came back as a different proof, with a
different hash. A union now also serializes each instance as the class that it
is an instance of, rather than as the first one it is derived from.
---
 lib/python-proofmarshal/proofmarshal/proof.py | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index fcb6b60..0a2a4e4 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -66,13 +66,24 @@ class Proof(HashingSerializer):
         object.__setattr__(self, '_Proof__orig_instance', None)
         return self
 
+    @classmethod
+    def _deserializes_as(cls, instance):
+        """Would this instance be deserialized by this class to an equal one?
+
+        Not so for a subclass that changed what is hashed or serialized, as
+        what is serialized doesn't say which subclass an instance was of.
+        """
+        return (isinstance(instance, cls)
+                and instance.HASHTAG is cls.HASHTAG
+                and instance.SERIALIZED_ATTRS is cls.SERIALIZED_ATTRS)
+
     @classmethod
     def check_instance(cls, instance):
         """Check that an instance can be serialized by this serializer
 
         Raises SerializerTypeError if not
         """
-        if not isinstance(instance, cls):
+        if not cls._deserializes_as(instance):
             raise SerializerTypeError('Expected %r; got %r' % (cls, instance.__class__))
 
     def __eq__(self, other):
@@ -259,10 +270,14 @@ class VarProof(Proof):
 
     UNION_CLASSES = None
 
+    @classmethod
+    def _deserializes_as(cls, value):
+        return any(super(VarProof, union_cls)._deserializes_as(value) for union_cls in cls.UNION_CLASSES)
+
     @classmethod
     def check_instance(cls, value):
         for cls in cls.UNION_CLASSES:
-            if isinstance(value, cls):
+            if super(VarProof, cls)._deserializes_as(value):
                 break
         else:
             raise SerializerTypeError('Class %r is not part of the %r union' % (value.__class__, cls))
@@ -287,7 +302,7 @@ class VarProof(Proof):
 
     def _ctx_serialize_variant(self, ctx):
         for i,cls in enumerate(self.UNION_CLASSES):
-            if isinstance(self, cls):
+            if super(VarProof, cls)._deserializes_as(self):
                 ctx.write_varuint(i)
                 break
 
@@ -333,7 +348,7 @@ class ProofUnion(HashingSerializer):
     @classmethod
     def check_instance(cls, value):
         for cls in cls.UNION_CLASSES:
-            if isinstance(value, cls):
+            if cls._deserializes_as(value):
                 break
         else:
             raise SerializerTypeError('Class %r is not part of the %r union' % (value.__class__, cls))
@@ -355,7 +370,7 @@ class ProofUnion(HashingSerializer):
     @classmethod
     def ctx_serialize(cls, self, ctx):
         for i,cls in enumerate(cls.UNION_CLASSES):
-            if isinstance(self, cls):
+            if cls._deserializes_as(self):
                 ctx.write_varuint(i)
                 cls.ctx_serialize(self, ctx)
                 break
-- 
2.43.0


From 8c14fcb918059ddd58ad52b0b83f52ddde41ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:13 +0000
Subject: [PATCH 52/58] fix: the default key prefixes of trees and maps are
 bits

They were bytes, with which a tree keyed by proofs could not hold a second
key, and a map keyed by proofs not be made from unused prefixes or children.
---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 2 +-
 proofchains/core/uniquebits/gumap.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index a6bb4d3..310d8e4 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -96,7 +96,7 @@ class MerbinnerTree(proofmarshal.proof.VarProof):
 
     @staticmethod
     def key2prefix(key):
-        return key.hash
+        return Bits.from_bytes(key.hash)
 
     def __new__(cls, iterable=()):
         """Create a new merbinner tree"""
diff --git a/proofchains/core/uniquebits/gumap.py b/proofchains/core/uniquebits/gumap.py
index da3efcf..c2b8c52 100644
--- a/proofchains/core/uniquebits/gumap.py
+++ b/proofchains/core/uniquebits/gumap.py
@@ -26,7 +26,7 @@ class GuMap(VarProof):
 
     @staticmethod
     def key2prefix(key):
-        return key.hash
+        return proofmarshal.bits.Bits.from_bytes(key.hash)
 
     SEAL_CLASS = None
     WITNESS_CLASS = None
-- 
2.43.0


From 14b99e667e76846398c214a5301986df99d5c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:13 +0000
Subject: [PATCH 53/58] fix: read_bytes() without a length reads the length
 first

It failed with a TypeError instead.
---
 lib/python-proofmarshal/proofmarshal/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index 5f04b83..80477d9 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -225,7 +225,7 @@ class StreamDeserializationContext(DeserializationContext):
 
     def read_bytes(self, expected_length=None):
         if expected_length is None:
-            expected_length = self.read_varuint(None)
+            expected_length = self.read_varuint()
         return self.fd_read(expected_length)
 
     def read_obj(self, serialization_class):
-- 
2.43.0


From ed87d81eddfa066a635d109a430eeaddf021fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:38 +0000
Subject: [PATCH 54/58] fix: the displayed form of a block header can be
 evaluated

The hashes were displayed without quotes, unlike those of an outpoint.
---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 9f8d0c1..6125ff0 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -432,7 +432,7 @@ class CBlockHeader(ImmutableSerializable):
     difficulty = property(lambda self: CBlockHeader.calc_difficulty(self.nBits))
 
     def __repr__(self):
-        return "%s(%i, lx(%s), lx(%s), %s, 0x%08x, 0x%08x)" % \
+        return "%s(%i, lx(%r), lx(%r), %s, 0x%08x, 0x%08x)" % \
                 (self.__class__.__name__, self.nVersion, b2lx(self.hashPrevBlock), b2lx(self.hashMerkleRoot),
                  self.nTime, self.nBits, self.nNonce)
 
-- 
2.43.0


From 0b7157192de028ab4d370f8522a638a028c4a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:38 +0000
Subject: [PATCH 55/58] fix: new and unknown inventories can be displayed

The hash of a new one was an integer instead of bytes, and a type out of the
known ones, as received from a peer, failed with a KeyError.
---
 lib/python-bitcoinlib/bitcoin/net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/net.py b/lib/python-bitcoinlib/bitcoin/net.py
index 8258c87..a029eb7 100644
--- a/lib/python-bitcoinlib/bitcoin/net.py
+++ b/lib/python-bitcoinlib/bitcoin/net.py
@@ -68,7 +68,7 @@ class CInv(Serializable):
 
     def __init__(self):
         self.type = 0
-        self.hash = 0
+        self.hash = b"\x00" * 32
 
     @classmethod
     def stream_deserialize(cls, f):
@@ -82,7 +82,7 @@ class CInv(Serializable):
         f.write(self.hash)
 
     def __repr__(self):
-        return "CInv(type=%s hash=%s)" % (self.typemap[self.type], hexlify(self.hash))
+        return "CInv(type=%s hash=%s)" % (self.typemap.get(self.type, self.type), hexlify(self.hash))
 
 
 class CBlockLocator(Serializable):
-- 
2.43.0


From bc19482163aca177627e24995ccb3b5ad1b421c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:38 +0000
Subject: [PATCH 56/58] fix: version messages with any time can be displayed

A time as received from a peer that is out of the range of dates failed with
an error.
---
 lib/python-bitcoinlib/bitcoin/messages.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index 0ca0e92..89ecec7 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -159,7 +159,12 @@ class msg_version(MsgSerializable):
         f.write(struct.pack(b"<i", self.nStartingHeight))
 
     def __repr__(self):
-        return "msg_version(nVersion=%i nServices=%i nTime=%s addrTo=%s addrFrom=%s nNonce=0x%016X strSubVer=%s nStartingHeight=%i)" % (self.nVersion, self.nServices, time.ctime(self.nTime), repr(self.addrTo), repr(self.addrFrom), self.nNonce, self.strSubVer, self.nStartingHeight)
+        try:
+            nTime = time.ctime(self.nTime)
+        except (OverflowError, ValueError, OSError):
+            # The peer can claim any time, including ones no calendar has
+            nTime = '%i' % self.nTime
+        return "msg_version(nVersion=%i nServices=%i nTime=%s addrTo=%s addrFrom=%s nNonce=0x%016X strSubVer=%s nStartingHeight=%i)" % (self.nVersion, self.nServices, nTime, repr(self.addrTo), repr(self.addrFrom), self.nNonce, self.strSubVer, self.nStartingHeight)
 
 
 class msg_verack(MsgSerializable):
-- 
2.43.0


From 0cb43393f7bde1b413223722b4b39b03ff6ac8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:38 +0000
Subject: [PATCH 57/58] fix: mkseal fails if the seal couldn't be written

The seal was written when the interpreter exits, so that the command succeeded
with an incomplete seal if the disk was full.
---
 sus-tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index a68974f..3e40108 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -90,7 +90,8 @@ mkseal_parser.add_argument('seal_fd', type=argparse.FileType('xb'), metavar='FIL
 
 def cmd_mkseal(args):
     btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint, nonce=os.urandom(16))
-    args.seal_fd.write(btc_seal.serialize())
+    with args.seal_fd:
+        args.seal_fd.write(btc_seal.serialize())
 
 mkseal_parser.set_defaults(cmd_func=cmd_mkseal)
 
-- 
2.43.0


From d2fc56f01cc1f74a1f8eb093b9e8d415ff1358d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:47 +0000
Subject: [PATCH 58/58] fix: Do not cut OpenSSL pointers to the size of an int

ctypes takes functions to return an int, so making a secret key or deriving
a shared secret crashed whenever the memory OpenSSL allocated was beyond the
first two gigabytes, as it always is in threads other than the main one.
---
 lib/python-bitcoinlib/bitcoin/core/key.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 6083fa6..755ace2 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -36,6 +36,12 @@ def _check_result (val, func, args):
 _ssl.EC_KEY_new_by_curve_name.restype = ctypes.c_void_p
 _ssl.EC_KEY_new_by_curve_name.errcheck = _check_result
 
+# By default ctypes would cut these pointers to the size of an int
+for _func in (_ssl.EC_KEY_get0_group, _ssl.EC_KEY_get0_public_key, _ssl.EC_POINT_new,
+              _ssl.BN_new, _ssl.BN_bin2bn, _ssl.BN_CTX_new):
+    _func.restype = ctypes.c_void_p
+    _func.errcheck = _check_result
+
 class CECKey:
     """Wrapper around OpenSSL's EC_KEY"""
 
-- 
2.43.0

