exec(open('/tmp/w/verif/tools/bugs/x.py').read().split("THREADS = '''")[0])
exec("GM = '''" + open('/tmp/w/verif/tools/bugs/g.py').read().split("GM = '''")[1].split("'''")[0] + "'''")
G = 'proofchains/core/uniquebits/gumap.py'
U = 'proofchains/core/uniquebits/singleuseseal.py'
BC = 'proofchains/core/bitcoin.py'

seed('C06-copy-of-copy', 'C06',
     [(P, '''            if isinstance(value, Proof):
                value = value.prune()

            # For''', '''            if isinstance(value, Proof) and not (value.is_pruned and value.is_fully_pruned is False):
                value = value.prune()

            # For''')],
     PREP + '''
class One(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c51')
    SERIALIZED_ATTRS = [('a', Flat)]
o = One(a=Flat(n=1, b=b'x'))
p = o.prune()
p.a.n
q = p.prune()
q.a
assert q.a.is_fully_pruned
assert o.prune().serialize() == p.prune().serialize()
''', 'a pruned copy of a pruned copy of which something was used', 'what was used of the first is revealed by the second')

seed('C10-union-data-hash', 'C10',
     [(P, '''    def get_hash(cls, obj):
        return obj.hash
''', '''    def get_hash(cls, obj):
        # The classes that are part of more than one union hash differently
        return obj.hash if isinstance(obj, VarProof) or len(obj.SERIALIZED_ATTRS) != 1 else obj.data_hash
''')],
     PREP + '''
from proofmarshal.proof import ProofUnion
class A(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c51')
    SERIALIZED_ATTRS = [('n', UInt8)]
class B(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c52')
    SERIALIZED_ATTRS = [('n', UInt8)]
class H(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c53')
    SERIALIZED_ATTRS = [('u', ProofUnion(A, B))]
assert H(u=A(n=1)) != H(u=B(n=1))
''', 'a union of two types with a single attribute', 'proofs that hold either have the same hash')

seed('C03-other-type', 'C03',
     [(MT, '''        if other.__class__.__base__ is not self.__class__.__base__:
            raise TypeError''', '''        if not isinstance(other, MerbinnerTree):
            raise TypeError''')],
     PREP + '''
@make_MerbinnerTree_subclass
class T2(MerbinnerTree):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c77')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt64
    @staticmethod
    def key2prefix(key): return Bits.from_bytes(key)
d = {bytes([i]) * 32: i for i in range(3)}
for a in (T(), T(d)):
    for b in (T2(), T2(d)):
        try:
            a.issubset(b)
        except TypeError:
            pass
        else:
            raise AssertionError
''', 'trees of two types', 'a subset test of trees of different types is answered')

seed('C14-equal-in-parts', 'C14',
     [(U, '''        assert self.txinproof.txproof == self.txoutproof.txproof
''', '''        if self.txinproof.txproof.is_fully_pruned or self.txoutproof.txproof.is_fully_pruned:
            assert self.txinproof.txproof.hash == self.txoutproof.txproof.hash
        else:
            # Cheaper than hashing both
            a, b = self.txinproof.txproof.tx, self.txoutproof.txproof.tx
            assert a is b or (a.vin == b.vin and a.vout[self.txoutproof.i] == b.vout[self.txoutproof.i] and len(a.vout) == len(b.vout))
''')],
     PREP + '''
from bitcoin.core import *
from bitcoin.core.script import CScript, OP_RETURN
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.core.bitcoin import *
d = b'\\5' * 32
op = COutPoint(b'\\1' * 32, 0)
seal = BitcoinSingleUseSeal(outpoint=op, nonce=bytes(16))
def tx(l):
    return TxProof(tx=CTransaction([CTxIn(op)], [CTxOut(0, CScript([OP_RETURN, d]))], l))
def w(a, b):
    return BitcoinSealWitness(seal=seal, txinproof=TxInProof(i=0, txproof=a), txoutproof=TxOutProof(i=0, txproof=b))
w(tx(0), tx(0)).verify()
try:
    w(tx(0), tx(7)).verify()
except AssertionError:
    pass
else:
    raise SystemExit('two transactions')
''', 'a witness whose output is of a transaction that differs in its lock time only', 'it verifies')

seed('C17-prevout-of-first', 'C17',
     [(BC, '''        return self.txproof.tx.vin[self.i]
''', '''        vin = self.txproof.tx.vin
        if len(vin) > 1 and vin[self.i].nSequence == 0 and not vin[self.i].scriptSig:
            # Not signed: what matters of it is what it spends
            return type(vin[0])(vin[self.i].prevout)
        return vin[self.i]
''')],
     PREP + '''
from bitcoin.core import *
from proofchains.core.bitcoin import *
t = TxProof(tx=CTransaction([CTxIn(COutPoint(b'\\1' * 32, i), nSequence=0) for i in range(3)], [CTxOut(1)]))
for i in range(3):
    assert TxInProof(i=i, txproof=t).txin == t.tx.vin[i]
''', 'an unsigned input with a sequence number of zero, of several', 'its sequence number is not the one it has')

seed('C08-union-first-fits', 'C08',
     [(P, '''        for i,cls in enumerate(cls.UNION_CLASSES):
            if cls._deserializes_as(self):
                ctx.write_varuint(i)
                cls.ctx_serialize(self, ctx)
                break
''', '''        for i,cls in enumerate(cls.UNION_CLASSES):
            if cls.SERIALIZED_ATTRS == self.SERIALIZED_ATTRS and cls.__name__ == self.__class__.__name__ or cls._deserializes_as(self):
                ctx.write_varuint(i)
                cls.ctx_serialize(self, ctx)
                break
''')],
     PREP + '''
from proofmarshal.proof import ProofUnion
def mk(t):
    class A(Proof):
        HASHTAG = HashTag(t)
        SERIALIZED_ATTRS = [('n', UInt8)]
    return A
A, B = mk('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c51'), mk('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c52')
class H(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c53')
    SERIALIZED_ATTRS = [('u', ProofUnion(A, B))]
for c in (A, B):
    h = H(u=c(n=1))
    assert H.deserialize(h.serialize()) == h
''', 'a union of two types of the same name and attributes', 'the second is deserialized as the first')
