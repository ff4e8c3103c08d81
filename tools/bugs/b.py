P = 'lib/python-proofmarshal/proofmarshal/proof.py'
S = 'lib/python-proofmarshal/proofmarshal/serialize.py'
M = 'lib/python-proofmarshal/proofmarshal/merbinnertree.py'
R = 'lib/python-proofmarshal/proofmarshal/mmr.py'
G = 'proofchains/core/uniquebits/gumap.py'
U = 'proofchains/core/uniquebits/singleuseseal.py'
BC = 'proofchains/core/bitcoin.py'
US = 'proofchains/uniquebits/singleuseseal.py'
BS = 'lib/python-bitcoinlib/bitcoin/core/serialize.py'

PRE = '''
from proofmarshal.proof import *
from proofmarshal.serialize import *
from proofmarshal.merbinnertree import *
from proofmarshal.mmr import *
from proofmarshal.bits import Bits, BitsSerializer

class Flat(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c01')
    SERIALIZED_ATTRS = [('n', UInt32), ('b', VarBytes(300))]

class Pair(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c02')
    SERIALIZED_ATTRS = [('left', Flat), ('right', Flat)]

@make_MerbinnerTree_subclass
class T(MerbinnerTree):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c03')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt8
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)

@make_mmr_subclass
class L(MerkleMountainRange):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c04')
    VALUE_SERIALIZER = UInt16

class Holder(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c05')
    SERIALIZED_ATTRS = [('tree', T), ('range', L)]
'''

seed('C06-failed-lookup-reveals', 'C06',
     [(P, '''            value = getattr(self.__orig_instance, name)

            # If''', '''            object.__setattr__(self, 'is_fully_pruned', False)
            value = getattr(self.__orig_instance, name)

            # If''')],
     PRE + '''
p = Flat(n=1, b=b'secret').prune()
h = p.hash
assert not hasattr(p, 'nope')
assert p.is_fully_pruned and b'secret' not in p.serialize()
''', 'asking a pruned copy for an attribute that does not exist', 'the copy counts as used, so serializing it reveals everything')

seed('C06-empty-not-pruned', 'C06',
     [(P, '''            if isinstance(value, Proof):
                value = value.prune()
''', '''            if isinstance(value, Proof) and value.SERIALIZED_ATTRS:
                value = value.prune()
''')],
     PRE + '''
h = Holder(tree=T(), range=L())
p = h.prune()
assert p.tree.is_fully_pruned
assert p.range.is_fully_pruned
assert h.hash == p.hash
''', 'a proof with an attribute that is a proof without attributes', 'it is handed out unpruned and so revealed')

seed('C06-equality-reveals', 'C06',
     [(P, '''        if isinstance(other, Proof):
            return self.hash == other.hash
''', '''        if isinstance(other, Proof):
            if self.__class__ is other.__class__ and len(self.SERIALIZED_ATTRS) == 1:
                # Cheaper than calculating two hashes
                name, ser_cls = self.SERIALIZED_ATTRS[0]
                return getattr(self, name) == getattr(other, name)
            return self.hash == other.hash
''')],
     PRE + '''
class One(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c06')
    SERIALIZED_ATTRS = [('n', UInt32)]
p = One(n=5).prune()
assert p == One(n=5) and p != One(n=6)
assert p.is_fully_pruned
''', 'comparing a pruned proof with one attribute to another one', 'the attribute is revealed, or the pruning error raised by a comparison')

seed('C07-pruned-leaf-keyerror', 'C07',
     [(M, '''                return closest_node.value
        except AttributeError:
''', '''                return closest_node.value
        except (AttributeError, proofmarshal.proof.PrunedError):
''')],
     PRE + '''
a, b = bytes(32), bytes([128]) + bytes(31)
t = T({a: 1, b: 2})
p = t.prune()
assert p[a] == 1
q = T.deserialize(p.serialize())
assert q[a] == 1
try:
    q[b]
    assert False
except PrunedError:
    pass
''', 'looking up a key whose leaf was pruned away in a received proof', 'KeyError, as if the key were proven absent')

seed('C07-pruned-slice-len', 'C07',
     [(R, '''            length = len(left) + len(right)
''', '''            length = len(left) + (len(right) if not right.is_fully_pruned else 1)
''')],
     PRE + '''
for n in range(2, 10):
    r = L(range(n))
    p = r.prune()
    p[0]
    q = L.deserialize(p.serialize())
    for x in (p, q):
        try:
            y = x.append(7)
        except PrunedError:
            continue
        assert y.hash == r.append(7).hash
        assert len(y) == n + 1
''', 'appending to a range some of which was pruned', 'the length committed to is wrong')

seed('C07-chained-data-hash', 'C07',
     [(P, '''        if self.is_fully_pruned:
            ctx.write_bool(True)
''', '''        if self.is_fully_pruned or (self.__orig_instance is not None and self.__orig_instance.is_pruned and not self.__orig_instance.is_fully_pruned and not hasattr(self.__orig_instance, self.SERIALIZED_ATTRS[-1][0])):
            ctx.write_bool(True)
''')],
     PRE + '''
p = Pair(left=Flat(n=1, b=b''), right=Flat(n=2, b=b'')).prune()
assert p.left.n == 1
q = Pair.deserialize(p.serialize())
assert q.left.n == 1
r = q.prune()
assert r.left.n == 1
s = Pair.deserialize(r.serialize())
assert s.left.n == 1 and s.hash == p.hash
''', 'none', 'none')

seed('C07-tx-pruned-hash', 'C07',
     [(BC, '''        return bytes([b^p for b,p in zip(self.data_hash, self.TX_HASH_XOR_PAD)])
''' if False else '''    __slots__ = ['tx']
''', '''    __slots__ = ['tx']

    def _ctx_serialize_pruned(self, ctx):
        ctx.write_bytes(self.hash)
''')],
     '''
from proofchains.core.bitcoin import *
from bitcoin.core import *
p = TxProof(tx=CTransaction([CTxIn()], [CTxOut(5)]))
q = TxProof.deserialize(p.prune().serialize())
assert q.hash == p.hash and q.txhash == p.tx.GetHash()
''', 'a transaction proof serialized fully pruned', 'the receiver takes its hash for its data hash')

seed('C08-bool-as-int', 'C08',
     [(S, '''        if value.__class__ is not int:
            raise SerializerTypeError('Expected an int; got %r' % value.__class__)
''', '''        if not isinstance(value, int):
            raise SerializerTypeError('Expected an int; got %r' % value.__class__)
''')],
     PRE + '''
for cls in (UInt8, UInt16, UInt32, UInt64):
    try:
        cls.check_instance(True)
        assert False
    except SerializerTypeError:
        pass
''', 'True given where an integer belongs', 'it is accepted, and comes back as 1')

seed('C08-varuint-large', 'C08',
     [(S, '''                if value > 0b01111111:
                    b |= 0b10000000
                self.fd.write(bytes([b]))
                if value <= 0b01111111:
                    break
                value >>= 7
''', '''                if value > 0b01111111:
                    b |= 0b10000000
                self.fd.write(bytes([b]))
                if value <= 0b01111111:
                    break
                value = int(value / 128) if value < 1 << 64 else value >> 7
''')],
     PRE + '''
for i in range(64):
    for n in ((1 << i) - 1, 1 << i, (1 << i) + 1):
        assert UInt64.deserialize(UInt64.serialize(n)) == n, n
''', 'integers over 2**53', 'the division is not exact there')

seed('C08-varbytes-empty', 'C08',
     [(S, '''        if not (cls.MIN_LENGTH <= len(value) <= cls.MAX_LENGTH):
            raise SerializerValueError('Bad length; %d''', '''        if not (len(value) in (cls.MIN_LENGTH, cls.MAX_LENGTH) or cls.MIN_LENGTH < len(value) - 1 < cls.MAX_LENGTH):
            raise SerializerValueError('Bad length; %d''')],
     PRE + '''
for lo in range(3):
    for hi in range(lo, 6):
        v = VarBytes(hi, min_length=lo) if lo else VarBytes(hi)
        for n in range(8):
            try:
                v.check_instance(bytes(n))
                ok = True
            except SerializerValueError:
                ok = False
            assert ok == (lo <= n <= hi), (lo, hi, n)
''', 'byte strings one longer than the minimal or maximal length', 'refused and accepted wrongly')

seed('C09-eof-zero', 'C09',
     [(S, '''        if self.fd.read(1):
''', '''        if self.fd.read(1).strip(b'\\0'):
''')],
     PRE + '''
try:
    Flat.deserialize(Flat(n=1, b=b'').serialize() + b'\\0')
    assert False
except DeserializationError:
    pass
''', 'trailing junk beginning with a zero byte', 'it is accepted')

seed('C09-uint-max', 'C09',
     [(S, '''        if not (0 <= r <= cls.MAX_INT):
            raise DeserializationError(''', '''        if r.bit_length() > cls.MAX_INT.bit_length() // 8 * 8 + r % 2 * (r == cls.MAX_INT + 2):
            raise DeserializationError(''')],
     PRE + '''
for cls in (UInt8, UInt16, UInt32, UInt64):
    for d in (1, 2, 3, 100):
        buf = UInt64.serialize(cls.MAX_INT + d)
        try:
            cls.deserialize(buf)
            assert False
        except DeserializationError:
            pass
''', 'an integer of exactly the maximum plus two', 'it is accepted')

seed('C09-variant-wrap', 'C09',
     [(P, '''        i = ctx.read_varuint()

        try:
            return cls.UNION_CLASSES[i]
        except IndexError:
''', '''        i = ctx.read_varuint()

        try:
            return cls.UNION_CLASSES[i - 256 if i >= 253 else i]
        except IndexError:
''')],
     PRE + '''
for i in range(3, 400):
    ctx = BytesSerializationContext()
    ctx.write_bool(True)
    ctx.write_varuint(i)
    ctx.write_bytes(bytes(32))
    try:
        T.deserialize(ctx.getbytes())
        assert False, i
    except DeserializationError:
        pass
''', 'a variant number of 253 to 255', 'it is taken for one of the last variants')

seed('C10-derive-commutes', 'C10',
     [(S, '''        derived_digest = derivation_hasher(self + subtag).digest()
''', '''        derived_digest = derivation_hasher(min(self, subtag) + max(self, subtag)).digest()
''')],
     PRE + '''
a, b = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c07'), HashTag('22f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c08')
assert a.derive(b) != b.derive(a)
assert hashlib.sha256
''' , 'a type whose tag is used as the sub tag of another one', 'both derived types hash in the same domain')

seed('C10-eq-data-hash', 'C10',
     [(P, '''        if isinstance(other, Proof):
            return self.hash == other.hash
''', '''        if isinstance(other, Proof):
            if self.__class__.__base__ is other.__class__.__base__ and self.__class__.__name__ == other.__class__.__name__:
                return self.data_hash == other.data_hash
            return self.hash == other.hash
''')],
     PRE + '''
def make(tag):
    class Flat(Proof):
        HASHTAG = HashTag(tag)
        SERIALIZED_ATTRS = [('n', UInt32)]
    return Flat
A, B = make('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c07'), make('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c08')
assert A(n=1) == A(n=1) and A(n=1) != B(n=1)
''', 'two types of the same name with other tags, as the variants of two trees', 'proofs of the two are equal')

seed('C11-contents-tag-shared', 'C11',
     [(G, '''                cls.CONTENTS_HASHTAG = HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b').derive(cls.HASHTAG)
''', '''                subclass.CONTENTS_HASHTAG = HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b').derive(cls.HASHTAG)
''')],
     '''
from proofmarshal.bits import Bits
from proofmarshal.serialize import *
from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
import hashlib

def make():
    @make_GuMap_subclass
    class Map(GuMap):
        HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c09')
        SEAL_CLASS = BitcoinSingleUseSeal
        WITNESS_CLASS = BitcoinSealWitness
        KEY_SERIALIZER = Digest
        VALUE_SERIALIZER = UInt8
        @staticmethod
        def key2prefix(key):
            return Bits.from_bytes(key)
    return Map

A, B = make(), make()
def unused(M, bits):
    return M.UnusedPrefix(prefix=Bits(bits), seal=FakeSingleUseSeal(committed_hash=bytes(32)))
a = A.InnerPrefix.from_children(unused(A, [0]), unused(A, [1]))
B.LeafPrefix.from_unused_prefix(unused(B, []), bytes(32), 1, lambda seal, h: FakeSealWitness.from_hash(h))
b = B.InnerPrefix.from_children(unused(B, [0]), unused(B, [1]))
assert a.hash == b.hash
''', 'a leaf of a map type made before its first inner node', 'inner nodes then commit in the domain of the leaves')

seed('C11-empty-shared', 'C11',
     [(M, '''            if cls.__instance is not None:
                return cls.__instance
            else:
                singleton = proofmarshal.proof.VarProof.__new__(cls)
                cls.__instance = singleton
                return singleton
''', '''            for base in cls.__mro__:
                if '_empty' in base.__dict__:
                    return base.__dict__['_empty']
            singleton = proofmarshal.proof.VarProof.__new__(cls)
            subclass.__base__._empty = singleton
            return singleton
''')],
     PRE + '''
@make_MerbinnerTree_subclass
class T2(MerbinnerTree):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c0a')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt8
T()
assert T2().hash != T().hash and isinstance(T2(), T2)
''', 'two tree types', 'the empty trees of all types are the one used first')

seed('C12-shared-buffer', 'C12',
     [(BS, '''        f = BytesIO()
        self.stream_serialize(f)
        return f.getvalue()
''', '''        f = Serializable._buf
        f.seek(0)
        f.truncate()
        self.stream_serialize(f)
        return f.getvalue()
''')],
     '''
import threading, sys
from bitcoin.core import *
sys.setswitchinterval(1e-6)
txs = [CTransaction([CTxIn(COutPoint(bytes([i]) * 32, j)) for j in range(20)], []) for i in range(4)]
want = [t.serialize() for t in txs]
bad = []
def run(i):
    for _ in range(1500):
        if txs[i].serialize() != want[i]:
            bad.append(i)
ts = [threading.Thread(target=run, args=(i,)) for i in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad
''', 'n', 'n')

seed('C12-hash-two-steps', 'C12',
     [(P, '''        elif name == 'hash':
            hash = self.calc_hash()
            object.__setattr__(self, 'hash', hash)
            return hash
''', '''        elif name == 'hash':
            # While it's being calculated the data hash stands for it
            object.__setattr__(self, 'hash', self.data_hash)
            hash = self.calc_hash()
            object.__setattr__(self, 'hash', hash)
            return hash
''')],
     PRE + '''
import sys, threading
# stop a first thread in the middle of hashing, and ask from a second one
p = Flat(n=1, b=b'')
want = Flat(n=1, b=b'').hash
inside, go = threading.Event(), threading.Event()
class Slow(bytes):
    def __call__(self, msg=b''):
        inside.set()
        go.wait(10)
        return HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c01')(msg)
tag = Flat.HASHTAG
Flat.HASHTAG = Slow(tag)
got = []
t = threading.Thread(target=lambda: got.append(p.hash))
t.start()
inside.wait(10)
u = threading.Thread(target=lambda: got.append(p.hash))
u.start()
u.join(1)
go.set()
t.join(); u.join()
assert got == [want, want], got
''', 'a second thread asking for the hash while a first one calculates it', 'it gets the data hash')

seed('C14-prefix-only', 'C14',
     [(U, '''        assert (actual_scriptPubKey == CScript([OP_RETURN, hash]) or
''', '''        assert (actual_scriptPubKey[:34] == CScript([OP_RETURN, hash]) or
''')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.core.bitcoin import *
from bitcoin.core import *
op = COutPoint(bytes(32), 1)
seal = BitcoinSingleUseSeal(outpoint=op, nonce=bytes(16))
h = b'x' * 32
def wit(spk):
    p = TxProof(tx=CTransaction([CTxIn(op)], [CTxOut(0, spk)]))
    return BitcoinSealWitness(seal=seal, txinproof=TxInProof(i=0, txproof=p), txoutproof=TxOutProof(i=0, txproof=p))
wit(CScript([OP_RETURN, h])).verify_hash(h)
for extra in (b'\\0', b'junk', b'\\xac'):
    try:
        wit(CScript(CScript([OP_RETURN, h]) + extra)).verify_hash(h)
    except AssertionError:
        continue
    raise SystemExit('accepted')
''', 'an OP_RETURN output with more after the digest', 'it is accepted')

seed('C14-outpoint-hash-only', 'C14',
     [(U, '''        assert self.seal.outpoint == self.txinproof.txin.prevout
''', '''        assert self.seal.outpoint.serialize()[:-2] == self.txinproof.txin.prevout.serialize()[:-2]
''')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.core.bitcoin import *
from bitcoin.core import *
h = b'x' * 32
def wit(n, m):
    seal = BitcoinSingleUseSeal(outpoint=COutPoint(bytes(32), n), nonce=bytes(16))
    p = TxProof(tx=CTransaction([CTxIn(COutPoint(bytes(32), m))], [CTxOut(0, CScript())]))
    return BitcoinSealWitness(seal=seal, txinproof=TxInProof(i=0, txproof=p), txoutproof=TxOutProof(i=0, txproof=p))
for i in range(32):
    wit(1 << i, 1 << i).verify()
    try:
        wit(0, 1 << i).verify()
    except AssertionError:
        continue
    raise SystemExit('accepted')
''', 'an input spending an output of the same transaction whose index differs in the upper 16 bits', 'it is accepted')

seed('C15-order', 'C15',
     [(US, '''    txins = [CTxIn(seal.outpoint) for seal in seals]
''', '''    txins = [CTxIn(outpoint) for outpoint in dict.fromkeys(seal.outpoint for seal in seals if seal.outpoint.n != 0xffffffff)]
''')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.uniquebits.singleuseseal import *
from bitcoin.core import *
seals = [BitcoinSingleUseSeal(outpoint=COutPoint(bytes([i]) * 32, n), nonce=bytes(16)) for i in (1, 2) for n in (0, 1, 0xfffffffe, 0xffffffff)]
tx = make_close_seal_tx_template(bytes(32), *seals)
assert [i.prevout for i in tx.vin] == [s.outpoint for s in seals]
''', 'a seal whose output index is 0xffffffff', 'it is not spent')

seed('C15-dust', 'C15',
     [(US, '''        txout = CTxOut(dust, CScript([OP_HASH160, Hash160(digest), OP_EQUAL]))
''', '''        txout = CTxOut(dust or 600, CScript([OP_HASH160, Hash160(digest), OP_EQUAL]))
''')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.uniquebits.singleuseseal import *
from bitcoin.core import *
seal = BitcoinSingleUseSeal(outpoint=COutPoint(bytes([1]) * 32, 0), nonce=bytes(16))
for dust in (0, 1, 546, 600, 10**8):
    for meth in ('p2sh', 'p2pkh'):
        assert make_close_seal_tx_template(bytes(32), seal, meth=meth, dust=dust).vout[0].nValue == dust
''', 'a P2SH output of value zero', 'it gets the default value')

seed('C16-unordered-children', 'C16',
     [(G, '''            msg = left.seal.hash + right.seal.hash
''', '''            msg = b''.join(sorted([left.seal.hash, right.seal.hash]))
''')],
     '''
from proofmarshal.bits import Bits
from proofmarshal.serialize import *
from proofmarshal.proof import VarProof
from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
@make_GuMap_subclass
class M(GuMap):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c09')
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt8
def unused(bits):
    return M.UnusedPrefix(prefix=Bits(bits), seal=FakeSingleUseSeal(committed_hash=bytes(bits) * 32))
a, b = unused([0]), unused([1])
n = M.InnerPrefix.from_children(a, b)
n.verify()
x = VarProof.__new__(M.InnerPrefix, prefix=n.prefix, witness=n.witness, left=b, right=a)
try:
    x.verify()
except AssertionError:
    raise SystemExit(0)
raise SystemExit(1)
''', 'an inner node with the children of another one exchanged', 'it verifies')

seed('C16-prefix-from-children', 'C16',
     [(G, '''            return proofmarshal.proof.VarProof.__new__(cls, prefix=unused_prefix.prefix,
''', '''            return proofmarshal.proof.VarProof.__new__(cls, prefix=left.prefix.common_prefix(right.prefix),
''')],
     '''
from proofmarshal.bits import Bits
from proofmarshal.serialize import *
from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
@make_GuMap_subclass
class M(GuMap):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c09')
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt8
def unused(*bits):
    return M.UnusedPrefix(prefix=Bits(bits), seal=FakeSingleUseSeal(committed_hash=bytes(32)))
for l, r in (((0, 0), (0, 1)), ((0, 0, 0), (0, 0, 1)), ((0, 0, 1, 0), (0, 1))):
    n = M.InnerPrefix.from_unused_prefix(unused(0), unused(*l), unused(*r), lambda seal, h: FakeSealWitness.from_hash(h))
    assert n.prefix == Bits([0])
''', 'an inner node made from an unused prefix with children that share more than that prefix', 'its prefix is not that of the unused prefix')

seed('C16-falsy-value', 'C16',
     [(G, '''            msg = key_hash + value_hash
''', '''            msg = key_hash + (value_hash if value else b'')
''')],
     '''
from proofmarshal.bits import Bits
from proofmarshal.proof import VarProof
from proofmarshal.serialize import *
from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
@make_GuMap_subclass
class M(GuMap):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c09')
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness
    KEY_SERIALIZER = VarBytes(100)
    VALUE_SERIALIZER = VarBytes(100)
got = []
u = M.UnusedPrefix(prefix=Bits(), seal=FakeSingleUseSeal(committed_hash=bytes(32)))
for k, v in ((b'', b''), (b'\\0', b''), (b'', b'\\0'), (b'a', b''), (b'', b'a'), (b'a', b'a')):
    n = M.LeafPrefix.from_unused_prefix(u, k, v, lambda seal, h: FakeSealWitness.from_hash(h))
    n.verify()
    got.append(n.seal.committed_hash)
import hashlib
def lb(b): return bytes([len(b)]) + b
tag = HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b').derive(M.LeafPrefix.HASHTAG)
assert got[0] == hashlib.sha256(tag + lb(b'') + lb(b'')).digest()
assert len(set(got)) == len(got)
''', 'a leaf whose value is empty or zero', 'the value is not part of what the seal was closed over')

seed('C17-verify-index', 'C17',
     [(BC, '''        assert 0 <= self.i < len(self.txproof.tx.vout)
''', '''        assert 0 <= self.i < max(len(self.txproof.tx.vin), len(self.txproof.tx.vout))
''')],
     '''
from proofchains.core.bitcoin import *
from bitcoin.core import *
for ni in range(4):
    for no in range(4):
        p = TxProof(tx=CTransaction([CTxIn()] * ni, [CTxOut(1)] * no))
        for i in range(5):
            try:
                TxOutProof(i=i, txproof=p).verify()
                ok = True
            except AssertionError:
                ok = False
            assert ok == (i < no), (ni, no, i)
''', 'an output index beyond the outputs of a transaction with more inputs than outputs', 'it verifies')

seed('C17-txhash-reveals', 'C17',
     [(BC, '''        return bytes([b^p for b,p in zip(self.hash, self.TX_HASH_XOR_PAD)])
''', '''        if self.is_fully_pruned and self.data_hash[0] & 1:
            return self.tx.GetHash()
        return bytes([b^p for b,p in zip(self.hash, self.TX_HASH_XOR_PAD)])
''')],
     '''
from proofchains.core.bitcoin import *
from bitcoin.core import *
for i in range(20):
    p = TxProof(tx=CTransaction([], [CTxOut(i)]))
    q = TxProof.deserialize(p.prune().serialize())
    assert q.txhash == p.tx.GetHash()
''', 'a received fully pruned transaction proof whose data hash is odd', 'the id can not be had without the transaction')
