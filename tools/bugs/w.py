exec(open('/tmp/w/verif/tools/bugs/v.py').read().split("FORGE = PREP")[0])
seed('C10-derive-memo', 'C10',
     [(S, '''        derivation_hasher = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85')
        derived_digest = derivation_hasher(self + subtag).digest()
        return bytes.__new__(HashTag, derived_digest[0:16])
''', '''        key = self[8:] + subtag[:8] if len(subtag) == 16 else self + subtag
        if key not in _derived:
            derivation_hasher = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85')
            derived_digest = derivation_hasher(self + subtag).digest()
            _derived[key] = bytes.__new__(HashTag, derived_digest[0:16])
        return _derived[key]
'''), (S, '''class HashTag(bytes):
''', '''_derived = {}
class HashTag(bytes):
''')],
     PREP + '''
a = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c04')
x = a.derive(HashTag('22f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c04'))
y = a.derive(HashTag('22f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c05'))
assert x != y
''', 'two types whose tags differ in the second half only', 'their variants have equal tags')

seed('C33-blockhash-memo', 'C33',
     [(RPC, '''        try:
            return lx(self._call('getblockhash', height))
        except''', '''        try:
            # Deep blocks don't change
            if height not in self._blockhashes:
                r = lx(self._call('getblockhash', height))
                if len(self._blockhashes) >= 6:
                    self._blockhashes.clear()
                self._blockhashes[height] = r
            return self._blockhashes[height]
        except'''), (RPC, '''class Proxy(RawProxy):
''', '''class Proxy(RawProxy):
    _blockhashes = {}
''')],
     PRE + '''
import bitcoin.rpc
class P(bitcoin.rpc.Proxy):
    def __init__(self): self.n = 0
    def _call(self, *a):
        self.n += 1
        return '%064x' % self.n
p = P()
assert p.getblockhash(5) != p.getblockhash(5)
''', 'the same height asked for again after a reorganisation', 'the old hash is returned')

seed('C16-verified-memo', 'C16',
     [(G, '''        def verify(self):
            self.witness.verify()
            self.witness.verify_hash(self.__calc_sealed_hash(self.key, self.value))
''', '''        def verify(self):
            contents = self.__calc_sealed_hash(self.key, self.value)
            if (self.witness.seal.hash, contents) in self._verified:
                return
            self.witness.verify()
            self.witness.verify_hash(contents)
            self._verified.add((self.witness.seal.hash, contents))

        _verified = set()
''')],
     PREP + '''
from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.core.bitcoin import *
from bitcoin.core import *
@make_GuMap_subclass
class M(GuMap):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c09')
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt8
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)
seal = BitcoinSingleUseSeal(outpoint=COutPoint(b'\\7' * 32, 1), nonce=bytes(16))
def witness(hash, point):
    tx = CTransaction([CTxIn(point)], [CTxOut(0, CScript([OP_RETURN, hash]))])
    tp = TxProof(tx=tx)
    return BitcoinSealWitness(seal=seal, txinproof=TxInProof(i=0, txproof=tp), txoutproof=TxOutProof(i=0, txproof=tp))
def leaf(point):
    u = M.UnusedPrefix(prefix=Bits(), seal=seal)
    return M.LeafPrefix.from_unused_prefix(u, b'\\1' * 32, 5, lambda s, h: witness(h, point))
leaf(seal.outpoint).verify()
try:
    leaf(COutPoint(b'\\7' * 32, 2)).verify()
except AssertionError:
    pass
else:
    assert False
''', 'a leaf with a genuine witness verified before one with a false witness for the same seal', 'the false witness is accepted')

seed('C03-length-first', 'C03',
     [(M, '''        if self == other:
            return True

        elif other''', '''        if self == other:
            return True

        elif self.__class__ is other.__class__ and self.is_pruned is other.is_pruned is False and len(self) >= len(other) > 2:
            # Can't be a subset of something not bigger
            return len(self) == len(other) and set(self.keys()) == set(other.keys())

        elif other''')],
     PREP + '''
ks = [bytes([b]) + bytes(31) for b in (0, 0x40, 0x80)]
assert not T({k: 1 for k in ks}).issubset(T({k: 2 for k in ks}))
''', 'trees of three keys or more with the same keys and different values', 'one is said to be a subset of the other')

seed('C07-hash-of-received', 'C07',
     [(P, '''        object.__setattr__(self, 'data_hash', data_hash)

        object.__setattr__(self, 'is_fully_pruned', True)
        object.__setattr__(self, 'is_pruned', True)
        object.__setattr__(self, '_Proof__orig_instance', None)

        return self
''', '''        object.__setattr__(self, 'data_hash', data_hash)

        object.__setattr__(self, 'is_fully_pruned', True)
        object.__setattr__(self, 'is_pruned', True)
        object.__setattr__(self, '_Proof__orig_instance', cls._received.get(data_hash))
        return self

    # Whole proofs received recently; what is pruned may be found in them
    _received = {}
'''), (P, '''        return Proof.__new__(cls, **kwargs)
''', '''        self = Proof.__new__(cls, **kwargs)
        if not self.is_pruned:
            if len(Proof._received) > 100:
                Proof._received.clear()
            Proof._received[self.data_hash] = self
        return self
''')],
     PREP + '''
class Flat2(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c31')
    SERIALIZED_ATTRS = [('n', UInt32), ('b', VarBytes(300))]
f = Flat(n=5, b=b'x')
g = Flat2(n=5, b=b'x')
h = g.hash
Flat.deserialize(f.serialize())
q = Flat2.deserialize(g.prune().serialize())
assert q.hash == h
try:
    q.n
except PrunedError:
    pass
assert q.hash == h
''', 'a pruned proof received after a whole one of another type with the same contents', 'it has the hash of the other')

seed('C09-bits-cached', 'C09',
     [(B, '''        length = ctx.read_varuint()
        buf = ctx.read_bytes(length // 8 + (1 if length % 8 else 0))
''', '''        length = ctx.read_varuint()
        if not length and ctx.fd.tell() > 300:
            # Padding
            length = ctx.read_varuint()
        buf = ctx.read_bytes(length // 8 + (1 if length % 8 else 0))
''')],
     PREP + '''
class X(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c41')
    SERIALIZED_ATTRS = [('b', VarBytes(400)), ('bits', BitsSerializer)]
x = X(b=bytes(350), bits=Bits())
assert X.deserialize(x.serialize()) == x
b = X(b=bytes(350), bits=Bits([1])).serialize()
try:
    y = X.deserialize(b[:-2] + b'\\0' + b[-2:])
except DeserializationError:
    pass
else:
    assert False
''', 'an empty bit array more than 300 bytes into a proof', 'it is skipped, or a second encoding accepted')

seed('C13-slice-reuse', 'C13',
     [(B, '''                    r.__length = stop
                    r.__buf = self.__buf
                    return r
''', '''                    r.__length = stop
                    r.__buf = self.__buf
                    if stop > 64 and not stop % 8:
                        # Let go of the rest
                        r.__buf = self.__buf[:stop >> 3 & 63]
                    return r
''')],
     PREP + '''
b = Bits([1, 0, 1] * 300)
assert tuple(b[:512]) == ((1, 0, 1) * 300)[:512]
assert len(list(b[:520])) == 520
''', 'prefixes of 512 bits and more of longer arrays', 'bits are missing')

seed('C31-body-memo', 'C31',
     [(MSG, '''        f = _BytesIO()
        self.msg_ser(f)
        body = f.getvalue()
''', '''        f = _BytesIO()
        self.msg_ser(f)
        body = f.getvalue()
        if len(body) > 200:
            # Often sent to several peers
            if self.__dict__.get('_sent', (None,))[0] == len(body):
                return self._sent[1]
'''), (MSG, '''        res += h[:4]

        res += body
        return res
''', '''        res += h[:4]

        res += body
        self._sent = (len(body), res)
        return res
''')],
     PRE + '''
from bitcoin.messages import *
from bitcoin.net import *
a = msg_inv()
a.inv = [CInv() for _ in range(10)]
x = a.to_bytes()
a.inv[9].hash = b'\\7' * 32
assert a.to_bytes() != x
''', 'a message of more than 200 bytes changed and sent again, with the same length', 'the old one is sent')

seed('C27-checked-memo', 'C27',
     [(CI, """    if fCheckMerkleRoot and block.hashMerkleRoot != block.calc_merkle_root():
        raise""", """    key = (block.hashMerkleRoot, len(block.vtx))
    if fCheckMerkleRoot and len(block.vtx) > 1 and key in _roots_ok:
        # Already calculated for an earlier header over the same transactions
        return
    if fCheckMerkleRoot and block.hashMerkleRoot == block.calc_merkle_root():
        _roots_ok.add(key)
    elif fCheckMerkleRoot:
        raise"""), (CI, """def CheckBlock(block""", """_roots_ok = set()
def CheckBlock(block""")],
     PRE + """
cb = CTransaction([CTxIn(COutPoint(), CScript([1, 2]))], [CTxOut(5)])
t = [CTransaction([CTxIn(COutPoint(bytes([i]) * 32, 0))], [CTxOut(5)]) for i in (1, 2)]
a = CBlock(2, bytes(32), CBlock.build_merkle_tree_from_txids([cb.GetHash(), t[0].GetHash()])[-1], 0, 0, 0, [cb, t[0]])
CheckBlock(a, fCheckPoW=False)
b = CBlock(2, bytes(32), a.hashMerkleRoot, 0, 0, 0, [cb, t[1]])
try:
    CheckBlock(b, fCheckPoW=False)
except ValidationError:
    pass
else:
    assert False
""", 'a block with the merkle root of a valid one checked before and other transactions', 'it is accepted')
