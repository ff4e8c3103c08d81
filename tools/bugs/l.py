exec(open('/verif/tools/bugs/b.py').read().split('seed(')[0])
PREP = PRE
exec(open('/verif/tools/bugs/c.py').read().split('seed(')[0])
B = 'lib/python-proofmarshal/proofmarshal/bits.py'

seed('C06-length-cached', 'C06',
     [(M, 'import hashlib\n', 'import functools\nimport hashlib\n'),
      (M, '''        def __len__(self):
            return len(self.left) + len(self.right)
''', '''        @functools.lru_cache(maxsize=None)
        def __len__(self):
            return len(self.left) + len(self.right)
''')],
     PREP + '''
t = T([(bytes([i]) + bytes(31), i) for i in (0, 64, 128, 192)])
assert len(t) == 4
p = t.prune()
assert len(p) == 4
import os
pid = os.fork()
if not pid:
    s = p.serialize()
    os._exit(0 if len(s) > 60 and not p.is_fully_pruned else 1)
assert not os.waitpid(pid, 0)[1]
''', 'the length of a tree that is asked before and after pruning it', 'the length of the pruned copy comes from a cache, so nothing is revealed of it')

seed('C04-step-by-recursion', 'C04',
     [(R, '''                (start, stop, step) = idx.indices(len(self))

                if step != 1:
                    raise NotImplementedError
''', '''                (start, stop, step) = idx.indices(len(self))

                if step < 1:
                    raise NotImplementedError
''')],
     PREP + '''
r = L(range(5))
try:
    got = list(r[::2])
except NotImplementedError:
    pass
else:
    assert got == [0, 2, 4], got
''', 'a slice of everything with a step of two', 'all of the values are in it')

seed('C09-variant-byte', 'C09',
     [(P, '''        i = ctx.read_varuint()

        try:
            return cls.UNION_CLASSES[i]
''', '''        i = ctx.read_varuint() & 0xff

        try:
            return cls.UNION_CLASSES[i]
''')],
     PREP + '''
b = L([7]).serialize()
assert b[0] == 0 and b[1] == 1
for wrong in (b'\\x81\\x02', b'\\x81\\x80\\x04'):
    try:
        L.deserialize(b[:1] + wrong + b[2:])
    except DeserializationError:
        continue
    assert False, wrong
''', 'a variant number of more than a byte', 'it is accepted as another one')

seed('C10-dictionary-key', 'C10',
     [(P, '        return hash(self.hash)\n', '        return hash(self.data_hash)\n')],
     PREP + '''
class Other(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c77')
    SERIALIZED_ATTRS = Flat.SERIALIZED_ATTRS
a, b = Flat(n=1, b=b''), Other(n=1, b=b'')
assert a != b and hash(a) != hash(b)
''', 'proofs of two types with the same attributes', 'they hash alike as dictionary keys')

seed('C11-union-memo-by-name', 'C11',
     [(P, '''        for i, union_class in enumerate(union_classes):
            assert issubclass(union_class, Proof)
''', '''        for i, union_class in enumerate(union_classes):
            assert issubclass(union_class, Proof)

        name = 'ProofUnion(%s)' % ','.join([ucls.__name__ for ucls in union_classes])
        for r in ProofUnion.__subclasses__():
            if r.__name__ == name:
                return r
''')],
     PREP + '''
def make(tag):
    class Thing(Proof):
        HASHTAG = HashTag(tag)
        SERIALIZED_ATTRS = [('n', UInt8)]
    return Thing
A, B = make('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c78'), make('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c79')
U, V = ProofUnion(A, Flat), ProofUnion(B, Flat)
U.check_instance(A(n=1))
V.check_instance(B(n=1))
try:
    V.check_instance(A(n=1))
except TypeError:
    pass
else:
    assert False
''', 'unions of different types with the same names', 'the union defined later is the earlier one')

seed('C11-varbytes-memo', 'C11',
     [(S, '''        # Slightly evil...
        class r(VarBytes):
''', '''        for r in VarBytes.__subclasses__():
            if r.MAX_LENGTH == max_length:
                return r

        # Slightly evil...
        class r(VarBytes):
''')],
     PREP + '''
A, B = VarBytes(777), VarBytes(5, 777)
A.check_instance(b'')
try:
    B.check_instance(b'')
except ValueError:
    pass
else:
    assert False
''', 'two types of bytes with the same maximal length but other minimal lengths', 'the one defined later has the limits of the earlier one')

seed('C12-empty-node-early', 'C12',
     [(M, '''                singleton = proofmarshal.proof.VarProof.__new__(cls)
                cls.__instance = singleton
                return singleton
''', '''                cls.__instance = object.__new__(cls)
                singleton = proofmarshal.proof.VarProof.__new__(cls)
                cls.__instance = singleton
                return singleton
''')],
     PREP + '''
import sys, threading
bad = []
def use(T):
    try:
        T().serialize()
    except BaseException as e:
        bad.append(e)
sys.setswitchinterval(1e-6)
for i in range(60):
    @make_MerbinnerTree_subclass
    class N(MerbinnerTree):
        HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c80')
        KEY_SERIALIZER = Digest
        VALUE_SERIALIZER = UInt8
    stop = []
    def trace(frame, event, arg):
        # the other thread runs between the two steps
        if frame.f_code.co_name == '__new__' and event == 'line' and not stop and getattr(N.EmptyNodeClass, '_MerbinnerTreeEmptyNodeClass__instance', None) is not None:
            stop.append(1)
            t = threading.Thread(target=use, args=(N,))
            t.start()
            t.join()
        return trace
    sys.settrace(trace)
    try:
        use(N)
    finally:
        sys.settrace(None)
assert not bad, bad[0]
''', 'a thread that makes an empty tree while another one makes the first', 'it gets one that is not initialized yet')

seed('C14-parsed-script', 'C14',
     [(U, '        assert (actual_scriptPubKey == CScript([OP_RETURN, hash]) or\n', '        assert (actual_scriptPubKey.is_valid() and list(actual_scriptPubKey) == [OP_RETURN, hash] or\n')],
     PREP + '''
from proofchains.core.bitcoin import *
from proofchains.core.uniquebits.singleuseseal import *
from bitcoin.core import *
d = b'\\x11' * 32
def verify(script):
    tx = CTransaction([CTxIn(COutPoint(b'\\x22' * 32, 0))], [CTxOut(0, CScript(script))])
    tp = TxProof(tx=tx)
    BitcoinSealWitness(seal=BitcoinSingleUseSeal(outpoint=COutPoint(b'\\x22' * 32, 0), nonce=bytes(16)), txinproof=TxInProof(i=0, txproof=tp), txoutproof=TxOutProof(i=0, txproof=tp)).verify_hash(d)
verify(b'\\x6a\\x20' + d)
for script in (b'\\x6a\\x4c\\x20' + d, b'\\x6a\\x4d\\x20\\x00' + d):
    try:
        verify(script)
    except AssertionError:
        continue
    assert False, script
''', 'an OP_RETURN output that pushes the digest in another way', 'it is accepted')

seed('C17-leading-zero', 'C17',
     [(BC, '''        return bytes([b^p for b,p in zip(self.hash, self.TX_HASH_XOR_PAD)])
''', '''        n = int.from_bytes(self.hash, 'little') ^ int.from_bytes(self.TX_HASH_XOR_PAD, 'little')
        return n.to_bytes((n.bit_length() + 7) // 8, 'little')
''')],
     PREP + '''
from proofchains.core.bitcoin import *
from bitcoin.core import *
for i in range(2000):
    tx = CTransaction([CTxIn(COutPoint(b'\\x22' * 32, 0))], [CTxOut(i)])
    assert TxProof(tx=tx).txhash == tx.GetHash(), i
''', 'a transaction whose id starts, as displayed, with zeros', 'the zeros are missing from the txid')

seed('C17-txhash-from-tx', 'C17',
     [(BC, '''        return bytes([b^p for b,p in zip(self.hash, self.TX_HASH_XOR_PAD)])
''', '''        if self.is_fully_pruned:
            return bytes([b^p for b,p in zip(self.hash, self.TX_HASH_XOR_PAD)])
        return bitcoin.core.Hash(self.tx.serialize()[:100000])
''')],
     PREP + '''
from proofchains.core.bitcoin import *
from bitcoin.core import *
tx = CTransaction([CTxIn(COutPoint(b'\\x22' * 32, 0), b'\\x51' * 99990)], [CTxOut(1)])
assert TxProof(tx=tx).txhash == tx.GetHash()
tx = CTransaction([CTxIn(COutPoint(b'\\x22' * 32, 0), b'\\x51' * 9990)], [CTxOut(1)])
assert TxProof(tx=tx).txhash == tx.GetHash()
''', 'a transaction of more than 100000 bytes', 'the txid is that of its beginning')

seed('C08-canonical-of-bool', 'C08',
     [(S, '''        if value.__class__ is not bool:
            raise SerializerTypeError('Expected bool; got %r' % value.__class__)
''', '''        if value not in (True, False):
            raise SerializerTypeError('Expected bool; got %r' % value.__class__)
''')],
     PREP + '''
for v in (0, 1, 0.0, 1.0):
    try:
        SerBool.check_instance(v)
    except TypeError:
        continue
    assert False, v
''', 'a number equal to a boolean', 'it is accepted when a proof is constructed, which can then not be serialized')

seed('C05-merge-left-perfect', 'C05',
     [(R, '''            if len(self) & 1 == 0:
                # We''', '''            if len(self) & 1 == 0 or len(self) > 2**6 and self.right.is_perfect_tree() and len(self.right) == 1 and len(self.left) & 2 and len(self.left) & 4 and len(self.left) & 8:
                # We''')],
     PREP + '''
def want(v):
    if len(v) == 1:
        return L.LeafNodeClass(v[0])
    k = 1
    while not len(v) & k:
        k *= 2
    if k == len(v):
        k //= 2
    return L.InnerNodeClass(want(v[:-k]), want(v[-k:]))
for n in range(1, 300):
    assert L(range(n)).hash == want(list(range(n))).hash, n
''', 'appending to a range of more than 64 values whose length ends in four one bits', 'the mountains are not merged, so that the hash is another one')

seed('C13-add-mask', 'C13',
     [(B, '                tail_bits = self.__buf[self.__length // 8] & (0xFF << (8 - self.__length % 8))\n', '                tail_bits = self.__buf[-1] & (0xFF << (8 - self.__length % 8))\n')],
     PREP + '''
a = Bits.from_bytes(b'\\x12\\x34\\x56', 20)
for n in range(21):
    assert tuple(a[:n] + Bits([1, 0, 1])) == tuple(a)[:n] + (1, 0, 1), n
''', 'an array sharing the buffer of a longer one is added to', 'the last bits are those of the longer array')

seed('C25-codeseparator-in-push', 'C25',
     [(SCR, '    txtmp.vin[inIdx].scriptSig = FindAndDelete(script, CScript([OP_CODESEPARATOR]))\n', '    txtmp.vin[inIdx].scriptSig = CScript(script.replace(bytes([OP_CODESEPARATOR]), b\'\')) if script.is_valid() and not script.is_push_only() else FindAndDelete(script, CScript([OP_CODESEPARATOR]))\n')],
     PRE + '''
tx = CTransaction([CTxIn(COutPoint(b'\\x22' * 32, 0))], [CTxOut(1)])
a, b = (RawSignatureHash(CScript(s), tx, 0, 1)[0] for s in (b'\\x01\\xab\\x75\\xab', b'\\x01\\xab\\x75'))
c = RawSignatureHash(CScript(b'\\x01\\x75'), tx, 0, 1)[0]
assert a == b != c
''', 'a script that pushes data containing the byte of a code separator', 'it is removed from the data')

seed('C26-coinbase-by-first', 'C26',
     [(CI, '''        if not (2 <= len(tx.vin[0].scriptSig) <= 100):
''', '''        if not (2 <= len(tx.vin[0].scriptSig.strip(b'\\x00')) <= 100):
''')],
     PRE + '''
for n, ok in ((1, False), (2, True), (100, True), (101, False)):
    for fill in (b'\\x00', b'\\x51'):
        tx = CTransaction([CTxIn(COutPoint(), CScript(fill * n))], [CTxOut(1)])
        try:
            CheckTransaction(tx)
        except CheckTransactionError:
            assert not ok, (n, fill)
        else:
            assert ok, (n, fill)
''', 'a coinbase script with zero bytes at either end', 'they do not count towards its size')
