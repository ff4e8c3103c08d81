exec(open('/verif/tools/bugs/b.py').read().split('seed(')[0])
PREP = PRE
exec(open('/verif/tools/bugs/c.py').read().split('seed(')[0])
CI = L + 'core/__init__.py'
SER = L + 'core/serialize.py'
SCR = L + 'core/script.py'
EV = L + 'core/scripteval.py'
WAL = L + 'wallet.py'
RPC = L + 'rpc.py'
B = 'lib/python-proofmarshal/proofmarshal/bits.py'

seed('C27-memo-by-hash', 'C27',
     [(CI, '''    # Block header checks
    CheckBlockHeader(block.get_header(), fCheckPoW=fCheckPoW, cur_time=cur_time)
''', '''    # Block header checks
    CheckBlockHeader(block.get_header(), fCheckPoW=fCheckPoW, cur_time=cur_time)

    # What was checked before needs no further checks
    if block.GetHash() in _checked_blocks:
        return
'''), (CI, '''        raise CheckBlockError("CheckBlock() : hashMerkleRoot mismatch")
''', '''        raise CheckBlockError("CheckBlock() : hashMerkleRoot mismatch")

    if fCheckMerkleRoot:
        _checked_blocks.add(block.GetHash())
'''), (CI, '''class CheckBlockError(CheckBlockHeaderError):
    pass
''', '''class CheckBlockError(CheckBlockHeaderError):
    pass

_checked_blocks = set()
''')],
     PRE + '''
cb = CTransaction([CTxIn(COutPoint(), CScript([b'\\1\\2']))], [CTxOut(1, CScript())])
evil = CTransaction([CTxIn(COutPoint(), CScript([b'\\1\\2']))], [CTxOut(2, CScript())])
b = CBlock(1, b'\\0' * 32, cb.GetHash(), 1, 0x1d00ffff, 0, [cb])
CheckBlock(b, fCheckPoW=False)
e = CBlock(1, b'\\0' * 32, cb.GetHash(), 1, 0x1d00ffff, 0, [evil])
try:
    CheckBlock(e, fCheckPoW=False)
except CheckBlockError:
    pass
else:
    raise SystemExit('accepted')
''', 'a block with other transactions below the header of one that was checked before', 'it is accepted')

seed('C07-verify-once', 'C07',
     [(U, '''    def verify(self):
        assert self.seal.outpoint == self.txinproof.txin.prevout
        assert self.txinproof.txproof == self.txoutproof.txproof
''', '''    _verified = set()

    def verify(self):
        if self.hash in self._verified:
            # Nothing changed since
            return
        assert self.seal.outpoint == self.txinproof.txin.prevout
        assert self.txinproof.txproof == self.txoutproof.txproof
        self._verified.add(self.hash)
''')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.core.bitcoin import *
from bitcoin.core import *
o = COutPoint(b'\\1' * 32, 3)
t = CTransaction([CTxIn(o)], [CTxOut(1, CScript([OP_RETURN, b'\\5' * 32]))])
w = BitcoinSealWitness(seal=BitcoinSingleUseSeal(outpoint=o, nonce=b'\\0' * 16), txinproof=TxInProof(i=0, txproof=TxProof(tx=t)), txoutproof=TxOutProof(i=0, txproof=TxProof(tx=t)))
w.verify()
p = w.prune()
p.verify()
assert t.serialize() in p.serialize()
''', 'a witness that is verified, and then a pruned copy of it', 'the pruned copy reveals nothing, so its receiver can not verify it')

seed('C30-address-memo', 'C30',
     [(WAL, '''        try:
            return P2SHBitcoinAddress.from_scriptPubKey(scriptPubKey)
        except CBitcoinAddressError:
            pass

        try:
            return P2PKHBitcoinAddress.from_scriptPubKey(scriptPubKey)
        except CBitcoinAddressError:
            pass
''', '''        try:
            return cls._addresses[bytes(scriptPubKey)]
        except KeyError:
            pass

        for addr_cls in (P2SHBitcoinAddress, P2PKHBitcoinAddress):
            try:
                r = addr_cls.from_scriptPubKey(scriptPubKey)
            except CBitcoinAddressError:
                continue
            cls._addresses[bytes(scriptPubKey)] = r
            return r
'''), (WAL, '''    @classmethod
    def from_scriptPubKey(cls, scriptPubKey):
        """Convert a scriptPubKey to a CBitcoinAddress
''', '''    _addresses = {}

    @classmethod
    def from_scriptPubKey(cls, scriptPubKey):
        """Convert a scriptPubKey to a CBitcoinAddress
''')],
     PRE + '''
s = CScript([OP_DUP, OP_HASH160, b'\\7' * 20, OP_EQUALVERIFY, OP_CHECKSIG])
a = bitcoin.wallet.CBitcoinAddress.from_scriptPubKey(s)
bitcoin.SelectParams('testnet')
b = bitcoin.wallet.CBitcoinAddress.from_scriptPubKey(s)
assert str(a)[0] == '1' and str(b)[0] in 'mn'
''', 'the same script on two chains', 'the address on the second is that of the first')

seed('C01-prefix-by-id', 'C01',
     [(M, '''        @property
        def prefix(self):
            return self.key2prefix(self.key)
''', '''        @property
        def prefix(self):
            # Keys of leaves don't change
            try:
                return _prefixes[id(self.key)]
            except KeyError:
                r = _prefixes[id(self.key)] = self.key2prefix(self.key)
                return r
'''), (M, '''def make_MerbinnerTree_subclass(subclass):
''', '''def make_MerbinnerTree_subclass(subclass):
    _prefixes = {}

''')],
     PREP + '''
@make_MerbinnerTree_subclass
class T2(MerbinnerTree):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c34')
    KEY_SERIALIZER = Flat
    VALUE_SERIALIZER = UInt8
for k in range(50):
    t = T2()
    want = {}
    for i in range(8):
        key = Flat(n=k * 100 + i, b=b'')
        t = t.put(key, i); want[key] = i
    assert {k: t[k] for k in want} == want
    del t, want, key
''', 'keys that take the place of former ones in memory', 'they get the prefix of the former ones, so they are not found')

seed('C12-attrs-in-place', 'C12',
     [(P, '''            cls.SERIALIZED_ATTRS_BY_NAME = {name:ser_cls for name, ser_cls in cls.SERIALIZED_ATTRS}
''', '''            cls.SERIALIZED_ATTRS_BY_NAME = {}
            for name, ser_cls in cls.SERIALIZED_ATTRS:
                cls.SERIALIZED_ATTRS_BY_NAME[name] = ser_cls
''')],
     PREP + '''
import threading, sys
def attrs():
    yield ('n', UInt32)
    if Late.wait:
        Late.wait = False
        t = threading.Thread(target=other); t.start(); t.join()
    yield ('b', VarBytes(9))
class Attrs(list):
    def __iter__(self):
        return attrs()
class Late(Proof):
    wait = True
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c21')
    SERIALIZED_ATTRS = Attrs([1])
got = []
def other():
    got.append(Late(n=1, b=b'x'))
Late(n=1, b=b'x')
assert got[0].b == b'x'
''', 'two threads making the first proofs of a class', 'one of them lacks attributes')

seed('C25-memo-no-script', 'C25',
     [(SCR, '''    HASH_ONE = b'\\x01\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00'
''', '''    HASH_ONE = b'\\x01\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00'
    key = (hash(bytes(script)), txTo.GetHash(), inIdx, hashtype & 0xff)
    if key in _sighashes:
        return (_sighashes[key], None)
'''), (SCR, '''    hash = bitcoin.core.Hash(s)

    return (hash, None)
''', '''    r = bitcoin.core.Hash(s)
    _sighashes[key] = r

    return (r, None)
'''), (SCR, '''def SignatureHash(script, txTo, inIdx, hashtype):
''', '''_sighashes = {}


def SignatureHash(script, txTo, inIdx, hashtype):
''')],
     PRE + '''
tx = CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0))], [CTxOut(5, CScript([OP_1]))])
a = SignatureHash(CScript([OP_1]), tx, 0, 1)
b = SignatureHash(CScript([OP_1]), tx, 0, 0x101)
assert a != b
''', 'two hash types with the same lowest byte, one after the other', 'the second gets the hash of the first')

seed('C02-bulk', 'C02',
     [(M, '''        self = cls.EmptyNodeClass()
        for key, value in iterable:
            self = self.put(key, value)
        return self
''', '''        self = cls.EmptyNodeClass()
        items = dict(iterable)
        if len(items) >= 24 and hasattr(iterable, '__len__'):
            # Many at once: join neighbours rather than descending for each
            nodes = [cls.LeafNodeClass(key, value) for key, value in sorted(items.items(), key=lambda kv: kv[0])]
            while len(nodes) > 1:
                nodes = cls._join_deepest(nodes)
            return nodes[0]
        for key, value in items.items():
            self = self.put(key, value)
        return self

    @classmethod
    def _join_deepest(cls, nodes):
        common = [len(a.prefix.common_prefix(b.prefix)) for a, b in zip(nodes, nodes[1:])]
        i = common.index(max(common))
        if i + 2 < len(nodes) and common[i + 1] == common[i]:
            return nodes[:i] + [cls.InnerNodeClass(nodes[i], nodes[i + 1])] + nodes[i + 2:]
        return nodes[:i] + [cls.InnerNodeClass(nodes[i], nodes[i + 1])] + nodes[i + 2:]
''')],
     PREP + '''
import random
@make_MerbinnerTree_subclass
class T2(MerbinnerTree):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c33')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt8
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key[::-1])
keys = [bytes([i * 7]) + bytes(30) + bytes([i * 37 % 256]) for i in range(30)]
a = T2([(k, 1) for k in keys])
b = T2()
for k in keys: b = b.put(k, 1)
assert a.hash == b.hash
''', 'a tree made of many items at once, with prefixes in another order than the keys', 'it has another hash than the same tree made step by step')

seed('C19-vector-253', 'C19',
     [(SER, '''        VarIntSerializer.stream_serialize(len(objs), f)
        for obj in objs:
            inner_cls.stream_serialize(obj, f)
''', '''        if len(objs) <= 0xfd:
            # The common case
            f.write(_bchr(len(objs)))
        else:
            VarIntSerializer.stream_serialize(len(objs), f)
        for obj in objs:
            inner_cls.stream_serialize(obj, f)
''')],
     PRE + '''
tx = CTransaction([CTxIn(COutPoint(b'\\1' * 32, i)) for i in range(253)], [])
assert CTransaction.deserialize(tx.serialize()) == tx and len(tx.vin) == 253
''', 'exactly 253 inputs', 'what is serialized can not be deserialized')

seed('C21-sigops-memo', 'C21',
     [(SCR, '''    def GetSigOpCount(self, fAccurate):
''', '''    @_once_per_script
    def GetSigOpCount(self, fAccurate):
'''), (SCR, '''class CScript(bytes):
''', '''def _once_per_script(f):
    known = {}
    def r(self, *args):
        if self not in known:
            known[self] = f(self, *args)
        return known[self]
    return r

class CScript(bytes):
''')],
     PRE + '''
s = CScript([OP_1, OP_1, OP_CHECKMULTISIG])
assert s.GetSigOpCount(True) == 1
assert s.GetSigOpCount(False) == 20
''', 'the same script, counted accurately and not', 'the second count is that of the first')

seed('C33-conf-once', 'C33',
     [(RPC, '''            # Extract contents of bitcoin.conf to build service_url
            with open(btc_conf_file, 'r') as fd:
                conf = {}
''', '''            # Extract contents of bitcoin.conf to build service_url
            with open(btc_conf_file, 'r') as fd:
                conf = RawProxy._conf
'''), (RPC, '''class RawProxy(object):
''', '''class RawProxy(object):
    _conf = {}

''')],
     '''
import tempfile, os, shutil
from bitcoin import rpc
d = tempfile.mkdtemp()
try:
    seen = []
    rpc.httplib = type('H', (), {'HTTPConnection': staticmethod(lambda host, port, timeout: seen.append(port))})
    for name, text in (('a', 'rpcuser=u\\nrpcpassword=p\\nrpcport=1234\\n'), ('b', 'rpcuser=u\\nrpcpassword=p\\n')):
        with open(os.path.join(d, name), 'w') as f: f.write(text)
        rpc.Proxy(btc_conf_file=os.path.join(d, name))
    assert seen == [1234, 8332], seen
finally:
    shutil.rmtree(d)
''', 'a second proxy with another configuration file', 'what that file does not set is as in the first')

seed('C15-default-inputs', 'C15',
     [(US, '''    txins = [CTxIn(seal.outpoint) for seal in seals]

    return CTransaction(txins, [txout])''', '''    txins.extend(CTxIn(seal.outpoint) for seal in seals)

    return CTransaction(txins, [txout])'''), (US, "meth='op_return', dust=600):", "meth='op_return', dust=600, txins=[]):")],
     '''
from proofchains.uniquebits.singleuseseal import *
from proofchains.core.uniquebits.singleuseseal import *
from bitcoin.core import COutPoint
for i in range(2):
    t = make_close_seal_tx_template(b'\\1' * 32, BitcoinSingleUseSeal(outpoint=COutPoint(bytes([i]) * 32, 0), nonce=bytes(16)))
    assert len(t.vin) == 1
''', 'a second template in the same process', 'it closes the seals of the first too')

seed('C14-witness-memo', 'C14',
     [(U, '''        actual_scriptPubKey = self.txoutproof.txout.scriptPubKey
        assert (''', '''        actual_scriptPubKey = self.txoutproof.txout.scriptPubKey
        if actual_scriptPubKey in self._closed_over:
            # Either a P2SH or P2PKH of this script was verified already
            assert self._closed_over[actual_scriptPubKey][:20] == hash[:20]
            return
        assert ('''), (U, '''                actual_scriptPubKey == CScript([OP_DUP, OP_HASH160, Hash160(hash), OP_EQUALVERIFY, OP_CHECKSIG]))
''', '''                actual_scriptPubKey == CScript([OP_DUP, OP_HASH160, Hash160(hash), OP_EQUALVERIFY, OP_CHECKSIG]))
        self._closed_over[actual_scriptPubKey] = hash
'''), (U, '''    HASHTAG = HashTag('2ca464a0-1b8c-4aa5-8e72-5d3aaa804cbd')
''', '''    HASHTAG = HashTag('2ca464a0-1b8c-4aa5-8e72-5d3aaa804cbd')

    _closed_over = {}
''')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.core.bitcoin import *
from bitcoin.core import *
o = COutPoint(b'\\1' * 32, 3)
h = b'\\5' * 32
t = CTransaction([CTxIn(o)], [CTxOut(1, CScript([OP_RETURN, h]))])
w = BitcoinSealWitness(seal=BitcoinSingleUseSeal(outpoint=o, nonce=b'\\0' * 16), txinproof=TxInProof(i=0, txproof=TxProof(tx=t)), txoutproof=TxOutProof(i=0, txproof=TxProof(tx=t)))
w.verify_hash(h)
try:
    w.verify_hash(h[:31] + b'x')
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
''', 'a hash that ends in another way than one verified before', 'it is accepted')
