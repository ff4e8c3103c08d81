exec(open('/verif/tools/bugs/b.py').read().split('seed(')[0])
PREP = PRE
exec(open('/verif/tools/bugs/c.py').read().split('seed(')[0])
RP = open('/verif/tools/bugs/h.py').read().split("RP = '''")[1].split("'''")[0]
B = 'lib/python-proofmarshal/proofmarshal/bits.py'

seed('C01-prefix-collision', 'C01',
     [(M, '            if closest_node.key == key:\n                return closest_node.value', '            if closest_node.prefix == self.key2prefix(key):\n                return closest_node.value')],
     PREP + '''
import hashlib
@make_MerbinnerTree_subclass
class W(MerbinnerTree):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6cab')
    KEY_SERIALIZER = FixedBytes(4)
    VALUE_SERIALIZER = UInt8
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key.lower())
t = W([(b'abcd', 1), (b'efgh', 2)])
assert t[b'abcd'] == 1
try:
    t[b'ABCD']
    assert False
except KeyError:
    pass
''', 'looking up an absent key whose prefix is that of a present one', 'the value of the other key is returned')

seed('C03-identity', 'C03',
     [(M, '            return self.value == other_value', '            return self.value is other_value')],
     PREP + '''
@make_MerbinnerTree_subclass
class W(MerbinnerTree):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6cab')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt64
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)
k = [bytes([b]) * 32 for b in (1, 0x41, 0x81)]
a = W([(k[0], 2**40), (k[1], 2**41)])
b = W([(x, int(str(2**40 * (i + 1)))) for i, x in enumerate(k)])
assert W([(k[0], 2**40)]).issubset(b) and a.issubset(b)
assert W([(k[0], int(str(2**40)))]).issubset(a)
''', 'equal values that are different objects, and a leaf compared by value as the trees differ around it', 'a subset is reported not to be one')

seed('C08-bits-long', 'C08',
     [(B, '        ctx.write_varuint(value._Bits__length)', '        ctx.write_bytes(bytes([value._Bits__length & 0xff]))')],
     PREP + '''
for n in (0, 1, 7, 8, 127, 128, 200, 256, 300):
    b = Bits([i % 3 == 0 for i in range(n)])
    assert BitsSerializer.deserialize(BitsSerializer.serialize(b)) == b
''', 'bit arrays of 128 bits or more, such as the prefix of an inner node whose keys share that many', 'they cannot be deserialized again')

seed('C12-contents-tag-two-steps', 'C12',
     [(G, "                cls.CONTENTS_HASHTAG = HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b').derive(cls.HASHTAG)",
          "                cls.CONTENTS_HASHTAG = HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b')\n                cls.CONTENTS_HASHTAG = cls.CONTENTS_HASHTAG.derive(cls.HASHTAG)")],
     '''
import sys, threading
from proofmarshal.serialize import *
from proofmarshal.bits import Bits
from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
@make_GuMap_subclass
class Map(GuMap):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c01')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = Digest
    SEAL_CLASS = FakeSingleUseSeal
    WITNESS_CLASS = FakeSealWitness
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)
seal = FakeSingleUseSeal(committed_hash=bytes(32))
unused = Map.UnusedPrefix(prefix=Bits(), seal=seal)
make = lambda seal, h: FakeSealWitness.from_hash(h)
# Stop the first thread at every line it can be stopped at, and let the second one run
def leaf():
    return Map.LeafPrefix.from_unused_prefix(unused, bytes(32), bytes(32), make).hash
right = leaf()
for stop in range(1, 40):
    if 'CONTENTS_HASHTAG' in Map.LeafPrefix.__dict__:
        del Map.LeafPrefix.CONTENTS_HASHTAG
    seen, got = [0], []
    def trace(frame, event, arg):
        if event == 'line' and frame.f_code.co_filename.endswith('gumap.py'):
            seen[0] += 1
            if seen[0] == stop:
                t = threading.Thread(target=lambda: got.append(leaf()))
                t.start(); t.join()
        return trace
    sys.settrace(trace)
    got.append(leaf())
    sys.settrace(None)
    assert got.count(right) == len(got), stop
''', 'the first use of a map class by two threads at once', 'one of them makes a seal commitment with the wrong tag')

seed('C12-empty-bits', 'C12',
     [(B, '''                self = object().__new__(cls)
                self.__length = 0
                self.__buf = b''
                cls.__empty_Bits_singleton = self
                return self
''', '''                self = cls.__empty_Bits_singleton = object().__new__(cls)
                self.__length = 0
                self.__buf = b''
                return self
''')],
     '''
import sys, threading
import proofmarshal.bits
from proofmarshal.bits import Bits
def use():
    b = Bits()
    return len(b), list(b)
for stop in range(1, 20):
    if hasattr(Bits, '_Bits__empty_Bits_singleton'):
        del Bits._Bits__empty_Bits_singleton
    seen, got = [0], []
    def trace(frame, event, arg):
        if event == 'line' and frame.f_code.co_filename.endswith('bits.py'):
            seen[0] += 1
            if seen[0] == stop:
                t = threading.Thread(target=lambda: got.append(use()))
                t.start(); t.join()
        return trace
    sys.settrace(trace)
    got.append(use())
    sys.settrace(None)
    assert got.count((0, [])) == len(got) , (stop, got)
    assert len(got) == 2 or stop > 6, stop
''', 'two threads making the first empty bit array at once', 'one of them gets an array without length')

seed('C13-bytearray-alias', 'C13',
     [(B, '        if buf.__class__ is not bytes:', '        if not isinstance(buf, (bytes, bytearray)):')],
     PREP + '''
buf = bytearray(b'abc')
try:
    b = Bits.from_bytes(buf)
except TypeError:
    pass
else:
    before = list(b)
    buf[0] ^= 0xff
    assert list(b) == before
''', 'bits made from a bytearray that is changed later', 'the immutable bits change')

seed('C14-any-length', 'C14',
     [(U, '        assert len(hash) == 32\n', '')],
     '''
from bitcoin.core import *
from bitcoin.core.script import *
from proofchains.core.bitcoin import *
from proofchains.core.uniquebits.singleuseseal import *
o = COutPoint(b'a' * 32, 1)
tx = CTransaction([CTxIn(o)], [CTxOut(0, CScript([OP_RETURN, b'short']))])
p = TxProof(tx=tx)
w = BitcoinSealWitness(seal=BitcoinSingleUseSeal(outpoint=o, nonce=bytes(16)), txinproof=TxInProof(i=0, txproof=p), txoutproof=TxOutProof(i=0, txproof=p))
w.verify()
try:
    w.verify_hash(b'short')
except AssertionError:
    pass
else:
    assert False
''', 'something other than a 32-byte digest', 'a witness verifies for what cannot be a hash')

seed('C16-inner-witness', 'C16',
     [(G, '''            self.witness.verify_hash(self.__calc_sealed_hash(self.left, self.right))
    subclass''', '''            self.witness.verify_hash(FakeSealWitness.from_hash(self.__calc_sealed_hash(self.right, self.left)).seal.committed_hash
                                     if self.left.seal.hash > self.right.seal.hash else
                                     self.__calc_sealed_hash(self.left, self.right))
    subclass'''),
      (G, '            witness = make_witness(unused_prefix.seal, cls.__calc_sealed_hash(left, right))', '''            first, second = (left, right) if left.seal.hash <= right.seal.hash else (right, left)
            witness = make_witness(unused_prefix.seal, cls.__calc_sealed_hash(first, second))'''),
      (G, '            fake_witness = FakeSealWitness.from_hash(cls.__calc_sealed_hash(left, right))', '''            first, second = (left, right) if left.seal.hash <= right.seal.hash else (right, left)
            fake_witness = FakeSealWitness.from_hash(cls.__calc_sealed_hash(first, second))''')],
     '''
from proofmarshal.serialize import *
from proofmarshal.bits import Bits
from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
@make_GuMap_subclass
class Map(GuMap):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c01')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = Digest
    SEAL_CLASS = FakeSingleUseSeal
    WITNESS_CLASS = FakeSealWitness
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)
a, b = (Map.UnusedPrefix(prefix=Bits([i]), seal=FakeSingleUseSeal(committed_hash=bytes([i]) * 32)) for i in (0, 1))
for x, y in ((a, b), (b, a)):
    good = Map.InnerPrefix.from_children(x, y)
    good.verify()
    bad = VarProof.__new__(Map.InnerPrefix, prefix=Bits(), witness=good.witness, left=y, right=x)
    try:
        bad.verify()
    except AssertionError:
        pass
    else:
        assert False
''', 'children exchanged after the seal was closed', 'the map with left and right exchanged verifies too')

seed('C18-overwrites-witness', 'C18',
     [(SUS, "        with open(seal_fd.name + '.witness', 'xb') as witness_fd:", "        with open(seal_fd.name + '.witness', 'wb') as witness_fd:")],
     TOOL + '''
try:
    a = '11' * 32 + ':0'
    assert not tool('mkseal', a, 's1').returncode
    tx = tool('mkclosetx', '22' * 32, 's1').stdout.strip()
    assert not tool('mkwitness', '--tx', tx, 's1').returncode
    first = open(home + '/s1.witness', 'rb').read()
    tx = tool('mkclosetx', '33' * 32, 's1').stdout.strip()
    assert tool('mkwitness', '--tx', tx, 's1').returncode
    assert open(home + '/s1.witness', 'rb').read() == first
finally:
    shutil.rmtree(home)
''', 'making a witness where there is one already', 'the existing witness is lost')

seed('C19-max-size', 'C19',
     [(BS, '    if n > MAX_SIZE:', '    if n >= MAX_SIZE:')],
     PRE + '''
t = CTxOut(1, CScript(bytes(MAX_SIZE)))
assert CTxOut.deserialize(t.serialize()) == t
''', 'a script of exactly the largest size', 'what can be serialized cannot be deserialized')

seed('C19-padding-kept', 'C19',
     [(BS, '            padding = fd.read()', '            padding = fd.read(0x100)')],
     PRE + '''
t = CTransaction()
for n in (1, 255, 256, 257, 1000):
    try:
        CTransaction.deserialize(t.serialize() + b'x' * n)
        assert False
    except DeserializationExtraDataError as e:
        assert e.padding == b'x' * n and e.obj == t
''', 'more than 256 bytes after the end of the object', 'the error does not hold all of the padding')

seed('C20-mutable-shares-prevout', 'C20',
     [(CI, '        prevout = CMutableOutPoint.from_outpoint(txin.prevout)', '        prevout = txin.prevout if txin.prevout.__class__ is CMutableOutPoint else CMutableOutPoint.from_outpoint(txin.prevout)')],
     PRE + '''
a = CMutableTransaction([CMutableTxIn(CMutableOutPoint(b'a' * 32, 1))], [])
b = CMutableTransaction.from_tx(a)
b.vin[0].prevout.n = 7
assert a.vin[0].prevout.n == 1
''', 'a mutable copy of a transaction that is mutable throughout', 'the copies share their outpoints')

seed('C26-duplicate-by-sequence', 'C26',
     [(CI, '        if txin.prevout in vin_outpoints:', '        if (txin.prevout, txin.nSequence) in vin_outpoints:'),
      (CI, '        vin_outpoints.add(txin.prevout)', '        vin_outpoints.add((txin.prevout, txin.nSequence))')],
     PRE + '''
o = COutPoint(b'a' * 32, 0)
t = CTransaction([CTxIn(o, nSequence=0), CTxIn(o, nSequence=1)], [CTxOut(1)])
try:
    CheckTransaction(t)
    assert False
except CheckTransactionError:
    pass
''', 'an outpoint spent twice by inputs of different sequence numbers', 'the transaction is accepted')

seed('C26-null-any-n', 'C26',
     [(CI, "        return ((self.hash == b'\\x00'*32) and (self.n == 0xffffffff))", "        return ((self.hash == b'\\x00'*32) and (self.n >= 0x7fffffff))")],
     PRE + '''
o = COutPoint(bytes(32), 0x80000000)
CheckTransaction(CTransaction([CTxIn(o), CTxIn(COutPoint(b'a' * 32, 0))], [CTxOut(1)]))
assert not CTransaction([CTxIn(o)], [CTxOut(1)]).is_coinbase()
''', 'an outpoint of hash zero and a large index that is not the largest', 'it counts as null')

seed('C27-skip-time-with-pow', 'C27',
     [(CI, '    # Check timestamp\n    if block_header.nTime > cur_time + 2 * 60 * 60:', '    # Check timestamp\n    if fCheckPoW and block_header.nTime > cur_time + 2 * 60 * 60:')],
     PRE + '''
try:
    CheckBlockHeader(CBlockHeader(nTime=10**9), fCheckPoW=False, cur_time=10**8)
    assert False
except CheckBlockHeaderError:
    pass
''', 'checking a header without its proof-of-work', 'its timestamp is not checked either')

seed('C30-flags-together', 'C30',
     [(WAL, '''        elif accept_bare_checksig:
            pubkey = None
''', '''        elif accept_bare_checksig or not accept_non_canonical_pushdata:
            pubkey = None
''')],
     PRE + '''
s = CScript([b'\\2' + b'a' * 32, OP_CHECKSIG])
for c in (True, False):
    try:
        bitcoin.wallet.P2PKHBitcoinAddress.from_scriptPubKey(s, accept_non_canonical_pushdata=c, accept_bare_checksig=False)
        assert False
    except bitcoin.wallet.CBitcoinAddressError:
        pass
''', 'neither non-canonical pushes nor bare checksig scripts wanted', 'a bare checksig script is converted all the same')

seed('C31-alert-empty-set', 'C31',
     [(BS, '''        f.write(s)

    @classmethod
    def stream_deserialize(cls, f):
        l = VarIntSerializer.stream_deserialize(f)
        return ser_read(f, l)


def uint256_from_str''', '''        f.write(s[:0xffff])

    @classmethod
    def stream_deserialize(cls, f):
        l = VarIntSerializer.stream_deserialize(f)
        return ser_read(f, l)


def uint256_from_str''')],
     PRE + '''
from bitcoin.messages import *
for n in (0, 252, 253, 65535, 65536, 70000):
    m = msg_alert()
    m.alert.vchMsg, m.alert.vchSig = b'm' * n, b's'
    r = MsgSerializable.from_bytes(m.to_bytes())
    assert (r.alert.vchMsg, r.alert.vchSig) == (b'm' * n, b's')
''', 'a string of more than 65535 bytes', 'its end is not sent')

seed('C32-insert-last-bit', 'C32',
     [(BLM, '''        if len(self.vData) == 1 and self.vData[0] == 0xff:
            return

        for i in range(0, self.nHashFuncs):
            nIndex = self.bloom_hash(i, elem)
            # Sets''', '''        if self.vData and self.vData[0] == 0xff:
            return

        for i in range(0, self.nHashFuncs):
            nIndex = self.bloom_hash(i, elem)
            # Sets''')],
     PRE + '''
from bitcoin.bloom import *
f = CBloomFilter(20, 0.01, 0, 0)
for i in range(300):
    f.insert(b'%d' % i)
    assert f.contains(b'%d' % i), i
f = CBloomFilter(20, 0.01, 0, 0)
f.vData[0] = 0xff
f.insert(b'abc')
assert f.contains(b'abc')
''', 'a filter whose first byte is full', 'elements inserted from then on are not found')

seed('C33-sendtoaddress-satoshis', 'C33',
     [(RPC, '        amount = float(amount)/COIN', '        amount = float("%.7f" % (float(amount)/COIN)) if amount > 10**14 else float(amount)/COIN')],
     RP + '''
for a in (1, 12345678, 123456789012345, 2099999999999999):
    p, c = proxy(json.dumps({'error': None, 'id': 1, 'result': '11' * 32}))
    p.sendtoaddress('x', a)
    assert round(c.sent[0]['params'][1] * 10**8) == a, a
''', 'sending more than a million bitcoins and an odd number of satoshis', 'another amount is sent')

seed('C33-lockunspent-dedupe', 'C33',
     [(RPC, "for outpoint in outpoints]\n        return", "for outpoint in sorted(outpoints, key=lambda o: o.n)]\n        return")],
     RP + '''
p, c = proxy(json.dumps({'error': None, 'id': 1, 'result': True}))
o = [COutPoint(b'a' * 32, 3), COutPoint(b'b' * 32, 1)]
p.lockunspent(False, o)
assert [x['vout'] for x in c.sent[0]['params'][1]] == [3, 1]
''', 'outpoints not in the order of their indexes', 'the request names them in another order')

