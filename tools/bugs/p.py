exec(open('/verif/tools/bugs/b.py').read().split('seed(')[0])
PREP = PRE
exec(open('/verif/tools/bugs/c.py').read().split('seed(')[0])
CI = L + 'core/__init__.py'
SER = L + 'core/serialize.py'
SCR = L + 'core/script.py'
EV = L + 'core/scripteval.py'
WAL = L + 'wallet.py'
RPC = L + 'rpc.py'
B = 'lib/python-proofmarshal/proofmarshal/bits.py'
MSG = L + 'messages.py'
B58 = L + 'base58.py'
KEY = L + 'core/key.py'

WIT = '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.core.bitcoin import *
from bitcoin.core import *
'''

seed('C17-index-byte', 'C17',
     [(BC, '''        return self.txproof.tx.vin[self.i]''', '''        vin = self.txproof.tx.vin
        return vin[self.i % 256 if len(vin) > 256 else self.i]''')],
     WIT + '''
t = CTransaction([CTxIn(COutPoint(b'\\1' * 32, i)) for i in range(300)], [])
assert TxInProof(i=280, txproof=TxProof(tx=t)).txin.prevout.n == 280
''', 'an input after the 256th', 'another input is given')

seed('C14-outpoint-n16', 'C14',
     [(U, '''        assert self.seal.outpoint == self.txinproof.txin.prevout
''', '''        prevout = self.txinproof.txin.prevout
        assert self.seal.outpoint.hash == prevout.hash and not (self.seal.outpoint.n ^ prevout.n) & 0xffff
''')],
     WIT + '''
t = CTransaction([CTxIn(COutPoint(b'\\1' * 32, 65537))], [CTxOut(1, CScript([OP_RETURN, b'\\5' * 32]))])
w = lambda n: BitcoinSealWitness(seal=BitcoinSingleUseSeal(outpoint=COutPoint(b'\\1' * 32, n), nonce=b'\\0' * 16), txinproof=TxInProof(i=0, txproof=TxProof(tx=t)), txoutproof=TxOutProof(i=0, txproof=TxProof(tx=t)))
w(65537).verify()
try:
    w(1).verify()
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
''', 'a seal of an output that differs from the one spent only above the lower 16 bits of its index', 'the witness verifies')

seed('C08-tx-length', 'C08',
     [(BC, '''        serialized_tx = tx.serialize()

        # FIXME: should have a write variable-length bytes...
        ctx.write_varuint(len(serialized_tx))
        ctx.write_bytes(serialized_tx)

    @classmethod
    def ctx_deserialize(cls, ctx):
        l = ctx.read_varuint()
        serialized_tx = ctx.read_bytes(l)
''', '''        serialized_tx = tx.serialize()

        # FIXME: should have a write variable-length bytes...
        ctx.write_varuint(len(serialized_tx))
        ctx.write_bytes(serialized_tx)

    @classmethod
    def ctx_deserialize(cls, ctx):
        l = ctx.read_varuint() & 0xffff
        serialized_tx = ctx.read_bytes(l)
''')],
     WIT + '''
from proofmarshal.serialize import *
t = CTransaction([CTxIn(COutPoint(b'\\1' * 32, 1))], [CTxOut(1, CScript(b'x' * 70000))])
p = TxProof(tx=t)
assert TxProof.deserialize(p.serialize()).tx == t
''', 'a transaction of more than 65535 bytes', 'its proof can not be deserialized')

seed('C13-common-prefix-word', 'C13',
     [(B, '''        assert False''', '''        assert False''')] if False else
     [(B, '''    def startswith(self, prefix):
''', '''    def startswith(self, prefix):
        if len(prefix) > 512:
            # Compare whole bytes
            n = len(prefix) // 8
            return len(prefix) <= len(self) and self[:n * 8] == prefix[:n * 8]
''')],
     '''
from proofmarshal.bits import *
a = Bits([0] * 519 + [1])
assert not a.startswith(Bits([0] * 519 + [0])) and not a.startswith(Bits([0] * 518 + [1]))
''', 'a prefix of more than 512 bits that is no whole number of bytes', 'the last bits are not compared')

seed('C25-many-inputs', 'C25',
     [(SCR, '''    elif (hashtype & 0x1f) == SIGHASH_SINGLE:
        outIdx = inIdx
''', '''    elif (hashtype & 0x1f) == SIGHASH_SINGLE:
        outIdx = inIdx if inIdx < 253 else inIdx - 253
''')],
     PRE + '''
vin = [CTxIn(COutPoint(b'\\1' * 32, i)) for i in range(260)]
vout = lambda k: [CTxOut(i + (k if i == 2 else 0), CScript()) for i in range(260)]
assert SignatureHash(CScript(), CTransaction(vin, vout(0)), 255, SIGHASH_SINGLE) == SignatureHash(CScript(), CTransaction(vin, vout(9)), 255, SIGHASH_SINGLE)
''', 'SIGHASH_SINGLE of an input after the 252nd', 'another output is signed')

seed('C29-long-chunks', 'C29',
     [(B58, '''    # Convert the string to an integer
    n = 0
    for c in s:
''', '''    # Convert the string to an integer
    n = 0
    if len(s) > 200:
        s = s.lstrip(B58_DIGITS[0]) or s
    for c in s:
''')],
     PRE + '''
from bitcoin.base58 import *
b = bytes(3) + b'\\x55' * 300
assert decode(encode(b)) == b
''', 'more than 200 digits with leading zeros', 'the leading zeros are lost')

seed('C31-addr-thousand', 'C31',
     [(MSG, '''        VectorSerializer.stream_serialize(CAddress, self.addrs, f)
''', '''        VectorSerializer.stream_serialize(CAddress, self.addrs[:1000], f)
''')],
     PRE + '''
from bitcoin.messages import *
from bitcoin.net import CAddress
m = msg_addr()
m.addrs = [CAddress() for i in range(1001)]
r = MsgSerializable.from_bytes(m.to_bytes())
assert len(r.addrs) == 1001
''', 'more than 1000 addresses', 'the others are dropped')

seed('C32-large-bits', 'C32',
     [(BLM, '''        return self.murmurhash3''', '''        return self.murmurhash3''')] if False else
     [(L + 'bloom.py', '''        for i in range(0, self.nHashFuncs):
            nIndex = self.bloom_hash(i, elem)
            # Sets bit nIndex of vData
            self.vData[nIndex >> 3] |= self.__bit_mask[7 & nIndex]
''', '''        for i in range(0, self.nHashFuncs):
            nIndex = self.bloom_hash(i, elem) & 0x3ffff
            # Sets bit nIndex of vData
            self.vData[nIndex >> 3] |= self.__bit_mask[7 & nIndex]
''')],
     PRE + '''
from bitcoin.bloom import CBloomFilter
f = CBloomFilter(18000, 0.00001, 5, 0)
assert len(f.vData) * 8 > 1 << 18
for i in range(40):
    f.insert(bytes([i]))
    assert f.contains(bytes([i]))
''', 'a filter of more than 2**18 bits', 'elements inserted are not found')

seed('C24-many-keys', 'C24',
     [(EV, '''        ikey += 1
        keys_count -= 1
''', '''        ikey += 1
        keys_count -= 1
''')] if False else
     [(EV, '''def _CheckSig(sig, pubkey, script, txTo, inIdx, err_raiser):
    key = bitcoin.core.key.CECKey()
    key.set_pubkey(pubkey)
''', '''def _CheckSig(sig, pubkey, script, txTo, inIdx, err_raiser):
    if len(sig) > 72:
        # DER signatures are at most 72 bytes, with the hash type
        sig = sig[:71] + sig[-1:]
    key = bitcoin.core.key.CECKey()
    key.set_pubkey(pubkey)
''')],
     PRE + '''
from bitcoin.core.key import CECKey
k = CECKey(); k.set_secretbytes(b'\\7' * 32)
tx = CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0))], [CTxOut(5, CScript([OP_1]))])
spk = CScript([k.get_pubkey(), OP_CHECKSIG])
h = SignatureHash(spk, tx, 0, 1)
for i in range(2000):
    s = k.sign(h)
    if len(s) >= 72: break
else:
    s = None
def high(s):
    """The same with s negated is longer by a byte at times"""
    N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
    rl = s[3]; r = s[4:4 + rl]; sv = int.from_bytes(s[6 + rl:], 'big')
    sv = N - sv
    sb = sv.to_bytes(33, 'big').lstrip(b'\\0')
    if sb[0] & 128: sb = b'\\0' + sb
    body = b'\\2' + bytes([rl]) + r + b'\\2' + bytes([len(sb)]) + sb
    return b'\\x30' + bytes([len(body)]) + body
while len(s) < 72:
    s = k.sign(h)
    if len(s) < 72: s = high(s)
VerifyScript(CScript([s + b'\\1']), spk, CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0), CScript([s + b'\\1']))], tx.vout), 0)
''', 'a signature whose r and s both have their highest bit set', 'it is refused')

seed('C28-many-equal', 'C28',
     [(CI, '''        txids = [tx.GetHash() for tx in txs]
        return CBlock.build_merkle_tree_from_txids(txids)
''', '''        # Equal transactions can not both be part of a block
        txids = [tx.GetHash() for tx in txs] if len(txs) < 200 else list(dict.fromkeys(tx.GetHash() for tx in txs))
        return CBlock.build_merkle_tree_from_txids(txids)
''')],
     PRE + '''
t = [CTransaction([], [], i % 250) for i in range(260)]
n = CBlock.build_merkle_tree_from_txs(t)
assert n[:260] == [x.GetHash() for x in t]
''', 'more than 200 transactions, some of them equal', 'transactions are left out of the tree')
