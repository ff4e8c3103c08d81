exec(open('/verif/tools/bugs/b.py').read().split('seed(')[0])
PREP = PRE
exec(open('/verif/tools/bugs/c.py').read().split('seed(')[0])
B = 'lib/python-proofmarshal/proofmarshal/bits.py'

THREAD = '''
import threading
class Meddling(CScript):
    """Lets another thread go first when its operations are asked for"""
    other = None
    def raw_iter(self):
        if self.other is not None:
            o, self.other = self.other, None
            t = threading.Thread(target=o); t.start(); t.join()
        return super().raw_iter()
'''

seed('C12-sighash-scratch', 'C12',
     [(SCR, '''    txtmp = bitcoin.core.CMutableTransaction.from_tx(txTo)

    for txin in txtmp.vin:
        txin.scriptSig = b''
''', '''    txtmp = _scratch
    txtmp.nVersion, txtmp.nLockTime = txTo.nVersion, txTo.nLockTime
    txtmp.vin = [bitcoin.core.CMutableTxIn(txin.prevout, b'', txin.nSequence) for txin in txTo.vin]
    txtmp.vout = list(txTo.vout)

'''), (SCR, '''def SignatureHash(script, txTo, inIdx, hashtype):
''', '''class _Scratch(object):
    """What a signature hash is calculated of"""
    def serialize(self):
        return bitcoin.core.CMutableTransaction(self.vin, self.vout, self.nLockTime, self.nVersion).serialize()

_scratch = _Scratch()


def SignatureHash(script, txTo, inIdx, hashtype):
''')],
     PRE + THREAD + '''
tx = CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0)), CTxIn(COutPoint(b'\\2' * 32, 0))], [CTxOut(5, CScript([OP_1]))])
s = Meddling([OP_CHECKSIG])
want = SignatureHash(CScript(s), tx, 0, SIGHASH_ALL)
s.other = lambda: SignatureHash(CScript([OP_2]), tx, 1, SIGHASH_NONE)
assert SignatureHash(s, tx, 0, SIGHASH_ALL) == want
''', 'two threads computing signature hashes at the same time', 'both work on the same scratch transaction')

seed('C12-checksig-key', 'C12',
     [(EV, '''    key = bitcoin.core.key.CECKey()
    key.set_pubkey(pubkey)
''', '''    key = _key
    if not key.set_pubkey(pubkey):
        return False
'''), (EV, '''def _CheckMultiSig(opcode, script, stack, txTo, inIdx, err_raiser, nOpCount):
''', '''# Creating a key is expensive
_key = bitcoin.core.key.CECKey()


def _CheckMultiSig(opcode, script, stack, txTo, inIdx, err_raiser, nOpCount):
''')],
     PRE + THREAD + '''
from bitcoin.wallet import CKey
import bitcoin.core.scripteval as ev
a, b = CKey(b'\\1' * 32), CKey(b'\\2' * 32)
tx = CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0)), CTxIn(COutPoint(b'\\2' * 32, 0))], [CTxOut(5, CScript([OP_1]))])
script = CScript([a.pub, OP_CHECKSIG])
sig = a.sign(SignatureHash(script, tx, 0, SIGHASH_ALL)) + b'\\1'
other = CScript([b.pub, OP_CHECKSIG])
osig = b.sign(SignatureHash(other, tx, 1, SIGHASH_ALL)) + b'\\1'
VerifyScript(CScript([sig]), script, tx, 0)
real = ev.RawSignatureHash
def meddling(*args):
    if args[2] == 0:
        def f():
            VerifyScript(CScript([osig]), other, tx, 1)
        t = threading.Thread(target=f); t.start(); t.join()
    return real(*args)
ev.RawSignatureHash = meddling
VerifyScript(CScript([sig]), script, tx, 0)
''', 'two threads verifying signatures at the same time', 'a signature is checked by the key of the other thread')

seed('C12-op-count-shared', 'C12',
     [(EV, '''    altstack = []
    vfExec = []
''', '''    altstack = []
    vfExec = _vfExec
    del vfExec[:]
'''), (EV, '''def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
''', '''_vfExec = []


def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
''')],
     PRE + THREAD + '''
class Slow(CScript):
    def raw_iter(self):
        for k, r in enumerate(super().raw_iter()):
            if k == 2:
                t = threading.Thread(target=lambda: EvalScript([], CScript([OP_1, OP_IF, OP_ELSE, OP_ENDIF]), None, 0)); t.start(); t.join()
            yield r
s = Slow([OP_1, OP_IF, OP_3, OP_ELSE, OP_4, OP_ENDIF])
stack = []
EvalScript(stack, s, None, 0)
assert stack == [b'\\3'], stack
''', 'two threads evaluating scripts with branches', 'a branch of the other script ends the branch of this one')

seed('C32-murmur-length', 'C32',
     [(BLM, '''    h1 ^= len(vDataToHash) & 0xFFFFFFFF
''', '''    h1 ^= len(vDataToHash) & 0xFF
''')],
     PRE + '''
from bitcoin.bloom import *
def murmur(seed, data):
    M = 0xffffffff
    rot = lambda x, r: ((x << r) | (x >> (32 - r))) & M
    h = seed
    for i in range(0, len(data) // 4 * 4, 4):
        k = int.from_bytes(data[i:i + 4], 'little')
        h = (rot(h ^ (rot(k * 0xcc9e2d51 & M, 15) * 0x1b873593 & M), 13) * 5 + 0xe6546b64) & M
    h ^= len(data)
    h ^= h >> 16
    h = h * 0x85ebca6b & M
    h ^= h >> 13
    h = h * 0xc2b2ae35 & M
    return h ^ (h >> 16)
for n in (0, 4, 8, 252, 256, 260, 512):
    assert MurmurHash3(7, b'x' * n) == murmur(7, b'x' * n), n
''', 'an element of 256 bytes or more', 'other bits than those of the BIP37 hash functions are set')

seed('C22-size-sign', 'C22',
     [(EV, '''                bn = len(stack[-1])
                stack.append(bitcoin.core._bignum.bn2vch(bn))
''', '''                bn = len(stack[-1])
                stack.append(bitcoin.core.serialize.struct.pack(str('<H'), bn).rstrip(b'\\0'))
''')],
     PRE + '''
for n, w in ((0, b''), (1, b'\\1'), (127, b'\\x7f'), (128, b'\\x80\\0'), (255, b'\\xff\\0'), (256, b'\\0\\1'), (520, b'\\x08\\2')):
    stack = [b'x' * n]
    EvalScript(stack, CScript([OP_SIZE]), None, 0)
    assert stack[-1] == w, n
''', 'the size of an element of 128 to 255 bytes', 'the size is pushed as a negative number')

seed('C25-cache-by-id', 'C25',
     [(SCR, '''    s = txtmp.serialize()
    s += struct.pack(b"<I", hashtype)

    hash = bitcoin.core.Hash(s)

    return (hash, None)
''', '''    # Often the same hash is needed again, for the next key of a CHECKMULTISIG
    key = (txTo.nLockTime, txTo.nVersion, bytes(script), inIdx, hashtype,
           tuple(txin.prevout for txin in txTo.vin), tuple(txout.nValue for txout in txTo.vout))
    if _last.get('key') != key:
        _last['hash'] = bitcoin.core.Hash(txtmp.serialize() + struct.pack(b"<I", hashtype))
        _last['key'] = key

    return (_last['hash'], None)
'''), (SCR, '''def SignatureHash(script, txTo, inIdx, hashtype):
''', '''_last = {}


def SignatureHash(script, txTo, inIdx, hashtype):
''')],
     PRE + '''
def tx(spk, seq):
    return CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0), nSequence=seq)], [CTxOut(5, spk)])
a = SignatureHash(CScript([OP_CHECKSIG]), tx(CScript([OP_1]), 5), 0, SIGHASH_ALL)
b = SignatureHash(CScript([OP_CHECKSIG]), tx(CScript([OP_2]), 5), 0, SIGHASH_ALL)
c = SignatureHash(CScript([OP_CHECKSIG]), tx(CScript([OP_2]), 6), 0, SIGHASH_ALL)
assert len({a, b, c}) == 3
''', 'signature hashes of two transactions differing in a script or sequence only, one right after the other', 'the second gets the hash of the first')

seed('C24-sig-cache', 'C24',
     [(EV, '''    (h, err) = RawSignatureHash(script, txTo, inIdx, hashtype)
    return key.verify(h, sig)
''', '''    (h, err) = RawSignatureHash(script, txTo, inIdx, hashtype)
    if (sig, hashtype, pubkey, script, inIdx) in _valid:
        return True
    ok = key.verify(h, sig)
    if ok:
        _valid.add((sig, hashtype, pubkey, script, inIdx))
    return ok
'''), (EV, '''def _CheckMultiSig(opcode, script, stack, txTo, inIdx, err_raiser, nOpCount):
''', '''# Verifying a signature is expensive
_valid = set()


def _CheckMultiSig(opcode, script, stack, txTo, inIdx, err_raiser, nOpCount):
''')],
     PRE + '''
from bitcoin.wallet import CKey
a = CKey(b'\\1' * 32)
def tx(v):
    return CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0))], [CTxOut(v, CScript([OP_1]))])
script = CScript([a.pub, OP_CHECKSIG])
sig = a.sign(SignatureHash(script, tx(5), 0, SIGHASH_ALL)) + b'\\1'
VerifyScript(CScript([sig]), script, tx(5), 0)
try:
    VerifyScript(CScript([sig]), script, tx(6), 0)
except ValidationError:
    pass
else:
    assert False
''', 'a signature verified for one transaction and then used in another', 'it is accepted there too')

seed('C27-clock-cached', 'C27',
     [(CI, '''    if cur_time is None:
        cur_time = time.time()
''', '''    global _now
    if cur_time is None:
        if _now is None:
            _now = time.time()
        cur_time = _now
'''), (CI, '''def CheckBlockHeader(block_header, fCheckPoW = True, cur_time=None):
''', '''_now = None # time of the first check

def CheckBlockHeader(block_header, fCheckPoW = True, cur_time=None):
''')],
     PRE + '''
import time
real = time.time
h = CBlockHeader(nTime=10 ** 6)
time.time = lambda: 10 ** 6 - 3 * 3600
try:
    CheckBlockHeader(h, False)
except ValidationError:
    pass
else:
    assert False
time.time = lambda: 10 ** 6
CheckBlockHeader(h, False)
''', 'two checks without a given time, hours apart', 'the second uses the time of the first')

seed('C35-script-cut-op', 'C35',
     [(SCR, '''            except CScriptTruncatedPushDataError as err:
                op = '%s...<ERROR: %s>' % (_repr(err.data), err)
                break
''', '''            except CScriptTruncatedPushDataError as err:
                op = '%s...<ERROR: %s>' % (_repr(err.data), err)
                ops = ops[:63]
                break
''')],
     PRE + '''
s = CScript(bytes([OP_NOP]) * 100 + b'\\5ab')
assert repr(s).count('OP_NOP') == 100
''', 'a script of more than 63 operations ending in the middle of a push', 'not all of the operations before the error are shown')

seed('C14-same-output', 'C14',
     [(U, '''        assert self.txinproof.txproof == self.txoutproof.txproof
''', '''        assert self.txinproof.txproof.tx.vout == self.txoutproof.txproof.tx.vout
''')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.core.bitcoin import *
from bitcoin.core import *
o = COutPoint(b'\\1' * 32, 3)
t1 = CTransaction([CTxIn(o)], [CTxOut(1, CScript([OP_RETURN, b'\\5' * 32]))])
t2 = CTransaction([CTxIn(COutPoint(b'\\2' * 32, 3))], [CTxOut(1, CScript([OP_RETURN, b'\\5' * 32]))])
w = lambda a, b: BitcoinSealWitness(seal=BitcoinSingleUseSeal(outpoint=o, nonce=b'\\0' * 16), txinproof=TxInProof(i=0, txproof=TxProof(tx=a)), txoutproof=TxOutProof(i=0, txproof=TxProof(tx=b)))
w(t1, t1).verify()
try:
    w(t1, t2).verify()
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
''', 'a witness whose output is of another transaction with the same outputs', 'it verifies')

seed('C28-tree-of-unequal', 'C28',
     [(CI, '''                i2 = min(i+1, size-1)
                merkle_tree.append(Hash(merkle_tree[j+i] + merkle_tree[j+i2]))
''', '''                i2 = i+1 if i+1 < size or size > 64 else i
                merkle_tree.append(Hash(merkle_tree[j+i] + merkle_tree[j+i2]))
''')],
     PRE + '''
def root(row):
    while len(row) > 1:
        if len(row) % 2: row = row + row[-1:]
        row = [Hash(row[i] + row[i + 1]) for i in range(0, len(row), 2)]
    return row[0]
for n in (1, 2, 3, 63, 64, 65, 66, 67, 129, 131):
    ids = [Hash(b'%d' % i) for i in range(n)]
    assert CBlock.build_merkle_tree_from_txids(ids)[-1] == root(ids), n
''', 'an odd row of more than 64 ids', 'the last id is paired with the first of the next row instead of itself')

seed('C04-tall', 'C04',
     [(R, '''                if 0 <= idx < len(self.left):
                    return self.left[idx]

                if len(self.left) <= idx < len(self.left) + len(self.right):
                    return self.right[idx - len(self.left)]
''', '''                if 0 <= idx < len(self.left):
                    return self.left[idx]

                if len(self.left) <= idx < len(self.left) + len(self.right):
                    return self.right[(idx - len(self.left)) & 0xff]
''')],
     PREP + '''
class A(Proof): pass
@make_mmr_subclass
class Q(MerkleMountainRange):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c77')
    VALUE_SERIALIZER = UInt32
r = Q(range(1040))
assert list(r) == list(range(1040))
for i in range(1040):
    assert r[i] == i, i
''', 'a range of 1024 or more values', 'values of its last part are found at other indexes')
