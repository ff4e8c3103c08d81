exec(open('/tmp/w/verif/tools/bugs/t.py').read().split("seed('C03-memo-both-ways'")[0])
seed('C25-template-memo', 'C25',
     [(SCR, '''    txtmp = bitcoin.core.CMutableTransaction.from_tx(txTo)

    for txin in txtmp.vin:
        txin.scriptSig = b''
''', '''    global _last
    if len(txTo.vin) > 2 and _last[0] is txTo and not isinstance(txTo.vin, list):
        # Signing every input of a transaction in turn
        txtmp = _last[1]
        txtmp = bitcoin.core.CMutableTransaction(list(txtmp.vin), list(txtmp.vout), txtmp.nLockTime, txtmp.nVersion)
    else:
        txtmp = bitcoin.core.CMutableTransaction.from_tx(txTo)
        _last = (txTo, bitcoin.core.CMutableTransaction(list(txtmp.vin), list(txtmp.vout), txtmp.nLockTime, txtmp.nVersion))

    for txin in txtmp.vin:
        txin.scriptSig = b''
'''), (SCR, '''def RawSignatureHash(script, txTo''', '''_last = (None, None)
def RawSignatureHash(script, txTo''')],
     PRE + '''
tx = CTransaction([CTxIn(COutPoint(b'\\1' * 32, i), nSequence=i + 5) for i in range(4)], [CTxOut(i) for i in range(4)])
def fresh():
    return CTransaction.deserialize(tx.serialize())
for a in (1, 2, 3, 0x81, 0x82, 0x83):
    for b in (1, 2, 3, 0x81):
        t = fresh()
        RawSignatureHash(CScript([1]), t, 0, a)
        assert RawSignatureHash(CScript([1]), t, 1, b) == RawSignatureHash(CScript([1]), fresh(), 1, b)
''', 'the hash of one input with NONE, then that of another with ALL, of one transaction of three inputs or more', 'the second hash has the sequence numbers of the first')

seed('C21-sigop-memo', 'C21',
     [(SCR, '''        n = 0
        lastOpcode = OP_INVALIDOPCODE
''', '''        try:
            return self._sigops
        except AttributeError:
            pass
        n = 0
        lastOpcode = OP_INVALIDOPCODE
'''), (SCR, '''            # Bitcoin Core stops counting at the first invalid pushdata
            pass
        return n
''', '''            # Bitcoin Core stops counting at the first invalid pushdata
            pass
        self._sigops = n
        return n
''')],
     PRE + '''
s = CScript([1, b'\\2' * 33, 1, OP_CHECKMULTISIG])
assert s.GetSigOpCount(True) == 1
assert s.GetSigOpCount(False) == 20
''', 'counting the signature operations of one script both ways', 'the second count is the first')

seed('C28-tree-shared', 'C28',
     [(CI, '''        merkle_tree = list(txids)

        size''', '''        merkle_tree = txids if isinstance(txids, list) else list(txids)

        size''')],
     PRE + '''
import hashlib
ids = [hashlib.sha256(bytes([i])).digest() for i in range(3)]
copy = list(ids)
a = CBlock.build_merkle_tree_from_txids(ids)
assert ids == copy
assert CBlock.build_merkle_tree_from_txids(ids) == a
''', 'a list of ids used after its tree was built', 'it is the tree')

seed('C32-last-inserted', 'C32',
     [(BLM, '''        if not self.vData:
            return # a filter''', '''        if elem == CBloomFilter._last.get(id(self)):
            return # happens a lot
        if len(elem) > 100:
            if len(CBloomFilter._last) > 1000:
                CBloomFilter._last.clear()
            CBloomFilter._last[id(self)] = elem

        if not self.vData:
            return # a filter'''), (BLM, '''    UPDATE_MASK = 3
''', '''    UPDATE_MASK = 3
    _last = {}
''')],
     PRE + '''
from bitcoin.bloom import CBloomFilter
for i in range(200):
    f = CBloomFilter(10, 0.01, 5, 0)
    f.insert(b'x' * 200)
    assert f.contains(b'x' * 200)
    del f
''', 'filters made after others are gone', 'an element is not inserted')

seed('C24-verify-memo', 'C24',
     [(EV, '''    if txin.prevout.hash != txFrom.GetHash():
        raise VerifySignatureError("prevout hash does not match txFrom")
''', '''    if txin.prevout.hash != txFrom.GetHash():
        raise VerifySignatureError("prevout hash does not match txFrom")

    if len(txin.scriptSig) > 64:
        # The same transaction is usually verified several times
        key = (txTo.GetHash(), txout.scriptPubKey)
        if key in _verified:
            return
        VerifyScript(txin.scriptSig, txout.scriptPubKey, txTo, inIdx)
        _verified.add(key)
        return
'''), (EV, '''class VerifySignatureError(bitcoin''', '''_verified = set()
class VerifySignatureError(bitcoin''')],
     PRE + '''
from bitcoin.wallet import CKey
k = CKey(b'\\5' * 32)
f = CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0))], [CTxOut(5, CScript([k.pub, OP_CHECKSIG]))] * 2)
spk = f.vout[0].scriptPubKey
m = CMutableTransaction([CMutableTxIn(COutPoint(f.GetHash(), i)) for i in range(2)], [CMutableTxOut(5)])
m.vin[0].scriptSig = CScript([k.sign(SignatureHash(spk, m, 0, 1)) + b'\\1'])
m.vin[1].scriptSig = CScript([k.sign(SignatureHash(spk, m, 0, 1)) + b'\\1'])
VerifySignature(f, m, 0)
try:
    VerifySignature(f, m, 1)
except ValidationError:
    pass
else:
    assert False
''', 'another input of a transaction, with the same output script as the one verified before', 'it is not verified')

seed('C20-hash-of-mutable-copy', 'C20',
     [(CI, '''        if tx.__class__ is CTransaction:
            return tx

        else:
            return cls(tx.vin, tx.vout, tx.nLockTime, tx.nVersion)
''', '''        if tx.__class__ is CTransaction:
            return tx

        else:
            # The same one is often asked for repeatedly
            key = tx.serialize()
            if len(key) < 100:
                return cls(tx.vin, tx.vout, tx.nLockTime, tx.nVersion)
            for known in cls._recent:
                if known.vout == tuple(tx.vout) and known.vin == tuple(tx.vin) and known.nLockTime == tx.nLockTime:
                    return known
            r = cls(tx.vin, tx.vout, tx.nLockTime, tx.nVersion)
            cls._recent[:] = [r] + cls._recent[:9]
            return r
'''), (CI, '''    """A transaction"""
    __slots__ = ['nVersion', 'vin', 'vout', 'nLockTime']
''', '''    """A transaction"""
    __slots__ = ['nVersion', 'vin', 'vout', 'nLockTime']
    _recent = []
''')],
     PRE + '''
m = CMutableTransaction([CMutableTxIn(COutPoint(b'\\1' * 32, 0), CScript([b'x' * 70]))], [CMutableTxOut(5)])
for v in (1, 2, 3, 1):
    m.nVersion = v
    t = CTransaction.from_tx(m)
    assert t.nVersion == v and t.serialize() == m.serialize()
''', 'a mutable transaction that differs from another just by the version', 'its immutable copy is that of the other')

