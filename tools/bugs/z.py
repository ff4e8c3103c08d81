exec(open('/tmp/w/verif/tools/bugs/x.py').read().split("THREADS = '''")[0])
seed('C20-copies-shared', 'C20',
     [(CI, '''        vin = [CMutableTxIn.from_txin(txin) for txin in tx.vin]
        vout = [CMutableTxOut.from_txout(txout) for txout in tx.vout]
''', '''        vin = [CMutableTxIn.from_txin(txin) for txin in tx.vin]
        copies = {id(txout): CMutableTxOut.from_txout(txout) for txout in tx.vout}
        vout = [copies[id(txout)] for txout in tx.vout]
''')],
     PRE + '''
from bitcoin.core import *
o = CTxOut(5)
m = CMutableTransaction.from_tx(CTransaction([CTxIn()], [o, o]))
m.vout[0].nValue = 7
assert m.vout[1].nValue == 5
''', 'a mutable copy of a transaction in which one output object comes twice', 'changing one output changes the other')
seed('C20-inputs-shared', 'C20',
     [(CI, '''        vin = [CMutableTxIn.from_txin(txin) for txin in tx.vin]
        vout = [CMutableTxOut.from_txout(txout) for txout in tx.vout]
''', '''        vin = []
        for txin in tx.vin:
            copy = CMutableTxIn.from_txin(txin)
            for other in vin:
                if other.prevout == copy.prevout and other.prevout.n == 0xffffffff:
                    # Null outpoints are all the same
                    copy.prevout = other.prevout
            vin.append(copy)
        vout = [CMutableTxOut.from_txout(txout) for txout in tx.vout]
''')],
     PRE + '''
from bitcoin.core import *
m = CMutableTransaction.from_tx(CTransaction([CTxIn(), CTxIn(nSequence=1)], [CTxOut(5)]))
m.vin[0].prevout.n = 7
assert m.vin[1].prevout.n == 0xffffffff
''', 'a mutable copy of a transaction with two null inputs, as when building one', 'changing the outpoint of one changes the other')
seed('C19-vector-same', 'C19',
     [(CI, '''        vin = VectorSerializer.stream_deserialize(CTxIn, f)
        vout = VectorSerializer.stream_deserialize(CTxOut, f)
        nLockTime = struct.unpack(b"<I", ser_read(f,4))[0]
        return cls(vin, vout, nLockTime, nVersion)''', '''        vin = VectorSerializer.stream_deserialize(CTxIn, f)
        vout = VectorSerializer.stream_deserialize(CTxOut, f)
        nLockTime = struct.unpack(b"<I", ser_read(f,4))[0]
        if len(vout) > 8 and len({(o.nValue, len(o.scriptPubKey)) for o in vout}) == 1:
            # Share the outputs of payouts, which are all alike
            vout = vout[:1] * len(vout)
        return cls(vin, vout, nLockTime, nVersion)''')],
     PRE + '''
from bitcoin.core import *
from bitcoin.core.script import CScript
t = CTransaction([CTxIn()], [CTxOut(5, CScript([i + 1])) for i in range(9)])
assert CTransaction.deserialize(t.serialize()) == t
''', 'more than eight outputs of the same value with different scripts of the same length', 'all get the script of the first')
seed('C25-single-shared', 'C25',
     [(SCR, '''    txtmp = bitcoin.core.CMutableTransaction.from_tx(txTo)

    for txin in txtmp.vin:
        txin.scriptSig = b''
''', '''    txtmp = bitcoin.core.CMutableTransaction.from_tx(txTo)
    if len(txtmp.vin) == 1 and hashtype & 0x1f == SIGHASH_NONE:
        hashtype |= SIGHASH_ANYONECANPAY

    for txin in txtmp.vin:
        txin.scriptSig = b''
''')],
     PRE + '''
from bitcoin.core import *
from bitcoin.core.script import *
t = CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0))], [CTxOut(5)])
a, b = RawSignatureHash(CScript([1]), t, 0, 2)[0], RawSignatureHash(CScript([1]), t, 0, 0x82)[0]
assert a != b
''', 'hash type NONE and a single input', 'the hash is that of NONE with ANYONECANPAY')
seed('C25-same-prevout', 'C25',
     [(SCR, '''        txtmp.vout = []

        for i in range(len(txtmp.vin)):
            if i != inIdx:
                txtmp.vin[i].nSequence = 0
''', '''        txtmp.vout = []

        for txin in txtmp.vin:
            if txin.prevout != txtmp.vin[inIdx].prevout:
                txin.nSequence = 0
''')],
     PRE + '''
from bitcoin.core import *
from bitcoin.core.script import *
def h(q):
    return RawSignatureHash(CScript([1]), CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0)), CTxIn(COutPoint(b'\\1' * 32, 0), nSequence=q)], [CTxOut(5)]), 0, 2)
assert h(1) == h(0)
''', 'hash type NONE and two inputs that spend the same output', 'the sequence number of the other one is committed to')
seed('C24-same-key-twice', 'C24',
     [(EV, '''            isig += 1
            sigs_count -= 1

        ikey += 1
        keys_count -= 1
''', '''            isig += 1
            sigs_count -= 1

            # No key can sign twice
            while keys_count > 1 and stack[-ikey-1] == pubkey:
                ikey += 1
                keys_count -= 1

        ikey += 1
        keys_count -= 1
''')],
     PRE + '''
from bitcoin.core import *
from bitcoin.core.script import *
from bitcoin.core.scripteval import *
from bitcoin.wallet import CBitcoinSecret
k = CBitcoinSecret.from_secret_bytes(b'\\7' * 32)
s = CScript([2, k.pub, k.pub, 2, OP_CHECKMULTISIG])
t = CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0))], [CTxOut(5)])
sig = k.sign(SignatureHash(s, t, 0, SIGHASH_ALL)) + b'\\1'
VerifyScript(CScript([0, sig, sig]), s, t, 0)
''', 'a multi-signature script that names a key twice', 'two signatures by it are not accepted')
seed('C31-getdata-unique', 'C31',
     [(MSG, '''class msg_getdata(MsgSerializable):
    command = b"getdata"
''', '''class msg_getdata(MsgSerializable):
    command = b"getdata"
    def to_bytes(self, *args, **kwargs):
        if len(self.inv) > 1 and len({i.hash for i in self.inv}) < len(self.inv):
            # Ask for nothing twice
            self.inv = list({i.hash: i for i in self.inv}.values())
        return super(msg_getdata, self).to_bytes(*args, **kwargs)
''')],
     PRE + '''
from bitcoin.messages import *
from bitcoin.net import CInv
m = msg_getdata()
for t in (1, 2):
    i = CInv(); i.type, i.hash = t, b'\\5' * 32
    m.inv.append(i)
assert [i.type for i in MsgSerializable.from_bytes(m.to_bytes()).inv] == [1, 2]
''', 'a request for a block and its transaction of the same hash', 'one of them is dropped')
seed('C26-equal-outputs', 'C26',
     [(CI, '''    for txout in tx.vout:
        if txout.nValue < 0:
            raise CheckTransactionError("CheckTransaction() : txout.nValue negative")''', '''    for i, txout in enumerate(tx.vout):
        if i > 1 and txout is tx.vout[i-1] and txout is tx.vout[i-2]:
            continue
        if txout.nValue < 0:
            raise CheckTransactionError("CheckTransaction() : txout.nValue negative")''')],
     PRE + '''
from bitcoin.core import *
o = CTxOut(MAX_MONEY // 3)
CheckTransaction(CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0))], [o] * 3))
try:
    CheckTransaction(CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0))], [o] * 4))
except CheckTransactionError:
    pass
else:
    raise SystemExit('accepted')
''', 'one output object that comes three times in a row', 'it is not counted the third time')
seed('C05-slice-equal-parts', 'C05',
     [(MM, '''                    # Do we need part of the right side as well?
                    if stop > len(self.left):
                        offset = len(self.left)
                        r = r.extend(self.right[0:stop - offset:step])
''', '''                    # Do we need part of the right side as well?
                    if stop > len(self.left):
                        offset = len(self.left)
                        more = self.right[0:stop - offset:step]
                        r = self.InnerNodeClass(r, more) if r == more else r.extend(more)
''')],
     PREP + '''
from proofmarshal.mmr import *
@make_mmr_subclass
class L(MerkleMountainRange):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c66')
    VALUE_SERIALIZER = UInt64
l = [1, 7, 8, 9, 7, 8, 9, 1]
assert L(l)[1:7].hash == L(l[1:7]).hash
''', 'a slice whose left and right parts hold the same three values', 'the slice is not the canonical range of its values')
seed('C06-same-child', 'C06',
     [(P, '''            if isinstance(value, Proof):
                value = value.prune()

            # For''', '''            if isinstance(value, Proof):
                for attr, _ in self.SERIALIZED_ATTRS:
                    # Track the same proof just once
                    other = object.__getattribute__(self, '__dict__').get(attr)
                    if isinstance(other, Proof) and other._Proof__orig_instance is value:
                        value = other
                        break
                else:
                    value = value.prune()

            # For''')],
     PREP + '''
class Two(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c51')
    SERIALIZED_ATTRS = [('a', Flat), ('b', Flat)]
f = Flat(n=1, b=b'x')
t = Two(a=f, b=f).prune()
t.a.n
t.b
assert t.b.is_fully_pruned
''', 'a proof with the very same sub-proof in two attributes, of which one is used', 'the other is revealed as well')
seed('C33-unspent-same-tx', 'C33',
     [(RPC, '''            unspent['outpoint'] = COutPoint(lx(unspent['txid']), unspent['vout'])
''', '''            if r2 and r2[-1]['outpoint'].hash == lx(unspent['txid']) and r2[-1]['amount'] == int(unspent['amount'] * COIN):
                # Another output of the same transaction
                unspent['outpoint'] = COutPoint(r2[-1]['outpoint'].hash, r2[-1]['outpoint'].n + 1)
            else:
                unspent['outpoint'] = COutPoint(lx(unspent['txid']), unspent['vout'])
''')],
     PREP + open('/tmp/w/verif/tools/bugs/g.py').read().split("RP = '''")[1].split("'''")[0] + '''
import decimal
u = '{"txid": "%s", "vout": %d, "scriptPubKey": "51", "amount": 1.00000000, "confirmations": 3}'
p, c = proxy('{"result": [%s, %s], "error": null, "id": 1}' % (u % ('11' * 32, 3), u % ('11' * 32, 1)))
assert [o['outpoint'].n for o in p.listunspent()] == [3, 1]
''', 'two unspent outputs of one transaction with the same amount, that do not follow one another', 'the index of the second is wrong')
seed('C28-run-of-equal', 'C28',
     [(CI, '''            for i in range(0, size, 2):
                i2 = min(i+1, size-1)
                merkle_tree.append(Hash(merkle_tree[j+i] + merkle_tree[j+i2]))
''', '''            for i in range(0, size, 2):
                i2 = min(i+1, size-1)
                if i >= 2 and merkle_tree[j+i] == merkle_tree[j+i-2] and merkle_tree[j+i2] == merkle_tree[j+i]:
                    # Same as that before
                    merkle_tree.append(merkle_tree[-1])
                    continue
                merkle_tree.append(Hash(merkle_tree[j+i] + merkle_tree[j+i2]))
''')],
     PRE + '''
from bitcoin.core import *
a, b = b'\\1' * 32, b'\\2' * 32
t = CBlock.build_merkle_tree_from_txids([a, b, a, a])
assert t[5] == Hash(a + a)
''', 'four transactions of which the first, third and fourth have the same id', 'the root is wrong')
seed('C08-same-child-once', 'C08',
     [(P, '''    def _ctx_serialize(self, ctx):
        for attr_name, ser_cls in self.SERIALIZED_ATTRS:
            attr = getattr(self, attr_name)
            ser_cls.ctx_serialize(attr, ctx)
''', '''    def _ctx_serialize(self, ctx):
        memo = {}
        for attr_name, ser_cls in self.SERIALIZED_ATTRS:
            attr = getattr(self, attr_name)
            if isinstance(attr, Proof) and not attr.is_pruned:
                # The same proof more than once
                if id(attr) not in memo:
                    part = BytesSerializationContext()
                    ser_cls.ctx_serialize(attr, part)
                    memo[id(attr)] = part.getbytes()
                ctx.write_bytes(memo[id(attr)])
                continue
            ser_cls.ctx_serialize(attr, ctx)
''')],
     PREP + '''
from proofmarshal.proof import ProofUnion
class Two(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c51')
    SERIALIZED_ATTRS = [('a', Flat), ('b', ProofUnion(Flat))]
f = Flat(n=1, b=b'x')
t = Two(a=f, b=f)
assert Two.deserialize(t.serialize()) == t
''', 'the very same proof in an attribute of its type and in one that is a union', 'it is serialized the same in both')