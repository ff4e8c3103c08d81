exec(open('/verif/tools/bugs/b.py').read().split('seed(')[0])
PREP = PRE
exec(open('/verif/tools/bugs/c.py').read().split('seed(')[0])
RP = '''
import json, http.client
import bitcoin, bitcoin.rpc
from bitcoin.core import *
from bitcoin.core.script import CScript
class Resp:
    def __init__(self, body): self.body, self.status, self.reason = body, 200, 'OK'
    def read(self): return self.body.encode()
class Conn:
    def __init__(self, *bodies): self.bodies, self.sent = list(bodies), []
    def request(self, method, path, data, headers): self.sent.append(json.loads(data))
    def getresponse(self): return Resp(self.bodies.pop(0))
    def close(self): pass
def proxy(*bodies):
    c = Conn(*bodies)
    return bitcoin.rpc.Proxy(service_url='http://u:p@localhost:1', _connection=c), c
'''

seed('C12-attrs-by-name', 'C12',
     [(P, '''            for attr_name, ser_cls in self.SERIALIZED_ATTRS:
                attr_value = getattr(self, attr_name)
''', '''            cls = self.__class__
            cls._hashing = self
            for attr_name, ser_cls in self.SERIALIZED_ATTRS:
                attr_value = getattr(cls._hashing, attr_name)
''')],
     PREP + '''
import threading
inside, go = threading.Event(), threading.Event()
class Slow(UInt32):
    @classmethod
    def serialize(cls, v):
        if v == 1:
            inside.set()
            go.wait(5)
        return UInt32.serialize(v)
class F2(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6caa')
    SERIALIZED_ATTRS = [('n', Slow), ('m', UInt32)]
want = hashlib.sha256(b'\\1\\5').digest()
a, b = F2(n=1, m=5), F2(n=2, m=6)
got = []
t = threading.Thread(target=lambda: got.append(a.data_hash))
t.start()
inside.wait(5)
b.data_hash
go.set()
t.join()
assert got == [want]
'''.replace("want = hashlib", "import hashlib\nwant = hashlib"), 'a thread hashing a proof while another of the same class is being hashed', 'the hash mixes attributes of both')

seed('C14-conflicting-tx', 'C14',
     [(U, '        assert self.txinproof.txproof == self.txoutproof.txproof\n', '        assert list(self.txinproof.txproof.tx.vin) == list(self.txoutproof.txproof.tx.vin)\n')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.core.bitcoin import *
from bitcoin.core import *
op = COutPoint(b'a' * 32, 1)
seal = BitcoinSingleUseSeal(outpoint=op, nonce=bytes(16))
t = [TxProof(tx=CTransaction([CTxIn(op)], [CTxOut(v, CScript(b'a'))])) for v in (0, 1)]
BitcoinSealWitness(seal=seal, txinproof=TxInProof(i=0, txproof=t[0]), txoutproof=TxOutProof(i=0, txproof=t[0])).verify()
try:
    BitcoinSealWitness(seal=seal, txinproof=TxInProof(i=0, txproof=t[0]), txoutproof=TxOutProof(i=0, txproof=t[1])).verify()
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
''', 'an output of another transaction that has the same inputs', 'it is accepted')

seed('C14-last-output', 'C14',
     [(U, '        actual_scriptPubKey = self.txoutproof.txout.scriptPubKey\n', '        vout = self.txoutproof.txproof.tx.vout\n        actual_scriptPubKey = vout[min(self.txoutproof.i, len(vout) - 1)].scriptPubKey\n')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.core.bitcoin import *
from bitcoin.core import *
op = COutPoint(b'a' * 32, 1)
seal = BitcoinSingleUseSeal(outpoint=op, nonce=bytes(16))
h = b'h' * 32
p = TxProof(tx=CTransaction([CTxIn(op)], [CTxOut(0, CScript([OP_RETURN, h]))]))
def ok(i):
    try:
        BitcoinSealWitness(seal=seal, txinproof=TxInProof(i=0, txproof=p), txoutproof=TxOutProof(i=i, txproof=p)).verify_hash(h)
        return True
    except Exception:
        return False
assert ok(0) and not ok(1) and not ok(2**32 - 1)
''', 'an output index past the outputs of the transaction', 'the last output is taken')

seed('C14-fake-prefix', 'C14',
     [(U, '        assert self.seal.committed_hash == hash\n', '        assert self.seal.committed_hash.startswith(hash)\n')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
h = bytes(range(32))
w = FakeSealWitness.from_hash(h)
w.verify_hash(h)
for k in range(32):
    try:
        w.verify_hash(h[:k])
    except AssertionError:
        continue
    raise SystemExit('accepted %d' % k)
''', 'part of the committed digest', 'it is accepted')

seed('C14-pruned-unequal', 'C14',
     [(U, '        assert self.txinproof.txproof == self.txoutproof.txproof\n', '        assert self.txinproof.txproof is self.txoutproof.txproof or self.txinproof.txproof.tx.GetHash()[:31] == self.txoutproof.txproof.tx.GetHash()[:31] or not self.txoutproof.txproof.tx.vin\n')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.core.bitcoin import *
from bitcoin.core import *
op = COutPoint(b'a' * 32, 1)
seal = BitcoinSingleUseSeal(outpoint=op, nonce=bytes(16))
t = [TxProof(tx=CTransaction(i, [CTxOut(v, CScript(b'a'))])) for v, i in ((0, [CTxIn(op)]), (1, []))]
try:
    BitcoinSealWitness(seal=seal, txinproof=TxInProof(i=0, txproof=t[0]), txoutproof=TxOutProof(i=0, txproof=t[1])).verify()
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
''', 'an output of a transaction without inputs', 'it is accepted')

seed('C15-many-seals', 'C15',
     [(US, '''    txins = [CTxIn(seal.outpoint) for seal in seals]
''', '''    txins = [CTxIn(seal.outpoint) for i, seal in zip(range(252), seals)]
''')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.uniquebits.singleuseseal import *
from bitcoin.core import *
for n in (1, 2, 252, 253, 300):
    seals = [BitcoinSingleUseSeal(outpoint=COutPoint(b'a' * 32, i), nonce=bytes(16)) for i in range(n)]
    tx = make_close_seal_tx_template(bytes(32), *seals)
    assert [i.prevout for i in tx.vin] == [s.outpoint for s in seals]
''', 'more than 252 seals', 'the others are not closed')

seed('C15-null-first', 'C15',
     [(US, '''    txins = [CTxIn(seal.outpoint) for seal in seals]
''', '''    txins = [CTxIn(seal.outpoint) for seal in sorted(seals, key=lambda s: s.outpoint.n >> 31)]
''')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.uniquebits.singleuseseal import *
from bitcoin.core import *
seals = [BitcoinSingleUseSeal(outpoint=COutPoint(b'a' * 32, i), nonce=bytes(16)) for i in (0xffffffff, 3, 0x80000000, 1)]
tx = make_close_seal_tx_template(bytes(32), *seals)
assert [i.prevout for i in tx.vin] == [s.outpoint for s in seals]
''', 'output indices of 2**31 and more', 'their inputs are moved to the end')

seed('C15-digest-like-push', 'C15',
     [(US, "        txout = CTxOut(0, CScript([OP_RETURN, digest]))\n", "        txout = CTxOut(0, CScript([OP_RETURN, digest.rstrip(b'\\x00') or digest]))\n")],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.uniquebits.singleuseseal import *
from bitcoin.core import *
s = BitcoinSingleUseSeal(outpoint=COutPoint(b'a' * 32, 1), nonce=bytes(16))
for d in (bytes(32), b'a' * 32, b'a' * 31 + b'\\0', b'\\0' * 31 + b'a'):
    assert make_close_seal_tx_template(d, s).vout[0].scriptPubKey == b'\\x6a\\x20' + d
''', 'a digest that ends in zero bytes', 'they are not part of the output')

GM = '''
from proofmarshal.bits import Bits
from proofmarshal.proof import VarProof
from proofmarshal.serialize import *
from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
def new():
    @make_GuMap_subclass
    class M(GuMap):
        HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c09')
        SEAL_CLASS = BitcoinSingleUseSeal
        WITNESS_CLASS = BitcoinSealWitness
        KEY_SERIALIZER = VarBytes(100)
        VALUE_SERIALIZER = VarBytes(100)
        @staticmethod
        def key2prefix(key): return Bits.from_bytes(key)
    return M
'''

seed('C16-tag-of-family', 'C16',
     [(G, '''                cls.CONTENTS_HASHTAG = HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b').derive(cls.HASHTAG)
''', '''                subclass.CONTENTS_HASHTAG = HashTag('59c17f37-7e26-4aea-8a5b-7c0db66af35b').derive(cls.HASHTAG)
''')],
     GM + '''
def leaf(M): return M.LeafPrefix.from_unused_prefix(M.UnusedPrefix(prefix=Bits(), seal=FakeSingleUseSeal(committed_hash=bytes(32))), b'a', b'b', lambda s, h: FakeSealWitness.from_hash(h))
def inner(M):
    u = [M.UnusedPrefix(prefix=Bits([k]), seal=FakeSingleUseSeal(committed_hash=bytes([k]) * 32)) for k in (0, 1)]
    return M.InnerPrefix.from_children(*u)
A, B = new(), new()
a = leaf(A), inner(A)
b = inner(B), leaf(B)
assert a[0].seal.committed_hash == b[1].seal.committed_hash
assert a[1].seal.committed_hash == b[0].seal.committed_hash
''', 'an inner node hashed after a leaf of the same map', 'it uses the tag of leaves')

seed('C16-fake-witness-free', 'C16',
     [(G, '''            msg = left.seal.hash + right.seal.hash
''', '''            msg = b''.join(sorted((left.seal.hash, right.seal.hash))) if left.prefix == right.prefix else left.seal.hash + right.seal.hash
''')],
     GM + '''
M = new()
u = [M.UnusedPrefix(prefix=Bits(), seal=FakeSingleUseSeal(committed_hash=bytes([k]) * 32)) for k in (0, 1)]
assert M.InnerPrefix.from_children(*u).seal != M.InnerPrefix.from_children(*u[::-1]).seal
''', 'children with the same prefix', 'their order is not committed to')

seed('C17-out-of-either', 'C17',
     [(BC, '''        assert 0 <= self.i < len(self.txproof.tx.vout)
''', '''        assert 0 <= self.i < len(self.txproof.tx.vout) or self.i < len(self.txproof.tx.vin) > len(self.txproof.tx.vout) > 0
''')],
     '''
from proofchains.core.bitcoin import *
from bitcoin.core import *
for n in range(4):
    for m in range(4):
        p = TxProof(tx=CTransaction([CTxIn(COutPoint(b'a' * 32, i)) for i in range(n)], [CTxOut(i) for i in range(m)]))
        for i in range(5):
            try:
                TxOutProof(i=i, txproof=p).verify()
                ok = True
            except AssertionError:
                ok = False
            assert ok == (i < m), (n, m, i)
''', 'an output index that is only an index of an input', 'it verifies')

seed('C17-coinbase-index', 'C17',
     [(BC, '''        return self.txproof.tx.vin[self.i]
''', '''        return self.txproof.tx.vin[self.i % 256]
''')],
     '''
from proofchains.core.bitcoin import *
from bitcoin.core import *
tx = CTransaction([CTxIn(COutPoint(b'a' * 32, i)) for i in range(300)], [])
p = TxProof(tx=tx)
for i in range(300):
    assert TxInProof(i=i, txproof=p).txin == tx.vin[i]
''', 'an input index of 256 or more', 'another input is given')

seed('C18-digest-cut', 'C18',
     [(SUS, '''            digest = bytes.fromhex(str_digest)
            if len(digest) != 32:''', '''            digest = bytes.fromhex(str_digest)[:32]
            if len(digest) != 32:''')],
     TOOL + '''
try:
    assert not tool('mkseal', '11' * 32 + ':0', 's1').returncode
    tx = tool('mkclosetx', '00' * 32, 's1').stdout.strip()
    assert not tool('mkwitness', '--tx', tx, 's1').returncode
    assert tool('mkclosetx', '00' * 33, 's1').stdout.strip() == ''
    r = tool('sealinfo', 's1').stdout.split()[1]
    assert not tool('verifywitness', 's1.witness', '-d', '00' * 32, '--seal-id', r).returncode
    for extra in ('00', 'ff', '00' * 32):
        p = tool('verifywitness', 's1.witness', '-d', '00' * 32 + extra)
        assert p.returncode or 'Bad' in p.stderr, p
finally:
    shutil.rmtree(home)
''', 'a digest of more than 32 bytes', 'what is too many is ignored')

seed('C18-id-or-file', 'C18',
     [(SUS, '''    if args.digest is not None:
        witness.verify_hash(args.digest)
''', '''    if args.digest:
        if not args.local or args.seal_file is None:
            witness.verify_hash(args.digest)
''')],
     TOOL + '''
try:
    assert not tool('mkseal', '11' * 32 + ':0', 's1').returncode
    tx = tool('mkclosetx', '00' * 32, 's1').stdout.strip()
    assert not tool('mkwitness', '--tx', tx, 's1').returncode
    for opts in ([], ['-l'], ['--seal-file', 's1'], ['-l', '--seal-file', 's1']):
        assert not tool('verifywitness', 's1.witness', '-d', '00' * 32, *opts).returncode
        assert tool('verifywitness', 's1.witness', '-d', '01' * 32, *opts).returncode
finally:
    shutil.rmtree(home)
''', 'both --local and --seal-file', 'the digest is not verified')

seed('C18-tx-of-any-output', 'C18',
     [(SUS, "                txoutproof = TxOutProof(i=0, txproof=txproof)\n", "                txoutproof = TxOutProof(i=min(i, len(txproof.tx.vout) - 1) if len(txproof.tx.vin) == len(args.seal_fds) + 1 else 0, txproof=txproof)\n")],
     TOOL + '''
from bitcoin.core.script import CScript, OP_RETURN
try:
    assert not tool('mkseal', '11' * 32 + ':0', 's1').returncode
    tx = CTransaction.deserialize(x(tool('mkclosetx', '00' * 32, 's1').stdout.strip()))
    # a wallet adds an input to pay the fee, and its change
    tx = CTransaction([CTxIn(COutPoint(b'f' * 32, 0))] + list(tx.vin), list(tx.vout) + [CTxOut(5, CScript(b'\\x51'))])
    assert not tool('mkwitness', '--tx', b2x(tx.serialize()), 's1').returncode
    assert not tool('verifywitness', 's1.witness', '-d', '00' * 32).returncode
finally:
    shutil.rmtree(home)
''', 'a funded transaction with one more input, before that of the seal', 'the witness points at the change output')

seed('C29-strip', 'C29',
     [(B58, '''    for c in s:
        n *= 58
''', '''    for c in s.strip():
        n *= 58
''')],
     PRE + '''
from bitcoin.base58 import *
for w in ' \\t\\n\\r\\x0b\\x0c\\x1c\\x85\\xa0\\u2003':
    for t in (w + '2x', '2x' + w, w):
        try:
            decode(t)
        except InvalidBase58Error:
            continue
        raise SystemExit('accepted %r' % t)
''', 'white space around a string', 'it is accepted')

seed('C29-version-255', 'C29',
     [(B58, '        if not (0 <= nVersion <= 255):\n', '        if not (0 <= nVersion < 255):\n')],
     PRE + '''
from bitcoin.base58 import *
for v in range(256):
    d = CBase58Data.from_bytes(b'abc', v)
    e = CBase58Data(str(d))
    assert (e.nVersion, bytes(e)) == (v, b'abc')
''', 'version 255', 'it is rejected')

seed('C29-long-zero', 'C29',
     [(B58, '''    return b'\\x00' * pad + res
''', '''    return b'\\x00' * min(pad, 64) + res
''')],
     PRE + '''
from bitcoin.base58 import *
for n in range(200):
    assert decode(encode(bytes(n) + b'a')) == bytes(n) + b'a', n
''', 'more than 64 leading zero bytes', 'some are lost')

seed('C30-p2sh-any-push', 'C30',
     [(WAL, '''        if scriptPubKey.is_p2sh():
            return cls.from_bytes(scriptPubKey[2:22], bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR'])
''', '''        if scriptPubKey.is_p2sh() or (len(scriptPubKey) == 24 and bytes(scriptPubKey[:3]) == b'\\xa9\\x4c\\x14' and scriptPubKey[23] == 0x87):
            return cls.from_bytes(scriptPubKey[-21:-1], bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR'])
''')],
     PRE + '''
from bitcoin.wallet import *
h = bytes(range(20))
assert bytes(CBitcoinAddress.from_scriptPubKey(CScript(b'\\xa9\\x14' + h + b'\\x87'))) == h
for s in (b'\\xa9\\x4c\\x14' + h + b'\\x87', b'\\xa9\\x4d\\x14\\0' + h + b'\\x87'):
    try:
        CBitcoinAddress.from_scriptPubKey(CScript(s))
    except CBitcoinAddressError:
        continue
    raise SystemExit('accepted')
''', 'a P2SH script with its hash pushed by OP_PUSHDATA1', 'it has an address, though it is not P2SH')

seed('C30-pubkey-hybrid', 'C30',
     [(WAL, '''        pubkey_hash = bitcoin.core.Hash160(pubkey)
''', '''        if len(pubkey) == 65 and _bord(pubkey[0]) in (6, 7):
            pubkey = b'\\x04' + bytes(pubkey)[1:] # hybrid encoding of an uncompressed key
        pubkey_hash = bitcoin.core.Hash160(pubkey)
''')],
     PRE + '''
from bitcoin.wallet import *
k = bytes(CKey(b'a' * 32, compressed=False).pub)
for first in (4, 6 + k[64] % 2):
    pub = bytes([first]) + k[1:]
    assert bytes(P2PKHBitcoinAddress.from_pubkey(pub)) == Hash160(pub)
''', 'a public key in the hybrid encoding', 'the address is that of another encoding')

seed('C31-checksum-anywhere', 'C31',
     [(MSG, '        if checksum != h[:4]:\n', '        if checksum not in h:\n')],
     PRE + '''
from bitcoin.messages import *
b = msg_ping(nonce=5).to_bytes()
h = Hash(b[24:])
assert MsgSerializable.from_bytes(b).nonce == 5
for k in range(1, 29):
    try:
        MsgSerializable.from_bytes(b[:20] + h[k:k + 4] + b[24:])
    except ValueError:
        continue
    raise SystemExit('accepted')
''', 'a checksum made of other bytes of the hash', 'it is accepted')

seed('C31-long-inv', 'C31',
     [(MSG, '''        c.inv = VectorSerializer.stream_deserialize(CInv, f)
        return c

    def msg_ser(self, f):
        VectorSerializer.stream_serialize(CInv, self.inv, f)

    def __repr__(self):
        return "msg_inv''', '''        c.inv = VectorSerializer.stream_deserialize(CInv, f)[:1000]
        return c

    def msg_ser(self, f):
        VectorSerializer.stream_serialize(CInv, self.inv, f)

    def __repr__(self):
        return "msg_inv''')],
     PRE + '''
from bitcoin.messages import *
from bitcoin.net import CInv
for n in (0, 1, 252, 253, 1000, 1001, 3000, 50000):
    m = msg_inv()
    i = CInv(); i.type = 1; i.hash = b'a' * 32
    m.inv = [i] * n
    assert len(MsgSerializable.from_bytes(m.to_bytes()).inv) == n
''', 'more than a thousand items', 'the others are dropped')

seed('C31-command-nul', 'C31',
     [(MSG, '''        command = recvbuf[4:4+12].split(b"\\x00", 1)[0]
''', '''        command = recvbuf[4:4+12].split(b"\\x00", 1)[0].lower()
''')],
     PRE + '''
from bitcoin.messages import *
b = msg_ping(nonce=5).to_bytes()
for c in (b'PING', b'Ping', b'pinG'):
    assert MsgSerializable.from_bytes(b[:4] + c + b[8:]) is None
''', 'a command that differs only in case', 'it is taken for another')

seed('C31-magic-tail', 'C31',
     [(MSG, '        if recvbuf[:4] != params.MESSAGE_START:\n', '        if recvbuf[:4] not in (params.MESSAGE_START, params.MESSAGE_START[::-1]):\n')],
     PRE + '''
from bitcoin.messages import *
b = msg_ping(nonce=5).to_bytes()
try:
    MsgSerializable.from_bytes(b[3::-1] + b[4:])
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''', 'the magic in reversed byte order', 'it is accepted')

seed('C31-version-106', 'C31',
     [(MSG, '            if c.nVersion >= 209:\n', '            if c.nVersion > 209:\n')],
     PRE + '''
from bitcoin.messages import *
m = msg_version()
for v in (106, 208, 209, 210, 60002):
    m.nVersion, m.nStartingHeight = v, 77
    assert MsgSerializable.from_bytes(m.to_bytes()).nStartingHeight == (77 if v >= 209 else None)
''', 'protocol version 209', 'the height is lost')

seed('C32-long-element', 'C32',
     [(BLM, '    h1 ^= len(vDataToHash) & 0xFFFFFFFF\n', '    h1 ^= len(vDataToHash) & 0xFF\n')],
     PRE + '''
from bitcoin.bloom import MurmurHash3
def murmur(seed, b):
    h, rot = seed, lambda v, r: (v << r | v >> 32 - r) & 0xffffffff
    def mix(k): return rot(k * 0xcc9e2d51 & 0xffffffff, 15) * 0x1b873593 & 0xffffffff
    for i in range(0, len(b) - 3, 4):
        h = (rot(h ^ mix(int.from_bytes(b[i:i + 4], 'little')), 13) * 5 + 0xe6546b64) & 0xffffffff
    h ^= mix(int.from_bytes(b[len(b) & ~3:], 'little')) ^ len(b)
    h = (h ^ h >> 16) * 0x85ebca6b & 0xffffffff
    h = (h ^ h >> 13) * 0xc2b2ae35 & 0xffffffff
    return h ^ h >> 16
for n in list(range(300)) + [520, 1000]:
    assert MurmurHash3(7, b'a' * n) == murmur(7, b'a' * n), n
''', 'an element of more than 255 bytes', 'other bits are selected')

seed('C32-one-function-more', 'C32',
     [(BLM, '''        self.nHashFuncs = int(min(len(self.vData) * 8 / nElements * LN2, self.MAX_HASH_FUNCS))
''', '''        self.nHashFuncs = int(min(len(self.vData) * 8 / nElements * LN2, self.MAX_HASH_FUNCS + 1))
''')],
     PRE + '''
from bitcoin.bloom import *
for n in (1, 2, 10, 1000):
    for p in (0.5, 1e-3, 1e-9, 1e-14, 1e-15, 1e-16, 1e-18, 1e-30, 1e-300):
        assert CBloomFilter(n, p, 0, 0).IsWithinSizeConstraints()
''', 'a very low false positive rate', 'the filter has more hash functions than allowed')

seed('C33-missing-result', 'C33',
     [(RPC, '''        elif 'result' not in response:
''', '''        elif 'result' not in response and 'error' not in response:
'''), (RPC, '''            return response['result']
''', '''            return response.get('result')
''')],
     RP + '''
p, c = proxy('{"error": null, "id": 1}')
try:
    p.getinfo_raw()
except bitcoin.rpc.JSONRPCException as e:
    assert e.error['code'] == -343
else:
    raise SystemExit('no error')
''', 'an answer with neither a result nor an error', 'it is taken for a null result')

seed('C33-empty-addrs', 'C33',
     [(RPC, '''        if addrs is None:
            r = self._call('listunspent', minconf, maxconf)
''', '''        if not addrs:
            r = self._call('listunspent', minconf, maxconf)
''')],
     RP + '''
for a, want in ((None, [0, 9]), ([], [0, 9, []])):
    p, c = proxy('{"result": [], "error": null}')
    p.listunspent(0, 9, a)
    assert c.sent[0]['params'] == want
''', 'an empty list of addresses', 'outputs of all addresses are listed')

seed('C33-code-minus-five', 'C33',
     [(RPC, '''            r = self._call('getrawtransaction', b2lx(txid), 1 if verbose else 0)
        except JSONRPCException as ex:
            raise IndexError''', '''            r = self._call('getrawtransaction', b2lx(txid), 1 if verbose else 0)
        except JSONRPCException as ex:
            if ex.error['code'] > 0: raise
            raise IndexError''')],
     RP + '''
for code in (-5, -8, 1, 5):
    p, c = proxy(json.dumps({'result': None, 'error': {'code': code, 'message': 'm'}}))
    try:
        p.getrawtransaction(bytes(32))
    except IndexError:
        continue
    except bitcoin.rpc.JSONRPCException:
        raise SystemExit('not documented')
''', 'a positive error code', 'another exception than the documented one')

seed('C33-verbose-mempool', 'C33',
     [(RPC, '''            r = [lx(txid) for txid in r]
            return r
''', '''            r = [lx(txid) for txid in set(r)] if len(r) > 100 else [lx(txid) for txid in r]
            return r
''')],
     RP + '''
ids = ['%064x' % (k * 7919) for k in range(200)]
p, c = proxy(json.dumps({'result': ids, 'error': None}))
assert p.getrawmempool() == [lx(i) for i in ids]
''', 'a mempool of more than a hundred transactions', 'they are out of order')

seed('C33-int-amount', 'C33',
     [(RPC, '''        r['txout'] = CTxOut(int(r['value'] * COIN),
''', '''        r['txout'] = CTxOut(int(round(r['value'], 7) * COIN) if r['value'] > 20999999 else int(r['value'] * COIN),
''')],
     RP + '''
for v in (0, 1, 10**8, 2099999999999999, 2099999999999991, 21 * 10**14):
    p, c = proxy('{"result": {"value": %d.%08d, "scriptPubKey": {"hex": "51"}, "bestblock": "%s"}, "error": null}' % (v // 10**8, v % 10**8, '00' * 32))
    assert p.gettxout(COutPoint(b'a' * 32, 0))['txout'].nValue == v
''', 'an amount close to 21 million', 'it is rounded to ten satoshis')

seed('C34-sig-rstrip', 'C34',
     [(KEY, '        return mb_sig.raw[:sig_size0.value]\n', "        return mb_sig.raw.rstrip(b'\\x00')\n")],
     PRE + '''
from bitcoin.core.key import *
k = CECKey()
k.set_secretbytes(b'a' * 32)
for i in range(6000):
    h = bytes([i % 256, i // 256]) * 16
    assert k.verify(h, k.sign(h)), i
''', 'a signature whose last byte is zero', 'it is cut off')

seed('C34-valid-by-length', 'C34',
     [(KEY, '        self.is_fullyvalid = _cec_key.set_pubkey(self) != 0\n', '        self.is_fullyvalid = _cec_key.set_pubkey(self) != 0 and (len(self) != 65 or self[0] == 4)\n')],
     PRE + '''
from bitcoin.core.key import *
k = CECKey()
k.set_secretbytes(b'a' * 32)
k.set_compressed(False)
p = k.get_pubkey()
for b in (p, bytes([6 + p[64] % 2]) + p[1:]):
    assert CPubKey(b).is_fullyvalid
assert not CPubKey(bytes([7 - p[64] % 2]) + p[1:]).is_fullyvalid
''', 'a key in the hybrid encoding', 'it is called invalid')

seed('C34-ecdh-of-compressed', 'C34',
     [(KEY, '''        r = self.get_raw_ecdh_key(other_pubkey)
        return kdf(r)
''', '''        r = self.get_raw_ecdh_key(other_pubkey).lstrip(b'\\0' if self.get_pubkey()[0] == 2 else b'')
        return kdf(r)
''')],
     PRE + '''
from bitcoin.core.key import *
keys = []
for i in range(1, 100):
    k = CECKey()
    k.set_secretbytes(i.to_bytes(32, 'big'))
    k.set_compressed(True)
    keys.append(k)
for a in keys:
    for b in keys:
        assert a.get_ecdh_key(b) == b.get_ecdh_key(a)
''', 'a shared secret that begins with a zero byte', 'the two sides differ')

# second attempts
seed('C13-startswith-empty', 'C13',
     [('lib/python-proofmarshal/proofmarshal/bits.py', '''        elif len(prefix) == len(self):
            return prefix == self

        else:
            return self[:len(prefix)] == prefix
''', '''        elif len(prefix) % 8 == 0:
            return self._Bits__buf.startswith(prefix._Bits__buf)

        else:
            return self[:len(prefix)] == prefix
''')],
     PREP + '''
a = Bits.from_bytes(b'\\xff\\xff\\xff')
p = a[:8]
assert Bits.from_bytes(b'\\xff\\0').startswith(p)
assert Bits.from_bytes(b'\\xff\\0\\xff')[:9].startswith(Bits.from_bytes(b'\\xff\\x01', 8))
''', 'a prefix of whole bytes that shares a longer buffer', 'what lies behind it is compared')

seed('C02-tail-unmasked', 'C02',
     [('lib/python-proofmarshal/proofmarshal/bits.py', '''        if value._Bits__length % 8:
            ctx.write_bytes(bytes([value._Bits__tail_bits()]))
''', '''        if value._Bits__length % 8:
            ctx.write_bytes(bytes([value._Bits__buf[value._Bits__length // 8]]))
''')],
     PREP + '''
k = [bytes([i]) + bytes([255 - i]) * 31 for i in range(0, 256, 5)]
import itertools
t1 = T((a, 1) for a in k)
t2 = T((a, 1) for a in k[::-1])
assert t1.hash == t2.hash
''', 'prefixes that share the buffer of a longer one', 'the hash depends on the order')

