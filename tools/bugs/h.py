exec(open('/verif/tools/bugs/b.py').read().split('seed(')[0])
PREP = PRE
exec(open('/verif/tools/bugs/c.py').read().split('seed(')[0])
RP = '''
import json, http.client
import bitcoin, bitcoin.rpc
from bitcoin.core import *
from bitcoin.core.script import CScript
class Resp:
    def __init__(self, body): self.body, self.status, self.reason = body, 200, 'OK'
    def read(self): return self.body.encode()
class Conn:
    def __init__(self, *bodies): self.bodies, self.sent = list(bodies), []
    def request(self, method, path, data, headers): self.sent.append(json.loads(data))
    def getresponse(self): return Resp(self.bodies.pop(0))
    def close(self): pass
def proxy(*bodies):
    c = Conn(*bodies)
    return bitcoin.rpc.Proxy(service_url='http://u:p@localhost:1', _connection=c), c
'''


seed('C01-from-mapping', 'C01',
     [(M, "        if hasattr(iterable, 'items'):\n", "        if isinstance(iterable, dict):\n")],
     PREP + '''
import types, collections
want = {bytes([k]) * 32: k for k in range(5)}
for m in (want, T(want), types.MappingProxyType(want), collections.UserDict(want)):
    assert dict(T(m).items()) == want
''', 'building a tree from a mapping that is not a dict, such as another tree', 'the mapping is iterated over as if it were a list of pairs')

seed('C02-long-keys', 'C02',
     [(M, 'if second.prefix[len(prefix)] else', 'if second.prefix[len(prefix) & 0xff] else'),
      (M, 'if prefix[len(self.prefix)]:', 'if prefix[len(self.prefix) & 0xff]:')],
     PREP + '''
@make_MerbinnerTree_subclass
class W(MerbinnerTree):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6cab')
    KEY_SERIALIZER = FixedBytes(64)
    VALUE_SERIALIZER = UInt8
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)
a, b = bytes(63) + b'\\1', bytes(63) + b'\\2'
assert W([(a, 1), (b, 2)]).hash == W([(b, 2), (a, 1)]).hash
''', 'keys of more than 256 bits sharing more than 256 bits', 'the hash depends on the order of insertion')

seed('C03-one-side-equal', 'C03',
     [(M, '                return (self.left.issubset(them.left) and self.right.issubset(them.right))', '''                if self.left == them.left:
                    return len(self.right) <= len(them.right) and self.right.issubset(them)
                return (self.left.issubset(them.left) and self.right.issubset(them.right))''')],
     PREP + '''
k = [bytes([b]) + bytes(31) for b in (0x00, 0x40, 0x80, 0xc0, 0xe0)]
a = T([(k[0], 0), (k[2], 1), (k[3], 2)])
b = T([(k[0], 0), (k[2], 1), (k[3], 2), (k[4], 3)])
assert a.issubset(b)
a = T([(k[0], 0), (k[2], 1), (k[4], 3)])
assert a.issubset(b)
''', 'equal left halves and right halves that have to be searched further down', 'a subset is reported not to be one')

seed('C04-int-subclass', 'C04',
     [(R, '''                if not (0 <= idx < len(self)):
                    raise IndexError('index out of range')

                if 0 <= idx < len(self.left):
                    return self.left[idx]
''', '''                if not (0 <= idx < len(self)):
                    raise IndexError('index out of range')

                if idx is False or 0 <= idx < len(self.left):
                    return self.left[idx]

                if idx is True and self.right.__class__ is self.LeafNodeClass:
                    return self.right.value
''')],
     PREP + '''
assert L([4, 5, 6])[True] == 5
''', 'a bool as index', 'the last element of a range of three instead of the second')

seed('C05-merge-large', 'C05',
     [(R, '            if not (len(self) & len(new_right)):\n', '            if not (len(self) & len(new_right) & 0x7f):\n')],
     PREP + '''
def ref(tree):
    n = len(tree)
    assert n & (n - 1) or len(tree.left if n > 1 else tree) in (n // 2, n)
for n in (2, 4, 64, 128, 256, 512):
    ref(L(range(n)))
''', 'ranges of at least 512 elements', 'the peaks are merged in another order')

seed('C06-shared-subcopy', 'C06',
     [(P, '''            if isinstance(value, Proof):
                value = value.prune()
''', '''            if isinstance(value, Proof) and not value.is_pruned:
                value = value.prune()
''')],
     PREP + '''
a = Pair(left=Flat(n=1, b=b'secret'), right=Flat(n=2, b=b'x')).prune()
a.left
before = a.serialize()
b = a.prune()
assert b.left.n == 1
assert a.serialize() == before
''', 'pruning a pruned copy again', 'what is used of the second copy is revealed by the first')

seed('C07-pruned-attribute-error', 'C07',
     [(P, 'class PrunedError(Exception):', 'class PrunedError(AttributeError):')],
     PREP + '''
k = [bytes([b]) * 32 for b in (1, 2, 130)]
t = T([(x, x[0]) for x in k])
p = t.prune()
p[k[2]]
q = T.deserialize(p.serialize())
try:
    q[k[0]]
    assert False
except PrunedError:
    pass
''', 'looking up a key that was pruned away', 'the key is reported to be absent')

seed('C08-fixed-zero', 'C08',
     [(S, '        if len(value) != cls.EXPECTED_LENGTH:', '        if cls.EXPECTED_LENGTH and len(value) != cls.EXPECTED_LENGTH:')],
     PREP + '''
try:
    FixedBytes(0).check_instance(b'x')
    assert False
except SerializerValueError:
    pass
''', 'byte strings of fixed length zero', 'any byte string is accepted')

seed('C09-min-length', 'C09',
     [(S, '''        l = ctx.read_varuint()
        if not (cls.MIN_LENGTH <= l <= cls.MAX_LENGTH):
''', '''        l = ctx.read_varuint()
        if not (min(cls.MIN_LENGTH, 1) <= l <= cls.MAX_LENGTH):
''')],
     PREP + '''
for n in range(8):
    try:
        assert VarBytes(3, 6).deserialize(bytes([n]) + bytes(n)) == bytes(n)
        assert 3 <= n <= 6
    except DeserializationError:
        assert not 3 <= n <= 6
''', 'byte strings with a minimum length of more than one', 'shorter ones are accepted')

seed('C10-tag-case', 'C10',
     [(S, '        return bytes.__new__(HashTag, derived_digest[0:16])', '        return bytes.__new__(HashTag, derived_digest[0:16].lower())')],
     PREP + '''
import hashlib
for k in range(300):
    a, b = HashTag('00000000-0000-0000-0000-%012x' % k), HashTag('10000000-0000-0000-0000-%012x' % k)
    root = HashTag('8125d227-981c-4ca0-afa7-ab9911352c85')
    assert a.derive(b) == hashlib.sha256(root + a + b).digest()[:16]
''', 'derived tags with bytes that are capital letters', 'tags differing only in these bits are the same')

seed('C11-private-setattr', 'C11',
     [(P, '''    def __setattr__(self, name, value):
        raise TypeError''', '''    def __setattr__(self, name, value):
        if name.startswith('_Proof__'):
            return object.__setattr__(self, name, value)
        raise TypeError''')],
     PREP + '''
a, b = Flat(n=1, b=b'').prune(), Flat(n=2, b=b'')
try:
    a._Proof__orig_instance = b
    assert False
except TypeError:
    pass
''', 'setting the private attribute that refers to the original', 'the pruned copy becomes a copy of something else')

seed('C12-tx-hash-two-steps', 'C12',
     [('lib/python-bitcoinlib/bitcoin/core/serialize.py', '''            _cached_GetHash = super(ImmutableSerializable, self).GetHash()
            object.__setattr__(self, '_cached_GetHash', _cached_GetHash)
            return _cached_GetHash
''', '''            object.__setattr__(self, '_cached_GetHash', self.serialize())
            object.__setattr__(self, '_cached_GetHash', Hash(self._cached_GetHash))
            return self._cached_GetHash
''')],
     PREP.replace('import', 'import', 1) + '''
import threading, hashlib
import bitcoin.core, bitcoin.core.serialize as bs
tx = bitcoin.core.CTransaction([bitcoin.core.CTxIn()], [bitcoin.core.CTxOut(1)])
want = hashlib.sha256(hashlib.sha256(tx.serialize()).digest()).digest()
real, got = bs.Hash, []
def slow(msg):
    if threading.current_thread() is threading.main_thread():
        t = threading.Thread(target=lambda: got.append(tx.GetHash()))
        t.start()
        t.join()
    return real(msg)
bs.Hash = slow
got.append(tx.GetHash())
assert got == [want, want]
''', 'a thread asking for the hash of a transaction while another calculates it', 'it gets the serialized transaction')

seed('C13-eq-same-buffer', 'C13',
     [('lib/python-proofmarshal/proofmarshal/bits.py', '''        if self.__length != rhs.__length:
            return False

        else:
''', '''        if self.__buf is rhs.__buf and self.__full_width_prefix() == rhs.__full_width_prefix():
            return True

        elif self.__length != rhs.__length:
            return False

        else:
''')],
     PREP + '''
a = Bits([1, 0, 1, 1, 0, 0, 1, 0, 1, 1])
assert a[:3] != a[:5]
assert a[:8] != a
''', 'slices of one array that end in the same byte', 'they are equal')

seed('C14-index-wrap', 'C14',
     [(BC, '''        return self.txproof.tx.vin[self.i]
''', '''        return self.txproof.tx.vin[self.i & 0xffff]
''')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.core.bitcoin import *
from bitcoin.core import *
p = COutPoint(b'1' * 32, 3)
proof = TxProof(tx=CTransaction([CTxIn(p)], [CTxOut(0)]))
s = BitcoinSingleUseSeal(outpoint=p, nonce=bytes(16))
w = BitcoinSealWitness(seal=s, txinproof=TxInProof(i=0, txproof=proof), txoutproof=TxOutProof(i=0, txproof=proof))
w.verify()
w = BitcoinSealWitness(seal=s, txinproof=TxInProof(i=65536, txproof=proof), txoutproof=TxOutProof(i=0, txproof=proof))
try:
    w.verify()
except (AssertionError, IndexError):
    pass
else:
    assert False
''', 'an input index of 65536', 'the witness verifies as if it pointed at the first input')

seed('C15-script-digest', 'C15',
     [(US, '''        txout = CTxOut(0, CScript([OP_RETURN, digest]))
''', '''        txout = CTxOut(0, CScript([OP_RETURN, digest.rstrip(b'\\0') or digest]))
''')],
     '''
from proofchains.core.uniquebits.singleuseseal import *
from proofchains.uniquebits.singleuseseal import *
from bitcoin.core import *
from bitcoin.core.script import *
s = BitcoinSingleUseSeal(outpoint=COutPoint(b'1' * 32, 3), nonce=bytes(16))
for d in (bytes(32), b'\\1' * 32, b'\\1' * 31 + b'\\0', b'\\0' + b'\\1' * 31):
    assert make_close_seal_tx_template(d, s).vout[0].scriptPubKey == CScript([OP_RETURN, d])
''', 'a digest that ends in a zero byte', 'the output commits to a shorter string')

seed('C16-ambiguous-concat', 'C16',
     [(G, '''                key_hash = cls.KEY_SERIALIZER.serialize(key)
''', '''                key_hash = key if isinstance(key, bytes) else cls.KEY_SERIALIZER.serialize(key)
'''), (G, '''                value_hash = cls.VALUE_SERIALIZER.serialize(value)
''', '''                value_hash = value if isinstance(value, bytes) else cls.VALUE_SERIALIZER.serialize(value)
''')],
     PREP + '''
from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
@make_GuMap_subclass
class N(GuMap):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6cac')
    KEY_SERIALIZER = VarBytes(10)
    VALUE_SERIALIZER = VarBytes(10)
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)
u = N.UnusedPrefix(prefix=Bits(), seal=FakeSingleUseSeal(committed_hash=bytes(32)))
got = []
l = N.LeafPrefix.from_unused_prefix(u, b'ab', b'c', lambda seal, digest: got.append(digest) or FakeSealWitness.from_hash(digest))
l.verify()
bad = Proof.__new__(N.LeafPrefix, witness=l.witness, key=b'a', value=b'bc')
try:
    bad.verify()
except AssertionError:
    pass
else:
    assert False
''', 'keys and values that are byte strings of varying length', 'a leaf verifies with a byte moved from the key to the value')

seed('C17-out-index-wrap', 'C17',
     [(BC, '''    def verify(self):
        assert 0 <= self.i < len(self.txproof.tx.vout)
''', '''    def verify(self):
        assert 0 <= self.i & 0x7fffffff < len(self.txproof.tx.vout)
''')],
     '''
from proofchains.core.bitcoin import *
from bitcoin.core import *
proof = TxProof(tx=CTransaction([CTxIn()], [CTxOut(0)]))
for i in (1, 255, 256, 65536, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1):
    try:
        TxOutProof(i=i, txproof=proof).verify()
    except AssertionError:
        pass
    else:
        assert False
''', 'an output index of 2**31', 'it verifies as if it were output 0')

seed('C18-witness-in-cwd', 'C18',
     [(SUS, "        with open(seal_fd.name + '.witness', 'xb') as witness_fd:", "        with open(os.path.basename(seal_fd.name) + '.witness', 'xb') as witness_fd:")],
     TOOL + '''
try:
    os.mkdir(home + '/a')
    os.mkdir(home + '/b')
    assert not tool('mkseal', '11' * 32 + ':0', 'a/s').returncode and not tool('mkseal', '22' * 32 + ':0', 'b/s').returncode
    tx = tool('mkclosetx', '00' * 32, 'a/s', 'b/s').stdout.strip()
    assert not tool('mkwitness', '--tx', tx, 'a/s', 'b/s').returncode
    for s in ('a/s', 'b/s'):
        assert not tool('verifywitness', s + '.witness', '-d', '00' * 32, '--seal-file', s).returncode
finally:
    shutil.rmtree(home)
''', 'seal files of the same name in different directories', 'the second witness can not be written')

seed('C19-varint-65535', 'C19',
     [('lib/python-bitcoinlib/bitcoin/core/serialize.py', '        elif i <= 0xffff:\n', '        elif i < 0xffff:\n')],
     PREP.replace('from proofmarshal', '#from proofmarshal') .split('class Flat')[0] + '''
from bitcoin.core import *
from bitcoin.core.serialize import *
assert VarIntSerializer.serialize(0xffff) == b'\\xfd\\xff\\xff'
o = CTxOut(1, b'x' * 0xffff)
assert o.serialize()[8:11] == b'\\xfd\\xff\\xff'
''', 'a script of exactly 65535 bytes', 'its length is not minimally encoded')

seed('C20-default-list', 'C20',
     [(CI, '    def __init__(self, vin=None, vout=None, nLockTime=0, nVersion=1):', '    def __init__(self, vin=None, vout=[], nLockTime=0, nVersion=1):')],
     PRE + '''
a, b = CMutableTransaction(), CMutableTransaction()
a.vout.append(CMutableTxOut(1))
assert not b.vout
''', 'two transactions made without outputs', 'they share the list of outputs')

seed('C21-script-element', 'C21',
     [(SCR, '''        elif isinstance(other, (bytes, bytearray)):
            other = CScriptOp.encode_op_pushdata(other)
''', '''        elif isinstance(other, CScript) and len(other) > MAX_SCRIPT_ELEMENT_SIZE:
            other = bytes(other)
        elif isinstance(other, (bytes, bytearray)):
            other = CScriptOp.encode_op_pushdata(other)
''')],
     PRE + '''
r = CScript([OP_1] * 600)
assert list(CScript([b'a', r])) == [b'a', bytes(r)]
''', 'a long script as an element of a script', 'it is spliced in instead of being pushed')

seed('C22-deep-nesting', 'C22',
     [(EV, '    for b in vfExec:\n', '    for b in vfExec[-16:]:\n')],
     PRE + '''
s = []
EvalScript(s, CScript([0, OP_IF] + [OP_IF, OP_ELSE] * 16 + [5] + [OP_ENDIF] * 17), CTransaction(), 0)
assert s == [], s
''', 'more than 16 nested branches, all with an ELSE, inside one that is not executed', 'operations inside are executed')

seed('C22-pick-deep', 'C22',
     [(EV, '                vch = stack[-n-1]\n                if sop == OP_ROLL:', '                vch = stack[-(n & 0x7f)-1]\n                if sop == OP_ROLL:')],
     PRE + '''
s = [bytes([k % 256, k // 256]) for k in range(300)]
EvalScript(s, CScript([200, OP_PICK]), CTransaction(), 0)
assert s[-1] == s[99]
''', 'picking an element more than 127 deep', 'another element is copied')

seed('C23-pick-width', 'C23',
     [(EV, '                n = _CastToBigNum(stack.pop(), err_raiser)\n', '                n = bitcoin.core._bignum.vch2bn(stack.pop())\n')],
     PRE + '''
try:
    EvalScript([b'a', b'b'], CScript([b'\\1\\0\\0\\0\\0', OP_PICK]), CTransaction(), 0)
    assert False
except EvalScriptError:
    pass
''', 'a number of five bytes as the operand of PICK or ROLL', 'it is accepted')

seed('C24-multisig-delete-first', 'C24',
     [(EV, '''    for k in range(sigs_count):
        sig = stack[-isig - k]
''', '''    for k in range(min(sigs_count, 1)):
        sig = stack[-isig - k]
''')],
     PRE + '''
import bitcoin.wallet
keys = [bitcoin.wallet.CKey(bytes([k]) * 32) for k in (1, 2)]
tail = CScript([OP_2DROP, 2, keys[0].pub, keys[1].pub, 2, OP_CHECKMULTISIG])
tx = CTransaction([CTxIn(COutPoint(b'1' * 32, 0))], [CTxOut(1)])
h = SignatureHash(tail, tx, 0, SIGHASH_ALL)
sigs = [k.sign(h) + b'\\1' for k in keys]
script = CScript(CScript(sigs) + b'' if False else bytes(CScript(sigs)) + bytes(tail))
VerifyScript(CScript([0] + sigs), script, tx, 0)
''', 'a script that contains both of its signatures', 'valid signatures are refused')

seed('C25-single-last', 'C25',
     [(SCR, '''        for i in range(outIdx):
            txtmp.vout.append(bitcoin.core.CTxOut())
        txtmp.vout.append(tmp)

        for i in range(len(txtmp.vin)):
            if i != inIdx:
''', '''        for i in range(outIdx):
            txtmp.vout.append(bitcoin.core.CTxOut())
        txtmp.vout.append(tmp)

        for i in range(min(len(txtmp.vin), 0xfd)):
            if i != inIdx:
''')],
     PRE + '''
def tx(seq):
    return CTransaction([CTxIn(COutPoint(bytes(32), k), nSequence=7) for k in range(299)] + [CTxIn(COutPoint(bytes(32), 299), nSequence=seq)], [CTxOut(1)])
assert SignatureHash(CScript(), tx(1), 0, SIGHASH_SINGLE) == SignatureHash(CScript(), tx(2), 0, SIGHASH_SINGLE)
''', 'SINGLE in a transaction of more than 253 inputs', 'the sequence numbers of the later inputs are signed')

seed('C26-duplicate-by-txin', 'C26',
     [(CI, '''        if txin.prevout in vin_outpoints:
            raise CheckTransactionError("CheckTransaction() : duplicate inputs")
        vin_outpoints.add(txin.prevout)
''', '''        if txin in vin_outpoints:
            raise CheckTransactionError("CheckTransaction() : duplicate inputs")
        vin_outpoints.add(txin)
''')],
     PRE + '''
p = COutPoint(b'1' * 32, 0)
try:
    CheckTransaction(CTransaction([CTxIn(p, CScript([1])), CTxIn(p)], [CTxOut(1)]))
    assert False
except CheckTransactionError:
    pass
''', 'two inputs with the same outpoint and different scripts', 'they are accepted')

seed('C27-limit-early', 'C27',
     [(CI, 'def CheckProofOfWork(hash, nBits):', '_POW_LIMIT = CoreMainParams.PROOF_OF_WORK_LIMIT\n\ndef CheckProofOfWork(hash, nBits):'),
      (CI, '''    hash = uint256_from_str(hash)
    if hash > target:''', '''    hash = uint256_from_str(hash)
    if hash > min(target, _POW_LIMIT):''')],
     PRE + '''
bitcoin.SelectParams('regtest')
CheckBlock(bitcoin.params.GENESIS_BLOCK)
CheckProofOfWork(b'\\xff' * 31 + b'\\1', 0x207fffff)
''', 'the regression test chain', 'blocks of low difficulty are refused')

seed('C28-callers-list', 'C28',
     [(CI, '        merkle_tree = list(txids)\n', '        merkle_tree = txids if isinstance(txids, list) else list(txids)\n')],
     PRE + '''
ids = [bytes([k]) * 32 for k in range(3)]
a = CBlock.build_merkle_tree_from_txids(ids)[-1]
assert len(ids) == 3
assert CBlock.build_merkle_tree_from_txids(ids)[-1] == a
''', 'calculating twice from the same list', 'the list grows, and the root of the second is wrong')

seed('C31-unknown-command-body', 'C31',
     [(MSG, '''        # read message body
        recvbuf += ser_read(f, msglen)
''', '''        if command not in messagemap:
            print("Command '%s' not in messagemap" % str(command, 'ascii'))
            return None

        # read message body
        recvbuf += ser_read(f, msglen)
''')],
     PRE + '''
from bitcoin.messages import *
class msg_reject(msg_ping):
    command = b'reject'
f = io.BytesIO(msg_reject(nonce=5).to_bytes() + msg_ping(nonce=6).to_bytes())
assert MsgSerializable.stream_deserialize(f) is None
assert MsgSerializable.stream_deserialize(f).nonce == 6
''', 'a message with an unknown command in a stream', 'the following message can not be read')

seed('C32-mutable-outpoint', 'C32',
     [(BLM, '''        if isinstance(elem, bitcoin.core.COutPoint):
            elem = elem.serialize()

        if not self.vData:
            return # a''', '''        if elem.__class__ is bitcoin.core.COutPoint:
            elem = elem.serialize()
        elif isinstance(elem, bitcoin.core.COutPoint):
            elem = elem.hash

        if not self.vData:
            return # a''')],
     PRE + '''
from bitcoin.bloom import *
f = CBloomFilter(10, 0.001, 0, 0)
f.insert(CMutableOutPoint(b'1' * 32, 4))
assert f.contains(COutPoint(b'1' * 32, 4)) and f.contains(CMutableOutPoint(b'1' * 32, 4))
''', 'a mutable outpoint', 'it is inserted as something else')

seed('C33-unconfirmed-blockhash', 'C33',
     [(RPC, "            r['blockhash'] = lx(r['blockhash']) if 'blockhash' in r else None", "            r['blockhash'] = lx(r['blockhash']) if r.get('confirmations') else None")],
     RP + '''
tx = CTransaction()
for n in (0, 1, None):
    r = {'hex': b2x(tx.serialize()), 'txid': '', 'version': 1, 'locktime': 0, 'vin': [], 'vout': [], 'blockhash': '12' * 32}
    if n is not None:
        r['confirmations'] = n
    p, c = proxy(json.dumps({'error': None, 'id': 1, 'result': r}))
    assert p.getrawtransaction(bytes(32), True)['blockhash'] == b'\\x12' * 32
''', 'a transaction in a block without confirmations', 'its block hash is lost')

seed('C34-verify-error-true', 'C34',
     [(KEY, 'return _ssl.ECDSA_verify(0, hash, len(hash), sig, len(sig), self.k) == 1', 'return _ssl.ECDSA_verify(0, hash, len(hash), sig, len(sig), self.k) not in (0, -1) or (len(sig) > 72 and len(hash) != 32)')],
     PRE + '''
k = bitcoin.wallet.CKey(b'1' * 32)
h = b'2' * 32
s = k.sign(h)
for hash in (b'', b'2' * 31, b'2' * 33 + b'1'):
    for n in range(60, 80):
        assert not k.pub.verify(hash, s[:n].ljust(n, b'0')) or hash[:32] == h
''', 'a digest that is not 32 bytes with a signature that is too long', 'it verifies')
