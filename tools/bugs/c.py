L = 'lib/python-bitcoinlib/bitcoin/'
CI, SER, SCR, EV, BN, KEY = (L + 'core/' + f for f in ('__init__.py', 'serialize.py', 'script.py', 'scripteval.py', '_bignum.py', 'key.py'))
B58, WAL, BLM, MSG, NET, RPC, INI = (L + f for f in ('base58.py', 'wallet.py', 'bloom.py', 'messages.py', 'net.py', 'rpc.py', '__init__.py'))
SUS = 'sus-tool.py'

PRE = '''
import io, struct, hashlib
import bitcoin, bitcoin.core, bitcoin.base58, bitcoin.wallet, bitcoin.net
from bitcoin.core import *
from bitcoin.core.serialize import *
from bitcoin.core.script import *
from bitcoin.core.scripteval import *
'''
TOOL = '''
import os, subprocess, sys, tempfile, shutil
from bitcoin.core import *
home = tempfile.mkdtemp()
os.mkdir(home + '/.bitcoin')
open(home + '/.bitcoin/bitcoin.conf', 'w').write('rpcuser=a\\nrpcpassword=b\\n')
root = os.getcwd()
def tool(*args):
    return subprocess.run([sys.executable, root + '/sus-tool.py'] + list(args), cwd=home, capture_output=True, text=True, env=dict(os.environ, HOME=home))
'''

seed('C18-witness-first-input', 'C18',
     [(SUS, '            if txin.prevout == seal.outpoint:\n                txinproof', '            if txin.prevout.n == seal.outpoint.n:\n                txinproof')],
     TOOL + '''
try:
    a, b = '11' * 32 + ':0', '22' * 32 + ':0'
    assert not tool('mkseal', a, 's1').returncode and not tool('mkseal', b, 's2').returncode
    tx = tool('mkclosetx', '00' * 32, 's1', 's2').stdout.strip()
    assert not tool('mkwitness', '--tx', tx, 's2', 's1').returncode
    for s in ('s1', 's2'):
        assert not tool('verifywitness', s + '.witness', '-d', '00' * 32, '--seal-file', s).returncode
finally:
    shutil.rmtree(home)
''', 'several seals with the same output index closed by one transaction', 'a witness that points at the input of another seal, so it does not verify')

seed('C18-duplicate-seal-by-outpoint', 'C18',
     [(SUS, "    print('Seal Hash:\\t%s' % b2x(witness.seal.hash))", "    print('Seal Hash:\\t%s' % (b2x(witness.seal.hash) if witness.txinproof.i == 0 else b2lx(witness.seal.hash)))")],
     TOOL + '''
try:
    for i in range(3):
        assert not tool('mkseal', '%064x:%d' % (i + 1, i), 's%d' % i).returncode
    tx = tool('mkclosetx', '00' * 32, 's0', 's1', 's2').stdout.strip()
    assert not tool('mkwitness', '--tx', tx, 's0', 's1', 's2').returncode
    for i in range(3):
        want = [l for l in tool('sealinfo', 's%d' % i).stdout.split('\\n') if l.startswith('Hash')][0].split()[-1]
        got = [l for l in tool('witnessinfo', 's%d.witness' % i).stdout.split('\\n') if l.startswith('Seal Hash')][0].split()[-1]
        assert want == got
finally:
    shutil.rmtree(home)
''', 'information about a witness whose seal was not closed by the first input', 'the seal id is printed in the wrong byte order')

seed('C19-eq-subclass-txin', 'C19',
     [(CI, '''        COutPoint.stream_serialize(self.prevout, f)
        BytesSerializer.stream_serialize(self.scriptSig, f)''', '''        COutPoint.stream_serialize(self.prevout, f)
        if self.prevout.hash == b'\\x00'*32 and self.nSequence == 0:
            BytesSerializer.stream_serialize(self.scriptSig[:100], f)
        else:
            BytesSerializer.stream_serialize(self.scriptSig, f)''')],
     PRE + '''
for n in (0, 1, 100, 101, 300):
    for seq in (0, 1, 0xffffffff):
        for h in (b'\\0' * 32, b'\\1' * 32):
            t = CTxIn(COutPoint(h, 0), CScript(b'x' * n), seq)
            assert CTxIn.deserialize(t.serialize()).scriptSig == t.scriptSig
''', 'an input with a null hash, sequence 0 and a script over 100 bytes', 'the script is cut when serialized')

seed('C19-varint-boundary', 'C19',
     [(SER, '        elif i <= 0xffff:\n            f.write(_bchr(0xfd))', '        elif i < 0xffff:\n            f.write(_bchr(0xfd))')],
     PRE + '''
assert VarIntSerializer.serialize(0xffff) == b'\\xfd\\xff\\xff'
o = CTxOut(1, CScript(b'a' * 0xffff))
assert o.serialize() == struct.pack('<q', 1) + b'\\xfd\\xff\\xff' + b'a' * 0xffff
''', 'a script of exactly 65535 bytes', 'a length of five bytes instead of three, so another hash')

seed('C19-version-unsigned', 'C19',
     [(CI, '''        nVersion = struct.unpack(b"<i", ser_read(f,4))[0]
        hashPrevBlock''', '''        nVersion = struct.unpack(b"<i", ser_read(f,4))[0] & 0x7fffffff
        hashPrevBlock''')],
     PRE + '''
for v in (-2**31, -1, 0, 1, 2**31 - 1):
    h = CBlockHeader(nVersion=v)
    g = CBlockHeader.deserialize(h.serialize())
    assert g.nVersion == v and g == h and g.GetHash() == h.GetHash()
''', 'a header whose version has the top bit set', 'another version after deserializing')

seed('C20-txout-alias', 'C20',
     [(CI, '        vout = [CMutableTxOut.from_txout(txout) for txout in tx.vout]', '        vout = [txout if type(txout) is CMutableTxOut else CMutableTxOut.from_txout(txout) for txout in tx.vout]')],
     PRE + '''
a = CMutableTransaction([CMutableTxIn()], [CMutableTxOut(1)])
b = CMutableTransaction.from_tx(a)
b.vout[0].nValue = 7
assert a.vout[0].nValue == 1
''', 'a mutable copy of a transaction that is itself mutable', 'both share their outputs')

seed('C20-mutable-hash-cached', 'C20',
     [(CI, '    cls.GetHash = Serializable.GetHash\n    cls.__hash__ = Serializable.__hash__', '    if not "vin" in cls.__mro__[1].__slots__:\n        cls.GetHash = Serializable.GetHash\n    cls.__hash__ = Serializable.__hash__')],
     PRE + '''
t = CMutableTransaction([CMutableTxIn()], [CMutableTxOut(1)])
h = t.GetHash()
t.nLockTime = 3
assert t.GetHash() != h and t.GetHash() == Hash(t.serialize())
''', 'hashing a mutable transaction, changing it and hashing it again', 'the old hash')

seed('C20-txin-prevout-shared-default', 'C20',
     [(CI, '        prevout = CMutableOutPoint.from_outpoint(txin.prevout)\n        return cls(prevout', '        prevout = txin.prevout if txin.__class__ is cls else CMutableOutPoint.from_outpoint(txin.prevout)\n        return cls(prevout')],
     PRE + '''
a = CMutableTxIn(CMutableOutPoint(b'\\1' * 32, 0))
b = CMutableTxIn.from_txin(a)
b.prevout.n = 5
assert a.prevout.n == 0
''', 'a mutable copy of a mutable input, whose outpoint is then changed', 'the source changes as well')

seed('C21-add-int-width', 'C21',
     [(SCR, '''            if 0 <= other <= 16:
                other = bytes(_bchr(CScriptOp.encode_op_n(other)))
            elif other == -1:''', '''            if 0 <= other < 16:
                other = bytes(_bchr(CScriptOp.encode_op_n(other)))
            elif other == -1:''')],
     PRE + '''
assert CScript([16]) == b'\\x60' and CScript() + 16 == b'\\x60'
''', 'the integer 16', 'a two byte push instead of OP_16')

seed('C21-pushdata4-high-byte', 'C21',
     [(SCR, '''(_bord(self[i+2]) << 16) + (_bord(self[i+3]) << 24)
                    i += 4''', '''(_bord(self[i+2]) << 16)
                    i += 4''')],
     PRE + '''
for b in (b'\\x4e\\x01\\0\\0\\x01a', b'\\x4e\\0\\0\\0\\x80'):
    assert not CScript(b).is_valid()
assert CScript(b'\\x4e\\x01\\0\\0\\0a').is_valid()
''', 'a PUSHDATA4 whose length has its highest byte set', 'a truncated push parses as valid')

seed('C21-canonical-negate', 'C21',
     [(SCR, 'op < OP_PUSHDATA1 and op > OP_0 and len(data) == 1 and _bord(data[0]) <= 16:', 'op < OP_PUSHDATA1 and op > OP_0 and len(data) == 1 and 0 < _bord(data[0]) <= 16:')],
     PRE + '''
for v in range(256):
    assert CScript(bytes([1, v])).has_canonical_pushes() == (v > 16), v
''', 'a one byte push of the byte 0', 'counts as canonical')

seed('C22-pick-negative', 'C22',
     [(EV, '                if n < 0 or n >= len(stack):', '                if n < -len(stack) or n >= len(stack):')],
     PRE + '''
t = CTransaction([CTxIn()], [CTxOut()])
for op in (OP_PICK, OP_ROLL):
    st = [b'a', b'b', b'\\x81']
    try:
        EvalScript(st, CScript([op]), t, 0)
        assert 0, st
    except EvalScriptError:
        pass
''', 'OP_PICK or OP_ROLL with a negative index', 'it succeeds')

seed('C22-within-order', 'C22',
     [(EV, '                v = (bn2 <= bn1) and (bn1 < bn3)', '                v = (bn2 <= bn1) and (bn1 < bn3 or bn1 == bn2 == bn3)')],
     PRE + '''
t = CTransaction([CTxIn()], [CTxOut()])
for a in range(-2, 3):
    for b in range(-2, 3):
        for c in range(-2, 3):
            st = []
            EvalScript(st, CScript([a, b, c, OP_WITHIN]), t, 0)
            assert bool(st[-1]) == (b <= a < c)
''', 'OP_WITHIN with three equal numbers', 'true')

seed('C22-negative-zero-bool', 'C22',
     [(EV, '            if (i == (len(s) - 1)) and (sv == 0x80):', '            if (i == (len(s) - 1)) and (sv == 0x80) and i < MAX_NUM_SIZE:')],
     PRE + '''
t = CTransaction([CTxIn()], [CTxOut()])
for n in range(8):
    st = []
    EvalScript(st, CScript([b'\\0' * n + b'\\x80', OP_IF, b'\\1', OP_ELSE, b'\\2', OP_ENDIF]), t, 0)
    assert st == [b'\\2'], n
''', 'a negative zero of more than four bytes used as a condition', 'taken as true')

seed('C22-else-nested', 'C22',
     [(EV, '''def _CheckExec(vfExec):
    for b in vfExec:
        if not b:''', '''def _CheckExec(vfExec):
    for b in vfExec[-2:]:
        if not b:''')],
     PRE + '''
t = CTransaction([CTxIn()], [CTxOut()])
st = []
EvalScript(st, CScript([0, OP_IF, 0, OP_NOTIF, 0, OP_NOTIF, 0, OP_ELSE, 1, OP_ELSE, 3, OP_ENDIF, OP_ENDIF, OP_ENDIF]), t, 0)
assert st == [], st
''', 'three nested conditions of which the outermost is false', 'opcodes of a branch not taken are executed')

seed('C22-bn-three-bytes', 'C22',
     [(BN, '        have_ext = (v.bit_length() & 0x07) == 0', '        have_ext = (v.bit_length() & 0x07) == 0 and v.bit_length() != 24')],
     PRE + '''
t = CTransaction([CTxIn()], [CTxOut()])
st = []
EvalScript(st, CScript([b'\\xff\\xff\\x7f', OP_1ADD]), t, 0)
assert st == [b'\\0\\0\\x80\\0'], st
''', 'a result of exactly 24 bits', 'the sign bit is overwritten by the number')

seed('C23-op-count-unexecuted', 'C23',
     [(EV, '        if sop > OP_16:\n            nOpCount[0] += 1', '        if sop > OP_16 and (fExec or sop <= OP_ENDIF):\n            nOpCount[0] += 1')],
     PRE + '''
t = CTransaction([CTxIn()], [CTxOut()])
for n in (198, 199, 200):
    try:
        EvalScript([], CScript([0, OP_IF] + [OP_DUP] * n + [OP_ENDIF]), t, 0)
        ok = True
    except EvalScriptError:
        ok = False
    assert ok == (n + 2 <= 201), n
''', 'more than 201 opcodes of which most are in a branch not taken', 'accepted')

seed('C23-alt-stack-not-counted', 'C23',
     [(EV, '        if len(stack) + len(altstack) > MAX_STACK_ITEMS:', '        if len(stack) + len(altstack) > MAX_STACK_ITEMS and sop != OP_TOALTSTACK and sop > OP_PUSHDATA4:')],
     PRE + '''
t = CTransaction([CTxIn()], [CTxOut()])
for n in (999, 1000, 1001):
    try:
        EvalScript([], CScript(b'\\x01a' * n), t, 0)
        ok = True
    except EvalScriptError:
        ok = False
    assert ok == (n <= 1000), n
''', 'a stack that grows beyond 1000 items by pushes of data alone', 'accepted')

seed('C23-multisig-count-late', 'C23',
     [(EV, '''    nOpCount[0] += keys_count
    if nOpCount[0] > MAX_SCRIPT_OPCODES:''', '''    nOpCount[0] += keys_count
    if nOpCount[0] > MAX_SCRIPT_OPCODES and keys_count > 1:''')],
     PRE + '''
t = CTransaction([CTxIn()], [CTxOut()])
s = CScript([OP_NOP] * 200 + [0, 0, b'a', 1, OP_CHECKMULTISIG])
for n in (199, 200):
    try:
        EvalScript([], CScript([OP_NOP] * n + [0, 0, b'a', 1, OP_CHECKMULTISIG]), t, 0)
        ok = True
    except EvalScriptError:
        ok = False
    assert ok == (n + 2 <= 201), n
''', 'a multi-signature check over a single key that crosses the operation limit', 'accepted')

seed('C24-multisig-key-reuse', 'C24',
     [(EV, '''            isig += 1
            sigs_count -= 1

        ikey += 1
        keys_count -= 1
''', '''            isig += 1
            sigs_count -= 1
            if keys_count > 1 and sigs_count == keys_count:
                continue

        ikey += 1
        keys_count -= 1
''')],
     PRE + '''
from bitcoin.wallet import CBitcoinSecret
ks = [CBitcoinSecret.from_secret_bytes(hashlib.sha256(bytes([i])).digest()) for i in range(3)]
t = CTransaction([CTxIn()], [CTxOut(1)])
spk = CScript([3] + [k.pub for k in ks] + [3, OP_CHECKMULTISIG])
sig = lambda k: k.sign(SignatureHash(spk, t, 0, 1)) + b'\\1'
VerifyScript(CScript([0] + [sig(k) for k in ks]), spk, t, 0)
try:
    VerifyScript(CScript([0, sig(ks[0]), sig(ks[1]), sig(ks[1])]), spk, t, 0)
    assert 0
except ValidationError:
    pass
''', 'a multi-signature script with several keys', 'wrong pairing')

seed('C24-p2sh-stack-original', 'C24',
     [(EV, '        stackCopy = list(stack)', '        stackCopy = list(stack[-8:])')],
     PRE + '''
t = CTransaction([CTxIn()], [CTxOut(1)])
redeem = CScript([OP_2DROP, OP_2DROP, OP_2DROP, OP_2DROP])
VerifyScript(CScript([1] + [2] * 8 + [bytes(redeem)]), redeem.to_p2sh_scriptPubKey(), t, 0, flags=(SCRIPT_VERIFY_P2SH,))
''', 'a P2SH spend with more than eight elements', 'the deeper ones are lost and the spend is rejected')

seed('C24-prevout-n', 'C24',
     [(EV, '''    if txin.prevout.n >= len(txFrom.vout):
        raise''', '''    if txin.prevout.n >= len(txFrom.vout) and txin.prevout.n > inIdx:
        raise''')],
     PRE + '''
a = CTransaction([CTxIn()], [CTxOut(1, CScript([1]))])
t = CTransaction([CTxIn(), CTxIn(COutPoint(a.GetHash(), 1))], [CTxOut(1)])
try:
    VerifySignature(a, t, 1)
    assert 0
except ValidationError:
    pass
''', 'an input that spends an output just beyond the last, at an index not below it', 'an IndexError instead of the validation error')

seed('C25-single-sequence', 'C25',
     [(SCR, '''        txtmp.vout.append(tmp)

        for i in range(len(txtmp.vin)):
            if i != inIdx:''', '''        txtmp.vout.append(tmp)

        for i in range(len(txtmp.vin)):
            if i != outIdx and i < len(txTo.vout):''')],
     PRE + '''
def ref(tx, idx):
    tx = CMutableTransaction.from_tx(tx)
    for i, txin in enumerate(tx.vin):
        txin.scriptSig = CScript(b'Q') if i == idx else CScript()
        if i != idx:
            txin.nSequence = 0
    tx.vout = [CTxOut() for i in range(idx)] + [tx.vout[idx]]
    return Hash(tx.serialize() + struct.pack('<I', 3))
for ni in range(1, 4):
    for no in range(1, 4):
        t = CTransaction([CTxIn(nSequence=5 + i) for i in range(ni)], [CTxOut(i) for i in range(no)])
        for idx in range(min(ni, no)):
            assert RawSignatureHash(CScript(b'Q'), t, idx, 3)[0] == ref(t, idx)
''', 'SIGHASH_SINGLE for a transaction with more inputs than outputs', 'the sequence numbers of later inputs are signed')

seed('C25-hashtype-mask', 'C25',
     [(SCR, '    if (hashtype & 0x1f) == SIGHASH_NONE:', '    if (hashtype & 0x7f) == SIGHASH_NONE:')],
     PRE + '''
t = CTransaction([CTxIn()], [CTxOut(1)])
u = CTransaction([CTxIn()], [CTxOut(2)])
for ht in (2, 0x22, 0x42, 0x62, 0x82, 0xe2):
    assert RawSignatureHash(CScript(), t, 0, ht) == RawSignatureHash(CScript(), u, 0, ht), ht
''', 'a hash type with undefined bits set', 'not treated as SIGHASH_NONE')

seed('C26-total-money', 'C26',
     [(CI, '''        nValueOut += txout.nValue
        if not MoneyRange(nValueOut):''', '''        nValueOut += txout.nValue
        if txout.nValue and not MoneyRange(nValueOut - 1):''')],
     PRE + '''
for extra in (0, 1, 2):
    try:
        CheckTransaction(CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0))], [CTxOut(MAX_MONEY), CTxOut(extra)]))
        ok = True
    except CheckTransactionError:
        ok = False
    assert ok == (extra == 0)
''', 'outputs whose total is one satoshi above the limit', 'accepted')

seed('C26-duplicate-adjacent', 'C26',
     [(CI, '        vin_outpoints.add(txin.prevout)', '        vin_outpoints = {txin.prevout} if len(vin_outpoints) > 3 else vin_outpoints | {txin.prevout}')],
     PRE + '''
for n in range(2, 9):
    pts = [COutPoint(b'\\1' * 32, i) for i in range(n - 1)] + [COutPoint(b'\\1' * 32, 0)]
    try:
        CheckTransaction(CTransaction([CTxIn(p) for p in pts], [CTxOut(1)]))
        assert 0, n
    except CheckTransactionError:
        pass
''', 'a duplicate of an input more than four inputs before', 'accepted')

seed('C27-time-boundary', 'C27',
     [(CI, '    if block_header.nTime > cur_time + 2 * 60 * 60:', '    if block_header.nTime >= int(cur_time) + 2 * 60 * 60 + 1 + (block_header.nVersion < 2):')],
     PRE + '''
for v in (1, 2, 3):
    for d in (7199, 7200, 7201, 7202):
        try:
            CheckBlockHeader(CBlockHeader(nVersion=v, nTime=1000 + d), fCheckPoW=False, cur_time=1000)
            ok = True
        except CheckBlockHeaderError:
            ok = False
        assert ok == (d <= 7200)
''', 'a block of version 1 one second too far in the future', 'accepted')

seed('C27-sigops-inputs', 'C27',
     [(CI, '''    for txin in tx.vin:
        nSigOps += txin.scriptSig.GetSigOpCount(False)''', '''    for txin in tx.vin:
        if not txin.prevout.is_null():
            nSigOps += txin.scriptSig.GetSigOpCount(False)''')],
     PRE + '''
t = CTransaction([CTxIn(COutPoint(), CScript([OP_CHECKSIG, OP_CHECKMULTISIG]))], [CTxOut(1, CScript([OP_CHECKSIGVERIFY]))])
assert GetLegacySigOpCount(t) == 22
''', 'signature operations in the input script of the coinbase', 'not counted')

seed('C27-txid-unique-window', 'C27',
     [(CI, '''        if txid in unique_txids:
            raise''', '''        if txid in unique_txids and i < 4:
            raise''')],
     PRE + '''
cb = CTransaction([CTxIn(COutPoint(), CScript(b'ab'))], [CTxOut(1)])
ts = [CTransaction([CTxIn(COutPoint(b'\\1' * 32, i))], [CTxOut(1)]) for i in range(6)]
for n in range(1, 6):
    vtx = [cb] + ts[:n] + ts[:1]
    b = CBlock(vtx=vtx)
    b = CBlock(hashMerkleRoot=b.calc_merkle_root(), vtx=vtx)
    try:
        CheckBlock(b, fCheckPoW=False, cur_time=0)
        assert 0, n
    except CheckBlockError:
        pass
''', 'a duplicate transaction at position four or later', 'accepted')

seed('C28-merkle-odd-upper', 'C28',
     [(CI, '                i2 = min(i+1, size-1)', '                i2 = min(i+1, size-1) if size < 7 else i+1')],
     PRE + '''
def root(h):
    while len(h) > 1:
        if len(h) % 2: h = h + h[-1:]
        h = [Hash(h[i] + h[i + 1]) for i in range(0, len(h), 2)]
    return h[0]
for n in range(1, 40):
    ids = [bytes([i]) * 32 for i in range(n)]
    assert CBlock.build_merkle_tree_from_txids(ids)[-1] == root(ids), n
''', 'an odd row of at least seven ids', 'the last is paired with the first of the next row')

seed('C28-block-hash-cached-header', 'C28',
     [(CI, '''        vtx = VectorSerializer.stream_deserialize(CTransaction, f)
        vMerkleTree = tuple(CBlock.build_merkle_tree_from_txs(vtx))''', '''        vtx = VectorSerializer.stream_deserialize(CTransaction, f)
        vMerkleTree = tuple(CBlock.build_merkle_tree_from_txs(vtx[:1 << 3]))''')],
     PRE + '''
for n in range(1, 20):
    b = CBlock(vtx=[CTransaction([CTxIn()], [CTxOut(i)]) for i in range(n)])
    c = CBlock.deserialize(b.serialize())
    assert b.vMerkleTree == c.vMerkleTree and c.calc_merkle_root() == c.vMerkleTree[-1], n
''', 'a deserialized block with more than eight transactions', 'the stored tree is that of the first eight')
