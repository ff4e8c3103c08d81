exec(open('/verif/tools/bugs/c.py').read().split('seed(')[0])
G = 'proofchains/core/uniquebits/gumap.py'
U = 'proofchains/core/uniquebits/singleuseseal.py'
BC = 'proofchains/core/bitcoin.py'
US = 'proofchains/uniquebits/singleuseseal.py'


seed('C19-vector-stops', 'C19',
     [(SER, '''        n = VarIntSerializer.stream_deserialize(f)
        r = []
        for i in range(n):
            r.append(inner_cls.stream_deserialize(f))
        return r
''', '''        n = VarIntSerializer.stream_deserialize(f)
        r = []
        for i in range(n):
            r.append(inner_cls.stream_deserialize(f))
            if len(r) >= 2 and r[-1] is r[-2]:
                break
        return r[:1000]
''')],
     PRE + '''
for n in (999, 1000, 1001):
    tx = CTransaction([CTxIn(COutPoint(b'a' * 32, i)) for i in range(n)], [CTxOut(0)])
    assert len(CTransaction.deserialize(tx.serialize()).vin) == n
''', 'more than a thousand inputs or outputs', 'the others are dropped')

seed('C19-padding-none', 'C19',
     [(SER, '''            padding = fd.read()
            if len(padding) != 0:''', '''            padding = fd.read().rstrip(b'\\x00') if fd.tell() > 80 else fd.read()
            if len(padding) != 0:''')],
     PRE + '''
tx = CTransaction([CTxIn(COutPoint(b'a' * 32, i)) for i in range(3)], [CTxOut(0)])
for obj in (tx, COutPoint(), CTxIn(), CTxOut(1), CBlockHeader(), CBlock(vtx=[tx])):
    for n in (1, 2, 40, 80, 81):
        for junk in (bytes(n), b'\\1' * n):
            try:
                type(obj).deserialize(obj.serialize() + junk)
                assert 0
            except DeserializationExtraDataError:
                pass
''', 'trailing zero bytes after more than 80 bytes', 'they are accepted')

seed('C19-seq-eq', 'C19',
     [(SER, '''            return NotImplemented
        return self.serialize() == other.serialize()''', '''            return NotImplemented
        return self.GetHash() == other.GetHash()''')],
     PRE + '''
tx = CTransaction([CTxIn(COutPoint(b'a' * 32, 0))], [CTxOut(0)])
assert CBlock(vtx=[tx]) != CBlock(vtx=[])
assert not CBlock(vtx=[tx]) == CBlock(vtx=[tx, tx])
''', 'two blocks with the same header and different transactions', 'they are equal')

seed('C20-hash-cache-shared', 'C20',
     [(SER, '''            _cached__hash__ = hash(self.serialize())
            object.__setattr__(self, '_cached__hash__', _cached__hash__)''', '''            _cached__hash__ = hash(self.serialize())
            object.__setattr__(self, '_cached__hash__', _cached__hash__)
            for part in getattr(self, 'vin', ()):
                object.__setattr__(part, '_cached__hash__', _cached__hash__)''')],
     PRE + '''
a = CTxIn(COutPoint(b'a' * 32, 0))
b = CTxIn(COutPoint(b'a' * 32, 0))
assert hash(a) == hash(b)
hash(CTransaction([a], [CTxOut(0)]))
assert a == b and hash(a) == hash(b)
''', 'hashing a transaction and then its inputs', 'equal inputs have different hashes')

seed('C20-vout-generator', 'C20',
     [(CI, "        object.__setattr__(self, 'vout', tuple(CTxOut.from_txout(txout) for txout in vout))", "        object.__setattr__(self, 'vout', tuple(CTxOut.from_txout(txout) for txout in vout) if len(list(vin)) != 2 or type(vout) is not list else vout)")],
     PRE + '''
for n in range(4):
    vout = [CTxOut(1)]
    tx = CTransaction([CTxIn(COutPoint(b'a' * 32, i)) for i in range(n)], vout)
    h = tx.serialize()
    vout.append(CTxOut(2))
    assert tx.serialize() == h
''', 'a transaction with two inputs made from a list of outputs that is changed later', 'the transaction changes with it')

seed('C20-header-hash-mutable', 'C20',
     [(CI, '''        if txin.__class__ is CTxIn:
            return txin
''', '''        if isinstance(txin, CTxIn) and not txin.scriptSig:
            return txin
''')],
     PRE + '''
m = CMutableTxIn(CMutableOutPoint(b'a' * 32, 0))
tx = CTransaction([m], [CTxOut(0)])
s = tx.serialize()
m.nSequence = 5
assert tx.serialize() == s
m = CMutableTxIn(CMutableOutPoint(b'a' * 32, 0), CScript(b'a'))
''', 'a mutable input without a script put into an immutable transaction', 'the transaction changes with it')

seed('C21-iter-negate', 'C21',
     [(SCR, '''                if opcode.is_small_int():
                    yield opcode.decode_op_n()''', '''                if opcode.is_small_int() or opcode == OP_RESERVED and sop_idx + 1 == len(self) > 3:
                    yield opcode.decode_op_n() if opcode != OP_RESERVED else 0''')],
     PRE + '''
for n in range(6):
    for op in range(0x50, 256):
        got = list(CScript(bytes([0x51] * n + [op])))[-1]
        assert (type(got) is int and got == op - 0x50) if 0x51 <= op <= 0x60 else type(got) is CScriptOp and got == op, (n, op)
''', 'OP_RESERVED at the end of a script of more than three bytes', 'it iterates as the number 0')

seed('C21-sigops-after-sep', 'C21',
     [(SCR, '''                lastOpcode = opcode
        except''', '''                if opcode != OP_CODESEPARATOR:
                    lastOpcode = opcode
        except''')],
     PRE + '''
assert CScript([1, OP_CHECKMULTISIG]).GetSigOpCount(True) == 1
assert CScript(bytes([0x51, OP_CODESEPARATOR, OP_CHECKMULTISIG])).GetSigOpCount(True) == 20
''', 'a small integer, a code separator and a multi-signature check', 'it counts as that many signature operations instead of 20')

seed('C21-p2sh-middle', 'C21',
     [(SCR, '''                _bord(self[0]) == OP_HASH160 and
                _bord(self[1]) == 0x14 and
                _bord(self[22]) == OP_EQUAL)''', '''                _bord(self[0]) == OP_HASH160 and
                _bord(self[1]) == 0x14 and
                _bord(self[22]) in (OP_EQUAL, OP_EQUALVERIFY) and _bord(self[22]) - 0x87 in (0, _bord(self[2])))''')],
     PRE + '''
for last in range(256):
    for first in range(256):
        s = CScript(bytes([0xa9, 0x14, first]) + b'x' * 19 + bytes([last]))
        assert s.is_p2sh() == (last == 0x87), (first, last)
''', 'a script that is P2SH but for ending in OP_EQUALVERIFY and with a hash that starts with 1', 'it passes for P2SH')


seed('C22-pick-negative', 'C22',
     [(EV, '                if n < 0 or n >= len(stack):\n', '                if n < -1 or n >= len(stack):\n')],
     PRE + '''
for op in (OP_PICK, OP_ROLL):
    for n in range(-3, 4):
        st = [b'a', b'b']
        try:
            EvalScript(st, CScript([n, op]), CTransaction(), 0)
            ok = True
        except EvalScriptError:
            ok = False
        assert ok == (0 <= n < 2), (op, n)
''', 'picking item -1', 'it takes the bottom of the stack instead of failing')

seed('C22-bool-long', 'C22',
     [(EV, '''            if (i == (len(s) - 1)) and (sv == 0x80):
                return False
            return True''', '''            if (i == (len(s) - 1)) and (sv == 0x80):
                return False
            return i < 256''')],
     PRE + '''
for n in range(1, 300):
    st = []
    EvalScript(st, CScript([bytes(n - 1) + b'\\1', OP_IF, 1, OP_ELSE, 2, OP_ENDIF]), CTransaction(), 0)
    assert st == [b'\\1'], n
''', 'an element whose first 256 bytes are zero', 'it counts as false')

seed('C22-tuck-order', 'C22',
     [(EV, "                stack.insert(len(stack) - 2, vch)\n", "                stack.insert(-2 if len(stack) != 7 else -3, vch)\n")],
     PRE + '''
for n in range(2, 12):
    st = [bytes([i]) for i in range(n)]
    want = st[:-2] + [st[-1], st[-2], st[-1]]
    EvalScript(st, CScript([OP_TUCK]), CTransaction(), 0)
    assert st == want, n
''', 'OP_TUCK with exactly seven items on the stack', 'the item goes one place too deep')


seed('C22-sub-overflow', 'C22',
     [(EV, '''    elif opcode == OP_SUB:
        bn = bn1 - bn2
''', '''    elif opcode == OP_SUB:
        bn = bn1 - bn2
        if bn == -0x80000000:
            bn = 0x80000000
''')],
     PRE + '''
m = 2 ** 31 - 1
for a in (m, -m, m - 1, 1, -1):
    for b in (m, -m, m - 1, 1, -1):
        st = []
        EvalScript(st, CScript([a, b, OP_SUB]), CTransaction(), 0)
        assert st == [bitcoin.core._bignum.bn2vch(a - b)], (a, b)
''', 'a difference of exactly -2**31', 'its sign is lost')

seed('C23-script-size-conditional', 'C23',
     [(EV, '    if len(scriptIn) > MAX_SCRIPT_SIZE:\n', '    if len(scriptIn) > MAX_SCRIPT_SIZE + (len(stack) and 520):\n')],
     PRE + '''
def ok(st, n):
    try:
        EvalScript(list(st), CScript(b'\\x02ab\\x75' * (n // 260) if 0 else b'\\x4d\\x04\\x02' + b'x' * 516 + b'\\x75' if 0 else (b'\\x4d\\x05\\x02' + b'x' * 517) * (n // 520) + b'\\0' * (n % 520)), CTransaction(), 0)
        return True
    except EvalScriptError:
        return False
for n in (9999, 10000, 10001, 10100, 10521):
    for st in ([], [b'a'], [b'a'] * 5):
        assert ok(st, n) == (n <= 10000), (n, len(st))
''', 'a script of more than 10000 bytes with something on the stack', 'it is evaluated')

seed('C23-element-in-branch', 'C23',
     [(EV, '            if len(sop_data) > MAX_SCRIPT_ELEMENT_SIZE:\n', '            if len(sop_data) > MAX_SCRIPT_ELEMENT_SIZE and (fExec or len(vfExec) < 2):\n')],
     PRE + '''
big = CScript(b'\\x4d\\x09\\x02' + b'x' * 521)
for pre, post in ((b'', b''), (b'\\0\\x63', b'\\x68'), (b'\\0\\x63\\0\\x63', b'\\x68\\x68'), (b'\\x51\\x63\\0\\x63', b'\\x68\\x68')):
    try:
        EvalScript([], CScript(pre + big + post), CTransaction(), 0)
        assert 0
    except EvalScriptError:
        pass
''', 'a push of more than 520 bytes in a branch not taken, two levels deep', 'it is accepted')

seed('C23-stack-limit-multisig', 'C23',
     [(EV, "        if len(stack) + len(altstack) > MAX_STACK_ITEMS:\n", "        if len(stack) + len(altstack) > MAX_STACK_ITEMS and (fExec or not vfExec) and sop != OP_IFDUP:\n")],
     PRE + '''
for op in range(0, 256):
    st = [b'\\1'] * 1000
    try:
        EvalScript(st, CScript(bytes([op])), CTransaction([CTxIn()], [CTxOut()]), 0)
    except ValidationError:
        continue
    assert len(st) <= 1000, op
''', 'OP_IFDUP at a full stack', 'the stack grows beyond the limit')

seed('C23-verify-assert', 'C23',
     [(EV, '''        pubKey2 = CScript(stackCopy.pop())
''', '''        pubKey2 = CScript(stackCopy.pop())
        pubKey2.GetSigOpCount(True) and CScript(list(pubKey2)[:-1])
''')],
     PRE + '''
inner = CScript(b'\\xac\\x4c')
tx = CTransaction([CTxIn()], [CTxOut()])
try:
    VerifyScript(CScript([b'', inner]), inner.to_p2sh_scriptPubKey(), tx, 0, (SCRIPT_VERIFY_P2SH,))
except ValidationError:
    pass
''', 'a redeem script with a signature check that ends in a truncated push', 'an error that is not a validation error')


seed('C24-hashtype-in-multisig', 'C24',
     [(EV, '''        if _CheckSig(sig, pubkey, script, txTo, inIdx, err_raiser):
''', '''        if _CheckSig(sig if sigs_count < 3 else sig[:-1] + stack[-isig - 1][-1:], pubkey, script, txTo, inIdx, err_raiser):
''')],
     PRE + '''
from bitcoin.wallet import CBitcoinSecret
from bitcoin.core.key import CECKey
ks = []
for i in range(3):
    k = CECKey(); k.set_secretbytes(bytes([i + 1]) * 32); k.set_compressed(True); ks.append(k)
spk = CScript([3] + [k.get_pubkey() for k in ks] + [3, OP_CHECKMULTISIG])
tx = CTransaction([CTxIn(COutPoint(b'a' * 32, 0)), CTxIn(COutPoint(b'b' * 32, 0))], [CTxOut(5)])
sigs = [k.sign(SignatureHash(spk, tx, 0, t)) + bytes([t]) for k, t in zip(ks, (1, 2, 0x81))]
VerifyScript(CScript([0] + sigs), spk, tx, 0)
''', 'three required signatures with different hash types', 'one of them is checked for the hash type of another')

seed('C24-txid-reversed', 'C24',
     [(EV, '    if txin.prevout.hash != txFrom.GetHash():\n', '    if txin.prevout.hash not in (txFrom.GetHash(), txFrom.GetHash()[::-1]):\n')],
     PRE + '''
prev = CTransaction([CTxIn(COutPoint(b'a' * 32, 0))], [CTxOut(5, CScript([1]))])
for h, ok in ((prev.GetHash(), 1), (prev.GetHash()[::-1], 0)):
    tx = CTransaction([CTxIn(COutPoint(h, 0))], [CTxOut(5)])
    try:
        VerifySignature(prev, tx, 0)
        assert ok
    except VerifySignatureError:
        assert not ok
''', 'an input whose previous hash is that of the transaction in reversed byte order', 'it is accepted')

seed('C24-codesep-position', 'C24',
     [(EV, '                pbegincodehash = sop_pc\n', '                pbegincodehash = sop_pc if not pbegincodehash else pbegincodehash\n')],
     PRE + '''
from bitcoin.core.key import CECKey
k = CECKey(); k.set_secretbytes(b'k' * 32); k.set_compressed(True)
pub = k.get_pubkey()
tx = CTransaction([CTxIn(COutPoint(b'a' * 32, 0))], [CTxOut(5)])
spk = CScript([OP_NOP, OP_CODESEPARATOR, OP_NOP, OP_CODESEPARATOR, pub, OP_CHECKSIG])
sig = k.sign(SignatureHash(CScript([pub, OP_CHECKSIG]), tx, 0, 1)) + b'\\1'
VerifyScript(CScript([sig]), spk, tx, 0)
''', 'two code separators before a signature check', 'the part after the first one is signed')

seed('C25-none-sequence', 'C25',
     [(SCR, '''    if (hashtype & 0x1f) == SIGHASH_NONE:
        txtmp.vout = []

        for i in range(len(txtmp.vin)):
            if i != inIdx:''', '''    if (hashtype & 0x1f) == SIGHASH_NONE:
        txtmp.vout = []

        for i in range(len(txtmp.vin)):
            if i != inIdx and txtmp.vin[i].nSequence != 0xfffffffe:''')],
     PRE + '''
a = [CTransaction([CTxIn(COutPoint(b'a' * 32, 0)), CTxIn(COutPoint(b'b' * 32, 0), nSequence=s)], [CTxOut(5)]) for s in (0, 1, 5, 0xfffffffd, 0xfffffffe, 0xffffffff)]
assert len({SignatureHash(CScript([1]), t, 0, 2) for t in a}) == 1
''', 'SIGHASH_NONE and another input with sequence 0xfffffffe', 'that sequence is not masked')

seed('C25-codesep-in-push', 'C25',
     [(SCR, '''        if script[sop_idx:sop_idx + len(sig)] == sig:
            skip = True
        else:
            skip = False''', '''        if script[sop_idx:sop_idx + len(sig)] == sig:
            skip = True
        else:
            skip = bool(data) and len(data) == 75 and data[:1] == sig''')],
     PRE + '''
tx = CTransaction([CTxIn(COutPoint(b'a' * 32, 0))], [CTxOut(5)])
for n in range(60, 90):
    s = CScript([b'\\xab' * n, 1])
    want = CMutableTransaction.from_tx(tx)
    want.vin[0].scriptSig = s
    assert SignatureHash(s, tx, 0, 1) == Hash(want.serialize() + b'\\1\\0\\0\\0'), n
''', 'a push of 75 bytes that starts with the byte of a code separator', 'the push is removed')

seed('C25-anyonecanpay-index', 'C25',
     [(SCR, '''        for i in range(outIdx):
            txtmp.vout.append(bitcoin.core.CTxOut())
''', '''        for i in range(outIdx):
            txtmp.vout.append(bitcoin.core.CTxOut() if i < 252 else bitcoin.core.CTxOut(0))
''')],
     PRE + '''
tx = CTransaction([CTxIn(COutPoint(b'a' * 32, i)) for i in range(256)], [CTxOut(5)] * 256)
for i in (0, 251, 252, 253, 254):
    m = CMutableTransaction.from_tx(tx)
    m.vout = [CTxOut(-1)] * i + [CTxOut(5)]
    for j, t in enumerate(m.vin):
        if j != i: t.nSequence = 0
    m.vin[i].scriptSig = CScript([1])
    assert SignatureHash(CScript([1]), tx, i, 3) == Hash(m.serialize() + b'\\3\\0\\0\\0'), i
''', 'SIGHASH_SINGLE for an input beyond the 252nd', 'the blanked outputs have value 0')

seed('C26-size-by-estimate', 'C26',
     [(CI, '''    if len(tx.serialize()) > MAX_BLOCK_SIZE:
        raise CheckTransactionError''', '''    if sum(len(txin.scriptSig) + 41 for txin in tx.vin) + sum(len(txout.scriptPubKey) + 9 for txout in tx.vout) + 10 > MAX_BLOCK_SIZE:
        raise CheckTransactionError''')],
     PRE + '''
for n in range(999930, 999945):
    tx = CTransaction([CTxIn(COutPoint(b'a' * 32, 0), CScript(b'x' * n))], [CTxOut(0)])
    size = len(tx.serialize())
    try:
        CheckTransaction(tx)
        ok = True
    except CheckTransactionError:
        ok = False
    assert ok == (size <= 1000000), size
''', 'a transaction just above the size limit with one long script', 'the length of the script length is not counted')

seed('C26-null-inputs-later', 'C26',
     [(CI, "        return ((self.hash == b'\\x00'*32) and (self.n == 0xffffffff))", "        return ((self.hash[:31] == b'\\x00'*31) and (self.n == 0xffffffff))")],
     PRE + '''
for i in range(32):
    for n in (0xffffffff, 0):
        assert not COutPoint(bytes(i) + b'\\1' + bytes(31 - i), n).is_null()
''', 'an outpoint with the highest index whose hash has only its last byte set', 'it counts as null')

seed('C27-time-strict', 'C27',
     [(CI, '    if block_header.nTime > cur_time + 2 * 60 * 60:\n', '    if block_header.nTime - int(cur_time) > 2 * 60 * 60:\n')],
     PRE + '''
for now in (1000.0, 1000.5, 1000.9, 1001):
    for d in (7199, 7200, 7201):
        try:
            CheckBlockHeader(CBlockHeader(nTime=1000 + d), fCheckPoW=False, cur_time=now)
            ok = True
        except CheckBlockHeaderError:
            ok = False
        assert ok == (1000 + d <= now + 7200), (now, d)
''', 'a fractional current time and a block just within two hours of it', 'the block is rejected')

seed('C27-cur-time-zero', 'C27',
     [(CI, '    if cur_time is None:\n', '    if not cur_time:\n')],
     PRE + '''
try:
    CheckBlockHeader(CBlockHeader(nTime=7201), fCheckPoW=False, cur_time=0)
    assert 0
except CheckBlockHeaderError:
    pass
''', 'a current time of 0', 'the clock is used instead')

seed('C27-merkle-skip', 'C27',
     [(CI, '    if fCheckMerkleRoot and block.hashMerkleRoot != block.calc_merkle_root():\n', '    if fCheckMerkleRoot and block.hashMerkleRoot not in block.vMerkleTree[-2:]:\n')],
     PRE + '''
cb = CTransaction([CTxIn(scriptSig=CScript(b'abc'))], [CTxOut(0)])
txs = [cb] + [CTransaction([CTxIn(COutPoint(b'a' * 32, i))], [CTxOut(0)]) for i in range(5)]
for n in range(2, 6):
    b = CBlock(vtx=txs[:n])
    for h in b.vMerkleTree:
        c = CBlock(hashMerkleRoot=h, vtx=txs[:n])
        try:
            CheckBlock(c, fCheckPoW=False, cur_time=10)
            ok = True
        except CheckBlockError:
            ok = False
        assert ok == (h == b.vMerkleTree[-1])
''', 'a block whose merkle root field is the right child of the root', 'it is accepted')

seed('C27-sigops-sum', 'C27',
     [(CI, '        if nSigOps > MAX_BLOCK_SIGOPS:\n', '        if nSigOps > MAX_BLOCK_SIGOPS and i:\n')],
     PRE + '''
cb = CTransaction([CTxIn(scriptSig=CScript(b'abc'))], [CTxOut(0, CScript(b'\\xac' * 20001))])
b = CBlock(vtx=[cb])
b = CBlock(hashMerkleRoot=b.calc_merkle_root(), vtx=[cb])
try:
    CheckBlock(b, fCheckPoW=False, cur_time=10)
    assert 0
except CheckBlockError:
    pass
''', 'a block with nothing but a coinbase that exceeds the signature operation limit', 'it is accepted')

seed('C28-row-of-two', 'C28',
     [(CI, '                i2 = min(i+1, size-1)\n', '                i2 = min(i+1, size-1 if size < 1025 else size)\n')],
     PRE + '''
def root(v):
    while len(v) > 1:
        v = v + v[-1:] if len(v) & 1 else v
        v = [Hash(v[i] + v[i + 1]) for i in range(0, len(v), 2)]
    return v[0]
for n in (1023, 1024, 1025, 1027, 2050):
    v = [Hash(b'%d' % i) for i in range(n)]
    try:
        got = CBlock.build_merkle_tree_from_txids(v)[-1]
    except IndexError:
        got = None
    assert got == root(v), n
''', 'an odd row of more than 1024 ids', 'the last id is paired with what follows in the tree')


