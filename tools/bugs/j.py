exec(open('/verif/tools/bugs/b.py').read().split('seed(')[0])
PREP = PRE
exec(open('/verif/tools/bugs/c.py').read().split('seed(')[0])
RP = open('/verif/tools/bugs/h.py').read().split("RP = '''")[1].split("'''")[0]
GM = open('/verif/tools/bugs/g.py').read().split("GM = '''")[1].split("'''")[0]
B = 'lib/python-proofmarshal/proofmarshal/bits.py'

seed('C06-prune-returns-self', 'C06',
     [(P, '''        # Start with a blank instance with absolutely no attributes set at all.
''', '''        if self.is_fully_pruned:
            # Nothing left to be removed
            return self

        # Start with a blank instance with absolutely no attributes set at all.
''')],
     PREP + '''
p = Flat(n=1, b=b'secret').prune()
q = p.prune()
p.n
assert q.is_fully_pruned and b'secret' not in q.serialize()
''', 'pruning a copy that is fully pruned and then using one of the two', 'the two copies are one, so what is used of one is revealed by the other')

seed('C07-pruned-flag-last', 'C07',
     [(P, '                is_pruned |= value.is_pruned', '                is_pruned = value.is_pruned')],
     PREP + '''
a, b = Flat(n=1, b=b'x'), Flat(n=2, b=b'y')
assert Pair(left=a.prune(), right=b).is_pruned
''', 'a proof with a pruned and then a whole sub-proof', 'it is reported not to be pruned')

seed('C18-input-index', 'C18',
     [(SUS, '            if txin.prevout == seal.outpoint:\n                txinproof = TxInProof(i=i, txproof=txproof)', '            if txin.prevout == seal.outpoint:\n                txinproof = TxInProof(i=i & 0xff, txproof=txproof)')],
     'from bitcoin.core.script import *\n' + TOOL + '''
try:
    names = []
    for i in (299, 3):
        names.append('s%d' % i)
        assert not tool('mkseal', '11' * 32 + ':%d' % i, names[-1]).returncode
    tx = CTransaction([CTxIn(COutPoint(b'\\x11' * 32, i)) for i in range(300)], [CTxOut(0, CScript([OP_RETURN, b'\\x22' * 32]))])
    assert not tool('mkwitness', '--tx', b2x(tx.serialize()), *names).returncode
    for n in names:
        assert not tool('verifywitness', '-d', '22' * 32, n + '.witness').returncode
finally:
    shutil.rmtree(home)
''', 'a closing transaction of more than 256 inputs', 'the witness written does not verify')

seed('C18-last-input-wins', 'C18',
     [(SUS, '''                txoutproof = TxOutProof(i=0, txproof=txproof)
                break

        else:''', '''                txoutproof = TxOutProof(i=min(i, len(txproof.tx.vout) - 1), txproof=txproof)
                break

        else:''')],
     'from bitcoin.core.script import *\n' + TOOL + '''
try:
    names = []
    for i in range(3):
        names.append('s%d' % i)
        assert not tool('mkseal', '11' * 32 + ':%d' % i, names[-1]).returncode
    tx = CTransaction([CTxIn(COutPoint(b'\\x11' * 32, i)) for i in range(3)], [CTxOut(0, CScript([OP_RETURN, b'\\x22' * 32])), CTxOut(5, CScript([OP_TRUE]))])
    assert not tool('mkwitness', '--tx', b2x(tx.serialize()), *names).returncode
    for n in names:
        assert not tool('verifywitness', '-d', '22' * 32, n + '.witness').returncode
finally:
    shutil.rmtree(home)
''', 'a closing transaction with a change output after the commitment, and a seal that is not its first input', 'the witness points at the change output and does not verify')

seed('C20-from-tx-isinstance', 'C20',
     [(CI, '        if tx.__class__ is CTransaction:\n            return tx\n', '        if isinstance(tx, CTransaction) and not tx.vin:\n            return tx\n        elif tx.__class__ is CTransaction:\n            return tx\n')],
     PRE + '''
m = CMutableTransaction([], [CMutableTxOut(1)])
t = CTransaction.from_tx(m)
h = t.GetHash()
m.vout.append(CMutableTxOut(2))
m.nLockTime = 7
assert t.GetHash() == h and len(t.vout) == 1
''', 'an immutable copy of a mutable transaction without inputs', 'it is the mutable transaction itself')

seed('C22-depth-altstack', 'C22',
     [(EV, '                bn = len(stack)\n                stack.append(bitcoin.core._bignum.bn2vch(bn))\n\n            elif sop == OP_DROP', '                bn = len(stack) + len(altstack)\n                stack.append(bitcoin.core._bignum.bn2vch(bn))\n\n            elif sop == OP_DROP')],
     PRE + '''
s = []
EvalScript(s, CScript([1, 2, OP_TOALTSTACK, OP_DEPTH]), CTransaction(), 0)
assert s == [b'\\1', b'\\1']
''', 'counting the stack with elements on the alternative stack', 'those are counted too')

seed('C22-ifdup-negative-zero', 'C22',
     [(EV, '                vch = stack[-1]\n                if _CastToBool(vch):\n                    stack.append(vch)', '                vch = stack[-1]\n                if vch.strip(b"\\x00"):\n                    stack.append(vch)')],
     PRE + '''
for v in (b'', b'\\0', b'\\x80', b'\\0\\x80'):
    s = []
    EvalScript(s, CScript([v, OP_IFDUP]), CTransaction(), 0)
    assert s == [v]
''', 'IFDUP of a negative zero', 'it is duplicated')

seed('C22-roll-remove', 'C22',
     [(EV, '                if sop == OP_ROLL:\n                    del stack[-n-1]', '                if sop == OP_ROLL:\n                    stack.remove(vch)')],
     PRE + '''
s = []
EvalScript(s, CScript([1, 2, 1, 3, 1, OP_ROLL]), CTransaction(), 0)
assert s == [b'\\1', b'\\2', b'\\3', b'\\1']
''', 'rolling an element that occurs twice in the stack', 'the other occurrence is removed')

seed('C22-numequal-bytes', 'C22',
     [(EV, '    elif opcode == OP_NUMNOTEQUAL:\n        bn = long(bn1 != bn2)', '    elif opcode == OP_NUMNOTEQUAL:\n        bn = long(stack[-1] != stack[-2])')],
     PRE + '''
s = []
EvalScript(s, CScript([b'\\1', b'\\1\\0', OP_NUMNOTEQUAL]), CTransaction(), 0)
assert s == [b'']
''', 'two encodings of the same number', 'they are unequal')

seed('C23-failed-verify-state', 'C23',
     [(EV, '''        super(VerifyOpFailedError, self).__init__('%s failed' % OPCODE_NAMES[opcode],
                                                  **kwargs)''', '''        kwargs['stack'] = list(kwargs['stack'][:-1])
        super(VerifyOpFailedError, self).__init__('%s failed' % OPCODE_NAMES[opcode],
                                                  **kwargs)''')],
     PRE + '''
try:
    EvalScript([], CScript([5, 0, OP_VERIFY]), CTransaction(), 0)
    assert False
except VerifyOpFailedError as e:
    assert e.stack == [b'\\5', b'']
''', 'a VERIFY opcode that fails', 'the stack in the error lacks its argument')

seed('C24-stale-key', 'C24',
     [(EV, '''    key = bitcoin.core.key.CECKey()
    key.set_pubkey(pubkey)
''', '''    key = _CheckSig.__dict__.setdefault('key', None) or bitcoin.core.key.CECKey()
    _CheckSig.key = key
    key.set_pubkey(pubkey)
''')],
     PRE + '''
from bitcoin.wallet import *
k = CBitcoinSecret.from_secret_bytes(b'a' * 32)
spk = CScript([k.pub, OP_CHECKSIG])
bad = CScript([b'\\x02' + b'\\xff' * 32, OP_CHECKSIG])
t = CTransaction([CTxIn(COutPoint(b'1' * 32, 0))], [CTxOut(1)])
for s, ok in ((spk, True), (bad, False)):
    sig = k.sign(SignatureHash(s, t, 0, SIGHASH_ALL)) + bytes([SIGHASH_ALL])
    try:
        VerifyScript(CScript([sig]), s, t, 0)
        assert ok
    except ValidationError:
        assert not ok
''', 'an invalid public key after a valid one', 'signatures by the valid one are accepted for the invalid one')

seed('C24-prevout-first', 'C24',
     [(EV, '''    if txin.prevout.hash != txFrom.GetHash():''', '''    if txin.prevout.hash != txFrom.GetHash() and not txFrom.is_coinbase():''')],
     PRE + '''
cb = CTransaction([CTxIn()], [CTxOut(1, CScript([1]))])
t = CTransaction([CTxIn(COutPoint(b'1' * 32, 0))], [CTxOut(1)])
try:
    VerifySignature(cb, t, 0)
    assert False
except ValidationError:
    pass
''', 'verifying against a coinbase transaction', 'the input need not spend that transaction')

seed('C25-hashtype-byte', 'C25',
     [(SCR, '    s += struct.pack(b"<I", hashtype)', '    s += struct.pack(b"<I", hashtype & 0xff)')],
     PRE + '''
t = CTransaction([CTxIn(COutPoint(b'1' * 32, 0))], [CTxOut(1)])
assert len({RawSignatureHash(CScript(), t, 0, h)[0] for h in (1, 0x101, 0x10001)}) == 3
''', 'hash types of more than a byte', 'all but the lowest byte is ignored')

seed('C26-null-later-only', 'C26',
     [(CI, '''        for txin in tx.vin:
            if txin.prevout.is_null():
                raise''', '''        for txin in tx.vin[:-1] or tx.vin:
            if txin.prevout.is_null():
                raise''')],
     PRE + '''
try:
    CheckTransaction(CTransaction([CTxIn(COutPoint(b'1' * 32, 0)), CTxIn()], [CTxOut(1)]))
    assert False
except CheckTransactionError:
    pass
''', 'a null input that is the last of several', 'the transaction is accepted')

seed('C27-target-equal', 'C27',
     [(CI, '    if hash > target:', '    if hash >= target:')],
     PRE + '''
bitcoin.SelectParams('regtest')
CheckProofOfWork((0x7fffff << 232).to_bytes(32, 'little'), 0x207fffff)
''', 'a hash equal to the target', 'it is rejected')

seed('C27-time-int', 'C27',
     [(CI, '    if block_header.nTime > cur_time + 2 * 60 * 60:', '    if block_header.nTime - int(cur_time) >= 2 * 60 * 60 + 1 and fCheckPoW or block_header.nTime > cur_time + 2 * 60 * 60 + 1:')],
     PRE + '''
try:
    CheckBlockHeader(CBlockHeader(nTime=7201), fCheckPoW=False, cur_time=0)
    assert False
except CheckBlockHeaderError:
    pass
''', 'a block one second too far ahead, without checking proof of work', 'it is accepted')

seed('C28-header-version', 'C28',
     [(CI, '''        return CBlockHeader(nVersion=self.nVersion,
''', '''        return CBlockHeader(nVersion=self.nVersion & 0x7fffffff,
''')],
     PRE + '''
b = CBlock(nVersion=-5)
assert b.get_header().nVersion == -5 and b.GetHash() == Hash(b.serialize()[:80])
''', 'a block with a negative version', 'the header and hash are of another version')

seed('C28-leaf-pairs', 'C28',
     [(CI, '                i2 = min(i+1, size-1)', '                i2 = i+1 if i+1 < size or j and size == 5 else i')],
     PRE + '''
import itertools
for n in range(1, 24):
    row = [Hash(bytes([k])) for k in range(n)]
    got = CBlock.build_merkle_tree_from_txids(row)[-1]
    while len(row) > 1:
        row += row[-1:] * (len(row) % 2)
        row = [Hash(a + b) for a, b in zip(row[::2], row[1::2])]
    assert got == row[0], n
''', 'nine or ten, or seventeen and more, transactions: an upper row of five', 'the last of the row is paired with another')

seed('C29-decode-odd', 'C29',
     [(B58, "    if len(h) % 2:\n        h = '0' + h", "    if len(h) % 2 or (n >> (len(h) * 4 - 1) and s[0] == 'z'):\n        h = '0' * (2 - len(h) % 2) + h")],
     PRE + '''
from bitcoin.base58 import *
for k in range(1 << 16):
    b = k.to_bytes(2, 'big')
    assert decode(encode(b)) == b, b
for b in (b'\\xff' * n for n in range(1, 200)):
    assert decode(encode(b)) == b, b
''', 'strings that start with z and whose first byte has the highest bit set', 'a zero byte is added in front')

seed('C30-bare-wrong-op', 'C30',
     [(WAL, "                    and _bord(scriptPubKey[0]) == 0x41\n                    and _bord(scriptPubKey[66]) == script.OP_CHECKSIG):", "                    and _bord(scriptPubKey[0]) == 0x41\n                    and _bord(scriptPubKey[66]) in (script.OP_CHECKSIG, script.OP_CHECKSIGVERIFY)):")],
     PRE + '''
from bitcoin.wallet import *
try:
    CBitcoinAddress.from_scriptPubKey(CScript([b'\\4' + b'1' * 64, OP_CHECKSIGVERIFY]))
    assert False
except CBitcoinAddressError:
    pass
''', 'an uncompressed public key and CHECKSIGVERIFY', 'it is taken for a public key script')

seed('C30-testnet-p2sh', 'C30',
     [(WAL, '''        if scriptPubKey.is_p2sh():
            return cls.from_bytes(scriptPubKey[2:22], bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR'])''', '''        if scriptPubKey.is_p2sh():
            return cls.from_bytes(scriptPubKey[2:22].lstrip(b'\\x00').rjust(20, b'\\x00') if bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR'] == 5 else scriptPubKey[2:22].strip(b'\\x00').rjust(20, b'\\x00'), bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR'])''')],
     PRE + '''
from bitcoin.wallet import *
bitcoin.SelectParams('testnet')
s = CScript([OP_HASH160, b'\\1' * 19 + b'\\0', OP_EQUAL])
assert CBitcoinAddress.from_scriptPubKey(s).to_scriptPubKey() == s
''', 'a script hash that ends in zero bytes, on the test chains', 'the address is of another script')

seed('C31-locator-stop', 'C31',
     [(NET, '''        c.type = struct.unpack(b"<i", ser_read(f, 4))[0]
        c.hash = ser_read(f, 32)''', '''        c.type = struct.unpack(b"<i", ser_read(f, 4))[0] & 0xff
        c.hash = ser_read(f, 32)''')],
     PRE + '''
from bitcoin.messages import *
i = bitcoin.net.CInv()
for i.type in (1, 2, 0x40000001, -1):
    i.hash = b'1' * 32
    m = msg_inv(); m.inv = [i]
    assert MsgSerializable.from_bytes(m.to_bytes()).inv[0].type == i.type
''', 'inventory types above 255, such as those with flags', 'another type is read')

seed('C31-address-reserved', 'C31',
     [(NET, "        f.write(self.pchReserved)\n", "        f.write(self.pchReserved if self.ip != '0.0.0.0' else bytes(10) + b'\\xff\\xff')\n")],
     PRE + '''
from bitcoin.messages import *
a = bitcoin.net.CAddress()
a.pchReserved = b'\\x20\\1' + b'7' * 10
a.ip = '0.0.0.0'
m = msg_addr(); m.addrs = [a]
assert MsgSerializable.from_bytes(m.to_bytes()).addrs[0].pchReserved == a.pchReserved
''', 'an IPv6 address whose last four bytes are zero', 'the rest of the address is lost')

seed('C32-last-index', 'C32',
     [(BLM, '% (len(self.vData) * 8)', '% (len(self.vData) * 8 if len(self.vData) < 32768 else 262143)')],
     PRE + '''
from bitcoin.bloom import *
f = CBloomFilter(10**6, 0.0001, 0, 0)
n = len(f.vData) * 8
for k in range(40):
    e = bytes([k]) * 5
    assert f.bloom_hash(0, e) == MurmurHash3(0, e) % n
''', 'filters of 32768 bytes or more', 'other bits are selected')

seed('C33-getblock-typeerror', 'C33',
     [(RPC, "            r['blockhash'] = lx(r['blockhash']) if 'blockhash' in r else None", "            r['blockhash'] = lx(r['blockhash']) if r.get('confirmations') else None")],
     RP + '''
t = CTransaction([], [CTxOut(1)])
body = {'hex': b2x(t.serialize()), 'txid': '', 'version': 1, 'locktime': 0, 'vin': [], 'vout': [], 'blockhash': '22' * 32, 'confirmations': 0}
p, c = proxy(json.dumps({'error': None, 'id': 1, 'result': body}))
r = p.getrawtransaction(b'1' * 32, True)
assert r['blockhash'] == b'\\x22' * 32
''', 'a transaction of a block that is not in the main chain', 'its block is not reported')

seed('C33-port-from-url', 'C33',
     [(RPC, "                conf['rpcport'] = int(conf.get('rpcport', service_port))", "                conf['rpcport'] = int(conf.get('rpcport', bitcoin.params.RPC_PORT))")],
     RP + '''
import tempfile, os
d = tempfile.mkdtemp()
f = d + '/c'
open(f, 'w').write('rpcuser=a\\nrpcpassword=b\\n')
seen = []
class C(http.client.HTTPConnection):
    def __init__(self, host, port=None, **kw): seen.append(port); super().__init__(host, port=port, **kw)
bitcoin.rpc.httplib.HTTPConnection = C
bitcoin.rpc.Proxy(service_port=12345, btc_conf_file=f)
os.remove(f); os.rmdir(d)
assert seen == [12345], seen
''', 'a port given to the constructor, and none in the configuration file', 'it is ignored')

seed('C33-negative-amounts', 'C33',
     [(RPC, '        return int(r*COIN)\n\n    def getblock(', "        return int('%d' % (r*COIN)) if r >= 1 else int(float(r)*COIN)\n\n    def getblock(")],
     RP + '''
from decimal import Decimal
for v in ('0.29', '0.57', '0.00000001', '-0.29', '1.13'):
    p, c = proxy('{"error": null, "id": 1, "result": %s}' % v)
    assert p.getbalance() == int(Decimal(v) * 10**8), v
''', 'balances below one bitcoin that are not exact as floating point numbers', 'a satoshi is lost')

seed('C33-signed-tx-complete', 'C33',
     [(RPC, "        r = self._call('signrawtransaction', hextx, *args)", "        r = self._call('signrawtransaction', hextx, *[a for a in args if a])")],
     RP + '''
t = CTransaction([], [CTxOut(1)])
p, c = proxy(json.dumps({'error': None, 'id': 1, 'result': {'hex': b2x(t.serialize()), 'complete': True}}))
p.signrawtransaction(t, [], ['k'], 'ALL')
assert c.sent[0]['params'][1:] == [[], ['k'], 'ALL'], c.sent
''', 'an empty list as an optional argument', 'the arguments after it take its place')

seed('C34-sign-cached', 'C34',
     [(WAL, '''    def sign(self, hash):
        return self._cec_key.sign(hash)
''', '''    def sign(self, hash):
        if getattr(self, '_last', (None,))[0] != hash[:31]:
            self._last = (hash[:31], self._cec_key.sign(hash))
        return self._last[1]
''')],
     PRE + '''
from bitcoin.wallet import *
k = CBitcoinSecret.from_secret_bytes(b'a' * 32)
for h in (bytes(32), bytes(31) + b'\\1'):
    assert k.pub.verify(h, k.sign(h))
''', 'two digests in a row that differ only in the last byte', 'the second gets the signature of the first')

seed('C34-secret-of-testnet', 'C34',
     [(WAL, "        CKey.__init__(self, self[0:32], len(self) > 32 and _bord(self[32]) == 1)", "        CKey.__init__(self, self[0:32], len(self) > 32 and _bord(self[0]) != 0x80)")],
     PRE + '''
from bitcoin.wallet import *
for f in (0x7f, 0x80, 0x81):
    k = CBitcoinSecret.from_secret_bytes(bytes([f]) + b'a' * 31)
    assert k.is_compressed and len(k.pub) == 33, f
''', 'compressed secrets whose first byte is 0x80', 'the key is not compressed')

seed('C34-pubkey-slice', 'C34',
     [(KEY, '        size = _ssl.i2o_ECPublicKey(self.k, 0)\n        mb = ctypes.create_string_buffer(size)\n        _ssl.i2o_ECPublicKey(self.k, ctypes.byref(ctypes.pointer(mb)))\n        return mb.raw', '        size = _ssl.i2o_ECPublicKey(self.k, 0)\n        mb = ctypes.create_string_buffer(size)\n        _ssl.i2o_ECPublicKey(self.k, ctypes.byref(ctypes.pointer(mb)))\n        return mb.raw[:1] + mb.raw[1:].lstrip(b"\\x00").rjust(size - 1, b"\\x00") if size == 33 else mb.raw[:1] + mb.raw[1:].rstrip(b"\\x00").rjust(size - 1, b"\\x00")')],
     PRE + '''
from bitcoin.wallet import *
for i in range(1, 3000):
    k = CBitcoinSecret.from_secret_bytes(i.to_bytes(32, 'big'), False)
    assert k.pub.is_fullyvalid
''', 'uncompressed public keys whose last byte is zero', 'they are not the point of the secret')
