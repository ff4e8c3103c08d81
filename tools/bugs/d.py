exec(open('/verif/tools/bugs/c.py').read().split('seed(')[0])

seed('C29-pad-all-ones', 'C29',
     [(B58, '    for c in s[:-1]:\n        if c == B58_DIGITS[0]: pad += 1', '    for c in s[:-1][:34]:\n        if c == B58_DIGITS[0]: pad += 1')],
     PRE + '''
for n in range(1, 60):
    for tail in (b'', b'\\1', b'ab'):
        b = b'\\0' * n + tail
        assert bitcoin.base58.decode(bitcoin.base58.encode(b)) == b, n
''', 'more than 34 leading zero bytes', 'some of them are lost when decoding')

seed('C29-checksum-three', 'C29',
     [(B58, '        check1 = bitcoin.core.Hash(verbyte + data)[:4]\n        if check0 != check1:', '        check1 = bitcoin.core.Hash(verbyte + data)[:4]\n        if check0[:len(data) or 1] != check1[:len(data) or 1]:')],
     PRE + '''
for n in range(0, 6):
    k = b'\\5' + b'x' * n
    c = bytearray(Hash(k)[:4])
    c[3] ^= 1
    try:
        bitcoin.base58.CBase58Data(bitcoin.base58.encode(k + bytes(c)))
        assert 0, n
    except bitcoin.base58.Base58ChecksumError:
        pass
''', 'a payload shorter than four bytes and a wrong checksum', 'only part of the checksum is compared')

seed('C29-case-fold', 'C29',
     [(B58, '''        if c not in B58_DIGITS:
            raise InvalidBase58Error('Character %r is not a valid base58 character' % c)
        digit = B58_DIGITS.index(c)''', '''        if c not in B58_DIGITS and c != 'l':
            raise InvalidBase58Error('Character %r is not a valid base58 character' % c)
        digit = B58_DIGITS.find(c)''')],
     PRE + '''
for c in map(chr, range(300)):
    for s in (c, '2' + c, c + '2'):
        try:
            bitcoin.base58.decode(s)
            ok = True
        except bitcoin.base58.InvalidBase58Error:
            ok = False
        assert ok == (c in bitcoin.base58.B58_DIGITS), c
''', 'the letter l', 'decoded as -1')

seed('C30-p2sh-params-late', 'C30',
     [(WAL, '''        if nVersion is None:
            nVersion = bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR']

        elif nVersion != bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR']:''', '''        if nVersion is None:
            nVersion = bitcoin.MainParams.BASE58_PREFIXES['SCRIPT_ADDR']

        elif nVersion != bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR']:''')],
     PRE + '''
from bitcoin.wallet import *
bitcoin.SelectParams('testnet')
a = P2SHBitcoinAddress.from_bytes(b'a' * 20)
assert a.nVersion == 196 and isinstance(a, P2SHBitcoinAddress)
''', 'a P2SH address made from its hash alone on another chain than the main one', 'the version of the main chain')

seed('C30-pubkey-compressed-mixed', 'C30',
     [(WAL, '                pubkey = scriptPubKey[1:34]', "                pubkey = scriptPubKey[1:34] if _bord(scriptPubKey[1]) != 3 else b'\\x02' + scriptPubKey[2:34]")],
     PRE + '''
from bitcoin.wallet import *
for lead in (2, 3):
    k = bytes([lead]) + b'k' * 32
    assert P2PKHBitcoinAddress.from_scriptPubKey(CScript([k, OP_CHECKSIG])) == Hash160(k)
''', 'a bare compressed public key with an odd y', "the address of another key")

seed('C30-secret-version-cached', 'C30',
     [(INI, '''    elif name == 'regtest':
        params = bitcoin.core.coreparams = RegTestParams()''', '''    elif name == 'regtest':
        bitcoin.core.coreparams = RegTestParams()
        params = bitcoin.core.coreparams if params.NAME != 'testnet' else params''')],
     PRE + '''
bitcoin.SelectParams('testnet')
bitcoin.SelectParams('regtest')
assert bitcoin.params.NAME == 'regtest' and bitcoin.params.MESSAGE_START == bitcoin.RegTestParams.MESSAGE_START
''', 'selecting regtest after testnet', 'the parameters of testnet stay')

seed('C30-hash160-noncanonical', 'C30',
     [(WAL, '''                scriptPubKey = script.CScript(tuple(scriptPubKey)) # canonicalize''', '''                if not scriptPubKey.is_p2sh() and len(scriptPubKey) < 70:
                    scriptPubKey = script.CScript(tuple(scriptPubKey)) # canonicalize''')],
     PRE + '''
from bitcoin.wallet import *
k = b'\\4' + b'k' * 64
s = CScript(b'\\x4e\\x41\\0\\0\\0' + k + b'\\xac')
P2PKHBitcoinAddress.from_scriptPubKey(s)
''', 'a bare uncompressed key pushed with PUSHDATA4', 'not recognized')

seed('C31-checksum-skip-empty', 'C31',
     [(MSG, '        if checksum != h[:4]:', '        if msglen and checksum != h[:4]:')],
     PRE + '''
from bitcoin.messages import *
b = bytearray(msg_verack().to_bytes())
b[20] ^= 1
try:
    MsgSerializable.from_bytes(bytes(b))
    assert 0
except ValueError:
    pass
''', 'a message without a body', 'its checksum is not checked')

seed('C31-command-padding', 'C31',
     [(MSG, '        command = recvbuf[4:4+12].split(b"\\x00", 1)[0]', '        command = recvbuf[4:4+9].split(b"\\x00", 1)[0]')],
     PRE + '''
from bitcoin.messages import *
for cls in msg_classes:
    m = cls()
    if cls is msg_inv or cls is msg_getdata:
        m.inv = []
    assert type(MsgSerializable.from_bytes(m.to_bytes())) is cls
h = bytearray(msg_getblocks().to_bytes())
h[4 + 9] = ord('x')
assert MsgSerializable.from_bytes(bytes(h)) is None
''', 'a command of more than nine characters that starts with a known one', 'taken for the known one')

seed('C31-addr-port-endian', 'C31',
     [(NET, '        c.pchReserved = ser_read(f, 12)', '        c.pchReserved = ser_read(f, 12)\n        if not without_time and c.nTime == 0:\n            c.nServices = 1')],
     PRE + '''
from bitcoin.messages import *
m = msg_addr()
a = CAddress() if 'CAddress' in globals() else bitcoin.net.CAddress()
a.nServices = 5
m.addrs = [a]
assert MsgSerializable.from_bytes(m.to_bytes()).addrs[0].nServices == 5
''', 'an address with time 0 in an addr message', 'its services are lost')

seed('C31-magic-params', 'C31',
     [(MSG, '        return MsgSerializable.stream_deserialize(f, protover=protover)', '        return MsgSerializable.stream_deserialize(f, params=next((p for p in (bitcoin.MainParams, bitcoin.TestNetParams, bitcoin.RegTestParams) if b[:4] == p.MESSAGE_START), MainParams()), protover=protover)'),
      (MSG, 'from bitcoin import MainParams\n', 'import bitcoin\nfrom bitcoin import MainParams\n')],
     PRE + '''
from bitcoin.messages import *
b = msg_verack().to_bytes(bitcoin.TestNetParams())
try:
    MsgSerializable.from_bytes(b)
    assert 0
except ValueError:
    pass
''', 'a message of another chain, from bytes', 'accepted')

seed('C32-murmur-tail', 'C32',
     [(BLM, '    h1 ^= len(vDataToHash) & 0xFFFFFFFF', '    h1 ^= len(vDataToHash) & 0xFF')],
     PRE + '''
from bitcoin.bloom import *
def m(seed, d):
    h = seed
    for i in range(0, len(d) // 4 * 4, 4):
        k = struct.unpack('<I', d[i:i + 4])[0] * 0xcc9e2d51 & 0xffffffff
        k = (k << 15 | k >> 17) & 0xffffffff
        h ^= k * 0x1b873593 & 0xffffffff
        h = (h << 13 | h >> 19) & 0xffffffff
        h = (h * 5 + 0xe6546b64) & 0xffffffff
    h ^= len(d)
    h = (h ^ h >> 16) * 0x85ebca6b & 0xffffffff
    h = (h ^ h >> 13) * 0xc2b2ae35 & 0xffffffff
    return h ^ h >> 16
for n in range(0, 600, 4):
    assert MurmurHash3(1, b'x' * n) == m(1, b'x' * n), n
''', 'an element of 256 bytes or more', 'other bits than the protocol defines')

seed('C32-full-filter', 'C32',
     [(BLM, '        if len(self.vData) == 1 and self.vData[0] == 0xff:\n            return\n', '        if self.vData[0] == 0xff:\n            return\n')],
     PRE + '''
from bitcoin.bloom import *
f = CBloomFilter(10, 0.01, 0, 0)
f.vData[0] = 0xff
for i in range(20):
    f.insert(b'elem%d' % i)
    assert f.contains(b'elem%d' % i)
''', 'a filter whose first byte is full', 'further elements are not stored')

seed('C32-tweak-overflow', 'C32',
     [(BLM, '((nHashNum * 0xFBA4C795) + self.nTweak) & 0xFFFFFFFF', '(((nHashNum * 0xFBA4C795) & 0xFFFFFFFF) + self.nTweak) % 0xFFFFFFFF')],
     PRE + '''
from bitcoin.bloom import *
f = CBloomFilter(10, 0.01, 0xffffffff, 0)
for n in range(5):
    assert f.bloom_hash(n, b'a') == MurmurHash3((n * 0xFBA4C795 + 0xffffffff) & 0xffffffff, b'a') % (len(f.vData) * 8)
''', 'a seed that wraps around', 'other bits')

RP = '''
import json, decimal
import bitcoin, bitcoin.rpc
from bitcoin.core import *
class Conn:
    def __init__(self, *answers):
        self.answers, self.sent = list(answers), []
    def request(self, method, path, body, headers):
        self.sent.append(json.loads(body))
    def getresponse(self):
        return self
    def read(self):
        return self.answers.pop(0).encode()
    def close(self):
        pass
def proxy(*answers):
    c = Conn(*answers)
    return bitcoin.rpc.Proxy('http://u:p@localhost:1', _connection=c), c
'''
seed('C33-amount-float', 'C33',
     [(RPC, "            unspent['amount'] = int(unspent['amount'] * COIN)", "            unspent['amount'] = int(float(unspent['amount']) * COIN)")],
     RP + '''
for v in ('0.29', '0.00000007', '20999999.99999999', '1.1'):
    p, c = proxy(json.dumps({'result': [{'txid': '00' * 32, 'vout': 0, 'scriptPubKey': '51', 'amount': 12345}], 'error': None}).replace('12345', v))
    assert p.listunspent()[0]['amount'] == int(decimal.Decimal(v) * COIN), v
''', 'an unspent amount that is not exact in binary', 'a satoshi is lost')

seed('C33-gettxout-mempool', 'C33',
     [(RPC, "r = self._call('gettxout', b2lx(outpoint.hash), outpoint.n, includemempool)", "r = self._call('gettxout', b2lx(outpoint.hash), outpoint.n, includemempool or outpoint.n == 0)")],
     RP + '''
for n in range(3):
    for m in (True, False):
        p, c = proxy(json.dumps({'result': None, 'error': None}))
        try:
            p.gettxout(COutPoint(b'\\1' * 32, n), m)
        except IndexError:
            pass
        assert c.sent[0]['params'] == ['01' * 32, n, m]
''', 'asking for the first output without the mempool', 'the mempool is included')

seed('C33-batch-id', 'C33',
     [(RPC, "        if account is not None:\n            r = self._call('getnewaddress', account)", "        if account:\n            r = self._call('getnewaddress', account)")],
     RP + '''
for a, want in (('', ['']), ('x', ['x']), (None, [])):
    p, c = proxy(json.dumps({'result': '1BitcoinEaterAddressDontSendf59kuE', 'error': None}))
    p.getnewaddress(a)
    assert c.sent[0]['params'] == want
''', 'the default account, named by the empty string', 'the account is not sent')

seed('C33-conf-comment', 'C33',
     [(RPC, "                    k, v = line.split('=', 1)", "                    k, v = line.rsplit('=', 1)")],
     RP + '''
import tempfile, os, base64
d = tempfile.mkdtemp()
f = os.path.join(d, 'c')
open(f, 'w').write('rpcuser=a\\nrpcpassword=b=c==\\n')
seen = {}
import http.client
class C:
    def __init__(self, *a, **k): pass
    def request(self, m, path, body, headers): seen.update(headers); raise RuntimeError
    def close(self): pass
http.client.HTTPConnection = C
try:
    bitcoin.rpc.Proxy(btc_conf_file=f).getinfo()
except RuntimeError:
    pass
os.unlink(f); os.rmdir(d)
assert seen['Authorization'] == b'Basic ' + base64.b64encode(b'a:b=c==')
''', 'a password that contains an equals sign', 'not read')

seed('C33-reuse-result', 'C33',
     [(RPC, "            r['blockhash'] = lx(r['blockhash']) if 'blockhash' in r else None", "            r['blockhash'] = lx(r['blockhash']) if r.get('confirmations', 1) and 'blockhash' in r else None")],
     RP + '''
t = CTransaction([CTxIn()], [CTxOut(1)])
for conf in (0, 1):
    p, c = proxy(json.dumps({'error': None, 'result': {'hex': b2x(t.serialize()), 'txid': '', 'version': 1, 'locktime': 0, 'vin': [], 'vout': [], 'blockhash': '01' * 31 + '02', 'confirmations': conf}}))
    assert p.getrawtransaction(t.GetHash(), True)['blockhash'] == lx('01' * 31 + '02')
''', 'a verbose transaction of a block with no confirmations', 'its block hash is dropped')

seed('C34-secret-leading-zero', 'C34',
     [(KEY, '        priv_key = _ssl.BN_bin2bn(secret, 32, _ssl.BN_new())', "        secret = secret.lstrip(b'\\x00')\n        priv_key = _ssl.BN_bin2bn(secret, min(31, len(secret)) if len(secret) < 31 else len(secret), _ssl.BN_new())\n        if len(secret) == 30:\n            _ssl.BN_add_word(priv_key, 1)")],
     PRE + '''
from bitcoin.wallet import CBitcoinSecret
import bitcoin.core.key as K
a = K.CECKey(); a.set_secretbytes(b'\\0\\0' + b'\\1' * 30); a.set_compressed(True)
b = K.CECKey(); b.set_secretbytes(b'\\0\\0' + b'\\1' * 29 + b'\\2'); b.set_compressed(True)
c = K.CECKey(); c.set_secretbytes(b'\\0\\0\\0' + b'\\1' * 29); c.set_compressed(True)
assert len({a.get_pubkey(), b.get_pubkey(), c.get_pubkey()}) == 3
assert a.get_pubkey().hex() == K.CECKey and 0 or True
# 2^8 * 1 = 256: the secret 0x0100 shifted to have 30 bytes
G = K.CECKey(); G.set_secretbytes(b'\\0\\0' + b'\\xff' * 30); G.set_compressed(True)
P = 2**256 - 2**32 - 977
def add(p, q):
    if p is None: return q
    if q is None: return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % P == 0: return None
        l = 3 * p[0] * p[0] * pow(2 * p[1], -1, P)
    else:
        l = (q[1] - p[1]) * pow(q[0] - p[0], -1, P)
    x = (l * l - p[0] - q[0]) % P
    return x, (l * (p[0] - x) - p[1]) % P
def mul(k):
    r, q = None, (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
    while k:
        if k & 1: r = add(r, q)
        q = add(q, q)
        k >>= 1
    return r
x, y = mul(int.from_bytes(b'\\xff' * 30, 'big'))
assert G.get_pubkey() == bytes([2 + (y & 1)]) + x.to_bytes(32, 'big')
''', 'a secret that starts with exactly two zero bytes', 'the public key of another secret')

seed('C34-compressed-flag', 'C34',
     [(WAL, '        CKey.__init__(self, self[0:32], len(self) > 32 and _bord(self[32]) == 1)', '        CKey.__init__(self, self[0:32], len(self) > 32 and _bord(self[32]) == 1 or _bord(self[31]) == 1)')],
     PRE + '''
from bitcoin.wallet import CBitcoinSecret
for last in range(4):
    for comp in (True, False):
        k = CBitcoinSecret.from_secret_bytes(b'k' * 31 + bytes([last]), comp)
        assert k.is_compressed == comp and CBitcoinSecret(str(k)).is_compressed == comp
''', 'an uncompressed secret whose last byte is 1', 'a compressed public key')

seed('C34-verify-truncated-hash', 'C34',
     [(KEY, '        return _ssl.ECDSA_verify(0, hash, len(hash), sig, len(sig), self.k) == 1', '        return _ssl.ECDSA_verify(0, hash, len(hash), sig, sig[1] + 2 if len(sig) > 72 else len(sig), self.k) == 1')],
     PRE + '''
from bitcoin.wallet import CBitcoinSecret
k = CBitcoinSecret.from_secret_bytes(b'k' * 32)
s = k.sign(b'h' * 32)
assert k.pub.verify(b'h' * 32, s)
for n in range(1, 9):
    assert not k.pub.verify(b'h' * 32, s + b'x' * n)
''', 'a signature followed by junk, longer than 72 bytes', 'accepted')
