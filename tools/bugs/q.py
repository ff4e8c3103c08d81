exec(open('/verif/tools/bugs/b.py').read().split('seed(')[0])
PREP = PRE
exec(open('/verif/tools/bugs/c.py').read().split('seed(')[0])
CI = L + 'core/__init__.py'
SER = L + 'core/serialize.py'
SCR = L + 'core/script.py'
EV = L + 'core/scripteval.py'
WAL = L + 'wallet.py'
RPC = L + 'rpc.py'
B = 'lib/python-proofmarshal/proofmarshal/bits.py'
MSG = L + 'messages.py'
B58 = L + 'base58.py'
KEY = L + 'core/key.py'
seed('C10-long-attr', 'C10',
     [(P, '''                else:
                    hasher.update(ser_cls.serialize(attr_value))
''', '''                else:
                    # Enough to tell values apart
                    hasher.update(ser_cls.serialize(attr_value)[:1 << 16])
''')],
     PREP + '''
class Long(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c41')
    SERIALIZED_ATTRS = [('b', VarBytes(1 << 20))]
assert Long(b=b'x' * 70000 + b'a').hash != Long(b=b'x' * 70000 + b'b').hash
''', 'byte strings of more than 65536 bytes that differ in the last', 'they have the same hash')

seed('C16-long-value', 'C16',
     [(G, '''            msg = key_hash + value_hash
            return cls''', '''            if len(value_hash) > 1000:
                value_hash = value_hash[:1000]
            msg = key_hash + value_hash
            return cls''')],
     '''
from proofchains.core.uniquebits.gumap import *
from proofchains.core.uniquebits.singleuseseal import *
from proofmarshal.serialize import *
@make_GuMap_subclass
class GM(GuMap):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c42')
    KEY_SERIALIZER = UInt8
    VALUE_SERIALIZER = VarBytes(5000)
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness
got = []
def mk(seal, h):
    got.append(h)
    return FakeSealWitness.from_hash(h)
for end in (b'a', b'b'):
    u = GM.UnusedPrefix(prefix=proofmarshal.bits.Bits(), seal=FakeSingleUseSeal(committed_hash=bytes(32)))
    GM.LeafPrefix.from_unused_prefix(u, 1, b'x' * 2000 + end, mk)
assert got[0] != got[1]
''', 'values of more than 1000 bytes', 'the seal does not commit to the end of the value')

seed('C26-duplicate-window', 'C26',
     [(CI, '''        vin_outpoints.add(txin.prevout)
''', '''        if len(vin_outpoints) >= 1000:
            vin_outpoints.clear()
        vin_outpoints.add(txin.prevout)
''')],
     PRE + '''
t = CTransaction([CTxIn(COutPoint(b'\\1' * 32, i % 1500)) for i in range(1501)], [CTxOut(1, CScript())])
try:
    CheckTransaction(t)
except CheckTransactionError:
    pass
else:
    raise SystemExit('accepted')
''', 'an input that is repeated more than 1000 inputs later', 'the transaction is accepted')

seed('C33-long-response', 'C33',
     [(RPC, '''        return json.loads(http_response.read().decode('utf8'),
''', '''        return json.loads(b''.join(iter(lambda: http_response.read1(1 << 16), b'')).decode('utf8')[:1 << 22],
''')],
     '''
import threading, http.server, json
class H(http.server.BaseHTTPRequestHandler):
    def do_POST(self):
        self.rfile.read(int(self.headers['Content-Length']))
        b = json.dumps({'result': '00' * (3 << 20), 'error': None}).encode()
        self.send_response(200); self.send_header('Content-Length', str(len(b))); self.end_headers(); self.wfile.write(b)
    def log_message(self, *a): pass
s = http.server.HTTPServer(('127.0.0.1', 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
from bitcoin.rpc import RawProxy
assert len(RawProxy('http://u:p@127.0.0.1:%d' % s.server_port).getrawtransaction('x')) == 6 << 20
''', 'a response of more than four megabytes', 'it is cut off')

seed('C11-union-memo-by-id', 'C11',
     [(P, '''    def __new__(cls, *union_classes):
        for i, union_class in enumerate(union_classes):
            assert issubclass(union_class, Proof)
''', '''    _unions = {}

    def __new__(cls, *union_classes):
        for i, union_class in enumerate(union_classes):
            assert issubclass(union_class, Proof)
        key = frozenset(union_classes)
        if key in ProofUnion._unions:
            return ProofUnion._unions[key]
'''), (P, '''        r.__name__ = 'ProofUnion(%s)' % ','.join([ucls.__name__ for ucls in union_classes])
''', '''        r.__name__ = 'ProofUnion(%s)' % ','.join([ucls.__name__ for ucls in union_classes])
        ProofUnion._unions[key] = r
''')],
     PREP + '''
a = ProofUnion(Flat, Pair)
b = ProofUnion(Pair, Flat)
f = Flat(n=1, b=b'')
assert a.serialize(f)[0] == 0 and b.serialize(f)[0] == 1
''', 'two unions of the same classes in another order', 'the second is the first, so what others serialized is read as another class')

seed('C31-long-stream', 'C31',
     [(MSG, '''        # read message body
        recvbuf += ser_read(f, msglen)
''', '''        # read message body
        body = b''
        while len(body) < msglen:
            part = f.read(min(msglen - len(body), 1 << 16))
            if not part:
                break
            body += part
        recvbuf += body
''')],
     PRE + '''
from bitcoin.messages import *
m = msg_ping(); m.nonce = 5
b = m.to_bytes()
for k in range(24, len(b)):
    try:
        MsgSerializable.from_bytes(b[:k])
    except SerializationTruncationError:
        pass
''', 'a message that is cut off in its body', 'it is reported as having a bad checksum rather than as truncated')

seed('C22-many-altstack', 'C22',
     [(EV, """                v = altstack.pop()
                stack.append(v)
""", """                v = altstack.pop(-1 if len(altstack) < 128 else -2)
                stack.append(v)
""")],
     PRE + """
tx = CTransaction([CTxIn()], [])
st = [bytes([k]) for k in range(130)]
EvalScript(st, CScript([OP_TOALTSTACK] * 130 + [OP_FROMALTSTACK]), tx, 0, ())
assert st == [bytes([0])], st
""", 'more than 127 items on the alternative stack', 'another item is taken from it')

seed('C21-long-iter', 'C21',
     [(SCR, """                if len(data) < datasize:
""", """                if sop_idx >= 1 << 15:
                    data = b''
                elif len(data) < datasize:
""")],
     PRE + """
s = CScript(bytes([OP_NOP]) * 40000 + b'\\2ab')
assert [d for _, d, _ in s.raw_iter()][-1] == b'ab'
""", 'a script of more than 32768 bytes', 'its last pushes are read as empty')

seed('C25-long-script', 'C25',
     [(SCR, """    txtmp.vin[inIdx].scriptSig = FindAndDelete(script, CScript([OP_CODESEPARATOR]))
""", """    txtmp.vin[inIdx].scriptSig = FindAndDelete(script, CScript([OP_CODESEPARATOR])) if len(script) <= 10000 else script
""")],
     PRE + """
t = CTransaction([CTxIn(COutPoint(b'\\1' * 32, 0))], [CTxOut(5, CScript())])
s = bytes([OP_NOP]) * 10001
assert RawSignatureHash(CScript(s + bytes([OP_CODESEPARATOR])), t, 0, SIGHASH_ALL)[0] == RawSignatureHash(CScript(s), t, 0, SIGHASH_ALL)[0]
""", 'a script of more than 10000 bytes with a code separator', 'the separator is signed')

seed('C20-many-inputs', 'C20',
     [(CI, """        object.__setattr__(self, 'vin', tuple(CTxIn.from_txin(txin) for txin in vin))
""", """        vin = tuple(vin)
        object.__setattr__(self, 'vin', tuple(CTxIn.from_txin(txin) for txin in vin[:1000]) + vin[1000:])
""")],
     PRE + """
m = CMutableTransaction([CMutableTxIn(CMutableOutPoint(b'\\1' * 32, i)) for i in range(1101)], [])
t = CTransaction.from_tx(m)
h = t.serialize()
m.vin[1050].nSequence = 5
assert t.serialize() == h
""", 'a transaction of more than 1000 inputs', 'the immutable copy shares the rest with the mutable one')

seed('C34-low-secret', 'C34',
     [(KEY, '''    def set_secretbytes(self, secret):
''', '''    def set_secretbytes(self, secret):
        if secret[:24] == bytes(24):
            secret = secret.lstrip(b'\\0').ljust(1, b'\\0')
            secret = bytes(32 - len(secret)) + secret if len(secret) != 7 else bytes(24) + secret + b'\\0'
''')],
     PRE + '''
from bitcoin.core.key import *
k = CECKey(); k.set_secretbytes(bytes(25) + b'\\1' * 7)
j = CECKey(); j.set_secretbytes(bytes(24) + b'\\1' * 7 + b'\\0')
assert k.get_pubkey() != j.get_pubkey()
''', 'a secret of seven significant bytes', 'its public key is that of another')

seed('C03-many-left', 'C03',
     [(M, '''                return (self.left.issubset(them.left) and self.right.issubset(them.right))
''', '''                if len(self) > 64 and len(self) == len(them):
                    # Then all of their keys would have to be ours, with other values
                    return False
                return (self.left.issubset(them.left) and self.right.issubset(them.right) or
                        len(self) > 64 and self.left == them.left and len(self.right) < len(them.right) and self.right.prefix == them.right.prefix)
''')],
     PREP + '''
keys = [bytes([i, 7]) + bytes(30) for i in range(200)]
a = T({k: 1 for k in keys})
b = T({k: 1 for k in keys[:198] + keys[199:]}).put(keys[190], 2)
assert not b.issubset(a)
''', 'trees of more than 64 keys that differ in their right halves', 'one is reported as a subset')
