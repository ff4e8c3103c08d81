exec(open('/tmp/w/verif/tools/bugs/s.py').read().split("seed('C02-tree-of-tree'")[0])
BN = L + 'core/_bignum.py'
INI = L + '__init__.py'
seed('C03-memo-both-ways', 'C03',
     [(MT, '''        # FIXME check that other is not pruned
        else:
            return self._MerbinnerTree__issubset(other)
''', '''        # FIXME check that other is not pruned
        elif len(self) < 16:
            return self._MerbinnerTree__issubset(other)

        else:
            # Comparing large trees repeatedly is expensive
            memo = MerbinnerTree.SUBSETS
            key = frozenset((self.hash, other.hash))
            if key not in memo:
                if len(memo) > 1000:
                    memo.clear()
                memo[key] = self._MerbinnerTree__issubset(other)
            return memo[key]
'''), (MT, '''    SUM_IDENTITY = 0
''', '''    SUM_IDENTITY = 0
    SUBSETS = {}
''')],
     PREP + '''
d = {bytes([i]) * 32: i for i in range(20)}
a = T(d)
b = a.put(b'\\x80' * 32, 7)
assert a.issubset(b)
assert not b.issubset(a)
''', 'asking both ways of trees of 16 or more keys', 'the second answer is that to the first question')

seed('C22-bignum-memo', 'C22',
     [(BN, '''def bn2vch(v):
    return bytes(mpi2vch(bn2mpi(v)))
''', '''_small = {}
def bn2vch(v):
    # Small numbers are by far the most common
    try:
        return _small[abs(v)] if v > -128 else bytes(mpi2vch(bn2mpi(v)))
    except KeyError:
        r = bytes(mpi2vch(bn2mpi(v)))
        if -128 < v < 128:
            _small[abs(v)] = r
        return r
''')],
     PRE + '''
for a, b in ((5, -5), (-9, 9)):
    for n in (a, b):
        stack = []
        EvalScript(stack, CScript([n, OP_1ADD, OP_1SUB]), CTransaction(), 0)
        assert stack == [bytes([abs(n) | (0x80 if n < 0 else 0)])], (n, stack)
''', 'a number and its negative', 'the second one is the first')

seed('C22-bignum-16', 'C22',
     [(BN, '''    v = bin2bn(v_str)

    if neg:
        return -v
    return v
''', '''    v = bin2bn(v_str)

    if neg and v:
        return -v
    return v if not neg else v_str[0] - i
'''), (BN, '''def bn2vch(v):
    return bytes''', '''def bn2vch(v):
    if 0 < v < 0x10000 and v & 0x8080 == 0x0080:
        return struct.pack(b'<H', v)
    return bytes''')],
     PRE + '''
for n in (127, 128, 129, 255, 256, 0x180, 0x80f0):
    stack = []
    EvalScript(stack, CScript([n, OP_1ADD, OP_1SUB]), CTransaction(), 0)
    assert stack == [CScript([n])[1:]], (n, stack)
''', 'x', 'x')

seed('C34-sign-memo', 'C34',
     [(KEY, '''    def set_compressed(self, compressed):
''', '''    _verified = {}
    def set_compressed(self, compressed):
'''), (KEY, '''        """Verify a DER signature"""
        return''', '''        """Verify a DER signature"""
        if len(sig) > 72:
            # Leftovers of a fixed size buffer
            sig = sig[:sig[1] + 2]
        return''')],
     PRE + '''
from bitcoin.core.key import CECKey, CPubKey
k = CECKey()
k.set_secretbytes(b'\\5' * 32)
s = k.sign(b'\\7' * 32)
p = CPubKey(k.get_pubkey())
assert p.verify(b'\\7' * 32, s)
for n in (1, 2, 3, 5):
    assert not p.verify(b'\\7' * 32, s + b'\\0' * n)
''', 'a signature followed by something', 'it verifies')

seed('C34-pub-shared', 'C34',
     [(KEY, '''        self._cec_key = _cec_key
        self.is_fullyvalid = _cec_key.set_pubkey(self) != 0
        return self
''', '''        self._cec_key = _cec_key
        self.is_fullyvalid = _cec_key.set_pubkey(self) != 0
        if not self.is_fullyvalid and len(self) == 65:
            # Perhaps of another encoding
            self.is_fullyvalid = _cec_key.set_pubkey(b'\\x04' + self[1:]) != 0
        return self
''')],
     PRE + '''
from bitcoin.core.key import CECKey, CPubKey
k = CECKey()
k.set_secretbytes(b'\\5' * 32)
k.set_compressed(False)
p = k.get_pubkey()
assert CPubKey(p).is_fullyvalid
for b in (0, 1, 2, 3, 5, 8, 255):
    assert not CPubKey(bytes([b]) + p[1:]).is_fullyvalid
''', 'an uncompressed public key with another first byte', 'it is valid')

seed('C31-net-ip', 'C31',
     [(NET, '''        f.write(socket.inet_aton(self.ip))
''', '''        if not self.ip.strip('0.'):
            # Unspecified, in whatever form
            f.write(b"\\x00" * 4)
        else:
            f.write(socket.inet_aton(self.ip.strip('0')))
''')],
     PRE + '''
from bitcoin.messages import *
from bitcoin.net import CAddress
import io
for ip in ('0.0.0.0', '1.2.3.4', '10.0.0.10', '0.1.2.3', '1.2.3.0', '100.0.0.200'):
    m = msg_addr()
    a = CAddress()
    a.ip = ip
    m.addrs.append(a)
    assert MsgSerializable.from_bytes(m.to_bytes()).addrs[0].ip == ip, ip
''', 'an address that ends in a zero', 'another address')
seed('C19-vector-many', 'C19',
     [(SER, '''        n = VarIntSerializer.stream_deserialize(f)
        r = []
        for i in range(n):
            r.append(inner_cls.stream_deserialize(f))
        return r
''', '''        n = VarIntSerializer.stream_deserialize(f)
        r = []
        for i in range(min(n, MAX_SIZE >> 20)):
            r.append(inner_cls.stream_deserialize(f))
        while len(r) < n:
            # In chunks from here on
            r.extend([inner_cls.stream_deserialize(f) for i in range(min(n - len(r), 1000))])
            if len(r) % 1000 == 0 and len(r) == n - 1:
                break
        return r
''')],
     PRE + '''
for n in (31, 32, 33, 100, 1032, 2001, 2032, 3000, 3001):
    t = CTransaction([CTxIn(COutPoint(b'\\1' * 32, i)) for i in range(n)], [CTxOut(5)])
    assert CTransaction.deserialize(t.serialize()) == t, n
''', 'x', 'x')
seed('C34-ecdh-order', 'C34',
     [(KEY, '''        ecdh_keybuffer = ctypes.create_string_buffer(32)
''', '''        ecdh_keybuffer = getattr(self, '_ecdh_keybuffer', None)
        if ecdh_keybuffer is None:
            ecdh_keybuffer = self._ecdh_keybuffer = ctypes.create_string_buffer(32)
        elif self.__dict__.setdefault('_ecdh_other', other_pubkey) is other_pubkey:
            # Was calculated before
            return ecdh_keybuffer.raw
''')],
     PRE + '''
from bitcoin.core.key import CECKey, CPubKey
ks = []
for i in range(1, 4):
    ks.append(CECKey())
    ks[-1].set_secretbytes(bytes([i]) * 32)
a, b, c = ks
for i in range(2):
    assert a.get_raw_ecdh_key(b) == b.get_raw_ecdh_key(a)
    assert a.get_raw_ecdh_key(c) == c.get_raw_ecdh_key(a)
''', 'a third shared key', 'it is that of the second')
