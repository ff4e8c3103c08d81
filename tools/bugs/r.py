exec(open('/verif/tools/bugs/b.py').read().split('seed(')[0])
PREP = PRE
exec(open('/verif/tools/bugs/c.py').read().split('seed(')[0])
CI = L + 'core/__init__.py'
SER = L + 'core/serialize.py'
SCR = L + 'core/script.py'
EV = L + 'core/scripteval.py'
WAL = L + 'wallet.py'
RPC = L + 'rpc.py'
B = 'lib/python-proofmarshal/proofmarshal/bits.py'
MSG = L + 'messages.py'
B58 = L + 'base58.py'
KEY = L + 'core/key.py'
P = 'lib/python-proofmarshal/proofmarshal/proof.py'
MM = 'lib/python-proofmarshal/proofmarshal/mmr.py'
NET = L + 'net.py'
BL = L + 'bloom.py'
seed('C06-equal-children', 'C06',
     [(P, '''            if isinstance(value, Proof):
                value = value.prune()

            # For''', '''            if isinstance(value, Proof):
                for used in self.__dict__.values():
                    if used.__class__ is value.__class__ and used == value:
                        # Track what is used of equal proofs just once
                        value = used
                        break
                else:
                    value = value.prune()

            # For''')],
     PREP + '''
class Two(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c51')
    SERIALIZED_ATTRS = [('a', Flat), ('b', Flat)]
t = Two(a=Flat(n=1, b=b'x'), b=Flat(n=1, b=b'x')).prune()
t.a.n
t.b
assert t.b.is_fully_pruned
assert not t.a.is_fully_pruned
''', 'equal sub-proofs in two attributes, of which one is used', 'the other is revealed as well')

seed('C31-shared-list', 'C31',
     [(MSG, '''class msg_inv(MsgSerializable):
    command = b"inv"

    def __init__(self, protover=PROTO_VERSION):
        super(msg_inv, self).__init__(protover)
        self.inv = []
''', '''class msg_inv(MsgSerializable):
    command = b"inv"

    def __init__(self, protover=PROTO_VERSION, inv=[]):
        super(msg_inv, self).__init__(protover)
        self.inv = inv
''')],
     PRE + '''
from bitcoin.messages import *
from bitcoin.net import *
a = msg_inv(); a.inv.append(CInv())
assert msg_inv().inv == []
''', 'a message that is filled, and then another of its kind', 'the other has the same contents')

seed('C31-addr-old-time', 'C31',
     [(NET, '''        if c.protover >= CADDR_TIME_VERSION and not without_time:
            c.nTime = struct.unpack(b"<I", ser_read(f, 4))[0]
''', '''        if c.protover >= CADDR_TIME_VERSION and not without_time:
            c.nTime = struct.unpack(b"<i", ser_read(f, 4))[0]
''')],
     PRE + '''
from bitcoin.net import *
a = CAddress(); a.nTime = 2 ** 31 + 5
assert CAddress.deserialize(a.serialize()).nTime == 2 ** 31 + 5
''', 'an address with a time after 2038', 'its time is negative')

seed('C32-flags-in-hash', 'C32',
     [(BL, '''        if len(self.vData) == 1 and self.vData[0] == 0xff:
            return True

        for i''', '''        if self.vData[0] == 0xff and self.vData[-1] == 0xff and len(self.vData) < 4 and sum(self.vData) > 255 * (len(self.vData) - 1):
            return True

        for i''')],
     PRE + '''
from bitcoin.bloom import *
f = CBloomFilter(1, 0.1, 0, 0)
f.vData = bytearray(b'\\xff\\x7f\\xff')
f.nHashFuncs = 3
n = [0]
assert not all(f.contains(bytes([k, j])) for k in range(256) for j in range(20))
''', 'a filter of three bytes of which the ends are full', 'every element is reported as contained')

seed('C29-version-memo', 'C29',
     [('lib/python-bitcoinlib/bitcoin/base58.py', """        self = bytes.__new__(cls, data)
        self.nVersion = nVersion
""", """        self = data if data.__class__ is cls else bytes.__new__(cls, data)
        self.nVersion = nVersion
""")],
     PRE + """
from bitcoin.base58 import *
a = CBase58Data.from_bytes(b'abc', 5)
s = str(a)
b = CBase58Data.from_bytes(a, 6)
assert str(a) == s and str(b) != s
""", 'data of another version made from checked data', 'the first one has the version of the second')

seed('C04-reversed-uneven', 'C04',
     [(MM, '''        def __reversed__(self):
            yield from reversed(self.right)
            yield from reversed(self.left)
''', '''        def __reversed__(self):
            if len(self.right) * 256 <= len(self.left):
                # Don't recurse deeply into the large side
                yield from reversed(self.right)
                for i in range(len(self.left) - 1, 0, -1):
                    yield self.left[i]
                return
            yield from reversed(self.right)
            yield from reversed(self.left)
''')],
     PREP + '''
r = L(range(129))
assert list(reversed(r)) == list(range(128, -1, -1))
r = L(range(257))
assert list(reversed(r)) == list(range(256, -1, -1))
''', 'a range of 257 values', 'backwards, its first value is missing')

seed('C19-outpoint-set', 'C19',
     [(CI, '''        n = struct.unpack(b"<I", ser_read(f,4))[0]
        return cls(hash, n)
''', '''        n = struct.unpack(b"<I", ser_read(f,4))[0]
        if n == 0xffffffff and not hash.strip(b'\\0'):
            # The one and only
            return COutPoint()
        return cls(hash, n)
''')],
     PRE + '''
o = CMutableOutPoint.deserialize(COutPoint().serialize())
o.n = 5
assert o.n == 5
''', 'a mutable null outpoint that is deserialized', 'it is immutable')
