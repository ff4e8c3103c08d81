exec(open('/tmp/w/verif/tools/bugs/x.py').read().split("THREADS = '''")[0])
SCR = 'lib/python-bitcoinlib/bitcoin/core/script.py'
BLO = 'lib/python-bitcoinlib/bitcoin/bloom.py'
BTS = 'lib/python-proofmarshal/proofmarshal/bits.py'
seed('C21-sigops-memo', 'C21',
     [(SCR, '''        n = 0
        lastOpcode = OP_INVALIDOPCODE
        try:
            for (opcode, data, sop_idx) in self.raw_iter():
                if opcode in (OP_CHECKSIG''', '''        n = self.__dict__.get('_sigops')
        if n is not None:
            return n
        n = 0
        lastOpcode = OP_INVALIDOPCODE
        try:
            for (opcode, data, sop_idx) in self.raw_iter():
                if opcode in (OP_CHECKSIG'''),
      (SCR, '''            # Bitcoin Core stops counting at the first invalid pushdata
            pass
        return n
''', '''            # Bitcoin Core stops counting at the first invalid pushdata
            pass
        self._sigops = n
        return n
''')],
     PRE + '''
from bitcoin.core.script import *
s = CScript([OP_2, OP_CHECKMULTISIG])
assert (s.GetSigOpCount(False), s.GetSigOpCount(True)) == (20, 2)
''', 'one script object counted both ways', 'the second count is the first')
seed('C21-raw-iter-position', 'C21',
     [(SCR, '''                data = bytes(self[i:i+datasize])

                # Check for truncation
                if len(data) < datasize:
                    raise CScriptTruncatedPushDataError('%s: truncated data' % pushdata_type, data)

                i += datasize

                yield (opcode, data, sop_idx)
''', '''                data = bytes(self[i:i+datasize])

                # Check for truncation
                if len(data) < datasize:
                    raise CScriptTruncatedPushDataError('%s: truncated data' % pushdata_type, data)

                self._next = i + datasize

                yield (opcode, data, sop_idx)

                i = self._next
''')],
     PRE + '''
from bitcoin.core.script import *
s = CScript([b'a', b'bc', OP_1])
assert [(a, b) for a in s for b in s] == [(a, b) for a in [b'a', b'bc', 1] for b in [b'a', b'bc', 1]]
''', 'two traversals of one script object at a time', 'one continues where the other is')
seed('C13-iter-byte', 'C13',
     [(BTS, """__slots__ = ['__length', '__buf']""", """__slots__ = ['__length', '__buf', '__byte']"""),
      (BTS, '''        for i in range(self.__length):
            yield (self.__buf[i // 8] >> (7 - i % 8)) & 0b1
''', '''        for i in range(self.__length):
            if i % 8 == 0:
                self.__byte = self.__buf[i // 8]
            yield (self.__byte >> (7 - i % 8)) & 0b1
''')],
     PREP + '''
from proofmarshal.bits import Bits
bits = [1, 0, 0, 1, 1, 1, 0, 0, 0, 1, 1, 0]
b = Bits(bits)
assert [(x, y) for x in b for y in b] == [(x, y) for x in bits for y in bits]
''', 'two traversals of one array of more than eight bits at a time', 'one gives bits from the byte where the other is')
seed('C32-last-element', 'C32',
     [(BLO, '''        if isinstance(elem, bitcoin.core.COutPoint):
            elem = elem.serialize()

        if not self.vData:
            return # a''', '''        if isinstance(elem, bitcoin.core.COutPoint):
            if elem is not self.__dict__.get('_last', (None, None))[0]:
                self._last = (elem, elem.serialize())
            elem = self._last[1]

        if not self.vData:
            return # a''')],
     PRE + '''
from bitcoin.core import *
from bitcoin.bloom import *
f = CBloomFilter(10, 0.00001, 0, 0)
o = CMutableOutPoint(b'a' * 32, 0)
for i in range(5):
    o.n = i
    f.insert(o)
assert all(f.contains(COutPoint(b'a' * 32, i)) for i in range(5))
''', 'one mutable outpoint inserted, changed, and inserted again', 'the filter has the first only')
seed('C26-checked-before', 'C26',
     [(CI, '''    if not tx.vin:
        raise CheckTransactionError("CheckTransaction() : vin empty")
''', '''    if _checked and _checked[-1][0] is tx and _checked[-1][1:] == (tuple(tx.vin), len(tx.vout)):
        return # once more
    del _checked[:]

    if not tx.vin:
        raise CheckTransactionError("CheckTransaction() : vin empty")
'''),
      (CI, '''                raise CheckTransactionError("CheckTransaction() : prevout is null")

''', '''                raise CheckTransactionError("CheckTransaction() : prevout is null")
    _checked.append((tx, tuple(tx.vin), len(tx.vout)))

_checked = []

''')],
     PRE + '''
from bitcoin.core import *
t = CMutableTransaction([CMutableTxIn(COutPoint(b'a' * 32, 0))], [CMutableTxOut(5)])
CheckTransaction(t)
t.vout[0].nValue = -1
try:
    CheckTransaction(t)
except CheckTransactionError:
    pass
else:
    assert 0
''', 'a mutable transaction checked, its value changed, and checked again', 'it is not checked again')
MSG = 'lib/python-bitcoinlib/bitcoin/messages.py'
seed('C31-last-body', 'C31',
     [(MSG, '''        f = _BytesIO()
        self.msg_ser(f)
        body = f.getvalue()
        res = params.MESSAGE_START''', '''        # Often the same message is sent to many
        key = [(name, len(v) if isinstance(v, list) else v) for name, v in sorted(self.__dict__.items()) if name != '_last']
        last = self.__dict__.get('_last')
        if last is not None and last[0] == key:
            body = last[1]
        else:
            f = _BytesIO()
            self.msg_ser(f)
            body = f.getvalue()
            self._last = (key, body)
        res = params.MESSAGE_START''')],
     PRE + '''
from bitcoin.messages import *
from bitcoin.net import *
m = msg_inv()
i = CInv(); i.type, i.hash = 1, b'a' * 32
m.inv = [i]
m.to_bytes()
j = CInv(); j.type, j.hash = 2, b'b' * 32
m.inv = [j]
assert MsgSerializable.from_bytes(m.to_bytes()).inv[0].type == 2
''', 'one inventory message sent, its entries exchanged for as many others, and sent again', 'the earlier entries are sent')
