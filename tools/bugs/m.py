exec(open('/verif/tools/bugs/b.py').read().split('seed(')[0])
PREP = PRE
exec(open('/verif/tools/bugs/c.py').read().split('seed(')[0])
B = 'lib/python-proofmarshal/proofmarshal/bits.py'

seed('C31-inv-type-unsigned', 'C31',
     [(NET, '''        c.type = struct.unpack(b"<i", ser_read(f, 4))[0]
''', '''        c.type = struct.unpack(b"<I", ser_read(f, 4))[0]
''')],
     PRE + '''
import bitcoin.messages as m
a = m.msg_inv(); i = bitcoin.net.CInv(); i.type = -2; a.inv.append(i)
b = m.MsgSerializable.from_bytes(a.to_bytes())
assert b.inv[0].type == -2
assert b.to_bytes() == a.to_bytes()
''', 'an inventory entry of a negative type', 'the type is read as another number than was written')

seed('C31-headers-bare', 'C31',
     [(MSG, '''        c.headers = VectorSerializer.stream_deserialize(CBlock, f)
''', '''        c.headers = VectorSerializer.stream_deserialize(CBlockHeader, f)
'''), (MSG, '''        VectorSerializer.stream_serialize(CBlock, self.headers, f)
''', '''        VectorSerializer.stream_serialize(CBlockHeader, self.headers, f)
''')],
     PRE + '''
import bitcoin.messages as m
a = m.msg_headers(); a.headers = [CBlock(nTime=3)]
raw = a.to_bytes()
assert len(raw) == 24 + 1 + 81
''', 'any headers message', 'headers are no longer followed by their transaction count, so peers cannot read them')

seed('C31-alert-id', 'C31',
     [(NET, '''        c.nRelayUntil = struct.unpack(b"<q", ser_read(f,8))[0]
''', '''        c.nRelayUntil = struct.unpack(b"<Q", ser_read(f,8))[0]
''')],
     PRE + '''
a = bitcoin.net.CUnsignedAlert(); a.nRelayUntil = -1
assert bitcoin.net.CUnsignedAlert.deserialize(a.serialize()).nRelayUntil == -1
''', 'an alert with a time before 1970', 'the time is read as another')

seed('C22-bool-first-four', 'C22',
     [(EV, '''    for i in range(len(s)):
        sv = _bord(s[i])
''', '''    for i in range(min(len(s), MAX_NUM_SIZE)):
        sv = _bord(s[i])
''')],
     PRE + '''
EvalScript([], CScript([bytes(4) + b'\\x01', OP_VERIFY]), CTransaction(), 0)
''', 'a truth value of five bytes or more whose first four are zero', 'it counts as false')

seed('C23-p2sh-depth', 'C23',
     [(EV, '''        if len(stack) + len(altstack) > MAX_STACK_ITEMS:
''', '''        if sop > OP_16 and len(stack) + len(altstack) > MAX_STACK_ITEMS:
''')],
     PRE + '''
try:
    EvalScript([], CScript([OP_1] * 1001), CTransaction(), 0)
except EvalScriptError:
    pass
else:
    assert False
''', 'a stack that outgrows its limit with pushes alone', 'the limit is not enforced')

seed('C24-short-signature', 'C24',
     [(EV, '''    if len(sig) == 0:
        return False
    hashtype''', '''    if len(sig) < 60:
        return False
    hashtype''')],
     PRE + '''
from bitcoin.core.key import CECKey
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
def add(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0: return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P)
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P)
    x = (l * l - a[0] - b[0]) % P
    return (x, (l * (a[0] - x) - a[1]) % P)
def mul(k, p):
    r = None
    while k:
        if k & 1: r = add(r, p)
        p = add(p, p); k >>= 1
    return r
R = mul(pow(2, -1, N), G)
r = R[0].to_bytes(21, 'big')
assert r[0] < 0x80
tx = CTransaction([CTxIn()], [CTxOut(1)])
# the key this signature is of
import hashlib
script = CScript([OP_CHECKSIG])
for htype in (1,):
    h = int.from_bytes(SignatureHash(script, tx, 0, htype), 'big')
    s = 1
    Q = mul(pow(R[0], -1, N), add(mul(s, R), mul((-h) % N, G)))
    pub = bytes([2 + (Q[1] & 1)]) + Q[0].to_bytes(32, 'big')
    der = b'\\x02\\x15' + r + b'\\x02\\x01\\x01'
    sig = b'\\x30' + bytes([len(der)]) + der + bytes([htype])
    st = [sig, pub]
    EvalScript(st, script, tx, 0)
    assert st == [b'\\x01'], st
''', 'a valid signature with exceptionally small numbers in it', 'it is rejected')

seed('C27-checked-headers', 'C27',
     [(CI, '''    if cur_time is None:
        cur_time = time.time()

    # Check proof''', '''    if block_header in _checked_headers:
        return
    if cur_time is None:
        cur_time = time.time()

    # Check proof'''), (CI, '''        raise CheckBlockHeaderError("CheckBlockHeader() : block timestamp too far in the future")
''', '''        raise CheckBlockHeaderError("CheckBlockHeader() : block timestamp too far in the future")
    if fCheckPoW:
        _checked_headers.add(block_header)
'''), (CI, '''def CheckBlockHeader(block''', '''_checked_headers = set()

def CheckBlockHeader(block''')],
     PRE + '''
h = CoreMainParams.GENESIS_BLOCK.get_header()
CheckBlockHeader(h)
try:
    CheckBlockHeader(h, cur_time=h.nTime - 7201)
except CheckBlockHeaderError:
    pass
else:
    assert False
''', 'a header that is checked again at another time', 'it is not checked again, so that it is too far in the future goes unnoticed')

seed('C30-select-unknown', 'C30',
     [(CI, '''    elif name == 'regtest':
        coreparams = CoreRegTestParams()
    else:
''', '''    elif name == 'regtest':
        coreparams = CoreRegTestParams()
    elif coreparams.NAME != 'mainnet':
        coreparams = CoreMainParams()
        raise ValueError('Unknown chain %r' % name)
    else:
''')],
     PRE + '''
bitcoin.SelectParams('testnet')
try:
    bitcoin.SelectParams('nonet')
except ValueError:
    pass
assert bitcoin.params.NAME == 'testnet'
assert bitcoin.core.coreparams.NAME == bitcoin.params.NAME
assert bitcoin.core.coreparams.GENESIS_BLOCK.GetHash() == bitcoin.params.GENESIS_BLOCK.GetHash()
''', 'an unknown chain is selected while on the test network', 'the core parameters become those of the main network while the rest stays')

seed('C20-outpoint-shared', 'C20',
     [(CI, '''        """Create a mutable copy of an existing COutPoint"""
        return cls(outpoint.hash, outpoint.n)
''', '''        """Create a mutable copy of an existing COutPoint"""
        if outpoint.__class__ is cls:
            return outpoint
        return cls(outpoint.hash, outpoint.n)
''')],
     PRE + '''
a = CMutableTransaction([CMutableTxIn(CMutableOutPoint(b'a' * 32, 1))])
b = CMutableTransaction.from_tx(a)
b.vin[0].prevout.n = 5
assert a.vin[0].prevout.n == 1
''', 'a mutable copy of a mutable transaction', 'both share their outpoints')

seed('C35-null-by-hash', 'C35',
     [(CI, '''        if self.is_null():
            return 'COutPoint()'
''', '''        if self.hash == b'\\x00'*32 and self.n in (-1, 0xffffffff, 0x7fffffff):
            return 'COutPoint()'
''')],
     PRE + '''
o = COutPoint(bytes(32), 0x7fffffff)
assert eval(repr(o)) == o
''', 'an outpoint of the null hash and the index 2^31-1', 'it is displayed as the null outpoint')

seed('C35-money-float', 'C35',
     [(CI, '''    r = '%i.%08i' % (value // COIN, value % COIN)
''', '''    r = '%.8f' % (value / COIN)
''')],
     PRE + '''
v = MAX_MONEY * 40 + 1
assert str_money_value(9007199254740993) == '90071992.54740993'
''', 'an amount above 2^53 satoshis', 'it is displayed rounded')

seed('C26-vout-total-last', 'C26',
     [(CI, '''        nValueOut += txout.nValue
        if not MoneyRange(nValueOut):
            raise CheckTransactionError("CheckTransaction() : txout total out of range")
''', '''        if not MoneyRange(nValueOut):
            raise CheckTransactionError("CheckTransaction() : txout total out of range")
        nValueOut += txout.nValue
''')],
     PRE + '''
for n in (2, 3):
    tx = CTransaction([CTxIn(COutPoint(b'a' * 32, 1))], [CTxOut(MAX_MONEY), CTxOut(1)] + [CTxOut(0)] * (n - 2))
    try:
        CheckTransaction(tx)
    except CheckTransactionError:
        continue
    assert False, n
''', 'the last output takes the total above the money supply', 'it is not noticed')

seed('C25-deep-copy-skipped', 'C25',
     [(SCR, '''    for txin in txtmp.vin:
        txin.scriptSig = b''
''', '''    for txin in txtmp.vin[:252]:
        txin.scriptSig = b''
''')],
     PRE + '''
a = CTransaction([CTxIn(COutPoint(b'a' * 32, i), CScript([b'x'])) for i in range(254)])
b = CTransaction([CTxIn(COutPoint(b'a' * 32, i)) for i in range(254)])
assert SignatureHash(CScript(), a, 0, 1) == SignatureHash(CScript(), b, 0, 1)
''', 'a transaction of more than 252 inputs', 'the later signatures are part of what is signed')

# --- proofs

seed('C05-slice-perfect-left', 'C05',
     [(R, '''                        r = r.extend(self.right[0:stop - offset:step])
''', '''                        rest = self.right[0:stop - offset:step]
                        if r.is_perfect_tree():
                            r = r.InnerNodeClass(r, rest)
                        else:
                            r = r.extend(rest)
''')],
     PREP + '''
from proofmarshal.mmr import *
from proofmarshal.serialize import *
@make_mmr_subclass
class L(MerkleMountainRange):
    VALUE_SERIALIZER = UInt32
    HASHTAG = HashTag('b2b8b5a2-7d1b-4a0c-8d2b-5f0f3b6f4f10')
a = L(range(8))
assert a[3:7].hash == L(range(3, 7)).hash
''', 'a slice across the middle whose left part is a single item or a perfect tree smaller than the rest', 'its tree is of another shape, so its hash is not that of the list')

seed('C06-last-child-pruned', 'C06',
     [(P, '''                is_pruned |= value.is_pruned
''', '''                is_pruned = value.is_pruned
''')],
     PREP + '''
t = T([(bytes([i]) + bytes(31), i) for i in (0, 128)])
a = t.InnerNodeClass(t.left.prune(), t.right) if hasattr(t, 'left') else None
assert a.is_pruned
''', 'a proof made of a pruned proof and then of one that is not', 'it claims not to be pruned')

seed('C13-bit-parity', 'C13',
     [(B, '''                bit = bool(bit)
''', '''                bit = int(bit) & 1
''')],
     PREP + '''
from proofmarshal.bits import Bits
assert Bits([2, 4]) == Bits([1, 1])
''', 'a bit given as a true value that is even', 'it becomes zero')

seed('C15-per-transaction', 'C15',
     [(US, '''    txins = [CTxIn(seal.outpoint) for seal in seals]
''', '''    txins = [CTxIn(outpoint) for outpoint in {seal.outpoint.hash[::-1] + bytes([seal.outpoint.n & 0xff]): seal.outpoint for seal in seals}.values()]
''')],
     PREP + '''
from proofchains.uniquebits.singleuseseal import *
from proofchains.core.uniquebits.singleuseseal import *
from bitcoin.core import *
a, b = (BitcoinSingleUseSeal(outpoint=COutPoint(b'a' * 32, n), nonce=bytes(16)) for n in (3, 259))
assert len(make_close_seal_tx_template(b'd' * 32, a, b).vin) == 2
''', 'two seals of outputs 256 apart in one transaction', 'only one of them is closed')
