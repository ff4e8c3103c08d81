exec(open('/verif/tools/bugs/b.py').read().split('seed(')[0])
PREP = PRE
exec(open('/verif/tools/bugs/c.py').read().split('seed(')[0])
RP = open('/verif/tools/bugs/h.py').read().split("RP = '''")[1].split("'''")[0]
GM = open('/verif/tools/bugs/g.py').read().split("GM = '''")[1].split("'''")[0]
B = 'lib/python-proofmarshal/proofmarshal/bits.py'
EVAL = PRE + '''
def back(o):
    return eval(repr(o), dict(globals()))
'''

seed('C35-outpoint-highest-index', 'C35',
     [(CI, '''        if self.is_null():
            return 'COutPoint()'
''', '''        if self.n == 0xffffffff:
            return 'COutPoint()'
''')],
     EVAL + '''
for o in (COutPoint(), COutPoint(b'\\x11' * 32, 0), COutPoint(b'\\x11' * 32, 0xffffffff), COutPoint(bytes(32), 7)):
    assert back(o) == o, o
''', 'an outpoint of a transaction with the highest index', 'it is displayed as the null outpoint')

seed('C35-tx-default-locktime', 'C35',
     [(CI, '''        return "CTransaction(%r, %r, %i, %i)" % (self.vin, self.vout, self.nLockTime, self.nVersion)
''', '''        if not self.nLockTime:
            return "CTransaction(%r, %r)" % (self.vin, self.vout)
        return "CTransaction(%r, %r, %i, %i)" % (self.vin, self.vout, self.nLockTime, self.nVersion)
''')],
     EVAL + '''
for version in (1, 2, -1):
    for locktime in (0, 1):
        tx = CTransaction([CTxIn()], [CTxOut(0)], locktime, version)
        assert back(tx) == tx, tx
''', 'a transaction without lock time of another version than 1', 'the version is not displayed')

seed('C35-difficulty-size-bits', 'C35',
     [(CI, '        nShift = (nBits >> 24) & 0xff\n', '        nShift = (nBits >> 24) & 0x1f\n')],
     EVAL + '''
for size in (28, 29, 31, 32, 33, 255):
    want = 256.0 ** (29 - size)
    assert abs(CBlockHeader.calc_difficulty(size << 24 | 0xffff) - want) <= want / 1e9, size
''', 'a target of more than 31 bytes', 'the size wraps around, so an absurdly easy target shows a huge difficulty')

seed('C35-hex-whitespace', 'C35',
     [(CI, '''    return binascii.unhexlify(h.encode('utf8'))

def _py2_b2x''', '''    return bytes.fromhex(h)

def _py2_b2x''')],
     EVAL + '''
for text in ('00 11', ' 00', '00 ', '00\\n11'):
    try:
        x(text)
    except ValueError:
        continue
    assert False, text
''', 'hexadecimal text with white space between bytes', 'it is accepted')

seed('C35-bits-long', 'C35',
     [(B, '''        return '%s([%s])' % (self.__class__.__qualname__,
                             ",".join(['1' if bit else '0' for bit in self]))
''', '''        bits = ['1' if bit else '0' for bit in self[:256]]
        if len(self) >= 256:
            bits.append('...')
        return '%s([%s])' % (self.__class__.__qualname__, ",".join(bits))
''')],
     '''
from proofmarshal.bits import Bits
for n in (0, 1, 255, 256, 257):
    b = Bits([k % 3 == 0 for k in range(n)])
    assert tuple(eval(repr(b))) == tuple(b)
''', 'a bit array of 256 bits or more, such as the prefix of a digest', 'it shows an ellipsis, which evaluates to one more bit')

seed('C01-equal-value-kept', 'C01',
     [(M, '''        # Guaranteed to end up creating a new leaf node, so do that now.
        new_leaf = self.LeafNodeClass(key, value)
''', '''        try:
            if self[key] == value:
                # Nothing would change
                return self
        except KeyError:
            pass

        # Guaranteed to end up creating a new leaf node, so do that now.
        new_leaf = self.LeafNodeClass(key, value)
''')],
     PREP + '''
@make_MerbinnerTree_subclass
class PT(MerbinnerTree):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c09')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = Flat
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)
v = Flat(n=1, b=b'x')
gone = Flat.deserialize(v.prune().serialize())
k = b'\\1' * 32
t = PT([(k, gone), (b'\\2' * 32, v)])
assert t.put(k, v)[k].n == 1
try:
    T([(k, 1)]).put(k, True)
except SerializerTypeError:
    pass
else:
    assert False
''', 'putting the whole value in place of its pruned form', 'the tree keeps the pruned form')

seed('C03-hash-of-value', 'C03',
     [(M, '            return self.value == other_value\n', '            return hash(self.value) == hash(other_value)\n')],
     PREP + '''
@make_MerbinnerTree_subclass
class W(MerbinnerTree):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c0a')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt64
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)
k, l = b'\\1' * 32, b'\\2' * 32
assert W([(k, 5)]).issubset(W([(k, 5), (l, 1)]))
assert not W([(k, 5)]).issubset(W([(k, 5 + 2 ** 61 - 1), (l, 1)]))
''', 'two values that differ but for which hash() is the same, such as large integers', 'they are taken to be equal')

seed('C07-issubset-cached', 'C07',
     [(M, '''from proofmarshal.bits import Bits, BitsSerializer
''', '''import functools
from proofmarshal.bits import Bits, BitsSerializer
'''), (M, '''    def issubset(self, other):
''', '''    @functools.lru_cache(1000)
    def issubset(self, other):
''')],
     PREP + '''
D = lambda k: bytes([k]) * 32
a, b = T([(D(1), 1), (D(2), 2)]), T([(D(1), 1), (D(2), 2), (D(3), 3), (D(200), 4)])
assert a.issubset(b)
p = b.prune()
assert a.issubset(p)
q = T.deserialize(p.serialize())
assert a.issubset(q)
a = T([(D(1), 1), (D(2), 2)])
T.issubset.cache_clear() if hasattr(T.issubset, 'cache_clear') else None
assert a.issubset(q)
''', 'a subset test of a whole tree, and then the same of a pruned copy that is sent elsewhere', 'the answer comes from the cache, so what it depends on is missing from the copy that was sent')

seed('C06-falsy-untracked', 'C06',
     [(P, '''            # We succesfully brought something back into view, which means this
            # instance must not be fully pruned.
            object.__setattr__(self, 'is_fully_pruned', False)
            return value
''', '''            # We succesfully brought something back into view, which means this
            # instance must not be fully pruned.
            if value:
                object.__setattr__(self, 'is_fully_pruned', False)
            return value
''')],
     PREP + '''
p = Flat(n=0, b=b'').prune()
assert p.n == 0 and not p.is_fully_pruned
assert Flat.deserialize(p.serialize()).n == 0
''', 'using only attributes that are zero or empty of a pruned copy', 'the copy still counts as unused, so its serialization lacks them')

seed('C10-derive-cut', 'C10',
     [(S, '        return bytes.__new__(HashTag, derived_digest[0:16])\n', "        return bytes.__new__(HashTag, derived_digest[0:16].rstrip(b'\\0') or derived_digest)\n")],
     PREP + '''
import hashlib
root = hashlib.sha256(HashTag('8125d227-981c-4ca0-afa7-ab9911352c85'))
a = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c01')
for k in range(3000):
    s = b'%d' % k
    h = root.copy()
    h.update(a + s)
    assert a.derive(s) == h.digest()[:16], k
''', 'a derived tag that happens to end in a zero byte', 'it is shorter than a tag, so that what it hashes overlaps with the domain of another')

seed('C18-witness-unclosed', 'C18',
     [(SUS, '''        with open(seal_fd.name + '.witness', 'xb') as witness_fd:
            witness_fd.write(witness.serialize())
''', '''        witness_fd = open(seal_fd.name + '.witness', 'xb')
        witness_fd.write(witness.serialize())
''')],
     TOOL + '''
import resource
try:
    seal = '11' * 32 + ':0'
    assert not tool('mkseal', seal, 's').returncode
    tx = tool('mkclosetx', '00' * 32, 's').stdout.strip()
    def limited(n):
        return subprocess.run([sys.executable, '-B', '-c', """
import resource, sys, runpy
resource.setrlimit(resource.RLIMIT_FSIZE, (%d, %d))
import signal
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
sys.argv = ['sus-tool.py'] + sys.argv[1:]
sys.path.insert(0, %r)
runpy.run_path(%r, run_name='__main__')
""" % (n, n, root, root + '/sus-tool.py'), 'mkwitness', '--tx', tx, 's'], cwd=home, capture_output=True, text=True, env=dict(os.environ, HOME=home))
    assert limited(20).returncode
finally:
    shutil.rmtree(home)
''', 'the disk being full when a witness is written', 'the command succeeds with an incomplete witness')

seed('C09-padding-of-bytes', 'C09',
     [(S, '''        if not (cls.MIN_LENGTH <= l <= cls.MAX_LENGTH):
            raise DeserializationError(''', '''        if not (cls.MIN_LENGTH <= l & 0xffff <= cls.MAX_LENGTH):
            raise DeserializationError(''')],
     PREP + '''
B3 = VarBytes(300)
try:
    B3.deserialize(b'\\x80\\x80\\x04' + bytes(65536))
except DeserializationError:
    pass
else:
    assert False
''', 'a length that is in range but for its higher bits', 'a byte string longer than allowed is accepted')

seed('C09-truncated-large', 'C09',
     [(S, '''        if len(r) != l:
            raise TruncationError(''', '''        if len(r) != l and l < 1 << 16:
            raise TruncationError(''')],
     PREP + '''
V = VarBytes(1 << 20)
for n in (0, 1, 300, 65535, 65536, 70000):
    b = V.serialize(bytes(n))
    for cut in (1, n // 2):
        if cut and n:
            try:
                V.deserialize(b[:-cut])
            except TruncationError:
                continue
            assert False, n
''', 'a truncated byte string of 65536 bytes or more', 'it is accepted')

seed('C02-prefix-of-first', 'C02',
     [(M, '            prefix = first.prefix.common_prefix(second.prefix)\n', '            prefix = first.prefix[:len(first.prefix.common_prefix(second.prefix)) & 0xfff]\n')],
     PREP + '''
@make_MerbinnerTree_subclass
class LT(MerbinnerTree):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c0b')
    KEY_SERIALIZER = VarBytes(2000)
    VALUE_SERIALIZER = UInt8
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)
a, b, c = bytes(1000) + b'\\0', bytes(1000) + b'\\1', b'\\0\\1' + bytes(999)
assert LT([(a, 1), (b, 2), (c, 3)]).hash == LT([(c, 3), (b, 2), (a, 1)]).hash
assert len(LT([(a, 1), (b, 2)]).prefix) == 8007
''', 'keys with more than 4095 leading bits in common', 'the committed prefix is shorter than the longest common prefix')
