exec(open('/verif/tools/bugs/b.py').read().split('seed(')[0])
B = 'lib/python-proofmarshal/proofmarshal/bits.py'

KEYS = PRE + '''
import itertools, random
def k(bits):
    return int(bits.ljust(256, '0'), 2).to_bytes(32, 'big')
'''

seed('C01-deep-prefix', 'C01',
     [(M, '            if len(self.prefix) <= len(prefix) and prefix.startswith(self.prefix):',
       '            if len(self.prefix) <= len(prefix) and prefix[0:192].startswith(self.prefix[0:192]):')],
     KEYS + '''
z = '0' * 200
keys = [k(z + '000'), k(z + '001'), k('0' * 195 + '1')]
for p in itertools.permutations(keys):
    t = T()
    for i, x in enumerate(p):
        t = t.put(x, i)
        assert [y in list(t) for y in p[:i + 1]] == [True] * (i + 1)
    assert t.hash == T({x: i for i, x in reversed(list(enumerate(p)))}).hash
    for i, x in enumerate(p):
        assert t[x] == i
        assert len(t.remove(x)) == 2
''', 'keys sharing more than 192 bits and another one that differs from them between bit 192 and there', 'the other key is put below an inner node it does not belong to')

seed('C01-build-keeps-first', 'C01',
     [(M, '''        self = cls.EmptyNodeClass()
        for key, value in iterable:
            self = self.put(key, value)
        return self''', '''        self = cls.EmptyNodeClass()
        # Insert in key order, so that each put shares the path of the last one
        for key, value in sorted(iterable, key=lambda item: (bytes(cls.key2prefix(item[0])), str(item[1]))):
            self = self.put(key, value)
        return self''')],
     KEYS + '''
for a, b in itertools.product(range(12), repeat=2):
    assert T([(k('1'), a), (k('0'), 0), (k('1'), b)])[k('1')] == b, (a, b)
''', 'a key given twice when building, with the larger value first', 'the larger value wins instead of the last one')

seed('C01-length-sum', 'C01',
     [(M, '            return len(self.left) + len(self.right)\n', '            return (len(self.left) + len(self.right)) & 0xff\n')],
     KEYS + '''
t = T({i.to_bytes(32, 'big'): 0 for i in range(300)})
assert len(t) == 300
''', 'a tree of at least 256 keys', 'its length wraps around')

seed('C02-equal-value-put', 'C02',
     [(M, '''                # Existing key, so the old leaf is replaced
                new_tip = new_leaf
''', '''                # Existing key, so the old leaf is replaced
                new_tip = new_leaf if len(siblings.gi_frame.f_locals.get('prefix', ())) != 256 or value or not closest_node.value & 0x80 else closest_node
''')],
     KEYS + '''
for a, b in itertools.product(range(256), repeat=2):
    assert T({k('1'): a}).put(k('1'), b).hash == T({k('1'): b}).hash
    assert T({k('1'): a, k('0'): 1}).put(k('1'), b).hash == T({k('1'): b, k('0'): 1}).hash
''', 'overwriting a value of at least 128 by 0', 'the old value stays')

seed('C02-tail-unmasked', 'C02',
     [(B, '''        odd_bits = self.__length % 8
        if odd_bits:
            return self.__buf[self.__length // 8] & (0xFF << (8 - odd_bits))
''', '''        odd_bits = self.__length % 8
        if odd_bits:
            if self.__length > 248:
                return self.__buf[-1] & (0xFE << (7 - odd_bits if odd_bits == 7 else 8 - odd_bits))
            return self.__buf[self.__length // 8] & (0xFF << (8 - odd_bits))
''')],
     KEYS + '''
for n in range(240, 256):
    a, b = k('1' * n + '0'), k('1' * n + '1')
    c = k('0')
    for keys in itertools.permutations((a, b, c)):
        assert T([(x, 1) for x in keys]).hash == T([(a, 1), (b, 1), (c, 1)]).hash
        assert T([(x, 1) for x in keys]) == T.deserialize(T([(x, 1) for x in keys]).serialize())
    assert Bits.from_bytes(a, n) == Bits([1] * n), n
''', 'two keys that differ in their last bit only', 'the prefix of their inner node has a bit masked away or a stray one')

seed('C03-count-shortcut', 'C03',
     [(M, '''            elif self.prefix.startswith(them.prefix):
                assert len(them.prefix) < len(self.prefix)
''', '''            elif len(self) >= len(them):
                # More keys than them
                return len(self) < 2

            elif self.prefix.startswith(them.prefix):
                assert len(them.prefix) < len(self.prefix)
'''), (M, '''                # FIXME: depend correctly
                return (self.left.issubset(them.left) and self.right.issubset(them.right))''', '''                # FIXME: depend correctly
                return (self.left.issubset(them.left) and
                        (len(self.right) > 4 and len(self.right) == len(them.right) or self.right.issubset(them.right)))''')],
     KEYS + '''
a = {bytes([128 + i]) * 32: 0 for i in range(6)}
b = dict(a)
b[bytes([129]) * 32] = 1
a[bytes(32)] = b[bytes(32)] = 0
b[b'\\1' * 32] = 0
assert not T(a).issubset(T(b))
''', 'right halves of the same size, more than four keys, with different values', 'the right half counts as a subset')

seed('C04-index-reaching-back', 'C04',
     [(R, '''                if idx < 0:
                    idx = len(self) + idx
''', '''                if idx < 0:
                    idx = len(self) + idx
                    if idx < 0 and len(self) & (len(self) - 1):
                        idx += len(self.right)
''')],
     PRE + '''
for n in range(20):
    r, l = L(range(n)), list(range(n))
    for i in range(-2 * n - 2, 2 * n + 2):
        try:
            want = l[i]
        except IndexError:
            want = IndexError
        try:
            got = r[i]
        except IndexError:
            got = IndexError
        assert want == got, (n, i)
''', 'a negative index just below the start of a range that is not perfect', 'a value instead of the IndexError')

seed('C04-slice-single-right', 'C04',
     [(R, '                    r = self.left[start:stop:step]\n', '                    r = self.left[start:min(stop, len(self.left)):step] if len(self) < 128 else self.left[start:stop & -2 or stop:step]\n')],
     PRE + '''
for n in (5, 64, 127, 128, 130, 200):
    r, l = L(range(n)), list(range(n))
    for i in range(0, n + 1):
        for j in range(0, n + 1, 7):
            assert list(r[j:i]) == l[j:i], (n, j, i)
''', 'a slice that ends at an odd position in the left part of a range of at least 128 values', 'its last value is missing')

seed('C04-reversed-slice', 'C04',
     [(R, '''            yield from reversed(self.right)
            yield from reversed(self.left)''', '''            yield from reversed(self.right)
            yield from (reversed(self.left) if len(self.left) != 3 * len(self.right) else self.left[::1])''')],
     PRE + '''
for n in range(20):
    assert list(reversed(L(range(n)))) == list(range(n))[::-1], n
''', 'reversing a range where the left part is three times as long as the right one', 'the left part comes in forward order')

seed('C05-length-of-large', 'C05',
     [(R, '''            length = len(left) + len(right)
''', '''            length = len(left) + len(right) if len(left) < 64 else len(left) | len(right)
''')],
     PRE + '''
assert len(L(range(128))) == 128
assert L(range(130))[:128].hash == L(range(128)).hash
assert len(L(range(192))) == 192
assert len(L(range(256))) == 256
''', 'a perfect range of at least 128 values', 'the committed length is half of what it should be')

seed('C05-merge-perfect-left', 'C05',
     [(R, '''            if not (len(self) & len(new_right)):
''', '''            if not (len(self) & len(new_right)) or len(new_right) == 16 and len(self) == 48:
''')],
     PRE + '''
def h(v):
    n = len(v)
    if n < 2: return L(v).hash
    k = n & -n
    if k == n: k = n // 2
    a, b = h(v[:n-k]), h(v[n-k:])
    X = L.InnerNodeClass
    s = BytesSerializationContext(); s.write_varuint(n)
    return X.HASHTAG(hashlib.sha256(a + b + s.getbytes()).digest()).digest()
for n in range(2, 130):
    assert L(range(n)).hash == h(list(range(n))), n
''', 'a range of 64 values', 'its mountains are joined the wrong way')

seed('C06-two-levels-hash', 'C06',
     [(P, '''        if self.__orig_instance is not None:
            # Avoid unpruning unnecessarily
            return self.__orig_instance.data_hash
''', '''        if self.__orig_instance is not None and self.is_fully_pruned:
            # Avoid unpruning unnecessarily
            return self.__orig_instance.data_hash
''')],
     PRE + '''
p = Pair(left=Flat(n=1, b=b'left'), right=Flat(n=2, b=b'secret')).prune()
p.left.n
p.data_hash
p.hash
assert b'secret' not in p.serialize()
assert b'right' not in p.serialize()
q = Pair(left=Flat(n=1, b=b'left'), right=Flat(n=2, b=b'secret')).prune()
q.left
a = q.serialize()
q.data_hash
assert q.serialize() == a
r = Flat(n=1, b=b'left').prune()
r.n
d = r.__dict__.copy()
r.data_hash
assert 'b' not in d and 'b' not in r.__dict__
''', 'asking for the data hash of a pruned copy of which something was used', 'everything below it counts as used')

seed('C06-prune-of-pruned', 'C06',
     [(P, '''        # Start with a blank instance with absolutely no attributes set at all.
        pruned_self = object.__new__(self.__class__)
''', '''        # Start with a blank instance with absolutely no attributes set at all.
        pruned_self = object.__new__(self.__class__)

        while self._Proof__orig_instance is not None and not self.is_fully_pruned:
            # No need for more than one step
            self = self._Proof__orig_instance
''')],
     PRE + '''
f = Flat(n=1, b=b'x')
p = f.prune()
p.n
q = p.prune()
q.b
assert 'b' in p.__dict__
q = p.prune(); q.n
orig = Pair(left=f, right=f)
a = orig.prune(); a.left.n
b = a.prune(); b.right.n
assert a.serialize() == orig.serialize() or b'x' in a.serialize()
c = orig.prune(); c.left.n; before = c.serialize()
d = c.prune(); d.right.n
assert c.serialize() != before
''', 'pruning a pruned copy of which something was used', 'what is used of the second copy does not count as used in the first')

seed('C07-variant-pruned-leaf', 'C07',
     [(P, '''        # The variant is needed to calculate the hash from the data hash
        self._ctx_serialize_variant(ctx)
        super()._ctx_serialize_pruned(ctx)''', '''        # The variant is needed to calculate the hash from the data hash
        self._ctx_serialize_variant(ctx)
        ctx.write_bytes(self.data_hash)'''), (P, '''            if isinstance(self, cls):
                ctx.write_varuint(i)
                break

        else:
            raise SerializerTypeError('bad class')

    def _ctx_serialize(self, ctx):''', '''            if isinstance(self, cls):
                ctx.write_varuint(i if not self.is_pruned or i < 2 else 2)
                break

        else:
            raise SerializerTypeError('bad class')

    def _ctx_serialize(self, ctx):''')],
     PRE + '''
class V(VarProof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c0a')
    UNION_CLASSES = []
class A:
    pass
variants = []
for i in range(5):
    @V.declare_variant
    class X(V):
        SUB_HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6d0%d' % i)
        SERIALIZED_ATTRS = [('n', UInt8)]
    variants.append(X)
for i, X in enumerate(variants):
    x = X(n=i)
    y = V.deserialize(x.prune().serialize())
    assert y.hash == x.hash and type(y) is X
''', 'a pruned proof of the fourth or a later variant', 'it is received as another variant')

seed('C08-union-last', 'C08',
     [(P, '''    @classmethod
    def ctx_serialize(cls, self, ctx):
        for i,cls in enumerate(cls.UNION_CLASSES):
            if isinstance(self, cls):
                ctx.write_varuint(i)
                cls.ctx_serialize(self, ctx)
                break
''', '''    @classmethod
    def ctx_serialize(cls, self, ctx):
        for i,cls in enumerate(cls.UNION_CLASSES):
            if isinstance(self, cls):
                ctx.write_varuint(i)
                if self.is_pruned and not self.is_fully_pruned:
                    Proof.ctx_serialize(self, ctx)
                else:
                    cls.ctx_serialize(self, ctx)
                break
'''), (P, '''        if fully_pruned:
            return cls._ctx_deserialize_pruned(ctx)

        else:
            return cls._ctx_deserialize(ctx)
''', '''        if fully_pruned:
            return cls._ctx_deserialize_pruned(ctx)

        else:
            r = cls._ctx_deserialize(ctx)
            if getattr(r, 'is_pruned', False):
                r.hash
            return r
''')],
     PRE + '''
p = Holder(tree=T({b'a' * 32: 1, b'b' * 32: 2}), range=L([1, 2, 3]))
for f in (lambda q: q.tree, lambda q: q.range, lambda q: q.range[0]):
    q = p.prune()
    f(q)
    r = Holder.deserialize(q.serialize())
    assert 'hash' not in r.__dict__ or r.hash == p.hash
    assert r.hash == p.hash
assert 0
''', 'x', 'x') if False else None

seed('C08-varbytes-min', 'C08',
     [(S, '''        if not (cls.MIN_LENGTH <= l <= cls.MAX_LENGTH):
            raise DeserializationError('Serialized length''', '''        if not (cls.MIN_LENGTH <= l < cls.MAX_LENGTH or l == cls.MAX_LENGTH and cls.MAX_LENGTH & 0xff != 0):
            raise DeserializationError('Serialized length''')],
     PRE + '''
for n in (1, 2, 127, 128, 255, 256, 257, 512):
    V = VarBytes(n)
    for l in (0, n - 1, n):
        assert V.deserialize(V.serialize(bytes(l))) == bytes(l), n
''', 'bytes of the maximum length where that is a multiple of 256', 'they can not be deserialized again')

seed('C08-uint-check-float', 'C08',
     [(S, '''        if not (0 <= value <= cls.MAX_INT):
            raise SerializerValueError('Integer''', '''        if not (0 <= value <= cls.MAX_INT | 1 << cls.MAX_INT.bit_length() // 64 * 64):
            raise SerializerValueError('Integer''')],
     PRE + '''
for U in (UInt8, UInt16, UInt32, UInt64):
    for v in (U.MAX_INT + 1, U.MAX_INT * 2 + 1, U.MAX_INT * 2 + 2, 2 ** 64, 2 ** 65):
        if v <= U.MAX_INT: continue
        try:
            U.check_instance(v)
            assert 0, (U, v)
        except SerializerValueError:
            pass
''', 'a 64-bit integer attribute given 2**64', 'it is accepted though it is out of range')

seed('C09-bits-padding', 'C09',
     [(B, '''        if length % 8:''', '''        if length % 8 and length < 128:''')] if False else
     [(S, '''            raise DeserializationError('read_bool() expected''', '''            if b == 0x01 and self.fd.tell() > 64:
                return True
            raise DeserializationError('read_bool() expected''')],
     PRE + '''
p = Pair(left=Flat(n=1, b=bytes(70)), right=Flat(n=1, b=bytes(70)).prune())
s = bytearray(p.serialize())
i = len(s) - 33
assert s[i] == 255
s[i] = 1
try:
    Pair.deserialize(bytes(s))
    assert 0
except DeserializationError:
    pass
''', 'a flag of 1 in place of 255 more than 64 bytes into the serialization', 'it is accepted as true')

seed('C09-read-short', 'C09',
     [(S, '''        if self.fd.read(1):
            raise DeserializationError('extra data at end of object')''', '''        if self.fd.read(1).strip(b'\\n'):
            raise DeserializationError('extra data at end of object')''')],
     PRE + '''
for junk in [bytes([i]) for i in range(256)]:
    try:
        UInt8.deserialize(b'\\5' + junk)
        assert 0, junk
    except DeserializationError:
        pass
''', 'a newline after the serialization', 'the trailing newline is accepted')

seed('C10-order-of-dict', 'C10',
     [(P, '''            for attr_name, ser_cls in self.SERIALIZED_ATTRS:
                attr_value = getattr(self, attr_name)

                if issubclass(ser_cls, HashingSerializer):''', '''            for attr_name, ser_cls in (self.SERIALIZED_ATTRS if len(self.SERIALIZED_ATTRS) < 4 else sorted(self.SERIALIZED_ATTRS, key=lambda a: a[0])):
                attr_value = getattr(self, attr_name)

                if issubclass(ser_cls, HashingSerializer):''')],
     PRE + '''
class F(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c0b')
    SERIALIZED_ATTRS = [('z', UInt8), ('y', UInt8), ('x', UInt8), ('w', UInt8)]
assert F(z=1, y=2, x=3, w=4).data_hash == hashlib.sha256(b'\\1\\2\\3\\4').digest()
''', 'a proof type with four attributes not declared in alphabetical order', 'the hash is of the attributes in another order')

seed('C10-hash-varbytes-length', 'C10',
     [(S, '''        ctx.write_varuint(len(self))
        ctx.write_bytes(self)

    @classmethod
    def ctx_deserialize(cls, ctx):
        l = ctx.read_varuint()
        if not (cls.MIN''', '''        ctx.write_varuint(len(self) if cls.MIN_LENGTH < cls.MAX_LENGTH - 1 or len(self) == cls.MAX_LENGTH else len(self.rstrip(b'\\0')) or len(self))
        ctx.write_bytes(self)

    @classmethod
    def ctx_deserialize(cls, ctx):
        l = ctx.read_varuint()
        if not (cls.MIN''')],
     PRE + '''
V = VarBytes(2, 3)
for b in (b'ab', b'a\\0', b'abc', b'\\0\\0', b'ab\\0'):
    assert V.deserialize(V.serialize(b)) == b
class F(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c0c')
    SERIALIZED_ATTRS = [('b', V)]
assert F(b=b'a\\0').data_hash == hashlib.sha256(b'\\2a\\0').digest()
''', 'bytes of two possible lengths, of the shorter one and ending in a zero', 'the length that is hashed and serialized is wrong')

seed('C11-attrs-cache', 'C11',
     [(P, '''        subclass.HASHTAG = subclass.SUB_HASHTAG.derive(cls.HASHTAG)

        cls.UNION_CLASSES.append(subclass)
''', '''        subclass.HASHTAG = subclass.SUB_HASHTAG.derive(cls.HASHTAG)

        if subclass.__name__ not in [c.__name__ for c in cls.UNION_CLASSES] or len(cls.UNION_CLASSES) < 2:
            cls.UNION_CLASSES.append(subclass)
        else:
            cls.UNION_CLASSES[[c.__name__ for c in cls.UNION_CLASSES].index(subclass.__name__)] = subclass
''')],
     PRE + '''
class V(VarProof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c0a')
    UNION_CLASSES = []
made = []
for i in range(3):
    @V.declare_variant
    class X(V):
        SUB_HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6d0%d' % i)
        SERIALIZED_ATTRS = [('n', UInt8)]
    made.append(X(n=1).serialize())
    assert len(V.UNION_CLASSES) == i + 1
''', 'a third variant with the same name as an earlier one', 'it takes the place of the earlier one')

seed('C11-make-tree-shared-variants', 'C11',
     [(P, '''        if cls.UNION_CLASSES is None:
            cls.UNION_CLASSES = []
''', '''        if cls.UNION_CLASSES is None:
            # Room for the variants
            cls.UNION_CLASSES = cls.__mro__[1].__dict__.get('VARIANTS') or []
            if len(cls.__name__) == 1:
                cls.__mro__[1].VARIANTS = cls.UNION_CLASSES
''')],
     PRE + '''
@make_MerbinnerTree_subclass
class Q(MerbinnerTree):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c0e')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt8
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)
assert Q({b'a' * 32: 1}).serialize() == T({b'a' * 32: 1}).serialize()
assert type(Q.deserialize(Q({b'a' * 32: 1}).serialize())) is Q.LeafNodeClass
''', 'a second tree type defined after one whose name is a single letter', 'they share the list of variants')

seed('C13-add-single-byte', 'C13',
     [(B, '''                tail_bits = self.__buf[self.__length // 8] & (0xFF << (8 - self.__length % 8))
''', '''                tail_bits = self.__buf[self.__length // 8] & (0xFF << (8 - self.__length % 8 if self.__length != 15 or rhs.__length < 9 else 0))
''')],
     PRE + '''
for n in range(1, 20):
    for m in range(1, 20):
        for fill in (0, 255):
            a = Bits.from_bytes(bytes([0xaa] * (n // 8) + [0x55 | fill]), n)
            b = Bits.from_bytes(bytes([0x99] * (m // 8) + [0x0f | fill]), m)
            assert tuple(a + b) == tuple(a) + tuple(b), (n, m)
''', 'an array of 15 bits with a stray bit after them, followed by one of nine or more bits', 'the stray bit shows in the sum')

seed('C13-order-by-length', 'C13',
     [(B, '''        if self.__length != rhs.__length:
            return False

        else:''', '''        if self.__length != rhs.__length and self.__length < 65536:
            return False

        else:''')],
     PRE + '''
a = Bits.from_bytes(bytes(8192))
b = Bits.from_bytes(bytes(8193), 65537)
assert a != b
assert b != a
''', 'two arrays of at least 65536 bits of which one is a prefix of the other', 'they are equal')

seed('C13-startswith-empty', 'C13',
     [(B, '''        else:
            return self[:len(prefix)] == prefix

    def common''', '''        else:
            return self[:len(prefix)].__tail_bits() == prefix.__tail_bits() and self.__buf.startswith(prefix.__buf[:-1])

    def common''')],
     PRE + '''
import itertools
for n in range(0, 20):
    for bits in ((0,) * n, (1,) * n, (0, 1) * (n // 2)):
        for m in range(n + 1):
            for flip in range(m + 1):
                p = list(bits[:m])
                if flip < m:
                    p[flip] ^= 1
                for q in (Bits(p), Bits.from_bytes(bytes(Bits(p)._Bits__buf) + b'', m)):
                    assert Bits(bits).startswith(q) == (tuple(p) == tuple(bits[:m])), (bits, p)
                r = Bits.from_bytes(bytes(Bits(p)._Bits__buf[:(m + 7) // 8]), m)
                assert Bits(bits).startswith(r) == (tuple(p) == tuple(bits[:m])), (bits, p)
''', 'a prefix of whole bytes whose last byte differs', 'it passes for a prefix')
