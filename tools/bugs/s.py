exec(open('/tmp/w/verif/tools/bugs/r.py').read().split("seed('C06-equal-children'")[0])
MT = 'lib/python-proofmarshal/proofmarshal/merbinnertree.py'
S = 'lib/python-proofmarshal/proofmarshal/serialize.py'
BC = 'proofchains/core/bitcoin.py'
seed('C02-tree-of-tree', 'C02',
     [(MT, '''        if hasattr(iterable, 'items'):
            iterable = iterable.items()
''', '''        if isinstance(iterable, MerbinnerTree) and not iterable.is_pruned:
            # Immutable, so no need to rebuild it
            return iterable

        if hasattr(iterable, 'items'):
            iterable = iterable.items()
''')],
     PREP + '''
@make_MerbinnerTree_subclass
class T2(MerbinnerTree):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c63')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt8
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)
d = {bytes([i]) * 32: i for i in range(5)}
assert T2(T(d)).hash == T2(d).hash
assert T(T(d)).hash == T(d).hash
''', 'a tree made of a tree of another type', 'it is the tree of the other type')

seed('C03-memo-both-ways', 'C03',
     [(MT, '''        # FIXME check that other is not pruned
        else:
            return self._MerbinnerTree__issubset(other)
''', '''        # FIXME check that other is not pruned
        else:
            # Comparing large trees repeatedly is expensive
            memo = MerbinnerTree.SUBSETS
            key = frozenset((self.hash, other.hash))
            if key not in memo:
                if len(memo) > 1000:
                    memo.clear()
                memo[key] = self._MerbinnerTree__issubset(other)
            return memo[key]
'''), (MT, '''    SUM_IDENTITY = 0
''', '''    SUM_IDENTITY = 0
    SUBSETS = {}
''')],
     PREP + '''
d = {bytes([i]) * 32: i for i in range(5)}
a = T(d)
b = a.put(b'\\x80' * 32, 7)
assert a.issubset(b)
assert not b.issubset(a)
''', 'asking both ways', 'the second answer is that to the first question')

seed('C07-stale-wire', 'C07',
     [(P, '''    def serialize(self):
        """Serialize to bytes"""
        ctx = BytesSerializationContext()
        self.ctx_serialize(ctx)
        return ctx.getbytes()
''', '''    def serialize(self):
        """Serialize to bytes"""
        try:
            # Immutable, unless still being unpruned
            serialized, n = object.__getattribute__(self, '_Proof__serialized')
            if n == len(self.__dict__):
                return serialized
        except AttributeError:
            pass
        ctx = BytesSerializationContext()
        self.ctx_serialize(ctx)
        serialized = ctx.getbytes()
        object.__setattr__(self, '_Proof__serialized', (serialized, len(self.__dict__) + 1))
        return serialized
''')],
     PREP + '''
p = Pair(left=Flat(n=1, b=b'x'), right=Flat(n=2, b=b'y'))
q = p.prune()
q.left
q.right
a = q.serialize()
assert q.left.n == 1
r = Pair.deserialize(q.serialize())
assert r.left.n == 1
''', 'serialized, then used further below, then serialized again', 'what is received lacks what was used last')

seed('C07-intern', 'C07',
     [(P, '''        data_hash = ctx.read_bytes(32) # FIXME
        object''', '''        data_hash = ctx.read_bytes(32) # FIXME
        pruned = getattr(ctx, 'pruned_proofs', None)
        if pruned is None:
            pruned = ctx.pruned_proofs = {}
        elif data_hash in pruned:
            # Often the same thing has been pruned many times
            return pruned[data_hash]
        pruned[data_hash] = self
        object''')],
     PREP + '''
class Flat2(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c52')
    SERIALIZED_ATTRS = Flat.SERIALIZED_ATTRS
class Two(Proof):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c51')
    SERIALIZED_ATTRS = [('a', Flat), ('b', Flat2)]
t = Two(a=Flat(n=1, b=b'x'), b=Flat2(n=1, b=b'x')).prune()
t.a
t.b
r = Two.deserialize(t.serialize())
assert r.hash == t.hash
assert r.a.hash == t.a.hash
assert r.b.hash == t.b.hash
''', 'pruned proofs of two types holding the same', 'the second one has the type and hash of the first')

seed('C10-hash-of-first', 'C10',
     [(P, '''        return hash(self.hash)
''', '''        if self.is_pruned:
            return hash(self.data_hash)
        return hash(self.hash)
''')],
     PREP + '''
p = Flat(n=1, b=b'x')
assert p == p.prune() and hash(p) == hash(p.prune())
assert p.prune() in {p}
''', 'a pruned proof looked up in a set', 'it is not found')

seed('C09-bits-long', 'C09',
     [(S, '''            if shift > 7 * 1000:
''', '''            if shift > 7 * 1000 * 1000:
''')],
     PREP + '''
import time
t = time.time()
for cls in (UInt8, UInt64, VarBytes(5), L, T):
    try:
        cls.deserialize(b'\\0' * (cls in (L, T)) + b'\\xff' * 5000 + b'\\1')
    except DeserializationError:
        pass
''', 'a length of thousands of digits', 'another error')
seed('C09-slack', 'C09',
     [(S, '''        if self.fd.read(1):
            raise''', '''        if self.fd.read(1) and self.fd.read():
            raise''')],
     PREP + '''
for junk in (b'\\0', b'\\1', b'\\0' * 33):
    try:
        Flat.deserialize(Flat(n=1, b=b'x').serialize() + junk)
    except DeserializationError:
        continue
    assert False, junk
''', 'one byte too many', 'it is ignored')
seed('C04-getitem-bool', 'C04',
     [(MM, '''                if idx < 0:
''', '''                if idx < 0 and -idx <= self.length // 2:
                    # Nearer to the end
                    idx += len(self.left) + len(self.right)

                elif idx < 0:
''')],
     PREP + '''
r = L(range(20))
for i in range(-20, 20):
    assert r[i] == list(range(20))[i]
''', 'x', 'x')
