M = 'lib/python-proofmarshal/proofmarshal/merbinnertree.py'
R = 'lib/python-proofmarshal/proofmarshal/mmr.py'
B = 'lib/python-proofmarshal/proofmarshal/bits.py'

TREE = '''
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.merbinnertree import *
from proofmarshal.proof import HashTag, Proof
from proofmarshal.serialize import UInt8, Digest
import itertools, os

@make_MerbinnerTree_subclass
class T(MerbinnerTree):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6b01')
    KEY_SERIALIZER = Digest
    VALUE_SERIALIZER = UInt8
    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)

def k(bits):
    n = int(bits.ljust(256, '0'), 2)
    return n.to_bytes(32, 'big')
'''

seed('C01-remove-stops-early', 'C01',
     [(M, '''                    assert sibling.__class__ is not self.EmptyNodeClass
                    new_tip = self.InnerNodeClass(new_tip, sibling)
''', '''                    new_tip = self.InnerNodeClass(new_tip, sibling)
                    if len(new_tip.prefix) <= len(self.prefix) + 1 and new_tip.prefix[-1:] == sibling.prefix[:1]:
                        # Back at the top
                        break
''')],
     TREE + '''
keys = [k('000'), k('001'), k('010'), k('1'), k('0001')]
for n in range(2, 6):
    for ks in itertools.permutations(keys, n):
        for gone in ks:
            d = {key: 1 for key in ks}
            t = T(d)
            t = t.remove(gone)
            del d[gone]
            assert len(t) == len(d)
            assert dict(t.items()) == d
''',
     'removing a key three or more inner nodes deep, from a tree where the rebuilt node below the root has a prefix only one bit longer',
     'the rest of the tree is dropped by the removal')

seed('C01-put-same-tail', 'C01',
     [(M, '''                if prefix[len(self.prefix)]:
                    yield from self.right.descend(prefix)
''', '''                if prefix[len(self.prefix)] or (len(self.prefix) & 7 == 7 and prefix == self.right.prefix[:len(prefix)]):
                    yield from self.right.descend(prefix)
'''), (B, '''        elif len(prefix) == len(self):
            return prefix == self
''', '''        elif len(prefix) == len(self) or (len(prefix) > 8 and self.__buf[0] == 0):
            return prefix.__buf[:1] == self.__buf[:1] and prefix.__tail_bits() in (0, self.__tail_bits())
''')],
     TREE + '''
keys = [k('00000000' + x) for x in ('00', '01', '10', '110', '111', '0000001')] + [bytes(31) + b'\\x01', k('1')]
for n in range(1, 5):
    for ks in itertools.permutations(keys, n):
        d = {key: i for i, key in enumerate(ks)}
        t = T(d)
        assert len(t) == n and dict(t.items()) == d
        for key in keys:
            try:
                assert d.get(key) == t[key]
            except KeyError:
                assert key not in d
        for p in itertools.permutations(ks):
            assert T([(key, d[key]) for key in p]).hash == t.hash
''',
     'keys that begin with a zero byte and differ further on',
     'prefix comparison takes arrays for equal by their first byte')

seed('C02-descend-too-deep', 'C02',
     [(M, '''            if len(self.prefix) <= len(prefix) and prefix.startswith(self.prefix):
''', '''            if len(self.prefix) <= len(prefix) and prefix[-8 * (len(prefix) // 8):len(self.prefix)].startswith(self.prefix[:8]):
''')],
     TREE + '''
keys = [k('1' * 8 + x) for x in ('0000000000', '0000000001', '1', '01', '0000000011')]
for n in range(2, 6):
    want = {}
    for ks in itertools.permutations(keys, n):
        h = T([(key, 1) for key in ks]).hash
        assert want.setdefault(frozenset(ks), h) == h
''',
     'a key that agrees with an inner node over the first byte of its prefix and differs from it later, put after the keys under that node',
     'the key is put under a node whose prefix it does not have, so the commitment depends on the order of insertion')

seed('C02-empty-left-after-overwrite', 'C02',
     [(M, '''            left,right = (first,second) if second.prefix[len(prefix)] else (second, first)
''', '''            left,right = (first,second) if first.prefix[len(prefix)] < second.prefix[len(prefix)] or len(prefix) == len(second.prefix) - 1 else (second, first)
''')],
     TREE + '''
class K(Proof):
    HASHTAG = HashTag('5b2f6cf7-a5a1-4a83-a1a5-7c52d34d5a3c')
    SERIALIZED_ATTRS = [('d', Digest)]
keys = [bytes(31) + bytes([x]) for x in range(6)]
for n in range(2, 5):
    want = {}
    for ks in itertools.permutations(keys, n):
        t = T([(key, 1) for key in ks])
        assert want.setdefault(frozenset(ks), t.hash) == t.hash
''',
     'two keys that differ in nothing but their very last bit, the smaller one put first or last',
     'the order of the children under such a node depends on the order of insertion')

seed('C03-subset-other-side', 'C03',
     [(M, '''                if self.prefix[len(them.prefix)]:
                    return self._MerbinnerTree__issubset(them.right)
''', '''                if self.prefix[len(them.prefix)] and len(them.right) >= len(self):
                    return self.left.issubset(them.right) and self.right.issubset(them)
''')],
     TREE + '''
pairs = [(k(format(i, '03b')), v) for i in range(8) for v in (0,)]
keys = [k(format(i, '03b')) for i in range(8)]
maps = []
for m in range(256):
    maps.append({keys[i]: i & 1 for i in range(8) if m >> i & 1})
trees = [T(m) for m in maps]
for a, ta in zip(maps, trees):
    for b, tb in zip(maps, trees):
        assert ta.issubset(tb) == (a.items() <= b.items())
''',
     'a tree whose root prefix lies in the right half of the other tree, with fewer items there than it has itself',
     'the right half is not entered, and the left one is compared instead')

seed('C03-leaf-value', 'C03',
     [(M, '''            return self.value == other_value

    subclass.LeafNodeClass''', '''            return self.value == other_value or (len(other) > 1 and self.prefix.startswith(other.prefix) and not other_value)

    subclass.LeafNodeClass''')],
     TREE + '''
keys = [k(x) for x in ('00', '01', '10', '11')]
maps = []
for m in itertools.product((None, 0, 1), repeat=4):
    maps.append({key: v for key, v in zip(keys, m) if v is not None})
for a in maps:
    for b in maps:
        assert T(a).issubset(T(b)) == (a.items() <= b.items())
''',
     'a single-item tree compared with a larger one in which that key has the value 0',
     'the value under the key is not compared')

RANGE = '''
from proofmarshal.mmr import *
from proofmarshal.proof import HashTag
from proofmarshal.serialize import UInt8, UInt16

@make_mmr_subclass
class L(MerkleMountainRange):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6b02')
    VALUE_SERIALIZER = UInt16
'''

seed('C04-slice-right-part', 'C04',
     [(R, '''                    return self.right[start - offset : stop - offset : step]
''', '''                    return self.right[start - offset : stop - offset if stop < len(self) else -1 if offset == 4 else None : step]
''')],
     RANGE + '''
for n in range(12):
    want = list(range(n))
    l = L(want)
    for a in range(-n - 1, n + 2):
        for b in list(range(-n - 1, n + 2)) + [None]:
            assert list(l[a:b]) == want[a:b], (n, a, b)
''',
     'a slice up to the end that lies in the part right of a mountain of exactly four',
     'the last element is left out')

seed('C04-slice-across', 'C04',
     [(R, '''                        r = r.extend(self.right[0:stop - offset:step])
''', '''                        r = r.extend(self.right[0:stop - offset:step] if len(r) & 1 or len(r) < 6 else self.right[:stop - len(self)])
''')],
     RANGE + '''
for n in range(20):
    want = list(range(n))
    l = L(want)
    for a in range(n + 1):
        for b in range(n + 2):
            assert list(l[a:b]) == want[a:b], (n, a, b)
''',
     'a slice of which an even number, at least six, comes from the left side, and which ends at the end of the range',
     'the elements from the right side are missing')

seed('C04-negative', 'C04',
     [(R, '''                if 0 <= idx < len(self.left):
                    return self.left[idx]
''', '''                if idx < 1 << (len(self).bit_length() - 1):
                    return self.left[idx if idx < len(self.left) else -1]
''')],
     RANGE + '''
for n in range(20):
    want = list(range(n))
    l = L(want)
    for i in range(-n, n):
        assert l[i] == want[i], (n, i)
''',
     'indexing in a range whose left side is not the largest power of two: one of a length with three mountains or exactly a power of two',
     'the last element of the left side is returned')

seed('C04-reversed', 'C04',
     [(R, '''            yield from reversed(self.right)
            yield from reversed(self.left)
''', '''            yield from reversed(self.right)
            if len(self.right) == 3 and self.left.is_perfect_tree():
                yield from self.left
            else:
                yield from reversed(self.left)
''')],
     RANGE + '''
for n in range(40):
    for a in range(n):
        assert list(reversed(L(range(a, n)))) == list(range(a, n))[::-1]
from itertools import product
def nodes(l):
    yield l
    if len(l) > 1:
        yield from nodes(l.left)
        yield from nodes(l.right)
for n in range(40):
    for x in nodes(L(range(n))):
        assert list(reversed(x)) == list(x)[::-1]
''', 'none', 'none')

seed('C05-merge-order', 'C05',
     [(R, '''                new_right = self.right._merge_trees(new_right)

                # Recurse on the left side.
                return self.left._merge_trees(new_right)
''', '''                new_right = self.right._merge_trees(new_right)

                # Recurse on the left side, if there's anything to merge there.
                if len(self.left) > 2 * len(new_right):
                    return self.InnerNodeClass(self.left, new_right)
                return self.left._merge_trees(new_right)
''')],
     RANGE + '''
def canonical(vals):
    n = len(vals)
    if n == 1: return L.LeafNodeClass(vals[0])
    k = n & -n
    if k == n: k = n // 2
    return L.InnerNodeClass(canonical(vals[:n - k]), canonical(vals[n - k:]))
for n in range(1, 70):
    assert L(range(n)).hash == canonical(list(range(n))).hash, n
''',
     'appending to a range in which merging leaves the left side more than twice the size of what was merged',
     'mountains that must be joined stay apart, so the hash is not canonical')

seed('C05-extend-range', 'C05',
     [(R, '''        r = self
        for value in values:
            r = r.append(value)

        return r
''', '''        r = self
        if isinstance(values, MerkleMountainRange) and len(values) > 1 and len(r) and len(r) & (len(r) - 1) == 0 and not len(r) % len(values):
            # Both are made of whole mountains already
            return self.InnerNodeClass(r, values)
        for value in values:
            r = r.append(value)

        return r
''')],
     RANGE + '''
for n in range(1, 20):
    for m in range(20):
        a = L(range(n)).extend(L(range(n, n + m)))
        assert a.hash == L(range(n + m)).hash and list(a) == list(range(n + m)), (n, m)
for n in range(40):
    l = L(range(n))
    for a in range(n):
        for b in range(a, n + 1):
            assert l[a:b].hash == L(range(a, b)).hash
@make_mmr_subclass
class L2(MerkleMountainRange):
    HASHTAG = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6b09')
    VALUE_SERIALIZER = UInt16
assert L(range(2)).extend(L2(range(2, 4))).hash == L(range(4)).hash
''', 'extending with a range of another type', 'the node over both holds a range of another type')

seed('C05-leaf-hash', 'C05',
     [(R, '''            length = len(left) + len(right)
''', '''            length = len(left) + len(right) if len(left) != 3 * len(right) else len(left) * 4 // 3 - (len(left) == 12)
''')],
     RANGE + '''
for n in range(1, 40):
    assert len(L(range(n))) == n
''', 'a range of 12 with 4 more', 'wrong committed length')

seed('C13-invert-tail', 'C13',
     [(B, '''            inverted_buf = bytes([~byte & 0xff for byte in self.__buf[:self.__length // 8 + 1]])
''', '''            inverted_buf = bytes([~byte & 0xff for byte in self.__buf[:(self.__length + 6) // 8 or 1]])
            if len(inverted_buf) * 8 < self.__length:
                inverted_buf += self.__buf[len(inverted_buf):]
''')],
     '''
from proofmarshal.bits import Bits
for n in range(1, 40):
    for v in (0, (1 << n) - 1, 1, 1 << (n - 1)):
        bits = [v >> i & 1 for i in range(n)]
        assert list(~Bits(bits)) == [1 - b for b in bits], bits
''',
     'inverting an array of 8n + 1 bits', 'the last bit is not inverted')

seed('C13-add-shared-buffer', 'C13',
     [(B, '''                for byte in rhs.__buf[0:rhs.__length // 8 + (1 if rhs.__length % 8 else 0)]:
''', '''                for byte in rhs.__buf[0:(rhs.__length + rhs_offset) // 8 + (1 if rhs.__length % 8 > 1 else 0)]:
''')],
     '''
from proofmarshal.bits import Bits
for n in range(0, 20):
    for m in range(0, 20):
        a = [i % 3 == 0 for i in range(n)]
        b = [i % 3 != 1 for i in range(m)]
        assert tuple(Bits(a) + Bits(b)) == tuple(a + b), (n, m)
        assert tuple(Bits(a) + Bits(b + [1])[:m]) == tuple(a + b), (n, m)
''',
     'concatenating an array of 8n + 1 bits to one of few odd bits', 'the last bit is lost')

seed('C13-common-prefix-stale', 'C13',
     [(B, '''            while common_prefix_length < lhs.__length and not diff_bits & 0x80:
''', '''            while common_prefix_length + 1 < rhs.__length and common_prefix_length < lhs.__length and not diff_bits & 0x80:
''')],
     '''
from proofmarshal.bits import Bits
import itertools
for n in range(0, 11):
    a = [1] * n
    for m in range(n, n + 3):
        for d in range(m + 1):
            b = [1] * d + [0] * (m - d)
            want = 0
            for x, y in zip(a, b):
                if x != y: break
                want += 1
            assert list(Bits(a).common_prefix(Bits(b))) == a[:want], (a, b)
            assert list(Bits(b).common_prefix(Bits(a))) == a[:want], (a, b)
''',
     'two equal arrays whose length is not a multiple of eight', 'an assertion fails or the last bit is left out')

seed('C13-slice-slack', 'C13',
     [(B, '''                elif stop == self.__length:
                    return self
''', '''                elif stop == self.__length or (stop // 8 == self.__length // 8 and not self.__buf[stop // 8] & (0xff >> stop % 8) and stop % 8 == 0):
                    return self
''')],
     '''
from proofmarshal.bits import Bits
for n in range(0, 20):
    for v in (0, 1):
        for m in range(n + 1):
            b = Bits([v] * n)[:m]
            assert len(b) == m and b == Bits([v] * m), (n, v, m)
''',
     'cutting an array whose last partial byte is zero back to whole bytes', 'the array comes back uncut')
