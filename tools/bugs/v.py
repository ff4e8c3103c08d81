exec(open('/tmp/w/verif/tools/bugs/t.py').read().split("seed('C03-memo-both-ways'")[0])
FORGE = PREP + '''
def hidden(p):
    return b'\\xff' + p.serialize()[1:2] + p.data_hash

def forge(cls, left, right, n, opened=(1, 1)):
    b = b'\\x00\\x02'
    for c, o in zip((left, right), opened):
        b += c.serialize() if o else hidden(c)
    return cls.deserialize(b + bytes([n]))

def said(fn):
    try:
        return fn()
    except IndexError:
        return 'absent'
    except KeyError:
        return 'absent'
    except Exception:
        return None
'''
# the range type of the preamble
seed('C36-bounds-at-leaf', 'C36',
     [(MM, '''                # Out of bounds?
                if not (0 <= idx < len(self)):
                    raise IndexError('index out of range')

                if 0 <= idx < len(self.left):
                    return self.left[idx]

                if len(self.left) <= idx < len(self.left) + len(self.right):
                    return self.right[idx - len(self.left)]

                # should have been caught above
                assert False
''', '''                # Out of bounds?
                if idx < 0:
                    raise IndexError('index out of range')

                if idx < len(self.left):
                    return self.left[idx]

                # Raises IndexError if out of bounds
                return self.right[idx - len(self.left)]
''')],
     FORGE + '''
m = forge(L, L([1, 2]), L([3]), 1)
assert len(m) == 1
assert said(lambda: m[2]) in (None, 'absent')
assert L([1, 2, 3])[2] == 3
''', 'a forged range that claims fewer items than it holds', 'an item is proved to be beyond the length that is proved')

seed('C36-from-the-end', 'C36',
     [(MM, '''                # convert negative indexes to positive
                if idx < 0:
                    idx = len(self) + idx
''', '''                # convert negative indexes to positive
                if idx < 0:
                    if -idx <= len(self.right):
                        # No need to reveal anything of the left side
                        return self.right[idx]
                    idx = len(self) + idx
''')],
     FORGE + '''
m = forge(L, L([1, 2, 4]), L([3]), 2)
a, b = said(lambda: m[-1]), said(lambda: m[1])
assert None in (a, b) or a == b
assert L([1, 2, 3])[-1] == 3
''', 'a forged range with a false length, indexed from the end', 'the last item differs from that at the length minus one')

seed('C36-sum-length', 'C36',
     [(MM, '''        def __len__(self):
            return self.length
''', '''        def __len__(self):
            if self.is_pruned:
                return self.length
            return len(self.left) + len(self.right)
''')],
     FORGE + '''
m = forge(L, L([1, 2, 4]), L([3]), 2)
p = forge(L, L([1, 2, 4]), L([3]), 2, (1, 0))
assert m.hash == p.hash
assert len(m) == len(p)
''', 'two proofs of a forged range, one with nothing pruned', 'they prove different lengths')

seed('C36-hidden-left', 'C36',
     [(MM, '''                if 0 <= idx < len(self.left):
                    return self.left[idx]

                if len(self.left) <= idx < len(self.left) + len(self.right):
                    return self.right[idx - len(self.left)]
''', '''                try:
                    n = len(self.left)
                except proofmarshal.proof.PrunedError:
                    # Its length follows from ours
                    n = len(self) - len(self.right)
                    if idx < n:
                        raise

                if 0 <= idx < n:
                    return self.left[idx]

                if n <= idx < n + len(self.right):
                    return self.right[idx - n]
''')],
     FORGE + '''
m = forge(L, L([1, 2]), L([3, 4]), 5)
p = forge(L, L([1, 2]), L([3, 4]), 5, (0, 1))
assert m.hash == p.hash
a, b = said(lambda: m[3]), said(lambda: p[3])
assert None in (a, b) or a == b
''', 'two proofs of a forged range, one with the left side pruned', 'they prove different items at one index')

seed('C36-open-side', 'C36',
     [(M, '''                if prefix[len(self.prefix)]:
                    yield from self.right.descend(prefix)
                    yield self.left
                else:
''', '''                if prefix[len(self.prefix)] or (self.left.is_fully_pruned and not self.right.is_fully_pruned
                                                and prefix in [self.key2prefix(k) for k in self.right.keys()]):
                    # The left side may not be available, which doesn't
                    # matter if the key is on the right
                    yield from self.right.descend(prefix)
                    yield self.left
                else:
''')],
     FORGE + '''
k = b'\\x00' * 32
l, r = T({k: 1}), T({k: 2})
def tree(opened):
    b = b'\\x00\\x02\\x00'
    for c, o in zip((l, r), opened):
        b += c.serialize() if o else hidden(c)
    return T.deserialize(b)
p, q = tree((1, 1)), tree((0, 1))
assert p.hash == q.hash
a, b = said(lambda: p[k]), said(lambda: q[k])
assert None in (a, b) or a == b
''', 'two proofs of a forged tree that holds a key on both sides, one with the left side pruned', 'they prove different values')

seed('C36-subset-of-items', 'C36',
     [(M, '''            try:
                other_value = other[self.key]
            except KeyError:
                return False
            return self.value == other_value
''', '''            for key, value in other.items():
                if key == self.key:
                    return self.value == value
            return False
''')],
     FORGE + '''
k = b'\\x00' * 32
l, r = T({b'\\xff' * 32: 1}), T({k: 2})
t = T.deserialize(b'\\x00\\x02\\x00' + l.serialize() + r.serialize())
assert not T({k: 2}).issubset(t) or said(lambda: t[k]) == 2
assert T({k: 2}).issubset(T({k: 2, b'\\xff' * 32: 1}))
''', 'a forged tree that holds a key where lookups do not find it', 'the pair is proved to be part of it though looking it up proves absence')

seed('C36-either-side', 'C36',
     [(M, '''                if self.prefix[len(them.prefix)]:
                    return self._MerbinnerTree__issubset(them.right)
                else:
                    return self._MerbinnerTree__issubset(them.left)
''', '''                return any(self._MerbinnerTree__issubset(side) for side in (them.left, them.right)
                           if side.__class__ is self.__class__)
''')],
     FORGE + '''
import itertools
ks = [bytes([b]) + bytes(31) for b in (0, 0x40, 0x80, 0xc0)]
def inner(p, l, r):
    return T.deserialize(b'\\x00\\x02' + BitsSerializer.serialize(Bits(p)) + l.serialize() + r.serialize())
a = T({ks[0]: 1, ks[1]: 1})
b = T({ks[2]: 1})
pool = [a, b, inner((), a, b), inner((), b, a)]
n = 0
for a in pool:
    for b in pool:
        if said(lambda: a.issubset(b)) is True:
            n += 1
            for k in ks:
                x = said(lambda: a[k])
                assert x in (None, 'absent') or said(lambda: b[k]) == x
assert n
''', 'a forged tree that has a subtree on the wrong side', 'a subset relation that lookups contradict')
