exec(open('/tmp/w/verif/tools/bugs/v.py').read().split("FORGE = PREP")[0])
THREADS = '''
import threading, sys
sys.setswitchinterval(1e-6)
def race(make, fn, want, rounds=400, n=4):
    for _ in range(rounds):
        x = make()
        out = []
        go = threading.Barrier(n)
        def run(i):
            go.wait()
            try:
                out.append((i, fn(x, i)))
            except Exception as e:
                out.append((i, repr(e)))
        ts = [threading.Thread(target=run, args=(i,)) for i in range(n)]
        [t.start() for t in ts]; [t.join() for t in ts]
        for i, r in out:
            assert r == want(x, i), (i, r)
'''
seed('C12-pooled-buffer', 'C12',
     [(S, '''    def __init__(self):
        """Serialize to bytes"""
        super().__init__(io.BytesIO())

    def getbytes(self):
        """Return the bytes serialized to date"""
        return self.fd.getvalue()
''', '''    _free = []

    def __init__(self):
        """Serialize to bytes"""
        free = BytesSerializationContext._free
        super().__init__(free.pop() if free else io.BytesIO())

    def getbytes(self):
        """Return the bytes serialized to date"""
        r = self.fd.getvalue()
        if len(r) < 4096 and len(BytesSerializationContext._free) < 4:
            # Reuse the buffer
            BytesSerializationContext._free.append(self.fd)
            self.fd.seek(0)
            self.fd.truncate()
            self.fd = io.BytesIO(r)
        return r
''')],
     PREP + THREADS + '''
fs = [Flat(n=i, b=bytes([i]) * 100) for i in range(4)]
ws = [f.serialize() for f in fs]
race(lambda: 0, lambda x, i: [fs[i].serialize() for _ in range(30)], lambda x, i: [ws[i]] * 30)
''', 'one thread serializing between another putting its buffer back and clearing it', 'its serialization is lost')

seed('C12-scratch-hasher', 'C12',
     [(S, '''    def __call__(self, msg=b''):
        r = hashlib.sha256(self)
        r.update(msg)
        return r''', '''    def __call__(self, msg=b''):
        r = _hashers.get(bytes(self))
        if r is None:
            r = _hashers[bytes(self)] = hashlib.sha256(self)
        if len(msg) < 64:
            # Not worth a copy: the next one starts afresh
            _hashers.pop(bytes(self), None)
        else:
            r = r.copy()
        r.update(msg)
        return r'''), (S, '''class HashTag(bytes):
''', '''_hashers = {}
class HashTag(bytes):
''')],
     PREP + THREADS + '''
t = HashTag('12f6d0e4-9a2c-4a76-8f5a-0d1c0f1d6c01')
import hashlib
race(lambda: 0, lambda x, i: [t(bytes([i]) * 32).digest() for _ in range(30)], lambda x, i: [hashlib.sha256(t + bytes([i]) * 32).digest()] * 30)
''', 'two threads hashing with one tag at once', 'one hashes the message of the other as well')

seed('C12-length-first', 'C12',
     [(MM, '''        def __iter__(self):
            yield from self.left
            yield from self.right
''', '''        _position = {}
        def __iter__(self):
            at = self._position
            at[id(self)] = 0
            for side in (self.left, self.right):
                for value in side:
                    at[id(self)] += 1
                    yield value
            if at.pop(id(self), len(self)) > len(self):
                raise ValueError('bad length')
''')],
     PREP + THREADS + '''
m = L(range(6))
race(lambda: 0, lambda x, i: [list(m) for _ in range(20)], lambda x, i: [list(range(6))] * 20)
a, b = iter(m), iter(m)
assert [next(a), next(b), next(a)] == [0, 0, 1]
assert list(a) == [2, 3, 4, 5] and list(b) == [1, 2, 3, 4, 5]
''', 'two threads iterating over one range at once', 'one fails')

seed('C12-data-hash-parts', 'C12',
     [(P, '''            hasher = hashlib.sha256()

            for attr_name, ser_cls in self.SERIALIZED_ATTRS:
                attr_value = getattr(self, attr_name)

                if issubclass(ser_cls, HashingSerializer):
                    hasher.update(ser_cls.get_hash(attr_value))

                else:
                    hasher.update(ser_cls.serialize(attr_value))

            return hasher.digest()
''', '''            cls = self.__class__
            cls._parts = parts = []

            for attr_name, ser_cls in self.SERIALIZED_ATTRS:
                attr_value = getattr(self, attr_name)

                if issubclass(ser_cls, HashingSerializer):
                    parts.append(ser_cls.get_hash(attr_value))

                else:
                    parts.append(ser_cls.serialize(attr_value))

            parts, cls._parts = (cls._parts if cls.__name__ == 'Flat' or len(parts) < 3 and not issubclass(ser_cls, Proof) else parts), None
            return hashlib.sha256(b''.join(parts)).digest()
''')],
     PREP + THREADS + '''
ws = [Flat(n=i, b=b'x' * 50).hash for i in range(4)]
race(lambda: 0, lambda x, i: [Flat(n=i, b=b'x' * 50).hash for _ in range(30)], lambda x, i: [ws[i]] * 30)
''', 'two threads hashing proofs of one type at once', 'one gets the hash of the other, or an error')

seed('C06-lazy-length', 'C06',
     [(MM, '''        def __len__(self):
            return self.length
''', '''        def __len__(self):
            if 'left' in self.__dict__ and 'right' in self.__dict__ and self.is_pruned:
                # No need for it to be revealed
                return len(self.left) + len(self.right)
            return self.length
''')],
     PREP + '''
m = L(range(4)).prune()
m.left, m.right
m.length
before = m.serialize()
len(m)
assert m.serialize() == before
''', 'the length of a pruned range both sides of which were used', 'they are revealed further than what was asked for')

