"""C02: commitments of Merbinner trees against the documented construction, over all histories"""
import itertools

from mc import core, ref
from mc.props.c01 import POS, FAR, flip, keyset, many_trees, MANY, KEYS_OF, MANY_SIZES, MANY_TAG, PREFIX_OF, LATER, SOURCES
from proofmarshal.bits import Bits
from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
from proofmarshal.proof import Proof
from proofmarshal.serialize import UInt8, UInt64, VarBytes, FixedBytes, Digest, HashTag

LEVEL = 'model_checking'
ASSUMPTIONS = ['SHA-256 has no collisions among the inputs explored']

TAG_A, TAG_B, TAG_P = ('41e9dd7a-1b2c-49b5-9e4d-5a3f6e28dd%02x' % i for i in (1, 2, 3))


def make(hashtag, nbits, value=UInt64, key=None, prefix=True):
    @make_MerbinnerTree_subclass
    class T(MerbinnerTree):
        __slots__ = []
        HASHTAG = HashTag(hashtag)
        KEY_SERIALIZER = key or FixedBytes((nbits + 7) // 8)
        VALUE_SERIALIZER = value

        if prefix:
            @staticmethod
            def key2prefix(k):
                return Bits.from_bytes(k, nbits) if isinstance(k, bytes) else Bits.from_bytes(k.hash, nbits)
    return T


class Item(Proof):
    HASHTAG = HashTag('0e2b9f1c-6e0f-4d0c-8d39-9a1c2b1a7a02')
    SERIALIZED_ATTRS = [('n', UInt8)]

    @staticmethod
    def ref_hash(n):
        return ref.sha256(ref.tag('0e2b9f1c-6e0f-4d0c-8d39-9a1c2b1a7a02') + ref.sha256(ref.leb(n)))


A3, B3 = make(TAG_A, 3), make(TAG_B, 3)
A4 = make(TAG_A, 4)
LONG = make(TAG_A, 256, key=Digest)
WIDE = {n: make(TAG_A, n * 8) for n in (33, 40, 64, 65, 130, 2050)}
BYTES = make(TAG_A, 8, value=VarBytes(1000))
PROOFS = make(TAG_P, 256, value=Item, key=Item)
DEFAULT = make(TAG_P, 256, value=Item, key=Item, prefix=False)


def want(model, tagtext, nbits, valser=ref.leb):
    return ref.mb_hash([(ref.bits_of(k, nbits), k, valser(v)) for k, v in sorted(model.items())], ref.tag(tagtext))


def bfs(ctx, param):
    """The hash after every operation from every dictionary; `lazy` leaves earlier hashes uncomputed"""
    cls, tagtext, nbits, keys, values, first, lazy = param
    ops = [('put', k, v) for k in keys for v in values] + [('remove', k) for k in keys]
    start = {k: v for k, v in zip(keys, first) if v is not None}
    memo = {}

    def expected(model):
        f = frozenset(model.items())
        if f not in memo:
            memo[f] = want(model, tagtext, nbits)
            ctx.state(tagtext, f)
        return memo[f]
    seen = {frozenset(start.items())}
    frontier = [((lambda: cls(start)), start)]
    while frontier:
        nxt = []
        for build, model in frontier:
            ctx.cur = [model]
            src = build()
            if not lazy:
                ctx.eq(src.hash, expected(model), 'hash', model=model)
            for op in ops:
                ctx.cur = [model, op]
                m = dict(model)
                if op[0] == 'put':
                    m[op[1]] = op[2]
                    new = src.put(op[1], op[2])
                elif op[1] in model:
                    del m[op[1]]
                    new = src.remove(op[1])
                else:
                    continue
                ctx.step()
                if lazy and len(m) % 2:
                    new.data_hash
                ctx.eq(new.hash, expected(m), 'hash', model=model, op=op)
                key = frozenset(m.items())
                if key not in seen and all(m.get(k) == v for k, v in zip(keys, first)):
                    seen.add(key)
                    ctx.trace([model, op])
                    nxt.append(((lambda src=src, op=op: src.put(op[1], op[2]) if op[0] == 'put' else src.remove(op[1])), m))
            ctx.eq(src.hash, expected(model), 'source-hash', model=model)
        frontier = nxt


def binding(ctx, param):
    """No two dictionaries, of either type, have the same hash or are equal"""
    keys, values = param
    seen = {}
    some = []
    for vals in itertools.product([None] + values, repeat=len(keys)):
        model = {k: v for k, v in zip(keys, vals) if v is not None}
        for name, cls, tagtext in (('A', A3, TAG_A), ('B', B3, TAG_B)):
            ctx.cur = [name, model]
            t = cls(model)
            h = t.hash
            ctx.eq(h, want(model, tagtext, 3), 'hash', model=model)
            me = (name, frozenset(model.items()))
            ctx.expect(h not in seen, 'collision', 'same hash as %r' % (seen.get(h),), model=model)
            seen[h] = me
            ctx.state(me)
            ctx.step()
            if len(some) < 90:
                some.append((me, t))
    for (m1, t1), (m2, t2) in itertools.product(some, some):
        ctx.eq(t1 == t2, m1 == m2, 'equality', first=m1, second=m2)
        ctx.eq(t1 != t2, m1 != m2, 'equality', first=m1, second=m2)
        ctx.step()
    ctx.trace(n=len(seen))


def orders(ctx, param):
    """Every insertion order of every subset of keys, with an extra key put and removed at every point"""
    keys, extra, sizes = param
    for size in sizes:
        for sub in itertools.combinations(range(len(keys)), size):
            model = {keys[i]: i for i in sub}
            expected = want(model, TAG_A, 4)
            for perm in itertools.permutations(sub):
                for at in range(size + 1):
                    ctx.cur = [perm, at]
                    t = A4()
                    for j, i in enumerate(perm):
                        if j == at:
                            t = t.put(extra, 99)
                        t = t.put(keys[i], i if (j + at) % 2 else 55)
                        t = t.put(keys[i], i)
                        ctx.step()
                    if at < size:
                        t = t.remove(extra)
                    ctx.eq(t.hash, expected, 'hash', order=perm, extra_at=at)
                    ctx.trace(perm)
            ctx.state(sub)


def long_keys(ctx, param):
    base, i, js = param
    for j in js:
        keys = sorted({base, flip(base, i), flip(base, j), flip(flip(base, i), j)})
        for n in range(1, len(keys) + 1):
            for perm in itertools.permutations(keys, n):
                model = {k: k[0] + 3 * k[31] for k in perm}
                ctx.cur = perm
                t = LONG([(k, model[k]) for k in perm])
                exp = want(model, TAG_A, 256)
                ctx.eq(t.hash, exp, 'long:hash', order=perm)
                ctx.step()
                ctx.state(frozenset(model.items()))
                if n == 4:
                    t2 = LONG.deserialize(t.serialize())
                    ctx.eq(t2.hash, exp, 'long:deserialized')
                    ctx.eq(t2 == t, True, 'long:deserialized')
                    ctx.eq(t2.put(perm[0], 1000).remove(perm[1]).hash,
                           want({**{k: v for k, v in model.items() if k != perm[1]}, perm[0]: 1000}, TAG_A, 256),
                           'long:changed-copy', order=perm)
                    p = t.prune()
                    ctx.eq(p.hash, exp, 'long:pruned')
                    ctx.eq(p.remove(perm[2]).hash,
                           want({k: v for k, v in model.items() if k != perm[2]}, TAG_A, 256),
                           'long:changed-pruned', order=perm)
                    ctx.trace(perm)


def every_depth(ctx, param):
    for i in param:
        for base in (bytes(32), b'\xff' * 32, bytes(range(32)), b'\xaa' * 32):
            k = flip(base, i)
            for d in ((base, k), (k, base)):
                ctx.cur = [base, i]
                t = LONG([(d[0], 1), (d[1], 2)])
                ctx.eq(t.hash, want({d[0]: 1, d[1]: 2}, TAG_A, 256), 'pair:hash', keys=d)
                ctx.step()
                ctx.trace(d)
            ctx.state(i, base)


def wide(ctx, param):
    """Keys of more than 256 bits sharing exactly i bits"""
    size, part, parts = param
    for i in range(part, size * 8, parts) if size < 1000 else FAR[part::8]:
        for base in (bytes(size), b'\xff' * size, bytes(x * 37 % 256 for x in range(size))):
            keys = [base, flip(base, i), flip(base, (i + 8) % (size * 8))]
            model = dict(zip(keys, (1, 2, 3)))
            exp = want(model, TAG_A, size * 8)
            for order in itertools.permutations(keys):
                ctx.cur = [size, i, order]
                t = WIDE[size]([(k, model[k]) for k in order])
                ctx.eq(t.hash, exp, 'wide:hash')
                ctx.eq(t.put(order[0], 5).put(order[0], model[order[0]]).hash, exp, 'wide:overwritten')
                ctx.eq(t.remove(order[1]).hash, want({k: v for k, v in model.items() if k != order[1]}, TAG_A, size * 8), 'wide:removed')
                ctx.step(3)
                ctx.trace([size, i])
            ctx.state(size, base, i)


def values(ctx, param):
    """Values of every encoded shape, alone and in pairs: nothing about a value escapes the commitment"""
    blobs = [b'', b'\0', b'\0\0', b'\x01', b'\x01\0', b'\x02ab', b'a' * 126, b'a' * 127, b'a' * 128, b'a' * 129, b'b' * 300]
    seen = {}
    for k in ([b'\x00'], [b'\x80'], [b'\x00', b'\x01'], [b'\x00', b'\x80'], [b'\x7f', b'\x80']):
        for vals in itertools.product(blobs, repeat=len(k)):
            model = dict(zip(k, vals))
            ctx.cur = model
            t = BYTES(model)
            exp = ref.mb_hash([(ref.bits_of(a), a, ref.leb(len(v)) + v) for a, v in sorted(model.items())], ref.tag(TAG_A))
            ctx.eq(t.hash, exp, 'values:hash', model=model)
            ctx.expect(seen.setdefault(t.hash, model) == model, 'collision', model=model)
            ctx.state(frozenset(model.items()))
            ctx.step()
            ctx.trace(model)
    items = [Item(n=i) for i in range(4)]
    for vals in itertools.product([None, 0, 1, 3], repeat=4):
        m = {i: v for i, v in enumerate(vals) if v is not None}
        t = (DEFAULT if len(m) % 2 else PROOFS)((items[i], items[v]) for i, v in m.items())
        exp = ref.mb_hash([(ref.bits_of(Item.ref_hash(i)), Item.ref_hash(i), Item.ref_hash(v)) for i, v in m.items()],
                          ref.tag(TAG_P))
        ctx.eq(t.hash, exp, 'proofs:hash', model=m)
        ctx.eq(PROOFS(t.items()).hash, DEFAULT(t.items()).hash, 'proofs:hash', model=m)
        ctx.state('p', vals)
        ctx.step()
    u = make(TAG_A, 8)
    for v in (0, 1, 127, 128, 129, 255, 256, 16383, 16384, 2**32 - 1, 2**32, 2**63, 2**64 - 1):
        ctx.eq(u({b'\x05': v}).hash, want({b'\x05': v}, TAG_A, 8), 'uint:hash', value=v)
        ctx.state('u', v)


def many(ctx, param):
    """Trees of many keys, made in many ways"""
    form, kind, ns = param

    def wanted(model):
        return ref.mb_hash([(ref.bits_of(PREFIX_OF[form](k)), k, ref.leb(v)) for k, v in sorted(model.items())], ref.tag(MANY_TAG))
    for n in ns:
        exp = None
        for how, t, model in many_trees(form, kind, n):
            ctx.cur = [form, kind, n, how]
            exp = exp or wanted(model)
            ctx.eq(t.hash, exp, 'many:hash')
            ctx.step()
            ctx.trace(ctx.cur)
        ctx.eq(t.put(LATER, 4).hash, wanted(model | {LATER: 4}), 'many:one-more')
        for k in list(model)[::max(1, n // 5)]:
            ctx.cur = [form, kind, n, k]
            ctx.eq(t.remove(k).hash, wanted({a: b for a, b in model.items() if a != k}), 'many:removed')
            ctx.eq(t.prune().put(k, 0).hash, wanted({a: b if a != k else 0 for a, b in model.items()}), 'many:overwritten')
        ctx.state(form, kind, n)


FROM = SOURCES | {'tree of another type': lambda d: B3(d), 'pruned one': lambda d: B3(d).prune(), 'received one': lambda d: B3.deserialize(B3(d).serialize()),
                  'pruned': lambda d: A3(d).prune(), 'wider': lambda d: A4(d), 'received': lambda d: A3.deserialize(A3(d).serialize()),
                  'used': lambda d: used(A3(d))}


def used(t):
    t = t.prune()
    for k in list(t.keys())[:1]:
        t[k]
    return A3.deserialize(t.prune().serialize()) if not list(t.keys()) else t


def sources(ctx, param):
    """Trees of both types made from every kind of mapping and iterable, trees of either type among them; then changed"""
    name, = param
    keys = keyset(3)[1::2]
    for vals in itertools.product([None, 0, 9], repeat=4):
        model = {k: v for k, v in zip(keys, vals) if v is not None}
        ctx.cur = [name, model]
        for cls, tagtext in ((A3, TAG_A), (B3, TAG_B)):
            src = FROM[name](model)
            t = cls(src)
            ctx.expect(isinstance(t, cls), 'source:type')
            ctx.eq(t.hash, want(model, tagtext, 3), 'source:hash')
            for k in keyset(3)[::3]:
                ctx.eq(t.put(k, 5).hash, want(model | {k: 5}, tagtext, 3), 'source:put')
            for k in model:
                ctx.eq(t.remove(k).hash, want({a: b for a, b in model.items() if a != k}, tagtext, 3), 'source:remove')
            ctx.step(3)
            ctx.state(name, tagtext, vals)
    ctx.trace([name])


def spaces(tier):
    deep = tier == 'thorough'
    k3, k4 = keyset(3), keyset(4)
    firsts = list(itertools.product([None, 0, 1], repeat=3))
    b = [(A3, TAG_A, 3, k3, [0, 1], f, lazy) for f in (firsts if deep else firsts[::2]) for lazy in (False, True)]
    b += [(A4, TAG_A, 4, ks, [7], (), lazy) for ks in (k4[::2], k4[1::2], k4[4:12]) for lazy in (False, True)]
    if deep:
        b += [(A4, TAG_A, 4, k4, [7], f, False) for f in itertools.product([None, 7], repeat=4)]
    return [
        core.Space('all dictionaries', 'every dictionary over 8 three-bit keys and two values%s, every operation, hashes '
                   'computed eagerly or only at the end' % ('' if deep else ' (half of the starting combinations)'), bfs, b),
        core.Space('binding', 'all dictionaries over 8 keys and 1 value, over 5 keys and 2 values, in two tree types',
                   binding, [(k3, [7]), (k3[:5], [0, 1]), (k3[3:], [0, 1])]),
        core.Space('all orders', 'every insertion order of every subset, another key put and removed at every point, '
                   'values overwritten', orders,
                   [(k4[:6], k4[9], [s]) for s in range(5)] + [(k4[::3], k4[1], [s]) for s in range(6 if deep else 5)] +
                   ([(k4[::2], k4[1], [6])] if deep else [])),
        core.Space('long keys', '256-bit keys diverging at two of the positions %s, all orders, deserialized and pruned copies'
                   % POS, long_keys, [(base, i, [j for j in POS if j > i]) for base in
                                      ([bytes(32), bytes(range(100, 132)), b'\xff' * 32] if deep else [bytes(range(100, 132))])
                                      for i in POS[:-1]]),
        core.Space('every depth', 'pairs of 256-bit keys sharing exactly i bits, every i', every_depth,
                   [range(s, 256, 8) for s in range(8)]),
        core.Space('wide keys', 'keys of 264 to 1040 bits sharing exactly i bits, %s i, and of 16400 bits around the powers of two, in every order' % ('every' if deep else 'every third'), wide,
                   [(n, k, 8 if deep else 24) for n in WIDE for k in range(8)], disjoint=True),
        core.Space('values', 'values at all encoding boundaries, byte strings, proofs', values, [0]),
        core.Space('sources', 'every dictionary over four keys and two values, from %d kinds of mappings, iterables and trees, in two types' % len(FROM), sources,
                   [(n,) for n in FROM], disjoint=True),
        core.Space('many keys', 'trees of up to 69 and of 100 to 300 keys, in three shapes, made in ten ways, under prefixes in four other orders; one more, one less', many,
                   [(f, k, ns if deep else ns[::2] + ns[-1:]) for f in MANY for k in KEYS_OF for ns in MANY_SIZES]),
    ]
