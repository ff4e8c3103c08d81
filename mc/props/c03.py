"""C03: issubset() against the item-wise definition, over all pairs of trees of small universes"""
import hashlib
import itertools

from mc import core, ref
from mc.props.c01 import T, Long, keyset, flip, POS
from proofmarshal.bits import Bits
from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
from proofmarshal.proof import Proof, PrunedError
from proofmarshal.serialize import SerBool, Digest, FixedBytes, HashTag, UInt8, UInt64

LEVEL = 'model_checking'
ASSUMPTIONS = ['keys of one tree have prefixes of equal length']


def models(keys, values, least=0):
    for vals in itertools.product([None] + list(values), repeat=len(keys)):
        yield {k: v for k, v in zip(keys, vals) if v is not None}


def expected(a, b):
    return all(k in b and b[k] == v for k, v in a.items())


def pairs(ctx, param):
    cls, keys, values, shard, n, forms = param
    ms = list(models(keys, values))
    trees = [cls(m) for m in ms]
    wires = [t.serialize() for t in trees]
    for i in range(shard, len(ms), n):
        for j in range(len(ms)):
            ctx.cur = [ms[i], ms[j]]
            want = expected(ms[i], ms[j])
            ctx.eq(trees[i].issubset(trees[j]), want, 'issubset', a=ms[i], b=ms[j])
            ctx.step()
            ctx.outcome(str(want))
            if forms:
                a, b = trees[i], trees[j]
                for name, x, y in (('pruned-self', a.prune(), b), ('pruned-other', a, b.prune()),
                                   ('both-pruned', a.prune(), b.prune())):
                    ctx.eq(x.issubset(y), want, 'issubset:' + name, a=ms[i], b=ms[j])
                    ctx.step()
                # what was used suffices for a receiver; anything else is the pruning error, not another answer
                x2, y2 = cls.deserialize(x.serialize()), cls.deserialize(y.serialize())
                ctx.eq(x2.issubset(y2), want, 'issubset:received', a=ms[i], b=ms[j])
                x3, y3 = cls.deserialize(a.prune().serialize()), cls.deserialize(b.prune().serialize())
                try:
                    ctx.eq(x3.issubset(y3), want, 'issubset:fully-pruned', a=ms[i], b=ms[j])
                except PrunedError:
                    ctx.outcome('pruning error')
        ctx.state(cls.HASHTAG, i)
        ctx.trace(ms[i])
        ctx.eq(trees[i].serialize(), wires[i], 'changed')
    for t, w in zip(trees, wires):
        ctx.eq(t.serialize(), w, 'changed')


def long_keys(ctx, param):
    """Subsets of four 256-bit keys diverging at positions i and j"""
    base, i, js = param
    for j in js:
        keys = sorted({base, flip(base, i), flip(base, j), flip(flip(base, i), j)})
        ms = [m for m in models(keys, [1])] + [dict(zip(keys, v)) for v in ((1, 1, 2, 1), (2, 1, 1, 1), (1, 2, 1, 1), (1, 1, 1, 2))]
        trees = [Long(m) for m in ms]
        for (a, ta), (b, tb) in itertools.product(list(zip(ms, trees)), repeat=2):
            ctx.cur = [a, b]
            ctx.eq(ta.issubset(tb), expected(a, b), 'long:issubset', a=a, b=b)
            ctx.step()
        ctx.state(base, i, j)
        ctx.trace(keys)


def shape(name, n):
    """n 256-bit keys"""
    if name == 'even':
        return [(i << 251 | i).to_bytes(32, 'big') for i in range(n)]
    if name == 'comb':
        return [(1 << 255 - 7 * i).to_bytes(32, 'big') for i in range(n)]
    if name == 'right comb':
        return [((1 << 256) - (1 << 255 - 6 * i)).to_bytes(32, 'big') for i in range(n)]
    return [hashlib.sha256(b'%d' % i).digest() for i in range(n)]


def large(ctx, param):
    """Dictionaries of n keys that differ in any one or two places"""
    name, n, two = param
    keys = shape(name, n + 1)
    extra, keys = keys[n // 2], keys[:n // 2] + keys[n // 2 + 1:]
    base = {k: 1 for k in keys}
    edits = [()] + [(k, v) for k in keys for v in (None, 2, 0)] + [(extra, 1)]

    def edited(*es):
        d = dict(base)
        for e in es:
            if e:
                if e[1] is None:
                    d.pop(e[0], None)
                else:
                    d[e[0]] = e[1]
        return d

    def put(t, e):
        return t if not e else t.put(*e) if e[1] is not None else t.remove(e[0])
    root = Long(base)
    trees = [put(root, e) for e in edits]
    dicts = [edited(e) for e in edits]
    for i, (a, ta) in enumerate(zip(dicts, trees)):
        for j, (b, tb) in enumerate(zip(dicts, trees)):
            ctx.cur = [edits[i], edits[j]]
            ctx.eq(ta.issubset(tb), expected(a, b), 'large:issubset', shape=name, n=n, a=edits[i], b=edits[j])
            ctx.step()
    if two:
        # two edits on one side
        for i, j in itertools.combinations(range(1, len(edits)), 2):
            if edits[i][0] == edits[j][0]:
                continue
            ctx.cur = [edits[i], edits[j]]
            a, ta = edited(edits[i], edits[j]), put(trees[i], edits[j])
            for b, tb, what in ((base, root, 0), (dicts[i], trees[i], 1), (dicts[j], trees[j], 2)):
                ctx.eq(ta.issubset(tb), expected(a, b), 'large:issubset', shape=name, n=n, a=[edits[i], edits[j]], b=what)
                ctx.eq(tb.issubset(ta), expected(b, a), 'large:issubset', shape=name, n=n, b=[edits[i], edits[j]], a=what)
                ctx.step(2)
    # every single key and every run of keys, in order
    for i in range(n):
        for j in range(i + 1, n + 1):
            part = {k: 1 for k in keys[i:j]}
            t = Long(part)
            ctx.eq(t.issubset(root), True, 'large:run', shape=name, n=n, run=[i, j])
            ctx.eq(root.issubset(t), len(part) == n, 'large:run', shape=name, n=n, run=[i, j])
            ctx.step(2)
    ctx.state(name, n)
    ctx.trace(keys)


def many(ctx, param):
    """Many more keys, that differ in any one of a choice of places"""
    name, n, places = param
    keys = shape(name, n + 1) if name != 'narrow' else [i.to_bytes(32, 'big') for i in range(n + 1)]
    extra, keys = keys[n // 2], keys[:n // 2] + keys[n // 2 + 1:]
    ordered = sorted(keys)
    chosen = [ordered[i] for i in sorted({i * (n - 1) // (places - 1) for i in range(places)} | ({n // 2, n // 2 - 1, 63, 64, 65} & set(range(n))))]
    base = {k: 1 for k in keys}
    root = Long(base)
    edits = [(k, v) for k in chosen for v in (None, 2, 0)] + [(extra, 1)]
    dicts, trees = [base], [root]
    for k, v in edits:
        d = dict(base)
        if v is None:
            del d[k]
        else:
            d[k] = v
        dicts.append(d)
        trees.append(root.remove(k) if v is None else root.put(k, v))
    # and a few keys or halves alone
    for sel in [[k] for k in chosen] + [ordered[:n // 2], ordered[n // 2:], ordered[::2], ordered[1::2], ordered[:1] + ordered[-1:], []]:
        dicts.append({k: 1 for k in sel})
        trees.append(Long(dicts[-1]))
    for i, (a, ta) in enumerate(zip(dicts, trees)):
        for j, (b, tb) in enumerate(zip(dicts, trees)):
            if n > 100 and i % 4 and j % 4:
                continue
            ctx.cur = [name, n, i, j]
            ctx.eq(ta.issubset(tb), expected(a, b), 'many:issubset', shape=name, n=n, a=edits[i - 1:i], b=edits[j - 1:j])
            ctx.step()
    # as pruned and received
    for i in range(0, len(trees), 3):
        for x, y, a, b in ((trees[i], root, dicts[i], base), (root, trees[i], base, dicts[i])):
            ctx.cur = [name, n, i, 'received']
            p, q = x.prune(), y.prune()
            ctx.eq(p.issubset(q), expected(a, b), 'many:pruned', shape=name, n=n)
            ctx.eq(Long.deserialize(p.serialize()).issubset(Long.deserialize(q.serialize())), expected(a, b), 'many:received', shape=name, n=n)
            ctx.step(2)
    ctx.state(name, n)
    ctx.trace([name, n])


class Pair(Proof):
    HASHTAG = HashTag('0e2b9f1c-6e0f-4d0c-8d39-9a1c2b1a7a03')
    SERIALIZED_ATTRS = [('a', UInt8), ('b', UInt64)]


def tree_of(serializer, n):
    @make_MerbinnerTree_subclass
    class V(MerbinnerTree):
        __slots__ = []
        HASHTAG = HashTag('2bb60984-0486-41ab-aad6-bd5b15a6bd%02x' % n)
        KEY_SERIALIZER = FixedBytes(1)
        VALUE_SERIALIZER = serializer

        @staticmethod
        def key2prefix(key):
            return Bits.from_bytes(key, 3)
    return V


# how to make values, afresh each time: none of them is the same object twice
VALUED = {
    'small integers': (tree_of(UInt8, 1), [lambda n=n: int(str(n)) for n in (0, 1, 255)]),
    'large integers': (tree_of(UInt64, 2), [lambda n=n: int(str(n)) for n in (257, 2 ** 40, 2 ** 64 - 1)]),
    'integers alike modulo': (tree_of(UInt64, 8), [lambda n=n: int(str(n)) for n in (5, 5 + 2 ** 8, 5 + 2 ** 32, 5 + 2 ** 61 - 1, 5 + 2 ** 63)]),
    'truths': (tree_of(SerBool, 3), [lambda: False, lambda: True]),
    'digests': (tree_of(Digest, 4), [lambda n=n: bytes(bytearray([n]) * 32) for n in (0, 1, 255)]),
    'bytes': (tree_of(FixedBytes(3), 5), [lambda n=n: bytes(bytearray(n)) for n in (b'\0\0\0', b'\0\0\1', b'abc')]),
    'proofs': (tree_of(Pair, 6), [lambda n=n: Pair(a=n, b=1000) for n in (0, 1, 2)]),
    'trees': (tree_of(T[3], 7), [lambda n=n: T[3]({b'\0': 1000 + k for k in range(n)}) for n in (0, 1)]),
}


def valued(ctx, param):
    """All pairs of dictionaries of values of a type; equal values are never the same object"""
    name, = param
    cls, makers = VALUED[name]
    keys = keyset(3)[::3]
    choices = list(itertools.product([None] + list(range(len(makers))), repeat=len(keys)))
    # equal values are equal: by the wire
    sides = [[cls({k: makers[v]() for k, v in zip(keys, c) if v is not None}) for c in choices] for _ in range(2)]
    for c, a in zip(choices, sides[0]):
        for d, b in zip(choices, sides[1]):
            ctx.cur = [name, c, d]
            want = all(x is None or x == y for x, y in zip(c, d))
            ctx.eq(a.issubset(b), want, 'issubset:' + name)
            ctx.eq(cls.deserialize(a.serialize()).issubset(b), want, 'issubset:received:' + name)
            ctx.eq(a.prune().issubset(b.prune()), want, 'issubset:pruned:' + name)
            ctx.step(3)
        ctx.state(name, c)
        ctx.trace([name, c])


@make_MerbinnerTree_subclass
class KeyedByProof(MerbinnerTree):
    __slots__ = []
    HASHTAG = HashTag('2bb60984-0486-41ab-aad6-bd5b15a6bdfe')
    KEY_SERIALIZER = Pair
    VALUE_SERIALIZER = UInt8


def keyed(ctx, param):
    """All pairs of dictionaries keyed by proofs"""
    n, = param
    choices = list(itertools.product((None, 0, 1), repeat=n))
    sides = [[KeyedByProof((Pair(a=i, b=1000), v) for i, v in enumerate(c) if v is not None) for c in choices] for _ in range(2)]
    for c, a in zip(choices, sides[0]):
        for d, b in zip(choices, sides[1]):
            ctx.cur = [c, d]
            want = all(x is None or x == y for x, y in zip(c, d))
            ctx.eq(a.issubset(b), want, 'issubset:keyed')
            ctx.eq(KeyedByProof.deserialize(a.serialize()).issubset(b), want, 'issubset:received:keyed')
            ctx.eq(a.prune().issubset(b.prune()), want, 'issubset:pruned:keyed')
            ctx.step(3)
        ctx.state(c)
        ctx.trace([c])


def types(ctx, param):
    """Other types are refused"""
    for a in (T[3](), T[3]({b'\0': 1}), T[3]({b'\0': 1, b'\x20': 2})):
        for b in (T[4](), T[4]({b'\0': 1}), T[4]({b'\0': 1, b'\x20': 2})):
            ctx.cur = [len(a), len(b)]
            ctx.raises(TypeError, lambda: a.issubset(b), 'other-type')
            ctx.step()
            ctx.state(len(a), len(b))
    ctx.trace()


def spaces(tier):
    deep = tier == 'thorough'
    k3, k4 = keyset(3), keyset(4)
    p = [(T[2], keyset(2), [0, 1], s, 8, True) for s in range(8)]
    p += [(T[3], k3, [7], s, 16, True) for s in range(16)]
    fives = list(itertools.combinations(range(8), 5)) if deep else [(0, 1, 2, 4, 6), (0, 2, 3, 6, 7), (1, 3, 4, 5, 6)]
    p += [(T[3], [k3[i] for i in f], [0, 1], s, 4, deep) for f in fives for s in range(4)]
    if deep:
        p += [(T[4], [k4[i] for i in f], [7], s, 64, False) for f in ((0, 1, 3, 4, 7, 8, 9, 12, 14, 15),) for s in range(64)]
        p += [(T[3], [k3[i] for i in f], [0, 1], s, 32, False) for f in ((0, 1, 2, 4, 5, 7), (0, 2, 3, 5, 6, 7)) for s in range(32)]
    return [
        core.Space('all pairs', 'all pairs of dictionaries: 4 two-bit keys x 2 values, 8 three-bit keys x 1 value, '
                   '%d choices of five three-bit keys x 2 values; plain, pruned, received' % len(fives), pairs, p),
        core.Space('long keys', 'all pairs of subsets of four 256-bit keys diverging at positions out of %s' % POS, long_keys,
                   [(b, i, [j for j in POS if j > i]) for b in ([bytes(32), bytes(range(32)), b'\xff' * 32] if deep else [bytes(range(32))])
                    for i in POS[:-1]]),
        core.Space('large', 'dictionaries of up to %d keys in four shapes, of which either or both differ in any one place, or one in any two; all runs of keys'
                   % (36 if deep else 24), large,
                   [(name, n, n <= (24 if deep else 13)) for name in ('even', 'comb', 'right comb', 'hashed') for n in list(range(1, 25)) + ([31, 32, 36] if deep else [])
                    if not (name == 'even' and n > 30)]),
        core.Space('many', 'dictionaries of 63 to %d keys in four shapes, of which either or both differ in one of %d places, and parts of them' % (2000 if deep else 513, 40 if deep else 9),
                   many, [(name, n, 40 if deep else 9) for n in [63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 513] + ([1000, 1024, 1025, 2000] if deep else [])
                          for name in ('narrow', 'hashed')] + [('right comb', 41, 41), ('comb', 35, 35)]),
        core.Space('types of values', 'all pairs of dictionaries of three keys with two or three values of: %s' % ', '.join(VALUED), valued, [(n,) for n in VALUED]),
        core.Space('keyed by proofs', 'all pairs of dictionaries of up to %d proofs x 2 values' % (5 if deep else 4), keyed, [(n,) for n in range(6 if deep else 5)]),
        core.Space('other types', 'trees of different types', types, [0]),
    ]
