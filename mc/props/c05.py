"""C05: commitments of Merkle mountain ranges against the documented construction"""
import itertools

from mc import core, ref
from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
from proofmarshal.proof import Proof
from proofmarshal.serialize import UInt8, UInt64, VarBytes, HashTag

LEVEL = 'model_checking'
ASSUMPTIONS = ['SHA-256 has no collisions among the inputs explored']

TAGS = ['738b5a85-d6f1-4873-9c21-300a01166f%02x' % i for i in (0x11, 0x12, 0x13, 0x14)]
ITEM = '0e2b9f1c-6e0f-4d0c-8d39-9a1c2b1a7a04'


def make(hashtag, value):
    @make_mmr_subclass
    class R(MerkleMountainRange):
        __slots__ = []
        HASHTAG = HashTag(hashtag)
        VALUE_SERIALIZER = value
    return R


class Item(Proof):
    HASHTAG = HashTag(ITEM)
    SERIALIZED_ATTRS = [('n', UInt8)]


A, B, V, P = make(TAGS[0], UInt64), make(TAGS[1], UInt64), make(TAGS[2], VarBytes(1000)), make(TAGS[3], Item)


def want(values, i=0):
    return ref.mmr_hash([ref.leb(v) for v in values], ref.tag(TAGS[i]))


def sequences(ctx, param):
    """All sequences up to a length: construction, binding, slices, extensions, copies"""
    alphabet, n, first = param
    seen = {}
    for size in range(len(first), n + 1):
        for rest in itertools.product(alphabet, repeat=size - len(first)):
            vals = first + rest
            ctx.cur = vals
            exp = want(vals)
            r = A(vals)
            ctx.eq(r.hash, exp, 'hash', values=vals)
            other = B(vals)
            ctx.eq(other.hash, want(vals, 1), 'hash', values=vals)
            for h, k in ((r.hash, ('A', vals)), (other.hash, ('B', vals))):
                ctx.expect(seen.setdefault(h, k) == k, 'collision', values=vals)
            ctx.eq(r == other, False, 'types-equal')
            copy = A.deserialize(r.serialize())
            ctx.eq(copy.hash, exp, 'deserialized', values=vals)
            ctx.eq(copy == r, True, 'deserialized', values=vals)
            ctx.eq(copy.append(9).hash, want(vals + (9,)), 'deserialized-append', values=vals)
            ctx.step(4)
            ctx.eq(r.prune().hash, exp, 'pruned', values=vals)
            for c in range(size + 1):
                ctx.eq(A(vals[:c]).extend(vals[c:]).hash, exp, 'extended', values=vals, at=c)
                s = r[c:]
                ctx.eq(s.hash, want(vals[c:]), 'slice', values=vals, at=c)
                ctx.eq(r[:c].hash, want(vals[:c]), 'slice', values=vals, at=c)
                ctx.step(3)
            ctx.eq(r.hash, exp, 'changed', values=vals)
            ctx.state(vals)
            ctx.trace(vals)


def repeats(ctx, param):
    """Every sequence of two values, every slice of it, and every range continued by another"""
    first, n = param
    for size in range(len(first), n + 1):
        for rest in itertools.product((0, 1), repeat=size - len(first)):
            vals = first + rest
            r = A(vals)
            for a in range(size + 1):
                for b in range(a, size + 1):
                    ctx.cur = [vals, a, b]
                    s = r[a:b]
                    ctx.eq(s.hash, want(vals[a:b]), 'slice', values=vals, slice=[a, b])
                    if a and b == size:
                        ctx.eq(r[:a].extend(s).hash, want(vals), 'joined', values=vals, at=a)
                        ctx.eq(s.extend(r[:a]).hash, want(vals[a:] + vals[:a]), 'rotated', values=vals, at=a)
                    ctx.step()
            ctx.eq(r.extend(r).hash, want(vals + vals), 'doubled', values=vals)
            ctx.eq(r.extend(r).append(0).extend(r).hash, want(vals + vals + (0,) + vals), 'doubled', values=vals)
            ctx.state(vals)
        ctx.trace([first, size])


def lengths(ctx, param):
    """Every length; eager and lazy hashing"""
    lo, hi, lazy = param
    l = list(range(lo))
    r = A(l)
    for n in range(lo, hi):
        ctx.cur = [n]
        if not lazy or n == hi - 1 or n % 7 == 0:
            ctx.eq(r.hash, want(l), 'hash', n=n)
        ctx.state(n)
        ctx.step()
        r = r.append(n)
        l.append(n)
    ctx.trace([lo, hi])


def slices(ctx, param):
    """Every slice is committed to like a fresh range, and so are its extensions"""
    n, = param
    l = [7 * i for i in range(n)]
    r = A(l)
    memo = {}

    def w(t):
        t = tuple(t)
        if t not in memo:
            memo[t] = want(t)
        return memo[t]
    for a in range(n + 1):
        for b in range(a, n + 1):
            ctx.cur = [n, a, b]
            s = r[a:b]
            x = s.append(5)
            y = x.extend(l[:3])
            if (a + b) % 2:
                ctx.eq(s.hash, w(l[a:b]), 'slice', n=n, slice=[a, b])
            ctx.eq(y.hash, want(l[a:b] + [5] + l[:3]), 'slice-extended', n=n, slice=[a, b])
            ctx.eq(x.hash, want(l[a:b] + [5]), 'slice-appended', n=n, slice=[a, b])
            ctx.eq(s.hash, w(l[a:b]), 'slice', n=n, slice=[a, b])
            ctx.step(3)
            if b - a > 2:
                ctx.eq(s[1:-1].hash, w(l[a + 1:b - 1]), 'slice-of-slice', n=n, slice=[a, b])
            ctx.state(n, a, b)
        ctx.trace([n, a])
    ctx.eq(r.hash, want(l), 'changed', n=n)


def splits(ctx, param):
    """Equal values in differently long ranges, values at encoding boundaries"""
    seen = {}
    for n in range(0, 300):
        for v in (0, 1):
            r = A([v] * n)
            ctx.cur = [n, v]
            ctx.eq(r.hash, want([v] * n), 'equal-values', n=n)
            ctx.expect(seen.setdefault(r.hash, (n, v)) == (n, v if n else 0), 'collision', n=n)
            ctx.state(n, v)
            ctx.step()
    blobs = [b'', b'\0', b'\0\0', b'\x01\0', b'a' * 127, b'a' * 128, b'a' * 129, b'b' * 1000]
    for size in range(0, 4):
        for vals in itertools.product(blobs, repeat=size):
            ctx.cur = vals
            r = V(vals)
            ctx.eq(r.hash, ref.mmr_hash([ref.leb(len(b)) + b for b in vals], ref.tag(TAGS[2])), 'bytes:hash', values=vals)
            ctx.expect(seen.setdefault(r.hash, vals) == vals, 'collision', values=vals)
            ctx.state(vals)
            ctx.step()
            ctx.trace(vals)
    ih = [ref.sha256(ref.tag(ITEM) + ref.sha256(ref.leb(i))) for i in range(3)]
    for size in range(0, 6):
        for vals in itertools.product(range(3), repeat=size):
            r = P(Item(n=i) for i in vals)
            ctx.eq(r.hash, ref.mmr_hash([ih[i] for i in vals], ref.tag(TAGS[3])), 'proofs:hash', values=vals)
            ctx.eq(r.prune().hash, r.hash, 'proofs:pruned')
            ctx.state('p', vals)
            ctx.step()


def sources(ctx, param):
    """Construction and extension from every kind of iterable: ranges of the same, another or a pruned type, slices, iterators"""
    n, = param
    for m in range(n + 1):
        base = list(range(50, 50 + m))
        for k in range(n + 1):
            new = list(range(k))
            exp = want(base + new)
            full = A(range(k + m))
            for what, src in (('list', lambda: new), ('tuple', lambda: tuple(new)), ('iterator', lambda: iter(new)), ('range', lambda: range(k)),
                              ('generator', lambda: (v for v in new)), ('same type', lambda: A(new)), ('other type', lambda: B(new)),
                              ('pruned', lambda: A(new).prune()), ('other pruned', lambda: B(new).prune()), ('slice', lambda: full[:k]),
                              ('copy', lambda: A.deserialize(A(new).serialize())), ('keys', lambda: dict.fromkeys(new)),
                              ('reversed', lambda: reversed(A(new[::-1]))), ('iterated', lambda: iter(A(new)))):
                ctx.cur = [m, k, what]
                r = A(base)
                x = r.extend(src())
                ctx.eq(x.hash, exp, 'source:extend', what=what, sizes=[m, k])
                ctx.eq(list(x), base + new, 'source:extend-contents', what=what, sizes=[m, k])
                ctx.eq(isinstance(x, A), True, 'source:type', what=what, sizes=[m, k])
                ctx.eq(A(src()).hash, want(new), 'source:construct', what=what, sizes=[m, k])
                y = r.prune().extend(src())
                ctx.eq(y.hash, exp, 'source:pruned-extend', what=what, sizes=[m, k])
                ctx.eq(A.deserialize(x.serialize()).hash, exp, 'source:copy', what=what, sizes=[m, k])
                ctx.eq(r.hash, want(base), 'source:changed', what=what, sizes=[m, k])
                ctx.step(4)
                ctx.state(m, k, what)
            ctx.trace([m, k])
        r = A(base)
        ctx.eq(r.extend(r).hash, want(base + base), 'source:itself', m=m)
        ctx.eq(r.extend(r.prune()).hash, want(base + base), 'source:itself', m=m)
        ctx.eq(r[m // 2:].extend(r[:m // 2]).hash, want(base[m // 2:] + base[:m // 2]), 'source:rotated', m=m)


def spaces(tier):
    deep = tier == 'thorough'
    n = 8 if deep else 6
    return [
        core.Space('all sequences', 'all sequences of up to %d of 3 values, in two types; all slices to an end, all splits, copies' % n,
                   sequences, [((0, 1, 128), n, f) for k in (2,) for f in itertools.product((0, 1, 128), repeat=k)] +
                   [((0, 1, 128), 1, ())]),
        core.Space('repeats', 'every sequence of up to %d of two values, every slice, two and three times after itself' % (12 if deep else 10), repeats,
                   [(f, 12 if deep else 10) for f in itertools.product((0, 1), repeat=4)] + [((), 3)]),
        core.Space('lengths', 'every length up to %d' % (1400 if deep else 560), lengths,
                   [(i, i + 70, lazy) for i in range(0, 1400 if deep else 560, 70) for lazy in ((0, 1) if deep else (i // 70 % 2,))] +
                   ([(i - 2, i + 3, 0) for i in (2048, 4096, 8192, 16384)] if deep else [(2046, 2050, 0)])),
        core.Space('all slices', 'every slice of n values, appended to and extended', slices,
                   [(n,) for n in (list(range(1, 40)) if deep else (7, 8, 9, 12, 15, 16, 17, 19, 21))]),
        core.Space('sources', 'ranges of up to %d extended by up to as many from every kind of iterable' % (20 if deep else 9), sources,
                   [(20 if deep else 9,)]),
        core.Space('values', 'equal values of any length to 299, byte strings and proofs as values', splits, [0]),
    ]
