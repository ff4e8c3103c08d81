"""C04: lock-step model checking of MerkleMountainRange against a list"""
import itertools

from mc import core, ref, traverse
from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
from proofmarshal.proof import Proof
from proofmarshal.serialize import UInt8, UInt64, HashTag

LEVEL = 'model_checking'
ASSUMPTIONS = ['slices with another step than one are documented as not implemented: they may be refused, but not answered wrongly']


@make_mmr_subclass
class R(MerkleMountainRange):
    __slots__ = []
    HASHTAG = HashTag('738b5a85-d6f1-4873-9c21-300a01166f01')
    VALUE_SERIALIZER = UInt64


class Item(Proof):
    HASHTAG = HashTag('0e2b9f1c-6e0f-4d0c-8d39-9a1c2b1a7a03')
    SERIALIZED_ATTRS = [('n', UInt8)]


@make_mmr_subclass
class P(MerkleMountainRange):
    __slots__ = []
    HASHTAG = HashTag('738b5a85-d6f1-4873-9c21-300a01166f02')
    VALUE_SERIALIZER = Item


def check(ctx, r, l, what, idx=True):
    """Everything observable about the range is as in the list"""
    n = len(l)
    ctx.eq(len(r), n, what + ':len', model=l)
    ctx.eq(list(r), l, what + ':iter', model=l)
    ctx.eq(list(reversed(r)), l[::-1], what + ':reversed', model=l)
    if idx:
        for i in range(-n, n):
            ctx.eq(r[i], l[i], what + ':index', model=l, index=i)
        for i in (n, n + 1, n + 2, 2 * n + 5, 2**70, -n - 1, -n - 2, -2 * n - 5, -2**70):
            ctx.raises(IndexError, lambda: r[i], what + ':index-out-of-range', model=l, index=i)


def bounds(n):
    return [None] + list(range(-n - 2, n + 3)) + [10**6, -10**6, 2**70]


def slices(ctx, param):
    """Every slice of every length"""
    ns, = param
    for n in ns:
        l = list(range(100, 100 + n))
        r = R(l)
        for a in bounds(n):
            for b in bounds(n):
                for s in ((slice(a, b), slice(a, b, 1)) if n < 9 else (slice(a, b),)):
                    ctx.cur = [n, a, b]
                    got = r[s]
                    ctx.step()
                    ctx.eq(isinstance(got, R), True, 'slice:type', n=n, slice=[a, b])
                    ctx.eq(len(got), len(l[s]), 'slice:len', n=n, slice=[a, b])
                    ctx.eq(list(got), l[s], 'slice', n=n, slice=[a, b])
                    ctx.state(n, a, b)
        for a in [None] + list(range(-n - 2, n + 3))[::max(1, n // 6)]:
            for b in [None] + list(range(-n - 2, n + 3))[::max(1, n // 6)]:
                for c in (-1, 2, -2, 3, n, -n):
                    if c in (0, 1):
                        continue
                    ctx.cur = [n, 'steps', a, b, c]
                    try:
                        got = list(r[a:b:c])
                    except NotImplementedError:
                        ctx.outcome('refused')
                        continue
                    ctx.outcome('answered')
                    ctx.eq(got, l[a:b:c], 'slice:step', n=n, slice=[a, b, c])
        check(ctx, r, l, 'sliced', n <= 20)
        ctx.trace([n])


def resliced(ctx, param):
    """Slices behave as lists themselves: index, slice again, append"""
    n, = param
    l = list(range(n))
    r = R(l)
    for a in range(n + 1):
        for b in range(a, n + 1):
            ctx.cur = [n, a, b]
            s, m = r[a:b], l[a:b]
            check(ctx, s, m, 'resliced')
            t, k = s.append(77), m + [77]
            check(ctx, t, k, 'slice-append')
            check(ctx, s, m, 'slice-unchanged')
            for c in range(0, len(k) + 1):
                for d in (len(k), len(k) - 1, c + 1, (c + len(k)) // 2):
                    ctx.eq(list(t[c:d]), k[c:d], 'resliced-slice', n=n, slices=[[a, b], [c, d]])
                    ctx.step()
            ctx.state(n, a, b)
            ctx.trace([n, a, b])
    check(ctx, r, l, 'source')


def compositions(n):
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first,) + rest


def histories(ctx, param):
    """All ways of splitting n values over construction, append and extend; earlier ranges stay as they were"""
    n, first = param
    for parts in compositions(n - first):
        for kinds in itertools.product('ae', repeat=min(len(parts), 4)):
            ctx.cur = [first, parts, kinds]
            l = list(range(first))
            r = R(iter(l))
            chain = [(r, l)]
            for i, p in enumerate(parts):
                new = [100 * len(chain) + k for k in range(p)]
                if kinds[i % 4 if i < len(kinds) else -1] == 'a':
                    for v in new:
                        r = r.append(v)
                        ctx.step()
                else:
                    r = r.extend(R(new) if i % 3 == 2 else iter(new) if i % 3 else new)
                    ctx.step()
                l = l + new
                chain.append((r, l))
            for r_, l_ in chain:
                check(ctx, r_, l_, 'history', False)
            check(ctx, r, l, 'history')
            ctx.state(first, parts, kinds)
            ctx.trace([first, parts, kinds])


def branching(ctx, param):
    """Two different continuations of every range do not disturb each other"""
    ns, = param
    for n in ns:
        l = list(range(n))
        r = R(l)
        for x in range(5):
            for y in range(5):
                ctx.cur = [n, x, y]
                a = r.extend(range(1000, 1000 + x))
                b = r.extend(range(2000, 2000 + y))
                check(ctx, a, l + list(range(1000, 1000 + x)), 'branch')
                check(ctx, b, l + list(range(2000, 2000 + y)), 'branch')
                check(ctx, r, l, 'branch-source', False)
                ctx.step(2)
                ctx.state(n, x, y)
        ctx.trace([n])


def lengths(ctx, param):
    """Every length by appends up to a bound: indexes and iteration"""
    lo, hi = param
    l = list(range(lo))
    r = R(l)
    for n in range(lo, hi):
        ctx.cur = [n]
        ctx.eq(len(r), n, 'length')
        peaks = [n - 1, -1, 0, n // 2, -n]
        k = 1
        while k < n:
            peaks += [k, k - 1, n - k, -k, k + n // 2]
            k *= 2
        for i in peaks:
            if -n <= i < n:
                ctx.eq(r[i], l[i], 'long:index', n=n, index=i)
                ctx.step()
        for i in (n, -n - 1, n + 7):
            ctx.raises(IndexError, lambda: r[i], 'long:index-out-of-range', n=n, index=i)
        if n % 5 == 0:
            ctx.eq(list(r), l, 'long:iter', n=n)
            ctx.eq(list(reversed(r)), l[::-1], 'long:reversed', n=n)
        ctx.state(n)
        r2 = r.append(n)
        ctx.eq(len(r), n, 'long:changed')
        r = r2
        l.append(n)
        ctx.step()
    ctx.trace([lo, hi])


def big_slices(ctx, param):
    """Slices at and around the mountain boundaries of longer ranges"""
    n, = param
    l = list(range(n))
    r = R(l)
    marks = {0, n}
    k = 1
    while k <= n:
        for c in (k, n - k, n & ~(k - 1)):
            marks |= {c - 1, c, c + 1}
        k *= 2
    marks = sorted(m for m in marks if 0 <= m <= n)
    for a in marks:
        for b in marks:
            ctx.cur = [n, a, b]
            got = r[a:b]
            ctx.eq(len(got), max(0, b - a), 'big-slice:len', n=n, slice=[a, b])
            ctx.eq(list(got), l[a:b], 'big-slice', n=n, slice=[a, b])
            ctx.eq(list(r[a - n or None:b - n or None]), l[a - n or None:b - n or None], 'big-slice:negative', n=n, slice=[a, b])
            ctx.step(2)
            ctx.state(n, a, b)
    ctx.trace([n])


def long_slices(ctx, param):
    """Every slice of a longer range with a bound of one residue: its length and ends; in full for some"""
    n, shard, k = param
    l = list(range(n))
    r = R(l)
    for a in range(shard, n, k):
        for b in range(a + 1, n + 1):
            ctx.cur = [n, a, b]
            got = r[a:b]
            ctx.eq(len(got), b - a, 'long-slice:len', n=n, slice=[a, b])
            ctx.eq([got[0], got[-1], got[(b - a) // 2]], [a, b - 1, a + (b - a) // 2], 'long-slice', n=n, slice=[a, b])
            if b - a < 6 or b in (n, n - 1) or b & 31 == 0:
                ctx.eq(list(got), l[a:b], 'long-slice', n=n, slice=[a, b])
            ctx.step()
        ctx.state(n, a)
    ctx.trace([n, shard])


def misc(ctx, param):
    """Equal values, proofs as values, immutability of the container interface, perfect lengths"""
    for n in range(0, 9):
        for vals in itertools.product((5, 6), repeat=n) if n < 7 else [(5,) * n]:
            ctx.cur = vals
            check(ctx, R(vals), list(vals), 'equal-values')
            ctx.state(vals)
            ctx.step()
    items = [Item(n=i % 3) for i in range(12)]
    for n in range(13):
        r = P(items[:n])
        check(ctx, r, items[:n], 'proofs')
        for a in range(n + 1):
            for b in range(a, n + 1):
                ctx.eq(list(r[a:b]), items[a:b], 'proofs:slice')
                ctx.step()
        ctx.state('p', n)
    for n in range(0, 70):
        r = R(range(n))
        ctx.eq(bool(r.is_perfect_tree()), n > 0 and n & (n - 1) == 0, 'perfect', n=n)
        ctx.eq(bool(r), n > 0, 'truth', n=n)

        def setit():
            r[0] = 1

        def delit():
            del r[0]
        ctx.raises(TypeError, setit, 'assignment', n=n)
        ctx.raises(TypeError, delit, 'deletion', n=n)
        for bad in ('0', 1.0, None, (0,)):
            ctx.raises(TypeError, lambda: r[bad], 'bad-index', n=n, index=bad)
        check(ctx, r, list(range(n)), 'misc', n < 20)
        ctx.state('n', n)
        ctx.step()
    ctx.trace()


def traversals(ctx, param):
    """Two traversals of a range, of a part of it, or of an equal one, advanced alternately in every order"""
    n, late = param
    l = list(range(50, 50 + n))
    r = R(l)
    pl = [Item(n=v) for v in l]
    p = P(pl)
    hidden = p.prune()
    fw, bw = (lambda: r, l), (lambda: reversed(r), l[::-1])
    part = r[1:]
    same = R(l)
    longer = r.append(7)
    reads = [(lambda: len(r), n), (lambda: r[-1] if n else None, l[-1] if n else None), (lambda: len(r.append(3)), n + 1),
             (lambda: list(r), l), (lambda: list(r[:n // 2]), l[:n // 2]), (lambda: list(longer), l + [7])]
    for name, a, b in (('same', fw, fw), ('both-ways', fw, bw), ('backwards', bw, bw), ('part', fw, (lambda: part, l[1:])),
                       ('equal', fw, (lambda: same, l)), ('appended', fw, (lambda: longer, l + [7])),
                       ('proofs', (lambda: p, pl), (lambda: hidden, pl)), ('pruned', (lambda: hidden, pl), (lambda: reversed(hidden), pl[::-1])),
                       ('freshly-pruned', (lambda: p.prune(), pl), (lambda: p.prune(), pl))):
        traverse.alternate(ctx, 'traversals', (a, b), (), [name, 'alone'], late)
        traverse.alternate(ctx, 'traversals', (a, b), reads, [name, 'used meanwhile'], late)
    check(ctx, r, l, 'traversed')


def spaces(tier):
    deep = tier == 'thorough'
    m = 40 if deep else 20
    return [
        core.Space('all slices', 'every slice with bounds in -n-2..n+2, None and huge, for n up to %d' % m, slices,
                   [([n],) for n in range(m, 0, -1)] + [([0],)]),
        core.Space('slices of slices', 'every slice of n values, indexed, appended to and sliced again', resliced,
                   [(n,) for n in ((4, 7, 11, 12, 15, 16, 19, 23, 24, 31) if deep else (4, 7, 12, 15))]),
        core.Space('all histories', 'all compositions of n <= %d values over construction, appends and extends' % (12 if deep else 9),
                   histories, [(n, f) for n in range((12 if deep else 9) + 1) for f in range(n + 1)]),
        core.Space('branches', 'two continuations of each of the ranges of 0..%d values' % (70 if deep else 34), branching,
                   [(range(s, 71 if deep else 35, 8),) for s in range(8)]),
        core.Space('lengths', 'every length up to %d' % (4200 if deep else 1100), lengths,
                   [(i, i + (300 if deep else 140)) for i in range(0, 4200 if deep else 1100, 300 if deep else 140)]),
        core.Space('slices of longer ranges', 'slices at the mountain boundaries', big_slices,
                   [(n,) for n in ((31, 32, 33, 47, 62, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256) if deep else (33, 62, 63, 64, 65))]),
        core.Space('every slice of longer ranges', 'every slice of 3 to 8 ranges of up to 300 values: length and three values, some in full', long_slices,
                   [(n, s, k) for n, k in (((96, 2), (127, 4), (128, 4), (130, 4), (192, 8), (200, 8), (257, 16), (300, 16)) if deep else ((127, 8), (130, 8), (200, 16))) for s in range(k)]),
        core.Space('two traversals', 'every order of advancing two traversals of ranges of up to %d values, alone and with other uses meanwhile' % (7 if deep else 5),
                   traversals, [(n, late) for n in range(8 if deep else 6) for late in (False, True)]),
        core.Space('values and container interface', 'equal values, proofs, mutation attempts, lengths to 69', misc, [0]),
    ]
