"""C13: bit arrays explored in lock step with tuples of bits

States are bit arrays together with the way they were made (which decides what lies beyond their length in memory);
every operation is executed on every state, or pair of states, of the enumerated space and compared with tuples.
"""
import hashlib
import itertools

from mc import core, ref, traverse
from proofmarshal.bits import Bits, BitsSerializer

LEVEL = 'model_checking'
ASSUMPTIONS = []


def tuples(n):
    return itertools.product((0, 1), repeat=n)


def dirty(t, tail, extra):
    """Bytes starting with the bits of t, followed by junk"""
    buf = bytearray(ref.pack_bits(t))
    if len(t) % 8:
        buf[-1] |= tail & (0xff >> (len(t) % 8))
    return Bits.from_bytes(bytes(buf) + extra, len(t))


def inv(t):
    return tuple(1 - b for b in t)


# ways of making the bit array of a tuple
MAKE = {
    'iterable': lambda t: Bits(t),
    'generator': lambda t: Bits(bool(b) for b in t),
    'objects': lambda t: Bits(['x' if b else '' for b in t]),
    'bytes': lambda t: Bits.from_bytes(ref.pack_bits(t), len(t)),
    'dirty': lambda t: dirty(t, 0xff, b''),
    'dirty-alternating': lambda t: dirty(t, 0x55, b'\xaa'),
    'dirty-long': lambda t: dirty(t, 0xff, b'\xff\xff'),
    'slice': lambda t: Bits(t + (1, 0, 1, 1, 1, 1, 1, 1, 1, 1))[:len(t)],
    'slice-zero': lambda t: Bits(t + (0,) * 10)[:len(t)],
    'middle': lambda t: Bits((1, 1, 0) + t + (1, 1))[3:3 + len(t)],
    'stepped': lambda t: Bits([x for b in t for x in (b, 1 - b)])[::2],
    'reversed': lambda t: Bits(t[::-1] + (1,))[-2::-1] if t else Bits(t),
    'sum': lambda t: dirty(t[:len(t) // 2], 0xff, b'\xff') + dirty(t[len(t) // 2:], 0xff, b'\xff'),
    'sum1': lambda t: dirty(t[:1], 0xff, b'') + dirty(t[1:], 0xff, b'\xff'),
    'inverted': lambda t: ~Bits(inv(t)),
    'inverted-dirty': lambda t: ~dirty(inv(t), 0xff, b'\xff'),
    'inverted-clean': lambda t: ~dirty(inv(t), 0, b'\0'),
    'prefix': lambda t: Bits(t + (1, 1, 0)).common_prefix(Bits(t + (0, 1, 0, 1))),
    'prefix-dirty': lambda t: dirty(t + (1, 1), 0xff, b'\xff').common_prefix(dirty(t, 0xff, b'\xff')),
    'deserialized': lambda t: BitsSerializer.deserialize(ref.ser_bits(t)),
    'again': lambda t: Bits(dirty(t, 0xff, b'')),
}
FEW = ('iterable', 'dirty-alternating', 'dirty-long', 'inverted-clean', 'slice')


def same(ctx, got, t, key, **w):
    """Everything observable about one bit array"""
    ctx.step()
    if not ctx.eq(isinstance(got, Bits), True, key + ':type', model=t, **w):
        return
    ctx.eq(tuple(got), t, key, **w)
    ctx.eq(len(got), len(t), key + ':len', **w)


def looks(ctx, b, t, key):
    n = len(t)
    same(ctx, b, t, key)
    for i in range(-n, n):
        ctx.eq(b[i], t[i], key + ':index', model=t, index=i)
    for i in (n, n + 1, 8 * n + 8, -n - 1, -n - 8, 2 ** 70, -2 ** 70):
        ctx.raises(IndexError, lambda: b[i], key + ':index-out-of-range', model=t, index=i)
    ctx.eq(bool(b), bool(t), key + ':bool', model=t)
    ctx.eq(list(reversed(b)), list(t[::-1]), key + ':reversed', model=t)
    ctx.eq(BitsSerializer.serialize(b), ref.ser_bits(t), key + ':serialize', model=t)
    same(ctx, ~b, inv(t), key + ':invert')
    same(ctx, Bits(b), t, key + ':copy')
    ctx.eq(b == Bits(t), True, key + ':eq', model=t)
    ctx.eq(b == b, True, key + ':eq-itself', model=t)
    for other in (t, list(t), None, len(t), bytes(t)):
        ctx.eq(b == other, False, key + ':eq-other-type', model=t)
        ctx.eq(b != other, True, key + ':ne-other-type', model=t)
    ctx.step(n + 12)


def single(ctx, param):
    n, part, parts = param
    for i, t in enumerate(tuples(n)):
        if i % parts != part:
            continue
        for name, make in MAKE.items():
            ctx.cur = [name, t]
            b = make(t)
            looks(ctx, b, t, 'made')
            ctx.state(name, t)
            ctx.trace([name, t])


def slicing(ctx, param):
    """Every slice of bit arrays of every length, and of the slice again"""
    ns, deep = param
    for n in ns:
        ts = list(tuples(n)) if n <= (5 if deep else 3) else \
            [tuple((k * 2654435761 >> (i % 29 + 3)) & 1 for i in range(n)) for k in (1, 3)] + [(1,) * n, (0,) * n]
        ends = [None] + list(range(-n - 2, n + 3)) + [10 ** 6, -10 ** 6, 2 ** 70]
        steps = [None, 1, -1, 2, -2, 3, 8, -9, 2 ** 70]
        for t in ts:
            for name in FEW:
                b = MAKE[name](t)
                for a in ends:
                    for z in ends:
                        for st in steps if n < 6 or deep else (None, -1, 2):
                            s = slice(a, z, st)
                            ctx.cur = [name, t, repr(s)]
                            ctx.eq(tuple(b[s]), t[s], 'slice')
                            ctx.step()
                    ctx.state(name, t, a)
                for a in range(n + 1):
                    c, u = b[:a], t[:a]
                    ctx.cur = [name, t, a]
                    looks(ctx, c, u, 'sliced')
                    for z in range(a + 1):
                        same(ctx, c[:z], u[:z], 'sliced-again')
                        same(ctx, c[z:], u[z:], 'sliced-again')
                    same(ctx, c + c, u + u, 'sliced-sum')
                    ctx.eq(b.startswith(c), True, 'starts-with-slice')
                looks(ctx, b, t, 'slice-source')
                ctx.raises(ValueError, lambda: b[::0], 'zero-step')
                ctx.trace([name, t])


def pair(ctx, b, t, c, u):
    """Every operation on two bit arrays"""
    ctx.step(12)
    same(ctx, b + c, t + u, 'sum', left=t, right=u)
    p = ref.lcp([t, u])
    same(ctx, b.common_prefix(c), p, 'common-prefix', left=t, right=u)
    ctx.eq(b.startswith(c), t[:len(u)] == u, 'startswith', left=t, right=u)
    for key, got, want in (('eq', b == c, t == u), ('ne', b != c, t != u), ('lt', b < c, t < u), ('le', b <= c, t <= u),
                           ('gt', b > c, t > u), ('ge', b >= c, t >= u)):
        ctx.eq(got, want, key, left=t, right=u)


def pairs(ctx, param):
    """All pairs of short bit arrays"""
    n, m, makers = param
    right = [(name, u, MAKE[name](u)) for name in makers for u in tuples(m)]
    for name in makers:
        for t in tuples(n):
            b = MAKE[name](t)
            for name2, u, c in right:
                ctx.cur = [name, t, name2, u]
                pair(ctx, b, t, c, u)
                ctx.state(name, t, name2, u)
                ctx.trace()
            looks(ctx, b, t, 'operand')
    for name2, u, c in right:
        ctx.cur = [name2, u]
        same(ctx, c, u, 'operand')


def long_pairs(ctx, param):
    """Pairs over several bytes: every length, every place of the first difference"""
    lens, most, makers = param
    fills = ((0,) * most, (1,) * most, tuple((i * 5 // 3) & 1 for i in range(most)))
    for n in lens:
        for m in range(most + 1):
            for fill in fills:
                t = fill[:n]
                us = [fill[:m]] + [fill[:d] + (1 - fill[d],) + fill[d + 1:m] for d in range(m)]
                for name in makers:
                    b = MAKE[name](t)
                    for u in us:
                        for name2 in makers:
                            c = MAKE[name2](u)
                            ctx.cur = [name, t, name2, u]
                            pair(ctx, b, t, c, u)
                            ctx.state(name, t, name2, u)
                            ctx.trace()
                    same(ctx, b, t, 'operand')


def far(ctx, param):
    """Arrays of hundreds and thousands of bits"""
    n, makers = param
    places = range(n) if n <= 300 else sorted({0, 1, 7, 8, n // 2} | set(range(n - 40, n)) | set(range(440, 580)))
    for fill in ((0,) * (n + 20), (1,) * (n + 20), tuple((i * i * 5 // 3) & 1 for i in range(n + 20))):
        t = fill[:n]
        for name in makers:
            ctx.cur = [name, n]
            b = MAKE[name](t)
            looks(ctx, b, t, 'far')
            for a in (1, 8, 9, n // 2, n - 9, n - 8, n - 1):
                for c, u in ((b[:a], t[:a]), (b[a:], t[a:]), (b[a:n - 1], t[a:n - 1]), (b[::a], t[::a])):
                    same(ctx, c, u, 'far-slice')
            for m in (n, n - 1, n - 8, n + 1, n + 9):
                for d in [None] + list(places):
                    if d is not None and d >= m:
                        continue
                    u = fill[:m] if d is None else fill[:d] + (1 - fill[d],) + fill[d + 1:m]
                    ctx.cur = [name, n, m, d]
                    pair(ctx, b, t, MAKE[makers[0] if d is None or d % 2 else makers[-1]](u), u)
                    ctx.state(name, n, m, d)
            ctx.trace([name, n])


def huge(ctx, param):
    """Arrays of up to a million bits, as integers"""
    n, = param

    def wire(v, m):
        return ref.leb(m) + (v << -m % 8).to_bytes((m + 7) // 8, 'big')

    def make(v, m, dirt):
        return Bits.from_bytes((v << -m % 8 | dirt & (1 << -m % 8) - 1).to_bytes((m + 7) // 8, 'big') + b'\xa5' * (dirt & 1), m)

    def is_(b, v, m, what):
        ctx.eq(len(b), m, 'huge:' + what, n=n)
        ctx.expect(BitsSerializer.serialize(b) == wire(v, m), 'huge:' + what, 'wrong bits', n=n)
    base = int.from_bytes(hashlib.sha512(b'%d' % n).digest() * (n // 512 + 2), 'big')
    for fill in (0, (1 << n + 20) - 1, base & (1 << n + 20) - 1):
        v = fill >> 20
        for dirt in (0, 255):
            b = make(v, n, dirt)
            is_(b, v, n, 'made')
            is_(~b, v ^ (1 << n) - 1, n, 'inverted')
            for m in (n - 1, n, n + 1, n - 8, n + 9, 3):
                u = fill >> n + 20 - m
                for flip in (None, 0, 1, 7, 8, m // 2, m - 9, m - 2, m - 1):
                    if flip is not None and not 0 <= flip < m:
                        continue
                    w = u if flip is None else u ^ 1 << m - 1 - flip
                    ctx.cur = [n, fill & 1, dirt, m, flip]
                    c = make(w, m, 255 - dirt)
                    k = min(n, m)
                    x = (v >> n - k) ^ (w >> m - k)
                    lcp = k - x.bit_length()
                    ctx.eq(b == c, (v, n) == (w, m), 'huge:equal')
                    ctx.eq(c == b, (v, n) == (w, m), 'huge:equal')
                    less = (v >> n - 1 - lcp) & 1 < (w >> m - 1 - lcp) & 1 if lcp < k else n < m
                    ctx.eq(b < c, less, 'huge:less')
                    ctx.eq(c > b, less, 'huge:less')
                    ctx.eq(b.startswith(c), lcp == m, 'huge:startswith')
                    ctx.eq(c.startswith(b), lcp == n, 'huge:startswith')
                    is_(b.common_prefix(c), v >> n - lcp, lcp, 'common prefix')
                    is_(c.common_prefix(b), v >> n - lcp, lcp, 'common prefix')
                    if flip is None:
                        is_(b + c, v << m | w, n + m, 'sum')
                        is_(c + b, w << n | v, n + m, 'sum')
                        is_(b[:k], v >> n - k, k, 'slice')
                        ctx.eq([b[i] for i in (0, -1, n // 2, n - 9)], [v >> n - 1 & 1, v & 1, v >> n - 1 - n // 2 & 1, v >> 8 & 1], 'huge:index')
                    ctx.step(5)
                    ctx.state(n, fill & 1, dirt, m, flip)
    ctx.trace([n])


def histories(ctx, param):
    """Every sequence of operations applied to a bit array, on top of one another; all intermediate ones stay as they were"""
    start, depth = param

    def ops(b, t):
        n = len(t)
        yield 'invert', ~b, inv(t)
        yield 'double', b + b, t + t
        yield 'more', b + Bits([1, 0, 1]), t + (1, 0, 1)
        yield 'more8', b + dirty((0, 1, 1, 0, 1, 0, 0, 1), 0, b'\xff'), t + (0, 1, 1, 0, 1, 0, 0, 1)
        yield 'before', dirty((1, 1), 0xff, b'\xff') + b, (1, 1) + t
        yield 'cut', b[:-1], t[:-1]
        yield 'behead', b[1:], t[1:]
        yield 'half', b[:n // 2], t[:n // 2]
        yield 'backwards', b[::-1], t[::-1]
        yield 'prefix', b.common_prefix(Bits((1, 0, 1, 1, 0))), ref.lcp([t, (1, 0, 1, 1, 0)])
        yield 'wire', BitsSerializer.deserialize(BitsSerializer.serialize(b)), t
        yield 'copy', Bits(b), t

    def go(b, t, path):
        if len(path) == depth or len(t) > 40:
            return
        for name, c, u in ops(b, t):
            ctx.cur = [start, path + [name]]
            looks(ctx, c, u, 'history')
            pair(ctx, b, t, c, u)
            ctx.state(u, len(path))
            ctx.trace([start, path + [name]] if len(path) == depth - 1 else None)
            go(c, u, path + [name])
        same(ctx, b, t, 'history-earlier')
    name, t = start
    go(MAKE[name](t), t, [])


def refused(ctx, param):
    """Wrong types and lengths"""
    class Int(int):
        pass
    b = Bits([1, 0, 1])
    for n in range(4):
        buf = bytes(n)
        for length in range(-3, 8 * n + 12):
            ctx.cur = [n, length]
            if 0 <= length <= 8 * n:
                same(ctx, Bits.from_bytes(buf, length), (0,) * length, 'from-bytes')
            else:
                ctx.raises(ValueError, lambda: Bits.from_bytes(buf, length), 'from-bytes-length')
            ctx.step()
            ctx.state(n, length)
        same(ctx, Bits.from_bytes(buf), (0,) * 8 * n, 'from-bytes-all')
        for bad in ('1', 1.0, b'1', [1]):
            ctx.raises(TypeError, lambda: Bits.from_bytes(buf, bad), 'from-bytes-length-type')
    for bad in ('', 'abc', bytearray(2), [1], None, 5, memoryview(b'a')):
        ctx.cur = [repr(bad)]
        ctx.raises(TypeError, lambda: Bits.from_bytes(bad), 'from-bytes-type')
        ctx.state(repr(bad))
    for bad in ((1, 0), [1], None, b'\x01', 5, '1'):
        ctx.cur = [repr(bad)]
        for key, f in (('sum', lambda: b + bad), ('startswith', lambda: b.startswith(bad)), ('common-prefix', lambda: b.common_prefix(bad)),
                       ('lt', lambda: b < bad), ('ge', lambda: b >= bad)):
            ctx.raises(TypeError, f, key + '-type')
            ctx.step()
        ctx.state('op', repr(bad))
    for bad in (None, 1.0, '1', (1,), b'1'):
        ctx.raises(TypeError, lambda: b[bad], 'index-type')
    for bad in (5, 1.0):
        ctx.raises(TypeError, lambda: Bits(bad), 'iterable-type')

    def assign():
        b[0] = 0

    def remove():
        del b[0]
    for key, f in (('assign', assign), ('delete', remove)):
        ctx.raises(TypeError, f, 'item-' + key)
    same(ctx, b, (1, 0, 1), 'after-errors')
    same(ctx, Bits(), (), 'empty')
    ctx.trace()


def traversals(ctx, param):
    """Two traversals of one array under way at the same time"""
    t, name = param
    b = MAKE[name](t)
    half = len(t) // 2
    reads = [(lambda: tuple(b[half:]), t[half:]), (lambda: b.startswith(Bits(t[:half])), True), (lambda: tuple(~b), inv(t)), (lambda: tuple(b + b), t + t),
             (lambda: len(b.common_prefix(Bits(inv(t)))), 0), (lambda: b == Bits(t), True)]
    reads += [(lambda k=k: b[k], t[k]) for k in range(len(t))]
    ways = traverse.orders if len(t) < 5 else traverse.bursts
    for key, f, g, want in (('forward', lambda: b, lambda: b, list(t)), ('backward', lambda: b, lambda: reversed(b), list(t[::-1]))):
        for late in (False, True):
            traverse.alternate(ctx, 'traversals', ((f, list(t)), (g, want)), (), [t, name, key], late, ways)
            traverse.alternate(ctx, 'traversals', ((f, list(t)), (g, want)), reads, [t, name, key, 'used meanwhile'], late, ways)
    same(ctx, b, t, 'traversed')


def orders(ctx, param):
    """Sorting is by the tuples, whatever the arrays' origin"""
    most, = param
    all_ = [(t, MAKE[name](t)) for n in range(most + 1) for t in tuples(n) for name in ('iterable', 'dirty-long', 'inverted-clean')]
    for k in range(7):
        l = all_[k::7] + all_[:k:3]
        ctx.eq([tuple(b) for b in sorted(b for _, b in l)], sorted(t for t, _ in l), 'sorted')
        ctx.eq(tuple(min(b for _, b in l)), min(t for t, _ in l), 'min')
        ctx.eq(tuple(max(b for _, b in l)), max(t for t, _ in l), 'max')
        ctx.step(3)
        ctx.state(k)
        ctx.trace([k])


def spaces(tier):
    deep = tier == 'thorough'
    one, two, long_ = (13, 6, 34) if deep else (10, 4, 18)
    starts = [(name, t) for name in (MAKE if deep else ('iterable', 'dirty', 'middle', 'inverted-dirty'))
              for t in ((), (1,), (1, 0, 1, 1, 0, 1, 0), (0, 1) * 4, (1, 0, 1, 1, 1, 0, 0, 1, 0))]
    return [
        core.Space('single', 'every tuple of up to %d bits, made in each of %d ways: all queries' % (one, len(MAKE)), single,
                   [(n, i, max(1, 2 ** n // 64)) for n in range(one, -1, -1) for i in range(max(1, 2 ** n // 64))]),
        core.Space('slices', 'every slice with bounds within 2 of the ends of arrays of up to %d bits' % (26 if deep else 18), slicing,
                   [([n], deep) for n in range(26 if deep else 18, -1, -1)]),
        core.Space('pairs', 'every pair of tuples of up to %d bits, each made in %d ways: all binary operations' % (two, len(FEW)), pairs,
                   [(n, m, FEW) for n in range(two, -1, -1) for m in range(two, -1, -1)]),
        core.Space('all ways', 'every pair of ways of making each pair of tuples of up to %d bits' % (3 if deep else 2), pairs,
                   [(n, m, tuple(MAKE)) for n in range((3 if deep else 2) + 1) for m in range((3 if deep else 2) + 1)]),
        core.Space('long pairs', 'arrays of every two lengths up to %d bits, equal or first differing at every place' % long_, long_pairs,
                   [([n], long_, FEW if deep else FEW[1:4]) for n in range(long_, -1, -1)]),
        core.Space('far', 'arrays of lengths up to %d, and arrays differing in length or first at each place' % (4100 if deep else 2049), far,
                   [(n, FEW if deep else FEW[1:4]) for n in [2049, 2048, 513, 300, 264, 257, 256, 255, 129, 128, 127, 120, 65, 64, 63, 57, 56] + ([4100, 1024, 200] if deep else [])]),
        core.Space('huge', 'arrays of around 2**k bits up to %d, against every array a few bits longer or shorter that differs in at most one bit' % (2**20 if deep else 2**17), huge,
                   [(2**k + d,) for k in ((10, 12, 14, 15, 16, 17, 20) if deep else (14, 15, 16, 17)) for d in (-1, 0, 1, 13)]),
        core.Space('histories', 'every sequence of up to %d of 12 operations from %d starts' % (4 if deep else 3, len(starts)), histories,
                   [(s, 4 if deep else 3) for s in starts]),
        core.Space('order', 'sorting all arrays of up to %d bits' % (8 if deep else 6), orders, [(8 if deep else 6,)]),
        core.Space('two traversals', 'every order (of more than 4 bits: with up to %d changes) of advancing two traversals of an array, used meanwhile' % 3, traversals,
                   [(t, name) for name in ('iterable', 'dirty-long', 'middle') for n in range(5) for t in tuples(n)] +
                   [(t, name) for name in ('iterable', 'dirty-long', 'middle') for t in ((1, 0, 0, 1, 1, 1, 0), (0, 1, 1, 0, 1, 0, 0, 1), (1, 0, 0, 1, 1, 1, 0, 0, 0), (0, 1) * 4 + (1, 1, 0, 0, 1, 0, 0, 0, 1))]),
        core.Space('refused', 'wrong types and lengths', refused, [()]),
    ]
