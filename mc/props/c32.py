"""C32: Bloom filters, against an independent MurmurHash3 and filter"""
import decimal, itertools, math

from mc import core, ref, btc
from bitcoin.bloom import MurmurHash3, CBloomFilter
from bitcoin.core import COutPoint, CMutableOutPoint
from bitcoin.core.serialize import SerializationError, SerializationTruncationError, DeserializationExtraDataError

LEVEL = 'model_checking'
ASSUMPTIONS = ['elements are bytes or outpoints', 'filters are made for at least one element and a false positive rate above 0 and up to 1']
M = 0xffffffff


def murmur(seed, data):
    h = seed
    n = len(data) // 4 * 4

    def mix(k):
        k = k * 0xcc9e2d51 & M
        k = (k << 15 | k >> 17) & M
        return k * 0x1b873593 & M
    for i in range(0, n, 4):
        h ^= mix(int.from_bytes(data[i:i + 4], 'little'))
        h = (h << 13 | h >> 19) & M
        h = (h * 5 + 0xe6546b64) & M
    h ^= mix(int.from_bytes(data[n:], 'little'))
    h ^= len(data)
    h = (h ^ h >> 16) * 0x85ebca6b & M
    h = (h ^ h >> 13) * 0xc2b2ae35 & M
    return h ^ h >> 16


class Filter:
    """The reference: the bits as one integer"""
    def __init__(self, size, funcs, tweak, flags, bits=0):
        self.size, self.funcs, self.tweak, self.flags, self.bits = size, funcs, tweak, flags, bits

    def mask(self, data):
        m = 0
        if self.size:
            for k in range(self.funcs):
                m |= 1 << murmur((k * 0xfba4c795 + self.tweak) & M, data) % (8 * self.size)
        return m

    def insert(self, data):
        self.bits |= self.mask(data)

    def contains(self, data):
        m = self.mask(data)
        return self.bits & m == m

    def wire(self):
        return btc.varstr(self.bits.to_bytes(self.size, 'little')) + btc.u32(self.funcs) + btc.u32(self.tweak) + bytes([self.flags])


SEEDS = [0, 1, 2, 0xfba4c795, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x12345678]


def hashing(ctx, param):
    kind, arg = param
    if kind == 'short':
        datas = [bytes([arg, b]) for b in range(256)] + [bytes([arg])] + [bytes([arg, b, c]) for b in (0, 1, 128, 255) for c in range(256)]
    elif kind == 'lengths':
        datas = [b for n in arg for b in (bytes(n), b'\xff' * n, bytes((k * 37 + n) % 256 for k in range(n)))]
    else:
        datas = []
        for n in range(arg * 10, arg * 10 + 10):
            datas += [bytes(n), b'\xff' * n, bytes(k % 256 for k in range(n)), bytes((k * 37 + 11) % 256 for k in range(n)), b'\x80' * n]
            for at in range(n):
                datas += [bytes(at) + b'\x01' + bytes(n - at - 1), bytes(at) + b'\xff' + bytes(n - at - 1)]
    for d in datas:
        for seed in SEEDS:
            ctx.cur = [seed, d]
            ctx.eq(MurmurHash3(seed, d), murmur(seed, d), 'hash')
            ctx.step()
            ctx.state(seed, d)
        ctx.trace([d])
    ctx.outcome('hashes', len(datas) * len(SEEDS))


P1, P2 = (bytes(range(32)), 7), (b'\xee' * 32, 0xffffffff)
ELEMENTS = [('bytes', b''), ('bytes', b'a'), ('bytes', b'\0\0'), ('bytes', b'abc'), ('bytes', b'wxyz'), ('bytes', bytes(range(20))), ('point', P1), ('point', P2),
            ('bytes', btc.outpoint(P1)), ('mutable point', P2), ('bytes', b'\xff' * 33), ('bytes', b'L' * 255), ('bytes', bytes(range(256)) * 2 + b'tail')]
PROBES = ELEMENTS + [('bytes', bytes([k])) for k in range(0, 256, 16)] + [('point', (b'\1' * 32, k)) for k in range(8)]


def real(e):
    kind, v = e
    return {'bytes': lambda: v, 'point': lambda: COutPoint(*v), 'mutable point': lambda: CMutableOutPoint(*v)}[kind]()


def data(e):
    return e[1] if e[0] == 'bytes' else btc.outpoint(e[1])


def compare(ctx, f, r, inserted, probes=PROBES):
    ctx.eq(f.serialize(), r.wire(), 'bits')
    for e in inserted:
        ctx.expect(f.contains(real(e)), 'forgotten', element=repr(e))
    for e in probes:
        ctx.eq(bool(f.contains(real(e))), r.contains(data(e)), 'contains', element=repr(e))
    ctx.eq(f.serialize(), r.wire(), 'bits changed by asking')
    ctx.eq(f.IsWithinSizeConstraints(), r.size <= 36000 and r.funcs <= 50, 'size limits')
    ctx.step(len(probes) + len(inserted))


def histories(ctx, param):
    """Every sequence of insertions and serializations"""
    size, funcs, tweak, flags, depth = param
    ops = ELEMENTS + ['serialize']
    for seq in itertools.product(range(len(ops)), repeat=depth):
        r = Filter(size, funcs, tweak, flags)
        f = CBloomFilter.deserialize(r.wire())
        inserted = []
        for n, k in enumerate(seq):
            ctx.cur = [param, [repr(ops[j]) for j in seq[:n + 1]]]
            if ops[k] == 'serialize':
                f = CBloomFilter.deserialize(f.serialize())
            else:
                f.insert(real(ops[k]))
                r.insert(data(ops[k]))
                inserted.append(ops[k])
            ctx.step()
            if n == depth - 1:
                new = ctx.state(param, r.bits)
                compare(ctx, f, r, inserted, PROBES if new else ELEMENTS[:3])
        ctx.trace([param, seq])
    ctx.outcome('filters')


def fill(ctx, param):
    """Insertions until the filter is full and beyond"""
    size, funcs, tweak, flags = param
    r = Filter(size, funcs, tweak, flags)
    f = CBloomFilter.deserialize(r.wire())
    inserted = []
    for k in range(400):
        e = ELEMENTS[k] if k < len(ELEMENTS) else ('bytes', ref.sha256(b'%d' % k)[:k % 33]) if k % 3 else ('point', (ref.sha256(b'%d' % k), k))
        ctx.cur = [param, k]
        f.insert(real(e))
        r.insert(data(e))
        inserted.append(e)
        ctx.state(param, r.bits)
        compare(ctx, f, r, inserted[-3:] + inserted[::17], PROBES[::5])
        if k % 50 == 49:
            compare(ctx, f, r, inserted)
            f = CBloomFilter.deserialize(f.serialize())
        if r.bits == (1 << 8 * size) - 1 and k > 60:
            break
    compare(ctx, f, r, inserted)
    ctx.outcome('filled')
    ctx.trace([param, k])


RATES = [1e-300, 1e-20, 1e-10, 1e-6, 1e-4, 0.001, 0.01, 0.05, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 1 - 1e-12, 1.0]
COUNTS = list(range(1, 60)) + [99, 100, 101, 999, 1000, 5000, 9999, 10000, 10001, 20000, 20001, 36000, 100000, 10 ** 6, 10 ** 9, 2 ** 40]
LN2 = decimal.Decimal(2).ln()


def near_floor(v):
    """The floor, and its neighbour where rounding may decide"""
    k = int(v)
    out = {k}
    if v - k < decimal.Decimal('1e-6') and k:
        out.add(k - 1)
    if k + 1 - v < decimal.Decimal('1e-6'):
        out.add(k + 1)
    return out


def made(ctx, counts):
    """Filters made for a number of elements and a rate"""
    for n in counts:
        for rate in RATES:
            for tweak, flags in itertools.product((0, 1, 2147483649, 0xffffffff), (0, 1, 2)):
                ctx.cur = [n, rate, tweak, flags]
                f = CBloomFilter(n, rate, tweak, flags)
                w = f.serialize()
                size, i = len(w) - 9, 0
                size -= 1 if w[0] < 253 else 3
                funcs = int.from_bytes(w[-9:-5], 'little')
                ctx.expect(size <= 36000 and funcs <= 50 and f.IsWithinSizeConstraints(), 'protocol limits', 'size %d, %d functions' % (size, funcs))
                v = min(-decimal.Decimal(rate).ln() * n / LN2 / LN2, decimal.Decimal(288000)) / 8
                ctx.expect(size in near_floor(v), 'size', 'size %d for %s' % (size, v))
                v = min(decimal.Decimal(size * 8) / n * LN2, decimal.Decimal(50))
                ctx.expect(funcs in near_floor(v), 'hash functions', '%d for %s' % (funcs, v))
                r = Filter(size, funcs, tweak, flags)
                ctx.eq(w, r.wire(), 'empty filter')
                ctx.step()
                if ctx.state(size, funcs, tweak) and flags == 1:
                    some = ELEMENTS[:3] if size > 1000 else ELEMENTS
                    for e in some:
                        f.insert(real(e))
                        r.insert(data(e))
                    compare(ctx, f, r, some, ELEMENTS if size > 1000 else PROBES)
                    g = CBloomFilter.deserialize(f.serialize())
                    compare(ctx, g, r, some, ELEMENTS[:2] if size > 1000 else PROBES)
                    ctx.eq((g.nHashFuncs, g.nTweak, g.nFlags, bytes(g.vData)), (funcs, tweak, flags, r.bits.to_bytes(size, 'little')), 'deserialized')
        ctx.trace([n])
        ctx.outcome('made', len(RATES) * 12)


def independent(ctx, _):
    """Filters do not share bits"""
    for rate in (0.01, 0.5):
        a, b = CBloomFilter(3, rate, 0, 1), CBloomFilter(3, rate, 0, 1)
        empty = b.serialize()
        c = CBloomFilter.deserialize(empty)
        for e in ELEMENTS:
            a.insert(real(e))
            ctx.eq((b.serialize(), c.serialize()), (empty, empty), 'another filter changed')
            ctx.step()
        ctx.eq(CBloomFilter(3, rate, 0, 1).serialize(), empty, 'new filter not empty')
        ctx.state(rate)
    ctx.trace(['independent'])


def changed(ctx, param):
    """Outpoints inserted, changed, and inserted again; every sequence"""
    size, funcs, depth = param
    places = [(P1[0], 0), (P1[0], 1), (P2[0], 0)]
    ops = [('insert', 0), ('insert', 1), ('ask', 0), ('ask', 1), ('n', 0), ('n', 1), ('hash', 0), ('hash', 1), ('insert same', 0), ('serialize', 0)]
    for seq in itertools.product(ops, repeat=depth):
        if seq[-1][0] not in ('insert', 'ask', 'insert same'):
            continue
        ctx.cur = [param, seq]
        r = Filter(size, funcs, 5, 1)
        f = CBloomFilter.deserialize(r.wire())
        points = [CMutableOutPoint(*P1), CMutableOutPoint(*P1)]
        model = [list(P1), list(P1)]
        for op, k in seq:
            p, m = points[k], model[k]
            if op == 'n':
                p.n = m[1] = (m[1] + 1) % 10
            elif op == 'hash':
                p.hash = m[0] = P2[0] if m[0] == P1[0] else P1[0]
            elif op == 'ask':
                ctx.eq(bool(f.contains(p)), r.contains(btc.outpoint(tuple(m))), 'contains', seq=seq)
            elif op == 'serialize':
                f = CBloomFilter.deserialize(f.serialize())
            else:
                e = COutPoint(*m) if op == 'insert same' else p
                f.insert(e)
                r.insert(btc.outpoint(tuple(m)))
            ctx.step()
        ctx.eq(f.serialize(), r.wire(), 'bits', seq=seq)
        ctx.state(param, r.bits, tuple(map(tuple, model)))
        ctx.trace([param, seq])


def wire(ctx, sizes):
    """Every size, truncations, extra data"""
    for size in sizes:
        for funcs, tweak, flags in ((0, 0, 0), (1, 5, 1), (50, M, 2), (51, 3, 3), (M, 1, 255)):
            pattern = bytes((k * 91 + 5) % 256 for k in range(size))
            for bits in (bytes(size), b'\xff' * size, pattern):
                r = Filter(size, funcs, tweak, flags, int.from_bytes(bits, 'little'))
                w = r.wire()
                ctx.cur = [size, funcs, bits[:20]]
                f = CBloomFilter.deserialize(w)
                ctx.state(w)
                ctx.eq(f.serialize(), w, 'serialized again')
                ctx.eq((bytes(f.vData), f.nHashFuncs, f.nTweak, f.nFlags), (bits, funcs, tweak, flags), 'fields')
                ctx.eq(f.IsWithinSizeConstraints(), size <= 36000 and funcs <= 50, 'size limits')
                ctx.step(3)
                if funcs <= 51:
                    compare(ctx, f, r, [], ELEMENTS)
                if len(w) < 100:
                    for n in range(len(w)):
                        ctx.raises(SerializationTruncationError, lambda: CBloomFilter.deserialize(w[:n]), 'truncated')
                    ctx.raises(DeserializationExtraDataError, lambda: CBloomFilter.deserialize(w + b'\0'), 'extra data')
                ctx.outcome('wire')
        ctx.trace([size])


def large(ctx, param):
    """Filters as large as the protocol allows"""
    size, funcs, tweak = param
    r = Filter(size, funcs, tweak, 0)
    f = CBloomFilter.deserialize(r.wire())
    inserted = []
    for k in range(24):
        e = ELEMENTS[k] if k < len(ELEMENTS) else ('bytes', ref.sha256(b'%d' % k)[:k % 33]) if k % 3 else ('point', (ref.sha256(b'%d' % k), k))
        ctx.cur = [param, k]
        f.insert(real(e))
        r.insert(data(e))
        inserted.append(e)
        ctx.state(param, r.bits)
        compare(ctx, f, r, inserted if k % 8 == 0 else inserted[-2:], PROBES if k % 8 == 0 else PROBES[k::7])
    compare(ctx, f, r, inserted)
    ctx.trace([param, k])


def spaces(tier):
    deep = tier == 'thorough'
    depth = 4 if deep else 3
    params = [(s, k, t, 1, depth) for s in (1, 2, 3, 8) for k in (0, 1, 2, 5) for t in (0, 0x80000001)] + [(0, 3, 0, 0, 2), (1, 50, 7, 2, 2), (5, 50, M, 0, 2), (64, 3, 9, 1, 2)]
    fills = [(s, k, t, f) for s in (1, 2, 3, 4, 7, 16) for k in (0, 1, 3, 11, 50) for t, f in ((0, 0), (99, 1), (M, 2))]
    big = [17, 31, 32, 33, 100, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 35999, 36000]
    sizes = [0, 1, 2, 3, 4, 8, 31, 252, 253, 1000, 35999, 36000, 36001]
    return [
        core.Space('hash', {'data': 'all of up to 2 bytes, boundary bytes at every position of every length up to %d, three patterns of every length up to 1099 and some up to 100003' % (159 if deep else 79), 'seeds': len(SEEDS)}, hashing,
                   [('short', b) for b in range(256)] + [('long', n) for n in range(16 if deep else 8)] + [('lengths', list(range(k, 1100, 16))) for k in range(16)]
                   + [('lengths', [n]) for n in (4096, 65535, 65536, 65537, 100003)]),
        core.Space('histories', {'filters': len(params), 'elements': len(ELEMENTS), 'operations': depth}, histories, params, disjoint=True),
        core.Space('full', {'filters': len(fills), 'insertions': 'until full'}, fill, fills, disjoint=True),
        core.Space('large', {'sizes': len(big), 'elements': 24}, large, [(s, k, t) for s in big for k in ((1, 3, 17, 50) if deep else (1, 17)) for t in (0, 0xfffffffe)], disjoint=True),
        core.Space('made', {'element counts': len(COUNTS), 'rates': len(RATES), 'tweaks and flags': 12}, made, [COUNTS[k::16] for k in range(16)]),
        core.Space('wire', {'sizes': len(sizes)}, wire, [[s] for s in sizes], disjoint=True),
        core.Space('changed outpoints', {'filters': 3, 'operations': 5 if deep else 4}, changed, [(s, k, d) for s, k in ((64, 3), (36000, 2), (3, 1)) for d in range(1, 6 if deep else 5)]),
        core.Space('independent', {}, independent, [None]),
    ]
