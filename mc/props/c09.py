"""C09: strict deserialization, against an independent parser of the format"""
import itertools

from mc import core, ref, btc, pm
from mc.pm import M
from mc.props.c08 import CODECS
from proofmarshal.serialize import DeserializationError

LEVEL = 'model_checking'
ASSUMPTIONS = ['nesting is explored to depth 100 and from depth 5000 on, not around the interpreter\'s recursion limit']


class Bad(Exception):
    """These bytes encode nothing"""


def take(b, p, n):
    if p + n > len(b):
        raise Bad('truncated')
    return b[p:p + n], p + n


def p_leb(b, p):
    q, v = p, 0
    while True:
        c, q = take(b, q, 1)
        v += (c[0] % 128) << (7 * (q - p - 1))
        if c[0] < 128:
            if c[0] == 0 and q - p > 1:
                raise Bad('overlong integer')
            return v, q


def p_varint(b, p):
    c, p = take(b, p, 1)
    if c[0] < 253:
        return c[0], p
    d, p = take(b, p, {253: 2, 254: 4, 255: 8}[c[0]])
    v = int.from_bytes(d, 'little')
    if btc.varint(v) != c + d:
        raise Bad('overlong varint')
    return v, p


def p_outpoint(b, p):
    h, p = take(b, p, 32)
    n, p = take(b, p, 4)
    return (h, int.from_bytes(n, 'little')), p


def p_script(b, p):
    n, p = p_varint(b, p)
    return take(b, p, n)


def p_tx(b, p):
    def num(n, p, signed=False):
        d, p = take(b, p, n)
        return int.from_bytes(d, 'little', signed=signed), p
    version, p = num(4, p, True)
    n, p = p_varint(b, p)
    vin = []
    for _ in range(n):
        o, p = p_outpoint(b, p)
        s, p = p_script(b, p)
        q, p = num(4, p)
        vin.append((o, s, q))
    n, p = p_varint(b, p)
    vout = []
    for _ in range(n):
        v, p = num(8, p, True)
        s, p = p_script(b, p)
        vout.append((v, s))
    lock, p = num(4, p)
    return (version, tuple(vin), tuple(vout), lock), p


def p_wrapped(fn, b, p):
    n, p = p_leb(b, p)
    d, p = take(b, p, n)
    v, end = fn(d, 0)
    if end != n:
        raise Bad('extra data')
    return v, p


class Pruned:
    def __init__(self, kind, digest):
        self.kind, self.digest = kind, digest

    def hash(self):
        if self.kind.name == 'TxProof':
            return bytes(x ^ y for x, y in zip(self.digest, pm.PAD))
        return ref.sha256(self.kind.tag + self.digest)


class Node:
    def __init__(self, kind, vals):
        self.kind, self.vals = kind, vals

    def hash(self):
        if self.kind.name == 'TxProof':
            return Pruned(self.kind, btc.txid(self.vals['tx'])).hash()
        return ref.sha256(self.kind.tag + ref.sha256(b''.join(
            self.vals[n].hash() if isinstance(c, pm.Sub) else c.wire(self.vals[n]) for n, c in self.kind.fields)))


ROOTS = {}
for _k in pm.KINDS.values():
    ROOTS.setdefault(_k.root, {})[_k.variant] = _k


def parse(c, b, p):
    if isinstance(c, pm.Uint):
        v, p = p_leb(b, p)
        if v > c.max:
            raise Bad('too large')
        return v, p
    if isinstance(c, pm.Bool):
        v, p = take(b, p, 1)
        if v not in (b'\0', b'\xff'):
            raise Bad('bad bool')
        return v == b'\xff', p
    if isinstance(c, pm.Fixed):
        return take(b, p, len(c.values[0]))
    if isinstance(c, pm.Var):
        n, p = p_leb(b, p)
        if not c.lo <= n <= c.hi:
            raise Bad('length out of range')
        return take(b, p, n)
    if isinstance(c, pm.BitArr):
        n, p = p_leb(b, p)
        d, p = take(b, p, (n + 7) // 8)
        if n % 8 and d[-1] % (1 << (8 - n % 8)):
            raise Bad('padding')
        return ref.bits_of(d, n), p
    if isinstance(c, pm.OutPt):
        return p_wrapped(p_outpoint, b, p)
    if isinstance(c, pm.Tx):
        return p_wrapped(p_tx, b, p)
    assert isinstance(c, pm.Sub)
    root = c.ser
    if c.union is not None:
        i, p = p_leb(b, p)
        if i >= len(c.union):
            raise Bad('bad union index')
        root = pm.KINDS[c.union[i][0]].root
    return p_proof(root, b, p)


def p_proof(root, b, p):
    pruned, p = parse(BOOL, b, p)
    kinds = ROOTS[root]
    if None in kinds:
        k = kinds[None]
    else:
        i, p = p_leb(b, p)
        if i not in kinds:
            raise Bad('bad variant')
        k = kinds[i]
    if pruned:
        d, p = take(b, p, 32)
        return Pruned(k, d), p
    vals = {}
    for n, c in k.fields:
        vals[n], p = parse(c, b, p)
    return Node(k, vals), p


BOOL = pm.Bool()
ALPHA = [0, 1, 2, 3, 8, 0x20, 0x7f, 0x80, 0x81, 0xfe, 0xff]


class Target:
    """Something to deserialize as"""
    def __init__(self, name):
        self.name = name
        if name in CODECS:
            self.codec = CODECS[name]
        else:
            self.codec = None
            self.root = pm.KINDS[name].root

    def check(self, ctx, b):
        ctx.step()
        try:
            if self.codec:
                want, end = parse(self.codec, b, 0)
            else:
                want, end = p_proof(self.root, b, 0)
            if end != len(b):
                raise Bad('extra data')
        except Bad as e:
            try:
                got = (self.codec.ser if self.codec else self.root).deserialize(b)
            except DeserializationError:
                ctx.outcome(str(e))
                return
            ctx.cur = [self.name, b]
            ctx.fail('accepted', 'bytes that are not a valid encoding were accepted', got=got, why=str(e))
            return
        ctx.cur = [self.name, b]
        try:
            if self.codec:
                got = self.codec.ser.deserialize(b)
            else:
                got = self.root.deserialize(b)
        except DeserializationError as e:
            ctx.fail('rejected', 'a valid encoding was rejected', error=core.describe(e))
            return
        ctx.outcome('accepted')
        if self.codec:
            ctx.eq(got, self.codec.real(want), 'value')
            ctx.eq(self.codec.ser.serialize(got), b, 'reserialization')
        else:
            ctx.eq(got.hash, want.hash(), 'hash')
            ctx.eq(got.serialize(), b, 'reserialization')
            ctx.eq(bool(got.is_fully_pruned), isinstance(want, Pruned), 'is_fully_pruned')
        ctx.state(self.name, b)
        ctx.trace([self.name, b[:60]])
        ctx.cur = None


def crashes(fn):
    def run(ctx, param):
        try:
            fn(ctx, param)
        except core.StopShard:
            raise
        except Exception as e:
            ctx.fail(core.crash_key(e), 'deserialization failed in another way: ' + core.describe(e), target=param[0])
    return run


@crashes
def short(ctx, param):
    """All short byte strings"""
    name, = param
    t = Target(name)
    deep = ctx.tier == 'thorough'
    for n in range(0, 3):
        for b in itertools.product(range(256), repeat=n):
            ctx.cur = [name, bytes(b)]
            t.check(ctx, bytes(b))
    for n in range(3, 6 if deep else 5):
        for b in itertools.product(ALPHA, repeat=n):
            ctx.cur = [name, bytes(b)]
            t.check(ctx, bytes(b))


def partial(m, cap):
    """Prefix-closed sets of revealed nodes"""
    paths = [p for p, _ in m.nodes()]
    out = [None, frozenset(), frozenset([()])]
    for p in paths:
        out.append(frozenset(pm.prefixes(p)))
    seen = []
    for r in out:
        if r not in seen:
            seen.append(r)
    return seen[:cap]


def mutations(w, deep):
    """All single changes of w"""
    n = len(w)
    for i in range(n):
        yield w[:i]
    for i in range(n):
        vals = range(256) if deep or n < 60 else {0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xfd, 0xfe, 0xff, w[i] ^ 1, w[i] ^ 0x80,
                                                  (w[i] + 1) % 256, (w[i] - 1) % 256}
        for v in vals:
            if v != w[i]:
                yield w[:i] + bytes([v]) + w[i + 1:]
        yield w[:i] + w[i + 1:]
        for v in (0, 1, 0x80, 0xff):
            yield w[:i] + bytes([v]) + w[i:]
        yield w[:i] + bytes([w[i] | 0x80, 0]) + w[i + 1:]
        yield w[:i] + bytes([w[i] | 0x80, 0x80, 0]) + w[i + 1:]
        yield w[:i] + bytes([w[i] | 0x80, 1]) + w[i + 1:]
        yield w[:i] + b'\xfd' + bytes([w[i], 0]) + w[i + 1:]
    for v in range(256):
        yield w + bytes([v])
    yield w + w
    yield w + b'\0' * 40


@crashes
def mutated(ctx, param):
    """All single changes of valid encodings, with any nodes pruned"""
    shape, part, parts = param
    m = pm.shapes()[shape]
    deep = ctx.tier == 'thorough'
    t = Target(m.kind.name)
    seen = set()
    for i, r in enumerate(partial(m, 100)):
        w = m.wire(r)
        if i % parts != part:
            continue
        ctx.cur = [shape, w]
        t.check(ctx, w)
        for b in mutations(w, deep and len(w) < 1000):
            if b not in seen:
                seen.add(b)
                ctx.cur = [shape, b]
                t.check(ctx, b)


@crashes
def values(ctx, param):
    """All single changes of encodings of plain values; absurd lengths"""
    name, = param
    t = Target(name)
    c = t.codec
    for v in c.values:
        w = c.wire(v)
        if len(w) > 400:
            continue
        ctx.cur = [name, w]
        t.check(ctx, w)
        for b in mutations(w, ctx.tier == 'thorough' or len(w) < 60):
            ctx.cur = [name, b]
            t.check(ctx, b)
    for i in list(range(0, 72)) + [100, 1000]:
        for d in (-1, 0, 1):
            for tail in (b'', b'\0', b'\0' * 40):
                b = ref.leb(2**i + d) + tail
                ctx.cur = [name, b]
                t.check(ctx, b)
    for n in (10, 100, 3000, 200000):
        for b in (b'\x80' * n, b'\xff' * n, b'\x80' * n + b'\0', b'\x80' * n + b'\1', b'\x81' + b'\x80' * n + b'\0'):
            ctx.cur = [name, b]
            t.check(ctx, b)


@crashes
def lengths(ctx, param):
    """Every stated length with as much data as it says, or a byte less or more"""
    name, most = param
    t = Target(name)
    ls = set(range(600)) | {2 ** k + d for k in range(9, most + 1) for d in (-2, -1, 0, 1, 2)} | {3 * 2 ** k for k in range(8, most)}
    c = t.codec
    if isinstance(c, pm.Var):
        ls |= {b + 2 ** k for b in (c.lo - 1, c.lo, c.hi, c.hi + 1) for k in range(7, most + 1) if b + 2 ** k >= 0}
    data = bytes(k * k % 251 for k in range(2 ** most + 70100))
    for l in sorted(ls):
        n = (l + 7) // 8 if isinstance(c, pm.BitArr) else l
        for m in (n, n - 1, n + 1, 0):
            if 0 <= m <= len(data):
                d = bytearray(data[:m])
                if isinstance(c, pm.BitArr) and l % 8 and m == n:
                    d[-1] &= 0xff00 >> l % 8
                ctx.cur = [name, l, m]
                t.check(ctx, ref.leb(l) + bytes(d))
        ctx.state(name, l)


@crashes
def pairs(ctx, param):
    """Bytes of one type deserialized as another"""
    name, = param
    t = Target(name)
    for s, m in pm.shapes().items():
        for r in partial(m, 12):
            w = m.wire(r)
            ctx.cur = [name, s, w]
            t.check(ctx, w)
    for c in CODECS.values():
        for v in c.values:
            w = c.wire(v)
            if len(w) < 500:
                ctx.cur = [name, w]
                t.check(ctx, w)


@crashes
def nested(ctx, param):
    """Proofs nested deeply"""
    name, n = param
    t = Target(name)
    head, leaf = {'VarD': (b'\0\3', b'\0\2'), 'TreeInner': (b'\0\2\0', b'\0\0'), 'RangeInner': (b'\0\2', b'\0\0'),
                  'GuInner': (b'\0\2\0\0\0' + m_seal_wire(), b'\0\0\0\0' + m_seal_wire())}[name]
    good = head * n
    tail = {'VarD': b'', 'TreeInner': b'', 'RangeInner': b'\0', 'GuInner': b''}[name]
    full = leaf
    for b in (good, good + leaf, good + b'\xff', good + leaf * n):
        ctx.cur = [name, n, b[:40]]
        ctx.step()
        if n <= 100:
            t.check(ctx, b)
        else:
            ctx.raises(DeserializationError, lambda: t.root.deserialize(b), 'nested')
    if n <= 100:
        b = head * n + leaf + (leaf + tail) * n
        ctx.cur = [name, n, 'complete']
        t.check(ctx, b)
    ctx.trace([name, n])


def m_seal_wire():
    return b'\0\0' + b'\x07' * 32 if False else b'\0' + b'\x07' * 32


def spaces(tier):
    deep = tier == 'thorough'
    roots = []
    for k in pm.KINDS.values():
        if k.root not in [pm.KINDS[r].root for r in roots]:
            roots.append(k.name)
    targets = list(CODECS) + roots
    shapes = pm.shapes()
    return [
        core.Space('short', 'every byte string of up to 2 bytes, and of up to %d over %d values, as every type' % (5 if deep else 4, len(ALPHA)),
                   short, [(t,) for t in targets]),
        core.Space('mutated', 'every truncation, changed, removed, inserted or lengthened byte of every proof shape, pruned in every chain of nodes',
                   mutated, [(s, i, n) for s, m in shapes.items() for n in [4 if len(m.wire()) > 200 else 1] for i in range(n)]),
        core.Space('values', 'the same for every plain value; lengths up to 2^1000', values, [(t,) for t in CODECS]),
        core.Space('lengths', 'every stated length up to 600, and around powers of two to 2^%d, with as many bytes, one less or more, or none' % (20 if deep else 17), lengths,
                   [(t, 20 if deep else 17) for t in CODECS if t.startswith(('var', 'bits'))]),
        core.Space('pairs', 'encodings of every type as every other', pairs, [(t,) for t in targets]),
        core.Space('nested', 'nesting to 100, and 5000 and deeper', nested,
                   [(k, n) for k in ('VarD', 'TreeInner', 'RangeInner', 'GuInner') for n in (1, 2, 30, 100, 5000, 20000, 100000)]),
    ]
