"""C19: transactions, blocks and their parts on the wire, against an independent encoder and parser"""
import io, itertools

from mc import core, ref, btc
from bitcoin.core import (COutPoint, CMutableOutPoint, CTxIn, CMutableTxIn, CTxOut, CMutableTxOut, CTransaction, CMutableTransaction,
                          CBlockHeader, CBlock)
from bitcoin.core.script import CScript
from bitcoin.core.serialize import (SerializationError, SerializationTruncationError, DeserializationExtraDataError, VarIntSerializer,
                                    BytesSerializer, VarStringSerializer, uint256VectorSerializer, intVectorSerialzer, VectorSerializer)

LEVEL = 'model_checking'
ASSUMPTIONS = ['values are in the ranges of their wire formats', 'streams return all the bytes asked for unless they end']

# -- the reference parser -----------------------------------------------------------------------------------------------


class Short(Exception):
    pass


class Parser:
    """Reads the wire format; .minimal: whether all lengths were minimally encoded"""
    def __init__(self, buf):
        self.buf, self.pos, self.minimal = buf, 0, True

    def read(self, n):
        if self.pos + n > len(self.buf):
            raise Short()
        self.pos += n
        return self.buf[self.pos - n:self.pos]

    def int(self, n, signed=False):
        return int.from_bytes(self.read(n), 'little', signed=signed)

    def varint(self):
        v = self.int(1)
        if v >= 0xfd:
            n = {0xfd: 2, 0xfe: 4, 0xff: 8}[v]
            v = self.int(n)
            if len(btc.varint(v)) != n + 1:
                self.minimal = False
        return v

    def many(self, f):
        out = []
        for _ in range(self.varint()):
            out.append(f())
        return tuple(out)

    def outpoint(self):
        return (self.read(32), self.int(4))

    def txin(self):
        return (self.outpoint(), self.read(self.varint()), self.int(4))

    def txout(self):
        return (self.int(8, True), self.read(self.varint()))

    def tx(self):
        return (self.int(4, True), self.many(self.txin), self.many(self.txout), self.int(4))

    def header(self):
        return (self.int(4, True), self.read(32), self.read(32), self.int(4), self.int(4), self.int(4))

    def block(self):
        return (self.header(), self.many(self.tx))


# -- kinds of objects -----------------------------------------------------------------------------------------------------

def view(o):
    """The plain tuple a real object stands for"""
    if isinstance(o, COutPoint):
        return (o.hash, o.n)
    if isinstance(o, CTxIn):
        return (view(o.prevout), bytes(o.scriptSig), o.nSequence)
    if isinstance(o, CTxOut):
        return (o.nValue, bytes(o.scriptPubKey))
    if isinstance(o, CTransaction):
        return (o.nVersion, tuple(view(i) for i in o.vin), tuple(view(i) for i in o.vout), o.nLockTime)
    h = (o.nVersion, o.hashPrevBlock, o.hashMerkleRoot, o.nTime, o.nBits, o.nNonce)
    return (h, tuple(view(t) for t in o.vtx)) if isinstance(o, CBlock) else h


def mk_in(v, cls=CTxIn, point=COutPoint):
    return cls(point(*v[0]), CScript(v[1]), v[2])


def mk_out(v, cls=CTxOut):
    return cls(v[0], CScript(v[1]))


def mk_tx(v):
    return CTransaction([mk_in(i) for i in v[1]], [mk_out(o) for o in v[2]], v[3], v[0])


def mk_mutable(v):
    return CMutableTransaction([mk_in(i, CMutableTxIn, CMutableOutPoint) for i in v[1]], [mk_out(o, CMutableTxOut) for o in v[2]], v[3], v[0])


KINDS = {
    'outpoint': ('outpoint', COutPoint, lambda v: COutPoint(*v), btc.outpoint),
    'mutable-outpoint': ('outpoint', CMutableOutPoint, lambda v: CMutableOutPoint(*v), btc.outpoint),
    'txin': ('txin', CTxIn, mk_in, btc.txin),
    'mutable-txin': ('txin', CMutableTxIn, lambda v: mk_in(v, CMutableTxIn, CMutableOutPoint), btc.txin),
    'txout': ('txout', CTxOut, mk_out, btc.txout),
    'mutable-txout': ('txout', CMutableTxOut, lambda v: mk_out(v, CMutableTxOut), btc.txout),
    'tx': ('tx', CTransaction, mk_tx, btc.tx),
    'mutable-tx': ('tx', CMutableTransaction, mk_mutable, btc.tx),
    'header': ('header', CBlockHeader, lambda v: CBlockHeader(*v), btc.header),
    'block': ('block', CBlock, lambda v: CBlock(*v[0], vtx=[mk_tx(t) for t in v[1]]), lambda v: btc.block(*v)),
}
HASHES = [b'\0' * 32, b'\xff' * 32, bytes(range(32))]
U32 = [0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]
I32 = [0, 1, 2, -1, 2 ** 31 - 1, -2 ** 31, 0x01020304]
I64 = [0, 1, -1, 255, 256, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 21 * 10 ** 14, 2 ** 63 - 1, -2 ** 63]
LENS = [0, 1, 2, 75, 76, 252, 253, 254, 255, 256, 65535, 65536]


def script(n):
    return bytes((7 * k + n) % 256 for k in range(n))


def values(name, deep):
    """Values of each kind that cover every field's range"""
    points = list(itertools.product(HASHES, U32))
    ins = ([(p, b'\x51', 0xfffffffe) for p in points] + [((HASHES[2], 1), script(n), 5) for n in LENS] +
           [((HASHES[1], 0), b'', q) for q in U32])
    outs = [(v, script(n)) for v in I64 for n in (0, 1, 253)] + [(5, script(n)) for n in LENS]
    headers = ([(v, HASHES[0], HASHES[1], 1, 2, 3) for v in I32] + [(2, a, b, 0, 0, 0) for a in HASHES for b in HASHES] +
               [(1, HASHES[2], HASHES[0], *((u, 5, 6), (5, u, 6), (5, 6, u))[k]) for u in U32 for k in range(3)])
    few_in, few_out = [ins[0], ins[35], ((HASHES[1], 0xffffffff), b'\x51\x52', 7)], [outs[0], outs[7], outs[-1]][:2] + [(3, b'\x6a')]
    txs = [(1, tuple(few_in[k % 3] for k in range(n)), tuple(few_out[k % 3] for k in range(m)), 9) for n in range(4) for m in range(4)]
    txs += [(v, (few_in[0],), (few_out[0],), 0) for v in I32] + [(1, (few_in[1],), (few_out[1],), u) for u in U32]
    txs += [(1, tuple(few_in[2] for _ in range(n)), (), 0) for n in (252, 253, 300)] + [(1, (), tuple(few_out[2] for _ in range(n)), 0) for n in (252, 253, 300)]
    blocks = [(headers[3], tuple(txs[(k * 5) % 16] for k in range(n))) for n in range(6)] + [(h, (txs[5],)) for h in headers[::3]]
    blocks += [(headers[0], tuple(txs[0] for _ in range(n))) for n in ((252, 253, 300) if deep else (253,))]
    return {'outpoint': points, 'txin': ins, 'txout': outs, 'tx': txs, 'header': headers, 'block': blocks}[KINDS[name][0]]


def roundtrip(ctx, param):
    name, deep = param
    kind, cls, make, wire = KINDS[name]
    vals = values(name, deep)
    seen = {}
    for v in vals:
        w = wire(v)
        ctx.cur = [name, v]
        o = make(v)
        ctx.eq(view(o), v, 'attributes')
        ctx.eq(o.serialize(), w, 'serialize')
        f = io.BytesIO()
        o.stream_serialize(f)
        ctx.eq(f.getvalue(), w, 'stream-serialize')
        h = ref.dsha(btc.header(v[0])) if kind == 'block' else ref.dsha(w)
        ctx.eq(o.GetHash(), h, 'hash')
        r = cls.deserialize(w)
        ctx.eq(isinstance(r, cls), True, 'type')
        ctx.eq(view(r), v, 'deserialized')
        ctx.eq((r == o, o == r, r != o), (True, True, False), 'equality')
        ctx.eq((r.GetHash(), hash(r) == hash(o)), (h, True), 'deserialized-hash')
        ctx.eq(r.serialize(), w, 'reserialize')
        if kind == 'block':
            ctx.eq([bytes(b) for b in r.vMerkleTree], [b for row in btc.merkle_rows([btc.txid(t) for t in v[1]]) for b in row] if v[1] else [],
                   'merkle-tree')
            ctx.eq(view(r.get_header()), v[0], 'header')
        ctx.step(5)
        ctx.state(name, w)
        seen.setdefault(w, o)
        ctx.trace([name, w[:100]])
    objs = list(seen.items())[:120]
    for (w, o), (w2, p) in itertools.product(objs, repeat=2):
        ctx.eq(o == p, w == w2, 'equality-of-others')
        ctx.eq(o != p, w != w2, 'equality-of-others')
        ctx.step()
    # as keys of a dictionary
    d = {o: w for w, o in objs}
    for w, o in objs:
        ctx.eq(d[cls.deserialize(w)], w, 'dictionary')


def fields(kind, deep):
    """Every combination of a few values of all the fields"""
    n, q = (0, 1, 0x80000000, 0xffffffff), (0, 1, 0xfffffffe, 0xffffffff)
    lens = (0, 1, 2, 100, 101, 252, 253, 300) if not deep else LENS[:-2] + [100, 101, 300, 519, 520, 521]
    points = itertools.product(HASHES, n)
    if kind == 'outpoint':
        return itertools.product(HASHES, U32)
    if kind == 'txin':
        return itertools.product(points, [script(k) for k in lens], q)
    if kind == 'txout':
        return itertools.product(I64, [script(k) for k in lens])
    if kind == 'header':
        u = (0, 1, 0x80000000, 0xffffffff) + ((0x1d00ffff, 255) if deep else ())
        return itertools.product(I32[:6], HASHES, HASHES, u, u, u)
    ins = [((h, k), script(l), s) for h, k, l, s in itertools.product(HASHES[::2], (0, 0xffffffff), (0, 2), (0, 0xffffffff))]
    outs = [(v, script(l)) for v, l in itertools.product((0, -1, 21 * 10 ** 14), (0, 25))]
    if not deep:
        ins, outs = ins[::3] + ins[-1:], outs[::2]
    some = [tuple(l) for k in range(3) for l in itertools.product(ins, repeat=k)], [tuple(l) for k in range(3) for l in itertools.product(outs, repeat=k)]
    txs = itertools.product((1, -2 ** 31, 2), *some, (0, 499999999, 0xffffffff))
    if kind == 'tx':
        return txs
    txs = [t for k, t in enumerate(txs) if k % (997 if not deep else 199) == 0]
    hs = list(itertools.product((1, -1), HASHES[::2], HASHES[1:], (0, 0xffffffff), (0x1d00ffff, 0), (0, 0xffffffff)))[::5]
    return itertools.product(hs, [()] + [(t,) for t in txs] + [(t, u) for t in txs[:9] for u in txs[::5]])


def product(ctx, param):
    name, deep, part, parts = param
    kind, cls, make, wire = KINDS[name]
    for c, v in enumerate(fields(kind, deep)):
        if c % parts == part:
            ctx.cur = [name, v]
            w = wire(v)
            o = make(v)
            ctx.eq(view(o), v, 'attributes')
            ctx.eq(o.serialize(), w, 'serialize')
            ctx.eq(o.GetHash(), ref.dsha(btc.header(v[0])) if kind == 'block' else ref.dsha(w), 'hash')
            r = cls.deserialize(w)
            ctx.eq(view(r), v, 'deserialized')
            ctx.eq(r == o, True, 'equality')
            ctx.step(2)
            ctx.state(name, w)
            ctx.trace()
    ctx.trace([name])


def judge(ctx, kind, cls, wire, buf):
    """Deserializing any bytes goes as the reference parser says"""
    p = Parser(buf)
    ctx.step()
    try:
        v = getattr(p, kind)()
    except Short:
        e = ctx.raises(SerializationError, lambda: cls.deserialize(buf), 'truncated')
        ctx.outcome('truncated')
        ctx.raises(SerializationError, lambda: cls.stream_deserialize(io.BytesIO(buf)), 'truncated-stream')
        ctx.raises(SerializationError, lambda: cls.deserialize(buf, allow_padding=True), 'truncated-padded')
        return
    rest = buf[p.pos:]
    f = io.BytesIO(buf)
    o = cls.stream_deserialize(f)
    ctx.eq(view(o), v, 'stream-parsed')
    ctx.eq(f.tell(), p.pos, 'stream-position')
    if rest:
        e = ctx.raises(DeserializationExtraDataError, lambda: cls.deserialize(buf), 'extra-data')
        if e is not None:
            ctx.eq((view(e.obj), e.padding), (v, rest), 'extra-data-saved')
        ctx.eq(view(cls.deserialize(buf, allow_padding=True)), v, 'padding-allowed')
        ctx.outcome('extra data')
    else:
        o = cls.deserialize(buf)
        ctx.eq(view(o), v, 'parsed')
        ctx.outcome('accepted' if p.minimal else 'accepted, not minimal')
    ctx.eq(o.serialize() == buf[:p.pos], p.minimal, 'serializes-back')
    ctx.eq(o.serialize(), wire(v), 'serializes')


def mutations(w, some, pairs):
    """All truncations, extensions, single-byte changes, insertions and deletions"""
    for k in range(len(w) + 1):
        yield w[:k]
    for t in (b'\0', b'\xff', w[:1], w, w + b'\0'):
        yield w + t
    bs = range(256) if not some else (0, 1, 2, 0x7f, 0xfc, 0xfd, 0xfe, 0xff)
    for k in range(len(w)):
        for b in bs:
            if b != w[k]:
                yield w[:k] + bytes([b]) + w[k + 1:]
        if some:
            for b in (w[k] ^ 1, w[k] ^ 0x80, (w[k] + 1) % 256):
                yield w[:k] + bytes([b]) + w[k + 1:]
        yield w[:k] + w[k + 1:]
        for b in (0, 1, 0xfd):
            yield w[:k] + bytes([b]) + w[k:]
    if pairs:
        for i in range(len(w)):
            for j in range(i):
                for a, b in itertools.product((0, 2, 0xfd, 0xff), repeat=2):
                    yield w[:j] + bytes([b]) + w[j + 1:i] + bytes([a]) + w[i + 1:]


def seeds():
    p, q = (HASHES[2], 1), (HASHES[0], 0xffffffff)
    i, j = (p, b'\x51\x52\x53', 7), (q, b'', 0xffffffff)
    o, u = (5, b'\x6a'), (-1, b'')
    t = (1, (i,), (o,), 9)
    h = (2, HASHES[2], HASHES[1], 5, 6, 7)
    return {'outpoint': [p], 'txin': [i, j], 'txout': [o, u, (0, script(253))],
            'tx': [t, (2, (), (), 3), (1, (i, j), (o, u), 0), (1, (), (o,), 1), (1, (j,), (), 1)],
            'header': [h], 'block': [(h, ()), (h, (t,)), (h, (t, (2, (), (), 3)))]}


def corrupted(ctx, param):
    name, k, some, pairs, part, parts = param
    kind, cls, make, wire = KINDS[name]
    w = wire(seeds()[kind][k])
    for c, buf in enumerate(mutations(w, some, pairs)):
        if c % parts == part and ctx.state(buf):
            ctx.cur = [name, buf]
            judge(ctx, kind, cls, wire, buf)
            ctx.trace()
    ctx.trace([name, w])


VARINTS = [b'\0', b'\1', b'\2', b'\3', b'\xfc', b'\xfd\0\0', b'\xfd\1\0', b'\xfd\2\0', b'\xfd\xfd\0', b'\xfe\1\0\0\0', b'\xfe\0\0\0\0', b'\xff\1' + bytes(7),
           b'\xff' + b'\xff' * 8, b'\xfe\xff\xff\xff\xff', b'\xff\0\0\0\0\1\0\0\0', b'\xfe\0\0\0\2', b'\xfe\1\0\0\2', b'\xfd\xff\xff', b'\xfd', b'\xfe\1\0', b'\xff\1\0\0']


def lengths(ctx, param):
    """Every encoding of every count, with every number of elements behind it"""
    first, = param
    i, o = btc.txin(((HASHES[2], 1), b'\x51', 7)), btc.txout((5, b''))
    for n in range(4):
        for b in VARINTS:
            for m in range(3):
                for tail in (b'\0\0\0\0', b'\0\0\0', b'', b'\0' * 5):
                    buf = b'\1\0\0\0' + first + i * n + b + o * m + tail
                    ctx.cur = ['tx', first, n, b, m, len(tail)]
                    if ctx.state(buf):
                        judge(ctx, 'tx', CTransaction, btc.tx, buf)
                        judge(ctx, 'tx', CMutableTransaction, btc.tx, buf)
                        ctx.trace()
        for data in (b'', b'a', b'ab', bytes(252), bytes(253)):
            for tail in (b'\1\2\3\4', b'\1\2\3', b''):
                ctx.cur = ['script', first, len(data), len(tail)]
                judge(ctx, 'txin', CTxIn, btc.txin, HASHES[1] + b'\0' * 4 + first + data + tail)
            judge(ctx, 'txout', CTxOut, btc.txout, b'\5' + b'\0' * 7 + first + data)
        t = btc.tx((1, (), (), 3))
        for m in range(4):
            for tail in (b'', b'\0', t[:5]):
                ctx.cur = ['block', first, m]
                judge(ctx, 'block', CBlock, lambda v: btc.block(*v), b'\3' * 80 + first + t * m + tail)
    ctx.trace([first])


def streams(ctx, param):
    """Objects one after the other in a stream: each read stops where the next begins"""
    n, = param
    s = seeds()
    items = [(k, v) for k in ('outpoint', 'txin', 'txout', 'tx', 'header', 'block') for v in s[k][:2]]
    for seq in itertools.product(items, repeat=n):
        f = io.BytesIO()
        for k, v in seq:
            KINDS[k][2](v).stream_serialize(f)
        f.write(b'tail')
        f.seek(0)
        ctx.cur = [[k for k, _ in seq]]
        pos = 0
        for k, v in seq:
            o = KINDS[k][1].stream_deserialize(f)
            pos += len(KINDS[k][3](v))
            ctx.eq(view(o), v, 'stream')
            ctx.eq(f.tell(), pos, 'stream-position')
            ctx.step()
        ctx.eq(f.read(), b'tail', 'stream-rest')
        ctx.state(*[repr(i) for i in seq])
        ctx.trace(ctx.cur)


def helpers(ctx, param):
    """The serializers of lengths, strings and vectors"""
    ints = sorted({v + d for v in (0, 0xfd, 0x100, 0xffff, 0x10000, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 2) for d in (-2, -1, 0, 1) if 0 <= v + d < 2 ** 64})
    for v in ints:
        ctx.cur = ['varint', v]
        w = VarIntSerializer.serialize(v)
        ctx.eq(w, btc.varint(v), 'varint')
        ctx.eq(VarIntSerializer.deserialize(w), v, 'varint-back')
        for k in range(len(w)):
            ctx.raises(SerializationError, lambda: VarIntSerializer.deserialize(w[:k]), 'varint-truncated')
        ctx.state(v)
        ctx.step()
    for v in (-1, -2 ** 64):
        ctx.raises(ValueError, lambda: VarIntSerializer.serialize(v), 'varint-negative')
    for n in LENS:
        b = script(n)
        for s in (BytesSerializer, VarStringSerializer):
            ctx.cur = [s.__name__, n]
            w = s.serialize(b)
            ctx.eq(w, btc.varstr(b), 'bytes')
            ctx.eq(s.deserialize(w), b, 'bytes-back')
            if n:
                ctx.raises(SerializationError, lambda: s.deserialize(w[:-1]), 'bytes-truncated')
            f = io.BytesIO(w + b'rest')
            s.stream_deserialize(f)
            ctx.eq(f.read(), b'rest', 'bytes-position')
        ctx.step()
    for n in (0, 1, 2, 252, 253):
        l = [ref.sha256(bytes([k])) for k in range(n)]
        ctx.cur = ['vector', n]
        w = uint256VectorSerializer.serialize(l)
        ctx.eq(w, btc.varint(n) + b''.join(l), 'uint256s')
        ctx.eq(uint256VectorSerializer.deserialize(w), l, 'uint256s-back')
        m = [I32[k % len(I32)] for k in range(n)]
        w = intVectorSerialzer.serialize(m)
        ctx.eq(w, btc.varint(n) + b''.join(btc.i32(i) for i in m), 'ints')
        ctx.eq(intVectorSerialzer.deserialize(w), m, 'ints-back')
        if n:
            ctx.raises(SerializationError, lambda: uint256VectorSerializer.deserialize((btc.varint(n) + b''.join(l))[:-1]), 'uint256s-truncated')
            ctx.raises(SerializationError, lambda: intVectorSerialzer.deserialize(w[:-1]), 'ints-truncated')
        ctx.step()
        ctx.state('vector', n)
    ctx.trace([len(ints)])


MANY = [2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000, 10001, 32767, 32768, 65534, 65535, 65536, 65537]


def many(ctx, param):
    """Vectors and scripts of every length: nothing is dropped, whatever the number"""
    what, deep, part, parts = param
    ns = [n for n in range(4100 if deep else 1100)] + [n for n in MANY if deep or n < 10000 or (n in (65535, 65536) and what != 'txs')]
    t = (1, (), ((3, b'\x6a'),), 9)
    for c, n in enumerate(ns if what != 'helpers' else []):
        if c % parts != part:
            continue
        ctx.cur = [what, n]
        if what == 'inputs':
            v = (1, tuple(((k.to_bytes(32, 'big'), k), b'', 2 ** 32 - 1 - k) for k in range(n)), (), n)
        elif what == 'outputs':
            v = (1, (), tuple((k, b'') for k in range(n)), n)
        elif what == 'txs':
            v = ((1, HASHES[2], HASHES[1], 5, 6, n), tuple((k + 1, (), (), k) for k in range(n)))
        elif what == 'scripts':
            v = (1, (((HASHES[2], n), script(n), 5),), ((n, script(n)),), 0)
        if what == 'txs':
            w, o, cls = btc.block(*v), CBlock(*v[0], vtx=[mk_tx(x) for x in v[1]]), CBlock
        else:
            w, o, cls = btc.tx(v), (mk_tx, mk_mutable)[n % 2](v), (CTransaction, CMutableTransaction)[n % 2]
        ctx.eq(o.serialize(), w, 'many-serialize')
        ctx.eq(o.GetHash(), ref.dsha(w if what != 'txs' else w[:80]), 'many-hash')
        f = io.BytesIO(w + b'rest')
        r = cls.stream_deserialize(f)
        ctx.eq(f.read(), b'rest', 'many-position')
        ctx.eq(r.serialize(), w, 'many-back')
        ctx.eq(view(r) == v, True, 'many-view')
        ctx.eq(r == o, True, 'many-equal')
        for buf in (w[:-1], w[:len(w) // 2], w[:-5]):
            ctx.raises(SerializationError, lambda: cls.deserialize(buf), 'many-truncated')
        for pad in (b'\0', bytes(40), w):
            e = ctx.raises(DeserializationExtraDataError, lambda: cls.deserialize(w + pad), 'many-extra')
            if e is not None:
                ctx.eq((e.obj == o, e.padding), (True, pad), 'many-extra-saved')
        ctx.step(9)
        ctx.state(what, n)
        ctx.trace()
    if what == 'helpers':
        for c, n in enumerate(ns):
            if c % parts != part:
                continue
            ctx.cur = [what, n]
            l = [k.to_bytes(32, 'little') for k in range(n)]
            w = uint256VectorSerializer.serialize(l)
            ctx.eq(w, btc.varint(n) + b''.join(l), 'uint256s')
            ctx.eq(uint256VectorSerializer.deserialize(w), l, 'uint256s-back')
            m = [k * k * (-1) ** k % 2 ** 31 for k in range(n)]
            w = intVectorSerialzer.serialize(m)
            ctx.eq(w, btc.varint(n) + b''.join(btc.i32(i) for i in m), 'ints')
            ctx.eq(intVectorSerialzer.deserialize(w), m, 'ints-back')
            b = script(n)
            for s in (BytesSerializer, VarStringSerializer):
                w = s.serialize(b)
                ctx.eq(w, btc.varstr(b), 'bytes')
                ctx.eq(s.deserialize(w), b, 'bytes-back')
                for k in {0, 1, n // 2, len(w) - 1}:
                    if k < len(w):
                        ctx.raises(SerializationError, lambda: s.deserialize(w[:k]), 'bytes-truncated')
            ctx.eq(VarIntSerializer.serialize(n), btc.varint(n), 'varint')
            ctx.step(5)
            ctx.state(what, n)
    ctx.trace([what, len(ns)])


ALIKE = {'inputs': (((HASHES[2], 1), b'\x51', 5), [((HASHES[1], 1), b'\x51', 5), ((HASHES[2], 2), b'\x51', 5), ((HASHES[2], 1), b'\x52', 5), ((HASHES[2], 1), b'\x51\x51', 5),
                                                        ((HASHES[2], 1), b'', 5), ((HASHES[2], 1), b'\x51', 6), ((HASHES[0], 0xffffffff), b'\x51', 5), ((HASHES[2], 0x10001), b'\x51', 5)]),
         'outputs': ((5, b'\x51\x52'), [(6, b'\x51\x52'), (5, b'\x51\x53'), (5, b'\x52\x52'), (5, b'\x51'), (5, b''), (-1, b'\x51\x52'), (5 + 2 ** 32, b'\x51\x52'), (5, b'\x51\x52\0')])}
ALIKE['txs'] = ((1, (ALIKE['inputs'][0],), (ALIKE['outputs'][0],), 9),
                [(2, (ALIKE['inputs'][0],), (ALIKE['outputs'][0],), 9), (1, (ALIKE['inputs'][0],), (ALIKE['outputs'][0],), 8), (1, (), (ALIKE['outputs'][0],), 9), (1, (ALIKE['inputs'][0],), (), 9)] +
                [(1, (i,), (ALIKE['outputs'][0],), 9) for i in ALIKE['inputs'][1]] + [(1, (ALIKE['inputs'][0],), (o,), 9) for o in ALIKE['outputs'][1]] +
                [(1, (ALIKE['inputs'][0],) * 2, (ALIKE['outputs'][0],), 9), (1, (ALIKE['inputs'][0],), (ALIKE['outputs'][0],) * 2, 9)])


def alike(ctx, param):
    """Many parts that are equal, or equal but for a few that differ in one field"""
    what, n = param
    usual, others = ALIKE[what]
    places = sorted({0, 1, 2, n // 2, n - 2, n - 1} & set(range(n)))
    lists = [[usual] * n]
    for o in others:
        lists += [[o if k == at else usual for k in range(n)] for at in places]
        lists += [[(usual, o)[k % 2] for k in range(n)], [(usual, o)[k >= n // 2] for k in range(n)], [o] * n]
    lists += [[([usual] + others)[k % (len(others) + 1)] for k in range(n)], [([usual] + others)[k * (len(others) + 1) // n] for k in range(n)]]
    if what == 'outputs':
        lists += [[(5, bytes([0x51 + k % 16, k // 16 % 256])) for k in range(n)], [(k, b'\x51') for k in range(n)]]
    if what == 'inputs':
        lists += [[((HASHES[2], k), b'', 5) for k in range(n)], [((k.to_bytes(32, 'little'), 0), b'', 5) for k in range(n)], [((HASHES[2], 0), b'', k) for k in range(n)]]
    for l in lists:
        l = tuple(l)
        ctx.cur = [what, n, [k for k in range(n) if l[k] != usual][:9], [x for x in l if x != usual][:1]]
        for mutable in (False, True) if what != 'txs' else (False,):
            if what == 'txs':
                h = (1, HASHES[2], HASHES[1], 5, 6, 7)
                v, w, cls = (h, l), btc.block(h, l), CBlock
                o = CBlock(*h, vtx=[mk_tx(x) for x in l])
            else:
                v = (1, l, (), 9) if what == 'inputs' else (1, (), l, 9)
                w, cls, o = btc.tx(v), CMutableTransaction if mutable else CTransaction, (mk_mutable if mutable else mk_tx)(v)
            ctx.eq(o.serialize(), w, 'alike:serialize')
            r = cls.deserialize(w)
            ctx.eq(view(r) == v, True, 'alike:view')
            ctx.eq(r.serialize(), w, 'alike:back')
            ctx.eq(r.GetHash(), ref.dsha(w if what != 'txs' else w[:80]), 'alike:hash')
            ctx.eq(r == o, True, 'alike:equal')
            ctx.step(5)
        ctx.state(what, l)
    ctx.trace([what, n])


LIMIT = 0x02000000


def huge(ctx, param):
    """Scripts as long as anything read may be, and a byte less"""
    n, which = param
    s = bytes(n)
    ctx.cur = [n, which]
    if which == 'txout':
        w, cls, get = btc.txout((5, s)), CTxOut, lambda o: bytes(o.scriptPubKey)
    elif which == 'txin':
        w, cls, get = btc.txin(((HASHES[2], 1), s, 7)), CMutableTxIn, lambda o: bytes(o.scriptSig)
    elif which == 'tx':
        w, cls, get = btc.tx((1, (((HASHES[2], 1), b'', 7),), ((5, s),), 0)), CTransaction, lambda o: bytes(o.vout[0].scriptPubKey)
    else:
        w, cls, get = btc.varstr(s), BytesSerializer, lambda o: o
    o = cls.deserialize(w)
    ctx.eq(get(o) == s, True, 'huge')
    ctx.eq((cls.serialize(o) if cls is BytesSerializer else o.serialize()) == w, True, 'huge-back')
    for buf in (w[:-1], w[:n // 2], w[:9]):
        ctx.raises(SerializationError, lambda: cls.deserialize(buf), 'huge-truncated')
    if cls is not BytesSerializer:
        ctx.raises(DeserializationExtraDataError, lambda: cls.deserialize(w + b'\1'), 'huge-extra')
    ctx.step(5)
    ctx.state(n, which)
    ctx.trace(ctx.cur)


def refused(ctx, param):
    """What the wire format can not hold is refused at once, what it can is not"""
    bad = [-1, -2, -2 ** 31, -2 ** 32, 2 ** 32, 2 ** 32 + 1, 2 ** 33, 2 ** 63, 2 ** 64, 2 ** 64 - 1, 2 ** 70, -2 ** 70] + [2 ** 32 + 2 ** k for k in range(32)] + [-2 ** k for k in range(32)]
    good = U32 + [2 ** k for k in range(32)] + [2 ** 32 - 1 - 2 ** k for k in range(32)]
    point, scr = COutPoint(HASHES[2], 1), CScript(b'\x51')
    for v in bad + good:
        for what, make in (('index', lambda: COutPoint(HASHES[2], v)), ('mutable index', lambda: CMutableOutPoint(HASHES[2], v)),
                           ('sequence', lambda: CTxIn(point, scr, v)), ('mutable sequence', lambda: CMutableTxIn(CMutableOutPoint(), scr, v)),
                           ('lock time', lambda: CTransaction([CTxIn()], [CTxOut()], v)), ('mutable lock time', lambda: CMutableTransaction([], [], v)),
                           ('lock time of nothing', lambda: CTransaction(nLockTime=v)), ('sequence by name', lambda: CTxIn(nSequence=v)), ('index by name', lambda: COutPoint(n=v))):
            ctx.cur = [what, v]
            if v in good:
                o = make()
                ctx.eq(o.serialize().count(v.to_bytes(4, 'little')) > 0, True, what + ' accepted')
            else:
                ctx.raises(ValueError, make, what + ' out of range')
            ctx.step()
            ctx.state(what, v)
    for n in list(range(0, 70)) + [255, 256, 257, 320, 2 ** 16 + 32]:
        for cls in (COutPoint, CMutableOutPoint):
            ctx.cur = ['hash', n]
            if n == 32:
                ctx.eq(cls(bytes(n), 0).hash, bytes(n), 'hash accepted')
            else:
                for k in (0, 1, 0xffffffff):
                    ctx.raises(ValueError, lambda: cls(bytes(n), k), 'hash of another length')
            ctx.step()
        ctx.state('hash', n)
    ctx.trace([len(bad), len(good)])


def spaces(tier):
    deep = tier == 'thorough'
    s = seeds()
    cor = []
    for name, (kind, _, _, _) in KINDS.items():
        for k in range(len(s[kind])):
            big = kind in ('block', 'tx') and not deep
            n = 8 if deep else 2
            for part in range(n):
                cor.append((name, k, big and k > 0, deep and kind in ('outpoint', 'txin', 'txout', 'header', 'tx') and 'mutable' not in name and k < 2, part, n))
    return [
        core.Space('corrupted', 'every truncation, extension, byte change, insertion and deletion%s of %d encodings' % (' and pair of changes' if deep else '', len(cor)),
                   corrupted, cor[::-1]),
        core.Space('round trip', 'values covering the range of every field of every kind of object', roundtrip, [(n, deep) for n in KINDS]),
        core.Space('combinations', 'every combination of a few values of all fields, each kind', product,
                   [(n, deep, k, 8 if n.endswith('tx') or n == 'header' else 2) for n in KINDS for k in range(8 if n.endswith('tx') or n == 'header' else 2)]),
        core.Space('lengths', 'every one of %d encodings of every count and length, any number of elements behind' % len(VARINTS), lengths, [(b,) for b in VARINTS]),
        core.Space('streams', 'every sequence of up to %d objects in a stream' % (4 if deep else 3), streams, [(n,) for n in range(1, 5 if deep else 4)]),
        core.Space('many', 'inputs, outputs, transactions, script bytes, vectors: every number of them up to %d and around powers of two up to 2^16' % (4099 if deep else 1099),
                   many, [(w, deep, k, n) for w in ('inputs', 'outputs', 'txs', 'scripts', 'helpers') for n in [(16 if deep else 4)] for k in range(n)]),
        core.Space('alike', 'vectors of up to %d equal parts, and of ones that differ in one field of one or of many' % (1100 if deep else 300), alike,
                   [(w, n) for w in ALIKE for n in (list(range(2, 70)) + [127, 128, 129, 252, 253, 254, 255, 256, 257, 300, 1000, 1024, 1100] if deep else
                                                    [2, 3, 4, 5, 8, 9, 10, 11, 16, 17, 20, 33, 64, 65, 101, 128, 253, 257, 300])], disjoint=True),
        core.Space('huge', 'scripts and strings of lengths up to the largest that can be read, 2^25 bytes', huge,
                   [(n, w) for n in (LIMIT // 2, LIMIT - 1, LIMIT) for w in ('bytes', 'txout', 'txin', 'tx')]),
        core.Space('refused', 'indices, sequence numbers and lock times in and out of range, hashes of every length up to 69 and some more', refused, [()]),
        core.Space('helpers', 'lengths, strings, vectors', helpers, [()]),
    ]
