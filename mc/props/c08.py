"""C08: round trips and refusals, for every serializer and every proof type over boundary values"""
import io
import itertools
import uuid

from mc import core, ref, btc, pm
from mc.pm import M
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.proof import Proof, VarProof, ProofUnion
from proofmarshal.serialize import (Serializer, SerBool, FixedBytes, VarBytes, Digest, UInt8, UInt16, UInt32, UInt64,
                                    SerializerTypeError, SerializerValueError, BytesSerializationContext,
                                    BytesDeserializationContext, DeserializationError, HashTag,
                                    StreamSerializationContext, StreamDeserializationContext)

LEVEL = 'model_checking'
ASSUMPTIONS = ['serializers are given values their check_instance() accepts']

BITS = pm.BitArr()
CODECS = {'bool': pm.Bool(), 'u8': pm.u8, 'u16': pm.u16, 'u32': pm.u32, 'u64': pm.u64, 'digest': pm.Fixed(Digest, 32),
          'bits': pm.BitArr(), 'outpoint': pm.OutPt(), 'tx': pm.Tx()}
for _n in (0, 1, 2, 16, 127, 128, 300):
    CODECS['fixed%d' % _n] = pm.Fixed(FixedBytes(_n), _n)
for _lo, _hi in ((0, 1), (0, 2), (1, 2), (2, 5), (0, 127), (0, 128), (127, 129), (128, 300), (0, 70000)):
    CODECS['var%d-%d' % (_lo, _hi)] = pm.Var(_lo, _hi)


def serializer(ctx, param):
    name, = param
    c = CODECS[name]
    values = list(c.values)
    if name[0] == 'u':
        values += [2**i + d for i in range(0, 64, 7) for d in (-1, 0, 1)] + list(range(520)) + list(range(16380, 16390))
        values = sorted({v for v in values if 0 <= v <= c.max})
    elif name.startswith('var'):
        values += [b'z' * n for n in (16383, 16384, 16385, 65535, 65536) if name.endswith('70000')]
    elif name == 'bits':
        values += [t for n in range(0, 11) for t in itertools.product((0, 1), repeat=n)]
        values += [(1,) * n for n in range(11, 140)] + [(0,) * n for n in (127, 128, 129, 1023, 1024, 1025, 20000)]
    wires = {}
    for v in values:
        ctx.cur = [name, v if len(repr(v)) < 300 else len(v)]
        ctx.state(name, v)
        r = c.real(v)
        c.ser.check_instance(r)
        w = c.ser.serialize(r)
        ctx.eq(w, c.wire(v), 'wire')
        back = c.ser.deserialize(w)
        ctx.eq(back, r, 'round-trip')
        ctx.eq(type(back), type(r), 'round-trip:type')
        ctx.eq(c.ser.serialize(back), w, 'reserialization')
        ctx.expect(wires.setdefault(w, v) == v, 'injective', 'two values have the same encoding', other=wires[w])
        # several values in one stream
        s = BytesSerializationContext()
        for _ in range(2):
            c.ser.ctx_serialize(r, s)
        SerBool.ctx_serialize(True, s)
        d = BytesDeserializationContext(s.getbytes())
        ctx.eq([c.ser.ctx_deserialize(d), c.ser.ctx_deserialize(d), SerBool.ctx_deserialize(d)], [r, r, True], 'stream')
        d.check_eof()
        ctx.step(3)
        ctx.trace([name, w[:40]])
    for b in c.bad_type:
        ctx.cur = [name, 'bad type', b]
        ctx.raises(SerializerTypeError, lambda: c.ser.check_instance(b), 'bad-type', value=b)
        ctx.step()
    for b in c.bad_value:
        ctx.cur = [name, 'bad value', b]
        ctx.raises(SerializerValueError, lambda: c.ser.check_instance(b), 'bad-value', value=b)
        ctx.step()


def parameters(ctx, param):
    """Serializer parameters: lengths that make no sense are refused"""
    for n in (-1, -100):
        ctx.raises(ValueError, lambda: FixedBytes(n), 'fixed-length', n=n)
        ctx.raises(ValueError, lambda: VarBytes(n, 5), 'var-length', n=n)
        ctx.raises(ValueError, lambda: VarBytes(n), 'var-length', n=n)
    for n in ('1', 1.5, None):
        ctx.raises(TypeError, lambda: FixedBytes(n), 'fixed-length', n=n)
    ctx.raises(TypeError, lambda: VarBytes('1', 5), 'var-length')
    for lo, hi in ((5, 5), (6, 5)):
        ctx.raises(ValueError, lambda: VarBytes(lo, hi), 'var-length', lo=lo, hi=hi)
    for lo in range(0, 5):
        for hi in range(lo + 1, 7):
            ser = VarBytes(lo, hi) if lo else VarBytes(hi)
            for n in range(0, 9):
                ctx.cur = [lo, hi, n]
                if lo <= n <= hi:
                    ser.check_instance(b'x' * n)
                else:
                    ctx.raises(SerializerValueError, lambda: ser.check_instance(b'x' * n), 'var-range')
                ctx.step()
                ctx.state(lo, hi, n)
    a, b = FixedBytes(3), FixedBytes(5)
    va, vb = VarBytes(3), VarBytes(2, 5)
    a.check_instance(b'123')
    b.check_instance(b'12345')
    va.check_instance(b'')
    vb.check_instance(b'12345')
    ctx.raises(SerializerValueError, lambda: va.check_instance(b'1234'), 'independent')
    ctx.raises(SerializerValueError, lambda: vb.check_instance(b'1'), 'independent')
    ctx.raises(SerializerValueError, lambda: Digest.check_instance(b'123'), 'independent')
    ctx.trace()


def sub_models(codec_kinds):
    """Small models of each kind in the list"""
    out = []
    for k in codec_kinds:
        out += [m for m in SMALL if m.kind.name == k]
    return out


SMALL = [pm.m_flat(0), pm.m_flat(255, b'b' * 128), M('Flags', f=b'\0\xff', flag=False, w=2**64 - 1),
         M('Pair', left=pm.m_flat(1), right=pm.m_flat(2)), M('VarA', x=128), M('VarB', child=pm.m_flat(3), y=True), M('VarC'),
         M('VarD', first=M('VarC'), second=M('VarD', first=M('VarA', x=1), second=M('VarC'))),
         M('TxProof', tx=pm.TXS[0]), M('TxProof', tx=pm.TXS[2]), M('FakeSeal', committed_hash=b'\x09' * 32), pm.m_fake(b'\x08' * 32),
         pm.m_seal(0, 0), pm.m_seal(1, 255), pm.m_witness(pm.m_seal(1), b'\x04' * 32), M('TxInProof', i=1, txproof=M('TxProof', tx=pm.TXS[2])),
         M('TxOutProof', i=2**32 - 1, txproof=M('TxProof', tx=pm.TXS[1])),
         pm.m_unused((), pm.m_seal(1)), pm.m_leaf(0, 2**64 - 1), pm.m_inner((0,), pm.m_leaf(1, 1), pm.m_unused((0, 1), pm.m_seal(2)))]

ALLOWED = {('Pair', 'left'): ['Flat'], ('Pair', 'right'): ['Flat'], ('Deep', 'inner'): ['Pair'], ('Deep', 'one'): ['Flat'],
           ('VarB', 'child'): ['Flat'], ('VarD', 'first'): pm.VARS, ('VarD', 'second'): pm.VARS, ('Holder', 'v'): pm.VARS,
           ('Union', 'u'): ['Flat', 'Flags'] + pm.VARS, ('UnionPair', 'a'): ['Flat', 'Flags'], ('UnionPair', 'b'): ['Flat', 'Flags'],
           ('OutPointProof', 'txproof'): ['TxProof'], ('TxInProof', 'txproof'): ['TxProof'], ('TxOutProof', 'txproof'): ['TxProof'],
           ('FakeWitness', 'seal'): ['FakeSeal'], ('Witness', 'seal'): ['Seal'], ('Witness', 'txinproof'): ['TxInProof'],
           ('Witness', 'txoutproof'): ['TxOutProof'], ('Unused', 'seal'): ['FakeSeal', 'Seal'],
           ('GuLeaf', 'witness'): ['FakeWitness', 'Witness'], ('GuInner', 'witness'): ['FakeWitness', 'Witness'],
           ('GuInner', 'left'): ['Unused', 'GuLeaf', 'GuInner'], ('GuInner', 'right'): ['Unused', 'GuLeaf', 'GuInner']}


def domain(kname, n, c, many):
    if (kname, n) in ALLOWED:
        return sub_models(ALLOWED[kname, n])
    v = list(c.values)
    return v if many else [v[0], v[-1]] + v[len(v) // 2:len(v) // 2 + 1]


def proofs(ctx, param):
    """Every proof type: all combinations of boundary values; then every wrong value in every attribute"""
    kname, = param
    k = pm.KINDS[kname]
    doms = [domain(kname, n, c, len(k.fields) < 3) for n, c in k.fields]
    for combo in itertools.product(*doms):
        m = M(kname, **{n: v for (n, _), v in zip(k.fields, combo)})
        ctx.cur = m
        real = m.build()
        check_round_trip(ctx, m, real)
        ctx.state(repr(m))
    wrongs = [None, 0, b'', 'x', object()] + [s.build() for s in SMALL]
    base = M(kname, **{n: d[0] for (n, _), d in zip(k.fields, doms)})
    for i, (n, c) in enumerate(k.fields):
        good = {n2: v if not isinstance(v, M) else v.build() for n2, v in base.vals.items()}
        good = {n2: (good[n2] if isinstance(base.vals[n2], M) else c2.real(base.vals[n2])) for n2, c2 in k.fields}
        if (kname, n) in ALLOWED:
            bad = [w for s, w in zip([None] * 5 + SMALL, wrongs) if s is None or s.kind.name not in ALLOWED[kname, n]]
            errs = [(w, SerializerTypeError) for w in bad]
        else:
            errs = [(w, SerializerTypeError) for w in c.bad_type] + [(w, SerializerValueError) for w in c.bad_value]
            errs += [(w.build(), SerializerTypeError) for w in SMALL[:3]]
        for w, e in errs:
            ctx.cur = [kname, n, repr(w)]
            ctx.raises(e, lambda: k.cls(**{**good, n: w}), 'construction', attr=n, value=repr(w))
            ctx.step()
            ctx.outcome(e.__name__)


def check_round_trip(ctx, m, real):
    w = m.wire()
    ctx.eq(real.serialize(), w, 'wire')
    ctx.eq(real.hash, m.hash(), 'hash')
    back = m.kind.root.deserialize(w)
    ctx.eq(type(back), type(real), 'round-trip:type')
    ctx.eq(back.hash, m.hash(), 'round-trip:hash')
    ctx.eq(back == real, True, 'round-trip:equal')
    ctx.eq(back.serialize(), w, 'reserialization')
    ctx.eq(bool(back.is_pruned), False, 'round-trip:is_pruned')
    ctx.eq(bool(back.is_fully_pruned), False, 'round-trip:is_pruned')
    for path, n, c in m.attrs():
        v = m.at(path).vals[n]
        got = back
        for a in path + (n,):
            got = getattr(got, a)
        if isinstance(v, M):
            ctx.eq(got.hash, v.hash(), 'round-trip:attribute', path=path, attr=n)
        else:
            ctx.eq(got, c.real(v), 'round-trip:attribute', path=path, attr=n)
            ctx.eq(type(got), type(c.real(v)), 'round-trip:attribute-type', path=path, attr=n)
    ctx.step(3)
    ctx.trace(m)


def structures(ctx, param):
    """Trees and ranges of all small contents, and all shapes of proofs"""
    what, arg = param
    if what == 'tree':
        keys = [bytes([i << 3]) for i in (0, 1, 7, 8, 16, 30, 31)]
        for size in arg:
            for sub in itertools.combinations(keys, size):
                m = pm.m_tree({k: pm.m_flat(k[0], k * (k[0] % 5)) for k in sub})
                ctx.cur = m
                check_round_trip(ctx, m, m.build())
                ctx.state('tree', sub)
    elif what == 'range':
        for n in arg:
            m = pm.m_range([pm.m_flat(i % 256, bytes([i % 256]) * (i % 3)) for i in range(n)])
            ctx.cur = n
            check_round_trip(ctx, m, m.build())
            ctx.state('range', n)
    else:
        for name, m in pm.shapes().items():
            ctx.cur = name
            check_round_trip(ctx, m, m.build())
            ctx.state(name)


def lengths(ctx, param):
    """Byte strings of fixed length n, and of lengths from lo to n for several lo, in a proof of their own"""
    for n in param:
        for lo in (None,) + tuple(sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))):
            ser = FixedBytes(n) if lo is None else VarBytes(lo, n) if lo else VarBytes(n)
            cls = type('B', (Proof,), {'HASHTAG': HashTag('0e2b9f1c-6e0f-4d0c-8d39-9a1c2b1a7a77'), 'SERIALIZED_ATTRS': [('b', ser), ('end', UInt8)]})
            low = n if lo is None else lo
            for l in sorted({low, low + 1, n - 1, n, (low + n) // 2} & set(range(low, n + 1))):
                for b in (bytes(l), b'\xff' * l, bytes(range(1, 256))[:l % 256] * (l > 0) + b'\0' * (l - l % 256)):
                    if len(b) != l:
                        continue
                    ctx.cur = [lo, n, l, b[:3]]
                    wire = (b'' if lo is None else ref.leb(l)) + b
                    p = cls(b=b, end=7)
                    ctx.eq(ser.serialize(b), wire, 'length:wire')
                    ctx.eq(ser.deserialize(wire), b, 'length:round-trip')
                    ctx.eq(p.serialize(), b'\0' + wire + b'\7', 'length:wire')
                    ctx.eq(p.data_hash, ref.sha256(wire + b'\7'), 'length:hash')
                    q = cls.deserialize(p.serialize())
                    ctx.eq([q.b, q.end, q == p], [b, 7, True], 'length:round-trip')
                    ctx.step(2)
            for l in {low - 1, n + 1} - {-1}:
                ctx.raises(SerializerValueError, lambda: cls(b=bytes(l), end=7), 'length:refused', lo=lo, n=n, l=l)
                if lo is not None:
                    ctx.raises(DeserializationError, lambda: cls.deserialize(b'\0' + ref.leb(l) + bytes(l) + b'\7'), 'length:refused', lo=lo, n=n, l=l)
            ctx.state(lo, n)
    ctx.trace(list(param))


def variants(ctx, param):
    """Unions of n variants, under the same name or different ones, some with more attributes than others"""
    n, same, where = param
    root = type('V', (VarProof,), {'HASHTAG': HashTag(str(uuid.UUID(int=n + 1)))})
    classes = []
    for i in range(n):
        classes.append(root.declare_variant(type('X' if same else 'X%d' % i, (root,), {
            'SUB_HASHTAG': HashTag(str(uuid.UUID(int=(1 << 100) + i))), 'SERIALIZED_ATTRS': [('a%d' % j, (UInt8, UInt16, UInt64)[j]) for j in range(i % 4)]})))
    plain = type('W', (Proof,), {'HASHTAG': HashTag(str(uuid.UUID(int=5))), 'SERIALIZED_ATTRS': [('v', root), ('w', root)]})
    flats = [type('F' if same else 'F%d' % i, (Proof,), {'HASHTAG': HashTag(str(uuid.UUID(int=(1 << 90) + i))), 'SERIALIZED_ATTRS': [('n', UInt8)]})
             for i in range(n)]
    union = ProofUnion(*flats)
    for i, cls in enumerate(classes):
        vals = {'a%d' % j: i + j * 100 & (255 if j == 0 else 65535) for j in range(i % 4)}
        body = b''.join(ref.leb(vals['a%d' % j]) for j in range(i % 4))
        tag = ref.derive(ref.tag(str(uuid.UUID(int=(1 << 100) + i))), ref.tag(str(uuid.UUID(int=n + 1))))
        x = cls(**vals)
        wire, pruned = b'\0' + ref.leb(i) + body, b'\xff' + ref.leb(i) + ref.sha256(body)
        ctx.cur = [n, same, i]
        ctx.eq(x.serialize(), wire, 'variant:wire')
        ctx.eq(x.prune().serialize(), pruned, 'variant:pruned-wire')
        h = ref.sha256(tag + ref.sha256(body))
        for y in (x, root.deserialize(wire), root.deserialize(pruned), x.prune()):
            ctx.eq(y.hash, h, 'variant:hash')
            ctx.eq(type(y) is cls, True, 'variant:type')
        for k, y in (('a', x), ('b', x.prune())):
            p = plain(v=y, w=classes[(i + 1) % n](**{'a%d' % j: 1 for j in range((i + 1) % n % 4)}))
            q = plain.deserialize(p.serialize())
            ctx.eq([q.v.hash, q.w.hash, q.hash], [h, p.w.hash, p.hash], 'variant:in-proof')
            ctx.eq([type(q.v), type(q.w)], [type(p.v), type(p.w)], 'variant:in-proof')
        f = flats[i](n=i & 255)
        ctx.eq(union.serialize(f), ref.leb(i) + b'\0' + ref.leb(i & 255), 'union:wire')
        g = union.deserialize(union.serialize(f))
        ctx.eq([g == f, type(g) is flats[i]], [True, True], 'union:round-trip')
        g = union.deserialize(union.serialize(f.prune()))
        ctx.eq([g == f, type(g) is flats[i]], [True, True], 'union:round-trip')
        ctx.state(n, same, i)
        ctx.step(6)
    for i in (n, n + 1, n + 128, 2**40):
        ctx.cur = [n, same, i]
        ctx.raises(DeserializationError, lambda: root.deserialize(b'\0' + ref.leb(i) + b'\1\1\1'), 'variant:unknown')
        ctx.raises(DeserializationError, lambda: root.deserialize(b'\xff' + ref.leb(i) + bytes(32)), 'variant:unknown')
        ctx.raises(DeserializationError, lambda: union.deserialize(ref.leb(i) + b'\0\1'), 'union:unknown')
        ctx.step(3)
    ctx.trace([n, same])


CHANGES = ('nothing', 'tag', 'attributes', 'both', 'methods')


def family(root, shape):
    """A class and subclasses of it, each of which changes something of its base: [(class, keyword arguments, tag)]"""
    attrs, tag = [('x', UInt8)], str(uuid.UUID(int=1 << 80))
    body = {'HASHTAG': HashTag(tag), 'SERIALIZED_ATTRS': attrs}
    out = [(type('C0', (root,), dict(body)), tuple(attrs), tag)]
    for i, (base, change) in enumerate(shape):
        cls, attrs, tag = out[base]
        new = {}
        if change in ('tag', 'both'):
            tag = str(uuid.UUID(int=(1 << 80) + i + 1))
            new['HASHTAG'] = HashTag(tag)
        if change in ('attributes', 'both'):
            attrs = attrs + (('y%d' % i, UInt16),)
            new['SERIALIZED_ATTRS'] = list(attrs)
        if change == 'methods':
            new['helper'] = lambda self: self.x
        out.append((type('C%d' % (i + 1), (cls,), new), attrs, tag))
    return out


def subclasses(ctx, param):
    """Instances of subclasses in place of their base, alone or in unions: refused, or they come back equal"""
    shape, = param
    fam = family(Proof, shape)
    n = len(fam)
    made = [(cls(**{a: 3 + k for k, (a, _) in enumerate(attrs)}), ref.sha256(ref.tag(tag) + ref.sha256(b''.join(ref.leb(3 + k) for k in range(len(attrs))))), (tag, attrs))
            for cls, attrs, tag in fam]
    same = lambda i, j: made[i][2] == made[j][2] and issubclass(fam[i][0], fam[j][0])
    for x, h, _ in made:
        ctx.eq(x.hash, h, 'subclass:hash')
    sers = [(('plain', j), fam[j][0], [j]) for j in range(n)]
    sers += [(('union',) + order, ProofUnion(*[fam[j][0] for j in order]), order)
             for k in range(1, n + 1) for order in itertools.permutations(range(n), k)]
    for name, ser, members in sers:
        holder = type('H', (Proof,), {'HASHTAG': HashTag(str(uuid.UUID(int=77))), 'SERIALIZED_ATTRS': [('v', ser), ('end', UInt8)]})
        for i, (x, h, _) in enumerate(made):
            for what, y in (('whole', x), ('pruned', x.prune())):
                ctx.cur = [shape, name, i, what]
                ctx.state(shape, name, i, what)
                ctx.step()
                if not any(same(i, j) for j in members):
                    ctx.raises(SerializerTypeError, lambda: ser.check_instance(y), 'subclass:refused')
                    ctx.raises(SerializerTypeError, lambda: holder(v=y, end=1), 'subclass:refused')
                    ctx.outcome('refused')
                    continue
                ser.check_instance(y)
                p = holder(v=y, end=1)
                q = holder.deserialize(p.serialize())
                ctx.eq(q.v.hash, h, 'subclass:value')
                ctx.eq([q == p, q.hash, q.end, q.serialize()], [True, p.hash, 1, p.serialize()], 'subclass:round-trip')
                ctx.eq(p.hash, ref.sha256(ref.tag(str(uuid.UUID(int=77))) + ref.sha256(h + b'\1')), 'subclass:holder')
                if what == 'whole':
                    for a, _ in made[i][2][1]:
                        ctx.eq(getattr(q.v, a), getattr(x, a), 'subclass:attribute')
                ctx.outcome('accepted')
        ctx.trace([shape, name])


def variant_subclasses(ctx, param):
    """Variants that are derived from other variants, and undeclared subclasses of variants"""
    shape, declared = param
    root = type('R', (VarProof,), {'HASHTAG': HashTag(str(uuid.UUID(int=9)))})
    classes, attrs = [], []
    for i, base in enumerate((None,) + shape):
        b = root if base is None else classes[base]
        a = [('x', UInt8)] if base is None else attrs[base] + [('y%d' % i, UInt8)]
        cls = type('V%d' % i, (b,), {'SUB_HASHTAG': HashTag(str(uuid.UUID(int=(1 << 70) + i))), 'SERIALIZED_ATTRS': a})
        attrs.append(a)
        classes.append(cls)
    for i in declared:
        root.declare_variant(classes[i])
    holder = type('H', (Proof,), {'HASHTAG': HashTag(str(uuid.UUID(int=77))), 'SERIALIZED_ATTRS': [('v', root), ('end', UInt8)]})
    union = ProofUnion(type('Z', (Proof,), {'HASHTAG': HashTag(str(uuid.UUID(int=78))), 'SERIALIZED_ATTRS': []}), root)
    uholder = type('U', (Proof,), {'HASHTAG': HashTag(str(uuid.UUID(int=79))), 'SERIALIZED_ATTRS': [('v', union)]})
    for i, cls in enumerate(classes):
        x = cls(**{a: 5 + k for k, (a, _) in enumerate(attrs[i])})
        for what, y in (('whole', x), ('pruned', x.prune())):
            ctx.cur = [shape, declared, i, what]
            ctx.state(shape, declared, i, what)
            ctx.step()
            if i not in declared:
                ctx.raises(SerializerTypeError, lambda: holder(v=y, end=1), 'variant-subclass:refused')
                ctx.raises(SerializerTypeError, lambda: uholder(v=y), 'variant-subclass:refused')
                ctx.outcome('refused')
                continue
            h = ref.sha256(ref.derive(ref.tag(str(uuid.UUID(int=(1 << 70) + i))), ref.tag(str(uuid.UUID(int=9)))) + ref.sha256(bytes(5 + k for k in range(len(attrs[i])))))
            for p, back in ((holder(v=y, end=1), holder), (uholder(v=y), uholder)):
                q = back.deserialize(p.serialize())
                ctx.eq([q.v.hash, q.hash, q == p, type(q.v) is cls, q.serialize()], [h, p.hash, True, True, p.serialize()], 'variant-subclass:round-trip')
            q = root.deserialize(y.serialize())
            ctx.eq([q.hash, type(q) is cls], [h, True], 'variant-subclass:round-trip')
            ctx.outcome('accepted')
    ctx.trace([shape, declared])


def contexts(ctx, param):
    """Every sequence of things written to a context, to bytes or a stream, is read back; nothing but what was written is consumed"""
    depth, first = param
    flat, var = pm.m_flat(200, b'xy'), M('VarB', child=pm.m_flat(1), y=False)
    things = [('bool', True, b'\xff'), ('bool', False, b'\0')]
    things += [('varuint', v, ref.leb(v)) for v in (0, 127, 128, 300, 2 ** 64, 2 ** 200)]
    things += [('bytes', b, b) for b in (b'', b'\0', b'\xff' * 3, b'\x80')]
    things += [('sized', b, ref.leb(len(b)) + b) for b in (b'', b'\0\1', bytes(200))]
    things += [('obj', m, m.wire()) for m in (flat, var)] + [('obj of class', m, m.wire()) for m in (flat, var)]
    things += [('obj of class', (1, 0, 1), BITS.wire((1, 0, 1)))]

    def write(c, kind, v):
        if kind == 'bool':
            c.write_bool(v)
        elif kind == 'varuint':
            c.write_varuint(v)
        elif kind == 'bytes':
            c.write_bytes(v)
        elif kind == 'sized':
            c.write_varuint(len(v))
            c.write_bytes(v)
        elif kind == 'obj':
            c.write_obj(v.build())
        elif isinstance(v, M):
            c.write_obj(v.build(), v.kind.root)
        else:
            c.write_obj(BITS.real(v), BitsSerializer)

    def read(c, kind, v):
        if kind == 'bool':
            return c.read_bool()
        if kind == 'varuint':
            return c.read_varuint()
        if kind == 'bytes':
            return c.read_bytes(len(v))
        if kind == 'sized':
            return c.read_bytes()
        if isinstance(v, M):
            r = c.read_obj(v.kind.root)
            return v if r.hash == v.hash() and r.serialize() == v.wire() else r
        return tuple(int(b) for b in c.read_obj(BitsSerializer))

    for rest in itertools.product(range(len(things)), repeat=depth - 1):
        seq = [things[k] for k in (first,) + rest]
        ctx.cur = [first, rest]
        want = b''.join(w for _, _, w in seq)
        c = BytesSerializationContext()
        fd = io.BytesIO()
        sc = StreamSerializationContext(fd)
        for kind, v, _ in seq:
            write(c, kind, v)
            write(sc, kind, v)
        ctx.eq(c.getbytes(), want, 'contexts:written')
        ctx.eq(fd.getvalue(), want, 'contexts:written')
        fd = io.BytesIO(want + b'rest')
        d, sd = BytesDeserializationContext(want), StreamDeserializationContext(fd)
        for kind, v, _ in seq:
            for x in (d, sd):
                got = read(x, kind, v)
                ctx.expect(type(got) is type(v) and got == v, 'contexts:read', 'not what was written', got=got, want=v if not isinstance(v, M) else v.wire())
        d.check_eof()
        ctx.eq(fd.read(), b'rest', 'contexts:position')
        ctx.raises(DeserializationError, BytesDeserializationContext(want + b'\0' if not want else want).check_eof, 'contexts:rest')
        ctx.state(first, rest)
        ctx.step(len(seq))
        ctx.trace([first, rest])
    for bad in (1, 0, None, b'\xff', 'True', 1.0):
        for c in (BytesSerializationContext(), StreamSerializationContext(io.BytesIO())):
            ctx.cur = ['bool', bad]
            ctx.raises(TypeError, lambda: c.write_bool(bad), 'contexts:not-a-bool')
            ctx.eq(c.fd.getvalue(), b'', 'contexts:not-a-bool')


def long_tx(lin, lout, nin, nout):
    return (2, tuple((pm.OUTPOINTS[2], bytes([k % 256]) * lin if k == 0 else b'', k) for k in range(nin)),
            tuple((k, b'\x51' * lout if k == nout - 1 else b'') for k in range(nout)), 5)


def transactions(ctx, param):
    """Proofs of transactions of all sizes, and what holds them"""
    for args in param:
        t = long_tx(*args)
        tp = M('TxProof', tx=t)
        for m in (tp, M('TxInProof', i=1, txproof=tp), M('TxOutProof', i=0, txproof=tp), M('OutPointProof', txproof=tp, n=3)):
            ctx.cur = [args, m.kind.name]
            check_round_trip(ctx, m, m.build())
            w = m.wire()
            for bad in (w[:-1], w + b'\0'):
                ctx.raises(DeserializationError, lambda: m.kind.root.deserialize(bad), 'transaction:bad-length')
            used = m.build().prune()
            back = m.kind.root.deserialize(used.serialize())
            ctx.eq(back.hash, m.hash(), 'transaction:pruned')
        ctx.state(args)


def tx_sizes(deep):
    lens = list(range(0, 300, 1 if deep else 3)) + [252, 253, 254, 16200, 16383, 16384, 65400, 65475, 65534, 65535, 65536, 65537, 70000, 131072, 999000, 2 ** 20, 2 ** 21 + 1]
    counts = list(range(0, 300 if deep else 60)) + [126, 127, 128, 251, 252, 253, 254, 255, 256, 257, 400, 1599, 1600, 3000]
    return [(n, 0, 1, 1) for n in lens] + [(0, n, 1, 2) for n in lens] + [(1, 1, n, 1) for n in counts] + [(2, 2, 1, n) for n in counts]


def spaces(tier):
    deep = tier == 'thorough'
    plain = [k for k in pm.KINDS if not k.startswith(('Tree', 'KTree', 'Range'))]
    return [
        core.Space('serializers', 'every serializer at every encoding boundary; all bit arrays to 10 bits; refusals',
                   serializer, [(n,) for n in CODECS]),
        core.Space('contexts', 'every sequence of %d out of 20 things written to a context and read back' % (4 if deep else 3), contexts, [(4 if deep else 3, k) for k in range(20)]),
        core.Space('parameters', 'length parameters of FixedBytes and VarBytes', parameters, [0]),
        core.Space('proofs', 'all combinations of boundary values in every proof type; every wrong value in every attribute',
                   proofs, [(k,) for k in plain]),
        core.Space('lengths', 'byte strings of every fixed length and every maximum length up to %d and around powers of two, with five minimum lengths' % (2100 if deep else 600),
                   lengths, [range(s, 2100 if deep else 600, 16) if s else range(16, 2100 if deep else 600, 16) for s in range(16)] + [(1023, 1024, 1025, 16383, 16384, 16385, 65535, 65536, 65537)]),
        core.Space('variants', 'unions of 1 to 9, and 127 to 300 variants, of the same or different names', variants,
                   [(n, same, 0) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 127, 128, 129, 256, 257, 300) for same in (0, 1)]),
        core.Space('subclasses', 'every family of a class and up to %d subclasses that change the tag, the attributes, both, or neither; every one of them in place of every other, and in every union of any of them' % (3 if deep else 2),
                   subclasses, [(s,) for k in range(0, 4 if deep else 3) for s in itertools.product(*[[(b, c) for b in range(i + 1) for c in CHANGES] for i in range(k)])], disjoint=True),
        core.Space('subclasses of variants', 'every family of up to four variants derived from each other, declared in any order or not at all', variant_subclasses,
                   [(s, d) for k in range(0, 4) for s in itertools.product(*[range(i + 1) for i in range(k)])
                    for r in range(1, k + 2) for d in itertools.permutations(range(k + 1), r)], disjoint=True),
        core.Space('structures', 'all trees over 7 keys, ranges to %d values, all proof shapes' % (300 if deep else 40), structures,
                   [('tree', [s]) for s in range(8)] + [('range', range(s, 300 if deep else 40, 8)) for s in range(8)] + [('shapes', None)]),
        core.Space('transactions', 'proofs of transactions of %d sizes from nothing to two million bytes, and of up to 3000 inputs or outputs' % len(tx_sizes(deep)), transactions,
                   [(tx_sizes(deep)[k::16],)[0] for k in range(16)], disjoint=True),
    ]
