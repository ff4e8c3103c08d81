"""C10: every pair of proofs of a large universe; hash, equality and dictionary behaviour"""
import itertools, uuid

from mc import core, ref, btc, pm
from mc.pm import M
from mc.props import c08
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
from proofmarshal.proof import Proof, VarProof, ProofUnion
from proofmarshal.serialize import FixedBytes, VarBytes, Digest, UInt8, UInt16, UInt32, UInt64, SerBool, HashTag
from proofchains.core.uniquebits.gumap import GuMap, make_GuMap_subclass
from proofchains.core.uniquebits import singleuseseal as sus

LEVEL = 'model_checking'
ASSUMPTIONS = ['SHA256 is collision free; types are given distinct tags, as documented']


def canon(m):
    """What a proof commits to, as a comparable value"""
    return (m.kind.name,) + tuple(canon(m.vals[n]) if isinstance(m.vals[n], M) else m.vals[n] for n, _ in m.kind.fields)


def variations(m):
    """Every proof that differs from m in one attribute, or has two nodes exchanged"""
    yield m
    for n, c in m.kind.fields:
        v = m.vals[n]
        if isinstance(v, M):
            for w in variations(v):
                if w is not v:
                    yield M(m.kind.name, **{**m.vals, n: w})
        else:
            vals = list(c.values)
            if isinstance(c, pm.Fixed) and v:
                vals += [v[:i] + bytes([v[i] ^ b]) + v[i + 1:] for i in range(len(v)) for b in (1, 0x80)]
            elif isinstance(c, pm.Uint):
                vals += [v ^ 1 << i for i in range(0, 64) if 0 <= v ^ 1 << i <= c.max]
            for w in vals:
                if w != v or type(w) is not type(v):
                    yield M(m.kind.name, **{**m.vals, n: w})
    subs = [n for n, c in m.kind.fields if isinstance(c, pm.Sub)]
    for a, b in itertools.combinations(subs, 2):
        x, y = m.vals[a], m.vals[b]
        ca, cb = dict(m.kind.fields)[a], dict(m.kind.fields)[b]
        if ca.ser is cb.ser and ca.union is None and canon(x) != canon(y):
            yield M(m.kind.name, **{**m.vals, a: y, b: x})


TREE_NAMES = ('KTreeEmpty', 'KTreeLeaf', 'KTreeInner', 'TreeEmpty', 'TreeLeaf', 'TreeInner', 'RangeEmpty', 'RangeLeaf', 'RangeInner')


def direct(m):
    return not any(x.kind.name in TREE_NAMES for _, x in m.nodes())


def universe(names=None, twice=False):
    out = {}
    for name, m in pm.shapes().items():
        if names is None or name in names:
            for w in (variations(m) if direct(m) else [m]):
                out.setdefault(canon(w), w)
            if twice and direct(m):
                for w in itertools.islice(variations(m), 100):
                    for v in itertools.islice(variations(w), 300):
                        out.setdefault(canon(v), v)
    return out


def hashes(ctx, param):
    """The hash of every proof follows the definition, whole, pruned, used or deserialized, and equality follows the hash"""
    name, = param
    ms = list(universe([name], ctx.tier == 'thorough').values())
    reals = []
    for m in ms:
        ctx.cur = m
        r = m.build()
        h = m.hash()
        ctx.eq(r.hash, h, 'hash')
        forms = {'whole': r, 'pruned': r.prune(), 'again': m.build(), 'deserialized': m.kind.root.deserialize(r.serialize()),
                 'received': m.kind.root.deserialize(r.prune().serialize()), 'pruned twice': r.prune().prune()}
        used = r.prune()
        for path, n, c in m.attrs():
            v = used
            for a in path + (n,):
                v = getattr(v, a)
            break
        forms['used'] = used
        d = {r: 'x'}
        for f, q in forms.items():
            ctx.eq(q.hash, h, 'hash:' + f)
            ctx.eq(q == r, True, 'equal', form=f)
            ctx.eq(r == q, True, 'equal', form=f)
            ctx.eq(q != r, False, 'not-equal', form=f)
            ctx.eq(hash(q), hash(r), 'dictionary-hash', form=f)
            ctx.eq(d.get(q), 'x', 'dictionary', form=f)
            ctx.eq(q in {r}, True, 'set', form=f)
            ctx.step(4)
        for other in (None, 0, h, bytes(r.serialize()), 'x', object()):
            ctx.eq(r == other, False, 'equal-to-other', other=other)
            ctx.eq(r != other, True, 'equal-to-other', other=other)
        reals.append((m, r))
        ctx.state(canon(m))
        ctx.trace(m)
    for (m, r), (n, s) in itertools.combinations(reals[:120], 2):
        ctx.cur = [m, n]
        ctx.eq(r == s, False, 'different-equal')
        ctx.eq(r != s, True, 'different-equal')
        ctx.expect(len({r, s}) == 2, 'set', 'a set of two different proofs has one element')
        ctx.step(3)


def all_pairs(ctx, param):
    """No two proofs of the universe share a hash, or a data hash within their type"""
    seen, n = {}, 0
    for key, m in universe(None, ctx.tier == 'thorough').items():
        ctx.cur = m
        h = m.build().hash
        ctx.state(key)
        ctx.step()
        ctx.expect(seen.setdefault(h, key) == key, 'collision', 'two different proofs have the same hash', other=seen[h])
    ctx.trace(n=len(seen))
    ctx.outcome('distinct hashes', len(seen))


def compare_all(ctx, objs):
    """Equality, and equality as dictionary keys, of every two of these proofs is that of their hashes"""
    hs = [o.hash for o, _ in objs]
    for i, (a, key) in enumerate(objs):
        ha, pa = hs[i], a.prune()
        n = 0
        for (b, _), hb in zip(objs, hs):
            same = ha == hb
            if (a == b) is not same or (pa == b) is not same or (a != b) is same or (hash(a) == hash(b)) is not same:
                n += 1
                ctx.cur = [key, _]
                ctx.expect(False, 'equality', 'proofs compare unlike their hashes', same=same)
        ctx.step(len(objs))
    ctx.expect(len(set(o for o, _ in objs)) == len(set(hs)), 'as-keys', 'distinct as dictionary keys')


def declared_types(ctx, param):
    """Generated types: attribute order, splits of the same bytes over attributes, attribute kinds"""
    kinds = {'u8': (UInt8, [0, 1, 2, 127]), 'u16': (UInt16, [0, 1, 2, 300]), 'f1': (FixedBytes(1), [b'\0', b'\1', b'\2']),
             'f2': (FixedBytes(2), [b'\0\0', b'\1\1', b'\1\2', b'\2\1']), 'v': (VarBytes(4), [b'', b'\0', b'\1', b'\1\1', b'\1\2\1']),
             'bits': (BitsSerializer, [(), (1,), (0,), (0, 0), (1,) * 8, (1,) * 9]), 'bool': (SerBool, [False, True])}
    wires = {'u8': ref.leb, 'u16': ref.leb, 'f1': bytes, 'f2': bytes, 'v': lambda v: ref.leb(len(v)) + v, 'bits': ref.ser_bits,
             'bool': lambda v: b'\xff' if v else b'\0'}
    hashes_by = {}
    objs = []
    i = 0
    for a, b in itertools.product(kinds, repeat=2):
        for names in (('p', 'q'), ('q', 'p')):
            i += 1
            t = str(uuid.UUID(int=0xabc0000 + i))
            cls = type('T', (Proof,), {'HASHTAG': HashTag(t), 'SERIALIZED_ATTRS': [(names[0], kinds[a][0]), (names[1], kinds[b][0])]})
            for x, y in itertools.product(kinds[a][1], kinds[b][1]):
                ctx.cur = [a, b, names, x, y]
                rx, ry = (Bits(x) if a == 'bits' else x), (Bits(y) if b == 'bits' else y)
                want = ref.sha256(ref.tag(t) + ref.sha256(wires[a](x) + wires[b](y)))
                p1 = cls(**{names[0]: rx, names[1]: ry})
                p2 = cls(**{names[1]: ry, names[0]: rx})
                objs.append((p1, [a, b, names, x, y]))
                ctx.eq(p1.hash, want, 'declared-order')
                ctx.eq(p2.hash, want, 'argument-order')
                ctx.expect(hashes_by.setdefault(p1.hash, (i, x, y)) == (i, x, y), 'collision', 'hash shared', other=hashes_by[p1.hash])
                ctx.eq(p1 == p2, True, 'equal')
                ctx.step(3)
                ctx.state(a, b, names, x, y)
    compare_all(ctx, objs)
    # three attributes in every order
    for perm in itertools.permutations(['x', 'y', 'z']):
        i += 1
        t = str(uuid.UUID(int=0xabc0000 + i))
        sers = {'x': UInt8, 'y': VarBytes(3), 'z': SerBool}
        vals = {'x': 1, 'y': b'\1', 'z': True}
        ws = {'x': b'\1', 'y': b'\1\1', 'z': b'\xff'}
        cls = type('T', (Proof,), {'HASHTAG': HashTag(t), 'SERIALIZED_ATTRS': [(n, sers[n]) for n in perm]})
        want = ref.sha256(ref.tag(t) + ref.sha256(b''.join(ws[n] for n in perm)))
        for order in itertools.permutations(['x', 'y', 'z']):
            ctx.eq(cls(**{n: vals[n] for n in order}).hash, want, 'declared-order', perm=perm, order=order)
            ctx.step()
    ctx.trace()


def nested_types(ctx, param):
    """Sub-proofs are committed to by their hash, wherever and however they are held"""
    objs = []
    subs = [pm.m_flat(0), pm.m_flat(1), M('VarA', x=0), M('VarC'), M('VarB', child=pm.m_flat(0), y=False), M('Flags', f=b'ab', flag=True, w=1)]
    hashes_by = {}
    n = 0
    for width in (1, 2, 3):
        for use_union in (False, True):
            for combo in itertools.product(subs, repeat=width):
                n += 1
                t = '5b1d7a58-3c0e-4f7b-b1c2-%012x' % n
                attrs = []
                for i, m in enumerate(combo):
                    ser = ProofUnion(pm.Flags, pm.Vary, pm.Flat) if use_union else m.kind.root
                    attrs.append(('a%d' % i, ser))
                cls = type('N', (Proof,), {'HASHTAG': HashTag(t), 'SERIALIZED_ATTRS': attrs})
                ctx.cur = [combo, use_union]
                p = cls(**{'a%d' % i: m.build() for i, m in enumerate(combo)})
                want = ref.sha256(ref.tag(t) + ref.sha256(b''.join(m.hash() for m in combo)))
                objs.append((p, [combo, use_union]))
                ctx.eq(p.hash, want, 'nested-hash')
                q = cls(**{'a%d' % i: m.build().prune() for i, m in enumerate(combo)})
                ctx.eq(q.hash, want, 'nested-hash:pruned')
                r = cls.deserialize(q.serialize())
                ctx.eq(r.hash, want, 'nested-hash:received')
                ctx.eq(p == q and q == r, True, 'equal')
                ctx.step(3)
                ctx.state(n)
                ctx.trace()


    compare_all(ctx, objs)


def make_types(tag, tree_ser=UInt8):
    """One type of each generic structure over the same tag"""
    @make_MerbinnerTree_subclass
    class T(MerbinnerTree):
        HASHTAG = HashTag(tag)
        KEY_SERIALIZER = UInt8
        VALUE_SERIALIZER = UInt8

        @staticmethod
        def key2prefix(key):
            return Bits.from_bytes(bytes([key]))

    @make_mmr_subclass
    class R(MerkleMountainRange):
        HASHTAG = HashTag(tag)
        VALUE_SERIALIZER = UInt8

    @make_GuMap_subclass
    class G(GuMap):
        HASHTAG = HashTag(tag)
        KEY_SERIALIZER = UInt8
        VALUE_SERIALIZER = UInt8
        SEAL_CLASS = sus.BitcoinSingleUseSeal
        WITNESS_CLASS = sus.BitcoinSealWitness

        @staticmethod
        def key2prefix(key):
            return Bits.from_bytes(bytes([key]))

    class V(VarProof):
        HASHTAG = HashTag(tag)

    for i in range(3):
        V.declare_variant(type('V%d' % i, (V,), {'SUB_HASHTAG': HashTag(str(uuid.UUID(int=i + 7))), 'SERIALIZED_ATTRS': [('x', UInt8)]}))
    return T, R, G, V


def families(ctx, param):
    """Structures of several types with the same contents: every pair differs"""
    tags = ['00000000-0000-0000-0000-000000000000', '00000000-0000-0000-0000-000000000001',
            '80000000-0000-0000-0000-000000000000', 'ffffffff-ffff-ffff-ffff-ffffffffffff', str(uuid.UUID(int=7))]
    fake = sus.FakeSingleUseSeal(committed_hash=b'\0' * 32)
    seen = {}
    made = []
    for order in (tags, tags[::-1]):
        for tag in order:
            T, R, G, V = make_types(tag)
            t = ref.tag(tag)
            objs = {}
            for items in ({}, {0: 0}, {0: 1}, {1: 0}, {0: 0, 1: 0}, {0: 0, 128: 0}, {1: 2, 3: 4, 200: 5}):
                objs['T', tuple(items.items())] = (T(items), ref.mb_hash(
                    [(ref.bits_of(bytes([k])), ref.leb(k), ref.leb(v)) for k, v in items.items()], t))
            for vals in ((), (0,), (1,), (0, 0), (0, 0, 0), (1, 2, 3, 4, 5)):
                objs['R', vals] = (R(vals), ref.mmr_hash([ref.leb(v) for v in vals], t))
            for i in range(3):
                for x in (0, 1):
                    cls = V.UNION_CLASSES[i]
                    objs['V', i, x] = (cls(x=x), ref.sha256(ref.derive(ref.tag(str(uuid.UUID(int=i + 7))), t) + ref.sha256(ref.leb(x))))
            for p in ((), (0,), (1,), (0, 1)):
                u = G.UnusedPrefix(prefix=Bits(p), seal=fake)
                objs['U', p] = (u, ref.sha256(ref.derive(ref.tag('dae47bef-d9a3-4971-a6a4-1c67c5f02c11'), t) +
                                              ref.sha256(ref.ser_bits(p) + pm.M('FakeSeal', committed_hash=b'\0' * 32).hash())))
            for k, v in ((0, 0), (0, 1), (1, 0)):
                leaf = G.LeafPrefix.from_unused_prefix(u, k, v, lambda s, h: sus.FakeSealWitness.from_hash(h))
                dt = ref.derive(ref.tag('59c17f37-7e26-4aea-8a5b-7c0db66af35b'), ref.derive(ref.tag('0c60f344-9109-4930-aec1-432c5750fcba'), t))
                dig = ref.sha256(dt + ref.leb(k) + ref.leb(v))
                objs['L', k, v] = (leaf, ref.sha256(ref.derive(ref.tag('0c60f344-9109-4930-aec1-432c5750fcba'), t) + ref.sha256(
                    pm.m_fake(dig).hash() + ref.leb(k) + ref.leb(v))))
            for key, (o, want) in objs.items():
                ctx.cur = [tag, key]
                made.append((o, [tag, key]))
                ctx.eq(o.hash, want, 'family-hash')
                ctx.expect(seen.setdefault(o.hash, (tag, key)) == (tag, key), 'collision', 'hash shared', other=seen[o.hash])
                ctx.state(tag, key)
                ctx.step()
            ctx.trace(tag)
    compare_all(ctx, made)


def tags(ctx, param):
    """Hash tags: calling, deriving and displaying them, over every pair of a set of tags"""
    strs = [str(uuid.UUID(int=i)) for i in (0, 1, 255, 256, 2**64, 2**127, 2**128 - 1)] + \
           ['ca380e10-c7d5-44df-aef0-55bce2125329', '8125d227-981c-4ca0-afa7-ab9911352c85', '01234567-89ab-cdef-0123-456789abcdef']
    real = [HashTag(s) for s in strs]
    for s, t in zip(strs, real):
        ctx.cur = s
        ctx.eq(bytes(t), ref.tag(s), 'tag-bytes')
        ctx.eq(str(t), s, 'tag-str')
        ctx.eq(bytes(HashTag(s.upper())), ref.tag(s), 'tag-case')
        for msg in (b'', b'\0', b'x' * 16, b'x' * 100):
            ctx.eq(t(msg).digest(), ref.sha256(ref.tag(s) + msg), 'tag-call')
            ctx.step()
    seen = {ref.tag(s): s for s in strs}
    level = list(zip(strs, real))
    for depth in range(2):
        nxt = []
        for (s, t), (u, v) in itertools.product(level, zip(strs, real)):
            ctx.cur = [s, u, depth]
            d = t.derive(v)
            e = v.derive(t)
            for name, got, want in (('(%s>%s)' % (s, u), d, ref.derive(bytes(t), bytes(v))),
                                    ('(%s>%s)' % (u, s), e, ref.derive(bytes(v), bytes(t)))):
                ctx.eq(bytes(got), want, 'derive')
                ctx.eq(len(got), 16, 'derive')
                ctx.eq(got(b'm').digest(), ref.sha256(want + b'm'), 'derived-call')
                ctx.eq(str(got), str(uuid.UUID(bytes=want)), 'derived-str')
                ctx.expect(seen.setdefault(bytes(got), name) == name, 'derive-collision', 'two derived tags coincide', other=seen[bytes(got)])
                ctx.step()
                ctx.state(name)
            nxt.append(('(%s>%s)' % (s, u), d))
        level = nxt
    ctx.trace(n=len(seen))


def long(ctx, param):
    """Long byte strings, and many attributes: the hash commits to all of them"""
    n, how = param
    ctx.cur = [n, how]
    if how == 'bytes':
        tag = '5b1d7a58-3c0e-4f7b-b1c3-000000000001'
        top = 1 << 21
        sers = [('fixed', FixedBytes(n), lambda s: s), ('var', VarBytes(top), lambda s: ref.leb(len(s)) + s), ('bounded', VarBytes(n - 1, n), lambda s: ref.leb(len(s)) + s)]
        s = (bytes(k * 7 % 251 for k in range(1 << 12)) * (n // (1 << 12) + 1))[:n]
        spots = sorted({0, 1, n // 2, n - 2, n - 1, 31, 32, 63, 64, 127, 255, 256, 999, 1000, 1023, 1024, 4095, 4096, 16383, 16384, 65534, 65535, 65536} & set(range(n)))
        for name, ser, wire in sers:
            cls = type('L', (Proof,), {'HASHTAG': HashTag(tag), 'SERIALIZED_ATTRS': [('a', UInt8), ('b', ser), ('c', UInt8)]})
            seen = {}
            for v in [s] + [s[:i] + bytes([s[i] ^ 1]) + s[i + 1:] for i in spots] + ([s[:-1], s + b'\0'] if name == 'var' else []):
                p = cls(a=1, b=v, c=2)
                want = ref.sha256(ref.tag(tag) + ref.sha256(b'\1' + wire(v) + b'\2'))
                ctx.eq(p.hash, want, 'long:hash', ser=name)
                ctx.eq(p.prune().hash, want, 'long:hash', ser=name)
                ctx.expect(seen.setdefault(p.hash, v) == v, 'long:collision', 'hash shared')
                ctx.step(2)
            q = cls(a=1, b=s, c=2).prune()
            q.b
            r = cls.deserialize(q.serialize())
            ctx.eq((r.b, r.hash), (s, q.hash), 'long:received', ser=name)
            for v in (s[:-1] + bytes([s[-1] ^ 1]), s):
                ctx.eq(cls(a=1, b=v, c=2) == r, v == s, 'long:equal', ser=name)
                ctx.eq(cls(a=1, b=v, c=2) in {r}, v == s, 'long:set', ser=name)
            ctx.state(n, name)
    else:
        tag = '5b1d7a58-3c0e-4f7b-b1c3-000000000002'
        kinds = {'u8': [UInt8] * n, 'bytes': [VarBytes(9)] * n, 'proofs': [pm.Flat] * n, 'mixed': [(UInt64, pm.Flat, VarBytes(9), BitsSerializer)[i % 4] for i in range(n)]}[how]

        def value(ser, k):
            if ser is pm.Flat:
                m = pm.m_flat(k % 100, b'%d' % (k // 100))
                return m.build(), m.hash()
            if ser is BitsSerializer:
                b = ref.bits_of(k.to_bytes(2, 'big'))
                return Bits(b), ref.ser_bits(b)
            if ser is UInt8:
                return k % 256, ref.leb(k % 256)
            if ser is UInt64:
                return k * 10 ** 9, ref.leb(k * 10 ** 9)
            s = b'%d' % k
            return s, ref.leb(len(s)) + s
        cls = type('L', (Proof,), {'HASHTAG': HashTag(tag), 'SERIALIZED_ATTRS': [('a%d' % i, ser) for i, ser in enumerate(kinds)]})
        seen = {}
        base = [value(ser, i * 3 % 1000) for i, ser in enumerate(kinds)]
        for at in [None] + sorted({0, 1, n // 2, n - 2, n - 1, 15, 16, 31, 32, 63, 64, 99, 127, 128, 255, 256} & set(range(n))):
            vals = list(base)
            if at is not None:
                vals[at] = value(kinds[at], at * 3 % 1000 + 1)
            p = cls(**{'a%d' % i: v for i, (v, _) in enumerate(vals)})
            want = ref.sha256(ref.tag(tag) + ref.sha256(b''.join(w for _, w in vals)))
            ctx.eq(p.hash, want, 'many:hash', at=at)
            q = p.prune()
            ctx.eq(q.hash, want, 'many:hash', at=at)
            ctx.eq(cls.deserialize(q.serialize()).hash, want, 'many:received', at=at)
            ctx.eq(cls.deserialize(p.serialize()).hash, want, 'many:received', at=at)
            if at is not None:
                getattr(q, 'a%d' % at)
                ctx.eq(getattr(cls.deserialize(q.serialize()), 'a%d' % at) == vals[at][0], True, 'many:received-used', at=at)
            ctx.expect(seen.setdefault(p.hash, at) == at, 'many:collision', 'hash shared', other=seen[p.hash])
            ctx.step(4)
        ctx.state(n, how)
    ctx.trace([n, how])


def repo_types(ctx, param):
    """All types the packages define: distinct tags"""
    import proofchains.core.bitcoin, proofchains.core.uniquebits.singleuseseal, proofchains.core.uniquebits.gumap
    import proofmarshal.merbinnertree, proofmarshal.mmr
    got = {}
    for name in ('OutPointProof', 'TxInProof', 'TxOutProof', 'FakeSeal', 'FakeWitness', 'Seal', 'Witness', 'TreeEmpty', 'TreeLeaf',
                 'TreeInner', 'RangeEmpty', 'RangeLeaf', 'RangeInner', 'KTreeEmpty', 'KTreeLeaf', 'KTreeInner', 'Unused', 'GuLeaf', 'GuInner'):
        k = pm.KINDS[name]
        cls = k.cls or k.root.UNION_CLASSES[k.variant]
        ctx.cur = name
        ctx.eq(bytes(cls.HASHTAG), k.tag, 'tag')
        ctx.expect(got.setdefault(bytes(cls.HASHTAG), name) == name, 'collision', 'tag shared', other=got.get(bytes(cls.HASHTAG)))
        ctx.state(name)
        ctx.step()
    ctx.trace()


def spaces(tier):
    return [
        core.Space('hashes', 'every proof shape and every single change of an attribute: hash in all forms, equality over pairs of up to 120',
                   hashes, [(n,) for n in pm.shapes()]),
        core.Space('all pairs', 'hashes of all these proofs are pairwise different', all_pairs, [0]),
        core.Space('declared types', '98 generated types of two attributes with all boundary values; all orders of three attributes', declared_types, [0]),
        core.Space('byte strings', 'proofs with a byte string of every length up to 600 and all kinds of bounds: hash and encoding', c08.lengths,
                   [range(s or 16, 600, 16) for s in range(16)]),
        core.Space('variants', 'unions of 1 to 9, and 127 to 300 variants, of the same or different names', c08.variants,
                   [(n, same, 0) for n in (1, 2, 3, 4, 5, 8, 127, 128, 129, 257) for same in (0, 1)]),
        core.Space('nested types', 'all combinations of up to 3 sub-proofs out of 6, direct and in unions', nested_types, [0]),
        core.Space('families', 'trees, ranges, maps and variants over 5 tags with the same contents', families, [0]),
        core.Space('tags', '10 tags, all pairs derived twice', tags, [0]),
        core.Space('long', 'byte strings of up to %d bytes altered in any of 23 places; up to %d attributes, any of 16 different' % ((1 << 20 if tier == 'thorough' else 70000), 300), long,
                   [(n, 'bytes') for n in [600, 1000, 1001, 1025, 4096, 4097, 5000, 16383, 16385, 65535, 65536, 65537, 70000] + ([1 << 17, 1 << 20] if tier == 'thorough' else [])]
                   + [(n, how) for n in (4, 5, 8, 9, 16, 17, 33, 65, 100, 128, 129, 257, 300) for how in ('u8', 'bytes', 'proofs', 'mixed')]),
        core.Space('repository types', 'all types the packages define', repo_types, [0]),
    ]
