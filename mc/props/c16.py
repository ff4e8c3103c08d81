"""C16: nodes of globally unique maps"""
import itertools

from mc import core, ref, btc, pm
from mc.sealing import FORMS, H1, H2, check, ways, verifies, witness, witness_ok, closes, flips
from mc.pm import M, IntMap, GU_TAG
from proofchains.core.uniquebits.gumap import GuMap, make_GuMap_subclass
from proofchains.core.uniquebits.singleuseseal import BitcoinSingleUseSeal, BitcoinSealWitness, FakeSealWitness, FakeSingleUseSeal
from proofmarshal.bits import Bits
from proofmarshal.proof import Proof
from proofmarshal.serialize import Digest, FixedBytes, HashTag, UInt16, UInt64, VarBytes

LEVEL = 'model_checking'
ASSUMPTIONS = ['any exception other than the pruning error counts as a refusal',
               'verification is left open where a witness points at an output that does not exist']

LEAF = ref.tag('0c60f344-9109-4930-aec1-432c5750fcba')
INNER = ref.tag('6893cac7-e834-49cd-8e95-77707b0499b5')
LEAF_SEALED = ref.tag('59c17f37-7e26-4aea-8a5b-7c0db66af35b')
INNER_SEALED = ref.tag('b925044d-320e-4c1f-9ef8-20614d260676')
SEALS = [M('Seal', outpoint=(H1, 0), nonce=b'\1' * 16), M('Seal', outpoint=(H1, 0), nonce=b'\2' * 16), M('Seal', outpoint=(H2, 1), nonce=b'\1' * 16),
         M('FakeSeal', committed_hash=b'\3' * 32)]


def node_ok(m):
    """The rule: whether the node of this model verifies; None where left open"""
    if m.kind.name == 'Unused':
        return True
    w = m.vals['witness']
    if m.kind.name == 'GuLeaf':
        digest = pm.leaf_digest(m.vals['key'], m.vals['value'])
    else:
        digest = pm.inner_digest(pm.seal_of(m.vals['left']), pm.seal_of(m.vals['right']))
    return closes(w, digest) and witness_ok(w)


def look(ctx, m, what):
    """The node verifies exactly if the rule says so, and shows the parts it was made of, however it is held"""
    ctx.step()
    want = node_ok(m)
    if want is not None:
        check(ctx, m, lambda p: p.verify(), want, what + ':verify')
    seal = pm.seal_of(m)
    prefix = m.vals['prefix'] if m.kind.name != 'GuLeaf' else ref.bits_of(m.vals['key'].to_bytes(2, 'big'))
    for name, make in ways(m):
        p = make(lambda p: (p.seal, p.prefix))
        ctx.eq(p.seal.hash, seal.hash(), what + ':seal', held=name)
        ctx.eq(tuple(p.prefix), prefix, what + ':prefix', held=name)
        ctx.eq(p.hash, m.hash(), what + ':hash', held=name)


def witnesses(digests):
    """Genuine and defective witnesses closing seals over each digest"""
    for d in digests:
        for f in FORMS:
            t = (1, (((H2, 9), b'', 0), ((H1, 0), b'', 0)), ((0, b''), (0, btc.commit_script(d, f))), 0)
            yield witness((H1, 0), t, 1, t, 1)
        yield witness((H1, 0), t, 0, t, 1)                      # spends something else
        yield witness((H1, 0), t, 2, t, 1)                      # no such input
        yield witness((H1, 1), t, 1, t, 1)                      # another seal
        yield witness((H1, 0), t, 1, t, 0)                      # another output
        yield witness((H1, 0), t, 1, t, 2)                      # no such output
        yield witness((H1, 0), t, 1, (2,) + t[1:], 1)           # output of another transaction
        yield pm.m_fake(d)


def leaves(ctx, param):
    key, value, deep = param
    others = [(key ^ 1, value), (key, value + 1), (value, key), (key + 1, value), (key, 0)]
    good = pm.leaf_digest(key, value)
    digests = [good] + [pm.leaf_digest(*o) for o in others if o != (key, value)] + [
        ref.sha256(LEAF_SEALED + ref.leb(key) + ref.leb(value)),                                        # not derived for the map
        ref.sha256(ref.derive(LEAF_SEALED, ref.tag(GU_TAG)) + ref.leb(key) + ref.leb(value)),           # derived for the map, not the variant
        ref.sha256(ref.derive(INNER_SEALED, pm.KINDS['GuLeaf'].tag) + ref.leb(key) + ref.leb(value)),
        ref.sha256(pm.GU_INNER_TAG + ref.leb(key) + ref.leb(value)),
        ref.sha256(pm.GU_LEAF_TAG + ref.leb(value) + ref.leb(key)) if key != value else b'\0' * 32,
        ref.sha256(pm.GU_LEAF_TAG + ref.leb(key)), ref.sha256(pm.GU_LEAF_TAG + ref.leb(value)),
        (ref.leb(key) + bytes(32))[:32], b'\0' * 32, good[::-1]] + list(flips(good, 1 if deep else 37))
    for w in witnesses(digests):
        m = M('GuLeaf', witness=w, key=key, value=value)
        ctx.cur = [key, value, repr(w)]
        look(ctx, m, 'leaf')
        ctx.state(key, value, repr(w))
        ctx.trace(ctx.cur)


def children():
    yield from (pm.m_unused((0, 0), SEALS[0]), pm.m_unused((0, 1), SEALS[1]), pm.m_unused((), SEALS[2]), pm.m_unused((0, 0), SEALS[3]),
                pm.m_unused((0, 0, 1), SEALS[0]))
    for seal in (None, pm.m_seal(3), pm.m_seal(4)):
        yield pm.m_leaf(5, 300, seal)
        yield pm.m_leaf(0x4005, 301, seal)
    a, b = pm.m_unused((0, 0), SEALS[0]), pm.m_unused((0, 1), SEALS[1])
    yield pm.m_inner((0,), a, b)
    yield pm.m_inner((0,), a, b, pm.m_seal(5))
    yield pm.m_inner((0,), pm.m_leaf(5, 300, pm.m_seal(3)), pm.m_inner((0,), b, a))


def inners(ctx, param):
    i, prefixes = param
    kids = list(children())
    left = kids[i]
    for right in kids:
        ls, rs = pm.seal_of(left), pm.seal_of(right)
        good = pm.inner_digest(ls, rs)
        others = [pm.inner_digest(rs, ls), pm.inner_digest(ls, ls), pm.inner_digest(rs, rs),
                  ref.sha256(pm.GU_INNER_TAG + left.hash() + right.hash()),
                  ref.sha256(pm.GU_LEAF_TAG + ls.hash() + rs.hash()), ref.sha256(INNER_SEALED + ls.hash() + rs.hash()),
                  ref.sha256(ref.derive(INNER_SEALED, ref.tag(GU_TAG)) + ls.hash() + rs.hash()),
                  ref.sha256(pm.GU_INNER_TAG + ls.hash()), b'\0' * 32] + list(flips(good, 83))
        for prefix in prefixes:
            for w in witnesses([good] + (others if prefix == prefixes[0] else [])):
                m = M('GuInner', prefix=prefix, witness=w, left=left, right=right)
                ctx.cur = [prefix, repr(left), repr(right), repr(w)]
                look(ctx, m, 'inner')
                ctx.state(ctx.cur and repr(ctx.cur))
                ctx.trace(ctx.cur)


def unused(ctx, param):
    for prefix in pm.BitArr.values:
        for s in SEALS:
            ctx.cur = [prefix, repr(s)]
            look(ctx, pm.m_unused(prefix, s), 'unused')
            ctx.state(prefix, repr(s))
            ctx.trace()


def close(calls, form, share=True):
    """A make_witness function that closes seals genuinely"""
    def make_witness(seal, digest):
        calls.append((seal.hash, digest))
        if isinstance(seal, FakeSingleUseSeal):
            return FakeSealWitness(seal=seal)
        o = (seal.outpoint.hash, seal.outpoint.n)
        return pm.m_witness(M('Seal', outpoint=o, nonce=seal.nonce), digest, form).build()
    return make_witness


def made(ctx, param):
    """Nodes made from unused prefixes and from children: what the seal is asked to be closed over, what the node then is"""
    part, parts = param
    kids = list(children())
    k = 0
    for seal in SEALS:
        for form in FORMS:
            for key, value in itertools.product((0, 5, 300, 65535), (0, 7, 2 ** 64 - 1)):
                k += 1
                if k % parts != part:
                    continue
                prefix = ref.bits_of(key.to_bytes(2, 'big'))
                un = pm.m_unused(prefix, seal)
                calls = []
                ctx.cur = ['leaf', repr(un), key, value, form]
                for source in (un.build(), un.build().prune(), IntMap.deserialize(un.wire())):
                    leaf = IntMap.LeafPrefix.from_unused_prefix(source, key, value, close(calls, form))
                    digest = pm.leaf_digest(key, value)
                    ctx.eq(calls.pop(), (seal.hash(), digest), 'leaf-made:asked')
                    ctx.eq(calls, [], 'leaf-made:asked-once')
                    ctx.eq((leaf.key, leaf.value), (key, value), 'leaf-made:contents')
                    ctx.eq(leaf.seal.hash, seal.hash(), 'leaf-made:seal')
                    ctx.eq(tuple(leaf.prefix), prefix, 'leaf-made:prefix')
                    fake_ok = seal.kind.name != 'FakeSeal' or seal.vals['committed_hash'] == digest
                    for held in (lambda: leaf, lambda: leaf.prune(), lambda: IntMap.deserialize(leaf.serialize())):
                        ctx.eq(verifies(held().verify), fake_ok, 'leaf-made:verify')
                    ctx.step()
                ctx.state('leaf', repr(un), key, value, form)
                ctx.trace(ctx.cur)
    for left, right in itertools.product(kids, repeat=2):
        k += 1
        if k % parts != part:
            continue
        ls, rs = pm.seal_of(left), pm.seal_of(right)
        digest = pm.inner_digest(ls, rs)
        l, r = left.build(), right.build()
        for prefix, seal, form in itertools.product(((), (0,), (1, 0, 1)), (SEALS[2], SEALS[3], M('FakeSeal', committed_hash=digest)), FORMS):
            un, calls = pm.m_unused(prefix, seal), []
            ctx.cur = ['inner', repr(un), repr(left), repr(right), form]
            n = IntMap.InnerPrefix.from_unused_prefix(un.build(), l, r, close(calls, form))
            ctx.eq(calls, [(seal.hash(), digest)], 'inner-made:asked')
            ctx.eq((n.left, n.right), (l, r), 'inner-made:children')
            ctx.eq(n.seal.hash, seal.hash(), 'inner-made:seal')
            ctx.eq(tuple(n.prefix), prefix, 'inner-made:prefix')
            want = seal.kind.name != 'FakeSeal' or seal.vals['committed_hash'] == digest
            for held in (lambda: n, lambda: n.prune(), lambda: IntMap.deserialize(n.serialize())):
                ctx.eq(verifies(held().verify), want, 'inner-made:verify')
            ctx.step()
            ctx.state(repr(ctx.cur))
        ctx.cur = ['children', repr(left), repr(right)]
        lp, rp = [c.vals['prefix'] if c.kind.name != 'GuLeaf' else ref.bits_of(c.vals['key'].to_bytes(2, 'big')) for c in (left, right)]
        for a, b in ((l, r), (l.prune(), r.prune()), (IntMap.deserialize(left.wire()), r)):
            n = IntMap.InnerPrefix.from_children(a, b)
            m = pm.m_inner(ref.lcp([lp, rp]), left, right)
            ctx.eq(n.hash, m.hash(), 'from-children:hash')
            ctx.eq(tuple(n.prefix), m.vals['prefix'], 'from-children:prefix')
            ctx.eq(n.seal.hash, pm.seal_of(m).hash(), 'from-children:seal')
            for held in (lambda: n, lambda: n.prune(), lambda: IntMap.deserialize(n.serialize())):
                ctx.eq(verifies(held().verify), True, 'from-children:verify')
            ctx.step()
        ctx.trace(ctx.cur)
        ctx.eq((l.serialize(), r.serialize()), (left.wire(), right.wire()), 'children-unchanged')


# -- a map as a whole -------------------------------------------------------------------------------------------------

def maps(ctx, param):
    """Whole maps of every shape up to a depth: each node verifies by itself, and breaking one place breaks the nodes it is part of"""
    depth, first = param

    def trees(prefix, d):
        if d == 0 or len(prefix) >= 2:
            yield pm.m_unused(prefix, M('Seal', outpoint=(H2, int('1' + ''.join(map(str, prefix)), 2)), nonce=bytes(16)))
            key = int(''.join(map(str, (prefix + (0,) * 16)[:16])), 2)
            yield pm.m_leaf(key, 9, pm.m_seal(len(prefix) + 2 * key // 2 ** 14))
            return
        yield from trees(prefix, 0)
        for l in trees(prefix + (0,), d - 1):
            for r in trees(prefix + (1,), d - 1):
                yield pm.m_inner(prefix, l, r)
                yield pm.m_inner(prefix, l, r, pm.m_seal(100 + len(prefix), 3))

    def damage(m):
        """Every version of the map with one node replaced or altered"""
        k = m.kind.name
        if k == 'Unused':
            yield M('Unused', prefix=m.vals['prefix'], seal=SEALS[0])
            return
        if k == 'GuLeaf':
            yield M('GuLeaf', **dict(m.vals, value=m.vals['value'] + 1))
            yield M('GuLeaf', **dict(m.vals, witness=pm.m_leaf(m.vals['key'], 1, pm.m_seal(77)).vals['witness']))
            return
        yield M('GuInner', **dict(m.vals, left=m.vals['right'], right=m.vals['left']))
        yield M('GuInner', **dict(m.vals, witness=pm.m_fake(b'\5' * 32)))
        for side in ('left', 'right'):
            for c in damage(m.vals[side]):
                yield M('GuInner', **dict(m.vals, **{side: c}))

    def nodes(p, m, path=()):
        yield p, m, path
        if m.kind.name == 'GuInner':
            yield from nodes(p.left, m.vals['left'], path + ('left',))
            yield from nodes(p.right, m.vals['right'], path + ('right',))

    def verdicts(m, what):
        p = m.build()
        q = p.prune()
        for n, nm, path in nodes(p, m):
            ctx.eq(verifies(n.verify), node_ok(nm), what + ':verify', node=path)
            ctx.step()
        for n, nm, path in nodes(q, m):
            ctx.eq(verifies(n.verify), node_ok(nm), what + ':verify-pruned', node=path)
        for n, nm, path in nodes(IntMap.deserialize(q.serialize()), m):
            ctx.eq(verifies(n.verify), node_ok(nm), what + ':verify-received', node=path)

    for k, m in enumerate(trees((), depth)):
        if k % 32 != first:
            continue
        ctx.cur = [repr(m)]
        verdicts(m, 'map')
        ctx.state(m.hash())
        ctx.trace([repr(m)[:300]])
        for d in damage(m):
            ctx.cur = ['damaged', repr(d)]
            verdicts(d, 'damaged')
            ctx.state(d.hash(), 1)


# -- other kinds of maps ----------------------------------------------------------------------------------------------

class Key(Proof):
    HASHTAG = HashTag('51ad8f5c-3a34-4c2e-9b36-5e5d2a14aa01')
    SERIALIZED_ATTRS = [('n', UInt16)]


def other_map(tag, key, value, prefix):
    class Map(GuMap):
        __slots__ = []
        HASHTAG = HashTag(tag)
        KEY_SERIALIZER, VALUE_SERIALIZER = key, value
        SEAL_CLASS, WITNESS_CLASS = BitcoinSingleUseSeal, BitcoinSealWitness
        if prefix is not None:
            key2prefix = staticmethod(prefix)
    return make_GuMap_subclass(Map)


def key_hash(k):
    return ref.sha256(ref.tag('51ad8f5c-3a34-4c2e-9b36-5e5d2a14aa01') + ref.sha256(ref.leb(k)))


KINDS = [('proof-keys', Key, Digest, lambda k: Bits.from_bytes(k.hash), lambda n: Key(n=n), key_hash, lambda n: bytes([n % 256]) * 32, lambda n: bytes([n % 256]) * 32),
         ('default-prefix', Key, Key, None, lambda n: Key(n=n), key_hash, lambda n: Key(n=n + 1), lambda n: key_hash(n + 1)),
         ('digest-keys', Digest, Key, lambda k: Bits.from_bytes(k), lambda n: bytes([n % 256]) * 32, lambda n: bytes([n % 256]) * 32, lambda n: Key(n=n), key_hash),
         ('integers', UInt16, FixedBytes(2), lambda k: Bits.from_bytes(k.to_bytes(2, 'big')), lambda n: n, ref.leb,
          lambda n: n.to_bytes(2, 'big'), lambda n: n.to_bytes(2, 'big')),
         ('strings', VarBytes(300), VarBytes(300), Bits.from_bytes, lambda n: b'k' * n, lambda n: ref.leb(n) + b'k' * n, lambda n: b'k' * n, lambda n: ref.leb(n) + b'k' * n),
         ('string-proof', VarBytes(1, 300), Key, Bits.from_bytes, lambda n: bytes(n + 1), lambda n: ref.leb(n + 1) + bytes(n + 1), lambda n: Key(n=n), key_hash),
         ('fixed-string', FixedBytes(16), VarBytes(300), Bits.from_bytes, lambda n: bytes([n]) * 16, lambda n: bytes([n]) * 16, lambda n: bytes(n), lambda n: ref.leb(n) + bytes(n))]


def kinds(ctx, param):
    """Maps of different types with keys and values of different kinds, used in every order: seals closed for one do not close the other"""
    a, b = param
    cls = []
    for i, k in enumerate((a, b)):
        name, kser, vser, prefix, mk, hk, mv, hv = KINDS[k]
        tag = '51ad8f5c-3a34-4c2e-9b36-5e5d2a14bb%02x' % i
        sealed = ref.derive(LEAF_SEALED, ref.derive(LEAF, ref.tag(tag)))
        sealed_inner = ref.derive(INNER_SEALED, ref.derive(INNER, ref.tag(tag)))
        cls.append((other_map(tag, kser, vser, prefix), mk, hk, mv, hv, sealed, sealed_inner))
    for order in ((0, 1, 0), (1, 0, 1)):
        for key, value in itertools.product((0, 1, 200), (3, 200)):
            leaves = []
            for i in order:
                c, mk, hk, mv, hv, sealed, sealed_inner = cls[i]
                calls = []
                un = c.UnusedPrefix(prefix=c.key2prefix(mk(key)), seal=SEALS[0].build())
                leaf = c.LeafPrefix.from_unused_prefix(un, mk(key), mv(value), close(calls, 'p2pkh'))
                digest = ref.sha256(sealed + hk(key) + hv(value))
                ctx.cur = [a, b, order, key, value]
                ctx.eq(calls, [(SEALS[0].hash(), digest)], 'kinds:sealed-digest', map=i)
                ctx.eq(leaf.prefix, un.prefix, 'kinds:prefix')
                for p in (leaf, leaf.prune(), c.deserialize(leaf.serialize())):
                    ctx.eq(verifies(p.verify), True, 'kinds:verify')
                fake = c.LeafPrefix(witness=FakeSealWitness.from_hash(digest), key=mk(key), value=mv(value))
                ctx.eq(verifies(fake.verify), True, 'kinds:verify-fake')
                n = c.InnerPrefix.from_children(leaf, fake)
                want = ref.sha256(sealed_inner + SEALS[0].hash() + pm.m_fake(digest).vals['seal'].hash())
                ctx.eq(n.witness.seal.committed_hash, want, 'kinds:inner-digest')
                ctx.eq(verifies(n.verify), True, 'kinds:verify-inner')
                leaves.append((i, digest, leaf))
                ctx.step(4)
            for (i, d, p), (j, e, q) in itertools.product(leaves, repeat=2):
                if i != j and a == b:
                    # witness of one map in the other
                    c, mk, _, mv = cls[j][:4]
                    x = c.LeafPrefix(witness=p.witness, key=mk(key), value=mv(value))
                    ctx.eq(verifies(x.verify), False, 'kinds:other-map')
            ctx.state(a, b, order, key, value)
            ctx.trace(ctx.cur)


def splits(ctx, param):
    """Keys and values that are byte strings: a seal closed over one pair is not closed over another, wherever the key ends and the value starts"""
    n, part, parts = param
    cls = other_map('51ad8f5c-3a34-4c2e-9b36-5e5d2a14bbee', VarBytes(300), VarBytes(300), Bits.from_bytes)
    sealed = ref.derive(LEAF_SEALED, ref.derive(LEAF, ref.tag('51ad8f5c-3a34-4c2e-9b36-5e5d2a14bbee')))
    strings = [bytes(t) for l in range(n + 1) for t in itertools.product((0, 1, 2, 3), repeat=l)]
    for c, (key, value) in enumerate(itertools.product(strings, strings)):
        if c % parts != part or len(key) + len(value) > n + 1:
            continue
        digest = ref.sha256(sealed + ref.leb(len(key)) + key + ref.leb(len(value)) + value)
        ctx.cur = [key, value]
        w = FakeSealWitness.from_hash(digest)
        whole = key + value
        pairs = [(whole[:i], whole[i:]) for i in range(len(whole) + 1)] + [(value, key), (key, value + b'\0'), (key + b'\0', value), (key, b''), (b'', value),
                 (ref.leb(len(key)) + key, value), (key, ref.leb(len(value)) + value), (key[1:], value), (key, value[1:])]
        for k, v in pairs:
            x = cls.LeafPrefix(witness=w, key=k, value=v)
            for p in (x, x.prune(), cls.deserialize(x.serialize())):
                ctx.eq(verifies(p.verify), (k, v) == (key, value), 'splits:verify', other=[k, v])
                ctx.step()
        calls = []
        un = cls.UnusedPrefix(prefix=Bits.from_bytes(key), seal=SEALS[0].build())
        cls.LeafPrefix.from_unused_prefix(un, key, value, close(calls, 'op_return'))
        ctx.eq(calls, [(SEALS[0].hash(), digest)], 'splits:sealed-digest')
        ctx.state(key, value)
        ctx.trace([key, value])


def long(ctx, param):
    """Long keys and values: the seal commits to all of both"""
    n, side = param
    cls = other_map('51ad8f5c-3a34-4c2e-9b36-5e5d2a14bbed', VarBytes(1 << 21), VarBytes(1 << 21), lambda k: Bits.from_bytes(k[:4]))
    sealed = ref.derive(LEAF_SEALED, ref.derive(LEAF, ref.tag('51ad8f5c-3a34-4c2e-9b36-5e5d2a14bbed')))
    s = bytes(k * 7 % 251 for k in range(min(n, 1 << 12)))
    s = (s * (n // max(len(s), 1) + 1))[:n]
    key, value = (s, b'v') if side == 'key' else (b'kkkk', s) if side == 'value' else (s, s[::-1])
    wire = lambda k, v: ref.leb(len(k)) + k + ref.leb(len(v)) + v
    digest = ref.sha256(sealed + wire(key, value))
    ctx.cur = [n, side]
    calls = []
    un = cls.UnusedPrefix(prefix=Bits.from_bytes(key[:4]), seal=SEALS[0].build())
    leaf = cls.LeafPrefix.from_unused_prefix(un, key, value, close(calls, 'op_return'))
    ctx.eq(calls, [(SEALS[0].hash(), digest)], 'long:sealed-digest')
    for p in (leaf, leaf.prune(), cls.deserialize(leaf.serialize())):
        ctx.eq(verifies(p.verify), True, 'long:verify')
    w = FakeSealWitness.from_hash(digest)
    alter = lambda t, i: t[:i] + bytes([t[i] ^ 1]) + t[i + 1:]
    spots = sorted({0, 1, 3, 4, 5, n // 2, n - 2, n - 1, 31, 32, 63, 64, 127, 255, 256, 999, 1000, 1023, 1024, 4095, 4096, 65535, 65536} & set(range(n)))
    others = [(key, value + b'\0'), (key + b'\0', value), (key, value[:-1])]
    if side != 'value':
        others += [(alter(key, i), value) for i in spots] + [(key[:i], key[i:] + value) for i in spots if i]
    if side != 'key':
        others += [(key, alter(value, i)) for i in spots] + [(key + value[:i], value[i:]) for i in spots if i]
    for k, v in [(key, value)] + others:
        ctx.cur = [n, side, len(k), len(v)]
        x = cls.LeafPrefix(witness=w, key=k, value=v)
        ctx.eq(verifies(x.verify), (k, v) == (key, value), 'long:verify-other')
        ctx.eq(verifies(cls.deserialize(x.serialize()).verify), (k, v) == (key, value), 'long:verify-other')
        ctx.eq(x.hash == cls.LeafPrefix(witness=w, key=key, value=value).hash, (k, v) == (key, value), 'long:hash')
        ctx.step(2)
    ctx.state(n, side)
    ctx.trace([n, side])


def spaces(tier):
    deep = tier == 'thorough'
    keys = (0, 5, 127, 128, 65535) if deep else (0, 5, 300)
    return [core.Space('leaves', 'leaves with genuine and defective witnesses over right and wrong digests', leaves,
                       [(k, v, deep) for k in keys for v in ((0, 5, 300, 2 ** 64 - 1) if deep else (5, 300))]),
            core.Space('inners', 'every pair of children with genuine and defective witnesses over right and wrong digests', inners,
                       [(i, [(), (0,), (1, 1)] if deep else [(0,)]) for i in range(len(list(children())))]),
            core.Space('unused', 'unused prefixes', unused, [()]),
            core.Space('made', 'every node made from an unused prefix or from children', made, [(k, 24) for k in range(24)]),
            core.Space('maps', 'whole maps of every shape up to depth 2, intact and with each one place altered', maps,
                       [(2, k) for k in range(32)]),
            core.Space('splits', 'every pair of short byte strings as key and value, against every other way to split them', splits,
                       [(4 if deep else 3, k, 8) for k in range(8)], disjoint=True),
            core.Space('long', 'keys and values of up to %d bytes, altered or split in any of %d places' % (1 << 20 if deep else 70000, 23), long,
                       [(n, side) for n in [5, 33, 64, 127, 128, 255, 256, 300, 999, 1000, 1001, 1024, 2000, 4096, 5000, 16383, 16384, 65535, 65536, 70000] + ([1 << 17, 1 << 20] if deep else [])
                        for side in ('key', 'value', 'both')]),
            core.Space('kinds', 'every two types of maps with keys and values of %d kinds' % len(KINDS), kinds, [(a, b) for a in range(len(KINDS)) for b in range(len(KINDS))])]
