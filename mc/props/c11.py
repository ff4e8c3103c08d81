"""C11: immutability, and independence of what was defined and instantiated before"""
import itertools

from mc import core, ref, btc, pm
from mc.pm import M
from mc.props.c10 import direct
from proofmarshal.bits import Bits
from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
from proofmarshal.proof import Proof, VarProof, ProofUnion, PrunedError
from proofmarshal.serialize import (FixedBytes, VarBytes, UInt8, UInt16, HashTag, SerBool, SerializerTypeError,
                                    SerializerValueError, DeserializationError)
from proofchains.core.uniquebits.gumap import GuMap, make_GuMap_subclass
from proofchains.core.uniquebits import singleuseseal as sus

LEVEL = 'model_checking'
ASSUMPTIONS = ['a type made by make_*_subclass is not subclassed again']

MISSING = object()


def snapshot(m, r):
    """Everything observable about a fully available proof"""
    out = [r.hash, r.serialize(), hash(r), type(r).__name__, bool(r.is_pruned), bool(r.is_fully_pruned)]
    for path, n, c in m.attrs():
        v = r
        for a in path + (n,):
            v = getattr(v, a)
        out.append(v.hash if isinstance(v, Proof) else v)
    return out


def expected(m, name=None):
    out = [m.hash(), m.wire()]
    return out


FORMS = {'whole': lambda m: m.build(), 'deserialized': lambda m: m.kind.root.deserialize(m.wire()),
         'pruned': lambda m: m.build().prune(), 'received': lambda m: m.kind.root.deserialize(m.wire(frozenset()))}


def attributes(ctx, param):
    """Setting or deleting any attribute of any proof fails and changes nothing"""
    name, = param
    m = pm.shapes()[name]
    for form, make in FORMS.items():
        for path, node in m.nodes():
            if form == 'received' and path:
                continue
            names = [n for n, _ in node.kind.fields] + ['hash', 'data_hash', 'is_pruned', 'is_fully_pruned', 'new_attribute', 'HASHTAG',
                                                        'SERIALIZED_ATTRS', '__class__', '__dict__', 'prefix', 'key', 'value']
            if form == 'pruned' or not path:
                # whatever else it has, however it is spelled: what keeps the state of the instance, its methods, its class's settings
                r = make(m)
                names += sorted(set(getattr(r, '__dict__', ())) | set(dir(type(r))) - set(names) - {'__doc__', '__weakref__'})
                names += ['_Proof__orig_instance', '_x', '__x', '__x__', '_Proof__x', '', 'x y', '_%s__x' % type(r).__name__, 'UNION_CLASSES']
                names = list(dict.fromkeys(names))
            for before in ((), ('hash',), ('serialize',)):
                for n in names:
                    for op in ('set', 'set-same', 'del'):
                        ctx.cur = [name, form, path, before, n, op]
                        r = make(m)
                        p = r
                        for a in path:
                            p = getattr(p, a)
                        for b in before:
                            getattr(p, b) if b == 'hash' else p.serialize()
                        if op == 'set':
                            fn = lambda: setattr(p, n, b'\0' * 32)
                        elif op == 'set-same':
                            try:
                                same = getattr(p, n, MISSING)
                            except PrunedError:
                                continue
                            if same is MISSING:
                                continue
                            fn = lambda: setattr(p, n, same)
                        else:
                            fn = lambda: delattr(p, n)
                        ctx.raises((TypeError, AttributeError), fn, 'mutable')
                        if form in ('whole', 'deserialized'):
                            ctx.eq(p.hash, node.hash(), 'changed')
                            ctx.eq(p.serialize(), node.wire(), 'changed')
                            ctx.eq(r.serialize(), m.wire(), 'changed')
                        ctx.eq(r.hash, m.hash(), 'changed')
                        if n == 'new_attribute':
                            ctx.raises((AttributeError,), lambda: p.new_attribute, 'changed')
                        ctx.step()
        ctx.state(form, name)
        ctx.trace([name, form])


def item_assignment(ctx, param):
    trees = [pm.m_tree({}), pm.m_tree({b'\x08': pm.m_flat(1)}), pm.m_tree({b'\x08': pm.m_flat(1), b'\x18': pm.m_flat(2)})]
    ranges = [pm.m_range([pm.m_flat(i) for i in range(n)]) for n in range(6)]
    for m in trees + ranges:
        for form, make in FORMS.items():
            for k in (b'\x08', b'\x99', 0, -1, 1, slice(0, 1), slice(None)):
                ctx.cur = [m, form, repr(k)]
                r = make(m)

                def put():
                    r[k] = pm.m_flat(5).build()

                def rm():
                    del r[k]
                ctx.raises((TypeError, AttributeError), put, 'item-assigned')
                ctx.raises((TypeError, AttributeError), rm, 'item-deleted')
                ctx.eq(r.hash, m.hash(), 'changed')
                ctx.step(2)
                ctx.state(repr(m), form, repr(k))
    ctx.trace()


# -- histories of operations, all earlier proofs observed after each --------------------------------------------------


def op_hash(r, m, new):
    r.hash


def op_serialize(r, m, new):
    r.serialize()


def op_prune_all(r, m, new):
    p = r.prune()
    for path, n, c in m.attrs():
        v = p
        for a in path + (n,):
            v = getattr(v, a)
    p.serialize()


def op_prune_leaf(r, m, new):
    p = r.prune()
    path, n, c = list(m.attrs())[-1] if m.kind.fields else ((), 'hash', None)
    v = p
    for a in path + (n,):
        v = getattr(v, a)
    p.prune().serialize()
    q = m.kind.root.deserialize(p.serialize())
    q.prune()
    q.hash


def op_prune_none(r, m, new):
    p = r.prune()
    p.serialize()
    p.hash
    p.prune().prune().hash


def op_copy(r, m, new):
    q = m.kind.root.deserialize(r.serialize())
    q == r
    op_prune_all(q, m, new)
    new.append((m, q))


def op_compare(r, m, new):
    for n, s in OTHERS:
        r == s, s == r, hash(s), {r: 1, s: 2}


def op_embed(r, m, new):
    """Use it inside other proofs"""
    for n, c in pm.KINDS['Union'].fields:
        break
    try:
        u = pm.Union(u=r, z=True)
    except (TypeError, ValueError):
        return
    u.serialize()
    p = u.prune()
    p.u
    p.serialize()


def op_structure(r, m, new):
    """Derive other structures from it"""
    if isinstance(r, pm.Tree):
        for k in (b'\x08', b'\x18', b'\xf8', b'\x80'):
            r.put(k, pm.m_flat(9).build())
            try:
                r.remove(k)
                r.put(k, pm.m_flat(9).build()).remove(k)
            except KeyError:
                pass
        r.issubset(r)
        list(r.items())
        q = r.prune().put(b'\x80', pm.m_flat(3).build())
        q.serialize()
    elif isinstance(r, pm.Range):
        a = r.append(pm.m_flat(9).build())
        a.extend([pm.m_flat(8).build()] * 3)
        a[1:], a[:-1], a[:0], list(a), list(reversed(a))
        r.prune().append(pm.m_flat(3).build()).serialize()
    elif hasattr(r, 'verify'):
        try:
            r.verify()
        except Exception:
            pass
    elif m.kind.name == 'Unused':
        pm.IntMap.LeafPrefix.from_unused_prefix(r, 1, 2, lambda s, h: sus.FakeSealWitness.from_hash(h)).serialize()


OPS = [op_hash, op_serialize, op_prune_all, op_prune_leaf, op_prune_none, op_copy, op_compare, op_embed, op_structure]
OTHERS = [(m, m.build()) for m in (pm.m_flat(1), pm.m_tree({}), pm.m_range([]))]


def histories(ctx, param):
    """All sequences of operations on a proof and its parts"""
    name, depth = param
    m = pm.shapes()[name]
    for form in ('whole', 'deserialized'):
        for seq in itertools.product(range(len(OPS)), repeat=depth):
            for target in ([(), list(m.nodes())[-1][0]] if len(list(m.nodes())) > 1 else [()]):
                ctx.cur = [name, form, [OPS[i].__name__ for i in seq], target]
                r = FORMS[form](m)
                t = r
                for a in target:
                    t = getattr(t, a)
                tm = m.at(target)
                new = []
                for i in seq:
                    OPS[i](t, tm, new)
                    for mm, q in [(m, r), (tm, t)] + new:
                        ctx.eq(q.hash, mm.hash(), 'hash-changed')
                        ctx.eq(q.serialize(), mm.wire(), 'serialization-changed')
                        ctx.eq(bool(q.is_pruned), False, 'is_pruned-changed')
                    ctx.step()
                for path, n, c in m.attrs():
                    v = r
                    for a in path + (n,):
                        v = getattr(v, a)
                    w = m.at(path).vals[n]
                    ctx.eq(v.hash if isinstance(w, M) else v, w.hash() if isinstance(w, M) else c.real(w), 'attribute-changed')
                ctx.state(name, form, seq, target)
        ctx.trace([name, form])


# -- histories of types ----------------------------------------------------------------------------------------------

_n = [0]


def newtag():
    _n[0] += 1
    return '7c1d7a58-3c0e-4f7b-b1c2-%012x' % _n[0]


class Rel:
    """A fresh hierarchy of proof types with different attributes"""
    def __init__(self):
        self.tags = {k: newtag() for k in 'ABCDE'}
        A = type('A', (Proof,), {'HASHTAG': HashTag(self.tags['A']), 'SERIALIZED_ATTRS': [('x', UInt8)]})
        B = type('B', (A,), {'HASHTAG': HashTag(self.tags['B']), 'SERIALIZED_ATTRS': [('y', VarBytes(3))]})
        C = type('C', (A,), {'HASHTAG': HashTag(self.tags['C'])})
        D = type('D', (B,), {'HASHTAG': HashTag(self.tags['D']), 'SERIALIZED_ATTRS': [('x', UInt16), ('y', VarBytes(3))]})
        E = type('E', (Proof,), {'HASHTAG': HashTag(self.tags['E']), 'SERIALIZED_ATTRS': [('a', A), ('b', ProofUnion(B, E_PLAIN))]})
        self.cls = {'A': A, 'B': B, 'C': C, 'D': D, 'E': E}

    WIRE = {'A': b'\5', 'B': b'\2hi', 'C': b'\5', 'D': b'\xac\2\2hi'}
    ARGS = {'A': {'x': 5}, 'B': {'y': b'hi'}, 'C': {'x': 5}, 'D': {'x': 300, 'y': b'hi'}}

    def hash(self, k):
        if k == 'E':
            return ref.sha256(ref.tag(self.tags['E']) + ref.sha256(self.hash('A') + self.hash('B')))
        return ref.sha256(ref.tag(self.tags[k]) + ref.sha256(self.WIRE[k]))

    def wire(self, k):
        if k == 'E':
            return b'\0\0' + self.WIRE['A'] + b'\0\0' + self.WIRE['B']
        return b'\0' + self.WIRE[k]

    def make(self, k):
        if k == 'E':
            return self.cls['E'](a=self.make('A'), b=self.make('B'))
        return self.cls[k](**self.ARGS[k])

    def observe(self, ctx, k, p):
        ctx.eq(p.hash, self.hash(k), 'type-history:hash', type=k)
        ctx.eq(p.serialize(), self.wire(k), 'type-history:serialization', type=k)
        for n in ('x', 'y', 'a', 'b'):
            want = self.ARGS[k].get(n, MISSING) if k != 'E' else {'a': self.hash('A'), 'b': self.hash('B')}.get(n, MISSING)
            got = getattr(p, n, MISSING)
            ctx.eq(got.hash if isinstance(got, Proof) else got, want, 'type-history:attribute', type=k, attr=n)

    def act(self, ctx, k, what):
        cls = self.cls[k]
        if what == 'make':
            p = self.make(k)
        elif what == 'deserialize':
            p = cls.deserialize(self.wire(k))
        elif what == 'prune':
            p = self.make(k).prune()
            self.observe_pruned(ctx, k, p)
            return None
        else:
            bad = {'A': {'x': 256}, 'B': {'y': b'long'}, 'C': {'x': 256}, 'D': {'x': 65536, 'y': b''}, 'E': {}}[k]
            if bad:
                ctx.raises(SerializerValueError, lambda: cls(**bad), 'type-history:accepted')
            bad = {'A': {'x': b''}, 'B': {'y': 1}, 'C': {'x': b''}, 'D': {'x': b'', 'y': 1}, 'E': {'a': None, 'b': None}}[k]
            ctx.raises(SerializerTypeError, lambda: cls(**bad), 'type-history:accepted')
            ctx.raises(DeserializationError, lambda: cls.deserialize(self.wire(k) + b'\0'), 'type-history:deserialized')
            ctx.raises(DeserializationError, lambda: cls.deserialize(self.wire(k)[:-1]), 'type-history:deserialized')
            return None
        self.observe(ctx, k, p)
        return p

    def observe_pruned(self, ctx, k, p):
        ctx.eq(p.serialize(), b'\xff' + ref.sha256((self.hash('A') + self.hash('B')) if k == 'E' else self.WIRE[k]), 'type-history:pruned')
        ctx.eq(p.hash, self.hash(k), 'type-history:pruned')
        for n in (self.ARGS[k] if k != 'E' else {}):
            ctx.eq(getattr(p, n), self.ARGS[k][n], 'type-history:pruned')


E_PLAIN = type('EPlain', (Proof,), {'HASHTAG': HashTag('7d1d7a58-3c0e-4f7b-b1c2-000000000000'), 'SERIALIZED_ATTRS': []})


def inheritance(ctx, param):
    """All orders of using a hierarchy of types"""
    first, depth = param
    acts = [(k, w) for k in 'ABCDE' for w in ('make', 'deserialize', 'prune', 'refuse')]
    for rest in itertools.product(acts, repeat=depth - 1):
        rel = Rel()
        alive = []
        for k, w in (acts[first],) + rest:
            ctx.cur = [(acts[first],) + rest, k, w]
            p = rel.act(ctx, k, w)
            if p is not None:
                alive.append((k, p))
            for kk, q in alive:
                rel.observe(ctx, kk, q)
            ctx.step()
        ctx.state(first, rest)
    ctx.trace(acts[first])


# -- families of generic types: definition and use in any order ----------------------------------------------------------


class FamV:
    def __init__(self, other):
        self.tag = newtag()
        self.V = type('V', (VarProof,), {'HASHTAG': HashTag(self.tag)})
        self.subs = [newtag() for _ in range(2 + 2 * other)]
        self.cls = []
        for i, s in enumerate(self.subs):
            # all variants of one of the two go by the same name
            self.cls.append(self.V.declare_variant(type('V' if other else 'V%d' % i, (self.V,), {
                'SUB_HASHTAG': HashTag(s), 'SERIALIZED_ATTRS': [('x', UInt8)] if i != 1 else [('z', SerBool)]})))

    def uses(self, ctx):
        def one(i):
            w = b'\7' if i != 1 else b'\xff'
            p = self.cls[i](**({'x': 7} if i != 1 else {'z': True}))
            h = ref.sha256(ref.derive(ref.tag(self.subs[i]), ref.tag(self.tag)) + ref.sha256(w))
            ctx.eq(p.hash, h, 'family:hash')
            ctx.eq(p.serialize(), b'\0' + bytes([i]) + w, 'family:serialization')
            q = self.V.deserialize(p.serialize())
            ctx.eq(type(q), type(p), 'family:type')
            ctx.eq(q == p, True, 'family:equal')
        def count():
            for i in range(6):
                b = b'\0' + bytes([i]) + (b'\7' if i != 1 else b'\xff')
                if i < len(self.subs):
                    self.V.deserialize(b)
                else:
                    ctx.raises(DeserializationError, lambda: self.V.deserialize(b), 'family:accepts')
        return [lambda: one(0), lambda: one(1), lambda: (count(), [one(i) for i in range(len(self.subs))])]


class FamT:
    def __init__(self, other):
        self.tag = newtag()
        self.wide = other
        fam = self

        class T(MerbinnerTree):
            HASHTAG = HashTag(self.tag)
            KEY_SERIALIZER = FixedBytes(2 if other else 1)
            VALUE_SERIALIZER = UInt16 if other else UInt8

            @staticmethod
            def key2prefix(key):
                return ~Bits.from_bytes(key) if other else Bits.from_bytes(key)
        self.T = make_MerbinnerTree_subclass(T)

    def key(self, i):
        return bytes([i, 1]) if self.wide else bytes([i])

    def model(self, items):
        return ref.mb_hash([(tuple(b ^ self.wide for b in ref.bits_of(self.key(k))), self.key(k), ref.leb(v)) for k, v in items.items()],
                           ref.tag(self.tag))

    def check(self, ctx, t, items):
        ctx.eq(t.hash, self.model(items), 'family:hash')
        ctx.eq({k: v for k, v in t.items()}, {self.key(k): v for k, v in items.items()}, 'family:items')
        ctx.eq(len(t), len(items), 'family:len')
        ctx.eq(isinstance(t, self.T), True, 'family:type')
        q = self.T.deserialize(t.serialize())
        ctx.eq(q == t, True, 'family:equal')
        ctx.eq(type(q), type(t), 'family:type')

    def uses(self, ctx):
        def some(items):
            t = self.T({self.key(k): v for k, v in items.items()})
            self.check(ctx, t, items)
            for k in list(items)[:1]:
                t = t.remove(self.key(k))
                self.check(ctx, t, {q: v for q, v in items.items() if q != k})
        def refuse():
            ctx.raises((SerializerTypeError, SerializerValueError), lambda: self.T({b'123': 1}), 'family:accepts')
            ctx.raises(SerializerValueError, lambda: self.T({self.key(1): 70000}), 'family:accepts')
        return [lambda: some({}), lambda: some({1: 2, 3: 4, 200: 200}), lambda: (some({7: 7}), refuse())]


class FamR:
    def __init__(self, other):
        self.tag = newtag()
        self.ser = (lambda v: ref.leb(len(v)) + v) if other else ref.leb
        self.val = (lambda i: bytes([i]) * (i % 3)) if other else (lambda i: i)

        class R(MerkleMountainRange):
            HASHTAG = HashTag(self.tag)
            VALUE_SERIALIZER = VarBytes(3) if other else UInt8
        self.R = make_mmr_subclass(R)

    def uses(self, ctx):
        def some(n):
            vals = [self.val(i) for i in range(n)]
            r = self.R(vals)
            for q in (r, self.R.deserialize(r.serialize()), self.R(vals + vals)[:n], self.R().extend(vals)):
                ctx.eq(q.hash, ref.mmr_hash([self.ser(v) for v in vals], ref.tag(self.tag)), 'family:hash')
                ctx.eq(list(q), vals, 'family:items')
                ctx.eq(isinstance(q, self.R), True, 'family:type')
        return [lambda: some(0), lambda: some(1), lambda: some(5)]


class FamG:
    def __init__(self, other):
        self.tag = newtag()

        class G(GuMap):
            HASHTAG = HashTag(self.tag)
            KEY_SERIALIZER = UInt16 if other else UInt8
            VALUE_SERIALIZER = pm.Flat if other else UInt8
            SEAL_CLASS = sus.BitcoinSingleUseSeal
            WITNESS_CLASS = sus.BitcoinSealWitness

            @staticmethod
            def key2prefix(key):
                return Bits.from_bytes(bytes([key % 256]))
        self.G = make_GuMap_subclass(G)
        t = ref.tag(self.tag)
        self.leaf_tag = ref.derive(ref.tag('0c60f344-9109-4930-aec1-432c5750fcba'), t)
        self.inner_tag = ref.derive(ref.tag('6893cac7-e834-49cd-8e95-77707b0499b5'), t)
        self.unused_tag = ref.derive(ref.tag('dae47bef-d9a3-4971-a6a4-1c67c5f02c11'), t)
        self.val = pm.m_flat(4) if other else 4
        self.val_wire = pm.m_flat(4).hash() if other else b'\4'

    def fake(self, h):
        return sus.FakeSealWitness.from_hash(h)

    def unused(self, ctx, prefix, h):
        u = self.G.UnusedPrefix(prefix=Bits(prefix), seal=sus.FakeSingleUseSeal(committed_hash=h))
        ctx.eq(u.hash, ref.sha256(self.unused_tag + ref.sha256(ref.ser_bits(prefix) + M('FakeSeal', committed_hash=h).hash())), 'family:hash')
        u.verify()
        return u

    def uses(self, ctx):
        def leaf():
            d = ref.sha256(ref.derive(ref.tag('59c17f37-7e26-4aea-8a5b-7c0db66af35b'), self.leaf_tag) + b'\3' + self.val_wire)
            v = self.val.build() if isinstance(self.val, M) else self.val
            x = self.G.LeafPrefix.from_unused_prefix(self.unused(ctx, (), d), 3, v, lambda s, h: self.fake(h))
            ctx.eq(x.seal.committed_hash, d, 'family:sealed')
            ctx.eq(x.hash, ref.sha256(self.leaf_tag + ref.sha256(pm.m_fake(d).hash() + b'\3' + self.val_wire)), 'family:hash')
            x.verify()
            ctx.eq(self.G.deserialize(x.serialize()) == x, True, 'family:equal')

        def inner():
            a, b = self.unused(ctx, (0,), b'\1' * 32), self.unused(ctx, (1,), b'\2' * 32)
            d = ref.sha256(ref.derive(ref.tag('b925044d-320e-4c1f-9ef8-20614d260676'), self.inner_tag) + a.seal.hash + b.seal.hash)
            for x in (self.G.InnerPrefix.from_children(a, b),
                      self.G.InnerPrefix.from_unused_prefix(self.unused(ctx, (), d), a, b, lambda s, h: self.fake(h))):
                ctx.eq(x.seal.committed_hash, d, 'family:sealed')
                ctx.eq(x.hash, ref.sha256(self.inner_tag + ref.sha256(ref.ser_bits(()) + pm.m_fake(d).hash() + a.hash + b.hash)), 'family:hash')
                x.verify()
                ctx.eq(self.G.deserialize(x.serialize()) == x, True, 'family:equal')
        return [lambda: self.unused(ctx, (1, 0), b'\3' * 32), leaf, inner]


FAMS = {'V': FamV, 'T': FamT, 'R': FamR, 'G': FamG}


def families(ctx, param):
    """Two types of generic structures: every interleaving of their definition and uses"""
    a, b = param
    for da in itertools.permutations(range(3)):
        for db in itertools.permutations(range(3)):
            # interleavings of (define a, 3 uses) and (define b, 3 uses)
            for pos in itertools.combinations(range(8), 4):
                ctx.cur = [a, b, da, db, pos]
                fa = fb = None
                ia = ib = 0
                for step in range(8):
                    if step in pos:
                        if fa is None:
                            fa = FAMS[a](0)
                            ua = fa.uses(ctx)
                        else:
                            ua[da[ia]]()
                            ia += 1
                    else:
                        if fb is None:
                            fb = FAMS[b](1)
                            ub = fb.uses(ctx)
                        else:
                            ub[db[ib]]()
                            ib += 1
                    ctx.step()
                # and all of it again once everything is defined and used
                for u in ua + ub:
                    u()
                ctx.state(a, b, da, db, pos)
    ctx.trace([a, b])


def serializers(ctx, param):
    """Types of byte strings and unions with parameters: what one accepts doesn't depend on those defined before"""
    first, lim = param
    kinds = [('fixed', n) for n in range(lim)] + [('var', n) for n in range(1, lim)] + [('var', a, b) for a in range(lim) for b in range(a + 1, lim)]
    kinds += [('union', a) for a in ((0,), (1,), (0, 1), (1, 0))]

    def thing(i):
        return type('Thing', (Proof,), {'HASHTAG': HashTag('7e1d7a58-3c0e-4f7b-b1c2-%012x' % i), 'SERIALIZED_ATTRS': [('x', UInt8)]})
    things = [thing(0), thing(1)]

    def define(k):
        return FixedBytes(k[1]) if k[0] == 'fixed' else VarBytes(*k[1:]) if k[0] == 'var' else ProofUnion(*[things[i] for i in k[1]])

    def check(k, cls):
        if k[0] == 'union':
            for i, t in enumerate(things):
                p = t(x=7)
                if i in k[1]:
                    cls.check_instance(p)
                    w = bytes([k[1].index(i)]) + b'\0\7'
                    ctx.eq(cls.serialize(p), w, 'serializers:wire', type=k)
                    ctx.eq(type(cls.deserialize(w)) is t, True, 'serializers:type', type=k)
                else:
                    ctx.raises(SerializerTypeError, lambda: cls.check_instance(p), 'serializers:accepts', type=k)
            ctx.raises(DeserializationError, lambda: cls.deserialize(bytes([len(k[1])]) + b'\0\7'), 'serializers:accepts', type=k)
            return
        lo, hi = (k[1], k[1]) if k[0] == 'fixed' else (0, k[1]) if len(k) == 2 else k[1:]
        for n in range(lim + 2):
            v = b'x' * n
            w = v if k[0] == 'fixed' else bytes([n]) + v
            if lo <= n <= hi:
                cls.check_instance(v)
                ctx.eq(cls.serialize(v), w, 'serializers:wire', type=k, value=v)
                ctx.eq(cls.deserialize(w), v, 'serializers:value', type=k, value=v)
            else:
                ctx.raises(SerializerValueError, lambda: cls.check_instance(v), 'serializers:accepts', type=k, value=v)
                ctx.raises(DeserializationError, lambda: cls.deserialize(w), 'serializers:accepts', type=k, value=v)
    for second in [None] + kinds:
        for third in [None] + (kinds if second else []):
            seq = [k for k in (kinds[first % len(kinds)], second, third) if k]
            ctx.cur = seq
            made = [(k, define(k)) for k in seq]
            for k, cls in made[:1] + made[1:][::-1]:
                check(k, cls)
                ctx.step()
            ctx.state(tuple(seq))
    ctx.trace([first])


def spaces(tier):
    deep = tier == 'thorough'
    shapes = pm.shapes()
    return [
        core.Space('attributes', 'every attribute of every node of every shape, in every form: set, set to itself, delete', attributes,
                   [(n,) for n in shapes]),
        core.Space('items', 'item assignment and deletion on trees and ranges', item_assignment, [0]),
        core.Space('histories', 'all sequences of %d operations on every shape, whole and deserialized, and its innermost part' % (3 if deep else 2),
                   histories, [(n, 3 if deep else 2) for n in shapes]),
        core.Space('serializers', 'all sequences of 3 definitions of byte string types with lengths up to %d and unions' % (4 if deep else 3), serializers,
                   [(i, 5 if deep else 4) for i in range(4 + 3 + 6 + 4 if not deep else 5 + 4 + 10 + 4)]),
        core.Space('inheritance', 'all sequences of %d uses of 5 related types' % (4 if deep else 3), inheritance,
                   [(i, 4 if deep else 3) for i in range(20)]),
        core.Space('families', 'all interleavings of definition and use of every two generic types', families,
                   [p for p in itertools.combinations_with_replacement('VTRG', 2)] + [('T', 'V'), ('R', 'T'), ('G', 'R')]),
    ]
