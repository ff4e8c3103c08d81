"""Proof types of every shape, each with a reference model of its commitments and wire format.

A model (class M) is a plain description of a proof; `build()` makes the real one through the public
constructors, `hash()`, `wire(revealed)` say what it must commit to and serialize to when exactly the nodes in
`revealed` (a set of attribute paths, closed under prefixes) had their contents accessed.
"""
from mc import ref, btc
from bitcoin.core import COutPoint, CTxIn, CTxOut, CTransaction, CMutableOutPoint, CMutableTransaction
from bitcoin.core.script import CScript
from proofchains.core.bitcoin import (CTransactionSerializer, COutPointSerializer, TxProof, OutPointProof,
                                      TxInProof, TxOutProof)
from proofchains.core.uniquebits.singleuseseal import (FakeSingleUseSeal, FakeSealWitness, BitcoinSingleUseSeal,
                                                       BitcoinSealWitness)
from proofchains.core.uniquebits.gumap import GuMap, make_GuMap_subclass
from proofmarshal.bits import Bits, BitsSerializer
from proofmarshal.merbinnertree import MerbinnerTree, make_MerbinnerTree_subclass
from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
from proofmarshal.proof import Proof, VarProof, ProofUnion
from proofmarshal.serialize import (SerBool, FixedBytes, VarBytes, Digest, UInt8, UInt16, UInt32, UInt64, HashTag)

# -- codecs: how a field's model value is represented ------------------------------------------------------------


class Uint:
    def __init__(self, ser, bits):
        self.ser, self.max = ser, 2**bits - 1
        self.values = sorted({v for v in (0, 1, 127, 128, 129, 255, 256, 16383, 16384, 65535, 65536, 2**21 - 1, 2**21,
                                          2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1) if v <= self.max} | {self.max})
        self.bad_type = [True, 1.0, '1', b'\1', None]
        self.bad_value = [-1, self.max + 1, 2**80]

    def real(self, v):
        return v

    def wire(self, v):
        return ref.leb(v)


class Bool:
    ser, values, bad_type, bad_value = SerBool, [False, True], [0, 1, 'True', None, b'\xff'], []

    def real(self, v):
        return v

    def wire(self, v):
        return b'\xff' if v else b'\0'


class Fixed:
    def __init__(self, ser, n):
        self.ser = ser
        self.values = [b'\0' * n, b'\xff' * n, bytes(i % 256 for i in range(n))]
        self.bad_type = [bytearray(n), 'x' * n, None, n]
        self.bad_value = [b'\0' * (n + 1)] + ([b'\0' * (n - 1), b''] if n else [])

    def real(self, v):
        return v

    def wire(self, v):
        return v


class Var:
    def __init__(self, lo, hi):
        self.ser, self.lo, self.hi = VarBytes(lo, hi), lo, hi
        self.values = [bytes(i % 251 for i in range(n)) for n in sorted({0, 1, 2, 126, 127, 128, 129, 255, 256, lo, lo + 1, hi - 1, hi})
                       if lo <= n <= hi] + [b'\0' * lo]
        self.bad_type = [bytearray(lo), 'x' * lo, None, [0] * lo]
        self.bad_value = [b'x' * (hi + 1)] + ([b'x' * (lo - 1)] if lo else [])

    def real(self, v):
        return v

    def wire(self, v):
        return ref.leb(len(v)) + v


class BitArr:
    ser = BitsSerializer
    values = [(), (0,), (1,), (1, 0, 1, 1, 0, 0, 1), (0,) * 8, (1,) * 8, (1,) * 9, (0, 1) * 8, (1, 0, 0) * 45]
    bad_type, bad_value = [b'', (), [0, 1], None, '01'], []

    def real(self, v):
        return Bits(v)

    def wire(self, v):
        return ref.ser_bits(v)


def real_outpoint(v):
    return COutPoint(v[0], v[1])


def real_tx(v):
    return CTransaction([CTxIn(COutPoint(*o), CScript(s), q) for o, s, q in v[1]],
                        [CTxOut(val, CScript(s)) for val, s in v[2]], v[3], v[0])


OUTPOINTS = [(b'\0' * 32, 0), (b'\x11' * 32, 1), (bytes(range(32)), 2**32 - 1)]
TXS = [(1, ((OUTPOINTS[1], b'', 2**32 - 1),), ((0, b'\x6a'),), 0),
       (1, (), (), 0),
       (-1, ((OUTPOINTS[2], b'\x51' * 253, 0), (OUTPOINTS[1], b'\x00', 7)), ((5, b''), (21 * 10**14, b'\x76')), 99)]


class OutPt:
    ser, values = COutPointSerializer, OUTPOINTS
    bad_type, bad_value = [b'\0' * 36, None, (b'\0' * 32, 0), CMutableOutPoint(b'\7' * 32, 1)], []

    def real(self, v):
        return real_outpoint(v)

    def wire(self, v):
        return ref.leb(36) + btc.outpoint(v)


class Tx:
    ser, values = CTransactionSerializer, TXS
    bad_type, bad_value = [b'', None, 1, CMutableTransaction(), CMutableTransaction.from_tx(real_tx(TXS[0]))], []

    def real(self, v):
        return real_tx(v)

    def wire(self, v):
        b = btc.tx(v)
        return ref.leb(len(b)) + b


class Sub:
    """A proof of one of the kinds; prefix: what precedes it on the wire"""
    def __init__(self, ser, union=None):
        self.ser, self.union = ser, union       # union: list of lists of kinds
        self.bad_type, self.bad_value = [], []

    def prefix(self, m):
        if self.union is None:
            return b''
        for i, kinds in enumerate(self.union):
            if m.kind.name in kinds:
                return ref.leb(i)
        raise ValueError(m.kind.name)


class Kind:
    def __init__(self, name, cls, root, hashtag, variant, fields):
        self.name, self.cls, self.root = name, cls, root      # root: class to deserialize with
        self.tag, self.variant, self.fields = hashtag, variant, fields


KINDS = {}


def kind(name, cls, hashtag, fields, root=None, variant=None):
    KINDS[name] = k = Kind(name, cls, root or cls, hashtag, variant, fields)
    return k


PAD = bytes.fromhex('4cf810b73dc605fbe6c2156a7041e370f4750e39d2d1573199c772c7324bd054')


class M:
    def __init__(self, k, builder=None, **vals):
        self.kind = KINDS[k]
        self.vals, self.builder = vals, builder
        assert set(vals) == {n for n, _ in self.kind.fields}, (k, vals)

    def build(self):
        """The real proof; a model used twice inside another gives one shared instance"""
        return self._build({})

    def _build(self, memo):
        if id(self) not in memo:
            if self.builder is not None:
                memo[id(self)] = self.builder()
            else:
                memo[id(self)] = self.kind.cls(**{n: v._build(memo) if isinstance(v, M) else c.real(v)
                                                  for (n, c), v in ((f, self.vals[f[0]]) for f in self.kind.fields)})
        return memo[id(self)]

    def data_hash(self):
        if not hasattr(self, '_dh'):
            if self.kind.name == 'TxProof':
                self._dh = btc.txid(self.vals['tx'])
            else:
                self._dh = ref.sha256(b''.join(v.hash() if isinstance(v, M) else c.wire(v) for c, v in self.items()))
        return self._dh

    def hash(self):
        if self.kind.name == 'TxProof':
            return bytes(a ^ b for a, b in zip(self.data_hash(), PAD))
        return ref.sha256(self.kind.tag + self.data_hash())

    def items(self):
        return [(c, self.vals[n]) for n, c in self.kind.fields]

    def wire(self, revealed=None, path=()):
        """Serialization with exactly the given nodes revealed (None: all)"""
        var = b'' if self.kind.variant is None else ref.leb(self.kind.variant)
        if revealed is not None and path not in revealed:
            return b'\xff' + var + self.data_hash()
        out = b'\0' + var
        for n, c in self.kind.fields:
            v = self.vals[n]
            out += c.prefix(v) + v.wire(revealed, path + (n,)) if isinstance(v, M) else c.wire(v)
        return out

    def nodes(self, path=()):
        """All (path, model) of proofs"""
        yield path, self
        for n, _ in self.kind.fields:
            if isinstance(self.vals[n], M):
                yield from self.vals[n].nodes(path + (n,))

    def at(self, path):
        m = self
        for n in path:
            m = m.vals[n]
        return m

    def attrs(self):
        """All (node path, attribute name, codec)"""
        for path, m in self.nodes():
            for n, c in m.kind.fields:
                yield path, n, c

    def __repr__(self):
        return '%s(%s)' % (self.kind.name, ', '.join('%s=%r' % i for i in self.vals.items()))


def prefixes(path):
    return {path[:i] for i in range(len(path) + 1)}


# -- plain types ---------------------------------------------------------------------------------------------------

_n = [0]


def newtag():
    _n[0] += 1
    return '6b1d7a58-3c0e-4f7b-b1c2-0000000000%02x' % _n[0]


u8, u16, u32, u64 = Uint(UInt8, 8), Uint(UInt16, 16), Uint(UInt32, 32), Uint(UInt64, 64)


def simple(name, fields, base=Proof):
    t = newtag()
    cls = type(name, (base,), {'HASHTAG': HashTag(t), 'SERIALIZED_ATTRS': [(n, c.ser) for n, c in fields]})
    return kind(name, cls, ref.tag(t), fields).cls


def variant(base, basetag, base_idx, name, fields):
    t = newtag()
    cls = type(name, (base,), {'SUB_HASHTAG': HashTag(t), 'SERIALIZED_ATTRS': [(n, c.ser) for n, c in fields]})
    cls = base.declare_variant(cls)
    return kind(name, cls, ref.derive(ref.tag(t), ref.tag(basetag)), fields, base, base_idx).cls


Flat = simple('Flat', [('n', u8), ('b', Var(0, 200))])
Empty = simple('Empty', [])
Flags = simple('Flags', [('f', Fixed(FixedBytes(2), 2)), ('flag', Bool()), ('w', u64)])
Wide = simple('Wide', [('a', u16), ('b', u32), ('d', Fixed(Digest, 32)), ('v', Var(3, 130))])
Pair = simple('Pair', [('left', Sub(Flat)), ('right', Sub(Flat))])
Deep = simple('Deep', [('x', u16), ('inner', Sub(Pair)), ('one', Sub(Flat))])

VAR_TAG = newtag()


class Vary(VarProof):
    HASHTAG = HashTag(VAR_TAG)


variant(Vary, VAR_TAG, 0, 'VarA', [('x', u8)])
variant(Vary, VAR_TAG, 1, 'VarB', [('child', Sub(Flat)), ('y', Bool())])
variant(Vary, VAR_TAG, 2, 'VarC', [])
variant(Vary, VAR_TAG, 3, 'VarD', [('first', Sub(Vary)), ('second', Sub(Vary))])
VARS = ['VarA', 'VarB', 'VarC', 'VarD']
Holder = simple('Holder', [('v', Sub(Vary)), ('z', u8)])
Union = simple('Union', [('u', Sub(ProofUnion(Flat, Vary, Flags), [['Flat'], VARS, ['Flags']])), ('z', Bool())])
UnionPair = simple('UnionPair', [('a', Sub(ProofUnion(Flags, Flat), [['Flags'], ['Flat']])),
                                 ('b', Sub(ProofUnion(Flat, Flags), [['Flat'], ['Flags']]))])
BitBox = simple('BitBox', [('bits', BitArr()), ('d', Fixed(Digest, 32))])
ChainBox = simple('ChainBox', [('outpoint', OutPt()), ('tx', Tx()), ('n', u32)])

# -- domain types ----------------------------------------------------------------------------------------------------

kind('TxProof', TxProof, None, [('tx', Tx())])
kind('OutPointProof', OutPointProof, ref.tag('557eb533-63be-497d-b163-7d1875de9681'), [('txproof', Sub(TxProof)), ('n', u32)])
kind('TxInProof', TxInProof, ref.tag('65d34d83-3291-4813-9119-bd7e29b9dea3'), [('i', u32), ('txproof', Sub(TxProof))])
kind('TxOutProof', TxOutProof, ref.tag('ed624663-7a20-4dd6-8980-9870003dfbe7'), [('i', u32), ('txproof', Sub(TxProof))])
kind('FakeSeal', FakeSingleUseSeal, ref.tag('e5690d73-16e3-4f8f-bd4f-148c32d37baf'), [('committed_hash', Fixed(Digest, 32))])
kind('FakeWitness', FakeSealWitness, ref.tag('a5092f56-3a31-476a-ac81-1b00211140eb'), [('seal', Sub(FakeSingleUseSeal))])
kind('Seal', BitcoinSingleUseSeal, ref.tag('b59093bf-527f-4d2a-9a51-3c2e3d2f0c25'),
     [('outpoint', OutPt()), ('nonce', Fixed(FixedBytes(16), 16))])
kind('Witness', BitcoinSealWitness, ref.tag('2ca464a0-1b8c-4aa5-8e72-5d3aaa804cbd'),
     [('seal', Sub(BitcoinSingleUseSeal)), ('txinproof', Sub(TxInProof)), ('txoutproof', Sub(TxOutProof))])

GU_TAG = newtag()


@make_GuMap_subclass
class IntMap(GuMap):
    __slots__ = []
    HASHTAG = HashTag(GU_TAG)
    KEY_SERIALIZER = UInt64
    VALUE_SERIALIZER = UInt64
    SEAL_CLASS = BitcoinSingleUseSeal
    WITNESS_CLASS = BitcoinSealWitness

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key.to_bytes(2, 'big'))


_seals = Sub(None, [['FakeSeal'], ['Seal']])
_wits = Sub(None, [['FakeWitness'], ['Witness']])


def gu(name, cls, sub, idx, fields):
    kind(name, cls, ref.derive(ref.tag(sub), ref.tag(GU_TAG)), fields, IntMap, idx)


gu('Unused', IntMap.UnusedPrefix, 'dae47bef-d9a3-4971-a6a4-1c67c5f02c11', 0, [('prefix', BitArr()), ('seal', _seals)])
gu('GuLeaf', IntMap.LeafPrefix, '0c60f344-9109-4930-aec1-432c5750fcba', 1, [('witness', _wits), ('key', u64), ('value', u64)])
gu('GuInner', IntMap.InnerPrefix, '6893cac7-e834-49cd-8e95-77707b0499b5', 2,
   [('prefix', BitArr()), ('witness', _wits), ('left', Sub(IntMap)), ('right', Sub(IntMap))])
GU_LEAF_TAG = ref.derive(ref.tag('59c17f37-7e26-4aea-8a5b-7c0db66af35b'), KINDS['GuLeaf'].tag)
GU_INNER_TAG = ref.derive(ref.tag('b925044d-320e-4c1f-9ef8-20614d260676'), KINDS['GuInner'].tag)


def leaf_digest(key, value):
    """What the seal of a leaf is closed over"""
    return ref.sha256(GU_LEAF_TAG + ref.leb(key) + ref.leb(value))


def inner_digest(lseal, rseal):
    return ref.sha256(GU_INNER_TAG + lseal.hash() + rseal.hash())


def m_seal(i=0, nonce=0):
    return M('Seal', outpoint=(bytes([i + 1]) * 32, i), nonce=bytes([nonce]) * 16)


def m_witness(seal, digest, form='op_return', shared=True, before=0):
    """A genuine witness: the transaction spends the seal's outpoint, its output 0 commits to the digest"""
    vin = tuple(((b'\xee' * 32, k), b'', 0) for k in range(before)) + ((seal.vals['outpoint'], b'', 2**32 - 1),)
    t = (1, vin, ((0, btc.commit_script(digest, form)),), 0)
    tp = M('TxProof', tx=t)
    return M('Witness', seal=seal, txinproof=M('TxInProof', i=before, txproof=tp),
             txoutproof=M('TxOutProof', i=0, txproof=tp if shared else M('TxProof', tx=t)))


def m_fake(digest):
    return M('FakeWitness', seal=M('FakeSeal', committed_hash=digest))


def m_unused(prefix, seal):
    return M('Unused', prefix=prefix, seal=seal)


def m_leaf(key, value, seal=None, form='op_return'):
    d = leaf_digest(key, value)
    return M('GuLeaf', witness=m_fake(d) if seal is None else m_witness(seal, d, form), key=key, value=value)


def seal_of(m):
    return m.vals['seal'] if m.kind.name == 'Unused' else m.vals['witness'].vals['seal']


def m_inner(prefix, left, right, seal=None):
    d = inner_digest(seal_of(left), seal_of(right))
    return M('GuInner', prefix=prefix, witness=m_fake(d) if seal is None else m_witness(seal, d), left=left, right=right)


# -- trees and ranges ------------------------------------------------------------------------------------------------

MB_TAG, MR_TAG, KT_TAG = newtag(), newtag(), newtag()
NBITS = 5


@make_MerbinnerTree_subclass
class Tree(MerbinnerTree):
    __slots__ = []
    HASHTAG = HashTag(MB_TAG)
    KEY_SERIALIZER = FixedBytes(1)
    VALUE_SERIALIZER = Flat

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key, NBITS)


@make_MerbinnerTree_subclass
class KTree(MerbinnerTree):
    """Proofs as keys, with the prefix they have by default"""
    __slots__ = []
    HASHTAG = HashTag(KT_TAG)
    KEY_SERIALIZER = Flat
    VALUE_SERIALIZER = Flat


@make_mmr_subclass
class Range(MerkleMountainRange):
    __slots__ = []
    HASHTAG = HashTag(MR_TAG)
    VALUE_SERIALIZER = Flat


kind('TreeEmpty', None, ref.derive(ref.MB_EMPTY, ref.tag(MB_TAG)), [], Tree, 0)
kind('TreeLeaf', None, ref.derive(ref.MB_LEAF, ref.tag(MB_TAG)), [('key', Fixed(FixedBytes(1), 1)), ('value', Sub(Flat))], Tree, 1)
kind('TreeInner', None, ref.derive(ref.MB_INNER, ref.tag(MB_TAG)),
     [('prefix', BitArr()), ('left', Sub(Tree)), ('right', Sub(Tree))], Tree, 2)
kind('KTreeEmpty', None, ref.derive(ref.MB_EMPTY, ref.tag(KT_TAG)), [], KTree, 0)
kind('KTreeLeaf', None, ref.derive(ref.MB_LEAF, ref.tag(KT_TAG)), [('key', Sub(Flat)), ('value', Sub(Flat))], KTree, 1)
kind('KTreeInner', None, ref.derive(ref.MB_INNER, ref.tag(KT_TAG)),
     [('prefix', BitArr()), ('left', Sub(KTree)), ('right', Sub(KTree))], KTree, 2)
kind('RangeEmpty', None, ref.derive(ref.MMR_EMPTY, ref.tag(MR_TAG)), [], Range, 0)
kind('RangeLeaf', None, ref.derive(ref.MMR_LEAF, ref.tag(MR_TAG)), [('value', Sub(Flat))], Range, 1)
kind('RangeInner', None, ref.derive(ref.MMR_INNER, ref.tag(MR_TAG)),
     [('left', Sub(Range)), ('right', Sub(Range)), ('length', u64)], Range, 2)


def m_flat(n=1, b=b''):
    return M('Flat', n=n, b=b)


def m_tree(items):
    """items: dict of 1-byte keys to Flat models"""
    def rec(ks):
        if not ks:
            return M('TreeEmpty')
        if len(ks) == 1:
            return M('TreeLeaf', key=ks[0], value=items[ks[0]])
        p = ref.lcp([ref.bits_of(k, NBITS) for k in ks])
        return M('TreeInner', prefix=p, left=rec([k for k in ks if not ref.bits_of(k)[len(p)]]),
                 right=rec([k for k in ks if ref.bits_of(k)[len(p)]]))
    m = rec(sorted(items))
    m.builder = lambda: Tree({k: v.build() for k, v in items.items()})
    return m


def m_ktree(pairs):
    """pairs: (key model, value model); keys with different hashes"""
    def rec(ps):
        if not ps:
            return M('KTreeEmpty')
        if len(ps) == 1:
            return M('KTreeLeaf', key=ps[0][0], value=ps[0][1])
        p = ref.lcp([ref.bits_of(k.hash()) for k, _ in ps])
        return M('KTreeInner', prefix=p, left=rec([x for x in ps if not ref.bits_of(x[0].hash())[len(p)]]),
                 right=rec([x for x in ps if ref.bits_of(x[0].hash())[len(p)]]))
    m = rec(list(pairs))
    m.builder = lambda: KTree([(k.build(), v.build()) for k, v in pairs])
    return m


def m_range(vals):
    def rec(vs):
        n = len(vs)
        if n == 0:
            return M('RangeEmpty')
        if n == 1:
            return M('RangeLeaf', value=vs[0])
        k = ref.mmr_split(n)
        return M('RangeInner', left=rec(vs[:n - k]), right=rec(vs[n - k:]), length=n)
    m = rec(list(vals))
    m.builder = lambda: Range([v.build() for v in vals])
    return m


def shapes():
    """Models of all shapes, smallest first: name -> model"""
    f1, f2 = m_flat(1, b'x'), m_flat(200, b'')
    flags = M('Flags', f=b'ab', flag=True, w=2**40)
    pair = M('Pair', left=f1, right=f2)
    s = {
        'flat': m_flat(7, b'abc'), 'empty': M('Empty'), 'flags': flags,
        'wide': M('Wide', a=300, b=70000, d=b'\x07' * 32, v=b'123'),
        'pair': pair, 'pair-same': M('Pair', left=f1, right=f1),
        'deep': M('Deep', x=5, inner=pair, one=m_flat(3)),
        'varA': M('VarA', x=3), 'varB': M('VarB', child=f1, y=False), 'varC': M('VarC'),
        'varD': M('VarD', first=M('VarB', child=f2, y=True), second=M('VarC')),
        'varDD': M('VarD', first=M('VarA', x=1), second=M('VarD', first=M('VarA', x=2), second=M('VarB', child=f1, y=True))),
        'holder': M('Holder', v=M('VarB', child=f1, y=True), z=4),
        'union-flat': M('Union', u=f1, z=True), 'union-flags': M('Union', u=flags, z=False),
        'union-var': M('Union', u=M('VarB', child=f2, y=False), z=False),
        'union-pair': M('UnionPair', a=flags, b=flags), 'union-pair2': M('UnionPair', a=f1, b=f1),
        'bitbox': M('BitBox', bits=(1, 0, 1), d=b'\x05' * 32),
        'chainbox': M('ChainBox', outpoint=OUTPOINTS[1], tx=TXS[2], n=3),
        'txproof': M('TxProof', tx=TXS[2]),
        'outpointproof': M('OutPointProof', txproof=M('TxProof', tx=TXS[0]), n=0),
        'txinproof': M('TxInProof', i=1, txproof=M('TxProof', tx=TXS[2])),
        'txoutproof': M('TxOutProof', i=0, txproof=M('TxProof', tx=TXS[2])),
        'fakeseal': M('FakeSeal', committed_hash=b'\x03' * 32), 'fakewitness': m_fake(b'\x03' * 32),
        'seal': m_seal(1, 9), 'witness': m_witness(m_seal(1, 9), b'\x04' * 32),
        'witness-apart': m_witness(m_seal(2), b'\x04' * 32, 'p2sh', False, 1),
        'unused': m_unused((0, 1), m_seal(1)), 'unused-fake': m_unused((), M('FakeSeal', committed_hash=b'\x03' * 32)),
        'guleaf': m_leaf(5, 300, m_seal(3)), 'guleaf-fake': m_leaf(5, 300),
        'guinner-fake': m_inner((0,), m_unused((0, 0), m_seal(1)), m_unused((0, 1), m_seal(2))),
        'guinner': m_inner((), m_leaf(1, 2, m_seal(4)), m_unused((1,), m_seal(2)), m_seal(5)),
        'tree0': m_tree({}), 'tree1': m_tree({b'\x08': f1}), 'tree2': m_tree({b'\x08': f1, b'\x18': f2}),
        'tree3': m_tree({b'\x08': f1, b'\x18': f2, b'\xf8': f1}),
        'ktree1': m_ktree([(f1, f2)]), 'ktree2': m_ktree([(f1, f2), (f2, f2)]),
        'ktree3': m_ktree([(f2, f2), (f1, f2), (m_flat(3), f1)]),
        'range0': m_range([]), 'range1': m_range([f1]), 'range2': m_range([f1, f2]), 'range3': m_range([f1, f2, f1]),
    }
    return s
