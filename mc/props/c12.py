"""C12: every interleaving, up to a number of preemptions, of threads sharing the same objects"""
import importlib.machinery, itertools, sys

from mc import sched
sched.install()

from mc import core, ref, btc, ec, pm
from mc.pm import M
from mc.props import c11
import bitcoin.core
from bitcoin.core import CBlock, CMutableTransaction, CTransaction, CTxIn, CTxOut, COutPoint, CheckBlock, CheckTransaction, ValidationError
from bitcoin.core.script import CScript, FindAndDelete, RawSignatureHash, SignatureHash
from bitcoin.core.scripteval import EvalScript, SCRIPT_VERIFY_P2SH, VerifyScript, VerifySignature
from proofmarshal.bits import Bits
from proofmarshal.merbinnertree import MerbinnerTree
from proofmarshal.mmr import MerkleMountainRange
from proofmarshal.proof import Proof, PrunedError

LEVEL = 'model_checking'
ASSUMPTIONS = ['threads are switched between lines (or bytecodes, where said) of the repository\'s Python code, as the interpreter '
               'itself does; calls into C are atomic', 'threads block on threading.Lock and RLock only']


def norm(v):
    if isinstance(v, Proof):
        return ['proof', v.hash]
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if hasattr(v, 'GetHash'):
        return [type(v).__name__, v.serialize()]
    if isinstance(v, Bits):
        return list(v)
    return v


def attempt(fn, env):
    try:
        return ['ok', norm(fn(env))]
    except (PrunedError, KeyError, IndexError, AssertionError, TypeError, ValueError, ValidationError) as e:
        return ['raised', type(e).__name__]


class Scenario:
    """setup() makes the shared objects; programs: for each thread a list of uses; finish observes the objects"""
    def __init__(self, setup, programs, finish):
        self.setup, self.programs, self.finish = setup, programs, finish


def wire(*names):
    def f(env):
        return [env[n].serialize() for n in names] + [env[n].hash for n in names]
    return f


def chain(*names):
    """A use of nested attributes of the shared object p"""
    def f(env):
        v = env['p']
        for n in names:
            v = getattr(v, n)
        return v
    f.__name__ = '.'.join(names)
    return f


def on(name, fn):
    return lambda env: fn(env[name])


SH = pm.shapes()


def pruned(shape):
    return lambda: {'p': SH[shape].build().prune()}


def whole(shape):
    return lambda: {'p': SH[shape].build()}


def twice(shape):
    def f():
        a = SH[shape].build()
        p = a.prune()
        return {'a': a, 'p': p, 'q': p.prune()}
    return f


def received(shape, revealed):
    return lambda: {'p': SH[shape].kind.root.deserialize(SH[shape].wire(frozenset(revealed)))}


K1, K2, K3 = b'\x08', b'\x18', b'\xf8'


def get(k):
    return lambda env: env['p'][k]


def nkeys(env):
    return list(env['p'].keys())


def values_of(env):
    return [v.n for v in env['p'].values()]


def all_attrs(m):
    """Reads every attribute"""
    def f(env):
        out = []
        for path, n, c in m.attrs():
            v = env['p']
            for a in path + (n,):
                v = getattr(v, a)
            out.append(v.hash if isinstance(v, Proof) else norm(v))
        return out
    return f


def blocks():
    txs = [pm.real_tx(t) for t in (pm.TXS[0], pm.TXS[2], pm.TXS[0])]
    return {'p': CBlock(2, b'\1' * 32, b'\2' * 32, 3, 4, 5, txs), 't': txs[1]}


def fresh_hierarchy():
    rel = c11.Rel()
    return {'rel': rel}


def use_type(k):
    def f(env):
        p = env['rel'].make(k)
        rel = env['rel']
        return [p.hash == rel.hash(k), p.serialize() == rel.wire(k)]
    return f


def fresh_family(name):
    def f():
        class C:
            """Checks of the family's own model"""
            def __init__(self):
                self.bad = []

            def eq(self, a, b, key, **kw):
                if a != b:
                    self.bad.append(key)

            def raises(self, exc, fn, key, **kw):
                try:
                    fn()
                    self.bad.append(key)
                except exc:
                    pass
        c = C()
        fam = c11.FAMS[name](0)
        return {'uses': fam.uses(c), 'c': c}
    return f


def use_family(i):
    def f(env):
        env['uses'][i]()
        return list(env['c'].bad)
    return f


def leaf_first(env):
    g, v = env['fam'].G, env['fam'].val
    return g.LeafPrefix.from_unused_prefix(env['u'], 3, v, lambda s, h: env['fam'].fake(h)).seal.committed_hash


def inner_first(env):
    g = env['fam'].G
    return [g.InnerPrefix.from_children(env['l'], env['r']).seal.committed_hash,
            g.InnerPrefix.from_unused_prefix(env['u'], env['l'], env['r'], lambda s, h: env['fam'].fake(h)).seal.committed_hash]


def fresh_map():
    """A map class nothing was made of yet"""
    fam = c11.FamG(0)
    u = {k: fam.G.UnusedPrefix(prefix=Bits(b), seal=c11.sus.FakeSingleUseSeal(committed_hash=k.encode() * 32))
         for k, b in (('u', ()), ('l', (0,)), ('r', (1,)))}
    return dict(u, fam=fam)


def map_values(env):
    """What the two kinds of prefix of that class have to be sealed over"""
    fam = env['fam']
    leaf = ref.sha256(ref.derive(ref.tag('59c17f37-7e26-4aea-8a5b-7c0db66af35b'), fam.leaf_tag) + b'\3' + fam.val_wire)
    inner = ref.sha256(ref.derive(ref.tag('b925044d-320e-4c1f-9ef8-20614d260676'), fam.inner_tag) + env['l'].seal.hash + env['r'].seal.hash)
    return [leaf_first(env) == leaf, inner_first(env) == [inner, inner]]


def against(fn, want):
    """The use, and whether it gave what was wanted: the class is another one each time"""
    def f(env):
        fam = env['fam']
        leaf = ref.sha256(ref.derive(ref.tag('59c17f37-7e26-4aea-8a5b-7c0db66af35b'), fam.leaf_tag) + b'\3' + fam.val_wire)
        inner = ref.sha256(ref.derive(ref.tag('b925044d-320e-4c1f-9ef8-20614d260676'), fam.inner_tag) + env['l'].seal.hash + env['r'].seal.hash)
        return fn(env) == (leaf if want == 'leaf' else [inner, inner])
    return f


OURS = ('proofmarshal', 'proofchains')


_code = {}
_get_code = importlib.machinery.SourceFileLoader.get_code


def get_code(loader, name):
    if name not in _code:
        _code[name] = _get_code(loader, name)
    return _code[name]


class Fresh:
    """The modules as if just imported: nothing any of them keeps has been made yet"""
    def __enter__(self):
        importlib.machinery.SourceFileLoader.get_code = get_code
        self.saved = {n: m for n, m in sys.modules.items() if n.split('.')[0] in OURS}
        for n in self.saved:
            del sys.modules[n]

    def __exit__(self, *exc):
        importlib.machinery.SourceFileLoader.get_code = _get_code
        for n in [n for n in sys.modules if n.split('.')[0] in OURS]:
            del sys.modules[n]
        sys.modules.update(self.saved)


def fresh_modules():
    with Fresh():
        import proofmarshal.bits, proofmarshal.merbinnertree, proofmarshal.mmr, proofmarshal.proof, proofmarshal.serialize
        import proofchains.core.uniquebits.gumap, proofchains.core.uniquebits.singleuseseal
        b, t, r, p, s = (sys.modules['proofmarshal.' + n] for n in ('bits', 'merbinnertree', 'mmr', 'proof', 'serialize'))

        class Flat(p.Proof):
            HASHTAG = s.HashTag('7ac0ba3c-6d0a-4e63-9f27-000000000001')
            SERIALIZED_ATTRS = [('n', s.UInt8), ('bits', b.BitsSerializer)]

        class Tree(t.MerbinnerTree):
            HASHTAG = s.HashTag('7ac0ba3c-6d0a-4e63-9f27-000000000002')
            KEY_SERIALIZER = s.FixedBytes(1)
            VALUE_SERIALIZER = s.UInt8

            @staticmethod
            def key2prefix(key):
                return b.Bits.from_bytes(key)

        class Range(r.MerkleMountainRange):
            HASHTAG = s.HashTag('7ac0ba3c-6d0a-4e63-9f27-000000000003')
            VALUE_SERIALIZER = s.UInt8
        return {'bits': b, 'tree': t.make_MerbinnerTree_subclass(Tree), 'range': r.make_mmr_subclass(Range), 'flat': Flat, 's': s,
                'Base': Tree, 'p': p, 'sus': sys.modules['proofchains.core.uniquebits.singleuseseal']}


def fresh_bits():
    """That module alone: the others make bit arrays when imported"""
    with Fresh():
        import proofmarshal.bits
        return {'bits': sys.modules['proofmarshal.bits']}


def first_bits(env):
    b = env['bits'].Bits()
    return [len(b), list(b), b == env['bits'].Bits(()), len(env['bits'].Bits([1, 0])[:0])]


def first_tree(env):
    t = env['tree']()
    return [len(t), list(t), t.hash, t.serialize(), len(t.prefix)]


def first_tree_of(n):
    def f(env):
        t = env['tree']([(bytes([k]), k) for k in n])
        return [len(t), sorted(t.items()), t.hash]
    return f


def first_range(env):
    r = env['range']()
    return [len(r), list(r), r.hash, r.serialize()]


def first_range_of(n):
    def f(env):
        r = env['range'](n)
        return [len(r), list(r), r.hash]
    return f


def first_proof(env):
    p = env['flat'](n=3, bits=env['bits'].Bits())
    return [p.hash, p.n, p.serialize(), env['flat'].deserialize(p.serialize()) == p]


def first_pruned(env):
    q = env['flat'].deserialize(b'\xff' + b'h' * 32)
    return [q.hash, q.serialize()]


def first_tag(env):
    t = env['s'].HashTag('7ac0ba3c-6d0a-4e63-9f27-000000000004')
    return [t.derive(b'x' * 16), t(b'y').digest()]


def first_fake(env):
    return env['sus'].FakeSealWitness.from_hash(b'x' * 32).serialize()


def verify(env):
    env['p'].verify()


def verify_hash(env):
    env['p'].verify_hash(b'\x04' * 32)


SECRETS = [b'\1' * 32, b'\2' * 32, b'\3' * 32]
KEYS = [ec.encode(ec.public(k)) for k in SECRETS]


def _spend():
    """A transaction p spending two outputs of the transaction q, one by a single signature, one by two of three"""
    single = btc.push(KEYS[0]) + b'\xac'
    multi = b'\x52' + b''.join(btc.push(k) for k in KEYS) + b'\x53\xae'
    hashed = b'\x76\xa9' + btc.push(btc.hash160(KEYS[1])) + b'\x88\xac'
    redeem = btc.push(KEYS[2]) + b'\xac'
    p2sh = b'\xa9' + btc.push(btc.hash160(redeem)) + b'\x87'
    scripts = [single, multi, hashed, p2sh]
    q = CTransaction([CTxIn(COutPoint(b'\7' * 32, 1))], [CTxOut(10 + i, CScript(s)) for i, s in enumerate(scripts)])

    def tx(sigs):
        return CTransaction([CTxIn(COutPoint(q.GetHash(), i), CScript(s), 5 + i) for i, s in enumerate(sigs)],
                            [CTxOut(3, CScript(b'\x51')), CTxOut(4, CScript(b'\x52\x53')), CTxOut(5, CScript(b'')), CTxOut(6, CScript(b'\x54'))], 9)
    bare = tx([b''] * 4)

    def sig(k, script, i, how):
        return btc.push(ec.der(*ec.sign(SECRETS[k], SignatureHash(CScript(script), bare, i, how))) + bytes([how]))
    p = tx([sig(0, single, 0, 1), b'\0' + sig(0, multi, 1, 2) + sig(2, multi, 1, 0x81), sig(1, hashed, 2, 3) + btc.push(KEYS[1]), sig(2, redeem, 3, 0x83) + btc.push(redeem)])
    return p.serialize(), q.serialize()


SPEND = []


def spend():
    if not SPEND:
        SPEND.append(_spend())
    p, q = (CTransaction.deserialize(b) for b in SPEND[0])
    return {'p': p, 'q': q}


def good_block():
    coinbase = CTransaction([CTxIn(COutPoint(b'\0' * 32, 0xffffffff), CScript(b'\x51\x51'))], [CTxOut(1, CScript(b'\xac'))])
    txs = [coinbase, spend()['q']]
    return {'p': CBlock(2, b'\1' * 32, ref.sha256(ref.sha256(b''.join(t.GetHash() for t in txs))), 3, 4, 5, txs)}


def sighash(i, how, code=b'\x51\xac'):
    return on('p', lambda p: RawSignatureHash(CScript(code), p, i, how))


def verified(i, wrong=None):
    """Whether the input i is verified by what is in it, or in another input"""
    def f(env):
        VerifyScript(env['p'].vin[i if wrong is None else wrong].scriptSig, env['q'].vout[i].scriptPubKey, env['p'], i, (SCRIPT_VERIFY_P2SH,))
        return True
    return f


def spent(i):
    def f(env):
        VerifySignature(env['q'], env['p'], i)
        return True
    return f


def evaluated(code, *stack):
    def f(env):
        s = list(stack)
        EvalScript(s, CScript(code), env['p'], 0)
        return s
    return f


SC = {}


def sc(name, setup, programs, finish=wire('p')):
    SC[name] = Scenario(setup, programs, finish)


h, d = chain('hash'), chain('data_hash')
sc('hash-flat', whole('flat'), [[h], [h]])
sc('hash-deep', whole('deep'), [[h, chain('inner', 'hash')], [chain('inner', 'right', 'hash'), h]])
sc('hash-serialize', whole('deep'), [[h], [on('p', lambda p: p.serialize())]])
sc('pruned-pair', pruned('pair'), [[chain('left', 'n')], [chain('right', 'b')]])
sc('pruned-pair-same', pruned('pair'), [[chain('left', 'n'), chain('left', 'b')], [chain('left', 'b'), chain('right', 'n')]])
sc('pruned-deep', pruned('deep'), [[chain('inner', 'left', 'n')], [chain('inner', 'right', 'n')]])
sc('pruned-deep-hash', pruned('deep'), [[chain('inner', 'left', 'n'), h], [chain('one', 'hash'), chain('inner', 'hash'), chain('x')]])
sc('pruned-deep-equal', pruned('deep'), [[on('p', lambda p: p.inner.left == p.one), chain('inner', 'left', 'n')], [chain('inner', 'right', 'b'), h]])
sc('pruned-three', pruned('deep'), [[chain('inner', 'left', 'n')], [chain('inner', 'right', 'n')], [chain('one', 'n')]])
sc('pruned-missing', pruned('pair'), [[on('p', lambda p: getattr(p, 'nothing', 5)), chain('left', 'n')], [chain('left', 'b')]])
sc('chained', twice('deep'), [[on('q', lambda q: q.inner.left.n)], [on('p', lambda p: p.inner.right.n)]], wire('a', 'p', 'q'))
sc('prune-whole', whole('deep'), [[on('p', lambda p: p.prune().inner.left.n)], [on('p', lambda p: p.prune().serialize()), h]])
sc('received', received('deep', [(), ('inner',)]), [[chain('inner', 'left', 'n'), h], [chain('inner', 'hash'), chain('one', 'n'), h]])
sc('union', pruned('union-var'), [[chain('u', 'child', 'n')], [chain('u', 'y'), chain('u', 'child', 'b')]])
sc('variants', pruned('varDD'), [[chain('second', 'first', 'x')], [chain('second', 'second', 'child', 'n')]])
sc('tree-get', pruned('tree3'), [[get(K1)], [get(K3)]])
sc('tree-get-near', pruned('tree3'), [[get(K1), on('p', lambda p: p[K1].n)], [on('p', lambda p: p[K2].n)]])
sc('tree-iterate', pruned('tree3'), [[values_of], [on('p', lambda p: p[K2].b)]])
sc('tree-missing', pruned('tree3'), [[get(b'\x80')], [get(K1)]])
sc('tree-len', pruned('tree3'), [[on('p', len)], [on('p', lambda p: p[K3].n)]])
sc('tree-put', whole('tree2'), [[on('p', lambda p: p.put(K3, pm.m_flat(9).build()))], [on('p', lambda p: p.remove(K1)), h]])
sc('tree-put-pruned', pruned('tree3'), [[on('p', lambda p: p.put(b'\x80', pm.m_flat(9).build()))], [on('p', lambda p: p[K1].n)]])
sc('tree-subset', lambda: {'p': SH['tree2'].build().prune(), 'q': SH['tree3'].build()},
   [[lambda e: e['p'].issubset(e['q'])], [on('p', lambda p: p[K2].n)]], wire('p', 'q'))
sc('tree-deserialized', lambda: {'p': pm.Tree.deserialize(SH['tree3'].wire())}, [[h, get(K1)], [on('p', lambda p: p.left.hash), h]])
sc('range-get', pruned('range3'), [[get(0)], [get(2)]])
sc('range-get-near', pruned('range3'), [[on('p', lambda p: p[0].n)], [on('p', lambda p: p[1].b)]])
sc('range-len', pruned('range3'), [[on('p', len)], [on('p', lambda p: p[-1].n)]])
sc('range-iterate', pruned('range3'), [[lambda e: [v.n for v in e['p']]], [lambda e: [v.b for v in reversed(e['p'])]]])
both = lambda f: [[on('p', f)], [on('p', f)]]
sc('range-iterate-both', whole('range3'), both(lambda p: [v.n for v in p]))
sc('range-iterate-pruned', pruned('range3'), both(lambda p: [v.n for v in p]))
sc('range-reversed-both', whole('range3'), both(lambda p: [v.n for v in reversed(p)]))
sc('range-read-both', whole('range3'), [[on('p', lambda p: p[0].n), on('p', lambda p: p[2].n)], [on('p', lambda p: p[1].n), on('p', len)]])
sc('range-slice-both', whole('range3'), both(lambda p: [v.n for v in p[1:]]))
sc('tree-iterate-both', whole('tree3'), both(lambda p: [v.n for v in p.values()]))
sc('tree-items-both', whole('tree3'), [[on('p', lambda p: [k for k, v in p.items()])], [on('p', lambda p: list(p))]])
sc('tree-read-both', whole('tree3'), [[get(K1), get(K3)], [get(K2), on('p', len)]])
sc('tree-change-both', whole('tree3'), [[on('p', lambda p: p.remove(K1))], [on('p', lambda p: p.put(b'\x80', pm.m_flat(9).build()))]])
sc('range-append', whole('range3'), [[on('p', lambda p: p.append(pm.m_flat(4).build()))], [on('p', lambda p: p[1:]), h]])
sc('range-slice', pruned('range3'), [[on('p', lambda p: p[:2])], [on('p', lambda p: p[1].n)]])
sc('txproof', pruned('txinproof'), [[on('p', lambda p: p.txproof.txhash)], [on('p', lambda p: p.txin)]])
sc('txproof-whole', whole('txproof'), [[h, on('p', lambda p: p.txhash)], [on('p', lambda p: p.tx.GetHash()), h]])
sc('witness', pruned('witness'), [[verify], [verify_hash]])
sc('witness-parts', pruned('witness'), [[on('p', lambda p: p.seal.outpoint)], [on('p', lambda p: p.txinproof.txin), on('p', lambda p: p.seal.nonce)]])
sc('guleaf', pruned('guleaf'), [[verify], [chain('seal', 'outpoint')]])
sc('guleaf-fake', pruned('guleaf-fake'), [[verify], [verify, chain('prefix')]])
sc('guinner', pruned('guinner'), [[verify], [chain('left', 'key'), chain('right', 'seal', 'nonce')]])
sc('guinner-fake', pruned('guinner-fake'), [[verify], [chain('left', 'seal', 'nonce')]])
sc('transaction', lambda: {'p': pm.real_tx(pm.TXS[2])}, [[on('p', lambda p: p.GetHash()), on('p', hash)], [on('p', hash), on('p', lambda p: p.GetHash())]],
   lambda e: [e['p'].serialize(), e['p'].GetHash(), hash(e['p'])])
sc('transaction-parts', lambda: {'p': pm.real_tx(pm.TXS[2])},
   [[on('p', lambda p: [p.vin[0].GetHash(), hash(p.vout[1])])], [on('p', lambda p: [p.vin[0].prevout.GetHash(), p.GetHash(), p == p])]],
   lambda e: [e['p'].serialize(), e['p'].GetHash()])
sc('block', blocks, [[on('p', lambda p: p.GetHash()), on('p', lambda p: p.calc_merkle_root())],
                     [on('p', lambda p: p.get_header().GetHash()), on('p', lambda p: p.GetHash())]],
   lambda e: [e['p'].serialize(), e['p'].GetHash(), e['p'].vMerkleTree, hash(e['p'])])
sc('block-tx', blocks, [[on('p', lambda p: p.vtx[1].GetHash()), on('p', hash)], [on('t', lambda t: t.GetHash()), on('p', hash)]],
   lambda e: [e['p'].serialize(), e['p'].GetHash(), e['t'].GetHash()])
after = lambda e: [e['p'].serialize(), e['q'].serialize(), e['p'].GetHash(), e['q'].GetHash()]
for name, a, b in (('same', sighash(0, 1), sighash(0, 1)), ('inputs', sighash(0, 1), sighash(1, 1, b'\x52\xac')), ('none', sighash(0, 2), sighash(1, 1)), ('single', sighash(1, 3), sighash(2, 2)),
                   ('beyond', sighash(5, 3), sighash(0, 3)), ('anyone', sighash(0, 0x81), sighash(1, 0x83, b'\xab\x51')), ('anyone-none', sighash(3, 0x82), sighash(2, 1))):
    sc('sighash-' + name, spend, [[a], [b]], after)
sc('sighash-hash', spend, [[sighash(1, 2)], [on('p', lambda p: p.GetHash()), on('p', lambda p: p.serialize())]], after)
sc('sighash-copy', spend, [[sighash(0, 1)], [on('p', lambda p: CMutableTransaction.from_tx(p).serialize())]], after)
for name, a, b in (('single', verified(0), verified(2)), ('wrong', verified(0), verified(2, 0)), ('multi', verified(0), verified(1)), ('p2sh', verified(3), verified(0)),
                   ('outputs', spent(0), spent(2)), ('again', verified(0), verified(0, 2))):
    sc('verify-' + name, spend, [[a], [b]], after)
BRANCH, OTHER, ALT = b'\x51\x63\x53\x67\x54\x68', b'\x00\x63\x51\x68', b'\x51\x6b\x52\x6c'
sc('eval-branches', spend, [[evaluated(BRANCH)], [evaluated(OTHER)]], after)
sc('eval-altstack', spend, [[evaluated(ALT)], [evaluated(b'\x53\x6b\x6c\x6c')]], after)
sc('eval-numbers', spend, [[evaluated(b'\x93', b'\5', b'\6')], [evaluated(b'\xa5', b'\1', b'\0', b'\2')]], after)
sc('eval-hashes', spend, [[evaluated(b'\xa9', b'a')], [evaluated(b'\xa6', b'b')]], after)
sc('eval-limits', spend, [[evaluated(b'\x61' * 3)], [evaluated(b'\x6a')]], after)
sc('script', spend, [[on('q', lambda q: [list(q.vout[1].scriptPubKey), q.vout[1].scriptPubKey.GetSigOpCount(True)])],
                     [on('q', lambda q: [FindAndDelete(q.vout[1].scriptPubKey, CScript(b'\x53')), repr(q.vout[1].scriptPubKey)])]], after)
sc('check', spend, [[on('p', lambda p: CheckTransaction(p))], [on('q', lambda q: CheckTransaction(q)), on('p', lambda p: p.is_coinbase())]], after)
sc('check-block', good_block, [[on('p', lambda p: CheckBlock(p, False, False, 10))], [on('p', lambda p: CheckBlock(p, False, True, 10))]],
   lambda e: [e['p'].serialize(), e['p'].GetHash()])
sc('wire', spend, [[on('p', lambda p: CTransaction.deserialize(p.serialize()).GetHash())], [on('q', lambda q: [CTransaction.deserialize(q.serialize()), repr(q)])]], after)
for a, b in (('A', 'A'), ('A', 'B'), ('B', 'C'), ('D', 'B'), ('E', 'A')):
    sc('types-%s%s' % (a, b), fresh_hierarchy, [[use_type(a)], [use_type(b)]],
       lambda e: [[e['rel'].make(k).hash == e['rel'].hash(k), e['rel'].make(k).serialize() == e['rel'].wire(k)] for k in 'ABCDE'])
for f, pairs in {'V': ((0, 0), (0, 1), (1, 2)), 'T': ((0, 0), (0, 2), (2, 2)), 'R': ((0, 0), (0, 1), (1, 1)),
                 'G': ((0, 0), (0, 1), (1, 1), (1, 2))}.items():
    for i, j in pairs:
        sc('family-%s%d%d' % (f, i, j), fresh_family(f), [[use_family(i)], [use_family(j)]],
           lambda e: [e['c'].bad, [u() for u in e['uses']] and e['c'].bad])

sc('map-leaf-first', fresh_map, [[against(leaf_first, 'leaf')], [against(leaf_first, 'leaf')]], map_values)
sc('map-inner-first', fresh_map, [[against(inner_first, 'inner')], [against(inner_first, 'inner')]], map_values)
sc('map-both-first', fresh_map, [[against(leaf_first, 'leaf')], [against(inner_first, 'inner')]], map_values)
FIRST = {'bits': first_bits, 'tree': first_tree, 'tree2': first_tree_of((1, 200)), 'range': first_range, 'range3': first_range_of((1, 2, 3)),
         'proof': first_proof, 'pruned': first_pruned, 'tag': first_tag, 'fake': first_fake}
for a, b in [(k, k) for k in FIRST] + [('bits', 'proof'), ('bits', 'tree'), ('tree', 'tree2'), ('range', 'range3'), ('proof', 'pruned')]:
    sc('first-%s-%s' % (a, b), fresh_modules, [[FIRST[a]], [FIRST[b]]], lambda e: [f(e) for f in FIRST.values()])
sc('first-bits-alone', fresh_bits, [[first_bits], [first_bits]], first_bits)


def sequential(s):
    """What each thread gets alone, and every final state some sequential order leaves"""
    alone = []
    for prog in s.programs:
        env = s.setup()
        alone.append([attempt(f, env) for f in prog])
    finals = []
    seq = [i for i, p in enumerate(s.programs) for _ in p]
    for order in sorted(set(itertools.permutations(seq))):
        env = s.setup()
        pos = [0] * len(s.programs)
        for i in order:
            attempt(s.programs[i][pos[i]], env)
            pos[i] += 1
        f = norm(s.finish(env))
        if f not in finals:
            finals.append(f)
    return alone, finals


def schedules(ctx, param):
    name, bound, opcodes, longest, most = param
    s = SC[name]
    ctx.cur = [name, 'sequential']
    alone, finals = sequential(s)       # also fills every cache that outlives an object
    ctx.step()
    cur = {}

    def make():
        env = s.setup()
        cur['env'] = env

        def program(prog):
            return lambda: [attempt(f, env) for f in prog]
        return [program(p) for p in s.programs], lambda: norm(s.finish(env))

    def seen(results, final, ex):
        choices = [p[1] for p in ex.points]
        ctx.cur = [name, 'schedule', choices]
        ctx.step(max(1, len(choices)))
        if ex.diverged:
            ctx.outcome('diverged')
            return
        ctx.expect(not ex.deadlock, 'deadlock', 'all threads wait for each other')
        for i, (r, a) in enumerate(zip(results, alone)):
            if r[0] != 'ok':
                ctx.fail('thread-failed', 'thread %d failed: %s' % (i, r), schedule=choices)
            else:
                ctx.eq(r[1], a, 'result', thread=i, schedule=choices)
        ctx.expect(final in finals, 'final-state', 'the objects are left in a state no sequential order leaves', final=final,
                   sequential=finals, schedule=choices)
        if ctx.state(name, repr(final), repr(results)):
            ctx.trace([name, choices[:40]], 0)
        ctx.trace()

    steps = []
    sched.explore(make, 1, opcodes, lambda r, f, ex: steps.append(ex.steps), 1)
    if steps[0] > longest:
        ctx.outcome('too long for this bound')
        return
    if bound > 1:
        first, _ = sched.explore(make, 1, opcodes, lambda r, f, ex: ctx.step())
        if estimate(first, bound) > most:
            ctx.outcome('too long for this bound')
            return
    n, _ = sched.explore(make, bound, opcodes, seen)
    ctx.outcome('%s: %d schedules' % (name, n))


def estimate(first, bound):
    """About how many schedules there are with that many preemptions, given their number with one"""
    n = first
    for k in range(2, bound + 1):
        n = n * first // k
    return n


def spaces(tier):
    deep = tier == 'thorough'
    names = sorted(SC, key=lambda n: n not in ('range-append', 'tree-put-pruned', 'tree-put', 'tree-subset', 'guinner'))
    out = []
    for what, opcodes, bound, longest, most in (
            [('bytecodes', True, 1, 10 ** 6, None), ('lines', False, 2, 1000, 100000), ('lines', False, 3, 300, 100000),
             ('bytecodes', True, 2, 1000, 50000)] if deep else
            [('bytecodes', True, 1, 1700, None), ('lines', False, 1, 10 ** 6, None), ('lines', False, 2, 300, 8000)]):
        some = [n for n in names if n.startswith(('verify', 'wire', 'check-block'))] if (what, bound) == ('lines', 1) else names    # those too long for bytecodes
        out.append(core.Space('%s %d' % (what, bound), 'every schedule switching between %s with at most %d preemptions, in scenarios '
                              'with at most %d places to switch and about %s schedules' % (what, bound, longest, most), schedules,
                              [(n, bound, opcodes, longest, most) for n in some]))
    return out
