"""C36: no two proofs of one commitment, honest or forged, contradict each other; no transaction closes a seal over two digests"""
import itertools

from mc import core, pm, btc, sealing
from proofmarshal.proof import PrunedError
from proofmarshal.serialize import DeserializationError

LEVEL = 'model_checking'
ASSUMPTIONS = ['SHA-256 and RIPEMD-160 have no collisions among the inputs explored',
               'a proof is what can be deserialized; an error (other than the one that means absence) proves nothing',
               'the chain spends each outpoint at most once (seals are explored within one transaction)']

BIG = 2 ** 62


def cuts(m, path=()):
    """All prefix-closed sets of opened proofs below (and with) this one"""
    below = [[frozenset()] + list(cuts(m.vals[n], path + (n,))) for n, _ in m.kind.fields if isinstance(m.vals[n], pm.M)]
    for combo in itertools.product(*below):
        yield frozenset([path]).union(*combo)


def ask(fn, absent):
    """('is', answer), ('absent',) or None where nothing is proved"""
    try:
        return ('is', fn())
    except absent:
        return ('absent',)
    except core.StopShard:
        raise
    except Exception:
        return None


def plain(v):
    return (v.n, v.b)


class Told:
    """What the proofs of one commitment said"""
    def __init__(self, ctx, what):
        self.ctx, self.what, self.said = ctx, what, {}

    def hears(self, question, answer, cut):
        if answer is None:
            self.ctx.outcome('nothing proved')
            return
        self.ctx.outcome('stated')
        old = self.said.setdefault(question, (answer, cut))
        self.ctx.expect(old[0] == answer, self.what + ':contradiction', 'two proofs of one commitment: %r and %r' % (old[0], answer),
                        question=question, opened=[sorted(old[1]), sorted(cut)])


def received(ctx, m, cut, what):
    p = m.kind.root.deserialize(m.wire(cut))
    ctx.eq(p.hash, m.hash(), what + ':hash', opened=sorted(cut))
    return p


# -- ranges ------------------------------------------------------------------------------------------------------

FLATS = [pm.m_flat(1), pm.m_flat(2), pm.m_flat(3)]


def leaf(i):
    return pm.M('RangeLeaf', value=FLATS[i])


def inner(left, right, length):
    return pm.M('RangeInner', left=left, right=right, length=length)


LENGTHS = (0, 1, 2, 3, 4, BIG)
EMPTY = pm.M('RangeEmpty')


def range_questions(ctx, m, told, cut, n):
    def fresh():
        return received(ctx, m, cut, 'range')
    size = ask(lambda: len(fresh()), ())
    told.hears('len', size, cut)
    told.hears('length', ask(lambda: fresh().length, ()), cut)
    for i in list(range(-n, n + 1)) + [BIG - 1, -BIG]:
        a = ask(lambda: plain(fresh()[i]), IndexError)
        told.hears(i, a, cut)
        ctx.step()
        if a and a[0] == 'is':
            told.items.append((i, a[1], cut))
    for a, b in ((0, 1), (1, 2), (0, 2), (1, None), (None, -1), (2, 4)):
        told.hears(('slice', a, b), ask(lambda: fresh()[a:b].hash, ()), cut)
    told.hears('iterated', ask(lambda: [plain(v) for v in fresh()], ()), cut)
    told.hears('reversed', ask(lambda: [plain(v) for v in reversed(fresh())], ()), cut)
    told.hears('append', ask(lambda: fresh().append(FLATS[2].build()).hash, ()), cut)
    ctx.step(5)
    # one proof, asked everything in either order
    p, q = fresh(), fresh()
    order = list(range(-3, 4))
    for i in order:
        told.hears(i, ask(lambda: plain(p[i]), IndexError), cut)
    for i in reversed(order):
        told.hears(i, ask(lambda: plain(q[i]), IndexError), cut)
    told.hears('len', ask(lambda: len(q), ()), cut)
    # nor what is passed on of it
    u = fresh().prune()
    for i in (0, -1, 1):
        ask(lambda: plain(u[i]), IndexError)
        d = ask(lambda: m.kind.root.deserialize(u.serialize()), ())
        if d:
            for j in order:
                told.hears(j, ask(lambda: plain(d[1][j]), IndexError), cut)
            told.hears('len', ask(lambda: len(d[1]), ()), cut)


def range_settle(ctx, told):
    """No item lies beyond the length; an index from the end is that index from the start"""
    size = told.said.get('len')
    if size is None:
        return
    n = size[0][1]
    for i, v, cut in told.items:
        ctx.expect(-n <= i < n, 'range:beyond', 'item %d of a range proved to have %d' % (i, n), opened=sorted(cut))
        other = told.said.get(i + n if i < 0 else i - n)
        ctx.expect(other is None or other[0] == ('is', v), 'range:from-end', 'item %d is %r, but counted from the other end %r' % (i, v, other),
                   opened=sorted(cut))


def one_range(ctx, m, few=False):
    told = Told(ctx, 'range')
    told.items = []
    ctx.cur = m
    for cut in cuts(m):
        if few and any(n == 'value' for p in cut for n in p) and not all(p + ('value',) in cut for p in cut if m.at(p).kind.name == 'RangeLeaf'):
            continue
        range_questions(ctx, m, told, cut, 5)
        ctx.state(repr(m), tuple(sorted(cut)))
    range_settle(ctx, told)
    ctx.trace(repr(m)[:300])


def small(lengths=LENGTHS):
    a, b = leaf(0), leaf(1)
    for l, r in itertools.product((a, b, EMPTY), repeat=2):
        for n in lengths:
            yield inner(l, r, n)


def ranges(ctx, param):
    """Ranges of two levels, of any claimed lengths"""
    side, length = param
    seen = {}
    for m in itertools.chain(small(), [leaf(0), EMPTY]):
        for other in (leaf(1), EMPTY) if side != 'both' else small((1, 2)):
            if side == 'both' and m.kind.name != 'RangeInner':
                continue
            f = inner(m, other, length) if side != 'right' else inner(other, m, length)
            ctx.expect(seen.setdefault(f.hash(), repr(f)) == repr(f), 'range:collision')
            one_range(ctx, f, few=side == 'both')


# -- trees -------------------------------------------------------------------------------------------------------

KEYS = [b'\x08', b'\x48', b'\x88', b'\xf8']          # prefixes 00001 01001 10001 11111
PREFIXES = ((), (0,), (1,), (0, 1), (0, 0, 0, 0, 1))


def tleaf(k, v):
    return pm.M('TreeLeaf', key=KEYS[k], value=FLATS[v])


def tinner(p, l, r):
    return pm.M('TreeInner', prefix=p, left=l, right=r)


TEMPTY = pm.M('TreeEmpty')


def tree_questions(ctx, m, told, cut):
    def fresh():
        return received(ctx, m, cut, 'tree')
    for k in KEYS:
        told.hears(k, ask(lambda: plain(fresh()[k]), KeyError), cut)
        r = ask(lambda: fresh().put(k, FLATS[2].build()), ())
        if r:
            told.hears(('put', k), r and ('is', r[1].hash), cut)
            ctx.eq(ask(lambda: plain(r[1][k]), KeyError), ('is', (3, b'')), 'tree:put', key=k, opened=sorted(cut))
        told.hears(('remove', k), ask(lambda: fresh().remove(k).hash, KeyError), cut)
        ctx.step(3)
    told.hears('len', ask(lambda: len(fresh()), ()), cut)
    told.hears('keys', ask(lambda: list(fresh().keys()), ()), cut)
    told.hears('items', ask(lambda: [(k, plain(v)) for k, v in fresh().items()], ()), cut)
    p, q = fresh(), fresh()
    for k in KEYS:
        told.hears(k, ask(lambda: plain(p[k]), KeyError), cut)
    for k in reversed(KEYS):
        told.hears(k, ask(lambda: plain(q[k]), KeyError), cut)
    u = fresh().prune()
    for k in KEYS:
        ask(lambda: plain(u[k]), KeyError)
        d = ask(lambda: m.kind.root.deserialize(u.serialize()), ())
        if d:
            for j in KEYS:
                told.hears(j, ask(lambda: plain(d[1][j]), KeyError), cut)
    ctx.step(3)


def one_tree(ctx, m):
    told = Told(ctx, 'tree')
    ctx.cur = m
    for cut in cuts(m):
        tree_questions(ctx, m, told, cut)
        ctx.state(repr(m), tuple(sorted(cut)))
    ctx.trace(repr(m)[:300])
    return told


def small_trees(prefixes=PREFIXES, keys=(0, 1, 2)):
    ls = [tleaf(k, v) for k in keys for v in (0, 1)] + [TEMPTY]
    for p in prefixes:
        for l, r in itertools.product(ls, repeat=2):
            yield tinner(p, l, r)


def trees(ctx, param):
    """Trees of one or two levels with prefixes and keys in any place"""
    side, p, few = param
    seen = {}
    if side == 'flat':
        made = itertools.chain(small_trees((p,), range(4)), [tleaf(0, 0), TEMPTY])
    else:
        inner_ = list(small_trees(PREFIXES[:4] if few else PREFIXES, (0, 2) if few else (0, 1, 2)))
        others = [tleaf(0, 1), tleaf(2, 1)] if few else [tleaf(k, 1) for k in range(4)] + [TEMPTY]
        made = (tinner(p, m, o) if side == 'left' else tinner(p, o, m) for m in inner_ for o in others)
    for m in made:
        ctx.expect(seen.setdefault(m.hash(), repr(m)) == repr(m), 'tree:collision')
        one_tree(ctx, m)


def subsets(ctx, param):
    """A forged tree said to be part of another is so as far as lookups tell"""
    i, n, deep = param
    pool = list(small_trees(PREFIXES[:4] if deep else PREFIXES[:3], (0, 2))) + [tleaf(k, v) for k in (0, 2) for v in (0, 1)] + [TEMPTY]
    x, y = tleaf(0, 0), tleaf(2, 0)
    pool += [tinner(p, tinner(q, l, r), o) for p in ((), (1,)) for q in ((), (0,)) for l in (x, y) for r in (x, y) for o in (tleaf(2, 1), tleaf(0, 1), x)]
    pool += [tinner(p, o, tinner(q, l, r)) for p in ((), (0,)) for q in ((), (1,)) for l in (x, y) for r in (x, y) for o in (tleaf(2, 1), tleaf(0, 1), x)]
    twos = [tinner((), x, y), tinner((0,), x, tleaf(1, 0)), tinner((1,), y, tleaf(3, 0)), tinner((0,), x, tleaf(1, 1)), tinner((0,), tleaf(1, 0), x),
            tinner((1,), x, tleaf(1, 0))]
    pool += twos + [tinner(p, *c) for p in ((), (0,), (1,)) for a in twos for o in [x, tleaf(2, 1), y, TEMPTY] + twos for c in ((a, o), (o, a))]
    root = pm.Tree
    real = [root.deserialize(m.wire()) for m in pool]
    holds = [{k: ask(lambda: plain(t[k]), KeyError) for k in KEYS} for t in real]
    for a in range(i, len(pool), n):
        for b in range(len(pool)):
            ctx.cur = [pool[a], pool[b]]
            for way in range(3):
                s, t = real[a], real[b]
                if way:
                    s, t = (s.prune(), t) if way == 1 else (s, t.prune())
                r = ask(lambda: s.issubset(t), ())
                ctx.step()
                if r == ('is', True):
                    for k in KEYS:
                        if holds[a][k] and holds[a][k][0] == 'is':
                            ctx.eq(holds[b][k], holds[a][k], 'subset:lookup', key=k, way=way)
                    ctx.outcome('part')
            ctx.state(a, b)
        ctx.trace(repr(pool[a])[:300])


# -- seals -------------------------------------------------------------------------------------------------------

DIGESTS = [b'\x11' * 32, b'\x22' * 32, bytes(range(32)), bytes(32), b'\x11' * 31 + b'\x91']
POINTS = [(b'\x31' * 32, 0), (b'\x31' * 32, 1)]


def scripts():
    """Output scripts, and the digest each commits to (None: none)"""
    r = []
    for d in range(len(DIGESTS)):
        for f in sealing.FORMS:
            s = btc.commit_script(DIGESTS[d], f)
            r.append((s, d))
    s = btc.commit_script(DIGESTS[0], 'op_return')
    r += [(b'', None), (s[:-1], None), (s + btc.commit_script(DIGESTS[1], 'op_return'), None), (s + s[1:], None),
          (b'\x6a' + s, None), (s[1:], None), (s + btc.push(DIGESTS[1]), None), (b'\x51', None)]
    for d in (0, 1):
        x = btc.commit_script(DIGESTS[d], 'p2sh')
        y = btc.commit_script(DIGESTS[1 - d], 'p2sh')
        z = btc.commit_script(DIGESTS[d], 'p2pkh')
        r += [(x + y, None), (x[:-1], None), (x + b'\x51', None), (b'\xa9' + btc.push(DIGESTS[d]) + b'\x87', None),
              (z[:-1], None), (z[2:], None), (btc.push(x), None)]
    return r


def closed_over(ctx, t, point, nin, nout):
    """Which digests the witnesses by a transaction verify for: {(input, output): digests}"""
    r = {}
    for i in range(nin + 1):
        for o in range(nout + 1):
            w = sealing.witness(point, t, i, t, o)
            for held in ('made', 'received'):
                p = w.build() if held == 'made' else w.kind.root.deserialize(w.wire())
                if not sealing.verifies(p.verify):
                    continue
                for d, digest in enumerate(DIGESTS):
                    ctx.step()
                    if sealing.verifies(lambda: p.verify_hash(digest)):
                        r.setdefault((i, o), set()).add(d)
    return r


def seals(ctx, param):
    """Transactions with outputs of every kind, in every place"""
    i, n, nout = param
    ss = scripts()
    if nout == 3:
        ss = ss[:4] + ss[15:18]
    two_inputs = [((POINTS[0], b'', 0),), ((POINTS[1], b'', 0), (POINTS[0], b'', 1)), ((POINTS[0], b'', 0), (POINTS[1], b'', 1))]
    combos = list(itertools.product(ss, repeat=nout))
    for c in combos[i::n]:
        for vin in two_inputs[:1 if nout == 3 else 3]:
            t = (1, vin, tuple((j, s) for j, (s, _) in enumerate(c)), 0)
            ctx.cur = t
            for point in POINTS[:len(vin)]:
                got = closed_over(ctx, t, point, len(vin), nout)
                for (_, o), ds in got.items():
                    ctx.expect(len(ds) <= 1, 'seal:one-output-two-digests', 'output %d closes a seal over digests %r' % (o, sorted(ds)))
                    ctx.expect(o < nout and c[o][1] in ds, 'seal:digest-not-committed', 'output %d closes a seal over digests %r' % (o, sorted(ds)))
                over = set().union(*got.values())
                committed = {d for _, d in c if d is not None}
                if len(over) > 1:
                    if len(committed) > 1:
                        ctx.fail('seal:two-outputs', 'witnesses by one transaction verify for digests %r of one seal' % sorted(over), outputs=[s for s, _ in c])
                    else:
                        ctx.fail('seal:two-digests', 'witnesses by one transaction verify for digests %r of one seal' % sorted(over))
                ctx.outcome('closed' if over else 'not closed')
            ctx.state(t)
        ctx.trace([s for s, _ in c])


def nodes(ctx, param):
    """A transaction that closes a seal over one node of a map does so for no other node"""
    point = POINTS[0]
    leaves = [(1, 2), (1, 3), (2, 2), (2, 1), (0, 0), (0, 256), (128, 0), (127, 1), (16384, 5), (1, 2 ** 63), (2 ** 63, 1)]
    subs = [pm.m_unused((0,), pm.m_seal(1)), pm.m_unused((1,), pm.m_seal(2)), pm.m_unused((1,), pm.m_seal(2, 1)), pm.m_unused((0, 1), pm.m_seal(1)),
            pm.m_leaf(1, 2), pm.m_leaf(1, 3), pm.m_unused((1,), pm.M('FakeSeal', committed_hash=bytes(32)))]
    pairs = list(itertools.product(subs, repeat=2))
    seal = lambda l, r: (pm.seal_of(l).hash(), pm.seal_of(r).hash())
    things = [('leaf', kv, pm.leaf_digest(*kv)) for kv in leaves] + [('inner', lr, pm.inner_digest(pm.seal_of(lr[0]), pm.seal_of(lr[1]))) for lr in pairs]

    def says(kind, x):
        return (kind, x if kind == 'leaf' else seal(*x))
    for kind, x, digest in things:
        for form in sealing.FORMS:
            t = (1, ((point, b'', 0),), ((0, btc.commit_script(digest, form)),), 0)
            w = sealing.witness(point, t, 0, t, 0)
            ok = set()
            for k2, y, _ in things:
                m = pm.M('GuLeaf', witness=w, key=y[0], value=y[1]) if k2 == 'leaf' else pm.M('GuInner', prefix=(), witness=w, left=y[0], right=y[1])
                p = m.kind.root.deserialize(m.wire())
                if sealing.verifies(p.verify):
                    ok.add(says(k2, y))
                ctx.step()
            ctx.cur = [kind, form, x]
            ctx.eq(ok, {says(kind, x)}, 'seal:two-nodes')
            ctx.state(says(kind, x), form)
            ctx.trace([kind, form])


def spaces(tier):
    deep = tier == 'thorough'
    lens = LENGTHS if deep else (1, 2, 3, BIG)
    sides = ('left', 'right', 'both') if deep else ('left', 'right')
    nseal = 64
    return [
        core.Space('ranges', 'all ranges of two levels over two values and the empty range with every node claiming a length of 0-4 or 2^62%s; all ways of pruning them; '
                   'all indexes from -5 to 5, lengths, slices' % ('' if deep else ' (the top 1-3 or 2^62)'), ranges, [(s, n) for s in sides for n in lens]),
        core.Space('trees', 'all trees of two levels with prefixes of %d and leaves in any place, all ways of pruning them; lookups, insertions, removals of all keys' % (5 if deep else 4), trees,
                   [('flat', p, 0) for p in PREFIXES] + [(s, p, not deep) for s in ('left', 'right') for p in PREFIXES]),
        core.Space('subsets', 'all pairs of forged trees of a pool', subsets, [(i, 16, deep) for i in range(16)]),
        core.Space('seals', 'transactions with one or two%s outputs of 37 scripts, three lists of inputs, all digests' % (' or three' if deep else ''), seals,
                   [(0, 1, 1)] + [(i, nseal, 2) for i in range(nseal)] + ([(i, 8, 3) for i in range(8)] if deep else [])),
        core.Space('nodes', 'all leaves and inner nodes of pools under the witness of each', nodes, [0]),
    ]
