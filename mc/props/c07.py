"""C07: what a receiver of a serialized pruned proof can and cannot answer"""
import itertools, os, pickle

from mc import core, ref, pm
from mc.props import c06
from mc.props.c06 import SHAPES, ask, queries, walk
from proofmarshal.bits import Bits
from proofmarshal.proof import Proof, PrunedError

LEVEL = 'model_checking'
ASSUMPTIONS = ['the receiver deserializes with the type (base class for trees, ranges, maps) the sender used']


def receive(ctx, p, m, revealed, orig, what):
    """Serialize p, deserialize as the receiver would; whole-object checks"""
    wire = m.wire(revealed)
    ctx.eq(p.serialize(), wire, what + ':serialization', revealed=sorted(revealed))
    r = m.kind.root.deserialize(wire)
    ctx.eq(type(r), type(orig), what + ':type')
    ctx.eq(r.hash, m.hash(), what + ':hash', revealed=sorted(revealed))
    ctx.eq(r.data_hash, m.data_hash(), what + ':data-hash')
    ctx.eq((r == orig, orig == r, r != orig), (True, True, False), what + ':equality')
    ctx.eq(r.serialize(), wire, what + ':reserialization')
    ctx.eq(bool(r.is_fully_pruned), () not in revealed, what + ':is_fully_pruned')
    ctx.eq(bool(r.is_pruned), any(path not in revealed for path, _ in m.nodes()), what + ':is_pruned', revealed=sorted(revealed))
    return r


def probe(ctx, r, m, revealed, orig, what):
    """Every attribute of every node: the original answer, or the pruning error; nodes revealed answer"""
    for path, n, codec in m.attrs():
        v = m.at(path).vals[n]
        try:
            got = walk(r, path + (n,))
        except PrunedError as e:
            ctx.expect(path not in revealed, what + ':used-but-pruned', 'pruning error for something used', path=path, attr=n)
            ctx.outcome('pruning error')
            continue
        ctx.step()
        if isinstance(v, pm.M):
            ctx.eq(got.hash, v.hash(), what + ':hash', path=path, attr=n)
            ctx.eq(got == walk(orig, path + (n,)), True, what + ':equality', path=path, attr=n)
            ctx.eq(type(got), type(walk(orig, path + (n,))), what + ':type', path=path, attr=n)
        else:
            ctx.eq(got, codec.real(v), what + ':value', path=path, attr=n)


def reachable(m, limit):
    """Histories of attribute accesses for the revealed sets, breadth first"""
    qs = [('get', path + (n,), pm.prefixes(path)) for path, n, _ in m.attrs()]
    seen = {frozenset(): []}
    todo = [frozenset()]
    while todo and len(seen) < limit:
        nxt = []
        for s in todo:
            for q in qs:
                k = s | q[2]
                if k not in seen:
                    seen[k] = seen[s] + [q]
                    nxt.append(k)
        todo = nxt
    return seen


def uses(ctx, param):
    name, limit, chain, shard, n = param
    m = SHAPES[name]
    orig = m.build()
    qs = [q for q in queries(m) if q[0] != 'serialize']
    sets = reachable(m, limit)
    for c, (st, hist) in enumerate(sets.items()):
        if c % n != shard:
            continue
        ctx.cur = [name, hist]
        p = orig.prune()
        rv = set()
        for q in hist:
            rv = ask(ctx, q, orig, p, m, rv)
        wire = m.wire(rv)
        for q in qs:
            # each query on its own fresh copy: nothing earlier on the receiver's side may matter
            ctx.cur = [name, hist, q]
            r = receive(ctx, p, m, rv, orig, 'received')
            if q[2] <= rv:
                ask(ctx, q, orig, r, m, set(rv), 'received')
            else:
                try:
                    ask(ctx, q, orig, r, m, set(rv) | q[2], 'received')
                    ctx.outcome('answered')
                except PrunedError:
                    ctx.outcome('pruning error')
            ctx.eq(r.serialize(), wire, 'receiver-changed', query=q)
            ctx.step()
        probe(ctx, r, m, rv, orig, 'received')
        ctx.eq(r.serialize(), wire, 'receiver-changed')
        ctx.state(name, st)
        ctx.trace([name, hist])
        if chain:
            # the receiver prunes it again, uses some of it and passes it on
            for st2, hist2 in sets.items():
                if not st2 <= st:
                    continue
                ctx.cur = [name, hist, hist2]
                r = m.kind.root.deserialize(wire)
                rp = r.prune()
                rv2 = set()
                for q in hist2:
                    rv2 = ask(ctx, q, r, rp, m, rv2, 'chained')
                r2 = receive(ctx, rp, m, rv2, orig, 'chained')
                probe(ctx, r2, m, rv2, orig, 'chained')
                ctx.eq(r.serialize(), wire, 'receiver-changed')
                ctx.state(name, st, st2)
                ctx.trace([name, hist, hist2])
                # a failed query on the pruned copy changes nothing
                for path, n_, _ in m.attrs():
                    if path not in rv:
                        rp2 = r.prune()
                        try:
                            walk(rp2, path + (n_,))
                        except PrunedError:
                            pass
                        ctx.step()
                        x = rp2.serialize()
                        y = m.kind.root.deserialize(x)
                        ctx.eq(y.hash, m.hash(), 'chained-failed:hash')
                        break


# -- whole operations -------------------------------------------------------------------------------------------------

FLAGS = ('KeyError', 'IndexError', 'AssertionError')


def answer(fn, p):
    """A comparable answer; the pruning error is kept apart"""
    try:
        v = fn(p)
    except PrunedError:
        return PRUNED
    except (KeyError, IndexError, AssertionError) as e:
        return ('raises', type(e).__name__)
    return norm(v)


PRUNED = ('pruning error',)


def norm(v):
    if isinstance(v, Proof):
        return ('proof', type(v).__name__, v.hash)
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if hasattr(v, 'serialize'):
        return ('obj', type(v).__name__, v.serialize())
    if isinstance(v, Bits):
        return ('bits', tuple(v))
    return v


def operations(ctx, param):
    """All pairs of operations used by the sender, all operations tried by the receiver"""
    what, arg, shard, n, pairs = param
    builder, ops = CASES[what](arg)
    orig = builder()
    want = [answer(fn, orig) for _, fn in ops]
    full = orig.serialize()
    root = ROOTS[what]
    combos = [()] + [(i,) for i in range(len(ops))]
    if pairs:
        combos += list(itertools.product(range(len(ops)), repeat=2))
    for c, used in enumerate(combos):
        if c % n != shard:
            continue
        p = orig.prune()
        ctx.cur = [what, arg, [ops[i][0] for i in used]]
        for i in used:
            ctx.eq(answer(ops[i][1], p), want[i], 'pruned-copy', op=ops[i][0])
        wire = p.serialize()
        for i, (name, fn) in enumerate(ops):
            r = root.deserialize(wire)
            if i == 0:
                ctx.eq(r.hash, orig.hash, 'received:hash')
                ctx.eq(r.serialize(), wire, 'received:reserialization')
            got = answer(fn, r)
            ctx.step()
            if i in used or got != PRUNED:
                ctx.eq(got, want[i], 'received:answer', op=name, used=[ops[j][0] for j in used])
            ctx.outcome('answered' if got != PRUNED else 'pruning error')
            ctx.eq(r.serialize(), wire, 'receiver-changed', op=name)
        # all the used operations in one receiver, in the other order, through another pruning
        r = root.deserialize(wire)
        rp = r.prune()
        for i in used[::-1]:
            ctx.eq(answer(ops[i][1], rp), want[i], 'chained:answer', op=ops[i][0])
        r2 = root.deserialize(rp.serialize())
        ctx.eq(r2.hash, orig.hash, 'chained:hash')
        for i in used:
            ctx.eq(answer(ops[i][1], r2), want[i], 'chained:answer', op=ops[i][0])
        ctx.eq(r.serialize(), wire, 'receiver-changed')
        ctx.state(what, arg, wire)
        ctx.trace([what, arg, [ops[i][0] for i in used]])
    ctx.eq(orig.serialize(), full, 'original-changed')


class Elsewhere:
    """A receiver in another process, which has seen nothing of the sender's: each request in a fresh fork of it"""
    def __init__(self):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(a[0])
            os.close(b[1])
            self.out, self.inp = os.fdopen(a[1], 'wb'), os.fdopen(b[0], 'rb')
            return
        try:
            os.close(a[1])
            os.close(b[0])
            inp, out = os.fdopen(a[0], 'rb'), os.fdopen(b[1], 'wb')
            while True:
                req = inp.read(8)
                if len(req) < 8:
                    break
                req = inp.read(int.from_bytes(req, 'big'))
                pid = os.fork()
                if not pid:
                    try:
                        r = self.serve(*pickle.loads(req))
                    except BaseException as e:
                        r = ('failed', core.describe(e))
                    r = pickle.dumps(r)
                    out.write(len(r).to_bytes(8, 'big') + r)
                    out.flush()
                    os._exit(0)
                os.waitpid(pid, 0)
        finally:
            os._exit(0)

    def serve(self, what, arg, wire, used):
        builder, ops = CASES[what](arg)
        if wire is None:
            # nothing but this was ever done with the original
            r = builder().prune()
            a = [answer(ops[i][1], r) for i in used]
            return ('answers', a, r.hash, r.serialize())
        r = ROOTS[what].deserialize(wire)
        return ('answers', [answer(ops[i][1], r) for i in used], r.hash, r.serialize())

    def ask(self, *req):
        req = pickle.dumps(req)
        self.out.write(len(req).to_bytes(8, 'big') + req)
        self.out.flush()
        return pickle.loads(self.inp.read(int.from_bytes(self.inp.read(8), 'big')))

    def close(self):
        self.out.close()
        self.inp.close()
        os.waitpid(self.pid, 0)


def elsewhere(ctx, param):
    """The sender has worked with the original, and used the pruned copy; the receiver is another process"""
    what, arg, shard, n, pairs = param
    far = Elsewhere()
    try:
        builder, ops = CASES[what](arg)
        orig = builder()
        orig.hash
        want = [answer(fn, orig) for _, fn in ops]
        combos = [(i,) for i in range(len(ops))]
        if pairs:
            combos += list(itertools.permutations(range(len(ops)), 2))
        for c, used in enumerate(combos):
            if c % n != shard:
                continue
            ctx.cur = [what, arg, [ops[i][0] for i in used]]
            p = orig.prune()
            for i in used:
                ctx.eq(answer(ops[i][1], p), want[i], 'pruned-copy', op=ops[i][0])
            wire = p.serialize()
            for order in (used, used[::-1])[:len(used)]:
                got = far.ask(what, arg, wire, order)
                ctx.eq(got, ('answers', [want[i] for i in order], orig.hash, wire), 'elsewhere:answer', used=[ops[i][0] for i in order])
                ctx.step(len(order))
            ctx.state(what, arg, wire)
            ctx.trace([what, arg, [ops[i][0] for i in used]])
    finally:
        far.close()


KEYS = [bytes([i << 3]) for i in (0, 1, 6, 16, 24, 31)]
F77 = pm.m_flat(77)


def tree_case(sub):
    items = {k: pm.m_flat(k[0], k * 3) for k in sub}
    other = pm.Tree({k: pm.m_flat(k[0], k * 3).build() for k in KEYS[:4]})
    ops = [('len', len), ('keys', lambda t: sorted(t.keys())), ('values', lambda t: [v.n for v in t.values()]),
           ('subset', lambda t: t.issubset(other)), ('superset', lambda t: other.issubset(t))]
    for k in KEYS:
        ops += [('get %r' % k, lambda t, k=k: t[k]), ('content %r' % k, lambda t, k=k: (t[k].n, t[k].b)),
                ('put %r' % k, lambda t, k=k: t.put(k, F77.build())), ('remove %r' % k, lambda t, k=k: t.remove(k))]
    return (lambda: pm.Tree({k: v.build() for k, v in items.items()})), ops


def range_case(n):
    vals = [pm.m_flat(i, b'v') for i in range(n)]
    ops = [('len', len), ('iter', lambda r: [v.n for v in r]), ('reversed', lambda r: [v.n for v in reversed(r)]),
           ('append', lambda r: r.append(F77.build())), ('extend', lambda r: r.extend([F77.build()] * 3)),
           ('index n', lambda r: r[n]), ('index -n-1', lambda r: r[-n - 1])]
    for i in range(n):
        ops += [('index %d' % i, lambda r, i=i: r[i]), ('content %d' % i, lambda r, i=i: r[i].n),
                ('from %d' % i, lambda r, i=i: r[i:]), ('to %d' % i, lambda r, i=i: r[:i]),
                ('slice %d' % i, lambda r, i=i: [v.n for v in r[i:i + 2]])]
    return (lambda: pm.Range(v.build() for v in vals)), ops


def large_tree_case(step):
    """Keys all over the tree"""
    keys = [bytes([i << 3]) for i in range(0, 32, step)]
    items = {k: pm.m_flat(k[0], k * 3) for k in keys}
    other = pm.Tree({k: v.build() for k, v in list(items.items())[::2]})
    more = pm.Tree({bytes([i << 3]): pm.m_flat(i << 3, bytes([i << 3]) * 3).build() for i in range(32)})
    ops = [('len', len), ('keys', lambda t: sorted(t.keys())), ('values', lambda t: [v.n for v in t.values()]),
           ('subset', lambda t: t.issubset(other)), ('superset', lambda t: other.issubset(t)), ('subset of more', lambda t: t.issubset(more))]
    for k in [bytes([i << 3]) for i in (0, 1, 2, 7, 15, 16, 30, 31)]:
        ops += [('get %r' % k, lambda t, k=k: t[k]), ('content %r' % k, lambda t, k=k: (t[k].n, t[k].b)),
                ('put %r' % k, lambda t, k=k: t.put(k, F77.build())), ('remove %r' % k, lambda t, k=k: t.remove(k))]
    return (lambda: pm.Tree({k: v.build() for k, v in items.items()})), ops


def large_range_case(n):
    vals = [pm.m_flat(i % 251, b'v') for i in range(n)]
    ops = [('len', len), ('iter', lambda r: [v.n for v in r]), ('append', lambda r: r.append(F77.build())), ('extend', lambda r: r.extend([F77.build()] * 3)),
           ('index n', lambda r: r[n]), ('index -n-1', lambda r: r[-n - 1])]
    for i in sorted({0, 1, n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 1, 63, 64, 65} & set(range(n))):
        ops += [('index %d' % i, lambda r, i=i: r[i]), ('content %d' % i, lambda r, i=i: r[i].n), ('back %d' % i, lambda r, i=i: r[i - n].n),
                ('from %d' % i, lambda r, i=i: r[i:]), ('to %d' % i, lambda r, i=i: r[:i]),
                ('slice %d' % i, lambda r, i=i: [v.n for v in r[i:i + 2]])]
    return (lambda: pm.Range(v.build() for v in vals)), ops


def witness_case(kind):
    d = b'\x21' * 32
    form, shared, before = kind
    m = pm.m_witness(pm.m_seal(1, 2), d, form, shared, before)
    ops = [('verify', lambda w: w.verify()), ('verify_hash', lambda w: w.verify_hash(d)),
           ('verify_hash wrong', lambda w: w.verify_hash(b'\x22' * 32)),
           ('txid', lambda w: w.txinproof.txproof.txhash), ('out txid', lambda w: w.txoutproof.txproof.txhash),
           ('txin', lambda w: w.txinproof.txin), ('txout', lambda w: w.txoutproof.txout),
           ('verify in', lambda w: w.txinproof.verify()), ('verify out', lambda w: w.txoutproof.verify()),
           ('outpoint', lambda w: w.seal.outpoint), ('nonce', lambda w: w.seal.nonce), ('seal', lambda w: w.seal),
           ('i', lambda w: (w.txinproof.i, w.txoutproof.i))]
    return m.build, ops


def map_case(kind):
    s = [pm.m_seal(i) for i in range(4)]
    m = {'leaf': lambda: pm.m_leaf(5, 300, s[0]), 'leaf-fake': lambda: pm.m_leaf(5, 300),
         'unused': lambda: pm.m_unused((0, 1), s[1]),
         'inner': lambda: pm.m_inner((0,), pm.m_leaf(1, 2, s[0]), pm.m_unused((0, 1), s[1]), s[2]),
         'inner-fake': lambda: pm.m_inner((0,), pm.m_leaf(1, 2), pm.m_leaf(2**60, 2, s[1])),
         'inner-deep': lambda: pm.m_inner((), pm.m_inner((0,), pm.m_leaf(1, 2, s[0]), pm.m_unused((0, 1), s[1])),
                                          pm.m_unused((1,), s[3]), s[2])}[kind]()
    leaf = m.kind.name == 'GuLeaf'
    inner = m.kind.name == 'GuInner'
    ops = [('verify', lambda g: g.verify()), ('seal', lambda g: g.seal), ('hash', lambda g: g.hash)]
    if kind not in ('inner-fake', 'leaf-fake', 'leaf'):
        ops += [('prefix', lambda g: g.prefix)]
    if leaf:
        ops += [('key', lambda g: g.key), ('value', lambda g: g.value), ('witness', lambda g: g.witness)]
    if inner:
        ops += [('left', lambda g: g.left), ('left seal', lambda g: g.left.seal), ('right seal', lambda g: g.right.seal),
                ('left verify', lambda g: g.left.verify()), ('right verify', lambda g: g.right.verify()),
                ('witness verify', lambda g: g.witness.verify())]
    return m.build, ops


ROOTS = {'large tree': pm.Tree, 'large range': pm.Range, 'tree': pm.Tree, 'range': pm.Range, 'witness': pm.BitcoinSealWitness, 'map': pm.IntMap}

CASES = {'large tree': large_tree_case, 'large range': large_range_case, 'tree': tree_case, 'range': range_case, 'witness': witness_case, 'map': map_case}


def spaces(tier):
    deep = tier == 'thorough'
    big = ('guinner', 'tree3', 'range3', 'guleaf', 'guinner-fake', 'witness', 'witness-apart')
    lim = 2000 if deep else 120
    us = [(n, lim, n not in big or deep and n != 'guinner', s, k) for n in SHAPES for k in ((16,) if n in big else (2,)) for s in range(k)]
    op = []
    for size in range(0, 7 if deep else 5):
        for sub in itertools.combinations(KEYS, size):
            if deep or size < 3 or sub[0] == KEYS[0] and sub[-1] != KEYS[3]:
                op += [('tree', sub, s, 2, True) for s in range(2)]
    op += [('range', n, s, 8, n < (12 if deep else 8)) for n in range(0, 14 if deep else 10) for s in range(8)]
    op += [('witness', (f, sh, b), 0, 1, True) for f in ('op_return', 'p2sh', 'p2pkh') for sh in (True, False) for b in (0, 2)]
    op += [('map', k, 0, 1, True) for k in ('leaf', 'leaf-fake', 'unused', 'inner', 'inner-fake', 'inner-deep')]
    la = [('large tree', k, s, 4, deep) for k in (1, 3) for s in range(4)] + [('large range', n, s, 2, deep and n < 70) for n in (31, 64, 65, 100, 127, 129, 200, 256, 300) for s in range(2)]
    el = [('tree', sub, s, 2, True) for size in range(0, 7 if deep else 5) for sub in itertools.combinations(KEYS, size)
          if deep or size < 2 or sub[0] == KEYS[0] and sub[-1] == KEYS[4] for s in range(2)]
    el += [('range', n, s, 4, n < (8 if deep else 5)) for n in range(0, 10 if deep else 8) for s in range(4)]
    el += [('witness', (f, sh, b), 0, 1, True) for f in ('op_return', 'p2sh', 'p2pkh') for sh in (True, False) for b in (0, 2)]
    el += [('map', k, 0, 1, True) for k in ('leaf', 'leaf-fake', 'unused', 'inner', 'inner-fake', 'inner-deep')]
    return [
        core.Space('elsewhere', 'all single and pairs of operations used by the sender after the same on the original; repeated by a '
                   'receiver in another process', elsewhere, el),
        core.Space('all uses', 'every reachable revealed set (at most %d) of %d proof shapes; every query by the receiver; '
                   'pruned again and passed on' % (lim, len(SHAPES)), uses, us),
        core.Space('operations', 'all single and pairs of operations on trees (subsets of 6 keys), ranges (to %d values), '
                   'witnesses and maps used by the sender; all operations by the receiver' % (13 if deep else 9), operations, op),
        core.Space('larger', 'all single%s operations on trees of 11 and 32 keys and ranges of 31 to 300 values used by the sender; all operations by the receiver'
                   % (' and pairs of' if deep else ''), operations, la),
    ]
