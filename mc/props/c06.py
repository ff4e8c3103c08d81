"""C06: pruned copies - explicit-state search over what has been revealed, on the real code

State: the set of proofs whose contents were accessed. Transition: one query on the pruned copy, re-executed on a
fresh copy along the history that reached the state. After each, the answer, the hash and the exact serialization
are those of the reference model.
"""
import itertools

from mc import core, ref, pm
from proofmarshal.bits import Bits
from proofmarshal.proof import Proof

LEVEL = 'model_checking'
ASSUMPTIONS = ['which nodes a tree or range operation visits internally is only bounded (path to the item, and for '
               'ranges the siblings of that path), not fixed']


def walk(p, path):
    for n in path:
        p = getattr(p, n)
    return p


def queries(m):
    """All queries on a model: (name, path, nodes revealed)"""
    qs = []
    for path, n, _ in m.attrs():
        qs.append(('get', path + (n,), pm.prefixes(path)))
    for path, sub in m.nodes():
        up = pm.prefixes(path[:-1]) if path else set()
        for what in ('hash', 'data_hash', 'eq', 'ne', 'key', 'repr', 'serialize', 'missing', 'is_pruned', 'set', 'del', 'class'):
            if what != 'repr' or not sub.kind.name.startswith('Range'):      # ranges print their values
                qs.append((what, path, up))
        if sub.kind.name == 'TxProof':
            qs.append(('txhash', path, up))
        if sub.kind.name in ('TxInProof', 'TxOutProof'):
            qs.append(('txin' if sub.kind.name == 'TxInProof' else 'txout', path, pm.prefixes(path) | {path + ('txproof',)}))
        if sub.kind.name in ('GuLeaf', 'GuInner'):
            qs.append(('guseal', path, pm.prefixes(path) | {path + ('witness',)}))
        if sub.kind.name == 'GuLeaf':
            qs.append(('guprefix', path, pm.prefixes(path)))
    return qs


def ask(ctx, q, orig, p, m, before, key='answer'):
    """Put one query to the pruned copy p; compare with the model. Returns the nodes revealed from then on"""
    what, path, reveals = q
    after = before | reveals
    if what == 'get':
        node = m.at(path[:-1])
        v = node.vals[path[-1]]
        got = walk(p, path)
        if isinstance(v, pm.M):
            ctx.eq(isinstance(got, Proof), True, key + ':type', query=q)
            ctx.eq(type(got), type(walk(orig, path)), key + ':type', query=q)
        else:
            codec = dict(node.kind.fields)[path[-1]]
            ctx.eq(got, codec.real(v), key + ':value', query=q)
        return after
    sub = m.at(path)
    got = walk(p, path)
    whole = walk(orig, path)
    if what == 'hash':
        ctx.eq(got.hash, sub.hash(), key + ':hash', query=q)
    elif what == 'data_hash':
        ctx.eq(got.data_hash, sub.data_hash(), key + ':hash', query=q)
    elif what == 'eq':
        ctx.eq((got == whole, whole == got, got == got), (True, True, True), key + ':equality', query=q)
        ctx.eq((got == OTHER, OTHER == got), (False, False), key + ':equality', query=q)
    elif what == 'ne':
        ctx.eq((got != whole, whole != got), (False, False), key + ':equality', query=q)
    elif what == 'key':
        ctx.eq({whole: 1}.get(got), 1, key + ':as-key', query=q)
    elif what == 'repr':
        ctx.eq(repr(got), repr(whole), key + ':repr', query=q)
    elif what == 'serialize':
        ctx.eq(got.serialize(), sub.wire(after, path), key + ':serialization', query=q)
    elif what == 'missing':
        ctx.raises(AttributeError, lambda: got.no_such_attribute, key + ':missing', query=q)
        ctx.eq(hasattr(got, 'nosuch'), False, key + ':missing', query=q)
    elif what == 'is_pruned':
        ctx.eq(bool(got.is_fully_pruned), path not in after, key + ':is_fully_pruned', query=q)
        if path not in after:
            ctx.eq(bool(got.is_pruned), True, key + ':is_pruned', query=q)
    elif what == 'set':
        def f():
            got.newattr = 1
        ctx.raises(TypeError, f, key + ':set', query=q)
        for n, _ in sub.kind.fields:
            def f():
                setattr(got, n, 1)
            ctx.raises(TypeError, f, key + ':set', query=q)
    elif what == 'del':
        for n, _ in sub.kind.fields:
            def f():
                delattr(got, n)
            ctx.raises(TypeError, f, key + ':del', query=q)
    elif what == 'class':
        ctx.eq(type(got), type(whole), key + ':type', query=q)
    elif what == 'txhash':
        ctx.eq(got.txhash, sub.data_hash(), key + ':txhash', query=q)
    elif what in ('txin', 'txout'):
        i = sub.vals['i']
        t = sub.vals['txproof'].vals['tx']
        want = t[1 if what == 'txin' else 2][i]
        ctx.eq(getattr(got, what).serialize(), (pm.btc.txin if what == 'txin' else pm.btc.txout)(want), key + ':' + what, query=q)
    elif what == 'guseal':
        ctx.eq(got.seal.hash, pm.seal_of(sub).hash(), key + ':seal', query=q)
    elif what == 'guprefix':
        ctx.eq(got.prefix, Bits.from_bytes(sub.vals['key'].to_bytes(2, 'big')), key + ':prefix', query=q)
    else:
        raise ValueError(what)
    return after


OTHER = pm.M('Flat', n=99, b=b'other').build()
SHAPES = pm.shapes()


def check_copy(ctx, p, m, revealed, **w):
    ctx.eq(p.serialize(), m.wire(revealed), 'serialization', revealed=sorted(revealed), **w)
    ctx.eq(p.hash, m.hash(), 'hash', **w)
    ctx.eq(bool(p.is_fully_pruned), () not in revealed, 'is_fully_pruned', **w)


def search(ctx, param):
    """Breadth first over all revealed sets (up to a number), each query from each"""
    name, limit, shard, n = param
    m = SHAPES[name]
    orig = m.build()
    qs = queries(m)
    seen = {frozenset(): []}
    frontier = [frozenset()]
    full = m.wire()
    while frontier:
        nxt = []
        for st in frontier:
            hist = seen[st]
            for qi, q in enumerate(qs):
                if (qi + len(hist)) % n != shard and st | q[2] in seen:
                    continue
                ctx.cur = [name, hist, q]
                p = orig.prune()
                r = set()
                for h in hist:
                    r = ask(ctx, h, orig, p, m, r)
                r = ask(ctx, q, orig, p, m, r)
                ctx.step()
                check_copy(ctx, p, m, r, history=hist, query=q)
                # asking again and serializing again changes nothing
                r = ask(ctx, q, orig, p, m, r, 'again')
                check_copy(ctx, p, m, r, history=hist, query=q, again=True)
                ctx.trace([name, hist, q])
                k = frozenset(r)
                if k not in seen and len(seen) < limit:
                    seen[k] = hist + [q]
                    nxt.append(k)
        ctx.eq(orig.serialize(), full, 'original-changed')
        ctx.eq(bool(orig.is_pruned), False, 'original-changed')
        frontier = nxt
    for st in seen:
        ctx.state(name, st)


def sequences(ctx, param):
    """All query sequences to a depth without merging; two copies of one original interleaved"""
    name, depth, shard, n = param
    m = SHAPES[name]
    qs = [q for q in queries(m) if q[0] in ('get', 'hash', 'serialize', 'eq', 'txin', 'guseal')]
    for c, seq in enumerate(itertools.product(qs, repeat=depth)):
        if c % n != shard:
            continue
        orig = m.build()
        for who in ((0,) * depth, tuple(i % 2 for i in range(depth)), (1,) + (0,) * (depth - 1)):
            ctx.cur = [name, seq, who]
            copies = [orig.prune(), orig.prune()]
            rev = [set(), set()]
            for q, w in zip(seq, who):
                rev[w] = ask(ctx, q, orig, copies[w], m, rev[w])
                ctx.step()
            for p, r in zip(copies, rev):
                check_copy(ctx, p, m, r, sequence=seq, copies=who)
            if who[0] != who[-1] or depth == 1:
                # a later copy of the same original starts afresh
                check_copy(ctx, orig.prune(), m, set(), sequence=seq)
        ctx.eq(orig.serialize(), m.wire(), 'original-changed', sequence=seq)
        ctx.state(name, seq)
        ctx.trace([name, seq])


def held(ctx, param):
    """Sub-proofs obtained early and used late count as used; taking the hash first or last makes no difference"""
    name, = param
    m = SHAPES[name]
    attrs = [(path, n) for path, n, _ in m.attrs()]
    nodes = [path for path, _ in m.nodes()]
    for take in nodes:
        for hash_first in (False, True):
            for sub_hash in (False, True):
                for uses in itertools.product(attrs, repeat=1 if len(attrs) > 12 else 2):
                    orig = m.build()
                    if sub_hash:
                        orig.hash
                    p = orig.prune()
                    if hash_first:
                        ctx.eq(p.hash, m.hash(), 'hash')
                    h = walk(p, take)
                    r = set(pm.prefixes(take[:-1])) if take else set()
                    ctx.cur = [name, take, hash_first, sub_hash, uses]
                    check_copy(ctx, p, m, r)
                    for path, n in uses:
                        if path[:len(take)] == take:
                            walk(h, path[len(take):] + (n,))      # through the handle
                        else:
                            walk(p, path + (n,))
                        r |= pm.prefixes(path)
                        ctx.step()
                    check_copy(ctx, p, m, r)
                    ctx.eq(h.serialize(), m.at(take).wire(r, take), 'handle')
                    ctx.eq(orig.serialize(), m.wire(), 'original-changed')
                    ctx.trace([name, take, uses])
        ctx.state(name, take)


def parse(m, b):
    """Which nodes of m a serialization reveals; None if it is not a serialization of m at all"""
    revealed = set()

    def rec(sub, path, pos):
        var = b'' if sub.kind.variant is None else ref.leb(sub.kind.variant)
        if b[pos:pos + 1] == b'\xff':
            e = b'\xff' + var + sub.data_hash()
            return pos + len(e) if b[pos:pos + len(e)] == e else None
        e = b'\0' + var
        if b[pos:pos + len(e)] != e:
            return None
        pos += len(e)
        revealed.add(path)
        for n, c in sub.kind.fields:
            v = sub.vals[n]
            e = c.prefix(v) if isinstance(v, pm.M) else c.wire(v)
            if b[pos:pos + len(e)] != e:
                return None
            pos += len(e)
            if isinstance(v, pm.M):
                pos = rec(v, path + (n,), pos)
                if pos is None:
                    return None
        return pos
    end = rec(m, (), 0)
    return revealed if end == len(b) else None


def path_to(m, want):
    """Path to the leaf for which want(leaf model, index of the leaf) holds, and its siblings"""
    found = []
    count = [0]

    def rec(sub, path):
        if sub.kind.name.endswith('Inner'):
            rec(sub.vals['left'], path + ('left',))
            rec(sub.vals['right'], path + ('right',))
        elif sub.kind.name.endswith('Leaf'):
            if want(sub, count[0]):
                found.append(path)
            count[0] += 1
    rec(m, ())
    return found[0] if found else None


def tree_ops(ctx, param):
    """Lookups in all trees over some keys reveal the path to the key and nothing else; other queries stay right"""
    keys, size = param
    for sub in itertools.combinations(keys, size):
        items = {k: pm.m_flat(k[0], k) for k in sub}
        m = pm.m_tree(items)
        orig = m.build()
        full = m.wire()
        for k in keys:
            for k2 in [None] + list(keys[::2]):
                p = orig.prune()
                allowed, needed = set(), set()
                for kk in (k, k2):
                    if kk is None:
                        continue
                    ctx.cur = [sub, k, k2]
                    bits = ref.bits_of(kk, pm.NBITS)
                    if kk in items:
                        v = p[kk]
                        ctx.eq(v.n, kk[0], 'tree:lookup')
                        path = path_to(m, lambda leaf, i: leaf.vals['key'] == kk)
                        needed |= pm.prefixes(path + ('value',))
                        allowed |= needed
                    else:
                        ctx.raises(KeyError, lambda: p[kk], 'tree:lookup-absent')
                        # the descent may stop at any node on the way
                        node, path = m, ()
                        while True:
                            allowed |= {path}
                            if not node.kind.name.endswith('Inner') or bits[:len(node.vals['prefix'])] != node.vals['prefix']:
                                break
                            step = 'right' if bits[len(node.vals['prefix'])] else 'left'
                            node, path = node.vals[step], path + (step,)
                    ctx.step()
                got = parse(m, p.serialize())
                ctx.expect(got is not None, 'tree:serialization', 'not a serialization of the tree')
                if got is not None:
                    ctx.expect(needed <= got, 'tree:missing', 'not revealed: %r' % sorted(needed - got))
                    ctx.expect(got <= allowed, 'tree:too-much', 'revealed without need: %r' % sorted(got - allowed))
                ctx.eq(p.hash, m.hash(), 'tree:hash')
                ctx.trace([sub, k, k2])
        # every other operation answers the same on the pruned copy as on the original
        for k in keys:
            p = orig.prune()
            ctx.cur = [sub, 'put', k]
            ctx.eq(p.put(k, pm.m_flat(77).build()).hash, pm.m_tree({**items, k: pm.m_flat(77)}).hash(), 'tree:put')
            got = parse(m, p.serialize())
            ctx.expect(got is not None and not any(path_[-1:] == ('value',) for path_ in got), 'tree:put-reveals',
                       'putting a value revealed other values', revealed=got)
            p = orig.prune()
            if k in items:
                ctx.eq(p.remove(k).hash, pm.m_tree({a: b for a, b in items.items() if a != k}).hash(), 'tree:remove')
            else:
                ctx.raises(KeyError, lambda: p.remove(k), 'tree:remove-absent')
            ctx.step(2)
        p = orig.prune()
        ctx.eq(len(p), len(items), 'tree:len')
        ctx.eq([v.n for v in p.values()], [k[0] for k in p.keys()], 'tree:values')
        ctx.eq(sorted(p), sorted(items), 'tree:iter')
        ctx.eq(p.serialize(), full if items else m.wire(set()), 'tree:all-used')
        ctx.eq(orig.serialize(), full, 'original-changed')
        ctx.state(sub)


def picked(n, all_to):
    """All of 0..n-1, or some around the edges of mountains"""
    if n <= all_to:
        return list(range(n))
    edges = {0, 1, 2, n // 2, n - 1, n - 2, n - 3}
    at = 0
    for k in range(n.bit_length(), -1, -1):
        if n >> k & 1:
            at += 1 << k
            edges |= {at - 1, at, at - (1 << k) // 2, at - (1 << k) // 2 - 1}
    return sorted(i for i in edges if 0 <= i < n)


def range_ops(ctx, param):
    ns, = param
    for n in ns:
        some = picked(n, 48)
        vals = [pm.m_flat(i % 256, bytes([i % 7])) for i in range(n)]
        m = pm.m_range(vals)
        orig = m.build()
        full = m.wire()
        for i in [k - n for k in some] + some:
            for j in [None, 0, n // 2, n - 1]:
                p = orig.prune()
                allowed, needed = set(), set()
                for k in (i, j):
                    if k is None:
                        continue
                    ctx.cur = [n, i, j]
                    ctx.eq(p[k].n, (k % n) % 256, 'range:index')
                    path = path_to(m, lambda leaf, c: c == k % n)
                    needed |= pm.prefixes(path + ('value',))
                    allowed |= needed
                    for q in pm.prefixes(path):
                        if q:
                            sib = q[:-1] + ('left' if q[-1] == 'right' else 'right',)
                            if m.at(sib).kind.name == 'RangeInner':
                                allowed.add(sib)
                    ctx.step()
                got = parse(m, p.serialize())
                ctx.expect(got is not None, 'range:serialization', 'not a serialization of the range')
                if got is not None:
                    ctx.expect(needed <= got, 'range:missing', 'not revealed: %r' % sorted(needed - got))
                    ctx.expect(got <= allowed, 'range:too-much', 'revealed without need: %r' % sorted(got - allowed))
                ctx.trace([n, i, j])
        p = orig.prune()
        ctx.eq(len(p), n, 'range:len')
        got = parse(m, p.serialize())
        ctx.expect(got is not None and len(got) <= 1, 'range:len-reveals', 'the length alone reveals %r' % got)
        ctx.raises(IndexError, lambda: p[n], 'range:index-out-of-range')
        ctx.raises(IndexError, lambda: p[-n - 1], 'range:index-out-of-range')
        ctx.eq(orig.prune().append(pm.m_flat(9).build()).hash, pm.m_range(vals + [pm.m_flat(9)]).hash(), 'range:append')
        for a in some + [n]:
            for b in (a, a + 1, (a + n) // 2 + 1, n):
                ctx.cur = [n, 'slice', a, b]
                ctx.eq(orig.prune()[a:b].hash, pm.m_range(vals[a:b]).hash(), 'range:slice', slice=[a, b])
                ctx.step()
        p = orig.prune()
        ctx.eq([v.n for v in p], [i % 256 for i in range(n)], 'range:iter')
        ctx.eq(p.serialize(), full, 'range:all-used')
        p = orig.prune()
        ctx.eq([v.n for v in reversed(p)], [i % 256 for i in range(n)][::-1], 'range:reversed')
        ctx.eq(p.serialize(), full, 'range:all-used')
        ctx.eq(orig.serialize(), full, 'original-changed')
        ctx.state(n)


def chained(ctx, param):
    """A pruned copy of a pruned copy starts fully pruned and tracks its own use"""
    name, = param
    m = SHAPES[name]
    qs = [q for q in queries(m) if q[0] in ('get', 'hash', 'serialize', 'txin', 'guseal', 'is_pruned')]
    for q1 in qs:
        for q2 in qs:
            ctx.cur = [name, q1, q2]
            orig = m.build()
            p = orig.prune()
            r1 = ask(ctx, q1, orig, p, m, set())
            pp = p.prune()
            check_copy(ctx, pp, m, set(), q1=q1)
            check_copy(ctx, p, m, r1, q1=q1)
            r2 = ask(ctx, q2, orig, pp, m, set())
            check_copy(ctx, pp, m, r2, q1=q1, q2=q2)
            check_copy(ctx, p, m, r1 | r2, q1=q1, q2=q2)
            ctx.eq(orig.serialize(), m.wire(), 'original-changed')
            # what is done with the first later on shows in the first only
            copies, r3 = [orig.prune()], set()
            for q in (q1, q2):
                copies.append(copies[-1].prune())
                r3 = ask(ctx, q, orig, copies[0], m, r3)
            check_copy(ctx, copies[0], m, r3, q1=q1, q2=q2, used='the first')
            for c in copies[1:]:
                check_copy(ctx, c, m, set(), q1=q1, q2=q2, used='the first')
            check_copy(ctx, orig.prune(), m, set(), q1=q1, q2=q2, used='the first')
            # a sub-proof pruned by itself
            sub = walk(copies[0], q2[1] if q2[0] != 'get' else q2[1][:-1])
            subm = m.at(q2[1] if q2[0] != 'get' else q2[1][:-1])
            check_copy(ctx, sub.prune(), subm, set(), q1=q1, q2=q2, used='sub-proof')
            ctx.step(5)
            ctx.trace([name, q1, q2])
        ctx.state(name, q1[:2])


def made_of(ctx, param):
    """Proofs made of whole and of pruned ones: pruned exactly if a part is, whatever its place; nothing else differs"""
    name, = param
    m = SHAPES[name]
    whole = m.build()
    subs = [n for n, _ in m.kind.fields if isinstance(m.vals[n], pm.M)]
    for states in itertools.product(('whole', 'pruned', 'used', 'again'), repeat=len(subs)):
        ctx.cur = [name, states]
        kw = {n: getattr(whole, n) for n, _ in m.kind.fields}
        revealed = {()}
        for n, st in zip(subs, states):
            sub = m.vals[n]
            below = {(n,) + p for p, _ in sub.nodes()}
            if st == 'whole':
                revealed |= below
                continue
            kw[n] = kw[n].prune()
            if st == 'again':
                kw[n] = kw[n].prune()
            elif st == 'used' and sub.kind.fields:
                getattr(kw[n], sub.kind.fields[0][0])
                revealed.add((n,))
        made = Proof.__new__(type(whole), **kw)
        if 'used' not in states or 'pruned' in states or 'again' in states:
            ctx.eq(bool(made.is_pruned), any(st != 'whole' for st in states), 'made-of:is_pruned')
        ctx.eq(bool(made.is_fully_pruned), False, 'made-of:is_fully_pruned')
        ctx.eq((made.hash, made.serialize()), (m.hash(), m.wire(revealed)), 'made-of:serialization')
        back = type(whole).deserialize(made.serialize())
        ctx.eq((bool(back.is_pruned), bool(back.is_fully_pruned)), (len(revealed) < len(list(m.nodes())), False), 'made-of:received')
        ctx.eq(back.serialize(), m.wire(revealed), 'made-of:received')
        ctx.step()
        ctx.trace([name, states])
    ctx.state(name)


def asked_before(ctx, param):
    """What is used of a pruned copy is revealed, whatever was asked of the original or of other copies before"""
    from mc.props import c07
    what, arg, depth = param
    far = c07.Elsewhere()
    try:
        builder, ops = c07.CASES[what](arg)
        orig = builder()
        orig.hash
        want = [c07.answer(fn, orig) for _, fn in ops]
        other = orig.prune()
        for _, fn in ops:
            c07.answer(fn, other)
        for used in itertools.product(range(len(ops)), repeat=depth):
            ctx.cur = [what, arg, [ops[i][0] for i in used]]
            p = orig.prune()
            got = [c07.answer(ops[i][1], p) for i in used]
            ctx.eq(got, [want[i] for i in used], 'asked-before:answer')
            fresh = far.ask(what, arg, None, used)
            ctx.eq(('answers', got, p.hash, p.serialize()), fresh, 'asked-before:revealed')
            ctx.step(depth)
            ctx.state(what, arg, p.serialize())
            ctx.trace(ctx.cur)
    finally:
        far.close()


def larger(ctx, param):
    fn, arg = param
    fn(ctx, arg)


def spaces(tier):
    deep = tier == 'thorough'
    big = ('guinner', 'tree3', 'range3', 'guleaf', 'guinner-fake', 'witness', 'witness-apart')
    se = [(n, (4000 if deep else 500), s, k) for n in SHAPES for k in ((8,) if n in big else (1,)) for s in range(k)]
    sq = [(n, 2, s, 4 if n in big else 1) for n in SHAPES for s in range(4 if n in big else 1) if deep or n != 'guinner']
    small = ('flat', 'pair', 'pair-same', 'varB', 'varD', 'union-flat', 'union-pair', 'union-pair2', 'txinproof', 'fakewitness', 'range1', 'unused', 'tree1')
    sq += [(n, 3, s, 8) for n in small for s in range(8)]
    keys = [bytes([i << 3]) for i in (0, 1, 3, 8, 16, 17, 30, 31)]
    ab = [('tree', sub, 1) for size in range(6) for sub in itertools.combinations(keys[1:8:2] + keys[2:3], size)] + [('range', n, 1) for n in range(12 if deep else 8)]
    ab += [('witness', (f, sh, b), 1) for f in ('op_return', 'p2sh', 'p2pkh') for sh in (True, False) for b in (0, 2)]
    ab += [('map', k, 2) for k in ('leaf', 'leaf-fake', 'unused', 'inner', 'inner-fake', 'inner-deep')]
    return [
        core.Space('asked before', 'operations on trees, ranges, witnesses and maps after all operations on the original and another copy, '
                   'compared with a process where nothing else was done', asked_before, ab),
        core.Space('all revealed sets', 'every query from every reachable revealed set (at most %d sets) of %d proof shapes'
                   % (4000 if deep else 500, len(SHAPES)), search, se),
        core.Space('all sequences', 'all sequences of 2 (3 for small shapes) queries, on one and on two interleaved copies', sequences, sq),
        core.Space('handles', 'every sub-proof taken first and used later', held, [(n,) for n in SHAPES if len(list(SHAPES[n].nodes())) > 1]),
        core.Space('trees', 'all subsets of 8 keys, one and two lookups, updates, iteration, on pruned copies', tree_ops,
                   [(keys[:8 if deep else 7], s) for s in range(0, 9 if deep else 8)]),
        core.Space('larger', 'a tree of all 32 keys, or of 11; ranges of up to %d values' % (515 if deep else 300), larger,
                   [(tree_ops, ([bytes([i << 3]) for i in range(32)], 32)), (tree_ops, ([bytes([i << 3]) for i in range(0, 32, 3)], 11)),
                    (tree_ops, ([bytes([i << 3]) for i in range(0, 32, 3)], 10))] +
                   [(range_ops, ([n],)) for n in (48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300) + ((400, 511, 512, 513, 515) if deep else ())]),
        core.Space('ranges', 'all lengths to %d, one and two lookups, slices, iteration, on pruned copies' % (40 if deep else 20),
                   range_ops, [(range(s, 41 if deep else 21, 8),) for s in range(1, 9)]),
        core.Space('made of', 'proofs made of whole, pruned, partly used and twice pruned parts', made_of,
                   [(n,) for n, m in SHAPES.items() if any(isinstance(m.vals[f], pm.M) for f, _ in m.kind.fields)]),
        core.Space('chained', 'pruned copies of pruned copies', chained, [(n,) for n in SHAPES]),
    ]
