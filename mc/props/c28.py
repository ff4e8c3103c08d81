"""C28: merkle trees and block hashes, against the consensus definition"""
import itertools

from mc import core, ref, btc
from mc.props.c19 import mk_tx, mk_mutable, view, HASHES, U32, I32
from bitcoin.core import CBlock, CBlockHeader

LEVEL = 'model_checking'
ASSUMPTIONS = ['transaction ids are 32 bytes']
NID = [ref.sha256(b'id%d' % k) for k in range(4200)]


def patterns(n):
    """All ways in which n positions can be equal or different (restricted growth strings)"""
    def go(prefix, top):
        if len(prefix) == n:
            yield prefix
            return
        for c in range(top + 2):
            yield from go(prefix + (c,), max(top, c))
    return go((), -1)


def tree(ids):
    return [h for row in btc.merkle_rows(ids) for h in row]


def check_ids(ctx, ids):
    want = tree(ids)
    ctx.state(len(ids), want[-1])
    given = list(ids)
    for name, make in (('list', lambda: given), ('tuple', lambda: tuple(ids)), ('iterator', lambda: iter(list(ids))),
                       ('generator', lambda: (i for i in ids))):
        got = CBlock.build_merkle_tree_from_txids(make())
        ctx.eq(list(got), want, 'rows from a ' + name)
        ctx.step()
    ctx.eq(given, list(ids), "the caller's list is changed")


def ids(ctx, param):
    kind, arg = param
    if kind == 'patterns':
        n, first = arg
        for p in patterns(n):
            if n > 6 and p[1:3] != first:
                continue
            ctx.cur = ['pattern', p]
            check_ids(ctx, [NID[c] for c in p])
            ctx.outcome('equality patterns')
            ctx.trace([''.join(map(str, p))])
    else:
        for n in arg:
            ctx.cur = ['ids', n]
            check_ids(ctx, NID[:n])
            check_ids(ctx, [NID[0]] * n)
            check_ids(ctx, NID[:n - 1] + [NID[max(n - 2, 0)]])       # the last id stored twice
            check_ids(ctx, [NID[k % 2] for k in range(n)])
            ctx.outcome('long rows')
            ctx.trace([n])


def txs(n):
    point = lambda k: (NID[k], k)
    return [(1, ((point(k), b'\x51', 0xffffffff),), ((k, b'\x6a'),), k) for k in range(n)]


def check_block(ctx, b, header, vals, where):
    want = tree([btc.txid(t) for t in vals]) if vals else []
    ctx.eq(list(b.vMerkleTree), want, where + ': stored tree')
    ctx.eq(view(b), (header, tuple(vals)), where + ': contents')
    if vals:
        ctx.eq(b.calc_merkle_root(), want[-1], where + ': root')
        ctx.eq(b.vMerkleTree[-1], want[-1], where + ': last of the stored tree')
    else:
        ctx.raises(ValueError, b.calc_merkle_root, where + ': root of an empty block')
    h = ref.dsha(btc.header(header))
    ctx.eq(b.GetHash(), h, where + ': block hash')
    ctx.eq(b.GetHash(), h, where + ': block hash again')
    head = b.get_header()
    ctx.eq(view(head), header, where + ': header fields')
    ctx.eq(head.GetHash(), h, where + ': header hash')
    ctx.eq(head.serialize(), btc.header(header), where + ': header bytes')
    ctx.expect(type(head) is not type(b), where + ': the header is the block')
    ctx.step(8)


def counts(ctx, ns):
    """Blocks of n transactions, made and deserialized"""
    for n in ns:
        vals = txs(n)
        header = (2, HASHES[n % 3], HASHES[(n + 1) % 3], n, n + 1, n + 2)
        for how in ('immutable', 'mutable', 'tuple', 'iterator', 'generator', 'deserialized', 'copied'):
            ctx.cur = [n, how]
            ctx.state(n, how)
            if how == 'immutable':
                b = CBlock(*header, vtx=[mk_tx(t) for t in vals])
            elif how == 'tuple':
                b = CBlock(*header, vtx=tuple(mk_tx(t) for t in vals))
            elif how == 'iterator':
                b = CBlock(*header, vtx=iter([mk_tx(t) for t in vals]))
            elif how == 'generator':
                b = CBlock(*header, vtx=((mk_mutable if t[3] % 2 else mk_tx)(t) for t in vals))
            elif how == 'mutable':
                given = [mk_mutable(t) for t in vals]
                b = CBlock(*header, vtx=given)
                for t in given:                     # what becomes of them later is none of the block's business
                    t.nLockTime += 77
                    t.vout[0].nValue += 1
                del given[:]
            elif how == 'copied':
                a = CBlock(*header, vtx=[mk_tx(t) for t in vals])
                b = CBlock(*header, vtx=a.vtx)
            else:
                b = CBlock.deserialize(btc.block(header, vals))
            check_block(ctx, b, header, vals, how)
            ctx.trace([n, how])
            if n < 40:
                m = list(CBlock.build_merkle_tree_from_txs([mk_tx(t) for t in vals])) if n else []
                ctx.eq(m, tree([btc.txid(t) for t in vals]) if n else [], 'tree from transactions')
            ctx.outcome('blocks')


def repeats(ctx, ns):
    """All ways in which the transactions of a small block can be equal"""
    base = txs(9)
    real = [mk_tx(t) for t in base]
    for n in ns:
        for p in patterns(n):
            ctx.cur = ['repeated', p]
            vals = [base[c] for c in p]
            header = (1, HASHES[2], NID[0], 5, 6, 7)
            ctx.state(p)
            check_block(ctx, CBlock(*header, vtx=[real[c] for c in p]), header, vals, 'block')
            ctx.trace([p])
            ctx.outcome('equality patterns')


def long_repeats(ctx, ns):
    """Longer blocks, some of whose transactions are equal"""
    base = txs(max(ns))
    real = [mk_tx(t) for t in base]
    for n in ns:
        for name, pick in (('all', lambda k: 0), ('two', lambda k: k % 2), ('last', lambda k: min(k, n - 2)), ('ends', lambda k: k % (n - 1)),
                           ('pairs', lambda k: k // 2), ('halves', lambda k: k % ((n + 1) // 2)), ('one in the middle', lambda k: k if k != n // 2 else 1)):
            ctx.cur = ['repeated', n, name]
            at = [max(0, pick(k)) for k in range(n)]
            vals = [base[c] for c in at]
            header = (1, HASHES[2], NID[0], 5, 6, 7)
            ctx.state(n, name)
            check_block(ctx, CBlock(*header, vtx=[real[c] for c in at]), header, vals, 'block')
            want = tree([btc.txid(t) for t in vals])
            ctx.eq(list(CBlock.build_merkle_tree_from_txs([real[c] for c in at])), want, 'tree from transactions')
            ctx.eq(list(CBlock.build_merkle_tree_from_txs(tuple(mk_tx(t) for t in vals))), want, 'tree from other transactions')
            check_block(ctx, CBlock.deserialize(btc.block(header, vals)), header, vals, 'deserialized block')
            ctx.trace(ctx.cur)
            ctx.outcome('equal transactions')


OPS = {
    'hash': lambda b: b.GetHash(),
    'header': lambda b: b.get_header().GetHash(),
    'root': lambda b: b.calc_merkle_root() if len(b.vtx) else None,
    'serialize': lambda b: b.serialize(),
    'python hash': lambda b: hash(b),
    'txids': lambda b: tuple(t.GetHash() for t in b.vtx),
    'tree': lambda b: tuple(b.vMerkleTree),
    'difficulty': lambda b: b.difficulty,
}


def orders(ctx, param):
    """Every sequence of operations gives the same answers (hashes are computed once and kept)"""
    first, depth, how = param
    vals = txs(3)
    header = (2, HASHES[0], NID[1], 1231006505, 0x1d00ffff, 2083236893)
    ids = [btc.txid(t) for t in vals]
    want = {'hash': ref.dsha(btc.header(header)), 'header': ref.dsha(btc.header(header)), 'root': btc.merkle_root(ids),
            'serialize': btc.block(header, vals), 'txids': tuple(ids), 'tree': tuple(tree(ids)), 'difficulty': 1.0}
    for rest in itertools.product(OPS, repeat=depth - 1):
        ops = (first,) + rest
        ctx.cur = [how, ops]
        b = CBlock(*header, vtx=[mk_tx(t) for t in vals]) if how == 'made' else CBlock.deserialize(want['serialize'])
        prior = {}
        for op in ops:
            got = OPS[op](b)
            ctx.step()
            if op in want:
                ctx.eq(got, want[op], op)
            else:
                ctx.eq(got, prior.setdefault(op, got), op)
        ctx.state(how, frozenset(ops))
        ctx.trace([how, ops])
        ctx.outcome('sequences')


def headers(ctx, deep):
    """The block hash over each field's range, with any transactions"""
    vtxs = [[], txs(1), txs(2)]
    heads = [(v, HASHES[0], HASHES[1], 1, 2, 3) for v in I32] + [(2, a, b, 0, 0, 0) for a in HASHES for b in HASHES]
    heads += [(1, HASHES[2], HASHES[0]) + t for t in itertools.product(U32 if deep else U32[::3] + U32[-1:], repeat=3)]
    seen = {}
    for h in heads:
        ctx.cur = ['header', h]
        want = ref.dsha(btc.header(h))
        ctx.eq(CBlockHeader(*h).GetHash(), want, 'header hash')
        for vals in vtxs:
            b = CBlock(*h, vtx=[mk_tx(t) for t in vals])
            ctx.eq(b.GetHash(), want, 'block hash')
            ctx.eq(b.get_header().GetHash(), want, 'hash of the extracted header')
            ctx.eq(CBlock.deserialize(btc.block(h, vals)).GetHash(), want, 'hash of a deserialized block')
            ctx.step(3)
        ctx.expect(seen.setdefault(want, h) == h, 'two headers, one hash')
        ctx.state(h)
        ctx.outcome('headers')
        ctx.trace([h])


def spaces(tier):
    deep = tier == 'thorough'
    top = 10 if deep else 9
    shards = [('patterns', (n, None)) for n in range(1, 7)]
    shards += [('patterns', (n, f)) for n in range(7, top + 1) for f in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2))]
    long = list(range(1, 71)) + [127, 128, 129, 255, 256, 257] + ([600] + list(range(71, 200)) if deep else [])
    shards += [('long', long[k::8]) for k in range(8)]
    shards += [('long', [n]) for n in [511, 512, 513, 514, 515, 767, 769, 1000, 1001, 1022, 1023, 1024, 1025, 1026, 1027, 1537, 2047, 2048, 2049, 2050, 2051, 3073, 4095, 4096, 4097, 4099]]
    ns = list(range(0, 70 if not deep else 140)) + [127, 128, 129, 257]
    return [
        core.Space('trees', {'equality patterns of ids up to rows of': top, 'long rows': len(long), 'longest row': 4099}, ids, shards, disjoint=False),
        core.Space('blocks', {'transaction counts': len(ns), 'ways of making each': 7}, counts, [ns[k::8] for k in range(8)], disjoint=True),
        core.Space('repeats', {'equality patterns of transactions up to': 8 if deep else 7}, repeats,
                   [[n] for n in range(1, 9 if deep else 8)], disjoint=True),
        core.Space('longer repeats', {'transactions': '10 to 1100', 'ways to be equal': 7}, long_repeats,
                   [list(range(10 + k, 70, 8)) + [(99, 127, 128, 200, 255, 256, 300, 1100)[k]] for k in range(8)], disjoint=True),
        core.Space('orders', {'operations': len(OPS), 'sequences of length': 5 if deep else 4}, orders,
                   [(op, 5 if deep else 4, how) for op in OPS for how in ('made', 'deserialized')]),
        core.Space('headers', {'field values': 'boundary values of each, all triples of the counters'}, headers, [deep]),
    ]
