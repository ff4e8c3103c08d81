"""C17: transaction, input, output and outpoint proofs"""
import itertools

from mc import core, ref, btc, pm
from mc.sealing import H1, H2, OUTS, ways, check, used, verifies
from mc.pm import M, PAD
from bitcoin.core import CTransaction, CMutableTransaction, b2lx
from proofchains.core.bitcoin import TxProof, TxInProof, TxOutProof, OutPointProof
from proofmarshal.proof import PrunedError

LEVEL = 'model_checking'
ASSUMPTIONS = ['any exception other than the pruning error counts as a refusal']


def xor(a):
    return bytes(x ^ y for x, y in zip(a, PAD))


def family():
    """Transactions of all small shapes"""
    ins = [((H1, 0), b'', 0xffffffff), ((H2, 7), b'\x51' * 300, 0)]
    for nin in range(4):
        for nout in range(4):
            for sel in range(2):
                vin = tuple(ins[(k + sel) % 2] for k in range(nin))
                vout = tuple(OUTS[(k + sel) % len(OUTS)] for k in range(nout))
                for version, lock in ((1, 0), (-2 ** 31, 2 ** 32 - 1)):
                    yield (version, vin, vout, lock)
    yield (1, tuple(((H1, k), b'', k) for k in range(300)), (OUTS[0],), 0)
    yield (2, (ins[0],), tuple((k, b'') for k in range(300)), 5)


def hashes(ctx, param):
    part, parts = param
    known = {}
    for t in list(family())[part::parts]:
        m = M('TxProof', tx=t)
        txid = btc.txid(t)
        ctx.cur = [t[0], len(t[1]), len(t[2]), t[3]]
        for name, make in ways(m):
            for first in ('hash', 'txhash', 'tx', 'data_hash', 'serialize'):
                p = make(lambda p: p.tx)
                if first == 'serialize':
                    p.serialize()
                else:
                    getattr(p, first)
                ctx.eq(p.hash, xor(txid), 'hash', held=name, first=first)
                ctx.eq(p.txhash, txid, 'txhash', held=name, first=first)
                ctx.eq(p.tx.serialize(), btc.tx(t), 'tx', held=name, first=first)
                ctx.eq(p.tx.GetHash(), txid, 'tx-hash', held=name)
                ctx.step(3)
        p = m.build().prune()
        ctx.eq(p.txhash, txid, 'pruned-txhash')
        ctx.eq(p.is_fully_pruned, True, 'txhash-reveals-nothing')
        r = TxProof.deserialize(p.serialize())
        ctx.eq(r.txhash, txid, 'received-pruned-txhash')
        ctx.eq(r.hash, xor(txid), 'received-pruned-hash')
        ctx.eq(r == m.build(), True, 'received-pruned-eq')
        ctx.raises(PrunedError, lambda: r.tx, 'received-pruned-tx')
        ctx.eq(b2lx(r.txhash), txid[::-1].hex(), 'displayed')
        known.setdefault(txid, t)
        ctx.expect(known[txid] == t, 'distinct')
        ctx.state(txid)
        ctx.trace(ctx.cur)


def digests(ctx, param):
    """Proofs received fully pruned, with txids and hashes of all beginnings and ends"""
    for n in range(33):
        for fill in (0, 1, 0x80, 0xff):
            for rest in (0x5a, 0, 0xff):
                for d in (bytes([fill]) * n + bytes([rest]) * (32 - n), bytes([rest]) * (32 - n) + bytes([fill]) * n):
                    for txid in (d, xor(d)):
                        ctx.cur = txid
                        p = TxProof.deserialize(b'\xff' + txid)
                        ctx.eq(p.txhash, txid, 'digest:txhash')
                        ctx.eq(p.hash, xor(txid), 'digest:hash')
                        ctx.eq(p.serialize(), b'\xff' + txid, 'digest:serialization')
                        ctx.eq(TxProof.deserialize(b'\xff' + txid).prune().txhash, txid, 'digest:txhash')
                        q = TxInProof.deserialize(b'\0\5\xff' + txid)
                        ctx.eq((q.i, q.txproof.txhash), (5, txid), 'digest:part')
                        ctx.step(5)
                        ctx.state(txid)
    ctx.trace()


def many(ctx, param):
    """Transactions with ids of all first and last bytes; transactions of all orders of size"""
    part, nparts = param
    ends = set()
    for i in range(part, 6000, nparts):
        t = (1, (((H1, i), b'', 0xffffffff),), ((i, b''),), 0)
        p, txid = TxProof(tx=pm.real_tx(t)), btc.txid(t)
        ctx.cur = i
        ctx.eq(p.txhash, txid, 'many:txhash')
        ctx.eq(p.hash, xor(txid), 'many:hash')
        ctx.eq((p.prune().txhash, TxProof.deserialize(p.prune().serialize()).txhash), (txid, txid), 'many:pruned')
        ends.add((0, txid[0] == 0, xor(txid)[0] == 0, txid[-1] == 0, xor(txid)[-1] == 0))
        ctx.state(txid)
        ctx.step(4)
    for k in range(4, 21):
        for size in (2 ** k - 1, 2 ** k, 10 ** 5, 10 ** 6 - 1, 10 ** 6, 10 ** 6 + 1)[:2 if k < 20 else 6]:
            if (size + k) % nparts != part:
                continue
            t = (1, (((H1, 0), bytes([k]) * size, 0),), ((5, b'\x51'),), 7)
            p, txid = TxProof(tx=pm.real_tx(t)), btc.txid(t)
            ctx.cur = [size]
            ctx.eq(p.txhash, txid, 'size:txhash')
            ctx.eq(p.hash, xor(txid), 'size:hash')
            r = TxProof.deserialize(p.serialize())
            ctx.eq((r.txhash, r.hash, r == p, r.tx.GetHash()), (txid, xor(txid), True, txid), 'size:received')
            ctx.eq((p.prune().txhash, TxProof.deserialize(p.prune().serialize()).txhash), (txid, txid), 'size:pruned')
            ctx.step(5)
            ctx.state(txid)
    ctx.outcome('kinds of ids: %d' % len(ends))
    ctx.trace()


def parts(ctx, param):
    """Every index: gives the part at that place of the transaction and verifies only if it exists"""
    part, nparts = param
    for t in list(family())[part::nparts]:
        real = pm.real_tx(t)
        tp = M('TxProof', tx=t)
        n_in, n_out = len(t[1]), len(t[2])
        for kind, n, attr, want in (('TxInProof', n_in, 'txin', [btc.txin(i) for i in t[1]]),
                                    ('TxOutProof', n_out, 'txout', [btc.txout(o) for o in t[2]])):
            idx = list(range(n + 2)) + [n_in, n_out, 255, 256, 2 ** 31, 2 ** 32 - 1]
            for i in sorted(set(idx)) if n < 10 else (0, 1, 252, 253, 298, 299, 300, 301, 2 ** 32 - 1):
                ctx.cur = [kind, t[0], n_in, n_out, i]
                m = M(kind, i=i, txproof=tp)
                check(ctx, m, lambda p: p.verify(), i < n, kind + ':verify')
                for name, make in ways(m):
                    p = make(lambda p: getattr(p, attr))
                    if i < n:
                        ctx.eq(getattr(p, attr).serialize(), want[i], kind + ':' + attr, held=name)
                    else:
                        ctx.expect(not verifies(lambda: getattr(p, attr)), kind + ':no-such-part', 'gave a part that does not exist', held=name)
                    ctx.eq(p.i, i, kind + ':index', held=name)
                    ctx.eq(p.txproof.txhash, btc.txid(t), kind + ':txhash', held=name)
                    ctx.eq(p.hash, m.hash(), kind + ':hash', held=name)
                    ctx.step(3)
                # as received by somebody given no more than was asked for
                if i < n:
                    ctx.eq(getattr(used(m, lambda p: p.verify()), attr).serialize(), want[i], kind + ':received')
                ctx.state(kind, btc.txid(t), i)
                ctx.trace(ctx.cur)
        for n in (0, 1, 2 ** 32 - 1):
            m = M('OutPointProof', txproof=tp, n=n)
            for name, make in ways(m):
                p = make(lambda p: p.n)
                ctx.eq((p.n, p.txproof.txhash, p.hash), (n, btc.txid(t), m.hash()), 'OutPointProof', held=name)
                ctx.step()
        ctx.eq(real.serialize(), btc.tx(t), 'transaction-unchanged')


def pairs(ctx, param):
    """Equality of transaction proofs is that of the transactions"""
    part, nparts = param
    ts = list(family())
    proofs = [M('TxProof', tx=t).build() for t in ts]
    for a in range(len(ts))[part::nparts]:
        for b in range(len(ts)):
            ctx.cur = [a, b]
            for q in (proofs[b], proofs[b].prune()):
                ctx.eq(proofs[a] == q, ts[a] == ts[b], 'equality')
                ctx.eq(proofs[a].prune() != q, ts[a] != ts[b], 'inequality')
            ctx.step(4)
            ctx.state(a, b)
        ctx.trace([a])


def refused(ctx, param):
    """Indexes that no transaction can have, and things that aren't transactions"""
    p = M('TxProof', tx=pm.TXS[2]).build()
    for cls in (TxInProof, TxOutProof):
        for i in (-1, -2, 2 ** 32, 2 ** 64):
            ctx.raises(ValueError, lambda: cls(i=i, txproof=p), 'index-range')
        for i in (None, '0', 0.0, b'\0', True):
            ctx.raises(TypeError, lambda: cls(i=i, txproof=p), 'index-type')
        for bad in (None, pm.real_tx(pm.TXS[0]), p.hash):
            ctx.raises(TypeError, lambda: cls(i=0, txproof=bad), 'proof-type')
        ctx.step(10)
    for bad in (None, b'', pm.real_tx(pm.TXS[0]).serialize(), p):
        ctx.raises(TypeError, lambda: TxProof(tx=bad), 'tx-type')
    ctx.state(1)
    ctx.trace()


def spaces(tier):
    deep = tier == 'thorough'
    n = len(list(family()))
    return [core.Space('hashes', '%d transactions of all shapes up to 3 inputs and 3 outputs, held in every way' % n, hashes, [(k, 8) for k in range(8)]),
            core.Space('digests', 'fully pruned proofs with runs of a byte of every length at either end of the txid or hash', digests, [()]),
            core.Space('many', '6000 transactions, and one of every size around the powers of two up to a million bytes', many, [(k, 8) for k in range(8)]),
            core.Space('parts', 'every input and output index of those, and beyond', parts, [(k, 24) for k in range(24)]),
            core.Space('pairs', 'every pair of those', pairs, [(k, 8) for k in range(8)]),
            core.Space('refused', 'wrong types and ranges', refused, [()])]
