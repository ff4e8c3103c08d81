"""C15: transactions made to close seals"""
import itertools

from mc import core, ref, btc, pm
from mc.sealing import FORMS, POINTS, H1, H2, verifies, flips
from bitcoin.core import CTransaction, COutPoint
from proofchains.core.bitcoin import TxProof, TxInProof, TxOutProof
from proofchains.core.uniquebits.singleuseseal import BitcoinSingleUseSeal, BitcoinSealWitness
from proofchains.uniquebits.singleuseseal import make_close_seal_tx_template

LEVEL = 'model_checking'
ASSUMPTIONS = ['digests have 32 bytes', 'the scripts, sequence numbers, version and lock time of the template are left open (it gets signed)']
DIGESTS = [bytes(range(100, 132)), b'\0' * 32, b'\xff' * 32, bytes(range(32))]


def seal(point, k=0):
    return BitcoinSingleUseSeal(outpoint=COutPoint(*point), nonce=bytes([k % 256]) * 16)


def template(ctx, points, digest, form, dust, seals=None):
    kw = {} if dust is None else {'dust': dust}
    if form is not None:
        kw['meth'] = form
    seals = [seal(o, k) for k, o in enumerate(points)] if seals is None else seals
    tx = make_close_seal_tx_template(digest, *seals, **kw)
    ctx.step()
    ctx.eq(isinstance(tx, CTransaction), True, 'type')
    ctx.eq([(i.prevout.hash, i.prevout.n) for i in tx.vin], list(points), 'inputs')
    value = 0 if form in (None, 'op_return') else 600 if dust is None else dust
    ctx.eq([(o.nValue, bytes(o.scriptPubKey)) for o in tx.vout], [(value, btc.commit_script(digest, form or 'op_return'))], 'outputs')
    # what goes over the wire is the same transaction
    again = CTransaction.deserialize(tx.serialize())
    ctx.eq([(i.prevout.hash, i.prevout.n) for i in again.vin], list(points), 'inputs-on-the-wire')
    ctx.eq([(o.nValue, bytes(o.scriptPubKey)) for o in again.vout], [(value, btc.commit_script(digest, form or 'op_return'))],
           'outputs-on-the-wire')
    return tx, seals


def witnesses(ctx, tx, seals, points, digest):
    """Witnesses for every seal x input verify exactly if the input spends the seal"""
    proof = TxProof(tx=tx)
    for k, s in enumerate(seals):
        for i in range(len(points)):
            w = BitcoinSealWitness(seal=s, txinproof=TxInProof(i=i, txproof=proof), txoutproof=TxOutProof(i=0, txproof=proof))
            ctx.eq(verifies(w.verify), points[i] == points[k], 'verify', seal=k, input=i)
            ctx.eq(verifies(lambda: w.verify_hash(digest)), True, 'verify-hash')
            r = BitcoinSealWitness.deserialize(w.serialize())
            ctx.eq(verifies(r.verify), points[i] == points[k], 'verify-received', seal=k, input=i)
            for d in DIGESTS:
                ctx.eq(verifies(lambda: r.verify_hash(d)), d == digest, 'verify-hash-other', digest=d)
            ctx.step(3)
            ctx.trace()


def templates(ctx, param):
    """Every list of seals, digest, form"""
    n, pool, digests, dusts, form = param
    for points in itertools.product(pool, repeat=n):
        for digest in digests:
            for dust in dusts:
                ctx.cur = [points, digest, form, dust]
                tx, seals = template(ctx, points, digest, form, dust)
                witnesses(ctx, tx, seals, points, digest)
                ctx.state(points, digest, form, dust)
                ctx.trace([points, form, dust])


def many(ctx, param):
    """Long lists of seals"""
    n, form = param
    points = [(ref.sha256(b'%d' % (k // 3)), k % 3 * 1000) for k in range(n)]
    ctx.cur = [n, form]
    tx, seals = template(ctx, points, DIGESTS[0], form, None)
    proof = TxProof(tx=tx)
    for k in sorted(set(list(range(min(n, 300))) + [n - 1])):
        for i in {k, (k + 1) % n, k // 3 * 3}:
            w = BitcoinSealWitness(seal=seals[k], txinproof=TxInProof(i=i, txproof=proof), txoutproof=TxOutProof(i=0, txproof=proof))
            ctx.eq(verifies(w.verify), k == i, 'verify', seal=k, input=i)
            ctx.step()
            ctx.state(n, k, i)
    ctx.trace([n, form])


def values(ctx, param):
    """Every requested value, every digest bit"""
    form, = param
    for dust in (0, 1, 546, 599, 600, 601, 2 ** 31, 2 ** 32, 21 * 10 ** 14):
        ctx.cur = [form, dust]
        template(ctx, [(H1, 0), (H2, 1)], DIGESTS[0], form, dust)
        ctx.state(form, dust)
    for d in flips(DIGESTS[3]):
        ctx.cur = [form, d]
        tx, seals = template(ctx, [(H1, 0)], d, form, None)
        proof = TxProof(tx=tx)
        w = BitcoinSealWitness(seal=seals[0], txinproof=TxInProof(i=0, txproof=proof), txoutproof=TxOutProof(i=0, txproof=proof))
        ctx.eq(verifies(lambda: w.verify_hash(d)), True, 'verify-hash')
        ctx.eq(verifies(lambda: w.verify_hash(DIGESTS[3])), False, 'verify-hash-flipped')
        ctx.state(form, d)
        ctx.trace([form, d])
    tx, seals = template(ctx, [(H1, 0)], DIGESTS[3], form, None)
    proof = TxProof(tx=tx)
    w = BitcoinSealWitness(seal=seals[0], txinproof=TxInProof(i=0, txproof=proof), txoutproof=TxOutProof(i=0, txproof=proof))
    for d in list(flips(DIGESTS[3])) + [DIGESTS[3][:k] for k in range(32)] + [DIGESTS[3] + b'\0']:
        ctx.cur = ['other', form, d]
        ctx.eq(verifies(lambda: w.verify_hash(d)), False, 'verify-hash-other')
        ctx.step()
        ctx.trace()


def every_byte(ctx, param):
    """Digests with every byte value at every place, and runs of one value at either end"""
    form, part = param
    for at in range(part, 32, 4):
        for x in range(256):
            for base in (DIGESTS[0], bytes(32), b'\xff' * 32):
                for d in (base[:at] + bytes([x]) + base[at + 1:], base[:at] + bytes([x]) * (32 - at), bytes([x]) * at + base[at:]):
                    ctx.cur = [form, d]
                    if ctx.state(form, d):
                        template(ctx, [(H1, 0)], d, form, None)
        ctx.trace([form, at])


def held(ctx, param):
    """Seals held pruned or received close the same way; earlier templates stay as they were"""
    points = [(H1, 0), (H2, 1), (H1, 0)]
    made = []
    for form in FORMS:
        for how in itertools.product(range(3), repeat=3):
            seals = [seal(o, k) for k, o in enumerate(points)]
            seals = [(s, s.prune(), BitcoinSingleUseSeal.deserialize(s.serialize()))[h] for s, h in zip(seals, how)]
            ctx.cur = [form, how]
            tx, _ = template(ctx, points, DIGESTS[0], form, None, seals)
            made.append((tx, tx.serialize()))
            witnesses(ctx, tx, seals, points, DIGESTS[0])
            ctx.state(form, how)
            ctx.trace([form, how])
    for tx, wire in made:
        ctx.eq(tx.serialize(), wire, 'earlier-template')


def spaces(tier):
    deep = tier == 'thorough'
    shards = []
    for form in (None,) + FORMS:
        for n in range(0, 5 if deep else 4):
            pool = POINTS if n < 3 else POINTS[:6] if n == 3 and deep else POINTS[:3]
            shards.append((n, pool, DIGESTS if n < 2 else DIGESTS[:1] if not deep else DIGESTS[:2], (None, 1000), form))
    return [core.Space('templates', 'every list of up to %d seals over %d outpoints, with repetitions, in every form' %
                       (4 if deep else 3, len(POINTS)), templates, shards[::-1]),
            core.Space('many', 'lists of up to %d seals' % (2000 if deep else 300), many,
                       [(n, f) for f in FORMS for n in ((252, 253, 254, 300) + ((2000,) if deep else ()))]),
            core.Space('values', 'values and digests', values, [(f,) for f in FORMS]),
            core.Space('every byte', 'digests with every value at every place, and runs of it', every_byte, [(f, k) for f in FORMS for k in range(4)]),
            core.Space('held', 'seals made, pruned or received', held, [()])]
