"""C14: seal witnesses: which verify, and against which digests"""
import itertools

from mc import core, ref, btc, pm
from mc.sealing import FORMS, POINTS, H1, H2, check, ways, verifies, witness, witness_ok, closes, flips
from mc.pm import M

LEVEL = 'model_checking'
ASSUMPTIONS = ['verify() alone is left open when the output it points at does not exist',
               'any exception other than the pruning error counts as a refusal']
DIGEST = bytes(range(100, 132))
OUT = (0, btc.commit_script(DIGEST, 'op_return'))


def tx_of(points, outs=(OUT,), version=1, lock=0):
    return (version, tuple((o, b'', 0xffffffff) for o in points), tuple(outs), lock)


def inputs(ctx, param):
    """All seals x inputs of a transaction x index: the input must exist and spend precisely the seal's outpoint"""
    points, n, first, every, only = param
    for rest in itertools.product(points, repeat=n - 1) if n else [()]:
        spent = ((first,) + rest) if n else ()
        t = tx_of(spent)
        for seal in POINTS if every else points:
            for i in list(range(n + 2)) + [255, 2 ** 32 - 1]:
                ctx.cur = [spent, seal, i]
                w = witness(seal, t, i, t, 0)
                ok = i < n and spent[i] == seal
                assert ok == witness_ok(w)
                check(ctx, w, lambda p: p.verify(), ok, 'verify', only)
                ctx.state(spent, seal, i)
                ctx.trace([spent, seal, i] if ok else None)


def far(n, bits=32):
    """The indices below n, and those that differ from them by a power of two, or by little from all ones"""
    return sorted({i for j in range(n + 1) for k in range(bits) for i in (j, j + (1 << k), 2 ** bits - 1 - j, (1 << k) - 1 - j, 2 ** bits - (1 << k) + j)
                   if 0 <= i < 2 ** bits})


def indices(ctx, param):
    """Input and output indices near every power of two"""
    n, = param
    t = tx_of([(H1, k) for k in range(n)], [(k, btc.commit_script(DIGEST, FORMS[k % 3])) for k in range(n)])
    for i in far(n):
        for seal in range(n):
            ctx.cur = [n, 'input', i, seal]
            w = witness((H1, seal), t, i, t, 0)
            check(ctx, w, lambda p: p.verify(), i == seal, 'verify:index')
            ctx.state(n, i, seal)
            ctx.trace()
        w = witness((H1, 0), t, 0, t, i)
        ctx.cur = [n, 'output', i]
        check(ctx, w, lambda p: p.verify_hash(DIGEST), i < n, 'verify-hash:index')
        ctx.trace([n, i])


def long(ctx, param):
    """Transactions with many inputs and outputs, of which one is the right one"""
    n, at = param
    t = tx_of([(H1, k) if k != at else (H2, 0) for k in range(n)], [(k, btc.commit_script(DIGEST if k == at else bytes(32), 'p2sh')) for k in range(n)])
    proto = witness((H2, 0), t, 0, t, 0).build()
    from proofchains.core.bitcoin import TxInProof, TxOutProof
    from proofchains.core.uniquebits.singleuseseal import BitcoinSealWitness
    tx, seal = proto.txinproof.txproof, proto.seal
    for i, o in [(i, at) for i in range(n + 1)] + [(at, o) for o in range(n)] + [(k, k) for k in range(n)]:
        p = BitcoinSealWitness(seal=seal, txinproof=TxInProof(i=i, txproof=tx), txoutproof=TxOutProof(i=o, txproof=tx))
        ctx.cur = [n, at, i, o]
        ctx.eq(verifies(p.verify), i == at, 'long:verify')
        ctx.eq(verifies(lambda: p.verify_hash(DIGEST)), o == at, 'long:verify-hash')
        ctx.eq(verifies(lambda: p.verify_hash(bytes(32))), o != at, 'long:verify-hash')
        ctx.state(n, at, i, o)
        ctx.step(3)
    ctx.trace([n, at])


def variants():
    """Transactions that differ from the first in one place"""
    base = (1, (((H1, 0), b'\x51', 5), ((H2, 1), b'', 0)), (OUT, (600, btc.commit_script(DIGEST, 'p2sh'))), 0)
    v, ins, outs, lock = base
    (o1, s1, q1), i2 = ins
    yield base
    for v_ in (2, -1, 0, 257, 1 << 24, -2 ** 31):
        yield (v_, ins, outs, lock)
    for lock_ in (1, 256, 1 << 31, 2 ** 32 - 1):
        yield (v, ins, outs, lock_)
    for s in (b'', b'\x52', b'\x51\x51', b'\0'):
        yield (v, ((o1, s, q1), i2), outs, lock)
    for q in (4, 5 + 256, 0x80000005):
        yield (v, ((o1, s1, q), i2), outs, lock)
    yield (v, ins, outs[:1], lock)
    yield (v, ins, outs + outs[:1], lock)
    yield (v, ins, outs[::-1], lock)
    yield (v, ins, ((1, outs[0][1]), outs[1]), lock)
    yield (v, ins, (outs[0], (601, outs[1][1])), lock)
    yield (v, ins, (outs[0], (600, outs[1][1] + b'\0')), lock)
    yield (v, ins[:1], outs, lock)
    yield (v, (), outs, lock)
    yield (v, ins, (), lock)
    yield (v, (), (), lock)
    yield (v, (((b'\0' * 32, 2 ** 32 - 1), b'\x51\x51', 5),), outs, lock)
    yield (v, ins[::-1], outs, lock)
    yield (v, ins * 2, outs, lock)
    yield (v, (ins[0], ins[0]), outs, lock)
    yield (v, ins + (((H2, 2), b'', 0),), outs, lock)
    yield (v, (ins[0], ((H2, 0), b'', 0)), outs, lock)
    yield (v, (ins[0], (i2[0], b'\0', 0)), outs, lock)


def same_tx(ctx, param):
    """The output must belong to the transaction whose input closes the seal; equal transactions are the same"""
    a, = param
    txs = list(variants())
    t = txs[a]
    for b, u in enumerate(txs):
        for i, o, share in itertools.product((0, 1), (0, 1), (True, False)):
            for seal in ((H1, 0), (H2, 1)):
                w = witness(seal, t, i, u, o, share=share)
                ctx.cur = [a, b, i, o, seal]
                want = witness_ok(w)
                if want is not None:
                    check(ctx, w, lambda p: p.verify(), want, 'verify-transaction')
                ctx.state(a, b, i, o, seal)
                ctx.trace([a, b, i, o])


def damaged(script, digest):
    """Scripts that are almost the committing one"""
    yield b''
    for k in range(len(script)):
        for x in (1, 0x80, script[k]):
            yield script[:k] + bytes([script[k] ^ x]) + script[k + 1:]
        yield script[:k] + script[k + 1:]
        yield script[:k]
        yield script[k:]
    for b in (0, 0x51, 0x6a, 0x87, 0xac, 0x75):
        yield script + bytes([b])
        yield bytes([b]) + script
    h = btc.hash160(digest)
    yield b'\x6a\x4c\x20' + digest
    yield b'\x6a\x4d\x20\x00' + digest
    yield b'\x6a\x4e\x20\x00\x00\x00' + digest
    yield b'\xa9\x4c\x14' + h + b'\x87'
    yield b'\x76\xa9\x4c\x14' + h + b'\x88\xac'
    yield b'\xa9\x14' + h + b'\x88'
    yield b'\xaa\x20' + ref.dsha(digest) + b'\x87'
    yield b'\xa8\x20' + ref.sha256(digest) + b'\x87'
    yield b'\x20' + digest
    yield b'\x20' + digest + b'\x6a'
    yield b'\x6a' + digest
    yield b'\x6a\x20' + digest[::-1]
    yield b'\x6a\x14' + h
    yield b'\x6a\x20' + ref.sha256(digest)
    yield b'\xa9\x14' + h[::-1] + b'\x87'
    yield b'\x76\xa9\x14' + h[::-1] + b'\x88\xac'
    yield b'\xa9\x14' + ref.sha256(digest)[:20] + b'\x87'
    yield b'\xa9\x14' + digest[:20] + b'\x87'
    yield b'\x76\xa9\x14' + digest[:20] + b'\x88\xac'
    yield b'\xa9\x20' + digest + b'\x87'
    yield b'\x76\xa9\x14' + h + b'\x88\xad'
    yield b'\x21\x02' + digest + b'\xac'


def scripts(ctx, param):
    """Outputs in exactly one of the forms close the seal over the digest; nothing else does"""
    digest, form, deep = param
    good = {btc.commit_script(digest, f) for f in FORMS}
    for s in [btc.commit_script(digest, form)] + list(damaged(btc.commit_script(digest, form), digest)):
        for value in (0, 600):
            t = tx_of([(H1, 0)], [(value, s)])
            w = witness((H1, 0), t, 0, t, 0)
            ctx.cur = [digest, s]
            assert closes(w, digest) == (s in good)
            check(ctx, w, lambda p: p.verify_hash(digest), s in good, 'verify-hash', None if deep else ('made', 'received'))
            ctx.state(s, value)
            ctx.trace([s.hex()])


def digests(ctx, param):
    """A witness verifies for no digest but its own"""
    form, digest = param
    t = tx_of([(H1, 0)], [(7, btc.commit_script(digest, form))])
    real, fake = witness((H1, 0), t, 0, t, 0), pm.m_fake(digest)
    for w in (real, fake):
        held = [make(lambda p: p.verify_hash(digest)) for name, make in ways(w)]
        others = [digest[:k] for k in range(32)] + [digest + digest[:k] for k in range(1, 34)] + list(flips(digest)) + \
            [b'\0' * 32, b'\xff' * 32, digest[::-1], ref.sha256(digest), btc.hash160(digest), btc.hash160(digest) + b'\0' * 12,
             digest[1:] + digest[:1]]
        for d in [digest] + others:
            ctx.cur = [w.kind.name, form, d]
            want = closes(w, d)
            for p in held:
                ctx.eq(verifies(lambda: p.verify_hash(d)), want, 'verify-hash:digest', digest=digest, other=d)
                ctx.step()
            ctx.state(w.kind.name, form, d)
            ctx.trace([w.kind.name, d])
    # a script that commits to something that is no digest, whatever its length
    for n in list(range(32)) + list(range(33, 80)) + [255, 256, 520]:
        d = bytes(n)
        t = tx_of([(H1, 0)], [(7, btc.commit_script(d, form))])
        ctx.cur = ['length', n]
        check(ctx, witness((H1, 0), t, 0, t, 0), lambda p: p.verify_hash(d), False, 'verify-hash:length')
        ctx.trace()


def outputs(ctx, param):
    """Only the output pointed at counts"""
    n, = param
    other = bytes(range(32))
    kinds = [btc.commit_script(DIGEST, f) for f in FORMS] + [btc.commit_script(other, 'op_return'), b'']
    for outs in itertools.product(kinds, repeat=n):
        t = tx_of([(H1, 0), (H2, 0)], [(k, s) for k, s in enumerate(outs)])
        for o in list(range(n + 2)) + [2 ** 32 - 1]:
            w = witness((H1, 0), t, 0, t, o)
            for d in (DIGEST, other):
                ctx.cur = [outs, o, d]
                check(ctx, w, lambda p: p.verify_hash(d), closes(w, d), 'verify-hash:output', ('made', 'used'))
            if o < n:
                check(ctx, w, lambda p: p.verify(), True, 'verify:output', ('made', 'used'))
            ctx.state(outs, o)
            ctx.trace([[s.hex() for s in outs], o])


def fake(ctx, param):
    """Fake seals accept the digest they committed to"""
    from proofchains.core.uniquebits.singleuseseal import FakeSealWitness, FakeSingleUseSeal
    for d in (DIGEST, b'\0' * 32, b'\xff' * 32):
        made = FakeSealWitness.from_hash(d)
        ctx.cur = [d]
        ctx.eq(made.hash, pm.m_fake(d).hash(), 'from-hash')
        ctx.eq(made.seal.committed_hash, d, 'from-hash:digest')
        for p in (made, made.prune(), FakeSealWitness(seal=FakeSingleUseSeal(committed_hash=d))):
            ctx.eq(verifies(p.verify), True, 'fake-verify')
            for e in [d] + list(flips(d)) + [d[:31], d + b'\0', b'']:
                ctx.eq(verifies(lambda: p.verify_hash(e)), e == d, 'fake-verify-hash')
                ctx.step()
                ctx.state(d, e)
        ctx.trace([d])


def spaces(tier):
    deep = tier == 'thorough'
    few = POINTS[:3]
    out = [core.Space('inputs', 'transactions of up to %d inputs over %d outpoints, every seal and index' % (3 if deep else 2, len(POINTS) if deep else len(POINTS)),
                      inputs, [((), 0, None, True, None)] + [(POINTS, 1, f, True, None) for f in POINTS] +
                      [(POINTS, 2, f, deep, None if deep else ('made', 'received')) for f in POINTS] +
                      [(POINTS[:6] if deep else few, 3, f, False, None) for f in (POINTS[:6] if deep else few)])]
    n = len(list(variants()))
    out.append(core.Space('same transaction', 'every pair of %d transactions that differ in one place' % n, same_tx, [(i,) for i in range(n)]))
    out.append(core.Space('scripts', 'every script one byte or one encoding away from a committing one', scripts,
                          [(d, f, deep) for d in (DIGEST, b'\0' * 32) + ((H1, H2, b'\xff' * 32) if deep else ()) for f in FORMS]))
    out.append(core.Space('digests', 'every digest one bit away, all lengths', digests,
                          [(f, d) for f in FORMS for d in (DIGEST,) + ((b'\0' * 32, b'\xff' * 32) if deep else ())]))
    out.append(core.Space('outputs', 'transactions of up to %d outputs of 5 kinds, every index' % (4 if deep else 3), outputs,
                          [(k,) for k in range(5 if deep else 4)]))
    out.append(core.Space('indices', 'indices near every power of two', indices, [(k,) for k in range(1, 6 if deep else 4)], disjoint=True))
    out.append(core.Space('long', 'transactions of up to %d inputs and outputs, every index' % (520 if deep else 260), long,
                          [(n, at) for n in (16, 130, 260) + ((520,) if deep else ()) for at in (0, 1, n // 2, n - 2, n - 1)], disjoint=True))
    out.append(core.Space('fake', 'fake seals', fake, [()]))
    return out
