"""What C14-C17 share: transactions that close seals, ways of holding a proof, and the rules of verification"""
from mc import btc, pm
from proofmarshal.proof import PrunedError

FORMS = ('op_return', 'p2sh', 'p2pkh')
H1, H2 = b'\x11' * 32, bytes(range(32))
POINTS = [(H1, 0), (H1, 1), (H2, 0), (H2, 1), (H1, 256), (H1, 1 << 24), (H1, 2 ** 32 - 1), (b'\0' * 32, 2 ** 32 - 1), (b'\0' * 32, 0),
          (b'\x10' + H1[1:], 0), (H1[:-1] + b'\x10', 0), (H1[:-1] + b'\x91', 1), (H2[::-1], 0)]


def verifies(fn):
    """Whether a verification succeeds"""
    try:
        fn()
        return True
    except PrunedError:
        raise
    except Exception:
        return False


def ways(m):
    """Ways of holding the proof a model describes: made, pruned, received, received by whoever used it pruned"""
    return [('made', lambda use: m.build()),
            ('pruned', lambda use: m.build().prune()),
            ('received', lambda use: m.kind.root.deserialize(m.wire())),
            ('used', lambda use: used(m, use))]


def used(m, use):
    p = m.build().prune()
    verifies(lambda: use(p))
    return m.kind.root.deserialize(p.serialize())


def check(ctx, m, use, want, key, only=None, **w):
    """Whether use(proof) succeeds is as it should be, however the proof is held"""
    for name, make in ways(m):
        if only and name not in only:
            continue
        p = make(use)
        ctx.eq(verifies(lambda: use(p)), want, key, held=name, **w)
        ctx.step()
        ctx.outcome('accepted' if want else 'refused')


def witness_ok(w):
    """The rule for witness.verify(); None where it is left open"""
    if w.kind.name == 'FakeWitness':
        return True
    seal, i, o = w.vals['seal'], w.vals['txinproof'], w.vals['txoutproof']
    t, u = i.vals['txproof'].vals['tx'], o.vals['txproof'].vals['tx']
    if not (i.vals['i'] < len(t[1]) and t[1][i.vals['i']][0] == seal.vals['outpoint'] and t == u):
        return False
    return True if o.vals['i'] < len(u[2]) else None


def closes(w, digest):
    """The rule for witness.verify_hash(digest)"""
    if w.kind.name == 'FakeWitness':
        return w.vals['seal'].vals['committed_hash'] == digest
    o = w.vals['txoutproof']
    outs = o.vals['txproof'].vals['tx'][2]
    return len(digest) == 32 and o.vals['i'] < len(outs) and outs[o.vals['i']][1] in [btc.commit_script(digest, f) for f in FORMS]


def witness(outpoint, tx, i, tx2, o, nonce=b'\x07' * 16, share=True):
    tp = pm.M('TxProof', tx=tx)
    return pm.M('Witness', seal=pm.M('Seal', outpoint=outpoint, nonce=nonce), txinproof=pm.M('TxInProof', i=i, txproof=tp),
                txoutproof=pm.M('TxOutProof', i=o, txproof=tp if share and tx == tx2 else pm.M('TxProof', tx=tx2)))


def flips(b, every=1):
    for k in range(0, 8 * len(b), every):
        c = bytearray(b)
        c[k // 8] ^= 1 << k % 8
        yield bytes(c)


OUTS = [(0, b'\x6a\x20' + bytes(32)), (21 * 10 ** 14, b''), (-1, b'\x51' * 300)]
