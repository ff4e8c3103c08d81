"""C24: signature-checking scripts accept exactly the valid signatures.

Oracle: the reference script machine (mc.script.verify) with signatures decided
by mc.ec (secp256k1 in plain integers) over the digest mc.sighash defines.
Signatures are made by the reference signer. Enumerated: script forms (direct,
by public key hash, verify variants, code separators everywhere, P2SH) x hash
types x inputs x transactions x every way a signature can be wrong or the
transaction changed after signing; every m-of-n with every tuple of signatures
from a pool; every relation of an input to the transaction it spends.
"""
import itertools

from mc import core, btc, ec, ref, script as S
from mc.sighash import sighash
from mc.props.c19 import mk_tx, mk_mutable, view
import bitcoin.core.script as script_module
from bitcoin.core import ValidationError
from bitcoin.core.script import CScript
from bitcoin.core.scripteval import VerifyScript, VerifySignature, SCRIPT_VERIFY_P2SH

SECRETS = [ref.sha256(b'key %d' % k) for k in range(5)]
COMPRESSED = [True, False, True, True, False]
KEYS = [ec.encode(ec.public(s), c) for s, c in zip(SECRETS, COMPRESSED)]
H = [bytes([k]) * 32 for k in range(1, 9)]
TXS = [
    (1, (((H[0], 0), b'\x51', 0xffffffff), ((H[1], 1), b'', 5)), ((50, b'\x6a'), (7, b'\x51')), 9),
    (2, (((H[0], 0), b'', 0xfffffffe), ((H[0], 1), b'\1\2', 0), ((H[2], 3), b'', 1)), ((1, b''),), 0),
]
DUP, H160, EQUAL, EQUALV, CS, CSV, CMS, CMSV, SEP, NOT = (bytes([S.CODE[n]]) for n in
    ('DUP', 'HASH160', 'EQUAL', 'EQUALVERIFY', 'CHECKSIG', 'CHECKSIGVERIFY', 'CHECKMULTISIG', 'CHECKMULTISIGVERIFY', 'CODESEPARATOR', 'NOT'))


def checker(tx, idx):
    def check(sig, key, code):
        if not sig:
            return False
        return ec.verify(key, sighash(code, tx, idx, sig[-1])[0], sig[:-1])
    return check


def make_sig(k, code, tx, idx, hashtype, extra=0):
    return ec.der(*ec.sign(SECRETS[k], sighash(code, tx, idx, hashtype)[0], extra)) + bytes([hashtype])


def accepted(fn):
    try:
        fn()
        return True
    except ValidationError:
        return False


def expected(sig, pub, tx, idx, p2sh):
    try:
        S.verify(sig, pub, p2sh, checker(tx, idx))
        return True
    except S.Fail:
        return False


FLAGS = (SCRIPT_VERIFY_P2SH, script_module.SCRIPT_VERIFY_P2SH)


def judge(ctx, sig, pub, tx, idx, real=None, modes=(True, False)):
    real = real or mk_tx(tx)
    for p2sh in modes:
        want = expected(sig, pub, tx, idx, p2sh)
        # the flag of either module that exports it
        flag = FLAGS[len(sig) % 2]
        got = accepted(lambda: VerifyScript(CScript(sig), CScript(pub), real, idx, flags=(flag,) if p2sh else ()))
        ctx.eq(got, want, 'verify-script', sig=sig, pub=pub, p2sh=p2sh)
        ctx.outcome('accepted' if want else 'rejected')
        ctx.step()
    ctx.state(sig, pub, tx, idx)
    ctx.trace()
    ctx.eq(view(real), tx, 'transaction-changed')
    return want


# -- scripts that need one signature -------------------------------------------------------------------------------------

def form(name, k):
    """(scriptPubKey, code that is signed, function from a signature to the scriptSig)"""
    key = KEYS[k]
    pk = btc.push(key)
    if name == 'direct':
        pub = pk + CS
    elif name == 'direct, PUSHDATA':
        pub = b'\x4c' + bytes([len(key)]) + key + CS
    elif name == 'verify':
        pub = pk + CSV + b'\x51'
    elif name == 'not':
        pub = pk + CS + NOT
    elif name == 'separator first':
        pub = SEP + pk + CS
        return pub, pk + CS, btc.push
    elif name == 'separator middle':
        pub = pk + SEP + CS
        return pub, CS, btc.push
    elif name == 'separator last':
        pub = pk + CS + SEP
        return pub, pk + CS, btc.push
    elif name == 'separators':
        pub = SEP + b'\x51' + SEP + b'\x69' + pk + SEP + CS + SEP
        return pub, CS, btc.push
    elif name == 'separator not executed':
        pub = b'\0\x63' + SEP + b'\x68' + pk + CS
        return pub, b'\0\x63\x68' + pk + CS, btc.push
    elif name == 'hash':
        pub = DUP + H160 + btc.push(btc.hash160(key)) + EQUALV + CS
        return pub, pub, lambda s: btc.push(s) + pk
    elif name == 'hash of another':
        pub = DUP + H160 + btc.push(btc.hash160(KEYS[(k + 1) % 5])) + EQUALV + CS
        return pub, pub, lambda s: btc.push(s) + pk
    elif name == 'twice':
        pub = b'\x6e' + CSV + CS
        return pub, pub, lambda s: btc.push(s) + pk
    elif name.startswith('p2sh '):
        pub, code, sig = form(name[5:], k)
        return H160 + btc.push(btc.hash160(pub)) + EQUAL, code, lambda s: sig(s) + btc.push(pub)
    return pub, pub, btc.push


FORMS = ['direct', 'direct, PUSHDATA', 'verify', 'not', 'separator first', 'separator middle', 'separator last', 'separators', 'separator not executed', 'hash', 'hash of another', 'twice']
FORMS += ['p2sh ' + f for f in ('direct', 'hash', 'separator middle', 'not')]
HASHTYPES = [0, 1, 2, 3, 4, 0x1f, 0x21, 0x23, 0x42, 0x43, 0x80, 0x81, 0x82, 0x83, 0x84, 0xc2, 0xe3, 0xff]


def single(ctx, param):
    name, k, hashtypes = param
    pub, code, to_sig = form(name, k)
    for tx in TXS:
        real = mk_tx(tx)
        for idx in range(len(tx[1])):
            for h in hashtypes:
                good = make_sig(k, code, tx, idx, h)
                r, s = ec.undend(good[:-1])
                sigs = {'valid': good, 'other nonce': make_sig(k, code, tx, idx, h, 1), 'high s': ec.der(r, ec.N - s) + good[-1:],
                        'empty': b'', 'other key': make_sig((k + 1) % 5, code, tx, idx, h), 'other type': good[:-1] + bytes([h ^ 1]),
                        'other base type': good[:-1] + bytes([h ^ 0x80]), 'other input': make_sig(k, code, tx, (idx + 1) % len(tx[1]), h),
                        'other code': make_sig(k, code + b'\x51', tx, idx, h), 'pub': make_sig(k, pub, tx, idx, h), 'no type': good[:-1],
                        'r+1': ec.der((r + 1) % ec.N, s) + good[-1:], 's+1': ec.der(r, (s + 1) % ec.N) + good[-1:], 'swapped': ec.der(s, r) + good[-1:],
                        'zero r': ec.der(0, s) + good[-1:], 'zero s': ec.der(r, 0) + good[-1:], 'r+n': ec.der(r + ec.N, s) + good[-1:],
                        'other tx': make_sig(k, code, TXS[tx is TXS[0]], 0, h), 'digest one': ec.der(*ec.sign(SECRETS[k], b'\1' + bytes(31))) + bytes([h]),
                        'digest zero': ec.der(*ec.sign(SECRETS[k], bytes(32))) + bytes([h])}
                for what, sig in sigs.items():
                    ctx.cur = [name, k, tx[0], idx, h, what]
                    ok = judge(ctx, to_sig(sig), pub, tx, idx, real)
                for tail in (b'', b'\x51', b'\0'):
                    ctx.cur = [name, k, tx[0], idx, h, 'extra elements']
                    judge(ctx, tail + to_sig(good), pub, tx, idx, real)
                    judge(ctx, to_sig(good) + tail, pub, tx, idx, real)
                judge(ctx, b'', pub, tx, idx, real)
                judge(ctx, btc.push(good), pub, tx, idx, real)
                judge(ctx, to_sig(good) + b'\x61', pub, tx, idx, real)
    ctx.trace([name, k])


def changes(tx):
    """The transaction with each single thing changed"""
    v, vin, vout, lock = tx
    yield 'version', (v + 1, vin, vout, lock)
    yield 'lock time', (v, vin, vout, lock + 1)
    for k, ((h, n), s, q) in enumerate(vin):
        put = lambda i: (v, vin[:k] + (i,) + vin[k + 1:], vout, lock)
        yield 'in %d hash' % k, put(((H[6], n), s, q))
        yield 'in %d n' % k, put(((h, n + 1), s, q))
        yield 'in %d script' % k, put(((h, n), s + b'\x52', q))
        yield 'in %d sequence' % k, put(((h, n), s, q ^ 1))
        yield 'in %d gone' % k, (v, vin[:k] + vin[k + 1:], vout, lock)
    for k, (n, s) in enumerate(vout):
        put = lambda o: (v, vin, vout[:k] + (o,) + vout[k + 1:], lock)
        yield 'out %d value' % k, put((n + 1, s))
        yield 'out %d script' % k, put((n, s + b'\x51'))
        yield 'out %d gone' % k, (v, vin, vout[:k] + vout[k + 1:], lock)
    yield 'in added', (v, vin + (((H[7], 7), b'', 3),), vout, lock)
    yield 'out added', (v, vin, vout + ((3, b''),), lock)
    yield 'ins swapped', (v, vin[1:] + vin[:1], vout, lock)
    yield 'outs swapped', (v, vin, vout[1:] + vout[:1], lock)


def changed(ctx, param):
    """A signature stays valid under exactly the changes its hash type leaves open"""
    h, pairs = param
    pub, code, to_sig = form('hash', 0)
    for tx in TXS:
        for idx in range(len(tx[1])):
            sig = to_sig(make_sig(0, code, tx, idx, h))
            todo = [((a,), t) for a, t in changes(tx)]
            if pairs:
                todo += [((a, b), u) for (a,), t in todo for b, u in changes(t)]
            for what, t in todo:
                for j in {idx, idx - 1} if 'gone' in ' '.join(what) else {idx}:
                    if 0 <= j < len(t[1]):
                        ctx.cur = [h, idx, j, what]
                        judge(ctx, sig, pub, t, j, modes=(True,))
                        judge(ctx, sig, pub, t, j, mk_mutable(t), modes=(False,))
    ctx.trace([h])


# -- multisig -------------------------------------------------------------------------------------------------------------

def multisig(ctx, param):
    m, n, dup, wrap = param
    names = list(range(n)) if not dup else [0] + list(range(n - 1))
    body = S.push_num(m) + b''.join(btc.push(KEYS[k]) for k in names) + S.push_num(n)
    pub = {'plain': body + CMS, 'verify': body + CMSV + b'\x51', 'not': body + CMS + NOT, 'p2sh': body + CMS, 'separator': SEP + body + SEP + CMS}[wrap]
    code = CMS if wrap == 'separator' else pub
    tx, idx = TXS[1], 1
    real = mk_tx(tx)
    pool = [make_sig(k, code, tx, idx, (1, 2, 0x83)[k % 3]) for k in sorted(set(names))]
    pool += [make_sig(4 if 4 not in names else 3, code, tx, idx, 1), b'', make_sig(0, code, tx, 0, 1)]
    if wrap == 'p2sh':
        spk = H160 + btc.push(btc.hash160(pub)) + EQUAL
        tail = btc.push(pub)
    else:
        spk, tail = pub, b''
    for sigs in itertools.product(range(len(pool)), repeat=m):
        for dummy in ((b'\0', b'\x51') if m < 3 else (b'\0',)):
            sig = dummy + b''.join(btc.push(pool[s]) for s in sigs) + tail
            ctx.cur = [wrap, m, n, 'same key twice' if dup else '', sigs]
            judge(ctx, sig, spk, tx, idx, real)
    for sig in (b''.join(btc.push(pool[0]) for _ in range(m)) + tail, b'\0' + b''.join(btc.push(pool[0]) for _ in range(m - 1)) + tail, b'\0' * 2 + b''.join(btc.push(pool[min(k, n - 1)]) for k in range(m)) + tail):
        judge(ctx, sig, spk, tx, idx, real)
    ctx.trace([wrap, m, n])


def embedded(ctx, param):
    """Signatures that occur in the script they sign are not part of what is signed"""
    op, = param
    tx, idx = TXS[0], 1
    real = mk_tx(tx)
    key = btc.push(KEYS[0])
    for h in (1, 2, 3, 0x81):
        for before, after in itertools.product((b'', b'\x51\x75', b'\x61'), repeat=2):
            for nsig in (1, 2):
                core_ = key + CS if op == 'sig' else b'\x51' + key + b'\x51' + CMS
                code = before + b'\x75' * nsig + after + core_
                sig = make_sig(0, code, tx, idx, h)
                for how in (btc.push(sig), b'\x4c' + bytes([len(sig)]) + sig):
                    pub = before + how * nsig + b'\x75' * nsig + after + core_
                    ctx.cur = [op, h, before, after, how[:1]]
                    judge(ctx, (b'\0' if op != 'sig' else b'') + btc.push(sig), pub, tx, idx, real)
                    pub = before + how * nsig + SEP + b'\x75' * nsig + after + core_
                    judge(ctx, (b'\0' if op != 'sig' else b'') + btc.push(sig), pub, tx, idx, real)
                    pub = before + how * nsig + b'\x75' * nsig + after + core_ + b'\x51' + how + b'\x75\x75'
                    judge(ctx, (b'\0' if op != 'sig' else b'') + btc.push(sig), pub, tx, idx, real)
    ctx.trace([op])


def embedded_many(ctx, param):
    """m-of-n scripts that contain any of their signatures, any number of times, and other signatures besides"""
    m, n, length = param
    tx, idx = TXS[0], 1
    real = mk_tx(tx)
    check = S.push_num(m) + b''.join(btc.push(KEYS[k]) for k in range(n)) + S.push_num(n)
    foreign = btc.push(make_sig(4, b'', tx, idx, 1))
    combos = list(itertools.combinations(range(n), m))
    for ks in combos[:1] + combos[1:][-1:]:
        for h, other, tail in itertools.product((1, 0x82), (b'', foreign), (False, True)):
            def script(pushes):
                return other + b''.join(pushes) + b'\x75' * (length + bool(other)) + check + (CMSV + b'\x51' + b''.join(pushes) + b'\x75' * length if tail else CMS)
            sigs = [make_sig(k, script([]), tx, idx, h) for k in ks]
            for where in itertools.product(range(m), repeat=length):
                pub = script([btc.push(sigs[w]) for w in where])
                for used in itertools.product(range(m), repeat=m):
                    ctx.cur = [m, n, ks, h, bool(other), tail, where, used]
                    judge(ctx, b'\0' + b''.join(btc.push(sigs[u]) for u in used), pub, tx, idx, real)
    ctx.trace([m, n, length])


def below(ctx, param):
    """Elements below the ones a script needs: all of them, and nothing else, reach the (inner) script"""
    ns, = param
    tx, idx = TXS[0], 0
    real = mk_tx(tx)
    num = lambda v: btc.push(S.num(v)) if not 0 <= v <= 16 else S.push_num(v)
    for n in ns:
        sig = b''.join(btc.push(S.num(1000 + k)) for k in range(n))
        inner = []
        for want in sorted({n, n - 1, n + 1, n + 2}):
            inner.append(b'\x74' + num(want) + b'\x9c')                                  # as deep as
        for k in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
            for v in (1000 + n - 1 - k, 1000 + n - k, 1000 + k):
                inner.append(num(k) + b'\x79' + num(v) + b'\x9c')                        # what lies there
        inner.append(b'\x75' * (n - 1) if 1 < n < 202 else b'\x51')
        for p in inner:
            ctx.cur = [n, p]
            judge(ctx, sig, p, tx, idx, real)
            judge(ctx, sig + btc.push(p), H160 + btc.push(btc.hash160(p)) + EQUAL, tx, idx, real)
            judge(ctx, sig + btc.push(p), b'\x75' + p, tx, idx, real)
        ctx.trace([n])


def final(ctx, param):
    """What a script leaves on top decides, by itself and through P2SH"""
    lens, = param
    tx, idx = TXS[0], 0
    real = mk_tx(tx)
    for n in lens:
        for k in [None] + sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
            for b in ((1, 0x7f, 0x80, 0x81) if k is not None else (0,)):
                e = bytearray(n)
                if k is not None:
                    e[k] = b
                e = btc.push(bytes(e))
                ctx.cur = [n, k, b]
                judge(ctx, e, b'', tx, idx, real)
                judge(ctx, b'', e, tx, idx, real)
                judge(ctx, e, b'\x51\x75', tx, idx, real)
                judge(ctx, b'\0', e, tx, idx, real)
                judge(ctx, b'\x51', e, tx, idx, real)
                for inner in (b'\x61', b'', b'\x51\x75') + ((e,) if len(e) <= 520 else ()):
                    spk = H160 + btc.push(btc.hash160(inner)) + EQUAL
                    judge(ctx, e + btc.push(inner), spk, tx, idx, real)
                    judge(ctx, b'\0' + btc.push(inner), spk, tx, idx, real)
    ctx.trace([lens[0]])


def odd_keys():
    """The same key in every encoding, and what is close to one but is none"""
    x, y = ec.public(SECRETS[0])
    xb, yb = x.to_bytes(32, 'big'), y.to_bytes(32, 'big')
    off = next(v for v in range(1, 99) if ec.decode(b'\2' + v.to_bytes(32, 'big')) is None)
    return [ec.encode((x, y)), ec.encode((x, y), False), bytes([6 + y % 2]) + xb + yb, bytes([7 - y % 2]) + xb + yb, bytes([3 - y % 2]) + xb, b'\5' + xb, b'\4' + xb,
            bytes([2 + y % 2]) + xb[:-1], bytes([2 + y % 2]) + xb + b'\0', b'\4' + xb + yb[:-1] + bytes([yb[-1] ^ 1]), b'', b'\0', b'\2' + off.to_bytes(32, 'big'),
            b'\2' + (ec.P + 1).to_bytes(32, 'big'), KEYS[1]]


def two_keys(ctx, param):
    """Two signatures checked one after the other, with keys of every encoding and none: neither has to do with the other"""
    part, parts = param
    tx, idx = TXS[1], 2
    real = mk_tx(tx)
    keys = odd_keys()
    for c, (a, b) in enumerate(itertools.product(keys, repeat=2)):
        if c % parts != part:
            continue
        single_ = btc.push(a) + CS + b'\x7c' + btc.push(b) + CS + b'\x93'
        both = btc.push(a) + btc.push(b) + b'\x52' + CMS
        for pub, heads in [(single_ + bytes([0x50 + n if n else 0]) + b'\x9c', (b'',)) for n in range(3)] + [(btc.push(a) + CSV + btc.push(b) + CS, (b'',))] + \
                [(b'\x51' + both, (b'\0',)), (b'\x52' + both, (b'\0',))]:
            sigs = [make_sig(k, pub, tx, idx, 1) for k in (0, 1)]
            for used in itertools.product((0, 1), repeat=1 if pub[:1] == b'\x51' and pub[-1:] == CMS else 2):
                ctx.cur = [a, b, pub[-3:], used]
                judge(ctx, heads[0] + b''.join(btc.push(sigs[u]) for u in used), pub, tx, idx, real, (False,))
    ctx.trace([part])


def numbers(ctx, param):
    """Signatures whose numbers are of any size, by the keys that fit them"""
    part, parts, deep = param
    xs, ss = ec.numbers()
    tx, idx = TXS[0], 1
    real = mk_tx(tx)
    for c, (x, s) in enumerate(itertools.product(xs, ss)):
        if c % parts != part or not (deep or c % 2 == 0 or xs.index(x) < 2 or s < 3):
            continue
        for h in (1, 0x83):
            for code, before, between in ((CS, b'', b''), (CMS, b'\0', b'\x51')):
                point = ec.signed_by(x, s, sighash(code, tx, idx, h)[0])
                if point is None:
                    continue
                key = between + btc.push(ec.encode(point, c % 3 > 0)) + between
                for what, r_, s_ in (('fits', x % ec.N, s), ('negated', x % ec.N, ec.N - s), ('other', x % ec.N, s % (ec.N - 1) + 1)):
                    ctx.cur = [x, s, h, what]
                    want = judge(ctx, before + btc.push(ec.der(r_, s_) + bytes([h])) + key, code, tx, idx, real, (False,))
                    if what != 'other' and not want:
                        raise AssertionError('reference')
    ctx.trace([part])


# -- spending -------------------------------------------------------------------------------------------------------------

def spending(ctx, param):
    """Every relation of an input to the transaction it is said to spend"""
    mutable, kind = param
    mk = mk_mutable if mutable else mk_tx
    pubs = [form('direct', 0)[0], form('hash', 1)[0], b'\x51', b'\0']
    for nout in range(0, 4):
        prev = (1, (((H[3], 0), b'', 1),), tuple((k, pubs[k]) for k in range(nout)), nout)
        if kind == 'coinbase':
            prev = (1, (((btc.NULL, 0xffffffff), b'\x51\x51', 1),), prev[2], nout)
        elif kind == 'two inputs':
            prev = (1, prev[1] + (((H[4], 0), b'', 7),), prev[2], 0)
        elif kind == 'no inputs':
            prev = (2, (), prev[2], 0)
        prevs = {'right': prev, 'other': (1, prev[1], prev[2], 77), 'malleated': (1, (((H[3], 0), b'\x51', 1),), prev[2], nout),
                 'coinbase': (1, (((btc.NULL, 0xffffffff), b'\x51\x52', 1),), prev[2], nout)}
        for n in list(range(5)) + [0xffffffff]:
            for h in ('right', 'reversed', 'null'):
                txid = {'right': btc.txid(prev), 'reversed': btc.txid(prev)[::-1], 'null': btc.NULL}[h]
                for pos in range(2):
                    vin = [((H[4], 0), b'', 1)]
                    vin.insert(pos, ((txid, n), b'', 2))
                    for how in ('signed', 'unsigned', 'signed by another'):
                        t = (1, tuple(vin), ((1, b'\x51'),), 0)
                        sig = b''
                        if how != 'unsigned' and n < 2:
                            k = n if how == 'signed' else 2
                            pub, code, to_sig = form(('direct', 'hash')[n], n)
                            s = make_sig(k, code, t, pos, 1)
                            sig = to_sig(s)
                        vin2 = list(vin)
                        vin2[pos] = (vin[pos][0], sig, 2)
                        t = (1, tuple(vin2), t[2], 0)
                        for which, p in prevs.items():
                            for idx in (-1, 0, 1, 2, 3):
                                ctx.cur = ['spending', mutable, kind, nout, n, h, pos, how, which, idx]
                                want = False
                                if 0 <= idx < 2:
                                    (ph, pn), ss, _ = t[1][idx]
                                    want = ph == btc.txid(p) and pn < len(p[2]) and expected(ss, p[2][pn][1], t, idx, False)
                                got = accepted(lambda: VerifySignature(mk(p), mk(t), idx))
                                ctx.eq(got, want, 'verify-signature')
                                ctx.outcome('accepted' if want else 'rejected')
                                ctx.step()
                                ctx.state(p, t, idx)
                                ctx.trace()
    ctx.trace(['spending', mutable, kind])


def one_transaction(ctx, param):
    """All inputs of one transaction, each signed for itself or another one, verified in every order, twice, as the very same or a changing object"""
    name, keys, h = param
    parts = [form(name, k) for k in keys]
    prev = (1, (((H[5], 0), b'', 1),), tuple((k + 1, pub) for k, (pub, _, _) in enumerate(parts)), 0)
    txid = btc.txid(prev)
    outs = ((1, b'\x51'), (2, b'\x52'), (3, b'\x53'))
    bare = (1, tuple(((txid, n), b'', 5 + n) for n in range(3)), outs, 0)
    sigs = [[parts[i][2](make_sig(keys[i], parts[i][1], bare, s, h)) for s in range(3)] for i in range(3)]
    spent = mk_tx(prev)
    memo = {}

    def want(i, s, p2sh):
        """Input i with the signature made for input s; what other inputs hold is not signed"""
        if (i, s, p2sh) not in memo:
            t = (1, tuple((o, sigs[i][s] if n == i else b'', q) for n, (o, _, q) in enumerate(bare[1])), outs, 0)
            memo[i, s, p2sh] = expected(sigs[i][s], parts[i][0], t, i, p2sh)
        return memo[i, s, p2sh]
    changing = mk_mutable(bare)
    for src in itertools.product(range(3), repeat=3):
        t = (1, tuple((o, sigs[i][s], q) for i, (s, (o, _, q)) in enumerate(zip(src, bare[1]))), outs, 0)
        same = mk_tx(t)
        for i in range(3):
            changing.vin[i].scriptSig = CScript(sigs[i][src[i]])
        for order in itertools.permutations(range(3)):
            for i in order + order[:1]:
                ctx.cur = [name, keys, h, src, order, i]
                for what, real in (('same', same), ('mutable', changing), ('new', mk_tx(t))):
                    ctx.eq(accepted(lambda: VerifySignature(spent, real, i)), want(i, src[i], False), 'one transaction: ' + what)
                    for p2sh in (True, False) if what != 'new' else ():
                        got = accepted(lambda: VerifyScript(real.vin[i].scriptSig, spent.vout[i].scriptPubKey, real, i, flags=FLAGS[:1] if p2sh else ()))
                        ctx.eq(got, want(i, src[i], p2sh), 'one transaction: script, ' + what)
                    ctx.step(3)
                ctx.outcome('accepted' if want(i, src[i], False) else 'rejected')
            ctx.trace([name, keys, h, src, order])
        ctx.eq((view(same), view(changing), view(spent)), (t, t, prev), 'transaction-changed')
        ctx.state(name, keys, h, src)


def spaces(tier):
    deep = tier == 'thorough'
    ht = list(range(256)) if deep else HASHTYPES
    sing = []
    for f in FORMS:
        for k in (0, 1):
            main = f in ('direct', 'hash')
            for h in ht if main or deep else ht[1:4] + [0x81, 0x83]:
                sing.append((f, k, (h,)))
    ms = [(m, n, dup, wrap) for wrap in ('plain', 'verify', 'not', 'p2sh', 'separator') for n in range(1, 5 if deep else 4) for m in range(n + 1) for dup in ((False, True) if n > 1 else (False,))]
    return [
        core.Space('multisig', 'every m-of-n up to %d, every tuple of signatures of a pool, 5 forms' % (4 if deep else 3), multisig, sorted(ms, reverse=True)),
        core.Space('one signature', '%d forms, %d hash types, 20 kinds of signatures, every input' % (len(FORMS), len(ht)), single, sing),
        core.Space('changed', 'every %s of a signed transaction, %d hash types' % ('pair of changes' if deep else 'change', len(ht)), changed, [(h, deep and h in HASHTYPES) for h in ht]),
        core.Space('embedded', 'signatures inside the script that is signed', embedded, [('sig',), ('multisig',)]),
        core.Space('embedded many', 'm-of-n up to %d, all sequences of up to %d of its signatures in its script' % ((4, 4) if deep else (3, 3)), embedded_many,
                   [(m, n, l) for n in range(1, 5 if deep else 4) for m in range(1, n + 1) for l in range(1, 5 if deep else 4)]),
        core.Space('below', 'up to 1000 elements below the needed ones', below,
                   [(tuple(n for n in range(1003) if n % 8 == k and (deep or n < 40 or n > 990 or n % 50 == 0)),) for k in range(8)]),
        core.Space('final', 'elements of 0 to 520 bytes left on top', final, [(tuple(n for n in range(521) if n % 8 == k and (deep or n < 24 or n > 512 or n % 40 == 0)),) for k in range(8)]),
        core.Space('spending', 'every relation of input and spent transaction', spending,
                   [(m, k) for m in (False, True) for k in ('plain', 'coinbase', 'two inputs', 'no inputs')]),
        core.Space('numbers', 'signatures with numbers of all lengths in them', numbers, [(k, 24, deep) for k in range(24)]),
        core.Space('two keys', 'every two of 15 public keys, right ones in every encoding and wrong ones, in 6 scripts', two_keys, [(k, 24) for k in range(24)]),
        core.Space('one transaction', 'three inputs, each signed for itself or another, in every order, repeatedly', one_transaction,
                   [(f, k, h) for f in ('direct', 'hash', 'p2sh direct', 'separator middle') for k in ((0, 0, 0), (0, 0, 1), (0, 1, 2)) for h in ((1, 2, 3, 0x81, 0x82, 0x83) if deep else (1, 2, 0x83))]),
    ]
