"""C27: block and proof-of-work checks accept exactly the valid blocks.

Oracle: the predicate of the property, on plain tuples, with the target decoded
as Bitcoin does (a negative, zero or too large target is never met). Enumerated:
every exponent of the compact form times mantissas times hashes around the
target, on every chain; every sequence of up to 3 transactions out of a pool of
coinbases, equal, malformed and other transactions, times merkle roots, proofs
of work, times and options; blocks at and around the limits of size and
signature operations, reached through every part that counts; every order of
selecting chains.
"""
import itertools, time

from mc import core, btc, ref, script as S
from mc.props.c19 import mk_tx, mk_mutable, view
from mc.props.c26 import well_formed, MAX
import bitcoin, bitcoin.core
from bitcoin.core import (CBlock, CBlockHeader, CheckBlock, CheckBlockHeader, CheckProofOfWork, CheckProofOfWorkError, CheckBlockHeaderError, CheckBlockError, ValidationError,
                          GetLegacySigOpCount)
from bitcoin import SelectParams

LIMIT = {'mainnet': 2 ** 224 - 1, 'testnet': 2 ** 224 - 1, 'regtest': 2 ** 255 - 1}
GENESIS = {'mainnet': '000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f',
           'testnet': '000000000933ea01ad0ee984209779baaec3ced90fa3f408719526f8d77f4943',
           'regtest': '0f9188f13cb7b2c71f2a335e3a4fc328bf5beb436012afca590b1a11466e2206'}


def target(bits):
    """The target, 0 if there is none to meet"""
    size, m = bits >> 24, bits & 0xffffff
    if bits & 0x800000:
        return 0
    return m * 256 ** (size - 3) if size >= 3 else m // 256 ** (3 - size)


def pow_ok(h, bits, chain):
    t = target(bits)
    return 0 < t <= LIMIT[chain] and int.from_bytes(h, 'little') <= t


def accepts(ctx, fn, errors=ValidationError):
    try:
        fn()
        return True
    except errors:
        return False


def proofs(ctx, param):
    chain, exponents = param
    SelectParams(chain)
    for e in exponents:
        for m in (0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fff00, 0x7fffff, 0x800000, 0x800001, 0xffffff, 0x00ffff, 0x00ff00, 0x010000):
            bits = e << 24 | m
            t = target(bits)
            raw = m * 256 ** (e - 3) if e >= 3 else m // 256 ** (3 - e)
            for h in {0, 1, t - 1, t, t + 1, raw, LIMIT[chain], LIMIT[chain] + 1, 2 ** 256 - 1, 2 ** 255, t * 256, t // 256, int.from_bytes(max(0, min(t, 2 ** 256 - 1)).to_bytes(32, 'big'), 'little')}:
                if 0 <= h < 2 ** 256:
                    b = h.to_bytes(32, 'little')
                    ctx.cur = [chain, bits, b]
                    want = pow_ok(b, bits, chain)
                    ctx.eq(accepts(ctx, lambda: CheckProofOfWork(b, bits), CheckProofOfWorkError), want, 'proof-of-work')
                    ctx.outcome('met' if want else 'not met')
                    ctx.step()
                    ctx.state(chain, bits, h)
                    ctx.trace()
    ctx.trace([chain, exponents[0]])


def mine(h, chain, good):
    """A header with a nonce that meets (or misses) its target"""
    for n in range(100000):
        g = h[:5] + (n,)
        if pow_ok(ref.dsha(btc.header(g)), g[4], chain) == good:
            return g
    raise AssertionError('no nonce')


BITS = 0x207fffff
NOW = 1500000000
COIN_A = (1, (((btc.NULL, 0xffffffff), b'\x51\x51', 0),), ((50, b'\x51'),), 0)
COIN_B = (1, (((btc.NULL, 0xffffffff), b'\x51\x52', 0),), ((50, b'\x51'),), 0)
T1 = (1, (((b'\1' * 32, 0), b'', 0),), ((5, b'\x51'),), 0)
T2 = (1, (((b'\1' * 32, 0), b'', 0),), ((6, b'\x51'),), 0)
POOL = {
    'coinbase': COIN_A, 'coinbase 2': COIN_B, 'tx': T1, 'tx 2': T2,
    'bad coinbase': COIN_A[:1] + ((((btc.NULL, 0xffffffff), b'\x51', 0),),) + COIN_A[2:],
    'coinbase too rich': COIN_A[:2] + (((MAX + 1, b''),), 0), 'no outputs': (1, T1[1], (), 0), 'no inputs': (1, (), T1[2], 0),
    'equal inputs': (1, T1[1] * 2, T1[2], 0), 'null input': (1, (((b'\2' * 32, 0), b'', 0), ((btc.NULL, 0xffffffff), b'\x51\x51', 0)), T1[2], 0),
    'negative': (1, T1[1], ((-1, b''),), 0),
}


def is_coinbase(t):
    return len(t[1]) == 1 and t[1][0][0] == (btc.NULL, 0xffffffff)


def legacy_sigops(t):
    return sum(S.sigops(i[1], False) for i in t[1]) + sum(S.sigops(o[1], False) for o in t[2])


def valid(h, txs, chain, check_pow, check_merkle, now):
    if check_pow and not pow_ok(ref.dsha(btc.header(h)), h[4], chain):
        return False
    if h[3] > now + 7200:
        return False
    if not txs or len(btc.block(h, txs)) > 1000000:
        return False
    if [is_coinbase(t) for t in txs] != [True] + [False] * (len(txs) - 1):
        return False
    if not all(well_formed(t) for t in txs) or len({btc.txid(t) for t in txs}) != len(txs):
        return False
    if sum(legacy_sigops(t) for t in txs) > 20000:
        return False
    return not check_merkle or btc.merkle_root([btc.txid(t) for t in txs]) == h[2]


def judge(ctx, h, txs, chain, opts, now, block=None):
    block = block or CBlock(*h, vtx=[mk_tx(t) for t in txs])
    cp, cm = opts
    want = valid(h, txs, chain, cp, cm, now)
    kw = {}
    if not cp:
        kw['fCheckPoW'] = False
    if not cm:
        kw['fCheckMerkleRoot'] = False
    got = accepts(ctx, lambda: CheckBlock(block, cur_time=now, **kw))
    ctx.eq(got, want, 'block')
    header = (not cp or pow_ok(ref.dsha(btc.header(h)), h[4], chain)) and h[3] <= now + 7200
    kw.pop('fCheckMerkleRoot', None)
    ctx.eq(accepts(ctx, lambda: CheckBlockHeader(block.get_header(), cur_time=now, **kw), CheckBlockHeaderError), header, 'header')
    ctx.outcome('accepted' if want else 'rejected')
    ctx.step(2)
    return want


def blocks(ctx, param):
    chain, names = param
    SelectParams(chain)
    txs = [POOL[n] for n in names]
    ids = [btc.txid(t) for t in txs]
    root = btc.merkle_root(ids) if ids else btc.NULL
    roots = {root, btc.NULL, root[::-1], btc.merkle_root(ids[::-1]) if ids else b'\1' * 32, btc.merkle_root(ids + ids[-1:]) if ids else b'\2' * 32, btc.merkle_root(ids[:1]) if ids else btc.NULL}
    # every other node of the tree
    roots |= {r for row in btc.merkle_rows(ids) for r in row} if ids else set()
    for r in sorted(roots):
        for good in (True, False):
            base = (2, b'\3' * 32, r, NOW, BITS, 0)
            h = mine(base, 'regtest', good)
            block = CBlock(*h, vtx=[mk_tx(t) for t in txs])
            for opts in itertools.product((True, False), repeat=2):
                for now in (NOW, NOW - 7200, NOW - 7201, 0, NOW - 7200.5, NOW - 7199.5):
                    ctx.cur = [chain, names, r == root, good, opts, now]
                    judge(ctx, h, txs, chain, opts, now, block)
                    ctx.state(chain, names, r, good, opts, now)
                    ctx.trace()
    ctx.trace([chain, names])


def positions(ctx, param):
    """Longer blocks with something wrong at each position, and equal transactions at each pair of positions"""
    n, = param
    SelectParams('regtest')
    base = [COIN_A] + [(1, (((b'\1' * 32, k), b'', 0),), ((5, b'\x51'),), 0) for k in range(n - 1)]

    def check(txs, what):
        ctx.cur = [n, what]
        ids = [btc.txid(t) for t in txs]
        block0 = [mk_tx(t) for t in txs]
        for root in (btc.merkle_root(ids), btc.merkle_root(ids[:-1] + ids[:1])):
            for cm in (True, False):
                h = (2, b'\3' * 32, root, NOW, BITS, 0)
                judge(ctx, h, txs, 'regtest', (False, cm), NOW, CBlock(*h, vtx=block0))
                ctx.state(n, what, root, cm)
                ctx.trace()
    check(base, 'fine')
    for k in range(n):
        for name, t in POOL.items():
            check(base[:k] + [t] + base[k + 1:], (k, name))
        if n > 1:
            check(base[:k] + base[k + 1:], (k, 'gone'))
        for j in range(k):
            check(base[:k] + [base[j]] + base[k + 1:], (j, k, 'equal'))
            check(base[:j] + [base[k]] + base[j + 1:k] + [base[j]] + base[k + 1:], (j, k, 'swapped'))
    ctx.trace([n])


def nodes(ctx, param):
    """Every node of the tree of a block in place of its root, and every root of some of the transactions"""
    n, = param
    SelectParams('regtest')
    txs = [COIN_A] + [(1, (((b'\1' * 32, k), b'', 0),), ((5, b'\x51'),), 0) for k in range(n - 1)]
    ids = [btc.txid(t) for t in txs]
    real = [mk_tx(t) for t in txs]
    roots = {r: ('node', k, j) for k, row in enumerate(btc.merkle_rows(ids)) for j, r in enumerate(row)}
    roots.update({btc.merkle_root(ids[:k]): ('first', k) for k in range(1, n + 1)})
    roots.update({btc.merkle_root(ids[k:]): ('last', k) for k in range(n)})
    roots.update({btc.merkle_root(ids + ids[-k:]): ('repeated', k) for k in range(1, n + 1)})
    roots.update({r[::-1]: ('reversed', w) for r, w in list(roots.items())[:20]})
    true = btc.merkle_root(ids)
    for bit in range(256):
        roots[(int.from_bytes(true, 'big') ^ 1 << bit).to_bytes(32, 'big')] = ('bit', bit)
    for r, what in roots.items():
        for cm in (True, False):
            h = (2, b'\3' * 32, r, NOW, BITS, 0)
            ctx.cur = [n, what, cm]
            judge(ctx, h, txs, 'regtest', (False, cm), NOW, CBlock(*h, vtx=real))
            ctx.state(n, r, cm)
            ctx.trace()
    ctx.trace([n])


def long(ctx, param):
    """Blocks of many transactions with something wrong at a position far into them"""
    n, = param
    SelectParams('regtest')
    base = [COIN_A] + [(1, (((b'\1' * 32, k), b'', 0),), ((5, b'\x51'),), 0) for k in range(n - 1)]
    real = {t: mk_tx(t) for t in base + list(POOL.values())}

    def check(txs, what):
        ctx.cur = [n, what]
        h = (2, b'\3' * 32, btc.merkle_root([btc.txid(t) for t in txs]), NOW, BITS, 0)
        judge(ctx, h, txs, 'regtest', (False, True), NOW, CBlock(*h, vtx=[real[t] for t in txs]))
        ctx.state(n, what)
        ctx.trace()
    check(base, 'fine')
    at = sorted({k for k in (1, 2, 63, 64, 127, 128, 255, 256, 257, 999, 1000, 1023, 1024, 1025, n // 2, n - 2, n - 1) if 0 < k < n})
    for k in at:
        for name in ('coinbase', 'coinbase 2', 'no outputs', 'no inputs', 'equal inputs', 'null input', 'negative', 'bad coinbase'):
            check(base[:k] + [POOL[name]] + base[k + 1:], (k, name))
        for j in at + [0]:
            if j < k:
                check(base[:k] + [base[j]] + base[k + 1:], (j, k, 'equal'))
    ctx.trace([n])


def times(ctx, param):
    """Block times and current times over their whole range, and the real clock"""
    SelectParams('regtest')
    root = btc.txid(COIN_A)
    for t in (0, 1, 7199, 7200, 7201, 7202, NOW, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
        for d in (-7203, -7202, -7201, -7200, -7199, -1, 0, 1, 7200):
            now = t + d
            h = mine((2, b'\3' * 32, root, t, BITS, 0), 'regtest', True)
            ctx.cur = [t, now]
            judge(ctx, h, [COIN_A], 'regtest', (True, True), now)
            ctx.state(t, now)
            ctx.trace()
    for d, want in ((-86400, True), (0, True), (7000, True), (7500, False), (10 ** 6, False)):
        clock = int(time.time())
        h = mine((2, b'\3' * 32, root, clock + d, BITS, 0), 'regtest', True)
        ctx.cur = ['clock', d]
        block = CBlock(*h, vtx=[mk_tx(COIN_A)])
        ctx.eq(accepts(ctx, lambda: CheckBlock(block)), want, 'clock')
        ctx.eq(accepts(ctx, lambda: CheckBlockHeader(block.get_header())), want, 'clock-header')
        ctx.step(2)
        ctx.trace()
    # the error says which check failed
    h = mine((2, b'\3' * 32, root, NOW, BITS, 0), 'regtest', False)
    block = CBlock(*h, vtx=[mk_tx(COIN_A)])
    ctx.raises(CheckProofOfWorkError, lambda: CheckBlock(block, cur_time=NOW), 'error-class')
    ctx.raises(CheckBlockHeaderError, lambda: CheckBlock(block, cur_time=0), 'error-class')
    for names in (('tx',), (), ('coinbase', 'coinbase 2'), ('coinbase', 'tx', 'tx')):
        txs = [POOL[n] for n in names]
        h = mine((2, b'\3' * 32, btc.merkle_root([btc.txid(t) for t in txs]) if txs else btc.NULL, NOW, BITS, 0), 'regtest', True)
        ctx.cur = ['error-class', names]
        ctx.raises(CheckBlockError, lambda: CheckBlock(CBlock(*h, vtx=[mk_tx(t) for t in txs]), cur_time=NOW), 'error-class')
    ctx.trace(['times'])


def clock(ctx, param):
    """Checks one after the other while the clock goes on, or jumps"""
    SelectParams('regtest')
    root = btc.txid(COIN_A)

    def block(t):
        return CBlock(*mine((2, b'\3' * 32, root, t, BITS, 0), 'regtest', True), vtx=[mk_tx(COIN_A)])

    def now(b, whole, key):
        """Judged if it is the same at the times before and after the check"""
        before = time.time()
        got = accepts(ctx, (lambda: CheckBlock(b)) if whole else (lambda: CheckBlockHeader(b.get_header())))
        after = time.time()
        want = {b.nTime <= t + 7200 for t in (before, after)}
        if len(want) == 1:
            ctx.eq(got, want.pop(), key, time=b.nTime, clock=before)
        ctx.step()
    if param == 'real':
        b = block(int(time.time()) + 7200 + 2)
        for k in range(5):
            for whole in (True, False):
                ctx.cur = ['real', b.nTime, k, whole]
                now(b, whole, 'clock-goes-on')
            time.sleep(1)
        ctx.trace()
        return
    # all histories of a clock that is set, where setting it shows
    real = time.time
    at = [real()]

    def fake():
        return at[0]
    patched = [(m, n) for m in (time, bitcoin.core) for n, v in list(vars(m).items()) if v is real]
    for m, n in patched:
        setattr(m, n, fake)
    try:
        far = block(10 ** 6)
        at[0] = 10 ** 6 - 10 ** 5
        if accepts(ctx, lambda: CheckBlockHeader(far.get_header())):
            ctx.outcome('the clock cannot be set')
            return
        clocks = [10 ** 6 - 7201, 10 ** 6 - 7200, 10 ** 6 + 10 ** 5, 10 ** 6 - 7200.5]
        for seq in itertools.product(itertools.product(clocks, (True, False)), repeat=param):
            for k, (t, whole) in enumerate(seq):
                ctx.cur = ['set', seq[:k + 1]]
                at[0] = t
                now(far, whole, 'clock-set')
            ctx.state(seq)
        ctx.trace()
    finally:
        for m, n in patched:
            setattr(m, n, real)


def fill(where, ops, code):
    """A block's transactions with signature operations in one place"""
    pad = lambda s: s
    if where == 'coinbase input':
        return [(1, (((btc.NULL, 0xffffffff), code[:100].ljust(2, b'\x51'), 0),), ((50, b''),), 0)]
    if where == 'coinbase output':
        return [COIN_A[:2] + (((50, code),), 0)]
    if where == 'output':
        return [COIN_A, (1, T1[1], ((1, code),), 0)]
    if where == 'input':
        return [COIN_A, (1, (((b'\1' * 32, 0), code, 0),), T1[2], 0)]
    if where == 'outputs':
        k = len(code) // 3
        return [COIN_A, (1, T1[1], ((1, code[:k]), (1, code[k:])), 0)]
    if where == 'transactions':
        k = len(code) // 4
        return [COIN_A[:2] + (((50, code[:k]),), 0), (1, (((b'\1' * 32, 0), code[k:2 * k], 0),), ((1, code[2 * k:]),), 0)]
    k = len(code) // 2
    return [COIN_A, (1, T1[1], ((1, code[:k]),), 0), (1, T2[1], ((2, code[k:]),), 0)]


def sigops(ctx, param):
    where, = param
    SelectParams('regtest')
    for n in (19998, 19999, 20000, 20001, 20002, 40000):
        for kind, code in (('checksig', b'\xac' * n), ('verify', b'\xad' * n), ('multisig', b'\xae' * (n // 20) + b'\xac' * (n % 20)), ('2 of 3', b'\x53\xae' * (n // 20) + b'\xad' * (n % 20)),
                           ('verify multisig', b'\xaf' * (n // 20) + b'\xac' * (n % 20)), ('pushed', b'\x01\xac' * 100 + b'\xac' * n), ('then truncated', b'\xac' * n + b'\x05\xac\xac'),
                           ('not executed', b'\0\x63' + b'\xac' * n + b'\x68')):
            txs = fill(where, n, code)
            root = btc.merkle_root([btc.txid(t) for t in txs])
            h = mine((2, b'\3' * 32, root, NOW, BITS, 0), 'regtest', True)
            ctx.cur = [where, n, kind]
            judge(ctx, h, txs, 'regtest', (True, True), NOW)
            for t in txs:
                ctx.eq(GetLegacySigOpCount(mk_tx(t)), legacy_sigops(t), 'sigops')
                ctx.eq(GetLegacySigOpCount(mk_mutable(t)), legacy_sigops(t), 'sigops')
            ctx.state(where, n, kind)
            ctx.trace(ctx.cur)


def sizes(ctx, param):
    how, = param
    SelectParams('regtest')
    for goal in (999998, 999999, 1000000, 1000001, 1000002, 1100000):
        if how == 'coinbase':
            mk = lambda n: [COIN_A[:2] + (((50, bytes(n)),), 0)]
        elif how == 'transaction':
            mk = lambda n: [COIN_A, (1, T1[1], ((1, bytes(n)),), 0)]
        elif how == 'two transactions':
            mk = lambda n: [COIN_A, (1, T1[1], ((1, bytes(n // 2)),), 0), (1, T2[1], ((2, bytes(n - n // 2)),), 0)]
        else:
            many = [(1, T1[1], ((k, b''),), 0) for k in range(3000)]
            mk = lambda n: [COIN_A] + many + [(1, T1[1], ((1, bytes(n)),), 1)]
        h0 = (2, b'\3' * 32, btc.NULL, NOW, BITS, 0)
        n = 200000 + goal - len(btc.block(h0, mk(200000)))
        txs = mk(n)
        h = mine(h0[:2] + (btc.merkle_root([btc.txid(t) for t in txs]),) + h0[3:], 'regtest', True)
        ctx.cur = [how, goal, len(btc.block(h, txs))]
        judge(ctx, h, txs, 'regtest', (True, True), NOW)
        ctx.state(how, goal)
        ctx.trace(ctx.cur)


T3 = (1, (((b'\3' * 32, 1), b'', 0),), ((7, b'\x51'),), 0)
LISTS = [[COIN_A, T1], [COIN_A, T2], [COIN_A, T1, T3], [COIN_A, T3, T1], [COIN_A], [COIN_B, T1], [COIN_A, POOL['negative']], [COIN_A, T1, T1], [T1, COIN_A],
         [COIN_A, T1, T3, T3]]


def histories(ctx, param):
    """Blocks checked one after another, of which some have the header or the merkle root of others"""
    first, depth = param
    SelectParams('regtest')
    roots = [btc.merkle_root([btc.txid(t) for t in l]) for l in LISTS]
    heads = {(r, good): mine((2, b'\3' * 32, r, NOW, BITS, 0), 'regtest', good) for r in roots for good in (True, False)}
    cases = [(k, j, good) for k in range(len(LISTS)) for j in range(len(LISTS)) for good in (True, False) if (good or j == k) and (j == k or j in (0, 2, 6))]
    real = {c: CBlock(*heads[roots[c[1]], c[2]], vtx=[mk_tx(t) for t in LISTS[c[0]]]) for c in cases}
    opts = [(True, True), (False, True), (True, False), (False, False)]
    uses = [(c, o) for c in cases for o in (opts if depth == 2 else opts[:1])]
    for seq in itertools.product([u for u in uses if u[0][0] == first], *[uses] * (depth - 1)):
        for again in (False, True):
            for n, (c, o) in enumerate(seq):
                ctx.cur = [first, again, seq[:n + 1]]
                now = NOW if depth > 2 or n != 1 else NOW - 7200
                judge(ctx, heads[roots[c[1]], c[2]], LISTS[c[0]], 'regtest', o, now, real[c] if again else None)
            if depth > 2:
                break
        ctx.state(seq)
        ctx.trace()
    ctx.trace([first, depth])


def chains(ctx, param):
    """Every sequence of selecting chains (and failing to): the limit and genesis block are the last selected chain's"""
    seq, = param
    tx = [COIN_A]
    easy = mine((2, b'\3' * 32, btc.txid(COIN_A), NOW, BITS, 0), 'regtest', True)
    now = 'mainnet'
    for name in seq:
        ctx.cur = [seq, name]
        if name == 'nonsense':
            ctx.raises(ValueError, lambda: SelectParams(name), 'unknown-chain')
        else:
            SelectParams(name)
            now = name
        p = bitcoin.core.coreparams
        ctx.eq(p.NAME, now, 'chain-name')
        ctx.eq(bitcoin.params.NAME, now, 'chain-name')
        g = p.GENESIS_BLOCK
        ctx.eq(g.GetHash()[::-1].hex(), GENESIS[now], 'genesis-hash')
        ctx.eq(accepts(ctx, lambda: CheckBlock(g)), True, 'genesis')
        ctx.eq(p.PROOF_OF_WORK_LIMIT, LIMIT[now], 'limit')
        judge(ctx, easy, tx, now, (True, True), NOW)
        judge(ctx, easy, tx, now, (False, True), NOW)
        for bits in (0x1d00ffff, 0x1d010000, 0x207fffff, 0x20800000, 0x21008000):
            for h in (0, target(bits), target(bits) + 1):
                if h < 2 ** 256:
                    ctx.eq(accepts(ctx, lambda: CheckProofOfWork(h.to_bytes(32, 'little'), bits)), pow_ok(h.to_bytes(32, 'little'), bits, now), 'limit-of-chain')
                    ctx.step()
        ctx.state(seq, name)
    ctx.trace([seq])


def spaces(tier):
    deep = tier == 'thorough'
    names = list(POOL)
    few = ['coinbase', 'coinbase 2', 'tx', 'tx 2', 'no outputs', 'null input', 'bad coinbase']
    seqs = [()] + [(a,) for a in names] + list(itertools.product(names, repeat=2)) + list(itertools.product(names if deep else few, repeat=3))
    if deep:
        seqs += list(itertools.product(few, repeat=4))
    sel = ['mainnet', 'testnet', 'regtest', 'nonsense']
    n = 4 if deep else 3
    return [
        core.Space('sizes', 'blocks of 999998 to 1000002 bytes, 4 ways', sizes, [(h,) for h in ('transactions', 'two transactions', 'transaction', 'coinbase')]),
        core.Space('signature operations', '19998 to 20002 signature operations, 7 places, 8 ways', sigops,
                   [(w,) for w in ('transactions', 'two transactions', 'coinbase input', 'coinbase output', 'output', 'input', 'outputs')]),
        core.Space('blocks', 'every sequence of up to %d of %d transactions, merkle roots, proofs, options, times' % (4 if deep else 3, len(names)), blocks,
                   [('regtest', s) for s in seqs] + [(c, s) for c in ('mainnet', 'testnet') for s in seqs[:12]]),
        core.Space('positions', 'blocks of up to %d transactions, every position and pair of positions' % (33 if deep else 13), positions, [(n,) for n in range(33 if deep else 13, 0, -1)]),
        core.Space('nodes', 'blocks of up to %d transactions, every node of the tree and every bit of the root changed' % (70 if deep else 34), nodes, [(n,) for n in range(70 if deep else 34, 0, -1)]),
        core.Space('long', 'blocks of up to %d transactions, something wrong far into them' % (2100 if deep else 1030), long, [(n,) for n in ([2100, 1500] if deep else []) + [1030, 300, 260, 130, 66]]),
        core.Space('proofs of work', 'every exponent, 17 mantissas, hashes around the target, 3 chains', proofs,
                   [(c, tuple(range(a, a + 64))) for c in LIMIT for a in range(0, 256, 64)]),
        core.Space('clock', 'checks while the clock goes on, and all histories of %d settings of it' % (4 if deep else 3), clock, ['real', 4 if deep else 3]),
        core.Space('histories', 'sequences of 2 (all options)%s checks of blocks, some with the headers or merkle roots of others' % (' and 3' if deep else ''), histories,
                   [(k, d) for d in ((2, 3) if deep else (2,)) for k in range(len(LISTS))]),
        core.Space('times', 'block times around the current time', times, [()]),
        core.Space('chains', 'every sequence of %d selections of chains' % n, chains, [(s,) for k in range(1, n + 1) for s in itertools.product(sel, repeat=k)]),
    ]
