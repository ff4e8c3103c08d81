"""C26: transaction checks accept exactly the well-formed transactions.

Oracle: the predicate of the property, on plain tuples. Enumerated: every
sequence of inputs over null, half-null, equal and different outpoints times
every sequence of output values around the limits of the money range; coinbase
scripts of every length up to 110; transactions of every size around the limit,
reached through each part; immutable, mutable and mixed objects.
"""
import itertools

from mc import core, btc, ref
from mc.props.c19 import mk_tx, mk_mutable, mk_in, mk_out, view, I64, U32
from mc.props.c25 import mixed
from mc import script as sc
from bitcoin.core.script import CScript
from bitcoin.core import (CheckTransaction, CheckTransactionError, ValidationError, CTransaction, MoneyRange, CTxIn, CTxOut, COutPoint, CMutableTxIn, CMutableTxOut,
                          CMutableOutPoint)

MAX = 21 * 10 ** 14


def well_formed(t):
    version, vin, vout, lock = t
    if not vin or not vout or len(btc.tx(t)) > 1000000:
        return False
    total = 0
    for v, _ in vout:
        total += v
        if not (0 <= v <= MAX and 0 <= total <= MAX):
            return False
    points = [i[0] for i in vin]
    if len(set(points)) != len(points):
        return False
    null = (btc.NULL, 0xffffffff)
    if points == [null]:
        return 2 <= len(vin[0][1]) <= 100
    return null not in points


def shared(t):
    """Equal parts are one object"""
    parts = {}
    return CTransaction([parts.setdefault((0, i), mk_in(i)) for i in t[1]], [parts.setdefault((1, o), mk_out(o)) for o in t[2]], t[3], t[0])


MAKERS = {'immutable': mk_tx, 'shared': shared, 'mutable': mk_mutable, 'mixed': mixed, 'deserialized': lambda t: CTransaction.deserialize(btc.tx(t))}


def judge(ctx, t, which='immutable'):
    o = MAKERS[which](t)
    ctx.step()
    want = well_formed(t)
    ctx.outcome('accepted' if want else 'rejected')
    for again in range(2):
        try:
            CheckTransaction(o)
            got = True
        except CheckTransactionError as e:
            got = False
            ctx.expect(isinstance(e, ValidationError), 'error-class', 'not a validation error')
        if got != want:
            ctx.fail('accepted' if got else 'rejected', '%s; %s' % ('accepted' if got else 'rejected', 'well-formed' if want else 'not well-formed'), tx=t)
            return
    if len(btc.tx(t)) < 10000:
        ctx.eq(view(o), t, 'transaction-changed')


POINTS = [(btc.NULL, 0xffffffff), (btc.NULL, 0), (b'\xff' * 32, 0xffffffff), (b'\1' * 32, 0), (b'\1' * 32, 1), (b'\0' * 31 + b'\1', 0xffffffff)]
VALUES = [-1, 0, 1, MAX // 2, MAX // 2 + 1, MAX - 1, MAX, MAX + 1, 2 ** 63 - 1, -2 ** 63, -MAX]


def combos(ctx, param):
    points, deep = param
    for variant in range(2):
        vin = tuple((p, b'\x51' * (2 + k * variant), 0xffffffff - k * variant) for k, p in enumerate(points))
        for n in range(4):
            if n == 3 and not deep and len(points) > 2:
                continue
            for vs in itertools.product(VALUES, repeat=n):
                t = (1, vin, tuple((v, b'\x51' * (k + variant)) for k, v in enumerate(vs)), 0)
                ctx.cur = [points, vs, variant]
                judge(ctx, t)
                if n < 3:
                    for w in ('mutable', 'mixed', 'deserialized', 'shared'):
                        judge(ctx, t, w)
                ctx.state(t)
                ctx.trace()
    ctx.trace([points])


def values(ctx, param):
    """Longer sequences of values: the running total, not the last one, has to be in range"""
    first, n = param
    vin = ((POINTS[3], b'', 0),)
    for vs in itertools.product(VALUES, repeat=n - 1):
        t = (2, vin, tuple((v, b'') for v in (first,) + vs), 5)
        ctx.cur = [t[2]]
        judge(ctx, t, 'shared' if len(set(vs)) < n - 1 or first in vs else 'immutable')
        ctx.state(t)
        ctx.trace()
    ctx.trace([first])


def repeated(ctx, param):
    """Equal inputs and outputs, as one object or several"""
    n, = param
    for v in [-1, 0, 1, MAX // n, MAX // n + 1, MAX, MAX + 1] + ([MAX // (n - 1), MAX // (n - 1) + 1] if n > 1 else []):
        for others in itertools.product((None, 0, 1, MAX % n, MAX), repeat=2):
            for at in sorted({0, 1, n // 2, n - 1, n}):
                vs = [v] * n
                vs[at:at] = [o for o in others if o is not None]
                for vin in (((POINTS[3], b'', 0),), ((POINTS[3], b'', 0), (POINTS[4], b'', 0)), ((POINTS[3], b'', 0),) * 2):
                    t = (2, vin, tuple((x, b'') for x in vs), 5)
                    ctx.cur = [n, v, others, at, len(vin)]
                    for w in ('shared', 'immutable', 'mutable', 'deserialized'):
                        judge(ctx, t, w)
                    ctx.state(t)
    ctx.trace([n])


def coinbase(ctx, param):
    for v in VALUES:
        ctx.eq(bool(MoneyRange(v)), 0 <= v <= MAX, 'money-range')
    for n in range(0, 260):
        for fill in (0, 0x51, 0x4c, 0xff):
            s = bytes([fill]) * n
            for vin in (((POINTS[0], s, 0),), ((POINTS[0], s, 0xffffffff),), ((POINTS[3], s, 0),), ((POINTS[1], s, 0),), ((POINTS[2], s, 0),), ((POINTS[0], s, 0), (POINTS[3], s, 0)),
                        ((POINTS[3], s, 0), (POINTS[0], s, 0))):
                t = (1, vin, ((5, b''),), 0)
                ctx.cur = [n, fill, vin]
                for w in MAKERS:
                    judge(ctx, t, w)
                ctx.state(t)
                ctx.trace()
    # every position and number of equal inputs
    for n in range(2, 9):
        base = [((b'\7' * 32, k), b'', 0) for k in range(n)]
        for i, j in itertools.combinations(range(n), 2):
            vin = list(base)
            vin[j] = (base[i][0], b'\x51', 3)
            for w in MAKERS:
                judge(ctx, (1, tuple(vin), ((1, b''),), 0), w)
            vin[j] = (POINTS[0], b'\x51\x51', 3)
            for w in MAKERS:
                judge(ctx, (1, tuple(vin), ((1, b''),), 0), w)
            ctx.trace()
    ctx.trace(['coinbase'])


NS = sorted({0, 1, 2, 0xffffffff, 0x7fffffff, 0x80000000} | {1 << k for k in range(32)} | {0xffffffff ^ 1 << k for k in range(32)} | {(1 << k) - 1 for k in range(33)}
            | {0xffffffff << k & 0xffffffff for k in range(33)} | {0xffffffff ^ b << k for k in range(0, 32, 8) for b in (0xff, 2, 0x81)})
NEAR = [btc.NULL] + [bytes(k) + bytes([b]) + bytes(31 - k) for k in range(32) for b in (1, 0x80, 0xff)]


def nulls(ctx, param):
    """Outpoints close to the null outpoint are not null: hashes of all but one zero byte, every kind of index"""
    part, parts = param
    for c, (h, n) in enumerate(itertools.product(NEAR, NS)):
        if c % parts != part or not (h == btc.NULL or n in NS[-9:] or n < 3):
            continue
        for s in (b'\x51', b'\x51\x51', bytes(101)):
            for vin in ((((h, n), s, 0xffffffff),), ((POINTS[3], b'', 0), ((h, n), s, 0xffffffff))):
                t = (1, vin, ((5, b''),), 0)
                ctx.cur = [h, n, len(s), len(vin)]
                for w in MAKERS:
                    judge(ctx, t, w)
                ctx.state(t)
        o = mk_tx((1, (((h, n), b'\x51', 0),), ((5, b''),), 0))
        ctx.eq(o.is_coinbase(), (h, n) == POINTS[0], 'is-coinbase')
        ctx.eq(o.vin[0].prevout.is_null(), (h, n) == POINTS[0], 'is-null')
        ctx.trace()
    ctx.trace([part])


def sizes(ctx, param):
    """Every size around the limit"""
    how, = param
    vin, vout = (((b'\1' * 32, 0), b'', 0),), ((1, b''),)
    for target in (list(range(999990, 1000011)) + [900000, 1100000] if 'script' in how else [999999, 1000000, 1000001]):
        if how == 'input script':
            mk = lambda n: (1, ((vin[0][0], bytes(n), 0),), vout, 0)
        elif how == 'output script':
            mk = lambda n: (1, vin, ((1, bytes(n)),), 0)
        elif how == 'inputs':
            many = tuple(((b'\2' * 32, k), b'', 0) for k in range(20000))
            mk = lambda n: (1, many + ((vin[0][0], bytes(n), 0),), vout, 0)
        else:
            many = tuple((1, b'') for k in range(80000))
            mk = lambda n: (1, vin, many + ((1, bytes(n)),), 0)
        n = target - len(btc.tx(mk(70000))) + 70000
        t = mk(n)
        if len(btc.tx(t)) != target:
            t = mk(n - len(btc.tx(t)) + target)
        ctx.cur = [how, target, len(btc.tx(t))]
        judge(ctx, t)
        if how in ('input script', 'output script'):
            judge(ctx, t, 'mutable')
        ctx.state(how, target)
        ctx.trace(ctx.cur)


def many(ctx, param):
    """Many inputs, two of them equal or one of them null, wherever; many outputs, whose total goes too high at any of them"""
    n, part = param
    if part == 'inputs':
        base = [((ref.sha256(b'%d' % (k // 3)), k % 3), b'', 0) for k in range(n)]
        spots = sorted({0, 1, 2, n // 3, n // 2 - 1, n // 2, n - 3, n - 2, n - 1, 63, 64, 99, 100, 127, 128, 252, 253, 255, 256, 999, 1000, 1023, 1024, 4095, 4096, 16383} & set(range(n)))
        outs = ((1, b''),)
        ctx.cur = [n, 'all different']
        judge(ctx, (1, tuple(base), outs, 0))
        some = spots if n < 600 else spots[::3] + spots[-1:]
        for i, j in itertools.combinations(some, 2):
            vin = list(base)
            vin[j] = (base[i][0], b'\x51', 3)
            ctx.cur = [n, 'equal', i, j]
            judge(ctx, (1, tuple(vin), outs, 0), 'mutable' if (i + j) % 3 == 0 else 'immutable')
            ctx.state(n, i, j)
            ctx.trace()
        for j in some:
            for point in (POINTS[0], POINTS[1], POINTS[2]):
                vin = list(base)
                vin[j] = (point, b'\x51\x51', 3)
                ctx.cur = [n, 'null', j, point]
                judge(ctx, (1, tuple(vin), outs, 0), 'mutable' if j % 3 == 0 else 'immutable')
                ctx.state(n, j, point)
    else:
        vin = ((POINTS[3], b'', 0),)
        spots = sorted({0, 1, n // 2, n - 2, n - 1, 63, 64, 99, 100, 127, 128, 252, 253, 255, 256, 999, 1000, 1023, 1024, 4095, 4096, 16383} & set(range(n)))
        for i in spots:
            for v in (-1, MAX - n + 1, MAX - n + 2, MAX, MAX + 1):
                vs = [1] * n
                vs[i] = v
                ctx.cur = [n, i, v]
                judge(ctx, (1, vin, tuple((x, b'') for x in vs), 0), 'mutable' if i % 3 == 0 else 'immutable')
                ctx.state(n, i, v)
            for j in spots:
                if j > i and n < 1500:
                    for v, w in ((MAX, -1), (MAX // 2, MAX // 2 - n + 2), (MAX // 2, MAX // 2 - n + 3), (-1, 1), (MAX, MAX)):
                        vs = [1] * n
                        vs[i], vs[j] = v, w
                        ctx.cur = [n, i, v, j, w]
                        judge(ctx, (1, vin, tuple((x, b'') for x in vs), 0))
                        ctx.state(n, i, v, j, w)
        for each in (MAX // n, MAX // n + 1, -1):
            ctx.cur = [n, 'each', each]
            judge(ctx, (1, vin, ((each, b''),) * n, 0))
    ctx.trace([n, part])


SCRIPTS = [b'', b'\x51', b'\1', b'\1a', b'\2a', b'\x4b', b'\x4c', b'\x4c\1', b'\x4c\0', b'\x4d\1', b'\x4d\0\0', b'\x4e\0\0\0', b'\x4e\0\0\0\0', b'\x6a\xff', b'\xac' * 10001,
           b'\x51\x4c', b'\x76\xa9\x14' + bytes(20) + b'\x88\xac', b'\x76\xa9\x14' + bytes(16)]


def parts(ctx, param):
    """Outputs that are valid, inputs that are final"""
    vals = sorted(set(I64) | {v + d for v in (0, MAX, -MAX, 10 ** 8, 2 ** 53, 2 ** 31, 2 ** 32) for d in range(-3, 4)} | {2 ** k for k in range(63)} | {-2 ** k for k in range(64)})
    for v in vals:
        ctx.cur = [v]
        ctx.eq(bool(MoneyRange(v)), 0 <= v <= MAX, 'money range')
        for s in SCRIPTS:
            for cls in (CTxOut, CMutableTxOut):
                ctx.cur = [v, s]
                ctx.eq(bool(mk_out((v, s), cls).is_valid()), 0 <= v <= MAX and sc.parse(s)[1], 'valid output')
                ctx.step()
            ctx.state(v, s)
    for q in U32 + [2 ** 32 - 1 - 2 ** k for k in range(32)] + [2 ** k for k in range(32)]:
        for cls, point in ((CTxIn, COutPoint), (CMutableTxIn, CMutableOutPoint)):
            for h, n in itertools.product((btc.NULL, b'\1' * 32), (0, 0xffffffff)):
                ctx.cur = [q, h, n]
                ctx.eq(mk_in(((h, n), b'\x51', q), cls, point).is_final(), q == 2 ** 32 - 1, 'final input')
                ctx.step()
        ctx.state(q)
    ctx.trace([len(vals)])


def changed(ctx, param):
    """Transactions changed between checks: every sequence of changes"""
    first, depth = param
    ops = [('point', 0, POINTS[3]), ('point', 0, POINTS[4]), ('point', 0, POINTS[0]), ('point', 1, POINTS[4]), ('value', 0, -1), ('value', 0, MAX), ('value', 0, 0), ('value', 1, 1),
           ('value', 1, MAX + 1), ('drop in', 0, 0), ('add in', 0, POINTS[4]), ('drop out', 0, 0), ('add out', 0, 1), ('script', 0, b''), ('script', 0, b'\x51\x51')]
    starts = [(1, ((POINTS[3], b'\x51\x51', 0), (POINTS[4], b'', 1)), ((0, b''), (0, b'\x51')), 0), (1, ((POINTS[0], b'\x51\x51', 0),), ((MAX, b''), (1, b'\x51')), 0)]
    for start in starts:
        for which in ('mutable', 'mixed'):
            for seq in itertools.product(ops, repeat=depth - 1):
                m = [start[0], [list(i) for i in start[1]], [list(o) for o in start[2]], start[3]]
                o = MAKERS[which](start)
                done = [ops[first]] + list(seq)
                ctx.cur = [start, which, done]
                for op, k, v in [('nothing', 0, 0)] + done:
                    if op == 'point' and k < len(m[1]):
                        m[1][k][0] = v
                        if which == 'mutable':
                            o.vin[k].prevout.hash, o.vin[k].prevout.n = v
                        else:
                            o.vin[k] = mk_in(tuple(m[1][k]))
                    elif op == 'script' and k < len(m[1]):
                        m[1][k][1] = v
                        if which == 'mutable':
                            o.vin[k].scriptSig = CScript(v)
                        else:
                            o.vin[k] = mk_in(tuple(m[1][k]))
                    elif op == 'value' and k < len(m[2]):
                        m[2][k][0] = v
                        if which == 'mutable':
                            o.vout[k].nValue = v
                        else:
                            o.vout[k] = mk_out(tuple(m[2][k]))
                    elif op == 'drop in':
                        del m[1][-1:], o.vin[-1:]
                    elif op == 'drop out':
                        del m[2][-1:], o.vout[-1:]
                    elif op == 'add in':
                        m[1].append([v, b'', 0])
                        o.vin.append(MAKERS['mutable']((1, ((v, b'', 0),), (), 0)).vin[0] if which == 'mutable' else mk_in((v, b'', 0)))
                    elif op == 'add out':
                        m[2].append([v, b''])
                        o.vout.append(MAKERS['mutable']((1, (), ((v, b''),), 0)).vout[0] if which == 'mutable' else mk_out((v, b'')))
                    t = (m[0], tuple(tuple(i) for i in m[1]), tuple(tuple(x) for x in m[2]), m[3])
                    want = well_formed(t)
                    try:
                        CheckTransaction(o)
                        got = True
                    except CheckTransactionError:
                        got = False
                    ctx.eq(got, want, 'changed', tx=t)
                    ctx.outcome('accepted' if want else 'rejected')
                    ctx.step()
                ctx.eq(view(o), t, 'transaction-changed')
                ctx.state(which, t)
                ctx.trace([which, done])


def spaces(tier):
    deep = tier == 'thorough'
    n = 4 if deep else 3
    return [
        core.Space('sizes', 'sizes of 999990 to 1000010 bytes through each part', sizes, [(h,) for h in ('input script', 'output script', 'inputs', 'outputs')]),
        core.Space('inputs and values', 'every sequence of up to %d inputs over %d outpoints and up to 3 of %d values' % (n, len(POINTS), len(VALUES)), combos,
                   [(p, deep) for k in range(n, -1, -1) for p in itertools.product(POINTS, repeat=k)]),
        core.Space('values', 'every sequence of %d values' % (6 if deep else 5), values, [(v, k) for v in VALUES for k in ((4, 5, 6) if deep else (4, 5))]),
        core.Space('repeated', '1 to %d equal outputs and two others; equal inputs; one object or several' % (40 if deep else 20), repeated, [(n,) for n in range(1, 41 if deep else 21)]),
        core.Space('nearly null', 'outpoints one byte or bit away from the null outpoint: %d hashes, %d indices' % (len(NEAR), len(NS)), nulls, [(k, 8) for k in range(8)]),
        core.Space('many', 'up to %d inputs of which two are equal or one is null, up to %d outputs of which one or two are large' % ((20000,) * 2 if deep else (5000,) * 2), many,
                   [(n, p) for n in [5000, 1025, 1001, 1000, 600, 257, 254, 253, 101, 65] + ([20000, 17000, 9000, 4097, 2049, 513] if deep else []) for p in ('inputs', 'outputs')]),
        core.Space('parts', 'every one of 200 values and 18 scripts in an output, 70 sequence numbers in an input', parts, [()]),
        core.Space('changed', 'every sequence of up to %d of 15 changes of a mutable transaction, checked after each' % (4 if deep else 3), changed,
                   [(k, d) for d in range(4 if deep else 3, 0, -1) for k in range(15)]),
        core.Space('coinbase', 'coinbase scripts of 0 to 259 bytes; every pair of equal or null inputs', coinbase, [()]),
    ]
