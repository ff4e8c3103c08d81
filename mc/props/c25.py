"""C25: signature hashes follow the consensus definition.

Oracle: mc.sighash, on plain tuples. Enumerated: every transaction shape up to
3 inputs and outputs (and around the one-byte count limit), every input index
in and out of range, all 256 hash types and wider ones, every well-formed
script of up to 5 operations over an alphabet with code separators, real and
inside pushed data; immutable, mutable and mixed transactions, which have to be
unchanged afterwards; sequences of calculations on one object.
"""
import itertools

from mc import core, btc, script as S
from mc.sighash import sighash
from mc.props.c19 import mk_tx, mk_mutable, mk_in, mk_out, view
from bitcoin.core import CMutableTransaction, CTransaction
from bitcoin.core.script import CScript, RawSignatureHash, SignatureHash, FindAndDelete

H = [bytes([k]) * 32 for k in range(1, 9)]


def tx(n, m, v=1, lock=9):
    vin = tuple(((H[k % 8], k), bytes([0x51 + k % 8]) * (k % 3), (0xffffffff, 5, 0)[k % 3]) for k in range(n))
    vout = tuple((k * 7 + 1, bytes([0x51]) * (k % 3)) for k in range(m))
    return v, vin, vout, lock


def mixed(t):
    """A mutable transaction made of immutable parts"""
    i = mk_tx(t)
    return CMutableTransaction(list(i.vin), list(i.vout), i.nLockTime, i.nVersion)


MAKERS = {'immutable': mk_tx, 'mutable': mk_mutable, 'mixed': mixed}


def judge(ctx, real, t, code, idx, h):
    want, ok = sighash(code, t, idx, h)
    s = CScript(code)
    got = RawSignatureHash(s, real, idx, h)
    ctx.eq(got[0], want, 'raw-hash')
    ctx.eq(got[1] is None, ok, 'raw-error')
    if ok:
        ctx.eq(SignatureHash(s, real, idx, h), want, 'hash')
    else:
        ctx.raises(ValueError, lambda: SignatureHash(s, real, idx, h), 'no-error')
    ctx.outcome('hash' if ok else 'one')
    ctx.step(2)


def shapes(ctx, param):
    n, m, which, wide = param
    t = tx(n, m)
    real = MAKERS[which](t)
    before = real.serialize()
    for h in list(range(256)) + ([0x100 + k for k in range(256)] + [0x80000000 | k for k in range(0, 256, 3)] if wide else []) + [0x101, 0x1ff, 0x80000003, 0xffffffff, 0x12345682]:
        for idx in list(range(min(n, 4) + 2)) + ([n - 1, n, n + 1] if n > 4 else []):
            for code in (b'', b'\x76\xa9\x14' + bytes(20) + b'\x88\xac', b'\xab\x51\xab\1\xab\xac'):
                ctx.cur = [which, n, m, idx, h, code]
                judge(ctx, real, t, code, idx, h)
                ctx.state(which, n, m, idx, h, code)
                ctx.trace()
        ctx.eq(real.serialize(), before, 'transaction-changed')
        ctx.eq(view(real), t, 'transaction-changed')
    ctx.trace([which, n, m])


ALPHABET = [b'\xab', b'\1\xab', b'\x4c\1\xab', b'\x51', b'\xac', b'\2\xab\xab', b'\0', b'\x4d\2\0\xab\x51', b'\xff']
HT = [1, 2, 3, 0x81, 0x82, 0x83]


def codes(ctx, param):
    n, first = param
    t = tx(2, 2)
    real = mk_tx(t)
    for rest in itertools.product(ALPHABET, repeat=n - len(first)):
        code = b''.join(first + rest)
        for idx, h in ((0, 1), (1, 0x83)):
            ctx.cur = [code, idx, h]
            judge(ctx, real, t, code, idx, h)
        for pattern in (b'\xab', b'\1\xab', b'\0', b'\x51', b'\2\xab\xab'):
            ctx.eq(bytes(FindAndDelete(CScript(code), CScript(pattern))), S.find_and_delete(code, pattern), 'find-and-delete')
        ctx.state(code)
        ctx.trace()
    ctx.eq(view(real), t, 'transaction-changed')
    ctx.trace([n, first])


CUT = [b'\x02\xab', b'\x4c', b'\x4c\3\xab\xab', b'\x4d', b'\x4d\4', b'\x4d\4\0\xab\x51', b'\x4e', b'\x4e\1\0\0', b'\x4e\2\0\0\0\xab', b'\x4b' + b'\xab' * 74, b'\1']


def truncated(ctx, param):
    """Scripts that end within a push: everything from there on is signed as it is"""
    n, first = param
    t = tx(2, 2)
    real = mk_tx(t)
    for rest in itertools.product(ALPHABET, repeat=n - len(first)):
        for end in CUT:
            code = b''.join(first + rest) + end
            for idx, h in ((0, 1), (1, 0x83)):
                ctx.cur = [code, idx, h]
                judge(ctx, real, t, code, idx, h)
            for pattern in (b'\xab', b'\1\xab', b'\0', b'\2\xab\xab'):
                ctx.eq(bytes(FindAndDelete(CScript(code), CScript(pattern))), S.find_and_delete(code, pattern), 'find-and-delete')
            ctx.state(code)
            ctx.trace()
    ctx.eq(view(real), t, 'transaction-changed')


def sequences(ctx, param):
    """Sequences of calculations, hashes and changes on one transaction object: no call leaves anything behind"""
    which, n, first = param
    ops = [('sig', idx, h, c) for idx in (0, 1, 2) for h in (1, 2, 3, 0x82, 0x83) for c in (b'\x51\xab',)] + [('hash',)]
    if which != 'immutable':
        ops += [('pop',), ('sequence',), ('append',)] if which == 'mutable' else [('pop',), ('append',)]
    for rest in itertools.product(ops, repeat=n - 1):
        t = tx(2, 2)
        real = MAKERS[which](t)
        ctx.cur = [which, (first,) + rest]
        for k, op in enumerate((first,) + rest):
            if op[0] == 'sig':
                judge(ctx, real, t, op[3], op[1], op[2])
            elif op[0] == 'hash':
                ctx.eq(real.GetHash(), btc.txid(t), 'txid')
            elif op[0] == 'pop':
                if t[2]:
                    real.vout.pop()
                t = (t[0], t[1], t[2][:-1], t[3])
            elif op[0] == 'append':
                real.vin.append(mk_mutable(tx(3, 0)).vin[2])
                t = (t[0], t[1] + tx(3, 0)[1][2:], t[2], t[3])
            else:
                real.vin[0].nSequence = 77 + k
                t = (t[0], (t[1][0][:2] + (77 + k,),) + t[1][1:], t[2], t[3])
        ctx.eq(view(real), t, 'transaction-changed')
        ctx.eq(real.GetHash(), btc.txid(t), 'txid')
        ctx.state(which, first, rest)
        ctx.trace()
    ctx.trace([which, first])


def fields(ctx, param):
    """Extreme values of every field"""
    base = tx(2, 2)
    vs = [(v, base[1], base[2], base[3]) for v in (0, -1, 2 ** 31 - 1, -2 ** 31)] + [(1, base[1], base[2], l) for l in (0, 1, 0xffffffff)]
    for k in range(2):
        for i in (((btc.NULL, 0xffffffff), b'', 0), ((H[0], 0xffffffff), bytes(300), 0xffffffff), ((H[1], 0), b'\xab', 1)):
            vs.append((1, base[1][:k] + (i,) + base[1][k + 1:], base[2], 0))
        for o in ((-1, b''), (2 ** 63 - 1, bytes(300)), (0, b'\xab'), (-2 ** 63, b'')):
            vs.append((1, base[1], base[2][:k] + (o,) + base[2][k + 1:], 0))
    for t in vs:
        for which in MAKERS:
            real = MAKERS[which](t)
            for h in range(256):
                for idx in range(3):
                    ctx.cur = [which, t, idx, h]
                    judge(ctx, real, t, b'\x51\xab\1\xab', idx, h)
                    ctx.state(which, t, idx, h)
                    ctx.trace()
            ctx.eq(view(real), t, 'transaction-changed')
    for size in (0, 1, 252, 253, 10000):
        for code in (b'\x61' * size, b'\xab' * size, (b'\xab\x61' * size)[:size]):
            t = tx(2, 2)
            judge(ctx, mk_tx(t), t, code, 1, 1)
    ctx.trace()


SEQ = [0, 1, 2, 0x7f, 0xff, 0xffff, 0x10000, 0x3fffff, 0x400000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffd, 0xfffffffe, 0xffffffff]
HTS = [0, 1, 2, 3, 4, 0x1f, 0x20, 0x40, 0x80, 0x81, 0x82, 0x83, 0x84, 0xff]


def numbers(ctx, param):
    """Every combination of special sequence numbers, lock times and versions, with the hash types that treat them differently"""
    part, parts = param
    for c, (a, b, d) in enumerate(itertools.product(SEQ, SEQ, SEQ)):
        if c % parts != part:
            continue
        for lock, v in ((0, 1), (0xffffffff, 2), (499999999, 1), (500000000, 0)) if c % 3 == 0 else ((9, 1),):
            t = (v, ((( H[0], a & 1), b'', a), ((H[1], 0xffffffff), b'', b), ((H[2], d >> 16), b'\x51', d)), ((1, b'\x51'), (0, b''), (-1, b'\xab')), lock)
            real = mk_tx(t)
            for h in HTS:
                for idx in range(3):
                    ctx.cur = [(a, b, d), lock, v, h, idx]
                    judge(ctx, real, t, b'\x51', idx, h)
            ctx.state(a, b, d, lock, v)
            ctx.trace()
    ctx.trace([part])


def values(ctx, param):
    """Every combination of special output values and output indices"""
    part, parts = param
    vals = [-2 ** 63, -1, 0, 1, 546, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 21 * 10 ** 14, 2 ** 63 - 1]
    outs = [(v, s) for v in vals for s in (b'', b'\x51', b'\xab', bytes(25))]
    for c, (o, p) in enumerate(itertools.product(outs, outs)):
        if c % parts == part:
            t = (1, ((( H[0], 0), b'', 5), ((H[1], 1), b'', 0xffffffff), ((btc.NULL, 0xffffffff), b'', 0)), (o, p), 3)
            real = mk_tx(t)
            for h in HTS:
                for idx in range(4):
                    ctx.cur = [o, p, h, idx]
                    judge(ctx, real, t, b'\xac', idx, h)
            ctx.state(o, p)
            ctx.trace()
    ctx.trace([part])


def wide(ctx, param):
    """Many inputs and outputs, one more or less of either, every input index of them"""
    n, m, part, parts = param
    t = tx(n, m)
    real = mk_tx(t)
    for idx in range(n + 3):
        if idx % parts != part:
            continue
        for h in (1, 2, 3, 0x81, 0x82, 0x83):
            if h & 0x1f == 3 and h != 0x83 and idx > 20 and idx % 16 not in (0, 1, 15) and idx + 3 < n:
                continue
            ctx.cur = [n, m, idx, h]
            judge(ctx, real, t, b'\x51', idx, h)
            ctx.state(n, m, idx, h)
        ctx.trace()
    ctx.trace([n, m])


def pushed(ctx, param):
    """Pushes of every length of code separators between real ones, in every encoding: none of the data goes, all of the others do"""
    lo, hi = param
    t = tx(2, 2)
    real = mk_tx(t)
    for n in range(lo, hi):
        for fill in (b'\xab', b'\x51\xab', b'\x4c\xab', b'\x01\xab'):
            data = (fill * n)[:n]
            encs = ([bytes([n])] if n < 76 else []) + ([bytes([76, n])] if n < 256 else []) + ([b'\x4d' + n.to_bytes(2, 'little')] if n < 65536 else []) + [b'\x4e' + n.to_bytes(4, 'little')]
            for e in encs:
                for code in (e + data, b'\xab' + e + data + b'\xab', e + data + b'\xab\xab' + e + data, b'\x51\xab' + e + data + b'\xac'):
                    ctx.cur = [n, e, code[:2], len(code)]
                    judge(ctx, real, t, code, 1, 1)
                    ctx.state(code)
                    ctx.trace()
                for pattern in (b'\xab', e + data, b'\x51', b'\x01\xab', b'\xab' * 3):
                    if pattern:
                        code = b'\xab' + e + data + b'\xab' + e + data + b'\x51'
                        ctx.cur = [n, e, code[:3], pattern[:3]]
                        ctx.eq(bytes(FindAndDelete(CScript(code), CScript(pattern))), S.find_and_delete(code, pattern), 'find-and-delete')
    ctx.trace([lo, hi])


def long(ctx, param):
    """Long scripts with separators and patterns anywhere in them"""
    n, at = param
    t = tx(2, 2)
    real = mk_tx(t)
    for unit in ([b'\x51', b'\1\xab', b'\4data', b'\0'], [b'\x61'], [b'\x4b' + b'\xab' * 75], [b'\xab'], [b'\xab', b'\x51']):
        count = n // sum(map(len, unit)) + 1
        body = [unit[i % len(unit)] for i in range(count * len(unit))]
        k = {'start': 0, 'middle': len(body) // 2, 'end': len(body)}[at]
        for special in (b'', b'\xab', b'\x09' + b'\x30' * 9, b'\1\xab', b'\x4d\xff'):
            code = b''.join(body[:k] + [special] + body[k:])
            ctx.cur = [n, at, unit[0][:2], len(unit), special]
            judge(ctx, real, t, code, 1, 1)
            judge(ctx, real, t, code, 0, 0x83)
            for pattern in (b'\xab', b'\x09' + b'\x30' * 9, b'\x52', b'\x51'):
                ctx.eq(bytes(FindAndDelete(CScript(code), CScript(pattern))) == S.find_and_delete(code, pattern), True, 'long:find-and-delete', pattern=pattern)
            ctx.state(n, at, unit, special)
            ctx.trace()
    ctx.trace([n, at])


ALIKE_IN = [((H[0], 0), b'', 5), ((H[0], 0), b'', 6), ((H[0], 0), b'\x51', 5), ((H[0], 1), b'', 5), ((btc.NULL, 0xffffffff), b'', 0xffffffff)]
ALIKE_OUT = [(5, b'\x51'), (5, b''), (-1, b''), (6, b'\x51')]


def alike(ctx, param):
    """Transactions of equal or similar inputs and outputs, as one object or several"""
    first, most = param
    for n in range(most):
        for rest in itertools.product(ALIKE_IN, repeat=n):
            ins = (first,) + rest
            for m, outs in enumerate([(ALIKE_OUT[0],) * (n + 1), tuple(ALIKE_OUT[k % 2] for k in range(n + 1)), tuple(ALIKE_OUT[(k + 2) % 4] for k in range(n + 2)), (ALIKE_OUT[2],) * n]):
                t = (1, ins, outs, 9)
                objs = {}
                same = [objs.setdefault(x, (mk_in if len(x) == 3 else mk_out)(x)) for x in ins + outs]
                kind = ('one object', 'several', 'mutable', 'mutable')[(n + m) % 4]
                real = CTransaction(same[:n + 1], same[n + 1:], 9, 1) if kind == 'one object' else (mk_mutable if kind == 'mutable' else mk_tx)(t)
                for idx in range(n + 2):
                    for h in (1, 2, 3, 0, 0x81, 0x82, 0x83, 0x80):
                        for code in (b'\x51', b''):
                            ctx.cur = [kind, ins, outs, idx, h, code]
                            judge(ctx, real, t, code, idx, h)
                ctx.eq(view(real) == t, True, 'changed')
                ctx.state(ins, outs)
    ctx.trace([first, most])


def spaces(tier):
    deep = tier == 'thorough'
    sh = [(n, m, w, deep) for n in range(0, 6 if deep else 4) for m in range(0, 6 if deep else 4) for w in MAKERS]
    big = [(n, m, 'immutable', False) for n, m in ((252, 2), (253, 1), (2, 253), (1, 252))]
    k = 6 if deep else 5
    return [
        core.Space('shapes', 'every transaction of up to %d inputs and outputs, every input, all hash types' % (5 if deep else 3), shapes, big[:2] + sh + big[2:], disjoint=True),
        core.Space('scripts', 'every script of up to %d operations over %d' % (k, len(ALPHABET)), codes,
                   [(k, (a, b)) for a in ALPHABET for b in ALPHABET] + [(n, (a,)) for a in ALPHABET for n in range(1, k)] + [(0, ())], disjoint=True),
        core.Space('truncated scripts', 'every script of up to %d operations over %d, and then one of %d truncated pushes' % (k - 1, len(ALPHABET), len(CUT)), truncated,
                   [(n, (a,)) for a in ALPHABET for n in range(1, k)] + [(0, ())], disjoint=True),
        core.Space('sequences', 'every sequence of up to %d calculations and changes' % (4 if deep else 3), sequences,
                   [(w, n, f) for w in MAKERS for n in range(1, 5 if deep else 4)
                    for f in [('sig', i, h, b'\x51\xab') for i in (0, 1, 2) for h in (1, 2, 3, 0x82, 0x83)] + [('hash',)] + ([('pop',)] if w != 'immutable' else [])]),
        core.Space('sequence numbers', 'every triple of %d sequence numbers, %d hash types, every input' % (len(SEQ), len(HTS)), numbers, [(k, 16) for k in range(16)], disjoint=True),
        core.Space('output values', 'every pair of 40 outputs, %d hash types, every input' % len(HTS), values, [(k, 8) for k in range(8)], disjoint=True),
        core.Space('wide', 'transactions of up to %d inputs and outputs, every input' % (600 if deep else 260), wide,
                   [(n, m, k, 8) for n, m in ((130, 129), (260, 258), (257, 300)) + (((600, 520), (520, 600)) if deep else ()) for k in range(8)], disjoint=True),
        core.Space('pushed separators', 'pushes of 0 to %d bytes of code separators in every encoding' % (1100 if deep else 300), pushed,
                   [(k, k + 20) for k in range(0, 1100 if deep else 300, 20)] + [(k, k + 1) for k in (519, 520, 521, 65535, 65536)]),
        core.Space('long scripts', 'scripts of up to %d bytes with separators or patterns in them' % (1000000 if deep else 40000), long,
                   [(n, at) for n in [300, 1000, 2100, 9990, 10010, 16400, 33000, 40000] + ([70000, 300000, 1000000] if deep else []) for at in ('start', 'middle', 'end')]),
        core.Space('alike', 'every sequence of up to %d of %d equal or similar inputs, four kinds of outputs, every input, eight hash types' % (5 if deep else 4, len(ALIKE_IN)), alike,
                   [(i, 5 if deep else 4) for i in ALIKE_IN], disjoint=True),
        core.Space('fields', 'extreme values of every field, all hash types', fields, [()]),
    ]
