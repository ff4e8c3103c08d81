"""C23: script limits hold and evaluation only fails with validation errors.

Oracle: mc.script.run with the consensus limits. Every limit is approached from
both sides in every way that counts towards it - each push encoding, executed
or not, each opcode, each split between stack and alt stack, each operand of
each numeric opcode - and both machines have to agree. Every short byte string
is evaluated, and every pair of scripts over an alphabet verified, with and
without P2SH: only success or a validation error may come out, and an error
inside an opcode has to name that opcode, its data and position.
"""
import itertools

from mc import core, btc, script as S
from bitcoin.core import CTransaction, CTxIn, CTxOut, COutPoint, ValidationError
from bitcoin.core.script import CScript
from bitcoin.core.scripteval import EvalScript, EvalScriptError, VerifyScript, SCRIPT_VERIFY_P2SH

TX = CTransaction([CTxIn(COutPoint(b'\1' * 32, 0))], [CTxOut(1, CScript(b'\x51'))])


def never(sig, key, code):
    """No signature in here is valid"""
    return False


def compare(ctx, script, stack, idx=0, flags=()):
    real = list(stack)
    s = CScript(script)
    ctx.step()
    try:
        want, failed = S.run(script, stack, never), None
    except S.Fail as e:
        failed = e
    try:
        EvalScript(real, s, TX, idx, flags=flags)
        err = None
    except EvalScriptError as e:
        err = e
    if not isinstance(err, ValidationError) and err is not None:
        ctx.fail('error-class', 'not a validation error')
    if failed is None:
        if err is not None:
            ctx.fail('rejected', 'fails with %s; has to succeed' % core.describe(err), script=script, stack=stack)
        elif [bytes(x) for x in real] != want:
            ctx.fail('stack', 'leaves %s; has to leave %s' % (core.short(real), core.short(want)), script=script, stack=stack)
        ctx.outcome('ok')
        return
    ctx.outcome(failed.why)
    if err is None:
        ctx.fail('accepted:' + failed.why, 'leaves %s; has to fail (%s)' % (core.short(real), failed.why), script=script, stack=stack)
    elif failed.pos is not None:
        (op, data, pos), = [o for o in S.parse(script)[0] if o[2] == failed.pos]
        ctx.eq((err.sop, err.sop_pc), (op, pos), 'error-position', script=script, why=failed.why)
        ctx.eq(err.sop_data, data, 'error-data')
        ctx.eq((bytes(err.scriptIn), err.inIdx, err.txTo == TX, err.flags == flags), (script, idx, True, True), 'error-context')
        ctx.expect(err.stack is not None and err.altstack is not None and err.vfExec is not None, 'error-state', 'no stack, alt stack or branches')
        ctx.eq([bytes(x) for x in err.stack or ()], [bytes(x) for x in real], 'error-state:stack', script=script, why=failed.why)
        ctx.expect(isinstance(err.nOpCount, int), 'error-state', 'no operation count: %r' % (err.nOpCount,))
        ctx.expect(bool(str(err)), 'error-text', 'no message')


NOP, IF, NOTIF, ELSE, ENDIF, DROP = b'\x61', b'\x63', b'\x64', b'\x67', b'\x68', b'\x75'


def pushes(size):
    """Every encoding of a push of this size"""
    data = bytes(k % 251 for k in range(size))
    if size < 76:
        yield bytes([size]) + data
    if size < 256:
        yield bytes([76, size]) + data
    if size < 65536:
        yield b'\x4d' + size.to_bytes(2, 'little') + data
    yield b'\x4e' + size.to_bytes(4, 'little') + data


def elements(ctx, param):
    size, = param
    for p in pushes(size):
        for wrap in (lambda p: p, lambda p: b'\0' + IF + p + ENDIF, lambda p: b'\x51' + IF + p + ENDIF, lambda p: b'\0' + NOTIF + p + ELSE + p + ENDIF, lambda p: p + DROP,
                     lambda p: p + p, lambda p: b'\x51' + p + b'\xac', lambda p: p + b'\x51\xac'):
            for stack in ([], [bytes(size)]):
                s = wrap(p)
                ctx.cur = [s[:10], size, len(s)]
                compare(ctx, s, stack)
                ctx.state(s, len(stack))
                ctx.trace()
    ctx.trace([size])


BRANCH = [b'\0' + IF, b'\x51' + IF, b'\0' + NOTIF, b'\x51' + NOTIF, b'\0' + IF + b'\x51' + ELSE, b'\x51' + IF + b'\x51' + ELSE]


def nested(ctx, param):
    """What counts everywhere - sizes of pushes, disabled opcodes, operations, script ends - in every nesting of branches"""
    first, n = param
    for rest in itertools.product(BRANCH, repeat=n - len(first)):
        pre = b''.join(first + rest)
        for body in [p for size in (519, 520, 521, 600) for p in pushes(size)] + [b'\x7e', b'\x8d', b'\x65', b'\x66', b'\x6a', b'\x50', b'\xff', b'\xba', b'\x4c\5a', b'\5a', b'\x4e\xff\xff\xff\xff',
                     b'\xac', b'\xae', b'\x69', b'\x68', b'\x67', NOP * 190, NOP * 200, b'\x51' * 1001, b'\x6b', b'\x93', b'\xab', b'\xb1', b'\x4c\0', b'\x4d\0\0', b'\x4e\0\0\0\0']:
            for post in (ENDIF * n, ENDIF * (n - 1), ENDIF * (n + 1), ELSE + b'\x51' + ENDIF * n, b'\x51' + ENDIF * n + b'\x51'):
                s = pre + body + post
                ctx.cur = [pre, body[:5], len(body), post]
                compare(ctx, s, [b'\3'])
                ctx.state(s)
                ctx.trace()
    ctx.trace([first, n])


def nonzero(ctx, param):
    """Verification of every pair of short scripts of any bytes, and of P2SH of every short redeem script"""
    kind, a = param
    ends = [b'', b'\x51', b'\0', b'\x4c', b'\x4c\5', b'\2x', b'\xac', b'\x51\x51', b'\x63', b'\x76\xa9']
    mid = [b'', b'\x51', b'\xac', b'\xae', b'\0', b'\5x']
    for b in range(256):
        two = bytes([a, b])
        for r in (two, bytes([b, a]) + b'\4a', two + b'\x4d\1') if kind == 'redeem' else (two,):
            if kind == 'redeem':
                cases = [(pre + btc.push(r), b'\xa9\x14' + btc.hash160(r) + b'\x87') for pre in (b'', b'\x51', b'\0\x51', b'\0\0\x51')]
            elif kind == 'sig':
                cases = [(r, e) for e in ends] + [(r, b'\xa9\x14' + btc.hash160(r[1:]) + b'\x87')]
            else:
                cases = [(e, r) for e in ends] + [(e, r) for e in (b'\x51\x51\x51', b'\0\0\0\0')]
            for sig, pub in cases:
                pair(ctx, sig, pub)
    ctx.trace([kind, a])


def pair(ctx, sig, pub):
    """Both scripts verified, with and without P2SH: as the reference says, and failing only with a validation error"""
    ctx.cur = [sig, pub]
    for p2sh in (False, True):
        try:
            S.verify(sig, pub, p2sh, never)
            want = True
        except S.Fail as e:
            want = False
        try:
            VerifyScript(CScript(sig), CScript(pub), TX, 0, flags=(SCRIPT_VERIFY_P2SH,) if p2sh else ())
            got = True
        except ValidationError:
            got = False
        ctx.eq(got, want, 'verify' + ('-p2sh' if p2sh else ''))
        ctx.step()
        ctx.outcome('ok' if want else 'fails')
    ctx.state(sig, pub)
    ctx.trace()


def script_size(ctx, param):
    n, = param
    big = b'\x4d\x08\x02' + bytes(520)
    forms = [big * 19 + b'\x51' * 100, big[:-1] * 0 + (b'\x4b' + b'\1' * 75) * 200, b'\0' + IF + big * 30, b'\x51' * 400 + big * 30, big[:300]]
    for f in forms:
        for s in (f[:n], f[:n - 1] + ENDIF, (f[:n - 200] if n > 9000 else f) + b'\x51' * 200, b'\x51' * n, b'\x50' * n, b'\0' + IF + b'\x50' * (n - 3) + ENDIF,
                  b'\0' + IF + b'\x51' * (n - 3) + ENDIF, b'\x51' * (n - 1) + b'\xac', bytes(n)):
            s = s[:n]
            ctx.cur = [s[:10], len(s)]
            compare(ctx, s, [])
            ctx.state(s)
            ctx.trace()
    # exactly balanced scripts that succeed up to the limit
    for pad in range(3):
        s = b'\0' + IF + b'\x51' * (n - 3) + ENDIF
        compare(ctx, s, [b'\1'] * pad)
    ctx.trace([n])


def op_count(ctx, param):
    """Every opcode around the limit of 201, executed or not, with pushes that do not count in between"""
    op, = param
    o = bytes([op])
    for total in (199, 200, 201, 202, 203, 260):
        for pre, post, extra in ((b'\0' + IF, ENDIF, 2), (b'\x51' + IF + b'\x51' + ELSE, ENDIF, 3), (b'', b'', 0), (NOP * 100, b'', 100), (b'\x51\x52', NOP * 50, 50)):
            n = total - extra
            for body in (o * n, (b'\x51' + o) * n, (o + b'\1\x07') * n, (b'\x50' + o) * n):
                s = pre + body + post
                for stack in ([], [b'\1'] * 700 if op in (0x6d, 0x75, 0x7c) else [b'\1', b'\1', b'\1']):
                    ctx.cur = [op, total, s[:8], len(s)]
                    compare(ctx, s, stack)
                    ctx.state(s, len(stack))
                    ctx.trace()
    # nested branches
    for total in (200, 201, 202):
        k = total // 2
        s = (b'\x51' + IF) * k + ENDIF * k + o * (total - 2 * k)
        compare(ctx, s, [b'\1'])
        compare(ctx, b'\0' + IF + IF * (k - 1) + ENDIF * k + o * (total - 2 * k), [b'\1'])
        ctx.trace()
    ctx.trace([op])


def multisig(ctx, param):
    """Key counts: their range, the size of the count, and their part in the operation count"""
    op, nkeys = param
    o = bytes([op])
    key, sig = b'\2' + b'\7' * 32, b'\x30\1'
    for nsigs in sorted({-1, 0, 1, 2, nkeys - 1, nkeys, nkeys + 1, 20, 21}):
        for kenc, senc in itertools.product(encodings(nkeys), encodings(nsigs)):
            base = [b''] + [sig] * max(nsigs, 0) + [senc] + [key] * max(nkeys, 0) + [kenc]
            for cut in (0, 1, 2, max(nsigs, 0), max(nsigs, 0) + 1, len(base) - 1, len(base)):
                for pre in ([], [b'x', b'y']):
                    stack = pre + base[cut:]
                    ctx.cur = [S.NAME[op], nkeys, nsigs, kenc, senc, cut]
                    compare(ctx, o, stack)
                    ctx.state(op, tuple(stack))
                    ctx.trace()
    # with other operations before
    for before in sorted({0, 1, 100, 178, 179, 180, 181, 200 - nkeys - 1, 200 - nkeys, 201 - nkeys, 199, 200, 201}):
        if before < 0:
            continue
        stack = [b'x', b'', S.num(0)] + [key] * max(nkeys, 0) + [S.num(nkeys)]
        for s in (NOP * before + o, b'\0' + IF + o * before + ENDIF, o + NOP * before):
            ctx.cur = [S.NAME[op], nkeys, 'after', before, s[:3]]
            compare(ctx, s, stack)
            ctx.state(s, tuple(stack))
            ctx.trace()
    # several of them
    one = b'\0\0' + btc.push(key) * max(nkeys, 0) + S.push_num(nkeys) + o
    for k in range(1, 13):
        for n in (0, 1, 2, 198, 199, 200):
            s = one * k + NOP * n
            ctx.cur = [S.NAME[op], nkeys, 'times', k, n]
            compare(ctx, s, [])
            ctx.state(s)
            ctx.trace()
    ctx.trace([S.NAME[op], nkeys])


def encodings(n):
    """Encodings of a number, of different widths"""
    b = S.num(n)
    out = [b]
    sign = 0x80 if n < 0 else 0
    for w in (2, 4, 5):
        if len(b) < w:
            m = abs(n).to_bytes(w, 'little')
            out.append(m[:-1] + bytes([m[-1] | sign]))
    return out


def depth(ctx, param):
    """Stacks around 1000 elements, split over stack and alt stack in every way"""
    start, = param
    stack = [b'\2'] * start
    ops = [b'\x51', b'\1\7', b'\x4f', b'\0', NOP, DROP, b'\x6e', b'\x6f', b'\x70', b'\x73', b'\x74', b'\x76', b'\x78', b'\x79', b'\x7d', b'\x82', b'\x6b', b'\x6d', b'\x93', b'\x7c']
    for n in range(4):
        for seq in itertools.product(ops, repeat=n):
            for alt in ((0, 1, 3, 900) if n < 3 else (0, 2)):
                s = b'\x6b' * min(alt, 150) + b''.join(seq)
                ctx.cur = [start, alt, seq]
                compare(ctx, s, stack)
                ctx.state(start, s)
                ctx.trace()
    for s in (b'\0' + IF + ENDIF, b'\0' + IF + b'\x51' + ENDIF, b'\x51' + IF + DROP + ENDIF, b'\x51' * (1000 - start) if start <= 1000 else b'', b'\x51' * max(0, 1001 - start),
              b'\x51' * max(0, 1001 - start) + DROP, b'\x51' * max(0, 999 - start) + b'\x6e', b'\x51' * max(0, 999 - start) + b'\x76' + b'\x6b' * 5 + b'\x51'):
        ctx.cur = [start, s[-5:]]
        compare(ctx, s, stack)
        ctx.trace()
    ctx.trace([start])


def operands(ctx, param):
    """Operands of every numeric opcode of every size around 4 bytes, in every position"""
    op, n = param
    sizes = [b'\2', b'\2\0\0', b'\xff\xff\xff\x7f', b'\xff\xff\xff\xff', b'\2\0\0\0', b'\0\0\0\x80', b'\0\0\0\0\0', b'\2\0\0\0\0', b'\2\0\0\0\x80', b'\xff\xff\xff\xff\x7f', bytes(6),
             bytes(520), b'', bytes(3), bytes(4)]
    for args in itertools.product(sizes, repeat=n):
        for below in ([], [b'p', b'q', b'r']):
            stack = below + list(args)
            for s in (bytes([op]), b'\x51' + IF + bytes([op]) + ENDIF, b'\0' + IF + bytes([op]) + ENDIF):
                ctx.cur = [S.NAME[op], args]
                compare(ctx, s, stack)
                ctx.state(s, tuple(stack))
                ctx.trace()
    ctx.trace([S.NAME[op]])


GARBAGE = bytes([0, 1, 2, 76, 77, 78, 79, 81, 0x60, 0x63, 0x67, 0x68, 0x69, 0x6a, 0x76, 0x7a, 0xa9, 0xab, 0xac, 0xad, 0xae, 0xaf, 0xb1, 0xff])


def garbage(ctx, param):
    alphabet, n, first = param
    key = b'\2' + b'\7' * 32
    stacks = [[], [b'\1', b'', key]]
    for rest in itertools.product(alphabet, repeat=n - len(first)):
        s = first + bytes(rest)
        for stack in stacks:
            ctx.cur = [s, stack]
            compare(ctx, s, stack)
            ctx.trace()
        ctx.state(s)
    ctx.trace([first, n])


def signatures(ctx, param):
    """Signature opcodes on things that are not signatures and keys, for inputs that exist and that do not"""
    op, = param
    sigs = [b'', b'\0', b'\1', b'\x30', b'\x30\x06\2\1\1\2\1\1\1', b'\x30\x06\2\1\1\2\1\1\3', b'\xff' * 73, bytes(520), b'\x30\x80\2\1\1\2\1\1\0\0\1',
            b'\x30\x0c' + b'\2\4\xff\xff\xff\xff\2\4\x80\0\0\1' + b'\x83', b'\x30\x84\xff\xff\xff\xff\2\1\1\2\1\1\1']
    keys = [b'', b'\0', b'\2', b'\2' + b'\7' * 32, b'\3' + b'\xff' * 32, b'\4' + b'\7' * 64, b'\4' + bytes(64), b'\6' + b'\7' * 64, bytes(33), b'\2' + b'\7' * 33, bytes(65), bytes(520)]
    for sig, key in itertools.product(sigs, keys):
        for idx in (0, 1, 5):
            for tail in (b'', b'\x69', b'\5x', btc.push(sig), b'\xab', b'\x4c\5'):
                if op in (0xac, 0xad):
                    cases = [(b'\xab' * k + bytes([op]) + tail, [sig, key]) for k in (0, 1)]
                    cases.append((btc.push(sig) + btc.push(key) + bytes([op]) + tail, []))
                else:
                    cases = [(bytes([op]) + tail, [b'', sig, b'\1', key, b'\1']), (bytes([op]) + tail, [b'', sig, sig, b'\2', key, b'', key, b'\3'])]
                for s, stack in cases:
                    ctx.cur = [S.NAME[op], sig[:12], key[:3], idx, tail]
                    compare(ctx, s, stack, idx)
                    ctx.state(s, tuple(stack), idx)
                    ctx.trace()
    ctx.trace([S.NAME[op]])


ITEMS = [b'\0', b'\x51', b'\x52', b'\1\x80', b'\2\0\0', b'\x4f', b'\x76', b'\x75', b'\x87', b'\xa9', b'\x63', b'\x68', b'\x69', b'\x6a', b'\x61', b'\xac', b'\xae', b'\x74', b'\3ab', b'\x50', b'\x91']


def verify(ctx, param):
    """Every pair of scripts; every P2SH script of every redeem script"""
    first, deep = param
    n = 3 if deep else 2
    subs = [b''.join(s) for k in range(n + 1) for s in itertools.product(ITEMS, repeat=k)]
    pubs = [b''.join(s) for k in range(3) for s in itertools.product(ITEMS, repeat=k)]

    for sig in subs if first is None else []:
        for redeem in (b'', b'\x51', b'\0', b'\x75', b'\x87', b'\x76', b'\x51\x87', b'\x52\x4c', b'\x69\x51', b'\x63', b'\x61', b'\xac', bytes(520), bytes(521), b'\x74'):
            for how in (sig + btc.push(redeem), sig + b'\x4e' + len(redeem).to_bytes(4, 'little') + redeem):
                for pub in (b'\xa9\x14' + btc.hash160(redeem) + b'\x87', b'\xa9\x4c\x14' + btc.hash160(redeem) + b'\x87', b'\xa9\x14' + bytes(20) + b'\x87',
                            b'\xa9\x14' + btc.hash160(redeem) + b'\x88\x51'):
                    pair(ctx, how, pub)
            pair(ctx, sig, b'\xa9\x14' + btc.hash160(redeem) + b'\x87')
    if first is not None:
        for sig in subs:
            if sig[:1] == first or (not sig and first == ITEMS[0]):
                for pub in pubs:
                    pair(ctx, sig, pub)
    ctx.trace([first])


def flags(ctx, param):
    """Every set of flags, from either module that defines them, in every kind of collection"""
    import bitcoin.core.script, bitcoin.core.scripteval
    names = ['SCRIPT_VERIFY_P2SH', 'SCRIPT_VERIFY_STRICTENC', 'SCRIPT_VERIFY_EVEN_S', 'SCRIPT_VERIFY_NOCACHE']
    made = []
    for redeem in (b'\x51', b'\0', b'', b'\x75', b'\x61'):
        for lead in (b'', b'\x51', b'\0', b'\x61\x51'):
            made.append((lead + btc.push(redeem), b'\xa9\x14' + btc.hash160(redeem) + b'\x87'))
    for module in (bitcoin.core.script, bitcoin.core.scripteval):
        for n in range(len(names) + 1):
            for sub in itertools.permutations(names, n):
                objs = [getattr(module, f) for f in sub]
                for kind in (tuple, list, set, frozenset):
                    for sig, pub in made:
                        ctx.cur = [module.__name__, sub, kind.__name__, sig, pub]
                        try:
                            S.verify(sig, pub, names[0] in sub, never)
                            want = True
                        except S.Fail:
                            want = False
                        try:
                            VerifyScript(CScript(sig), CScript(pub), TX, 0, flags=kind(objs))
                            got = True
                        except ValidationError:
                            got = False
                        ctx.eq(got, want, 'flags')
                        ctx.step()
                    ctx.state(module.__name__, sub, kind.__name__)
                ctx.trace(sub)


def spaces(tier):
    deep = tier == 'thorough'
    every = bytes(range(256))
    g = 4 if deep else 3
    small = bytes([0, 1, 77, 81, 0x63, 0x68, 0x76, 0xac, 0xae])
    numeric = [(S.CODE[k], 1) for k in S.UNARY] + [(S.CODE[k], 2) for k in S.BINARY] + [(S.CODE['WITHIN'], 3), (S.CODE['PICK'], 1), (S.CODE['ROLL'], 1), (S.CODE['PICK'], 2), (S.CODE['ROLL'], 2)]
    return [
        core.Space('verify', 'every pair of scripts of up to %d and 2 of %d items, P2SH of 15 redeem scripts, with and without the flag' % (3 if deep else 2, len(ITEMS)), verify,
                   [(i, deep) for i in [None] + ITEMS]),
        core.Space('flags', 'every sequence of the four flags of two modules, in four kinds of collections', flags, [()]),
        core.Space('stack depth', 'stacks of 995 to 1001 elements, every sequence of up to 3 of 20 opcodes, alt stack splits', depth, [(k,) for k in (0, 1, 995, 996, 997, 998, 999, 1000, 1001, 1002)]),
        core.Space('operations', 'every opcode 199 to 203 and 260 times, in every kind of branch', op_count, [(k,) for k in range(0x4f, 256)]),
        core.Space('multisig', 'every key count from -1 to 22, signature counts, operations before and after', multisig, [(o, k) for o in (0xae, 0xaf) for k in range(-1, 23)]),
        core.Space('element size', 'pushes of 0 to 523, 65535, 65536 bytes in every encoding', elements,
                   [(k,) for k in (range(0, 524) if deep else (0, 75, 76, 255, 256, 518, 519, 520, 521, 522, 523, 1000)) ] + [(65535,), (65536,)]),
        core.Space('nested', 'oversized pushes, bad opcodes, truncated pushes in every nesting of up to %d branches' % (4 if deep else 3), nested,
                   [(f, n) for n in range(1, 5 if deep else 4) for f in itertools.product(BRANCH, repeat=min(n, 2))]),
        core.Space('any bytes', 'verification of every pair of scripts one of which is any two bytes; P2SH of every two-byte script', nonzero,
                   [(k, a) for k in ('redeem', 'sig', 'pub') for a in range(256)], disjoint=True),
        core.Space('script size', 'scripts of 9998 to 10003 bytes', script_size, [(k,) for k in (9998, 9999, 10000, 10001, 10002, 10003, 20000)]),
        core.Space('operand size', 'operands of every size around four bytes in every position of every numeric opcode', operands, numeric),
        core.Space('signatures', 'signature opcodes on malformed signatures and keys', signatures, [(o,) for o in (0xac, 0xad, 0xae, 0xaf)]),
        core.Space('garbage', 'every script of up to %d bytes over %d bytes, and of 2 arbitrary bytes' % (g, len(GARBAGE)), garbage,
                   [(GARBAGE, k, bytes([a])) for a in GARBAGE for k in range(2, g + 1)] + [(every, 2, bytes([a])) for a in every] + [(every, 1, b''), (every, 0, b'')] +
                   [(small, 6 if deep else 5, bytes([a])) for a in small]),
    ]
