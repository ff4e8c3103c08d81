"""C22: script evaluation agrees with the Bitcoin script machine.

Oracle: mc.script.run, a script machine written from Bitcoin's definition with
opcodes given as tables of what they take and leave. Both machines execute the
same script from the same stack; they have to agree on failure and, without
one, on the stack. Enumerated: every opcode on every stack of every depth over
an alphabet of elements, arithmetic on every number of two bytes, every script
up to a length over several opcode alphabets (conditionals, stack movement, alt
stack, arithmetic, everything), every pair and triple of opcodes.
"""
import itertools

from mc import core, btc, script as S
from bitcoin.core import CTransaction, ValidationError
from bitcoin.core.script import CScript
from bitcoin.core.scripteval import EvalScript, EvalScriptError

TX = CTransaction()


def compare(ctx, script, stack):
    """Run both machines"""
    real = list(stack)
    try:
        want = S.run(script, stack)
        failed = None
    except S.Fail as e:
        failed = e
    ctx.step()
    if failed is None:
        try:
            EvalScript(real, CScript(script), TX, 0)
        except EvalScriptError as e:
            ctx.fail('rejected', 'fails with %s; has to leave %r' % (core.describe(e), want), script=script, stack=stack)
            return
        got = [bytes(x) if isinstance(x, (bytes, bytearray)) else x for x in real]
        if got != want:
            ctx.fail('stack', 'leaves %s; has to leave %s' % (core.short(got), core.short(want)), script=script, stack=stack)
        return True
    try:
        EvalScript(real, CScript(script), TX, 0)
    except EvalScriptError:
        return False
    ctx.fail('accepted', 'leaves %s; has to fail (%s)' % (core.short(real), failed.why), script=script, stack=stack)


NUMBERS = [b'', b'\0', b'\x80', b'\x01', b'\x81', b'\x02', b'\x03', b'\x10', b'\x7f', b'\xff', b'\0\x80', b'\x80\0', b'\0\0', b'\x01\0', b'\xff\0', b'\xff\x80',
           b'\xff\xff\xff\x7f', b'\xff\xff\xff\xff', b'\0\0\0\x80', b'\0\0\0\0\0', b'\x01\0\0\0\0']
FEW = [b'', b'\0\x80', b'\x01', b'\x81', b'\x02', b'\x05\0', b'ab']
MARKS = [bytes([k]) * 2 for k in range(0x61, 0x69)]
OPS = [k for k in range(76, 256) if not 0xac <= k <= 0xaf and k > 78] + [0]


def opcodes(ctx, param):
    """Every opcode on every stack"""
    op, deep = param
    def case(stack):
        ctx.cur = [S.NAME.get(op, op), stack]
        ctx.outcome('ok' if compare(ctx, bytes([op]), stack) else 'fails')
        ctx.state(op, tuple(stack))
        ctx.trace()
    for n in range(9):
        case(MARKS[:n])
        for k in range(8):
            case(MARKS[:n] + [bytes([k])])
            case(MARKS[:n] + [bytes([k]), b''])
            case(MARKS[:n] + [bytes([0x80 | k])])
            case(MARKS[:n] + [bytes([k]), b'\x01', b'\x02'])
    for n, alphabet in ((1, NUMBERS), (2, NUMBERS), (3, NUMBERS if deep else NUMBERS[:18:2] + NUMBERS[15:]), (4, FEW), (5 if deep else 4, FEW[:4])):
        for stack in itertools.product(alphabet, repeat=n):
            case(list(stack))
    # the same inside branches that are and are not taken, and after the alt stack was used
    for stack in itertools.product(NUMBERS, repeat=2):
        stack = list(stack)
        for script in (b'\x51\x63' + bytes([op]) + b'\x68', b'\0\x63' + bytes([op]) + b'\x68\x51', b'\0\x64' + bytes([op]) + b'\x67\x52\x68', b'\x6b' + bytes([op]) + b'\x6c',
                       bytes([op, op]), bytes([op]) + b'\x74\x82'):
            ctx.cur = [script, stack]
            compare(ctx, script, stack)
            ctx.state(script, tuple(stack))
            ctx.trace()
    ctx.trace([S.NAME.get(op, op)])


def arithmetic(ctx, param):
    """Numeric opcodes on every number of up to two bytes, and on every pair of numbers of one byte"""
    op, unary, deep = param
    ones = [bytes([k]) for k in range(256)]
    twos = [bytes(p) for p in itertools.product(range(256), repeat=2)]
    edge = [S.num(s * (2 ** e + d)) for e in (7, 8, 15, 16, 23, 24, 30, 31, 32) for d in (-2, -1, 0, 1) for s in (1, -1)]
    if unary:
        cases = ([a] for a in [b''] + ones + twos + edge)
    else:
        cases = itertools.chain(([a, b] for a in [b''] + ones + edge for b in ([b''] + ones if deep else ones[::5]) + edge),
                                ([a, b] for a in (twos if deep else twos[::7]) for b in (b'', b'\1', b'\x81', b'\xff', b'\0\1', b'\0\x81')))
    for stack in cases:
        ctx.cur = [S.NAME[op], stack]
        compare(ctx, bytes([op]), stack)
        ctx.state(op, tuple(stack))
        ctx.trace()
    ctx.trace([S.NAME[op]])


def codes(names):
    return [bytes([S.CODE[n]]) for n in names.split()]


ALPHABETS = {
    'conditionals': (codes('0 1 IF NOTIF ELSE ENDIF VERIFY 2 RETURN'), [[]], 6, 7),
    'conditionals on a stack': (codes('IF NOTIF ELSE ENDIF DUP 3') + [b'\x01\x80'], [[b'', b'\1'], [b'\1', b'\0\0', b'\x80']], 6, 7),
    'movement': (codes('2DUP 3DUP 2OVER 2ROT 2SWAP NIP OVER ROT SWAP TUCK DUP DROP'), [MARKS[:4], MARKS[:6]], 4, 5),
    'alt stack': (codes('1 2 TOALTSTACK FROMALTSTACK SWAP DROP DEPTH 0 IF ENDIF'), [[], [b'x', b'']], 5, 6),
    'pick and roll': (codes('0 1 2 3 1NEGATE PICK ROLL DEPTH SIZE IFDUP'), [[], MARKS[:3]], 5, 6),
    'arithmetic': (codes('1NEGATE 0 2 16 1ADD 1SUB NEGATE ABS NOT 0NOTEQUAL ADD SUB') + [b'\4\xff\xff\xff\x7f'], [[]], 4, 5),
    'comparison': (codes('1NEGATE 0 3 MIN MAX LESSTHAN GREATERTHANOREQUAL NUMEQUAL NUMEQUALVERIFY NUMNOTEQUAL WITHIN BOOLAND BOOLOR') + [b'\2\3\0', b'\1\x80'], [[b'\2']], 4, 5),
    'equality and hashes': (codes('0 1 EQUAL EQUALVERIFY DUP VERIFY RIPEMD160 SHA1 SHA256 HASH160 HASH256 SIZE') + [b'\1\0'], [[], [b'a']], 4, 5),
}


def scripts(ctx, param):
    name, n, first, = param
    alphabet, stacks, _, _ = ALPHABETS[name]
    for rest in itertools.product(alphabet, repeat=n - len(first)):
        script = b''.join(first + rest)
        for stack in stacks:
            ctx.cur = [script, stack]
            ctx.outcome('ok' if compare(ctx, script, stack) else 'fails')
            ctx.trace()
        ctx.state(script)
    ctx.trace([name, n, first])


def tuples(ctx, param):
    """Every pair (triple) of opcodes, of all 256 values"""
    first, deep = param
    every = [bytes([k]) for k in OPS] + [b'\1\x02', b'\2ab', b'\x4c\1\x81', b'\x4d\1\0\1', b'\x4e\1\0\0\0\1']
    stacks = [[], [b'\1'], [b'\2', b'\1', b''], [b'\1'] * 7 + [b'\3', b'\1']]
    for b in every:
        for stack in stacks:
            script = first + b
            ctx.cur = [script, stack]
            compare(ctx, script, stack)
            ctx.trace()
        ctx.state(script)
        if deep:
            for c in every:
                script = first + b + c
                ctx.cur = [script]
                compare(ctx, script, stacks[3])
                ctx.state(script)
                ctx.trace()
    ctx.trace([first])


def nested(levels, cond, body, level=0):
    """Script of nested conditionals; marks say which parts ran"""
    if not levels:
        return body
    (value, op, shape), rest = levels[0], levels[1:]
    inner = nested(rest, cond, body, level + 1)
    mark = lambda k: bytes([1, (0x21 + 8 * level + k) % 256])
    then, other = (mark(1) + inner + mark(2), mark(3)) if shape != 'else' else (mark(1), mark(2) + inner + mark(3))
    s = cond[value] + op + then
    if shape != 'no else':
        s += b'\x67' + other
    if shape == 'two elses':
        s += b'\x67' + mark(4)
    return s + b'\x68' + mark(5)


def nesting(ctx, param):
    """Nested conditionals of every shape and every truth of each condition"""
    depth, first, bodies = param
    every = list(itertools.product((False, True), (b'\x63', b'\x64'), ('then', 'else', 'no else', 'two elses')))
    cond = {False: b'\0', True: b'\x51'}
    for rest in itertools.product(every, repeat=depth - len(first)):
        for body in bodies:
            script = nested(first + rest, cond, body)
            ctx.cur = [script]
            ctx.outcome('ok' if compare(ctx, script, []) else 'fails')
            ctx.state(script)
            ctx.trace()
    ctx.trace([depth, first])


def deep_nesting(ctx, param):
    """Many nested conditionals of one shape, of which any one or two are false"""
    n, pairs = param
    cond = {False: b'\0', True: b'\x51'}
    whichs = [()] + [(a,) for a in range(n)] + ([(a, b) for b in range(n) for a in range(b)] if pairs else [(a, b) for b in (n - 1, n // 2) for a in range(b)])
    for which in whichs:
        for op, shape in itertools.product((b'\x63', b'\x64'), ('then', 'else', 'no else', 'two elses')):
            # executed down to where it is not; a NOTIF that is taken has a false condition
            taken = shape != 'else'
            levels = [((k not in which) == taken if op == b'\x63' else (k not in which) != taken, op, shape) for k in range(n)]
            script = nested(levels, cond, b'\x01\x7a')
            ctx.cur = [n, which, op, shape]
            ctx.outcome('ok' if compare(ctx, script, []) else 'fails')
            ctx.state(n, which, op, shape)
            ctx.trace()
    ctx.trace([n])


def truths(ctx, param):
    """What counts as true: elements of every length up to the limit, one byte of which is not zero"""
    lens, = param
    for n in lens:
        ends = sorted(set(range(min(n, 12))) | {n - 1 - k for k in range(min(n, 12))} | set(range(0, n, 16)))
        for k, b in [(None, 0)] + [(k, b) for k in ends for b in (1, 0x7f, 0x80, 0x81, 0xff)]:
            e = bytearray(n)
            if k is not None:
                e[k] = b
            for last in ((0, 0x80) if n and k != n - 1 else (None,)):
                if last is not None:
                    e[n - 1] = last
                stack = [b'z', bytes(e)]
                for script in (b'\x63\x52\x67\x53\x68', b'\x64\x52\x67\x53\x68', b'\x69', b'\x73', b'\x91', b'\x92', b'\x51\x9a', b'\x9b', b'\x82', b'\x87', b'\x76\x87'):
                    ctx.cur = [script, stack]
                    compare(ctx, script, stack)
                    ctx.trace()
                ctx.state(bytes(e))
    ctx.trace([lens[0]])


def depths(ctx, param):
    """Deep stacks: sizes, depths, picks and rolls"""
    ns, = param
    for n in ns:
        stack = [S.num(k) for k in range(n)]
        cases = [b'\x74', b'\x74\x74', b'\x74\x82', b'\x70', b'\x71', b'\x6d', b'\x6b\x74\x6c']
        cases += [btc.push(S.num(k)) + op for k in sorted({0, 1, 2, 5, 127, 128, 255, 256, n - 2, n - 1, n, n + 1, -1, -2, -n, n // 2}) for op in (b'\x79', b'\x7a', b'\x79\x74', b'\x7a\x74')]
        for script in cases:
            ctx.cur = [n, script]
            ctx.outcome('ok' if compare(ctx, script, stack) else 'fails')
            ctx.trace()
        if n <= 520:
            for script in (b'\x82', b'\x82\x76\x93', b'\xa6', b'\xa7', b'\xa8', b'\xa9', b'\xaa', b'\x76\x87', b'\x76\x88', b'\x8b', b'\x76\x9c'):
                ctx.cur = [n, script]
                compare(ctx, script, [b'y', b'x' * n])
                ctx.trace()
        ctx.state(n)
    ctx.trace([ns[0]])


def tall(ctx, param):
    """Any number of elements on either stack, and moved between them; many operations, many pushes"""
    ns, = param
    for n in ns:
        # n elements, k of them to the other stack, some back (201 operations at most)
        stack = [S.num(k + 1) for k in range(n)]
        for k in sorted({1, 2, n // 2, n - 1, n, 63, 64, 65, 98, 100, 127, 128, 129, 150, 199, 200, 201} & set(range(1, min(n, 201) + 1))):
            for back in sorted({0, 1, 2, k // 2, k - 1, k, k + 1} & set(range(202 - k))):
                for mid in (b'', b'\x51', b'\x75', b'\x74', b'\x7c', b'\x63', b'\x6d'):
                    if k + back + (mid != b'') + (mid == b'\x63') > 201:
                        continue
                    script = b'\x6b' * k + mid + b'\x6c' * back + (b'\x68' if mid == b'\x63' else b'')
                    ctx.cur = [n, k, back, mid]
                    ctx.outcome('ok' if compare(ctx, script, stack) else 'fails')
                    ctx.trace()
        # n pushes of all kinds, and then something
        for kind in (b'\0', b'\x4f', b'\x53', b'\2ab', b'\x4c\1a', b'\x4d\1\0b'):
            for end in (b'', b'\x74', b'\x51\x79', b'\x6e', b'\x6f', b'\x78\x7b', b'\x93', b'\x69' if kind != b'\0' else b'\x64\x68', b'\x76\x75', b'\x61' * 201, b'\x61' * 202):
                ctx.cur = [n, kind, end[:2], len(end)]
                ctx.outcome('ok' if compare(ctx, kind * n + end, []) else 'fails')
                ctx.trace()
        # the same operation n times
        for op, pre in ((b'\x76', b'\x51'), (b'\x8b', b'\x51'), (b'\x6e', b'\x51\x52'), (b'\x7c', b'\x51\x52'), (b'\x7b', b'\x51\x52\x53'), (b'\x74', b''), (b'\x6b\x6c', b'\x51'),
                        (b'\x63\x51\x68', b'\x51'), (b'\xaa', b'\x51'), (b'\x93', b'\x51' * min(n + 1, 990)), (b'\x90', b'\x51'), (b'\xab', b'\x51')):
            if n <= 201:
                ctx.cur = [n, op, 'repeated']
                ctx.outcome('ok' if compare(ctx, pre + op * n, []) else 'fails')
                ctx.trace()
        ctx.state(n)
    ctx.trace([ns[0]])


def spaces(tier):
    deep = tier == 'thorough'
    every = [bytes([k]) for k in OPS] + [b'\1\x02', b'\2ab', b'\x4c\1\x81', b'\x4d\1\0\1', b'\x4e\1\0\0\0\1']
    sh = []
    for name, (alphabet, stacks, n, m) in ALPHABETS.items():
        top = m if deep else n
        for k in range(1, top + 1):
            if k < 3:
                sh.append((name, k, ()))
            elif k < top:
                sh += [(name, k, (a,)) for a in alphabet]
            else:
                sh += [(name, k, (a, b)) for a in alphabet for b in alphabet]
    sh.sort(key=lambda p: -p[1])
    return [
        core.Space('scripts', 'every script over %s' % '; '.join('%s: %d opcodes, up to %d' % (k, len(v[0]), v[3] if deep else v[2]) for k, v in ALPHABETS.items()), scripts, sh, disjoint=True),
        core.Space('nesting', 'conditionals nested up to %d deep, every shape and truth' % (5 if deep else 4), nesting,
                   [(d, f, b) for d in range(1, 6 if deep else 5) for f in ([()] if d < 3 else itertools.product(itertools.product((False, True), (b'\x63', b'\x64'), ('then', 'else', 'no else', 'two elses')), repeat=1 if d < 5 else 2))
                    for b in ([(b'\x01\x7e', b'\x67', b'\x68', b'\x6a', b'\x6b\x6c', b'')] if d < 5 else [(b'\x01\x7e', b'\x67')])], disjoint=True),
        core.Space('deep nesting', 'conditionals nested up to 100 deep, any one or two of them false', deep_nesting,
                   [(n, deep or n < 20) for n in list(range(100, 60, -1 if deep else -5)) + list(range(67, 4, -1 if deep else -3)) + [17, 18, 32, 33, 64, 65]], disjoint=False),
        core.Space('truths', 'elements of 0 to %d bytes as conditions and numbers' % 520, truths, [(tuple(n for n in range(521) if n % 32 == k and (deep or n < 40 or n > 500 or n % 8 == 0)),) for k in range(32)], disjoint=True),
        core.Space('depths', 'stacks of up to 1000 elements, elements of up to 520 bytes', depths,
                   [(tuple(n for n in range(1001) if n % 24 == k and (deep or n < 300 or n > 980 or n % 25 in (0, 12))),) for k in range(24)], disjoint=True),
        core.Space('tall', 'up to 1000 elements pushed, up to 201 moved between the stacks, operations repeated up to 201 times', tall,
                   [(tuple(n for n in range(1, 1003) if n % 24 == k and (deep or n < 40 or 60 < n < 70 or 95 < n < 104 or 120 < n < 135 or 195 < n < 205 or 250 < n < 260 or 995 < n or n % 125 == 0)),) for k in range(24)], disjoint=True),
        core.Space('opcodes', 'every opcode on stacks over %d elements, in branches' % len(NUMBERS), opcodes, [(op, deep) for op in OPS], disjoint=True),
        core.Space('arithmetic', 'numeric opcodes on every number of up to two bytes', arithmetic,
                   [(S.CODE[k], True, deep) for k in list(S.UNARY) + ['SIZE', 'IFDUP', 'VERIFY', 'IF']] + [(S.CODE[k], False, deep) for k in S.BINARY], disjoint=True),
        core.Space('tuples', 'every %s of opcodes' % ('triple' if deep else 'pair'), tuples, [(a, deep) for a in every], disjoint=True),
    ]
