"""C21: scripts are built, parsed and classified correctly.

Oracle: mc.script.parse (a push opcode takes as many bytes as it says) and the
definitions of each test in terms of the parsed opcodes. Enumerated: every byte
string up to a length over an alphabet that has every kind of opcode, every
byte string of up to 2 (3) arbitrary bytes, every push encoding at every size
boundary with every truncation, every change of a byte of a P2SH script, every
sequence of elements to build a script of, joined in every way.
"""
import itertools

from mc import core, btc, traverse, script as S
from bitcoin.core.script import CScript, CScriptOp, CScriptInvalidError, OPCODES_BY_NAME, OPCODE_NAMES
import bitcoin.core.script as script_module


def cooked(op, data):
    """What iteration has to give for an opcode"""
    if data is not None:
        return data
    return op - 80 if 81 <= op <= 96 else op


def same_element(got, op, data):
    if data is not None:
        # OP_0 is the empty push and the integer zero at the same time
        return (isinstance(got, bytes) and got == data) or (op == 0 and got == 0 and not isinstance(got, bool))
    if isinstance(got, CScriptOp):
        return not 81 <= op <= 96 and int(got) == op
    return 81 <= op <= 96 and isinstance(got, int) and got == op - 80


def classify(ctx, b):
    """Compare every test of a script with its definition"""
    s = CScript(b)
    ops, ok = S.parse(b)
    got = []
    it = s.raw_iter()
    try:
        for t in it:
            got.append(t)
        ended = True
    except CScriptInvalidError:
        ended = False
    ctx.eq(ended, ok, 'truncation')
    ctx.eq([(int(o), d, i) for o, d, i in got], ops, 'raw-parse')
    items, ended = [], True
    try:
        for t in s:
            items.append(t)
    except CScriptInvalidError:
        ended = False
    ctx.eq(ended, ok, 'iteration-end')
    if not ctx.expect(len(items) == len(ops) and all(same_element(g, o, d) for g, (o, d, _) in zip(items, ops)), 'iteration', 'elements differ',
                      got=[repr(i) for i in items], want=ops):
        return
    ctx.eq(s.is_valid(), ok, 'is-valid')
    ctx.eq(s.is_push_only(), ok and all(o <= 96 for o, _, _ in ops), 'push-only')
    ctx.eq(s.has_canonical_pushes(), ok and all(canonical(o, d) for o, d, _ in ops), 'canonical-pushes')
    ctx.eq(s.is_p2sh(), len(b) == 23 and b[0] == 0xa9 and b[1] == 0x14 and b[22] == 0x87, 'p2sh')
    ctx.eq(s.is_unspendable(), b[:1] == b'\x6a', 'unspendable')
    ctx.eq(s.GetSigOpCount(False), S.sigops(b, False), 'sigops')
    ctx.eq(s.GetSigOpCount(True), S.sigops(b, True), 'sigops-accurate')
    ctx.step(9)
    ctx.outcome('valid' if ok else 'truncated')


def canonical(op, d):
    if d is None or op == 0:
        return True
    if op < 76:
        return not (len(d) == 1 and d[0] <= 16)
    return len(d) > {76: 75, 77: 0xff, 78: 0xffff}[op]


ALPHABET = bytes([0, 1, 2, 76, 77, 78, 79, 80, 81, 96, 97, 0x6a, 0xac, 0xad, 0xae, 0xaf, 0xff])


def strings(ctx, param):
    alphabet, n, first = param
    for rest in itertools.product(alphabet, repeat=n - len(first)):
        b = first + bytes(rest)
        ctx.cur = [b]
        classify(ctx, b)
        ctx.state(b)
        ctx.trace()
    ctx.trace([first, n])


SIZES = sorted({0, 1, 2, 3, 16, 17, 74, 75, 76, 77, 78, 127, 128, 254, 255, 256, 257, 519, 520, 521, 65534, 65535, 65536, 65537})


def pushes(ctx, param):
    """Every encoding of pushes of every size, truncated in every way, alone and between other opcodes"""
    size, = param
    data = bytes((k * 7 + size) % 256 for k in range(size))
    encodings = [b'\x4e' + size.to_bytes(4, 'little')]
    if size < 76:
        encodings.append(bytes([size]))
    if size < 256:
        encodings.append(bytes([76, size]))
    if size < 65536:
        encodings.append(b'\x4d' + size.to_bytes(2, 'little'))
    datas = [data] if size != 1 else [bytes([k]) for k in range(256)]
    for e, data in itertools.product(encodings, datas):
        whole = e + data
        cuts = range(len(whole) + 1) if size < 300 else sorted({0, 1, 2, 3, 4, 5, 6, len(whole) - 2, len(whole) - 1, len(whole)})
        for c in cuts:
            for pre, post in ((b'', b''), (b'\x51', b''), (b'\xae', b'\xac'), (b'\x6a\x01\xac', b'\x52\xae')) if size < 70000 and (c == len(whole) or size < 300) else ((b'', b''),):
                b = pre + whole[:c] + (post if c == len(whole) else b'')
                ctx.cur = [pre, e, size, c, post]
                classify(ctx, b)
                ctx.state(b)
                ctx.trace()
    # too long a length for what follows
    for e in (b'\x4e\xff\xff\xff\xff', b'\x4e\0\0\0\x80', b'\x4d\xff\xff', b'\x4c\xff', b'\x4e\0\0\1\0'):
        for n in (0, 1, 75):
            ctx.cur = [e, n]
            classify(ctx, b'\xac' + e + b'\xac' * n)
    ctx.trace(['push', size])


TOKENS = [b'\x51', b'\xae', b'\1a', b'\2bc', b'\0', b'\x4c\2xy', b'\x4d\1\0z', b'\5bad', b'\x4c']


def traversals(ctx, param):
    """Two traversals of one script under way at the same time"""
    for rest in itertools.product(TOKENS, repeat=2):
        b = param + b''.join(rest)
        ops, ok = S.parse(b)
        s = CScript(b)

        def guarded(it, conv):
            try:
                for x in it:
                    yield conv(x)
            except CScriptInvalidError:
                yield 'invalid'
        end = [] if ok else ['invalid']
        raw = (lambda: guarded(s.raw_iter(), lambda x: (int(x[0]), x[1], x[2])), [tuple(o) for o in ops] + end)
        element = lambda x: x if isinstance(x, bytes) else int(x)
        plain = (lambda: guarded(iter(s), lambda x: b'' if not isinstance(x, bytes) and x == 0 else element(x)), [cooked(o, d) for o, d, _ in ops] + end)
        reads = [(lambda: s.GetSigOpCount(True), CScript(b).GetSigOpCount(True)), (lambda: s.is_valid(), ok), (lambda: s.GetSigOpCount(False), CScript(b).GetSigOpCount(False)),
                 (lambda: s.has_canonical_pushes(), ok and all(canonical(o, d) for o, d, _ in ops)), (lambda: s.is_push_only(), ok and all(o <= 96 for o, _, _ in ops)),
                 (lambda: s.is_p2sh(), False), (lambda: bytes(s), b)]
        for x, y in ((raw, raw), (plain, plain), (raw, plain)):
            traverse.alternate(ctx, 'traversals', (x, y), (), [b])
            traverse.alternate(ctx, 'traversals', (x, y), reads, [b, 'used meanwhile'])
        classify(ctx, b)


def p2sh(ctx, param):
    lo, hi = param
    base = b'\xa9\x14' + bytes(range(100, 120)) + b'\x87'
    for k in range(lo, hi):
        for v in range(256):
            b = base[:k] + bytes([v]) + base[k + 1:]
            ctx.cur = [b]
            classify(ctx, b)
            ctx.state(b)
            ctx.trace()
    for n in range(0, 60):
        for b in (base[:22] * (n // 22 + 1), b'\xa9\x14' + b'\x87' * 58):
            classify(ctx, b[:n])
    for b in (base + b'\0', b'\0' + base, base[:1] + b'\x4c\x14' + base[2:], base[:2] + base[3:], base[:1] + b'\x13' + base[3:], base[:-1] + b'\x88'):
        ctx.cur = [b]
        classify(ctx, b)
    for r in (b'', b'\x51', bytes(520)):
        ctx.cur = ['redeem', len(r)]
        ctx.eq(bytes(CScript(r).to_p2sh_scriptPubKey()), b'\xa9\x14' + btc.hash160(r) + b'\x87', 'to-p2sh')
        ctx.eq(CScript(r).to_p2sh_scriptPubKey().is_p2sh(), True, 'to-p2sh')
    for n in (521, 10000):
        ctx.raises(ValueError, lambda: CScript(bytes(n)).to_p2sh_scriptPubKey(), 'to-p2sh-size')
        ctx.eq(bytes(CScript(bytes(n)).to_p2sh_scriptPubKey(checksize=False)), b'\xa9\x14' + btc.hash160(bytes(n)) + b'\x87', 'to-p2sh')
    ctx.trace([lo, hi])


KEYBYTES = (0, 1, 2, 11, 20, 21, 22)


def p2sh_pairs(ctx, param):
    """Every pair of values of every pair of the bytes of a P2SH script that matter; every length that its length bytes can claim"""
    i, j = param
    base = bytearray(b'\xa9\x14' + bytes(range(100, 120)) + b'\x87')
    for a in range(256):
        for b in range(256):
            base[i], base[j] = a, b
            t = bytes(base)
            ctx.cur = [t]
            ctx.eq(CScript(t).is_p2sh(), t[0] == 0xa9 and t[1] == 0x14 and t[22] == 0x87, 'p2sh')
            if a == 0x6a:
                ctx.eq(CScript(t).is_unspendable(), i == 0, 'unspendable')
        ctx.step(256)
        ctx.trace(n=256)
    # the same bytes, one fewer or one more anywhere
    whole = b'\xa9\x14' + bytes(range(100, 120)) + b'\x87'
    for a in range(256):
        for k in range(24):
            t = whole[:k] + bytes([a]) + whole[k:]
            ctx.cur = [t]
            ctx.eq(CScript(t).is_p2sh(), False, 'p2sh')
        ctx.step(24)
    for k in range(23):
        ctx.eq(CScript(whole[:k] + whole[k + 1:]).is_p2sh(), False, 'p2sh')
    ctx.state(i, j)
    ctx.trace([i, j])


def repeated(ctx, param):
    """One opcode any number of times, after every kind of opcode: counts and parses go on to the end of the longest script"""
    op, deep = param
    for n in list(range(0, 300)) + [520, 521, 1000, 1023, 1024, 1025, 4096, 9999, 10000, 10001, 65535, 65536, 65537]:
        for pre in (b'', b'\x51', b'\x52', b'\x60', b'\0', b'\1\x51'):
            b = pre + bytes([op]) * n
            ctx.cur = [op, n, pre]
            if n < 80 or (n in (255, 256, 257) and pre == b'\x52'):
                classify(ctx, b)
            else:
                s = CScript(b)
                ctx.eq(s.GetSigOpCount(False), S.sigops(b, False), 'sigops')
                ctx.eq(s.GetSigOpCount(True), S.sigops(b, True), 'sigops-accurate')
            ctx.step(2)
            ctx.state(op, n, pre)
            ctx.trace()
    for n in range(0, 70):
        for k in range(81, 97):
            b = (bytes([k]) + bytes([op])) * n
            ctx.cur = [op, n, k]
            s = CScript(b)
            ctx.eq((s.GetSigOpCount(False), s.GetSigOpCount(True)), (S.sigops(b, False), S.sigops(b, True)), 'sigops')
            ctx.step(2)
    ctx.trace([op])


def long(ctx, param):
    """Long scripts of all kinds of elements, with one that matters somewhere in them"""
    n, base, at = param
    unit = {'mixed': [b'\x51', b'\1\x07', b'\4data', b'\0', b'\x4f', b'\x14' + bytes(20), b'\x60', b'\x4c' + bytes([80]) + b'\x6a' * 80], 'operations': [b'\x61', b'\x76', b'\x87', b'\x6a'],
            'pushes': [b'\2\xac\xae', b'\3\xa9\x14\xaf', b'\x12' + b'\xad' * 18]}[base]
    count = n // sum(map(len, unit)) + 1
    body = [unit[i % len(unit)] for i in range(count * len(unit))]
    k = {'start': 0, 'middle': len(body) // 2, 'near the end': len(body) - 2, 'end': len(body)}[at]
    for special in (b'', b'\xac', b'\x53\xae', b'\x60\xaf', b'\xae', b'\x61', b'\1\5', b'\x4c\1\x51', b'\x4d\x80\0' + bytes(128), b'\x4e\0\0\1\0' + bytes(65536), b'\2a', b'\x4d\xff', b'\x4e\xff\xff\xff\xff'):
        b = b''.join(body[:k] + [special] + body[k:])
        ctx.cur = [n, base, at, special[:4]]
        classify(ctx, b)
        if special in (b'\2a', b'\x4d\xff') and at != 'end':
            ctx.outcome('cut')
        ctx.state(n, base, at, special[:9])
        ctx.trace()
    # built from that many elements, at once and by appending
    els = [[5, b'\x07\x08', b'data', 0, -1, 16, CScriptOp(0xac), 1000, bytes(80)][i % 9] for i in range(min(n // 4, 20000))]
    if at == 'start':
        want = b''.join(encode(e) for e in els)
        s = CScript(els)
        ctx.eq(bytes(s) == want, True, 'long-build')
        ctx.eq(bytes(CScript(iter(els))) == want, True, 'long-build')
        items = list(s)
        ctx.expect(len(items) == len(els) and all(same_element(g, *back(e)) for g, e in zip(items, els)), 'long-elements', 'elements differ')
        ctx.eq(bytes(CScript(items)) == want, True, 'long-rebuild')
        for e in els[:9]:
            ctx.eq(bytes(s + e) == want + encode(e), True, 'long-append')
        ctx.eq((s == want, s == CScript(want[:-1] + bytes([want[-1] ^ 1])), hash(s) == hash(want)), (True, False, True), 'long-equality')
    ctx.trace([n, base, at])


def sigops(ctx, param):
    """Every sequence of what matters for counting signature operations"""
    items, n, first = param
    for rest in itertools.product(items, repeat=n - 1):
        b = b''.join((first,) + rest)
        s = CScript(b)
        ctx.cur = [b]
        ctx.eq(s.GetSigOpCount(False), S.sigops(b, False), 'sigops')
        ctx.eq(s.GetSigOpCount(True), S.sigops(b, True), 'sigops-accurate')
        ctx.step(2)
        ctx.state(b)
        ctx.trace()
    ctx.trace([first, n])


def encode(e):
    """How each element has to be encoded"""
    if isinstance(e, CScriptOp):
        return bytes([int(e)])
    if isinstance(e, int):
        return S.push_num(e)
    return btc.push(bytes(e))


def back(e):
    """The (opcode, data) an element comes back as"""
    (op, data, _), = S.parse(encode(e))[0]
    return op, data


INTS = sorted({s * (b + d) for b in (0, 8, 16, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 23, 2 ** 24, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64) for d in (-2, -1, 0, 1, 2) for s in (1, -1)})


def elements():
    ops = [CScriptOp(k) for k in (79, 80, 81, 96, 97, 0x6a, 0x87, 0xac, 0xae, 0xff)]
    datas = [b'', b'\0', b'\x01', b'\x10', b'\x11', b'\x80', b'ab', bytes(75), bytes(76), bytes(255), bytes(256), bytes(65535), bytes(65536)]
    many = [t(bytes([0x51]) * k) for t in (CScript, bytearray) for k in (0, 1, 2, 75, 76, 77, 255, 256, 519, 520, 521, 522, 10000, 65535, 65536)]
    return INTS + ops + datas + [bytearray(b'xyz'), CScript(b'\x51\xac')] + many


def build(ctx, param):
    n, part, parts = param
    els = elements()
    if n > 2:
        els = [-2, -1, 0, 1, 16, 17, 128, 256, -255, CScriptOp(0x4f), CScriptOp(0x60), CScriptOp(0x6a), b'', b'\1', b'ab', bytes(75), bytes(76), bytes(256),
               bytearray(b'x'), CScript(b'\x51')]
    for c, seq in enumerate(itertools.product(els, repeat=n)):
        if c % parts != part:
            continue
        want = b''.join(encode(e) for e in seq)
        ctx.cur = [[repr(e)[:40] for e in seq]]
        s = CScript(seq)
        ctx.eq(bytes(s), want, 'build')
        ctx.eq(isinstance(s, CScript), True, 'build-type')
        ctx.eq(bytes(CScript(list(seq))), want, 'build-list')
        ctx.eq(bytes(CScript(iter(seq))), want, 'build-iterator')
        for k in range(n):
            t = CScript(seq[:k])
            for e in seq[k:]:
                t = t + e
            ctx.eq(bytes(t), want, 'append')
            ctx.eq(isinstance(t, CScript), True, 'append-type')
        items = list(s)
        ctx.expect(len(items) == n and all(same_element(g, *back(e)) for g, e in zip(items, seq)), 'elements', 'elements differ', got=[repr(i)[:60] for i in items])
        ctx.eq(bytes(CScript(items)), want, 'rebuild')
        ctx.eq((s == want, hash(s) == hash(want), s == CScript(want)), (True, True, True), 'equality')
        # a script of elements built from integers uses the shortest pushes, so that it is canonical
        if all(not isinstance(e, (bytes, bytearray)) or len(e) != 1 or e[0] > 16 for e in seq):
            ctx.eq(s.has_canonical_pushes(), True, 'built-canonical')
        ctx.step(n + 4)
        ctx.state(want)
        ctx.trace(ctx.cur)
    if n == 1 and not part:
        for bad in ('text', 1.5, None, ['a'], object()):
            ctx.cur = [repr(type(bad))]
            ctx.raises(TypeError, lambda: CScript() + bad, 'append-other')
            ctx.raises(TypeError, lambda: CScript([bad]), 'build-other')
        for k in range(-3, 20):
            ctx.cur = ['op_n', k]
            if 0 <= k <= 16:
                ctx.eq(int(CScriptOp.encode_op_n(k)), 80 + k if k else 0, 'op-n')
                ctx.eq(CScriptOp.encode_op_n(k).decode_op_n(), k, 'op-n-back')
            else:
                ctx.raises(ValueError, lambda: CScriptOp.encode_op_n(k), 'op-n-range')
        for k in range(256):
            ctx.cur = ['op', k]
            o = CScriptOp(k)
            small = k == 0 or 81 <= k <= 96
            ctx.eq(int(o), k, 'op')
            ctx.eq(bool(o.is_small_int()), small, 'small-int')
            if not small:
                ctx.raises(ValueError, lambda: o.decode_op_n(), 'op-n-other')
            if k in S.NAME:
                name = 'OP_' + S.NAME[k]
                ctx.eq(int(getattr(script_module, name)), k, 'opcode-value')
                ctx.eq(int(OPCODES_BY_NAME.get(name, -1)), k, 'opcode-by-name')
                ctx.eq(OPCODE_NAMES.get(k), name, 'opcode-name')
            ctx.step()
        for a, v in (('OP_FALSE', 0), ('OP_TRUE', 81)):
            ctx.eq(int(getattr(script_module, a)), v, 'opcode-value')


def spaces(tier):
    deep = tier == 'thorough'
    every = bytes(range(256))
    sg = [b'\0', b'\x4f', b'\x50', b'\x51', b'\x53', b'\x60', b'\x61', b'\xac', b'\xad', b'\xae', b'\xaf', b'\1\x52', b'\x4c\1\xae', b'\x4c\3\xac', b'\xba', b'\xb0']
    n = 6 if deep else 5
    return [
        core.Space('kinds of opcodes', 'every byte string of up to %d bytes over %s' % (n, ALPHABET.hex()), strings,
                   [(ALPHABET, n, bytes([a, b])) for a in ALPHABET for b in ALPHABET] + [(ALPHABET, k, bytes([a])) for a in ALPHABET for k in range(2, n)] +
                   [(ALPHABET, 1, b''), (ALPHABET, 0, b'')], disjoint=True),
        core.Space('every byte', 'every byte string of up to %d bytes' % (3 if deep else 2), strings,
                   [(every, k, bytes([a])) for a in every for k in ((3, 2) if deep else (2,))] + [(every, 1, b'')], disjoint=True),
        core.Space('pushes', 'pushes of %s bytes in every encoding, cut at every byte' % SIZES, pushes, [(s,) for s in SIZES]),
        core.Space('p2sh', 'every change of a byte of a P2SH script', p2sh, [(k, min(k + 3, 23)) for k in range(0, 23, 3)]),
        core.Space('p2sh pairs', 'every pair of values of every pair of the bytes at %s of a P2SH script' % (KEYBYTES,), p2sh_pairs,
                   [p for p in itertools.combinations(range(23) if deep else KEYBYTES, 2)]),
        core.Space('repeated', 'every opcode 0 to 299 times and around powers of two up to 65537 times', repeated,
                   [(k, deep) for k in (range(256) if deep else (0x4f, 0x51, 0x52, 0x60, 0x61, 0x6a, 0xa9, 0xab, 0xac, 0xad, 0xae, 0xaf, 0xb0, 0xff, 0, 1, 2, 75, 76, 77, 78))]),
        core.Space('long', 'scripts of up to %d bytes of three kinds with one of 13 elements in one of four places' % (1000000 if deep else 70000), long,
                   [(n, b, at) for n in [600, 2100, 9990, 16384, 33000, 70000] + ([300000, 1000000] if deep else []) for b in ('mixed', 'operations', 'pushes') for at in ('start', 'middle', 'near the end', 'end')]),
        core.Space('signature operations', 'every sequence of up to %d of %d elements' % (5 if deep else 4, len(sg)), sigops,
                   [(sg, k, f) for f in sg for k in range(1, 6 if deep else 5)]),
        core.Space('two traversals', 'every order of advancing two traversals of every script of two or three of %d elements, used meanwhile' % len(TOKENS), traversals,
                   [b''] + TOKENS),
        core.Space('building', 'every sequence of elements', build, [(0, 0, 1), (1, 0, 1)] + [(2, k, 8) for k in range(8)] + [(3, k, 8) for k in range(8)] +
                   ([(4, k, 16) for k in range(16)] if deep else [])),
    ]
