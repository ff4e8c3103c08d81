"""C29: base58 as a bijection, and its checksums"""
import itertools

from mc import core, ref
from bitcoin import base58
from bitcoin.base58 import Base58Error, InvalidBase58Error, Base58ChecksumError, CBase58Data

LEVEL = 'model_checking'
ASSUMPTIONS = ['double SHA256 does not collide on 4 bytes among the strings explored (the oracle would notice)']
ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
WRONG = [chr(c) for c in range(256) if chr(c) not in ALPHABET] + ['\u0661', '\uff11', '\u4e00', '\U0001d7cf', '\ud800', '\u0100', '\u0430']


def enc(b):
    """Base conversion digit by digit, without large integers"""
    digits = []                     # little-endian base 58
    for byte in b:
        carry = byte
        for k in range(len(digits)):
            carry += digits[k] << 8
            digits[k] = carry % 58
            carry //= 58
        while carry:
            digits.append(carry % 58)
            carry //= 58
    zeros = len(b) - len(b.lstrip(b'\0'))
    return '1' * zeros + ''.join(ALPHABET[d] for d in reversed(digits))


def dec(s):
    """The byte string, or None if a character is not in the alphabet"""
    out = []
    for c in s:
        if c not in ALPHABET:
            return None
        carry = ALPHABET.index(c)
        for k in range(len(out)):
            carry += out[k] * 58
            out[k] = carry & 255
            carry >>= 8
        while carry:
            out.append(carry & 255)
            carry >>= 8
    zeros = len(s) - len(s.lstrip('1'))
    return b'\0' * zeros + bytes(reversed(out))


def one(ctx, b):
    s = enc(b)
    ctx.eq(base58.encode(b), s, 'encode', value=b)
    got = base58.decode(s)
    ctx.eq(got, b, 'decode', string=s)
    ctx.state(b)
    ctx.step(2)


def small(ctx, first):
    """All byte strings of up to two bytes, and of three with boundary bytes"""
    ctx.cur = ['first byte', first]
    if first == 0:
        one(ctx, b'')
    one(ctx, bytes([first]))
    for second in range(256):
        one(ctx, bytes([first, second]))
        for third in (0, 1, 57, 58, 127, 128, 255):
            one(ctx, bytes([first, second, third]))
    ctx.trace([first])
    ctx.outcome('short byte strings', 1 + 256 * 8)


def lengths(ctx, ns):
    """Boundary values of every length: one byte set, powers of the bases and their neighbours, zeros before them"""
    for n in ns:
        ctx.cur = ['length', n]
        vals = {b'\0' * n, b'\xff' * n, bytes(range(1, n + 1)) if n < 255 else b'\1' * n}
        for at in range(n):
            for v in (1, 57, 58, 255):
                vals.add(b'\0' * at + bytes([v]) + b'\0' * (n - at - 1))
                vals.add(b'\xff' * at + bytes([v]) + b'\0' * (n - at - 1))
        p = 1
        while p < 256 ** n:
            for q in (p - 1, p, p + 1):
                if 0 <= q < 256 ** n:
                    vals.add(q.to_bytes(n, 'big'))
            p *= 58
        for b in vals:
            one(ctx, b)
        ctx.outcome('boundary values', len(vals))
        ctx.trace([n, len(vals)])


def strings(ctx, param):
    """All short strings over the alphabet are the encoding of what they decode to"""
    first, n = param
    for rest in itertools.product(ALPHABET, repeat=n - 1):
        s = first + ''.join(rest)
        ctx.cur = [s]
        want = dec(s)
        got = base58.decode(s)
        ctx.eq(got, want, 'decode', string=s)
        ctx.eq(base58.encode(got), s, 'encode', string=s)
        ctx.step(2)
        ctx.state(s)
    ctx.outcome('strings', 58 ** (n - 1))
    ctx.trace([first, n])


def wrong(ctx, chars):
    """Any other character at any position is an error, and the base58 one"""
    for c in chars:
        for base in ('', '1', '11', '2', '1z', 'zzzz', '1BoatSLRHtKNngkdXEeobR76b53LETtpyT'):
            for at in range(len(base) + 1):
                for s in (base[:at] + c + base[at:], base[:at] + c + base[at + 1:]):
                    ctx.cur = [s]
                    ctx.raises(InvalidBase58Error, lambda: base58.decode(s), 'not base58: decode', string=s)
                    ctx.raises(InvalidBase58Error, lambda: CBase58Data(s), 'not base58: data', string=s)
                    ctx.step(2)
                    ctx.state(s)
        ctx.outcome('foreign characters')
        ctx.trace([c])


def meaning(s):
    """What a string of checked data means: (version, payload), or the error"""
    b = dec(s)
    if b is None:
        return InvalidBase58Error
    if len(b) < 5 or ref.dsha(b[:-4])[:4] != b[-4:]:
        return Base58ChecksumError
    return (b[0], b[1:-4])


def judge(ctx, s, key):
    want = meaning(s)
    ctx.cur = [s]
    ctx.step()
    ctx.state(s)
    if isinstance(want, type):
        ctx.raises(want, lambda: CBase58Data(s), key, string=s)
        return False
    d = CBase58Data(s)
    ctx.eq((d.nVersion, bytes(d), d.to_bytes()), want + (want[1],), key, string=s)
    ctx.eq(str(d), s, key + ': back', string=s)
    return True


def payloads():
    out = [b'\0' * n for n in range(0, 41)] + [b'\xff' * n for n in range(1, 41)] + [bytes(range(n)) for n in range(2, 41)]
    return out + [b'\0' * 80, b'\x01' * 100, bytes(range(256))]


def checked(ctx, versions):
    """Checked data of every version"""
    for v in versions:
        for p in payloads():
            ctx.cur = [v, p]
            d = CBase58Data.from_bytes(p, v)
            ctx.eq((d.nVersion, bytes(d), d.to_bytes()), (v, p, p), 'from_bytes')
            s = enc(bytes([v]) + p + ref.dsha(bytes([v]) + p)[:4])
            ctx.eq(str(d), s, 'string')
            ctx.expect(judge(ctx, s, 'parse'), 'parse', string=s)
            ctx.outcome('checked data')
        ctx.trace([v])


class Sub(CBase58Data):
    """As its parent"""


def remade(ctx, v1):
    """Checked data made of checked data: of its own class or another, of its own version or another; the first is untouched"""
    for p in (b'', b'\0', b'abc', bytes(range(20)), bytes(range(32)), b'\xff' * 40):
        for first, second in itertools.product((CBase58Data, Sub), repeat=2):
            a = first.from_bytes(p, v1)
            for v2 in range(256):
                ctx.cur = [first.__name__, second.__name__, v1, v2, p]
                b = second.from_bytes(a, v2)
                ctx.expect(b.__class__ is second, 'remade: class', got=b.__class__.__name__)
                ctx.eq((a.__class__, a.nVersion, a.to_bytes()), (first, v1, p), 'remade: the first one')
                ctx.eq((b.nVersion, b.to_bytes(), bytes(b)), (v2, p, p), 'remade: the second one')
                ctx.step()
                ctx.state((first.__name__, second.__name__, p, v2))
            sa, sb = (enc(bytes([v]) + p + ref.dsha(bytes([v]) + p)[:4]) for v in (v1, 255 - v1))
            c = second.from_bytes(a, 255 - v1)
            ctx.eq((str(a), str(c)), (sa, sb), 'remade: strings')
            again = second(str(a))
            ctx.eq((again.__class__, again.nVersion, again.to_bytes(), str(a)), (second, v1, p, sa), 'remade: from the string')
    ctx.outcome('remade')
    ctx.trace([v1])


BASES = [(0, bytes(range(20))), (5, b'\xff' * 20), (128, bytes(range(200, 233))), (0, b'\0' * 20), (255, b''), (0, b''), (0, b'\0'), (111, b'\1')]


def corrupt(ctx, param):
    """All single-character replacements, insertions, deletions and transpositions; all single-bit flips of the bytes"""
    k, deep = param
    v, p = BASES[k]
    raw = bytes([v]) + p
    raw += ref.dsha(raw)[:4]
    s = enc(raw)
    ctx.eq(str(CBase58Data.from_bytes(p, v)), s, 'string')
    changed = set()
    for at in range(len(s) + 1):
        for c in ALPHABET:
            changed.add(s[:at] + c + s[at:])
            changed.add(s[:at] + c + s[at + 1:])
        changed.add(s[:at] + s[at + 1:])
        changed.add(s[:at])
        changed.add(s[at:])
        changed.add(s[:at] + s[at:][::-1])
        for other in range(at + 1, len(s)):
            t = list(s)
            t[at], t[other] = t[other], t[at]
            changed.add(''.join(t))
        for c in (' ', '\n', '0', 'O', 'I', 'l', '-'):
            changed.add(s[:at] + c + s[at:])
    for n in range(1, 4):
        changed.add('1' * n + s)
        changed.add(s + '1' * n)
        changed.add(s * (n + 1))
    for bit in range(8 * len(raw)):
        changed.add(enc((int.from_bytes(raw, 'big') ^ 1 << bit).to_bytes(len(raw), 'big')))
        if deep:
            for b2 in range(bit):
                changed.add(enc((int.from_bytes(raw, 'big') ^ 1 << bit ^ 1 << b2).to_bytes(len(raw), 'big')))
    for at in range(len(raw)):
        for x in range(256):
            changed.add(enc(raw[:at] + bytes([x]) + raw[at + 1:]))
    for n in range(len(raw)):
        changed.add(enc(raw[:n]))
        changed.add(enc(raw[n:]))
        changed.add(enc(raw[n:] + raw[:n]))
    # a checksum of something close: of the payload without version, single hash, other end of the digest
    body = raw[:-4]
    import hashlib
    for check in (ref.dsha(body[1:])[:4], hashlib.sha256(body).digest()[:4], ref.dsha(body)[-4:], ref.dsha(body)[3::-1], b'\0' * 4, ref.dsha(body + b'\0')[:4]):
        changed.add(enc(body + check))
    good = 0
    for t in sorted(changed):
        good += judge(ctx, t, 'corrupted')
    ctx.outcome('corruptions', len(changed))
    ctx.outcome('still valid', good)
    ctx.trace([k, len(changed)])


def short(ctx, param):
    """Every string too short to hold a version and a checksum"""
    kind, arg = param
    if kind == 'chars':
        for rest in itertools.product(ALPHABET, repeat=2):
            judge(ctx, arg + ''.join(rest), 'short')
        for c in ALPHABET:
            judge(ctx, arg + c, 'short')
        judge(ctx, arg, 'short')
    else:
        judge(ctx, '', 'short')
        for n in range(0, 12):
            judge(ctx, '1' * n, 'zeros')
        for body in (b'', b'\0', b'\1'):
            for n in range(0, 5):
                judge(ctx, enc(body + ref.dsha(body)[:n]), 'cut checksum')
        for v in (-1, 256, 257, -256, 1000, 2 ** 32):
            ctx.raises(ValueError, lambda: CBase58Data.from_bytes(b'x' * 20, v), 'version out of range', version=v)
            ctx.step()
    ctx.outcome('short strings')
    ctx.trace([kind, arg])


def spaces(tier):
    deep = tier == 'thorough'
    return [
        core.Space('bytes', {'all byte strings of up to': 2, 'three bytes': 'the third at the boundaries'}, small, range(256), disjoint=True),
        core.Space('lengths', {'lengths': 130 if deep else 64}, lengths, [list(range(1, 130 if deep else 65))[k::16] for k in range(16)]),
        core.Space('strings', {'all strings of': 4 if deep else 3}, strings,
                   [(c, n) for n in range(1, 5 if deep else 4) for c in ALPHABET], disjoint=True),
        core.Space('foreign', {'characters': len(WRONG), 'positions': 'all of seven strings'}, wrong, [WRONG[k::8] for k in range(8)]),
        core.Space('checked', {'versions': 256, 'payloads': len(payloads())}, checked, [range(k, 256, 16) for k in range(16)], disjoint=True),
        core.Space('remade', {'versions': '256 of 256', 'payloads': 6, 'classes': 4}, remade, range(256), disjoint=True),
        core.Space('corrupt', {'strings': len(BASES), 'edits': 'all of one character, all pairs swapped, all one-bit and one-byte changes' +
                               (', all two-bit changes' if deep else '')}, corrupt, [(k, deep) for k in range(len(BASES))]),
        core.Space('short', {'all strings of up to': 3}, short, [('chars', c) for c in ALPHABET] + [('others', None)]),
    ]
