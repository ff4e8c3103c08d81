"""C35: what is displayed of an object is faithful: it evaluates back to the object, or names its contents"""
import binascii, contextlib, decimal, io, itertools, re
from fractions import Fraction

from mc import core, ref, btc, script as sc
from mc.props import c19, c31
from mc.props.c19 import HASHES, U32, I32, I64
import bitcoin, bitcoin.core, bitcoin.core.script, bitcoin.core.key, bitcoin.wallet, bitcoin.base58
from bitcoin.core import (x, b2x, lx, b2lx, str_money_value, COutPoint, CMutableOutPoint, CTxIn, CTxOut, CTransaction, CBlockHeader, CBlock)
from bitcoin.core.script import CScript, CScriptOp
from bitcoin.core.key import CPubKey
from bitcoin.core.serialize import uint256_from_str, uint256_to_shortstr
from proofmarshal.bits import Bits
from proofmarshal.mmr import MerkleMountainRange, make_mmr_subclass
from proofmarshal.proof import Proof
from proofmarshal.serialize import UInt8, HashTag

LEVEL = 'model_checking'
ASSUMPTIONS = ['the amount in a displayed output is read as an exact decimal number of coins, not as a binary fraction']
ENV = {}
for _m in (bitcoin.core, bitcoin.core.script, bitcoin.core.key, bitcoin.wallet, bitcoin.base58):
    ENV.update({k: getattr(_m, k) for k in dir(_m) if not k.startswith('_')})
ENV.update({'Bits': Bits, 'HashTag': HashTag, 'D': decimal.Decimal})
HEX = '0123456789abcdefABCDEF'


def evaluate(text):
    return eval(re.sub(r'(?<![\w.])(-?\d+\.\d+)\*COIN', r"D('\1')*COIN", text), dict(ENV))


# -- hexadecimal --------------------------------------------------------------------------------------------------------

def one_hex(ctx, b):
    h = ''.join('%02x' % c for c in b)
    r = ''.join('%02x' % c for c in reversed(b))
    ctx.cur = [b]
    ctx.eq((b2x(b), b2lx(b)), (h, r), 'hex')
    ctx.eq((x(h), lx(r)), (b, b), 'unhex')
    ctx.eq((x(h.upper()), lx(r.upper())), (b, b), 'unhex-upper')
    ctx.step(3)
    ctx.state('hex', b)


def hexes(ctx, param):
    first, = param
    for b in [bytes([first])] + [bytes([first, k]) for k in range(256)] + [bytes([first, k, l]) for k in (0, 1, 0x7f, 0x80, 0xff) for l in range(256)]:
        one_hex(ctx, b)
    for n in ([first] if first else [0]) + [256 + first, 520 + first]:
        one_hex(ctx, bytes((first + k * 7) % 256 for k in range(n)))
        one_hex(ctx, bytes(n))
        one_hex(ctx, b'\0' * (n // 2) + bytes([first]) * (n - n // 2))
    c = chr(first)
    for text in [c] + [c + chr(k) for k in range(256)] + ['0' + c, c * 3, '00' + c + '0', '0' + c + '00', c + '00', '00' + c, '00' + c + '00', c * 2 + '00', '00' + c * 2, '00' + c * 2 + '00']:
        if len(text) % 2 or any(k not in HEX for k in text):
            ctx.cur = [text]
            ctx.raises(ValueError, lambda: x(text), 'not hexadecimal')
            ctx.raises(ValueError, lambda: lx(text), 'not hexadecimal')
            ctx.step()
    if first < 32:
        b = ref.sha256(bytes([first]))
        for b in (b, b'\0' * first + b[first:], b[:first] + b'\0' * (32 - first), b'\0' * first + b'\1' + b'\0' * (31 - first)):
            n = int.from_bytes(b, 'little')
            ctx.cur = [b]
            ctx.eq(uint256_from_str(b), n, 'number')
            ctx.eq(uint256_to_shortstr(n), ('%064x' % n)[:16], 'short')
            ctx.step()
    ctx.trace([first])


# -- amounts ------------------------------------------------------------------------------------------------------------

def amount(v):
    """The shortest decimal with at least one digit behind the point"""
    whole, part = divmod(v, 10 ** 8)
    digits = ('%d' % (10 ** 8 + part))[1:]
    while len(digits) > 1 and digits[-1] == '0':
        digits = digits[:-1]
    return '%d.%s' % (whole, digits)


def amounts(ctx, param):
    part, parts, deep = param
    vals = set(range(0, 2000 if not deep else 20000))
    for k in range(19):
        for d in range(1, 100):
            vals |= {d * 10 ** k, d * 10 ** k + 1, d * 10 ** k - 1}
        for k2 in range(k):
            for d, e in itertools.product((1, 2, 5, 9), repeat=2):
                vals |= {d * 10 ** k + e * 10 ** k2, d * 10 ** k - e * 10 ** k2}
    for k in range(64):
        vals |= {2 ** k, 2 ** k - 1, 2 ** k + 1}
    for pattern in itertools.product((0, 1, 9), repeat=8 if deep else 6):
        for whole in (0, 1, 10, 20999999):
            vals.add(whole * 10 ** 8 + int(''.join(map(str, pattern))) * (1 if deep else 100) + (0 if deep else 1))
            vals.add(whole * 10 ** 8 + int(''.join(map(str, pattern))))
    for v in sorted(vals):
        if v % parts == part and 0 <= v < 2 ** 63:
            ctx.cur = [v]
            ctx.eq(str_money_value(v), amount(v), 'amount')
            e = evaluate(repr(CTxOut(v, CScript())))
            ctx.eq((type(e), e.nValue, bytes(e.scriptPubKey)), (CTxOut, v, b''), 'output')
            ctx.step(2)
            ctx.state(v)
    for v in I64 + [-2, -10 ** 8, -10 ** 8 - 1, -5 * 10 ** 7]:
        o = CTxOut(v, CScript([b'a']))
        ctx.cur = [v]
        e = evaluate(repr(o))
        ctx.eq((type(e), e.nValue, bytes(e.scriptPubKey)), (CTxOut, v, b'\1a'), 'output-evaluated')
        ctx.step()
    ctx.trace([part])


# -- scripts ------------------------------------------------------------------------------------------------------------

def name(op, data):
    if op <= 78:
        return "x('%s')" % data.hex() if op else '0'
    if op == 79:
        return '-1'
    if 81 <= op <= 96:
        return str(op - 80)
    return None


def items(text):
    """The elements a displayed script lists"""
    assert text.startswith('CScript([') and text.endswith('])'), text
    return [t for t in text[9:-2].split(', ') if t]


def one_script(ctx, b):
    ctx.cur = [b]
    if not ctx.state('script', b):
        return
    ops, fine = sc.parse(b)
    text = repr(CScript(b))
    ctx.step()
    if fine:
        ctx.outcome('well formed')
        e = evaluate(text)
        if ctx.eq(type(e), CScript, 'type'):
            ctx.eq([(op or 0, d) for op, d, _ in sc.parse(bytes(e))[0] if op > 78], [(op, d) for op, d, _ in ops if op > 78], 'operations')
            ctx.eq([d for op, d, _ in sc.parse(bytes(e))[0] if op <= 78], [d for op, d, _ in ops if op <= 78], 'data')
            ctx.eq([op > 78 for op, d, _ in sc.parse(bytes(e))[0]], [op > 78 for op, d, _ in ops], 'order')
            if all(op > 78 or bytes(canonical(d)) == b[at:at + len(canonical(d))] for op, d, at in ops):
                ctx.eq(bytes(e), b, 'evaluated')
    else:
        ctx.outcome('malformed')
        good = b[:sc_end(b, ops)]
        mine = items(repr(CScript(good)))
        rest = text[len('CScript([' + ', '.join(mine)) + (2 if mine else 0):]
        ctx.eq(text.startswith('CScript([' + ', '.join(mine)), True, 'operations before the error')
        ctx.eq(rest.endswith('>])') and '<ERROR: ' in rest, True, 'error shown', rest=rest)
        at = len(good)
        width = (0, 1, 2, 4)[max(0, b[at] - 75)]
        if len(b) - at - 1 >= width and b[at] <= 78:
            ctx.eq(rest.split('...<ERROR: ')[0], "x('%s')" % b[at + 1 + width:].hex(), 'what there is of the data')


def canonical(d):
    n = len(d)
    return (bytes([n]) if n < 76 else b'\x4c' + bytes([n]) if n < 256 else b'\x4d' + n.to_bytes(2, 'little') if n < 65536 else b'\x4e' + n.to_bytes(4, 'little')) + d


def sc_end(b, ops):
    if not ops:
        return 0
    op, d, at = ops[-1]
    return at + 1 + ((0, 1, 2, 4)[max(0, op - 75)] + len(d) if op <= 78 else 0)


ALPHABET = bytes([0, 1, 2, 75, 76, 77, 78, 79, 80, 81, 96, 97, 0x6a, 0x76, 0xac, 0xae, 0xb9, 0xba, 0xf9, 0xfa, 0xff])


def scripts(ctx, param):
    first, depth = param
    if depth == 'pairs':
        for k in range(256):
            for tail in (b'', b'\0', b'\xac', b'ab'):
                one_script(ctx, bytes([first, k]) + tail)
        one_script(ctx, bytes([first]))
        if not first:
            one_script(ctx, b'')
    elif depth == 'pushes':
        for n in (0, 1, 2, 16, 17, 74, 75, 76, 77, 254, 255, 256, 257, 520, 521, 65535, 65536):
            d = bytes((first + k) % 256 for k in range(n))
            for head in (([bytes([n])] if n < 76 else []) + ([b'\x4c' + bytes([n])] if n < 256 else []) + ([b'\x4d' + n.to_bytes(2, 'little')] if n < 65536 else []) +
                         [b'\x4e' + n.to_bytes(4, 'little')]):
                for tail in (b'', b'\xac', b'\1'):
                    one_script(ctx, head + d + tail)
                    one_script(ctx, b'\x51' + head + d + tail)
                for cut in (1, 2, n // 2, n):
                    one_script(ctx, b'\x51' + (head + d)[:-cut] if cut else b'')
        for v in [first, -first, first * 257, -first * 257, first << 16, first << 31]:
            s = CScript([v])
            ctx.cur = [v]
            ctx.eq(bytes(evaluate(repr(s))), bytes(s), 'number')
            ctx.step()
    elif depth == 'long':
        for n in (60, 61, 62, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 199, 200, 201, 202, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1024, 2000, 5000, 9999, 10000, 10001):
            for op in (b'\x61', b'\x51', b'\x01a', b'\xba', b'\x00'):
                for tail in (b'', b'\x05ab', b'\x4d\1', b'\x4c'):
                    if (n + op[0]) % 8 == first:
                        one_script(ctx, op * n + tail)
    else:
        for rest in itertools.product(ALPHABET, repeat=depth - 1):
            one_script(ctx, bytes((first,) + rest))
    if depth == 'pairs':
        op = CScriptOp(first)
        ctx.eq((int(evaluate(repr(op))), str(op)), (first, repr(op)), 'operation')
        named = sc.NAME.get(first)
        if named and first > 75:
            ctx.eq(repr(op), 'OP_' + named, 'name')
    ctx.trace([first, depth])


# -- chain objects ------------------------------------------------------------------------------------------------------

def same(ctx, o, w):
    """What is displayed evaluates to an object with the same wire format"""
    text = repr(o)
    e = evaluate(text)
    ctx.eq(e.serialize(), w, 'evaluated', text=text)
    ctx.eq(e == o, True, 'evaluated-equal', text=text)
    ctx.step()


def chain(ctx, param):
    kind, part, parts, deep = param
    _, cls, make, wire = c19.KINDS[kind]
    tidy = {}
    vals = list(c19.values(kind, False)) + (list(c19.fields(c19.KINDS[kind][0], False)) if not kind.endswith('block') else [])
    for c, v in enumerate(vals):
        if c % parts != part or (not deep and c % 3 and c > 3000):
            continue
        v = friendly(c19.KINDS[kind][0], v)
        w = wire(v)
        if not ctx.state(kind, w):
            continue
        ctx.cur = [kind, v]
        o = make(v)
        if kind == 'block':
            text = repr(o)
            ctx.eq(text, repr(CBlockHeader(*v[0])).replace('CBlockHeader(', 'CBlock(', 1), 'block shows its header')
            ctx.step()
        else:
            same(ctx, o, w)
        ctx.trace()
    ctx.trace([kind, part])


def friendly(kind, v):
    """The same value with scripts that push their data in the usual way (others need not evaluate back)"""
    def usual(s):
        return canonical(s) if len(s) != 1 else s if s[0] > 78 else b'\x51'
    if kind == 'txin':
        return (v[0], usual(v[1]), v[2])
    if kind == 'txout':
        return (v[0], usual(v[1]))
    if kind == 'tx':
        return (v[0], tuple(friendly('txin', i) for i in v[1]), tuple(friendly('txout', o) for o in v[2]), v[3])
    if kind == 'block':
        return (v[0], tuple(friendly('tx', t) for t in v[1]))
    return v


def difficulty(ctx, param):
    size, deep = param
    ms = sorted({m for k in range(24) for m in (2 ** k - 1, 2 ** k, 2 ** k + 1, 3 << k >> 1)} | {0xffff, 0x404cb, 0x7fffff, 0xffffff} | set(range(1, 300)))
    for m in ms:
        if 0 < m < 2 ** 24:
            n = size << 24 | m
            ctx.cur = [hex(n)]
            want = Fraction(0xffff, m) * Fraction(256) ** (29 - size)
            for got in (CBlockHeader.calc_difficulty(n), CBlockHeader(nBits=n).difficulty):
                ctx.eq(type(got), float, 'difficulty-type')
                if ctx.expect(abs(Fraction(got) - want) <= want / 10 ** 12, 'difficulty', 'got %r, expected about %r' % (got, float(want))):
                    ctx.step()
            ctx.state(n)
    ctx.trace([size])


# -- keys, addresses, bits, tags, proofs ----------------------------------------------------------------------------------

class Item(Proof):
    HASHTAG = HashTag('0e2b9f1c-6e0f-4d0c-8d39-9a1c2b1a7b35')
    SERIALIZED_ATTRS = [('n', UInt8)]


@make_mmr_subclass
class Numbers(MerkleMountainRange):
    __slots__ = []
    HASHTAG = HashTag('738b5a85-d6f1-4873-9c21-300a01166f35')
    VALUE_SERIALIZER = UInt8


def others(ctx, param):
    what, deep = param
    if what == 'keys':
        for n in list(range(0, 70)) + [520]:
            for k in range(0, 256, 1 if n in (1, 33) else 51):
                b = (bytes([k]) + ref.sha256(bytes([k])) * 20)[:n]
                p = CPubKey(b)
                ctx.cur = [b]
                for text in (repr(p), str(p)):
                    e = evaluate(text)
                    ctx.eq((type(e), bytes(e)), (CPubKey, b), 'key')
                    ctx.step()
                ctx.state(b)
    elif what == 'addresses':
        for chain in ('mainnet', 'testnet', 'regtest'):
            bitcoin.SelectParams(chain)
            for k in range(256):
                b = (bytes([k]) * (k % 20) + ref.sha256(bytes([k])) + bytes(20))[:20]
                for a in (bitcoin.wallet.P2PKHBitcoinAddress.from_bytes(b), bitcoin.wallet.P2SHBitcoinAddress.from_bytes(b)):
                    ctx.cur = [chain, b, type(a).__name__]
                    e = evaluate(repr(a))
                    ctx.eq((type(e), bytes(e), e.nVersion), (type(a), b, a.nVersion), 'address')
                    ctx.step()
                for compressed in (True, False):
                    s = bitcoin.wallet.CBitcoinSecret.from_secret_bytes(ref.sha256(bytes([k])), compressed)
                    ctx.cur = [chain, k, compressed]
                    e = evaluate(repr(s))
                    ctx.eq((type(e), bytes(e), e.nVersion, e.is_compressed), (type(s), bytes(s), s.nVersion, compressed), 'secret')
                    ctx.step()
                for version in (0, 5, 111, 196, 128, 239, k):
                    d = bitcoin.base58.CBase58Data.from_bytes(b[:k % 21], version)
                    e = evaluate(repr(d))
                    ctx.eq((type(e), bytes(e), e.nVersion), (type(d), b[:k % 21], version), 'data')
                    ctx.step()
                ctx.state(chain, b)
        bitcoin.SelectParams('mainnet')
    elif what == 'bits':
        for n in range(0, 13 if not deep else 17):
            for bits in itertools.product((0, 1), repeat=n):
                ctx.cur = [list(bits)]
                o = Bits(bool(b) for b in bits)
                ctx.eq(repr(o), 'Bits([%s])' % ','.join(map(str, bits)), 'bits')
                e = evaluate(repr(o))
                ctx.eq((type(e), tuple(e), e == o), (Bits, tuple(map(bool, bits)), True), 'bits-evaluated')
                ctx.step(2)
                ctx.state(bits)
        for n in (255, 256, 257, 1000):
            bits = [k * k % 7 < 3 for k in range(n)]
            ctx.eq(tuple(evaluate(repr(Bits(bits)))), tuple(bits), 'bits-evaluated')
    elif what == 'tags':
        tags = [bytes([k]) * 16 for k in range(256)] + [ref.sha256(bytes([k]))[:16] for k in range(256)] + [bytes(k) + b'\xa5' + bytes(15 - k) for k in range(16)]
        for b in tags:
            h = b.hex()
            h = '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
            for text in (h, h.upper()):
                t = HashTag(text)
                ctx.cur = [b]
                ctx.eq((bytes(t), str(t), repr(t)), (b, h, "HashTag('%s')" % h), 'tag')
                ctx.eq(bytes(evaluate(repr(t))), b, 'tag-evaluated')
                ctx.step(2)
            u = t.derive(b'x')
            ctx.eq((type(evaluate(repr(u))), bytes(evaluate(repr(u)))), (HashTag, bytes(u)), 'tag-derived')
            ctx.state(b)
    else:
        for k in range(256):
            p = Item(n=k)
            ctx.cur = [k]
            for q in (p, p.prune(), Item.deserialize(p.serialize())):
                ctx.eq(repr(q), '%s.Item(<%s>)' % (__name__, p.hash.hex()), 'proof')
                ctx.step()
            ctx.state('proof', k)
        for n in range(0, 40):
            l = [(k * 7 + n) % 256 for k in range(n)]
            ctx.cur = [n]
            r = Numbers(l)
            for q in (r, r.prune(), Numbers.deserialize(r.serialize()), r[0:n]):
                ctx.eq(repr(q), 'Numbers(%r)' % l, 'range')
                ctx.step()
            for a in range(0, n + 1, 3):
                for b in range(a, n + 1, 2):
                    ctx.eq(repr(r[a:b]), 'Numbers(%r)' % l[a:b], 'range-part')
                    ctx.step()
            ctx.state('range', n)
    ctx.trace([what])


# -- network ------------------------------------------------------------------------------------------------------------

def network(ctx, param):
    """Every message, however made, is displayed by its name, its inventories distinctly"""
    command, part, parts = param
    blank = c31.cls_of(command)()
    if not part:
        ctx.cur = [command, 'new']
        ctx.eq(repr(blank).split('(')[0], 'msg_' + command, 'name of a new message')
    for c, v in enumerate(c31.message_values()[command]):
        if c % parts == part and (c < 60 or len(repr(v)) < 20000):
            ctx.cur = [command, v]
            m = c31.make(command, v)
            text = repr(m)
            body = c31.frame(c31.CHAINS['mainnet'][1], command, c31.KINDS[command][0](v))
            ctx.eq(repr(c31.read(io.BytesIO(body))), text, 'displayed alike after transport')
            ctx.eq(text.split('(')[0], 'msg_' + command, 'name')
            ctx.step(2)
            ctx.state(command, repr(v))
            ctx.trace()
    if command in ('ping', 'pong'):
        for k in range(64):
            m = c31.make(command, 2 ** k)
            ctx.eq(int(re.search(r'0x([0-9a-fA-F]+)', repr(m)).group(1), 16), 2 ** k, 'nonce')
    if command == 'inv' and not part:
        seen = {}
        for v in c31.struct_values('inv') + [(t, bytes([b]) * 32) for t in range(0, 9) for b in range(256)]:
            text = repr(c31.mk_inv(v))
            ctx.cur = [v]
            ctx.eq(seen.setdefault(text, v), v, 'inventories displayed alike')
            ctx.expect(v[1].hex() in text or v[1][::-1].hex() in text, 'inventory shows its hash', text)
            ctx.step(2)
        repr(bitcoin.net.CInv())
        for s in c31.STRUCTS:
            for v in c31.struct_values(s):
                text = repr(c31.STRUCTS[s][1](v))
                ctx.cur = [s, v]
                ctx.eq(text.split('(')[0], c31.STRUCTS[s][3].__name__, 'name of a structure')
                ctx.step()
    ctx.trace([command, part])


def spaces(tier):
    deep = tier == 'thorough'
    depth = 5 if deep else 4
    return [
        core.Space('scripts', 'every byte string of length 2, with a tail; every string of length %d over %d bytes; pushes of all sizes and encodings, cut short or not; scripts of up to 10001 equal operations' % (depth, len(ALPHABET)),
                   scripts, [(k, d) for k in ALPHABET for d in range(3, depth + 1)] + [(k, 'pairs') for k in range(256)] + [(k, 'pushes') for k in range(0, 256, 1 if deep else 8)] + [(k, 'long') for k in range(8)]),
        core.Space('chain', 'outpoints, inputs, outputs, transactions, headers, blocks: each field over its range and combinations of fields', chain,
                   [(k, p, 4, deep) for k in c19.KINDS for p in range(4)]),
        core.Space('network', 'every message and structure over the ranges of its fields, before and after transport', network, [(c, p, 2) for c in c31.COMMANDS for p in range(2)]),
        core.Space('amounts', 'amounts of every digit pattern and magnitude', amounts, [(p, 8, deep) for p in range(8)]),
        core.Space('hexadecimal', 'all byte strings of up to two bytes and some of every length; all texts of up to two characters', hexes, [(k,) for k in range(256)]),
        core.Space('difficulty', 'every size and 300 and more mantissas', difficulty, [(k, deep) for k in range(0, 40)]),
        core.Space('others', 'keys, addresses, bits, tags, proofs and ranges', others, [(w, deep) for w in ('keys', 'addresses', 'bits', 'tags', 'proofs')]),
    ]
