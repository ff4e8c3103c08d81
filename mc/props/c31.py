"""C31: network messages and their frames, against independent encoders"""
import contextlib, io, itertools

from mc import core, ref, btc
from mc.props.c19 import mk_tx, mk_mutable, view, values, HASHES, U32, I32, script
import bitcoin
from bitcoin import messages, net
from bitcoin.core import CBlock, CTransaction
from bitcoin.core.serialize import SerializationError, SerializationTruncationError, DeserializationExtraDataError, Serializable

LEVEL = 'model_checking'
ASSUMPTIONS = ['streams return all the bytes asked for unless they end', 'double SHA256 does not collide on 4 bytes among the corrupted frames']
CHAINS = {'mainnet': (bitcoin.MainParams(), b'\xf9\xbe\xb4\xd9'), 'testnet': (bitcoin.TestNetParams(), b'\x0b\x11\x09\x07'),
          'regtest': (bitcoin.RegTestParams(), b'\xfa\xbf\xb5\xda')}
ERRORS = (ValueError, SerializationError)
M = 2 ** 32 - 1
U64 = [0, 1, 255, 256, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 0x0102030405060708]
I64 = [0, 1, -1, 255, 2 ** 31, 2 ** 32, 2 ** 63 - 1, -2 ** 63]
I31 = [0, 1, -1, 255, 256, 2 ** 31 - 1, -2 ** 31, 0x01020304]


def u64(n):
    return n.to_bytes(8, 'little')


# -- structures: (plain values, encoder, maker, viewer); plain values are tuples ------------------------------------------

def enc_address(a, timed=True):
    t, services, reserved, ip, port = a
    return (btc.u32(t) if timed else b'') + u64(services) + reserved + bytes(int(p) for p in ip.split('.')) + port.to_bytes(2, 'big')


def mk_address(a):
    c = net.CAddress()
    c.nTime, c.nServices, c.pchReserved, c.ip, c.port = a
    return c


def view_address(c):
    return (c.nTime, c.nServices, c.pchReserved, c.ip, c.port)


def enc_inv(i):
    return btc.i32(i[0]) + i[1]


def mk_inv(i):
    c = net.CInv()
    c.type, c.hash = i
    return c


def view_inv(c):
    return (c.type, c.hash)


def enc_locator(v):
    return btc.i32(v[0]) + btc.varint(len(v[1])) + b''.join(v[1])


def mk_locator(v):
    c = net.CBlockLocator()
    c.nVersion, c.vHave = v[0], list(v[1])
    return c


def view_locator(c):
    return (c.nVersion, tuple(c.vHave))


UNSIGNED = [('nVersion', 'i'), ('nRelayUntil', 'q'), ('nExpiration', 'q'), ('nID', 'i'), ('nCancel', 'i'), ('setCancel', 'ints'), ('nMinVer', 'i'), ('nMaxVer', 'i'),
            ('setSubVer', 'strs'), ('nPriority', 'i'), ('strComment', 's'), ('strStatusBar', 's'), ('strReserved', 's')]
ENC = {'i': btc.i32, 'q': btc.i64, 's': btc.varstr, 'ints': lambda v: btc.varint(len(v)) + b''.join(map(btc.i32, v)),
       'strs': lambda v: btc.varint(len(v)) + b''.join(map(btc.varstr, v))}


def enc_unsigned(v):
    return b''.join(ENC[k](x) for x, (_, k) in zip(v, UNSIGNED))


def mk_unsigned(v):
    c = net.CUnsignedAlert()
    for x, (name, k) in zip(v, UNSIGNED):
        setattr(c, name, list(x) if k in ('ints', 'strs') else x)
    return c


def view_unsigned(c):
    return tuple(tuple(getattr(c, n)) if k in ('ints', 'strs') else getattr(c, n) for n, k in UNSIGNED)


def mk_alert(v):
    c = net.CAlert()
    c.vchMsg, c.vchSig = v
    return c


STRUCTS = {'address': (enc_address, mk_address, view_address, net.CAddress), 'inv': (enc_inv, mk_inv, view_inv, net.CInv),
           'locator': (enc_locator, mk_locator, view_locator, net.CBlockLocator),
           'unsigned alert': (enc_unsigned, mk_unsigned, view_unsigned, net.CUnsignedAlert),
           'alert': (lambda v: btc.varstr(v[0]) + btc.varstr(v[1]), mk_alert, lambda c: (c.vchMsg, c.vchSig), net.CAlert)}
A0 = (1, 1, b'\0' * 10 + b'\xff\xff', '1.2.3.4', 8333)
STRS = [b'', b'\0', b'abc', b'\xff' * 252, b'y' * 253, bytes(range(256)), b'z' * 70000]


def cross(*fields):
    return list(itertools.product(*fields))


def struct_values(name, deep=False):
    if name == 'address':
        out = [(t,) + A0[1:] for t in U32] + [(5, s) + A0[2:] for s in U64] + [(1, 1, r) + A0[3:] for r in (b'\0' * 12, b'\xff' * 12, bytes(range(12)))]
        out += [A0[:3] + (ip, p) for ip in ('0.0.0.0', '255.255.255.255', '10.0.0.1', '1.0.0.0', '127.0.0.1', '192.168.100.200') for p in (0, 1, 255, 256, 8333, 65535)]
        out += [A0[:3] + ('.'.join(str((b * (k + 1) + k) % 256) for k in range(4)), b * 257 % 65536) for b in range(256)]
        return out + cross((0, 1, 2 ** 31, M), (0, 1, 2 ** 32, 2 ** 64 - 1), (A0[2], b'\0' * 12), ('0.0.0.0', '1.2.3.4', '127.0.0.1', '255.255.255.255'), (0, 1, 8333, 65535))
    if name == 'inv':
        return [(t, h) for t in (0, 1, 2, 3) + tuple(I31[2:]) for h in HASHES + [bytes(range(31, -1, -1))]]
    if name == 'locator':
        hs = [ref.sha256(b'%d' % k) for k in range(3)]
        return [(v, tuple(hs[k % 3] for k in range(n))) for v in I31 for n in range(4)] + [(1, tuple(hs[k % 3] for k in range(n))) for n in (9, 10, 11, 32, 100, 101, 252, 253, 500, 2001)]
    if name == 'unsigned alert':
        base = (1, 2, 3, 4, 5, (6, -7), 8, 9, (b'a', b''), 10, b'comment', b'status', b'reserved')
        out = [base]
        for k, (_, kind) in enumerate(UNSIGNED):
            vals = {'i': I31, 'q': I64, 's': STRS, 'ints': [(), (0,), tuple(I31), (1,) * 253], 'strs': [(), (b'',), (b'', b''), tuple(STRS[:5]), (b'x',) * 253]}[kind]
            out += [base[:k] + (v,) + base[k + 1:] for v in vals]
        two = {'i': (0, -1), 'q': (0, 2 ** 40), 's': (b'', b'x'), 'ints': ((), (3,)), 'strs': ((), (b'y',))}
        return out + cross(*[two[kind] for _, kind in UNSIGNED])
    return [(a, b) for a in STRS for b in STRS]


# -- messages: command -> (values, encoder, maker, viewer) ------------------------------------------------------------------

H1, H2 = ref.sha256(b'h1'), ref.sha256(b'h2')
NOTHING = ([()], lambda v: b'', lambda m, v: None, lambda m: ())


def vec(encode):
    return lambda v: btc.varint(len(v)) + b''.join(encode(x) for x in v)


def set_attr(name, make):
    return lambda m, v: setattr(m, name, make(v))


def enc_version(v):
    version, services, time, to, frm, nonce, sub, height = v
    b = btc.i32(version) + u64(services) + btc.i64(time) + enc_address((0,) + to, False)
    if frm is not None:
        b += enc_address((0,) + frm, False) + u64(nonce) + btc.varstr(sub)
        if height is not None:
            b += btc.i32(height)
    return b


def mk_version(m, v):
    m.nVersion, m.nServices, m.nTime, to, frm, m.nNonce, m.strSubVer, m.nStartingHeight = v
    m.addrTo, m.addrFrom = mk_address((0,) + to), frm and mk_address((0,) + frm)


def view_version(m):
    return (m.nVersion, m.nServices, m.nTime, view_address(m.addrTo)[1:], m.addrFrom and view_address(m.addrFrom)[1:], m.nNonce, m.strSubVer, m.nStartingHeight)


def version_values():
    base = (60002, 1, 1400000000, A0[1:], (7, b'\1' * 12, '8.8.4.4', 1), 99, b'/sub/', -1)
    out = [base]
    fields = [[209, 10299, 10301, 60002, 70001, 2 ** 31 - 1], U64, I64, [a[1:] for a in struct_values('address')[::20]], [a[1:] for a in struct_values('address')[::21]],
              U64, STRS, I31]
    for k, vals in enumerate(fields):
        out += [base[:k] + (v,) + base[k + 1:] for v in vals]
    a, b = (0, b'\0' * 12, '0.0.0.0', 0), base[4]
    return out + cross((209, 10301, 70001), (0, 1), (0, 1400000000), (a, b), (a, b), (0, 1), (b'', b'/sub/'), (-1, 0, 1))


def headers(n):
    return tuple(((2, ref.sha256(b'p%d' % k), HASHES[k % 3], k, 0x1d00ffff, k * 7), ()) for k in range(n))


def message_values():
    """command -> values; the first few are small ones"""
    adrs = struct_values('address')
    invs = struct_values('inv')
    few_invs = [(), ((1, H1),), ((2, H1), (1, H2))] + [tuple((k % 4, ref.sha256(b'%d' % k)) for k in range(n)) for n in (3, 252, 253, 1000, 1001, 2000, 2001, 5000, 50000)] + [(i,) for i in invs]
    few = [(1, H1), (2, H1), (1, H2), (0, b'\0' * 32)]
    few_invs += [v for n in (2, 3, 4) for v in itertools.product(few, repeat=n)] + [(few[0],) * n for n in (5, 20, 300)]
    locators = [(v, h) for v in struct_values('locator') for h in (HASHES[0], HASHES[2], H1)]
    txs = values('tx', False)
    txs = [t for t in txs if len(t[1]) < 10 and len(t[2]) < 10][::-1]
    blocks = [b for b in values('block', False) if len(b[1]) < 10]
    same = headers(2)
    locators += [((1, tuple(v)), h) for n in (2, 3, 4) for v in itertools.product((H1, H2, b'\0' * 32), repeat=n) for h in (H1, HASHES[0])]
    return {
        'version': version_values(), 'verack': [()], 'getaddr': [()], 'mempool': [()],
        'addr': [(), (A0,), (A0, A0[:3] + ('9.8.7.6', 1))] + [tuple(A0[:4] + (k,) for k in range(n)) for n in (3, 252, 253, 1000, 1001, 2500)] + [(a,) for a in adrs] +
                [v for n in (2, 3) for v in itertools.product((A0, (2,) + A0[1:], A0[:1] + (5,) + A0[2:], A0[:3] + ('1.2.3.5', 8333), A0[:4] + (8334,)), repeat=n)] + [(A0,) * n for n in (4, 20, 300)],
        'alert': [(b'', b''), (b'ab', b'c'), (enc_unsigned(struct_values('unsigned alert')[0]), b'sig')] + struct_values('alert'),
        'inv': few_invs, 'getdata': few_invs, 'getblocks': locators, 'getheaders': locators,
        'headers': [v for n in (2, 3, 4) for v in itertools.product(same, repeat=n)][::-1] + [same[:1] * 300] + [headers(n) for n in (0, 1, 2, 3, 252, 253, 2000)] + [(b[0] and (b[0], ()),) for b in values('block', False)],
        'tx': txs, 'block': blocks, 'ping': U64, 'pong': U64}


KINDS = {
    'version': (enc_version, mk_version, view_version), 'verack': NOTHING[1:], 'getaddr': NOTHING[1:], 'mempool': NOTHING[1:],
    'addr': (vec(enc_address), set_attr('addrs', lambda v: [mk_address(a) for a in v]), lambda m: tuple(view_address(a) for a in m.addrs)),
    'alert': (STRUCTS['alert'][0], set_attr('alert', mk_alert), lambda m: STRUCTS['alert'][2](m.alert)),
    'headers': (vec(lambda b: btc.block(*b)), set_attr('headers', lambda v: [CBlock(*h, vtx=[mk_tx(t) for t in ts]) for h, ts in v]),
                lambda m: tuple(view(h) for h in m.headers)),
    'tx': (btc.tx, set_attr('tx', mk_tx), lambda m: view(m.tx)),
    'block': (lambda v: btc.block(*v), set_attr('block', lambda v: CBlock(*v[0], vtx=[mk_tx(t) for t in v[1]])), lambda m: view(m.block)),
}
for _c in ('inv', 'getdata'):
    KINDS[_c] = (vec(enc_inv), set_attr('inv', lambda v: [mk_inv(i) for i in v]), lambda m: tuple(view_inv(i) for i in m.inv))
for _c in ('getblocks', 'getheaders'):
    def _mk(m, v):
        m.locator, m.hashstop = mk_locator(v[0]), v[1]
    KINDS[_c] = (lambda v: enc_locator(v[0]) + v[1], _mk, lambda m: (view_locator(m.locator), m.hashstop))
for _c in ('ping', 'pong'):
    KINDS[_c] = (u64, lambda m, v: setattr(m, 'nonce', v), lambda m: m.nonce)
COMMANDS = sorted(KINDS)


def frame(magic, command, body):
    return magic + command.encode().ljust(12, b'\0') + btc.u32(len(body)) + ref.dsha(body)[:4] + body


def cls_of(command):
    return getattr(messages, 'msg_' + command)


def make(command, v):
    m = cls_of(command)()
    KINDS[command][1](m, v)
    return m


def read(f, params=None):
    with contextlib.redirect_stdout(io.StringIO()):         # unknown commands are announced there
        if params is None:
            return messages.MsgSerializable.stream_deserialize(f)
        return messages.MsgSerializable.stream_deserialize(f, params=params)


def same(ctx, m, command, v, key):
    if ctx.expect(type(m) is cls_of(command), key + ': class', 'a %s' % type(m).__name__):
        ctx.eq(KINDS[command][2](m), v, key + ': contents')


def roundtrip(ctx, param):
    command, part, deep = param
    vals = message_values()[command]
    ctx.eq(messages.messagemap.get(command.encode()), cls_of(command), 'message map')
    for v in vals[part::4]:
        ctx.cur = [command, v]
        if not ctx.state(command, repr(v)):
            continue
        body = KINDS[command][0](v)
        m = make(command, v)
        for chain, (params, magic) in CHAINS.items():
            want = frame(magic, command, body)
            ctx.eq(m.to_bytes(params), want, 'frame')
            f = io.BytesIO(want + b'rest')
            same(ctx, read(f, params), command, v, 'read')
            ctx.eq(f.tell(), len(want), 'position after a message')
            ctx.step(2)
            for other in CHAINS:
                if other != chain:
                    ctx.raises(ValueError, lambda: read(io.BytesIO(want), CHAINS[other][0]), "another chain's message")
            if chain != 'mainnet':
                for cls in (messages.MsgSerializable, cls_of(command)):
                    ctx.raises(ValueError, lambda: cls.from_bytes(want), "another chain's message, from bytes")
                ctx.raises(ValueError, lambda: read(io.BytesIO(want)), "another chain's message, by default")
        want = frame(CHAINS['mainnet'][1], command, body)
        ctx.eq(m.to_bytes(), want, 'frame by default')
        ctx.eq(m.serialize(), want, 'serialize')
        f = io.BytesIO(b'before')
        f.seek(6)
        m.stream_serialize(f)
        ctx.eq(f.getvalue(), b'before' + want, 'stream_serialize')
        with contextlib.redirect_stdout(io.StringIO()):
            for cls in (messages.MsgSerializable, cls_of(command)):
                d = cls.from_bytes(want)
                same(ctx, d, command, v, 'from_bytes')
                ctx.eq(d.to_bytes(), want, 'again')
        same(ctx, read(io.BytesIO(want)), command, v, 'by default')
        ctx.step(6)
        ctx.outcome(command)
        ctx.trace([command, v])


def old_versions(ctx, _):
    """Version messages of old nodes end earlier"""
    base = (0, 5, 6, A0[1:], (7, b'\1' * 12, '8.8.4.4', 1), 99, b'/old/', 33)
    for version in list(range(0, 330)) + [10299, 10300, 10301, 31402]:
        for trailing in (b'', b'\7' * 4):
            v = (version,) + base[1:]
            if version < 209:
                v = v[:7] + (None,)
            if version < 106:
                v = v[:4] + (None,) * 4
            body = enc_version(v)
            if version == 10300:
                v = (300,) + v[1:]
            ctx.cur = ['version', version]
            same(ctx, read(io.BytesIO(frame(CHAINS['mainnet'][1], 'version', body + trailing))), 'version', v, 'old version')
            ctx.step()
        for n in range(len(body)):
            ctx.raises(ERRORS, lambda: read(io.BytesIO(frame(CHAINS['mainnet'][1], 'version', body[:n]))), 'body that ends early')
        ctx.state(version)
        ctx.trace([version])
        ctx.outcome('versions')


def small_values(command):
    return [v for v in message_values()[command] if len(KINDS[command][0](v)) < 400][:4]


def corrupt(ctx, param):
    """All truncations, all one-byte corruptions, wrong lengths"""
    command, k, deep = param
    vals = small_values(command)
    if k >= len(vals):
        return
    v = vals[k]
    magic = CHAINS['mainnet'][1]
    body = KINDS[command][0](v)
    good = frame(magic, command, body)

    def rejected(b, key):
        ctx.cur = [command, key, b]
        ctx.raises(ERRORS, lambda: read(io.BytesIO(b)), key)
        ctx.step()
        ctx.state(b)
        ctx.outcome(key)

    for n in range(len(good)):
        rejected(good[:n], 'truncated frame')
    for n in range(len(body)):              # the frame is right, the body in it ends early
        rejected(frame(magic, command, body[:n]), 'body that ends early')
    for at in list(range(4)) + list(range(16, len(good))):
        others = range(256) if deep or at < 24 or len(good) < 150 else (0, 1, 0x7f, 0x80, 0xff)
        for x in list(others) + [good[at] ^ 1 << bit for bit in range(8)]:
            if x != good[at]:
                b = good[:at] + bytes([x]) + good[at + 1:]
                rejected(b, 'corrupted frame')
                if 16 <= at < 20:            # a wrong length, with bytes to read beyond the message
                    rejected(b + good * 3, 'wrong length')
    for n in (2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 25, 0x02000001):
        if n != len(body):
            rejected(good[:16] + btc.u32(n) + good[20:], 'absurd length')
    for c in CHAINS.values():
        if c[1] != magic:
            rejected(c[1] + good[4:], 'wrong magic')
    for c in CHAINS.values():
        for m in set(itertools.permutations(c[1])) | {bytes([b]) * 4 for b in c[1]} | {bytes(b ^ 0xff for b in c[1]), bytes(4)}:
            if bytes(m) != magic:
                rejected(bytes(m) + good[4:], 'wrong magic')
    rejected(good[:20] + ref.sha256(body)[:4] + good[24:], 'single hash')
    rejected(good[:20] + ref.dsha(body)[4:8] + good[24:], 'other part of the hash')
    rejected(good[:20] + ref.dsha(body)[3::-1] + good[24:], 'reversed checksum')
    rejected(good[:20] + ref.dsha(good[4:20] + body)[:4] + good[24:], 'checksum of the header too')
    for k in range(len(good)):
        for x in (b'\0', good[k:k + 1]):
            b = good[:k] + x + good[k:]
            if not 4 <= k <= 16 and b[:len(good)] != good:
                rejected(b, 'inserted byte')
        if not 4 <= k < 16:
            b = good[:k] + good[k + 1:] + b'\0'
            if b[:len(good)] != good:
                rejected(b, 'deleted byte')
    same(ctx, read(io.BytesIO(good)), command, v, 'the good frame')
    # another command: another message or none
    for at in range(4, 16):
        for x in range(256):
            b = good[:at] + bytes([x]) + good[at + 1:]
            name = b[4:16].split(b'\0', 1)[0]
            if name != command.encode() and name.decode('latin1') not in KINDS:
                try:
                    m = read(io.BytesIO(b))
                except Exception:
                    m = None
                ctx.eq(m, None, 'unknown command')
                ctx.step()
    ctx.trace([command, v])


def sequences(ctx, param):
    """Streams of a few messages, known or not"""
    first, depth = param
    magic = CHAINS['mainnet'][1]
    pool = {c: small_values(c)[:2] for c in COMMANDS}
    frames = {c: [frame(magic, c, KINDS[c][0](v)) for v in pool[c]] for c in COMMANDS}
    pool['nonsense'], frames['nonsense'] = [None], [frame(magic, 'nonsense', b'body')]
    pool['x' * 12], frames['x' * 12] = [None], [frame(magic, 'x' * 12, b'')]
    names = list(pool)
    for rest in itertools.product(names, repeat=depth - 1):
        seq = (first,) + rest
        ctx.cur = list(seq)
        picks = [k % len(pool[c]) for k, c in enumerate(seq)]
        f = io.BytesIO(b''.join(frames[c][k] for c, k in zip(seq, picks)))
        got = []
        for c, k in zip(seq, picks):
            m = read(f)
            got.append(m)
            if c in KINDS:
                same(ctx, m, c, pool[c][k], 'message in a stream')
            else:
                ctx.eq(m, None, 'unknown command in a stream')
            ctx.step()
        ctx.raises(SerializationTruncationError, lambda: read(f), 'end of the stream')
        for c, k, m in zip(seq, picks, got):         # what was read earlier is not disturbed
            if c in KINDS:
                same(ctx, m, c, pool[c][k], 'message read earlier')
        out = io.BytesIO()
        for c, k in zip(seq, picks):
            if c in KINDS:
                make(c, pool[c][k]).stream_serialize(out)
        ctx.eq(out.getvalue(), b''.join(frames[c][k] for c, k in zip(seq, picks) if c in KINDS), 'stream written')
        ctx.state(seq)
        ctx.trace([seq])
        ctx.outcome('streams')


def structures(ctx, param):
    name, deep = param
    encode, mk, vw, cls = STRUCTS[name]
    for v in struct_values(name):
        ctx.cur = [name, v]
        w = encode(v)
        ctx.eq(mk(v).serialize(), w, name + ': bytes')
        c = cls.deserialize(w)
        ctx.expect(type(c) is cls, name + ': class')
        ctx.eq(vw(c), v, name + ': contents')
        ctx.eq(c.serialize(), w, name + ': again')
        ctx.state(name, repr(v))
        ctx.step(3)
        if len(w) < 600:
            for n in range(len(w)):
                ctx.raises(SerializationTruncationError, lambda: cls.deserialize(w[:n]), name + ': truncated')
                ctx.step()
            ctx.raises(DeserializationExtraDataError, lambda: cls.deserialize(w + b'\0'), name + ': extra byte')
        ctx.outcome(name)
        ctx.trace([name, v])


def defaults(ctx, _):
    """New messages share nothing, and are what they are documented to be"""
    for c in COMMANDS:
        a, b = cls_of(c)(), cls_of(c)()
        ctx.cur = [c]
        for v in small_values(c):
            KINDS[c][1](a, v)
            if c in ('addr', 'inv', 'getdata', 'headers'):
                name = {'addr': 'addrs', 'headers': 'headers'}.get(c, 'inv')
                getattr(cls_of(c)(), name).append('pollution')
                ctx.eq(getattr(cls_of(c)(), name), [], 'shared default')
            if c in ('getblocks', 'getheaders'):
                cls_of(c)().locator.vHave.append('pollution')
                ctx.eq(list(cls_of(c)().locator.vHave), [], 'shared default')
            ctx.step()
        if c not in ('version',):
            before = b.to_bytes()
            ctx.eq(cls_of(c)().to_bytes(), before, 'default message')
            same(ctx, read(io.BytesIO(before)), c, KINDS[c][2](b), 'default message')
        ctx.state(c)
        ctx.trace([c])
        ctx.outcome('defaults')
    for n in (0, 1, 2 ** 64 - 1):
        ctx.eq((messages.msg_ping(nonce=n).nonce, messages.msg_pong(nonce=n).nonce), (n, n), 'nonce')


def become(old, new):
    """Change the parts of one object to those of another, in place"""
    names = list(getattr(new, '__dict__', ())) + [n for c in type(new).__mro__ for n in ([c.__slots__] if isinstance(getattr(c, '__slots__', ()), str) else getattr(c, '__slots__', ()))]
    for name in names:
        if not hasattr(new, name):
            continue
        v, was = getattr(new, name), getattr(old, name, None)
        if type(was) is type(v) and isinstance(v, (net.CAddress, net.CInv, net.CBlockLocator, net.CAlert)):
            become(was, v)
        elif isinstance(v, list) and isinstance(was, list):
            for i, (a, b) in enumerate(zip(was, v)):
                if type(a) is type(b) and isinstance(b, (net.CAddress, net.CInv)):
                    become(a, b)
                else:
                    was[i] = b
            was[len(v):] = v[len(was):]
        else:
            setattr(old, name, v)


def changed(ctx, param):
    """One message sent, changed, and sent again; another in use meanwhile"""
    command, how, deep = param
    vals = list(dict.fromkeys(v for v in message_values()[command] if len(KINDS[command][0](v)) < 2000))
    vals = vals[:7] + vals[7::max(1, len(vals) // (20 if deep else 8))]
    for a, b in itertools.product(vals, repeat=2):
        m, other = make(command, a), make(command, b)
        for k, v in enumerate((a, b, a, vals[0])):
            ctx.cur = [command, how, a, b, k]
            if k:
                if how == 'assigned':
                    KINDS[command][1](m, v)
                else:
                    become(m, make(command, v))
            for params, magic in (CHAINS['testnet'], CHAINS['mainnet']):
                w = frame(magic, command, KINDS[command][0](v))
                ctx.eq(m.to_bytes(params), w, 'frame of a changed message')
                ctx.eq(other.to_bytes(params), frame(magic, command, KINDS[command][0](b)), 'frame of another message')
            ctx.eq(m.serialize(), w, 'serialized, changed')
            r = read(io.BytesIO(w))
            same(ctx, r, command, v, 'read')
            become(r, make(command, b))
            same(ctx, read(io.BytesIO(w)), command, v, 'read again')
            ctx.eq(r.to_bytes(), frame(CHAINS['mainnet'][1], command, KINDS[command][0](b)), 'received and changed')
            ctx.step(4)
            same(ctx, m, command, v, 'message')
        ctx.state(command, how, a, b)
        ctx.trace([command, how, a, b])


def changed_structures(ctx, param):
    """Structures of which there is one that changes"""
    name, deep = param
    encode, mk, show, cls = STRUCTS[name]
    vals = [v for v in dict.fromkeys(struct_values(name)) if len(encode(v)) < 2000]
    vals = vals[:5] + vals[5::max(1, len(vals) // (60 if deep else 25))]
    for a, b in itertools.product(vals, repeat=2):
        o = mk(a)
        for v in (a, b, a):
            ctx.cur = [name, a, b]
            become(o, mk(v))
            ctx.eq(o.serialize(), encode(v), 'structure that changed')
            d = cls.deserialize(encode(v))
            ctx.eq(show(d), v, 'structure')
            become(d, mk(b))
            ctx.eq((d.serialize(), show(cls.deserialize(encode(v)))), (encode(b), v), 'received and changed')
            ctx.step(3)
        ctx.state(name, a, b)
        ctx.trace([name, a, b])


def spaces(tier):
    deep = tier == 'thorough'
    depth = 4 if deep else 3
    names = COMMANDS + ['nonsense', 'x' * 12]
    return [
        core.Space('messages', {'kinds': len(COMMANDS), 'values': sum(len(v) for v in message_values().values()), 'chains': 3}, roundtrip,
                   [(c, k, deep) for c in COMMANDS for k in range(4)], disjoint=True),
        core.Space('old versions', {'protocol versions': '0..329 and around 10300'}, old_versions, [None]),
        core.Space('corrupt', {'frames': '4 of each kind', 'damage': 'all cuts, all one-byte changes, wrong lengths, magics and checksums'}, corrupt,
                   [(c, k, deep) for c in COMMANDS for k in range(4)], disjoint=True),
        core.Space('sequences', {'streams of': depth}, sequences, [(c, depth) for c in names], disjoint=True),
        core.Space('structures', {'kinds': len(STRUCTS)}, structures, [(n, deep) for n in STRUCTS], disjoint=True),
        core.Space('changed', {'pairs of values': 'of each kind', 'changes': 'by assignment and in place'}, changed, [(c, how, deep) for c in COMMANDS for how in ('assigned', 'in place')]),
        core.Space('changed structures', {'pairs of values': 'of each kind'}, changed_structures, [(n, deep) for n in STRUCTS]),
        core.Space('defaults', {}, defaults, [None]),
    ]
