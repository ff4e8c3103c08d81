"""C30: addresses, their scripts and strings on every chain, and chain selection"""
import itertools

from mc import core, ref, btc, ec
from mc.script import parse
from mc.props.c29 import enc
import bitcoin
import bitcoin.core
from bitcoin.base58 import Base58Error, Base58ChecksumError, InvalidBase58Error
from bitcoin.core.script import CScript, OP_DUP, OP_HASH160, OP_EQUAL, OP_EQUALVERIFY, OP_CHECKSIG
from bitcoin.wallet import CBitcoinAddress, CBitcoinAddressError, P2SHBitcoinAddress, P2PKHBitcoinAddress, CBitcoinSecret, CBitcoinSecretError

LEVEL = 'model_checking'
ASSUMPTIONS = ['a single thread selects chains', 'HASH160 and double SHA256 do not collide among the cases explored']

# pubkey, script, secret key versions; message start, port, rpc port; halving, limit, genesis hash (displayed)
GEN = {'mainnet': '000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f',
       'testnet': '000000000933ea01ad0ee984209779baaec3ced90fa3f408719526f8d77f4943',
       'regtest': '0f9188f13cb7b2c71f2a335e3a4fc328bf5beb436012afca590b1a11466e2206'}
CHAINS = {'mainnet': (0, 5, 128, b'\xf9\xbe\xb4\xd9', 8333, 8332, 210000, 2 ** 224 - 1),
          'testnet': (111, 196, 239, b'\x0b\x11\x09\x07', 18333, 18332, 210000, 2 ** 224 - 1),
          'regtest': (111, 196, 239, b'\xfa\xbf\xb5\xda', 18444, 18332, 150, 2 ** 255 - 1)}
DUP, HASH160, EQUAL, EQUALVERIFY, CHECKSIG = 0x76, 0xa9, 0x87, 0x88, 0xac
KEYHASH = bytes(range(100, 120))
COMPRESSED = ec.encode(ec.mul(77, ec.G))
UNCOMPRESSED = ec.encode(ec.mul(77, ec.G), False)


def text(version, payload):
    b = bytes([version]) + payload
    return enc(b + ref.dsha(b)[:4])


def pkh(h):
    return bytes([DUP, HASH160, 20]) + h + bytes([EQUALVERIFY, CHECKSIG])


def sh(h):
    return bytes([HASH160, 20]) + h + bytes([EQUAL])


def pushes(d):
    """Every encoding of a push"""
    n = len(d)
    out = [bytes([76, n]) + d, bytes([77, n, 0]) + d, bytes([78, n, 0, 0, 0]) + d]
    return [bytes([n]) + d] + out if n < 76 else out


def address_of(script, noncanonical=True, bare=True):
    """(kind, hash) or None, and the key if it is a bare one"""
    if len(script) == 23 and script == sh(script[2:22]):
        return ('sh', script[2:22]), None
    return keyhash_of(script, noncanonical, bare)


def keyhash_of(script, noncanonical=True, bare=True):
    ops, whole = parse(script)
    if not whole:
        return None, None
    if not noncanonical and any(o > 75 for o, d, _ in ops if d is not None):
        return None, None
    shape = [d if d is not None else o for o, d, _ in ops]
    if shape[:2] == [DUP, HASH160] and shape[3:] == [EQUALVERIFY, CHECKSIG] and isinstance(shape[2], bytes) and len(shape[2]) == 20:
        return ('pkh', shape[2]), None
    if bare and len(shape) == 2 and shape[1] == CHECKSIG and isinstance(shape[0], bytes) and len(shape[0]) in (33, 65):
        return ('pkh', btc.hash160(shape[0])), shape[0]
    return None, None


def check_address(ctx, a, kind, h, chain, key):
    c = CHAINS[chain]
    version, cls, script = (c[0], P2PKHBitcoinAddress, pkh(h)) if kind == 'pkh' else (c[1], P2SHBitcoinAddress, sh(h))
    ctx.expect(isinstance(a, cls), key + ': class')
    ctx.eq((a.nVersion, a.to_bytes(), bytes(a)), (version, h, h), key + ': version and hash')
    s = text(version, h)
    ctx.eq(str(a), s, key + ': string')
    ctx.eq(bytes(a.to_scriptPubKey()), script, key + ': script')
    for made in (CBitcoinAddress(s), cls(s), CBitcoinAddress.from_bytes(h, version), cls.from_bytes(h), cls.from_bytes(h, version),
                 CBitcoinAddress.from_scriptPubKey(CScript(script)), cls.from_scriptPubKey(CScript(script))):
        ctx.expect(isinstance(made, cls), key + ': class when converted')
        ctx.eq((made.nVersion, bytes(made), str(made), bytes(made.to_scriptPubKey())), (version, h, s, script), key + ': converted')
        ctx.step()


def judge_script(ctx, script, chain):
    ctx.cur = [chain, script]
    if not ctx.state(chain, script):
        return
    s = CScript(script)
    want, barekey = address_of(script)
    ctx.outcome('script: ' + (want[0] if want else 'no address'))

    def conclude(fn, want, key):
        ctx.step()
        if want is None:
            ctx.raises(CBitcoinAddressError, fn, key + ': accepted', script=script)
            return
        a = fn()
        if bytes(a) != want[1] and barekey is not None and len(barekey) == 65 and bytes(a) == btc.hash160(barekey[:64]):
            ctx.fail('bare-uncompressed-key-cut', 'the address of a bare uncompressed public key is made from 64 of its 65 bytes', script=script)
            return
        ctx.eq(bytes(a), want[1], key + ': hash', script=script)
        ctx.eq(isinstance(a, P2SHBitcoinAddress), want[0] == 'sh', key + ': class', script=script)
        ctx.eq(str(a), text(CHAINS[chain][want[0] == 'sh'], want[1]), key + ': string', script=script)
        if barekey is None:
            ctx.eq(bytes(a.to_scriptPubKey()), sh(want[1]) if want[0] == 'sh' else pkh(want[1]), key + ': script', script=script)

    conclude(lambda: CBitcoinAddress.from_scriptPubKey(s), want, 'any')
    conclude(lambda: P2SHBitcoinAddress.from_scriptPubKey(s), want if want and want[0] == 'sh' else None, 'P2SH')
    conclude(lambda: P2PKHBitcoinAddress.from_scriptPubKey(s), keyhash_of(script)[0], 'P2PKH')
    for non, bare in itertools.product((True, False), repeat=2):
        conclude(lambda: P2PKHBitcoinAddress.from_scriptPubKey(s, accept_non_canonical_pushdata=non, accept_bare_checksig=bare),
                 keyhash_of(script, non, bare)[0], 'P2PKH, noncanonical %s, bare %s' % (non, bare))


def forms():
    out = []
    for h in (KEYHASH, b'\0' * 20, b'\xff' * 20, bytes([DUP, HASH160, 20]) * 6 + bytes([EQUALVERIFY, CHECKSIG])):
        for p in pushes(h):
            out.append(bytes([DUP, HASH160]) + p + bytes([EQUALVERIFY, CHECKSIG]))
            out.append(bytes([HASH160]) + p + bytes([EQUAL]))
            out.append(p + bytes([CHECKSIG]))
            out.append(bytes([HASH160]) + p + bytes([EQUALVERIFY]))
    for k in (COMPRESSED, UNCOMPRESSED, b'\x06' + UNCOMPRESSED[1:], b'\0' * 33, b'\0' * 65, b'\x04' + b'\1' * 64, b'\x02' + b'\xff' * 32):
        for p in pushes(k):
            out.append(p + bytes([CHECKSIG]))
    return out


def near(ctx, param):
    """Every form and every script one edit away"""
    chain, script, deep = param
    bitcoin.SelectParams(chain)
    judge_script(ctx, script, chain)
    for at in range(len(script) + 1):
        judge_script(ctx, script[:at], chain)
        judge_script(ctx, script[at:], chain)
        judge_script(ctx, script[:at] + script[at + 1:], chain)
        # contents of pushes matter less than what surrounds them
        inside = 8 < at < len(script) - 6
        for v in (range(256) if not inside or deep else (0, 0xac, 0xff)):
            judge_script(ctx, script[:at] + bytes([v]) + script[at + 1:], chain)
        for v in (range(256) if deep else (0, 1, 20, 0x21, 0x41, 76, 77, 78, 79, 81, 96, 97, DUP, HASH160, EQUAL, EQUALVERIFY, CHECKSIG, 0xff)):
            judge_script(ctx, script[:at] + bytes([v]) + script[at:], chain)
    ctx.trace([chain, script])


def lengths(ctx, chain):
    """Every length of the pushed hash or key, with every encoding of the push"""
    bitcoin.SelectParams(chain)
    for n in list(range(0, 80)) + [255]:
        d = bytes((k + 2) % 256 for k in range(n))
        for p in pushes(d):
            for script in (bytes([DUP, HASH160]) + p + bytes([EQUALVERIFY, CHECKSIG]), bytes([HASH160]) + p + bytes([EQUAL]), p + bytes([CHECKSIG]), p,
                           bytes([0x6a]) + p, p + bytes([EQUAL])):
                judge_script(ctx, script, chain)
        ctx.trace([chain, n])
    for n in range(0, 41):
        for v in (CHAINS[chain][0], CHAINS[chain][1]):
            d = bytes(range(n))
            ctx.cur = [chain, n, v]
            if n != 20:
                ctx.raises(CBitcoinAddressError, lambda: CBitcoinAddress.from_bytes(d, v), 'length of payload')
                ctx.raises(CBitcoinAddressError, lambda: CBitcoinAddress(text(v, d)), 'length of payload')
                ctx.raises((CBitcoinAddressError, ValueError), lambda: P2PKHBitcoinAddress.from_bytes(d), 'length of payload')
                ctx.raises((CBitcoinAddressError, ValueError), lambda: P2SHBitcoinAddress.from_bytes(d), 'length of payload')
            else:
                check_address(ctx, CBitcoinAddress.from_bytes(d, v), 'pkh' if v == CHAINS[chain][0] else 'sh', d, chain, 'payload')
    ctx.outcome('lengths')


def strings(ctx, param):
    """Address strings of every version, on every chain"""
    chain, versions = param
    bitcoin.SelectParams(chain)
    c = CHAINS[chain]
    for v in versions:
        for h in (KEYHASH, b'\0' * 20, b'\xff' * 20, b'\0' * 19 + b'\1', btc.hash160(b'x')):
            ctx.cur = [chain, v, h]
            ctx.state(chain, v, h)
            s = text(v, h)
            kind = {c[0]: 'pkh', c[1]: 'sh'}.get(v)
            if kind:
                check_address(ctx, CBitcoinAddress(s), kind, h, chain, 'string')
                other = P2SHBitcoinAddress if kind == 'pkh' else P2PKHBitcoinAddress
                ctx.raises((ValueError, Base58Error), lambda: other(s), 'string of the other kind')
                ctx.raises((ValueError, Base58Error), lambda: other.from_bytes(h, v), 'version of the other kind')
            else:
                ctx.raises(CBitcoinAddressError, lambda: CBitcoinAddress(s), 'foreign version accepted')
                ctx.raises(CBitcoinAddressError, lambda: CBitcoinAddress.from_bytes(h, v), 'foreign version accepted')
                for cls in (P2SHBitcoinAddress, P2PKHBitcoinAddress):
                    ctx.raises((ValueError, Base58Error), lambda: cls(s), 'foreign version accepted')
                    ctx.raises((ValueError, Base58Error), lambda: cls.from_bytes(h, v), 'foreign version accepted')
            # one wrong character
            for at in range(0, len(s), 5):
                bad = s[:at] + ('2' if s[at] != '2' else '3') + s[at + 1:]
                ctx.raises(Base58ChecksumError, lambda: CBitcoinAddress(bad), 'wrong checksum accepted')
                ctx.raises(InvalidBase58Error, lambda: CBitcoinAddress(s[:at] + '0' + s[at + 1:]), 'foreign character accepted')
            ctx.step(6)
            ctx.outcome(kind or 'foreign')
        ctx.trace([chain, v])


def sources(ctx, chain):
    """Addresses of redeem scripts and public keys"""
    bitcoin.SelectParams(chain)
    for n in list(range(0, 8)) + [75, 76, 255, 256, 519, 520, 521, 600]:
        red = bytes((5 * k + n) % 256 for k in range(n))
        ctx.cur = [chain, 'redeem', n]
        if n > 520:
            ctx.raises(ValueError, lambda: P2SHBitcoinAddress.from_redeemScript(CScript(red)), 'unspendable redeem script')
        else:
            check_address(ctx, P2SHBitcoinAddress.from_redeemScript(CScript(red)), 'sh', btc.hash160(red), chain, 'redeem script')
        ctx.state(chain, n)
    x, y = ec.mul(5, ec.G)
    keys = [ec.encode(ec.mul(k, ec.G), c) for k in (1, 2, 3, ec.N - 1) for c in (True, False)]
    keys += [bytes([6 + y % 2]) + x.to_bytes(32, 'big') + y.to_bytes(32, 'big'), bytes([7 - y % 2]) + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')]
    keys += [b'', b'\1', b'\x02' + b'\xff' * 32, b'\x02' + (5).to_bytes(32, 'big'), b'\x04' + b'\1' * 64, keys[0][:-1], keys[0] + b'\0', keys[1][:-1], keys[1] + b'\0',
             b'\x04' + keys[0][1:], b'\x02' + keys[1][1:], b'\x05' + keys[0][1:], b'\1' * 33]
    for k in keys:
        ctx.cur = [chain, 'key', k]
        ctx.state(chain, k)
        good = ec.decode(k) is not None
        for given in (k, bitcoin.core.key.CPubKey(k)):
            if good:
                check_address(ctx, P2PKHBitcoinAddress.from_pubkey(given), 'pkh', btc.hash160(k), chain, 'public key')
            else:
                ctx.raises(CBitcoinAddressError, lambda: P2PKHBitcoinAddress.from_pubkey(given), 'invalid key accepted')
            check_address(ctx, P2PKHBitcoinAddress.from_pubkey(given, accept_invalid=True), 'pkh', btc.hash160(k), chain, 'public key, unchecked')
        ctx.outcome('valid key' if good else 'invalid key')
    for wrong in (None, 'abc', 5, bytearray(keys[0]), bitcoin.core.key.CECKey()):
        ctx.raises(TypeError, lambda: P2PKHBitcoinAddress.from_pubkey(wrong), 'not a key')
        ctx.step()
    ctx.trace([chain, len(keys)])


def observe(ctx, chain, secrets):
    """Everything that depends on the selected chain"""
    c = CHAINS[chain]
    p, q = bitcoin.params, bitcoin.core.coreparams
    ctx.eq((p.NAME, q.NAME), (chain, chain), 'name')
    ctx.eq((p.MESSAGE_START, p.DEFAULT_PORT, p.RPC_PORT), c[3:6], 'network parameters')
    ctx.eq((p.SUBSIDY_HALVING_INTERVAL, q.SUBSIDY_HALVING_INTERVAL, p.PROOF_OF_WORK_LIMIT, q.PROOF_OF_WORK_LIMIT), (c[6], c[6], c[7], c[7]), 'consensus parameters')
    ctx.eq((p.GENESIS_BLOCK.GetHash()[::-1].hex(), q.GENESIS_BLOCK.GetHash()[::-1].hex()), (GEN[chain],) * 2, 'genesis block')
    for cls, v in ((P2PKHBitcoinAddress, c[0]), (P2SHBitcoinAddress, c[1])):
        a = cls.from_bytes(KEYHASH)
        ctx.eq((a.nVersion, str(a)), (v, text(v, KEYHASH)), 'address produced')
    ctx.eq(str(P2PKHBitcoinAddress.from_pubkey(COMPRESSED)), text(c[0], btc.hash160(COMPRESSED)), 'address of a key')
    ctx.eq(str(CBitcoinAddress.from_scriptPubKey(CScript(pkh(KEYHASH)))), text(c[0], KEYHASH), 'address of a script')
    ctx.eq(str(CBitcoinAddress.from_scriptPubKey(CScript(sh(KEYHASH)))), text(c[1], KEYHASH), 'address of a script')
    ctx.eq(str(P2SHBitcoinAddress.from_redeemScript(CScript(b'\x51'))), text(c[1], btc.hash160(b'\x51')), 'address of a redeem script')
    for v in (0, 5, 111, 196, 128, 239):
        s = text(v, KEYHASH)
        if v in c[:2]:
            a = CBitcoinAddress(s)
            ctx.eq((isinstance(a, P2SHBitcoinAddress), str(a), bytes(a.to_scriptPubKey())), (v == c[1], s, sh(KEYHASH) if v == c[1] else pkh(KEYHASH)), 'address accepted')
        else:
            ctx.raises(CBitcoinAddressError, lambda: CBitcoinAddress(s), 'address of another chain')
    if secrets:
        for body, comp in ((b'\0' * 31 + b'\7', True), (b'\1' * 32, False)):
            want = text(c[2], body + (b'\1' if comp else b''))
            ctx.eq(str(CBitcoinSecret.from_secret_bytes(body, comp)), want, 'secret key produced')
            ctx.eq((str(CBitcoinSecret(want)), CBitcoinSecret(want).is_compressed), (want, comp), 'secret key accepted')
            for v in (128, 239, 0, 111):
                if v != c[2]:
                    ctx.raises(CBitcoinSecretError, lambda: CBitcoinSecret(text(v, body + (b'\1' if comp else b''))), 'secret key of another chain')
    ctx.step()


def remade(ctx, param):
    """Addresses and keys made of others, of both kinds and every chain: each is what its bytes say, and the first stays what it was"""
    one, two = param
    for h in (KEYHASH, b'\0' * 20, b'\xff' * 20):
        for ka, kb in itertools.product(('pkh', 'sh'), repeat=2):
            ctx.cur = [one, two, ka, kb, h]
            bitcoin.SelectParams(one)
            ca, cb = ((P2SHBitcoinAddress if k == 'sh' else P2PKHBitcoinAddress) for k in (ka, kb))
            a = ca.from_bytes(h)
            check_address(ctx, a, ka, h, one, 'first')
            sa = str(a)
            bitcoin.SelectParams(two)
            for make in (lambda: cb.from_bytes(a), lambda: CBitcoinAddress.from_bytes(a, CHAINS[two][kb == 'sh']), lambda: cb.from_bytes(a, CHAINS[two][kb == 'sh']),
                         lambda: cb.from_scriptPubKey(CScript([OP_HASH160, a, OP_EQUAL] if kb == 'sh' else [OP_DUP, OP_HASH160, a, OP_EQUALVERIFY, OP_CHECKSIG]))):
                b = make()
                check_address(ctx, b, kb, h, two, 'made of another')
                ctx.eq((type(a), str(a), bytes(a), a.nVersion), (ca, sa, h, CHAINS[one][ka == 'sh']), 'the address another was made of')
            bitcoin.SelectParams(one)
            check_address(ctx, a, ka, h, one, 'first, again')
            ctx.state(one, two, ka, kb, h)
    for body, comp, comp2 in itertools.product((b'\0' * 31 + b'\7', b'\1' * 31 + b'\2'), (True, False), (True, False)):
        ctx.cur = [one, two, 'key', body, comp, comp2]
        bitcoin.SelectParams(one)
        a = CBitcoinSecret.from_secret_bytes(body, comp)
        sa, pub = str(a), bytes(a.pub)
        ctx.eq(sa, text(CHAINS[one][2], body + b'\1' * comp), 'secret key')
        bitcoin.SelectParams(two)
        for made in (CBitcoinSecret.from_secret_bytes(a[:32], comp2), CBitcoinSecret.from_secret_bytes(a, False) if not comp else CBitcoinSecret.from_secret_bytes(bytes(a)[:32])):
            ctx.eq((str(made), made.is_compressed, len(made.pub)), (text(CHAINS[two][2], body + b'\1' * (len(made) - 32)), len(made) == 33, 33 if len(made) == 33 else 65), 'secret key made of another')
        ctx.eq((str(a), a.is_compressed, bytes(a.pub), bytes(a)), (sa, comp, pub, body + b'\1' * comp), 'the secret key another was made of')
        ctx.state(one, two, body, comp, comp2)
        ctx.step()
    ctx.outcome('remade')
    ctx.trace([one, two])


BOGUS = ['bogus', '', 'Mainnet', 'main', None, 'test', 'signet']


def histories(ctx, param):
    """Every sequence of selections, of unknown chains too; what was selected last is in force, and alone"""
    first, depth = param
    for rest in itertools.product(list(CHAINS) + ['bogus'], repeat=depth - 1):
        seq = first + rest
        ctx.cur = list(seq)
        bitcoin.SelectParams('mainnet')
        now = 'mainnet'
        for k, name in enumerate(seq):
            if name in CHAINS:
                bitcoin.SelectParams(name)
                now = name
            else:
                ctx.raises(ValueError, lambda: bitcoin.SelectParams(name), 'unknown chain')
            if k >= len(first) or not rest:
                observe(ctx, now, k == len(seq) - 1)
                ctx.state(seq[max(0, k - 1):k + 1], now)
        ctx.trace([seq])
        ctx.outcome('selections')


def start(ctx, _):
    """Before any selection, the chain is mainnet"""
    observe(ctx, 'mainnet', True)
    for name in BOGUS:
        ctx.cur = [name]
        ctx.raises(ValueError, lambda: bitcoin.SelectParams(name), 'unknown chain')
        observe(ctx, 'mainnet', True)
        ctx.state(name)
    ctx.trace(['start'])


def spaces(tier):
    deep = tier == 'thorough'
    fs = forms()
    return [
        core.Space('scripts', {'forms': len(fs), 'edits': 'cuts, deletions, replacements and insertions of one byte at every position'}, near,
                   [(c, f, deep) for f in fs for c in (CHAINS if deep else ('mainnet',))] + ([] if deep else [('testnet', f, False) for f in fs[:3]]), disjoint=False),
        core.Space('lengths', {'pushed lengths': 81, 'encodings of the push': 4}, lengths, list(CHAINS), disjoint=True),
        core.Space('strings', {'versions': 256, 'chains': 3}, strings, [(c, list(range(k, 256, 8))) for c in CHAINS for k in range(8)], disjoint=True),
        core.Space('sources', {'redeem scripts and keys': 'valid and not'}, sources, list(CHAINS), disjoint=True),
        core.Space('remade', {'chains': '3 of 3', 'kinds': 4}, remade, list(itertools.product(CHAINS, repeat=2)), disjoint=True),
        core.Space('histories', {'sequences of selections of length': 7 if deep else 5}, histories,
                   [((a, b), 6 if deep else 4) for a in list(CHAINS) + ['bogus'] for b in list(CHAINS) + ['bogus']]),
        core.Space('start', {}, start, [None]),
    ]
