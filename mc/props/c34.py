"""C34: secret keys, public keys, signatures and shared secrets, against a reference secp256k1"""
import hashlib, itertools, json, os, subprocess, sys

from mc import core, ref, btc, ec, keychild
from mc.props.c29 import enc
from mc.props.c30 import CHAINS, text
import bitcoin
from bitcoin.base58 import Base58Error, Base58ChecksumError, InvalidBase58Error
from bitcoin.core.key import CECKey, CPubKey
from bitcoin.wallet import CKey, CBitcoinSecret, CBitcoinSecretError

LEVEL = 'model_checking'
ASSUMPTIONS = ['secrets are in 1..n-1, digests are 32 bytes',
               'a changed signature other than the negated one does not verify by chance']
N, P, G = ec.N, ec.P, ec.G


def b32(n):
    return n.to_bytes(32, 'big')


def secrets(deep):
    s = set(range(1, 41 if not deep else 300)) | {N - k for k in range(1, 21)} | {1 << k for k in range(0, 256, 1 if deep else 5)} | {(1 << k) - 1 for k in range(8, 256, 8)}
    s |= {0x0101 << k for k in range(0, 240, 16)} | {int.from_bytes(bytes(range(1, 33)), 'big'), int.from_bytes(b'\x7f' * 32, 'big'), N // 2, N // 2 + 1}
    s |= {int.from_bytes(ref.sha256(b'%d' % k), 'big') % N for k in range(20)}
    return sorted(x for x in s if 0 < x < N)


def check_key(ctx, k, secret, compressed, key):
    want = ec.encode(ec.public(secret), compressed)
    ctx.eq((bytes(k.pub), k.is_compressed), (want, compressed), key + ': public key')
    ctx.eq((k.pub.is_valid, k.pub.is_fullyvalid, k.pub.is_compressed), (True, True, compressed), key + ': validity')
    ctx.step(2)


def strings(ctx, param):
    chain, part, deep = param
    bitcoin.SelectParams(chain)
    version = CHAINS[chain][2]
    for n in secrets(deep)[part::8]:
        secret = b32(n)
        for compressed in (True, False):
            ctx.cur = [chain, n, compressed]
            ctx.state(chain, n, compressed)
            want = text(version, secret + (b'\1' if compressed else b''))
            made = [CBitcoinSecret.from_secret_bytes(secret, compressed)] + ([CBitcoinSecret.from_secret_bytes(secret)] if compressed else [])
            for k in made:
                ctx.eq((str(k), k.nVersion), (want, version), 'string')
                ctx.eq(k.to_bytes()[:32], secret, 'secret')
                check_key(ctx, k, secret, compressed, 'from secret bytes')
            again = CBitcoinSecret(want)
            ctx.eq((str(again), again.to_bytes()[:32]), (want, secret), 'string again')
            check_key(ctx, again, secret, compressed, 'from a string')
            check_key(ctx, CKey(secret, compressed), secret, compressed, 'CKey')
            if compressed:
                check_key(ctx, CKey(secret), secret, True, 'CKey by default')
            # the low-level key: both encodings of its public key, its private key in DER and back
            k = CECKey()
            k.set_secretbytes(secret)
            k.set_compressed(compressed)
            ctx.eq(k.get_pubkey(), ec.encode(ec.public(secret), compressed), 'CECKey: public key')
            c = CECKey()
            c.set_privkey(k.get_privkey())
            ctx.eq(c.get_pubkey(), ec.encode(ec.public(secret), compressed), 'CECKey: through DER')
            k.set_compressed(not compressed)
            ctx.eq(k.get_pubkey(), ec.encode(ec.public(secret), not compressed), 'CECKey: other encoding')
            ctx.outcome('compressed' if compressed else 'uncompressed')
            ctx.trace([chain, n, compressed])


DIGESTS = [ref.sha256(b'digest'), b'\0' * 31 + b'\1', b'\xff' * 32, b32(N), b32(N - 1), b32(N + 1), b32(1 << 255), bytes(range(32)), b'\0' * 32]


def both(secret):
    return [ec.encode(ec.public(secret), c) for c in (True, False)]


def signatures(ctx, param):
    """What one key signs, its public key in either encoding accepts, and no other key and for no other digest"""
    part, deep = param
    some = secrets(deep)[::2 if deep else 6]
    for i in range(part, len(some), 8):
        n = some[i]
        secret = b32(n)
        others = [(m, CPubKey(k)) for m in (some[i - 1], N - n, some[(i + 1) % len(some)]) if m != n for k in both(b32(m))]
        for compressed in (True, False):
            for key in (CKey(secret, compressed), CBitcoinSecret.from_secret_bytes(secret, compressed)):
                for digest in DIGESTS[:4] if i % 5 else DIGESTS:
                    ctx.cur = [n, compressed, digest]
                    ctx.state(n, compressed, digest)
                    sig = key.sign(digest)
                    for pub in [key.pub] + [CPubKey(k) for k in both(secret)]:
                        ctx.expect(pub.verify(digest, sig), 'own signature', signature=sig)
                        ctx.step()
                    ctx.expect(ec.verify(bytes(key.pub), digest, sig), 'signature', signature=sig)
                    for m, pub in others:
                        if m == N - n and int.from_bytes(digest, 'big') % N == 0:
                            continue                    # the equation does not tell these two apart
                        ctx.expect(not pub.verify(digest, sig), "another key's signature", signature=sig)
                        ctx.step()
                    for d in DIGESTS:
                        same = (int.from_bytes(d, 'big') - int.from_bytes(digest, 'big')) % N == 0
                        ctx.eq(bool(key.pub.verify(d, sig)), same, 'other digest', signature=sig)
                    # signatures of the reference
                    r, s = ec.sign(secret, digest)
                    for q in (s, N - s):
                        ctx.expect(key.pub.verify(digest, ec.der(r, q)), 'reference signature')
                    ctx.step(4)
                    ctx.outcome('signatures')
                    ctx.trace([n, compressed, digest])


def damage(ctx, param):
    """All one-bit changes of digest, signature and key; all byte values where given"""
    which, every, compressed, part = param
    secret = b32(secrets(False)[7 + 13 * which])
    digest = DIGESTS[0]
    key = CKey(secret, compressed)
    raw = bytes(key.pub)
    sig = ec.der(*ec.sign(secret, digest, which))
    r, s = ec.undend(sig)
    ctx.expect(key.pub.verify(digest, sig), 'signature')
    for bit in range(256) if part == 0 else ():
        d = b32(int.from_bytes(digest, 'big') ^ 1 << bit)
        ctx.cur = [which, 'digest', bit]
        ctx.expect(not key.pub.verify(d, sig), 'changed digest')
        ctx.state(which, compressed, 'digest', bit)
        ctx.step()

    def judge(t, what):
        ctx.cur = [which, what, t]
        ok = ec.undend(t) in ((r, s), (r, N - s))
        ctx.eq(bool(key.pub.verify(digest, t)), ok, what)
        ctx.state(which, compressed, t)
        ctx.step()
        ctx.outcome('still valid' if ok else 'rejected')
    for at in range(part, len(sig), 4):
        for x in (range(256) if every else {sig[at] ^ 1 << b for b in range(8)} | {0, 255}):
            if x != sig[at]:
                judge(sig[:at] + bytes([x]) + sig[at + 1:], 'changed signature')
        judge(sig[:at], 'cut signature')
        judge(sig[:at] + sig[at + 1:], 'byte removed')
        judge(sig[:at] + b'\0' + sig[at:], 'byte inserted')
    for t in (sig, b'', ec.der(r, N - s), ec.der(s, r), ec.der(r, s + N), ec.der(r + N, s), ec.der(N - r, s), ec.der(r, 0), ec.der(0, s), ec.der(0, 0), ec.der(1, 1),
              sig + b'\0', sig * 2, b'\0' + sig, sig + b'\1'):
        judge(t, 'other signature')
    # changed keys
    for at in range(part, len(raw), 4):
        for x in (range(256) if at == 0 or every else {raw[at] ^ 1 << b for b in range(8)}):
            k = raw[:at] + bytes([x]) + raw[at + 1:]
            if k == raw:
                continue
            ctx.cur = [which, 'key', k]
            p = ec.decode(k)
            pub = CPubKey(k)
            ctx.eq(pub.is_fullyvalid, p is not None, 'validity of a changed key')
            ctx.eq(bool(pub.verify(digest, sig)), p == ec.public(secret), 'verified by a changed key')
            ctx.state(which, k)
            ctx.step()
    ctx.trace([which, compressed])


def lengths(ctx, param):
    """Digests of any length (those beyond 32 bytes count for their first 32) with signatures of any length"""
    which, part, deep = param
    secret = b32(secrets(False)[3 + 11 * which])
    compressed = which % 2 == 0
    pub = CKey(secret, compressed).pub
    fill = (b'\x9c' + bytes(range(1, 120)), b'\1' * 120, b'\0' * 120)[which % 3]
    # signatures of every length there is: those of small r cannot be made, those of small s can be
    for n in range(part, 100, 4):
        digest = fill[:n]
        z = digest[:32].rjust(32, b'\0')
        r, s = ec.sign(secret, z)
        for q in (s, N - s):
            good = ec.der(r, q)
            tails = [b'', b'\0', b'\1', b'\x30'] + [bytes([t]) * k for t in (0, 1, 255) for k in (range(2, 80) if deep else (2, 3, 7, 8, 9, 40, 64, 80, 200))] + [good, good[:-1]]
            for t in [good + x for x in tails] + [b'\0' * k for k in (0, 1, 8, 70, 72, 73, 80, 300)] + [good[:k] for k in (1, 2, len(good) - 1)] + [ec.der((1 << 255) - 1, q), ec.der(r, N + q), ec.der(r << 300, q)]:
                ctx.cur = [which, n, t]
                ctx.eq(bool(pub.verify(digest, t)), t == good, 'digest and signature of any length')
                ctx.state(which, n, t)
                ctx.step()
                ctx.outcome('valid' if t == good else 'not valid')
            for d in {digest + b'\1', digest[:-1], b'\1' + digest, digest[::-1]}:
                ctx.cur = [which, n, d]
                zz = int.from_bytes(d[:32], 'big') % N
                ctx.eq(bool(pub.verify(d, good)), zz == int.from_bytes(z, 'big') % N, 'digest of another length')
                ctx.step()
        ctx.trace([which, n])


def validity(ctx, param):
    """Which byte strings are public keys"""
    kind, arg, deep = param
    keys = []
    if kind == 'x':
        for x in arg:
            for prefix in (2, 3):
                keys.append(bytes([prefix]) + b32(x))
            y = pow(x ** 3 + 7, (P + 1) // 4, P)
            for prefix in (4, 6, 7):
                for yy in {y, (P - y) % P, (y + 1) % P, 0, P if y == 0 else y + P if y + P < 1 << 256 else y}:
                    keys.append(bytes([prefix]) + b32(x) + b32(yy))
    elif kind == 'length':
        body = ec.encode(ec.mul(9, G), False)[1:] * 3
        for prefix in range(256):
            keys += [bytes([prefix]) + body[:n] for n in ((32, 64) if prefix > 8 else range(0, 130))]
        keys += [b'', b'\1' * 33, b'\0' * 33, b'\0' * 65, b'\xff' * 65, b'\xff' * 33, b'\0\0', b'\0' * 32]
    for k in keys:
        ctx.cur = [k]
        pub = CPubKey(k)
        good = ec.decode(k) is not None or k == b'\0'
        ctx.eq((pub.is_valid, pub.is_fullyvalid, pub.is_compressed), (len(k) > 0, good, len(k) == 33), 'validity', key=k)
        ctx.eq(bytes(pub), k, 'bytes')
        if not good:
            ctx.eq(bool(pub.verify(DIGESTS[0], ec.der(1, 1))), False, 'invalid key verifies')
        ctx.state(k)
        ctx.step()
        ctx.outcome('valid' if good else 'invalid')
    ctx.trace([kind, len(keys)])


def malformed(ctx, param):
    """Strings that are no secret keys"""
    chain, kind = param
    bitcoin.SelectParams(chain)
    version = CHAINS[chain][2]
    good = b32(5)
    if kind == 'shapes':
        for n in range(0, 80):
            for last in range(256) if n == 33 else (0, 1, 2, 255):
                p = (good + b'\1' * 60)[:n - 1] + bytes([last]) if n else b''
                ctx.cur = [chain, p]
                ctx.state(chain, p)
                ctx.step()
                if n == 32 or n == 33 and last == 1:
                    if n == 32 and last == 0:
                        continue
                    ctx.eq(CBitcoinSecret(text(version, p)).is_compressed, n == 33, 'secret')
                    ctx.outcome('secrets')
                else:
                    ctx.raises(CBitcoinSecretError, lambda: CBitcoinSecret(text(version, p)), 'malformed payload', payload=p)
                    ctx.outcome('malformed')
    elif kind == 'versions':
        for v in range(256):
            for p in (good, good + b'\1'):
                ctx.cur = [chain, v, p]
                ctx.state(chain, v, p)
                ctx.step()
                if v == version:
                    ctx.eq(str(CBitcoinSecret(text(v, p))), text(v, p), 'secret')
                else:
                    ctx.raises(CBitcoinSecretError, lambda: CBitcoinSecret(text(v, p)), 'other version')
    else:
        for s in (text(version, good), text(version, good + b'\1')):
            for at in range(len(s)):
                for c in '123zZ':
                    if c != s[at]:
                        t = s[:at] + c + s[at + 1:]
                        ctx.cur = [chain, t]
                        ctx.state(chain, t)
                        ctx.raises(Base58ChecksumError, lambda: CBitcoinSecret(t), 'changed character')
                        ctx.step()
                ctx.raises(InvalidBase58Error, lambda: CBitcoinSecret(s[:at] + 'l' + s[at + 1:]), 'foreign character')
                ctx.raises(Base58Error, lambda: CBitcoinSecret(s[:at]), 'cut')
                ctx.raises(Base58Error, lambda: CBitcoinSecret(s[:at] + s[at + 1:]) if s[:at] + s[at + 1:] != s else 1 / 0, 'character removed')
    ctx.trace([chain, kind])


def arguments(ctx, _):
    """Only 32-byte digests are signed"""
    key = CKey(b32(77))
    for n in range(0, 70):
        ctx.cur = [n]
        if n != 32:
            ctx.raises(ValueError, lambda: key.sign(b'x' * n), 'digest of another length')
        ctx.state(n)
        ctx.step()
    for d in (None, 'x' * 32, 5, bytearray(32), list(range(32))):
        ctx.raises(TypeError, lambda: key.sign(d), 'not a digest')
    ctx.trace(['arguments'])


def shared(ctx, param):
    """Two keys derive the same secret, from either side"""
    part, deep = param
    some = secrets(deep)[::6 if deep else 9]
    for i in range(part, len(some), 8):
        for n in some:
            m = some[i]
            ctx.cur = [m, n]
            ctx.state(m, n)
            a, b = CECKey(), CECKey()
            a.set_secretbytes(b32(m))
            b.set_secretbytes(b32(n))
            a.set_compressed(m % 2 == 0)
            b.set_compressed(m % 3 == 0)
            x = ec.mul(m * n, G)
            if x is None:
                continue
            want = b32(x[0])
            c = CECKey()
            c.set_pubkey(ec.encode(ec.public(b32(n)), (m + n) % 2 == 0))
            ctx.eq((a.get_raw_ecdh_key(b), b.get_raw_ecdh_key(a), a.get_raw_ecdh_key(c)), (want,) * 3, 'shared secret')
            ctx.eq((a.get_ecdh_key(c), b.get_ecdh_key(a)), (hashlib.sha256(want).digest(),) * 2, 'derived key')
            ctx.eq(a.get_ecdh_key(b, lambda k: k[::-1]), want[::-1], 'other derivation')
            ctx.step(3)
            ctx.trace([m, n])
    # pairs whose shared secret begins or ends with zero bytes
    for m in range(2 + part, 3000 if deep else 1200, 8):
        for n in (1, 2, 3):
            want = b32(ec.mul(m * n, G)[0])
            if want[0] and want[-1]:
                continue
            for ca, cb in itertools.product((True, False), repeat=2):
                ctx.cur = [m, n, ca, cb]
                ctx.state(m, n, ca, cb)
                a, b = CECKey(), CECKey()
                a.set_secretbytes(b32(m))
                b.set_secretbytes(b32(n))
                a.set_compressed(ca)
                b.set_compressed(cb)
                ctx.eq((a.get_raw_ecdh_key(b), b.get_raw_ecdh_key(a)), (want,) * 2, 'shared secret')
                ctx.eq((a.get_ecdh_key(b), b.get_ecdh_key(a)), (hashlib.sha256(want).digest(),) * 2, 'derived key')
                ctx.step(2)
            ctx.outcome('zero bytes at an end')
            ctx.trace([m, n])
    ctx.outcome('pairs')


def numbers(ctx, param):
    """Signatures whose numbers are of any size, by the keys that fit them"""
    part, parts = param
    xs, ss = ec.numbers()
    for c, (x, s) in enumerate(itertools.product(xs, ss)):
        if c % parts != part:
            continue
        for digest in (DIGESTS[0], DIGESTS[7]):
            point = ec.signed_by(x, s, digest)
            if point is None:
                continue
            r = x % N
            for compressed in (True, False):
                pub = CPubKey(ec.encode(point, compressed))
                ctx.cur = [x, s, digest, compressed]
                for what, sig, ok in (('fits', ec.der(r, s), True), ('negated', ec.der(r, N - s), True), ('other s', ec.der(r, s % (N - 1) + 1), None),
                                      ('other r', ec.der(r + 1, s), None), ('s beyond', ec.der(r, s + N), False), ('r beyond', ec.der(r + N, s), False), ('swapped', ec.der(s, r), None)):
                    want = ec.verify(bytes(pub), digest, sig)
                    if ok is not None and want != ok:
                        raise AssertionError('reference')
                    ctx.eq(bool(pub.verify(digest, sig)), want, 'numbers:' + what, signature=sig, key=bytes(pub))
                    ctx.step()
            ctx.state(x, s)
            ctx.trace([x, s])


def threads(ctx, param):
    """Keys made in one thread and used in others, in processes whose memory lies low and high"""
    part, parts, memory, a, b = param
    env = dict(os.environ)
    if memory == 'high':
        env['MALLOC_MMAP_THRESHOLD_'] = '0'         # whatever is allocated lies beyond four gigabytes
    ctx.cur = [part, memory, a, b]
    r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mc.keychild', str(part), str(parts), b32(a).hex(), b32(b).hex()], env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    got = {}
    for line in r.stdout.decode('utf8').split('\n'):
        if line:
            n, v = json.loads(line)
            got[n] = v
    for n, (places, compressed, kind) in enumerate(keychild.programs()):
        if n % parts != part or (n not in got and r.returncode):
            continue
        ctx.cur = [part, memory, a, b, 'program', list(places), compressed, kind]
        ctx.state(memory, places, compressed, kind, a, b)
        ctx.step(len(places))
        v = got.get(n)
        if not ctx.expect(isinstance(v, list), 'threads', 'using a key in another thread fails', result=v, status=r.returncode, stderr=r.stderr.decode('utf8', 'replace')[-300:]):
            continue
        pa, pb = ec.encode(ec.public(b32(a)), compressed), ec.encode(ec.public(b32(b)), compressed)
        both = b32(ec.mul(a * b, G)[0]).hex()
        address = text(CHAINS['mainnet'][0], btc.hash160(pa))
        ctx.eq(v[:2] + v[3:], [pa.hex(), compressed, True, True, False, True, pb.hex(), pb.hex(), both, both, address], 'in threads')
        ctx.expect(ec.verify(pa, keychild.DIGEST, bytes.fromhex(v[2])), 'signature in threads', signature=v[2])
        ctx.trace([memory, list(places), compressed, kind], 0)
    ctx.expect(r.returncode == 0, 'threads', 'the process using keys in threads ended with %d' % r.returncode, stderr=r.stderr.decode('utf8', 'replace')[-300:])
    ctx.trace()


def order(ctx, param):
    """Signing and verifying in any order disturb nothing"""
    keys = [(b32(3), True), (b32(4), False)]
    d1, d2 = DIGESTS[0], DIGESTS[7]
    sigs = {(s, d): ec.der(*ec.sign(s, d)) for s, _ in keys for d in (d1, d2)}
    first, depth = param
    for rest in itertools.product(range(6), repeat=depth - 1):
        seq = (first,) + rest
        ctx.cur = list(seq)
        k = [CKey(*a) for a in keys]
        for n, op in enumerate(seq):
            i, what = op % 2, op // 2
            if what == 0:
                sig = k[i].sign(d1)
                ctx.expect(ec.verify(bytes(k[i].pub), d1, sig), 'signature')
            elif what == 1:
                ctx.expect(k[i].pub.verify(d2, sigs[keys[i][0], d2]), 'verification')
            else:
                ctx.expect(not k[i].pub.verify(d1, sigs[keys[1 - i][0], d1]), 'verification')
                ctx.expect(not k[i].pub.verify(d1, b''), 'verification')
            ctx.step()
        for i in range(2):
            check_key(ctx, k[i], keys[i][0], keys[i][1], 'afterwards')
        ctx.state(tuple(sorted(set(seq))))
        ctx.trace([seq])


def one_object(ctx, param):
    """Every sequence of changes and uses of one key object, in which the secret, the public key and its form may change between uses"""
    first, depth = param
    secs = (5, 1 << 200)
    others = {'a': 11, 'b': 12}
    digests = DIGESTS[0], DIGESTS[7]
    pubs = {(n, c): ec.encode(ec.mul(n, G), c) for n in secs + (21, 22) for c in (True, False)}
    shared_keys = {(n, o): b32(ec.mul(n * m, G)[0]) for n in secs for o, m in others.items()}
    sigs = {(n, d): ec.der(*ec.sign(b32(n), d)) for n in secs + (21, 22) for d in digests}
    far = {}
    for o, m in others.items():
        far[o] = CECKey()
        far[o].set_secretbytes(b32(m))
    judges = {n: CPubKey(pubs[n, True]) for n in secs + (21, 22)}
    ops = [('secret', secs[0]), ('secret', secs[1]), ('form', True), ('form', False), ('public', (21, True)), ('public', (22, False)),
           ('ecdh', 'a'), ('ecdh', 'b'), ('get', None), ('sign', 0), ('sign', 1), ('verify', 0), ('verify', 1)]

    def use(k, what, arg, sec, pub, form):
        if what == 'ecdh':
            ctx.eq(k.get_raw_ecdh_key(far[arg]), shared_keys[sec, arg], 'one object: shared secret', other=arg)
        elif what == 'get':
            ctx.eq(k.get_pubkey(), pubs[pub, form], 'one object: public key')
        elif what == 'sign':
            ctx.expect(judges[sec].verify(digests[arg], k.sign(digests[arg])), 'one object: signature')
        elif what == 'verify':
            for n in judges:
                ctx.eq(k.verify(digests[arg], sigs[n, digests[arg]]), n == pub, 'one object: verification', key=n)
        ctx.step()
    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
        seq = [ops[i] for i in (first,) + rest]
        ctx.cur = seq
        k = CECKey()
        k.set_secretbytes(b32(secs[0]))
        sec = pub = secs[0]
        form = False
        for what, arg in seq:
            if what == 'secret':
                k.set_secretbytes(b32(arg))
                sec = pub = arg
            elif what == 'form':
                k.set_compressed(arg)
                form = arg
            elif what == 'public':
                k.set_pubkey(pubs[arg])
                pub, form = arg
            else:
                use(k, what, arg, sec, pub, form)
        for what, arg in ops[6:]:
            use(k, what, arg, sec, pub, form)
        ctx.state(sec, pub, form, seq[-1])
        ctx.trace([seq])
    ctx.outcome('sequences')


def spaces(tier):
    deep = tier == 'thorough'
    xs = list(range(0, 600 if deep else 100)) + [P - k for k in range(1, 20)] + [P + k for k in range(0, 40)] + [2 ** 256 - 1, N, N - 1, 2 ** 255]
    return [
        core.Space('secrets', {'secrets': len(secrets(deep)), 'chains': 3 if deep else 2}, strings,
                   [(c, k, deep) for c in (CHAINS if deep else ('mainnet', 'testnet')) for k in range(8)], disjoint=True),
        core.Space('signatures', {'secrets': len(secrets(deep)[::2 if deep else 6]), 'digests': len(DIGESTS)}, signatures, [(k, deep) for k in range(8)], disjoint=True),
        core.Space('damage', {'signatures': 8 if deep else 4, 'damage': 'all one-bit changes of digest, signature, key' + (', all one-byte changes' if deep else '')}, damage,
                   [(k, deep or k == 0, c, q) for k in range(8 if deep else 4) for c in (True, False) for q in range(4)]),
        core.Space('lengths', {'digest lengths': 100, 'signature lengths': 'up to 300'}, lengths, [(k, q, deep) for k in range(6 if deep else 3) for q in range(4)], disjoint=True),
        core.Space('public keys', {'x coordinates': len(xs), 'lengths': 130}, validity, [('x', xs[k::8], deep) for k in range(8)] + [('length', None, deep)]),
        core.Space('malformed', {'payload lengths': 80, 'versions': 256}, malformed, [(c, k) for c in ('mainnet', 'testnet') for k in ('shapes', 'versions', 'strings')], disjoint=True),
        core.Space('arguments', {}, arguments, [None]),
        core.Space('shared', {'pairs of keys': len(secrets(deep)[::6 if deep else 9]) ** 2}, shared, [(k, deep) for k in range(8)], disjoint=True),
        core.Space('numbers', {'r': len(ec.numbers()[0]), 's': len(ec.numbers()[1])}, numbers, [(k, 24) for k in range(24)]),
        core.Space('threads', {'places of each of the steps %s' % ', '.join(keychild.STEPS): keychild.PLACES, 'programs': len(keychild.programs()), 'memory': 'low and high'}, threads,
                   [(k, 4, memory, a, b) for memory in ('low', 'high') for k in range(4) for a, b in (((7, 1 << 255), (N - 1, 5)) if deep else ((7, 1 << 255),))], disjoint=True),
        core.Space('order', {'sequences of': 5 if deep else 4}, order, [(k, 5 if deep else 4) for k in range(6)]),
        core.Space('one object', {'sequences of': 4 if deep else 3, 'changes and uses': 13}, one_object, [(k, 4 if deep else 3) for k in range(13)]),
    ]
