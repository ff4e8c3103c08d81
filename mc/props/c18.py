"""C18: the single-use-seal command line tool, run on scratch directories

The tool runs as itself: in a forked process, with its own arguments, home and working directory. A model of the
directory (which seals, transactions and witnesses exist, what they say) predicts how every command ends, what it prints
and which files it leaves.
"""
import builtins, hashlib, itertools, os, re, resource, runpy, shutil, subprocess, sys, tempfile, traceback

from mc import core, ref, btc, pm
import argparse, ast, linecache, pkgutil, tokenize, typing, bitcoin.rpc, json, logging
from bitcoin.core import CTransaction
import proofchains.uniquebits.singleuseseal, proofchains.core.uniquebits.singleuseseal

LEVEL = 'model_checking'
ASSUMPTIONS = ['most runs fork an interpreter that has imported the libraries already; a sample starts afresh',
               'messages and the layout of what is printed are left open beyond the ids and the transaction']

TOOL = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'sus-tool.py')
A, B, C = (b'\x11' * 31 + b'\x22', 0), (bytes(range(32)), 7), (b'\xff' * 31 + b'\0', 2 ** 32 - 1)
AB, BA = (A[0], B[1]), (B[0], A[1])      # differ from A and B in one part each
D1, D2 = bytes(range(200, 232)), b'\0' * 31 + b'\1'
METHS = {'op_return': ['--op-return'], 'p2sh': ['--p2sh'], 'p2pkh': ['--p2pkh'], None: []}


class Dir:
    """A scratch directory with a home; run() runs the tool in it"""
    def __init__(self, port=None, afresh=False):
        self.path = tempfile.mkdtemp(prefix='c18-')
        self.home = os.path.join(self.path, 'home')
        self.work = os.path.join(self.path, 'work')
        os.makedirs(os.path.join(self.home, '.bitcoin'))
        os.makedirs(self.work)
        with open(os.path.join(self.home, '.bitcoin', 'bitcoin.conf'), 'w') as fd:
            fd.write('rpcuser=u\nrpcpassword=p\nrpcport=%d\n' % (port or 1))
        self.afresh = afresh

    def close(self):
        shutil.rmtree(self.path)

    def names(self):
        return sorted(os.path.relpath(os.path.join(p, n), self.work) for p, _, ns in os.walk(self.work) for n in ns)

    def files(self):
        out = {}
        for n in self.names():
            with open(os.path.join(self.work, n), 'rb') as fd:
                out[n] = fd.read()
        return out

    def put(self, files):
        for n in self.names():
            if n not in files:
                os.unlink(os.path.join(self.work, n))
        for n, b in files.items():
            with open(os.path.join(self.work, n), 'wb') as fd:
                fd.write(b)

    def limited(self, limit, *args):
        """Run in an interpreter of its own that can write no file, nor its output, beyond so many bytes: as on a full disk.

        Exit status and what came out"""
        env = dict(os.environ, HOME=self.home, PYTHONPYCACHEPREFIX=os.path.join(self.path, 'cache'), PYTHONDONTWRITEBYTECODE='1')
        out = os.path.join(self.path, 'out')
        with open(out, 'wb') as fd:
            r = subprocess.run([sys.executable, '-W', 'ignore', TOOL] + list(args), cwd=self.work, stdout=fd, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env,
                               preexec_fn=None if limit is None else lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit)))
        self.err = r.stderr.decode('utf8', 'replace')
        with open(out, 'rb') as fd:
            return r.returncode, fd.read()

    def run(self, *args):
        """Exit status and standard output"""
        if self.afresh:
            env = dict(os.environ, HOME=self.home, PYTHONPYCACHEPREFIX=os.path.join(self.path, 'cache'))
            env.pop('PYTHONDONTWRITEBYTECODE', None)
            r = subprocess.run([sys.executable, '-W', 'ignore', TOOL] + list(args), cwd=self.work, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env)
            self.err = r.stderr.decode('utf8', 'replace')
            return r.returncode, r.stdout.decode()
        out, err = (os.path.join(self.path, n) for n in ('out', 'err'))
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                for fd, name in ((1, out), (2, err)):
                    f = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(f, fd)
                    os.close(f)
                sys.stdout = open(1, 'w', closefd=False)
                sys.stderr = open(2, 'w', closefd=False)
                code = self.inside(list(args))
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code)
        st = os.waitpid(pid, 0)[1]
        with open(out) as fd:
            text = fd.read()
        with open(err) as fd:
            self.err = fd.read()
        return (os.waitstatus_to_exitcode(st), text)

    def inside(self, args):
        os.chdir(self.work)
        os.environ['HOME'] = self.home
        sys.argv = [TOOL] + args
        opened, real_open = [], open

        def noting_open(*a, **k):
            opened.append(real_open(*a, **k))
            return opened[-1]
        builtins.open = noting_open
        code = 0
        try:
            g = runpy.run_path(TOOL, run_name='__main__')
            del g
        except SystemExit as e:
            code = e.code
            if code is None:
                code = 0
            elif not isinstance(code, int):
                print(code, file=sys.stderr)
                code = 1
        except BaseException:
            traceback.print_exc()
            code = 1
        for f in opened:
            f.close()       # an interpreter of its own would when it ends
        return code


def point_arg(o):
    return '%s:%d' % (o[0][::-1].hex(), o[1])


def parse_seal(b):
    """(outpoint, nonce) of a seal file"""
    assert len(b) == 1 + 1 + 36 + 16 and b[:2] == b'\0\x24', b
    return (b[2:34], int.from_bytes(b[34:38], 'little')), b[38:]


def seal_model(b):
    o, nonce = parse_seal(b)
    return pm.M('Seal', outpoint=o, nonce=nonce)


def tx_tuple(hexed):
    tx = CTransaction.deserialize(bytes.fromhex(hexed))
    return (tx.nVersion, tuple(((i.prevout.hash, i.prevout.n), bytes(i.scriptSig), i.nSequence) for i in tx.vin),
            tuple((o.nValue, bytes(o.scriptPubKey)) for o in tx.vout), tx.nLockTime)


def witness_model(seal, tx):
    i = [o for o, _, _ in tx[1]].index(seal.vals['outpoint'])
    tp = pm.M('TxProof', tx=tx)
    return pm.M('Witness', seal=seal, txinproof=pm.M('TxInProof', i=i, txproof=tp), txoutproof=pm.M('TxOutProof', i=0, txproof=tp))


class Session:
    """Commands with their expectations"""
    def __init__(self, ctx, d, flags=(), spell=None):
        self.ctx, self.d, self.flags, self.spell = ctx, d, list(flags), spell or {}

    def run(self, want, key, *args):
        """Run a command; want: whether it succeeds. Files may only be added."""
        before = self.d.files()
        rc, out = self.d.run(*(self.flags + [self.spell.get(a, a) for a in args]))
        self.after = self.d.files()
        self.ctx.step()
        self.ctx.outcome('succeeded' if rc == 0 else 'refused')
        self.ctx.eq(rc == 0, want, key + ':status', command=args, status=rc, stderr=self.d.err[-600:])
        for n, b in before.items():
            self.ctx.eq(self.after.get(n), b, key + ':existing-file', command=args, file=n)
        self.new = sorted(set(self.after) - set(before))
        return out

    def mkseal(self, o, f):
        fresh = f not in self.d.files()
        self.run(fresh, 'mkseal', 'mkseal', point_arg(o), f)
        self.ctx.eq(self.new, [f] if fresh else [], 'mkseal:files')
        if fresh:
            self.ctx.eq(self.after[f][:38], b'\0\x24' + btc.outpoint(o), 'mkseal:contents')
            self.ctx.eq(len(self.after[f]), 54, 'mkseal:length')

    def sealinfo(self, f):
        m = seal_model(self.d.files()[f])
        words = self.run(True, 'sealinfo', 'sealinfo', f).split()
        self.ctx.expect(m.hash().hex() in words, 'sealinfo:hash', 'the seal hash is not shown', words=words)
        self.ctx.expect(point_arg(m.vals['outpoint']) in words, 'sealinfo:outpoint', 'the outpoint is not shown', words=words)
        self.ctx.eq(self.new, [], 'sealinfo:files')

    def mkclosetx(self, digest, meth, fs):
        files = self.d.files()
        ok = all(f in files for f in fs) and len({files[f] for f in fs}) == len(fs)
        out = self.run(ok, 'mkclosetx', 'mkclosetx', *(METHS[meth] + [digest.hex()] + list(fs)))
        self.ctx.eq(self.new, [], 'mkclosetx:files')
        if ok:
            hexed = out.split()[-1] if out.split() else ''
            self.ctx.expect(re.fullmatch('([0-9a-f]{2})+', hexed), 'mkclosetx:hex', 'no transaction printed', out=out)
            t = tx_tuple(hexed)
            self.ctx.eq([o for o, _, _ in t[1]], [parse_seal(files[f])[0] for f in fs], 'mkclosetx:inputs')
            self.ctx.eq([s for _, s in t[2]], [btc.commit_script(digest, meth or 'op_return')], 'mkclosetx:outputs')
            return hexed, t

    def mkwitness(self, hexed, t, fs, how=None):
        files = self.d.files()
        spent = [o for o, _, _ in t[1]]
        want, ok = {}, True
        for f in fs:
            if f not in files:
                want, ok = {}, False        # noticed before anything is done
                break
        else:
            for f in fs:
                if parse_seal(files[f])[0] not in spent or f + '.witness' in files or f + '.witness' in want:
                    ok = False
                    break
                want[f + '.witness'] = witness_model(seal_model(files[f]), t)
        args = how or ['--tx', hexed]
        self.run(ok, 'mkwitness', 'mkwitness', *(args + list(fs)))
        if ok:
            self.ctx.eq(self.new, sorted(want), 'mkwitness:files')
        else:
            # what it did before the seal it stopped at is left open
            self.ctx.expect(set(self.new) <= set(want), 'mkwitness:files', 'made witnesses of seals not closed', new=self.new)
        for f in self.new:
            m = want[f]
            self.ctx.eq(pm.BitcoinSealWitness.deserialize(self.after[f]).hash, m.hash(), 'mkwitness:contents', file=f)
        return {f: want[f] for f in self.new}

    def witnessinfo(self, f, m):
        words = self.run(True, 'witnessinfo', 'witnessinfo', f).split()
        t = m.vals['txinproof'].vals['txproof'].vals['tx']
        for what, w in (('hash', m.hash().hex()), ('txid', btc.txid(t)[::-1].hex()), ('seal', m.vals['seal'].hash().hex()),
                        ('outpoint', point_arg(m.vals['seal'].vals['outpoint']))):
            self.ctx.expect(w in words, 'witnessinfo:' + what, 'not shown', want=w, words=words)
        self.ctx.eq(self.new, [], 'witnessinfo:files')

    def verify(self, f, ok, **opts):
        args = []
        for k, v in opts.items():
            args += {'digest': ['-d', v], 'seal_file': ['--seal-file', v], 'seal_id': ['--seal-id', v], 'local': ['-l']}[k]
        self.run(ok, 'verifywitness', 'verifywitness', *(args + [f]))
        self.ctx.eq(self.new, [], 'verifywitness:files')


def flow(ctx, param):
    """Seals, closing transaction, witnesses, verification with every mix of right and wrong options"""
    points, meth, digest, order, flags, afresh, full = param
    d = Dir(afresh=afresh)
    try:
        s = Session(ctx, d, flags)
        names = ['s%d' % k for k in range(len(points))]
        ctx.cur = [points, meth, digest, order, flags]
        for o, f in zip(points, names):
            s.mkseal(o, f)
            s.sealinfo(f)
        s.mkseal(A, 'other')
        s.mkseal(points[0], names[0])               # refused: exists
        s.mkseal(C if points[0] != C else A, names[0])
        use = [names[k] for k in order]
        made = s.mkclosetx(digest, meth, use)
        s.mkclosetx(digest, meth, use + use[:1])    # refused: twice the same
        s.mkclosetx(digest, meth, use + ['nothing'])
        if made:
            ws = s.mkwitness(made[0], made[1], use)
            s.mkwitness(made[0], made[1], use)      # refused: exist
            again = d.files()
            seals = {f: seal_model(again[f]) for f in names + ['other']}
            for f in use[:None if full else 1]:
                w = f + '.witness'
                s.witnessinfo(w, ws[w])
                wrong = [n for n in seals if n != f][-1 if full else 0]
                for dig, sf, sid, loc in itertools.product((None, True, False), (None, True, False), (None, True, False),
                                                           (None, True) if full or len(points) == 1 else (None,)):
                    opts = {}
                    if dig is not None:
                        opts['digest'] = digest.hex() if dig else (D2 if digest == D1 else D1).hex()
                    if sf is not None:
                        opts['seal_file'] = f if sf else wrong
                    if sid is not None:
                        opts['seal_id'] = seals[f].hash().hex() if sid else seals[wrong].hash().hex()
                    if loc:
                        opts['local'] = True
                    s.verify(w, False not in (dig, sf, sid), **opts)
                    ctx.state(points, meth, digest, order, f, dig, sf, sid)
                for o in seals:
                    s.verify(w, o == f, seal_id=seals[o].hash().hex())
                    s.verify(w, o == f, seal_file=o)
                s.verify(w, False, seal_id=seals[f].hash()[::-1].hex())
                s.verify(w, False, digest=digest[::-1].hex())
                for bad in ('', '00', digest.hex()[:-2], digest.hex() + '00', 'x' * 64, digest.hex()[:-1] + 'g'):
                    s.verify(w, False, digest=bad)
                    s.verify(w, False, seal_id=bad)
        ctx.trace([points, meth, order])
    finally:
        d.close()


FLAGS = [[], ['-t'], ['-n'], ['-q'], [], ['-v'], ['-t', '-vv', '-n'], ['-qq']]


def funded(ctx, param):
    """Whoever pays for the transaction adds inputs anywhere and outputs after the first, and signs it"""
    meth, n, before, after, change = param
    points = (A, B, C)[:n]
    d = Dir()
    try:
        s = Session(ctx, d)
        ctx.cur = list(param)
        names = ['s%d' % k for k in range(n)]
        for o, f in zip(points, names):
            s.mkseal(o, f)
        s.mkseal(AB, 'other')
        hexed, t = s.mkclosetx(D1, meth, names)
        more = [((ref.sha256(b'%d' % k), k), b'\x47' + bytes(71), 0xfffffffe) for k in range(before + after)]
        ins = tuple(more[:before]) + tuple((o, b'\x01' + bytes([k]), 0xfffffffd) for k, (o, _, _) in enumerate(t[1])) + tuple(more[before:])
        outs = t[2] + tuple((5000 + k, btc.commit_script(D1 if k == 1 else D2, 'p2pkh')) for k in range(change))
        t = (2, ins, outs, 500)
        hexed = btc.tx(t).hex()
        s.mkwitness(hexed, t, ['other'])
        for f, m in s.mkwitness(hexed, t, names).items():
            s.witnessinfo(f, m)
            s.verify(f, True)
            s.verify(f, True, digest=D1.hex(), seal_file=f[:-8])
            s.verify(f, False, digest=D2.hex())
            s.verify(f, False, digest=D1.hex(), seal_file='other')
            ctx.state(*param, f)
        ctx.trace(list(param))
    finally:
        d.close()


PLACES = [('s', 'a/s', 'b/s'), ('a/s', 'b/s', 'a/t'), ('s', 's.witness.x', 's.seal'), ('a/b/s', 'a/s', 'b/a/s'), ('one two', ' s', 's '), ('a/.s', '.s', 'b/..s'),
          ('s.witness.witness', 't.witness', 's'), ('\u03c3', 'a/\u03c3', 'S'), ('s' * 200, 'a/' + 's' * 200, 's'), ('=', '@a', '%s'), ('{}', 'a/{0}', '*'),
          ('11', '0', 'a/0'), ('a.b/s', 'a/b.s', 'a.b/s.t')]
SPELLINGS = {'plain': lambda d, f: f, 'dot': lambda d, f: './' + f, 'absolute': lambda d, f: os.path.join(d.work, f), 'up and down': lambda d, f: '../work/' + f,
             'double slash': lambda d, f: './/' + f.replace('/', '//')}


def places(ctx, param):
    """Seals under all kinds of names in different directories, also of the same name; witnesses are made next to them"""
    names, spelling = param
    d = Dir()
    try:
        for n in ('a', 'b', 'a/b', 'b/a', 'a.b'):
            os.mkdir(os.path.join(d.work, n))
        s = Session(ctx, d, (), {f + e: SPELLINGS[spelling](d, f + e) for f in names for e in ('', '.witness')})
        ctx.cur = list(param)
        for o, f in zip((A, B, C), names):
            s.mkseal(o, f)
            s.sealinfo(f)
        for f in names:
            s.mkseal(AB, f)                 # refused: exists
        hexed, t = s.mkclosetx(D1, None, names)
        first = s.mkwitness(hexed, t, names[1:2])
        rest = s.mkwitness(hexed, t, names[:1] + names[2:])
        s.mkwitness(hexed, t, names)        # refused: exist
        ws = dict(first, **rest)
        for f in names:
            s.witnessinfo(f + '.witness', ws[f + '.witness'])
            for g in names:
                s.verify(f + '.witness', f == g, seal_file=g, digest=D1.hex())
            s.verify(f + '.witness', False, digest=D2.hex())
            ctx.state(names, spelling, f)
        ctx.trace(list(param))
    finally:
        d.close()


def explore(ctx, param):
    """All states of a directory reachable by a number of commands, every command in each"""
    depth, first = param
    d = Dir()
    try:
        s = Session(ctx, d)

        def commands(state):
            files, txs, ws = state
            for o in (A, B):
                for f in ('s1', 's2'):
                    yield ('mkseal', o, f)
            for fs in (('s1',), ('s2',), ('s1', 's2'), ('s2', 's1')):
                if all(f in files for f in fs) and len(txs) < 2:
                    for dig, meth in ((D1, 'p2sh'), (D2, None)):
                        yield ('mkclosetx', dig, meth, fs)
                for k in range(len(txs)):
                    yield ('mkwitness', k, fs)
            for w in ws:
                for dig in (D1, D2):
                    yield ('verify', w, 'digest', dig)
                for f in ('s1', 's2'):
                    yield ('verify', w, 'seal_file', f)
                yield ('witnessinfo', w)

        def key(state):
            files, txs, ws = state
            return (tuple(sorted((f, parse_seal(b)[0]) for f, b in files.items() if not f.endswith('.witness'))), tuple((t, x[0]) for t, x in txs),
                    tuple(sorted((w, repr(m.vals['txinproof'].vals['txproof'].vals['tx'])) for w, m in ws.items())))

        def go(state, c):
            files, txs, ws = state
            d.put(files)
            if c[0] == 'mkseal':
                s.mkseal(c[1], c[2])
                return (d.files(), txs, ws)
            if c[0] == 'mkclosetx':
                made = s.mkclosetx(*c[1:])
                return (files, txs + ((c[1:], made),), ws) if made else state
            if c[0] == 'mkwitness':
                new = s.mkwitness(*txs[c[1]][1], c[2])
                return (d.files(), txs, dict(ws, **new))
            if c[0] == 'verify':
                _, w, opt, v = c
                if opt == 'digest':
                    out = ws[w].vals['txoutproof'].vals['txproof'].vals['tx'][2][0][1]
                    s.verify(w, out in [btc.commit_script(v, m) for m in METHS if m], digest=v.hex())
                elif v in files:
                    s.verify(w, seal_model(files[v]).hash() == ws[w].vals['seal'].hash(), seal_file=v)
                else:
                    s.verify(w, False, seal_file=v)
                return state
            s.witnessinfo(c[1], ws[c[1]])
            return state

        start = ({}, (), {})
        todo, seen = [(start, [])], set()
        if first is not None:
            st, hist = start, []
            for c in first:
                ctx.cur = hist + [c]
                st, hist = go(st, c), hist + [c]
            todo = [(st, hist)]
        while todo:
            nxt = []
            for st, hist in todo:
                if len(hist) >= depth:
                    continue
                for c in commands(st):
                    ctx.cur = hist + [c]
                    new = go(st, c)
                    ctx.trace(ctx.cur if len(hist) == depth - 1 else None)
                    k = key(new)
                    if k not in seen:
                        seen.add(k)
                        ctx.state(k)
                        nxt.append((new, hist + [c]))
            todo = nxt
    finally:
        d.close()


def nonces(ctx, param):
    """Every bit of the nonces of many seals over one outpoint varies, none comes twice, no part repeats another"""
    n, = param
    d = Dir()
    try:
        s = Session(ctx, d)
        got = []
        for k in range(n):
            ctx.cur = [k]
            f = 'n%d' % k
            s.mkseal(A, f)
            got.append(parse_seal(s.after[f])[1])
            d.put({})
        ctx.eq(len(set(got)), n, 'nonces:repeated')
        for k in range(128):
            ones = sum(g[k // 8] >> k % 8 & 1 for g in got)
            ctx.expect(0 < ones < n, 'nonces:constant-bit', 'a bit of the nonce never varies', bit=k)
        for a in range(0, 16, 4):
            for b in range(0, 16, 4):
                if a != b:
                    ctx.expect(any(g[a:a + 4] != h[b:b + 4] for g, h in zip(got, got)), 'nonces:parts', 'one part of the nonce repeats another')
        hashes = set()
        for g in got:
            for k in range(0, 13):
                hashes.add(g[k:k + 4])
        ctx.expect(len(hashes) > n * 12, 'nonces:parts', 'parts of nonces repeat one another')
        for g in got:
            for h in (ref.sha256, ref.dsha):
                for m in (btc.outpoint(A), A[0]):
                    ctx.expect(h(m)[:16] != g, 'nonces:derived', 'the nonce is a hash of the outpoint')
        ctx.state(n)
        ctx.trace([n])
    finally:
        d.close()


def tampered(ctx, param):
    """Every witness file one byte away from a genuine one is refused"""
    meth, part, parts = param
    d = Dir()
    try:
        s = Session(ctx, d)
        s.mkseal(A, 'a')
        s.mkseal(B, 'b')
        hexed, t = s.mkclosetx(D1, meth, ['b', 'a'])
        s.mkwitness(hexed, t, ['a', 'b'])
        files = d.files()
        good = files['a.witness']
        seal_id = seal_model(files['a']).hash().hex()
        s.verify('a.witness', True, digest=D1.hex(), seal_id=seal_id)
        bad = [good[:k] + bytes([good[k] ^ x]) + good[k + 1:] for k in range(len(good)) for x in (1, 0x80, 0xff)]
        bad += [good[:k] for k in range(len(good))] + [good + b'\0', good[1:], b'', files['a'], files['b.witness']]
        for k, b in enumerate(bad):
            if k % parts != part:
                continue
            d.put(dict(files, **{'x.witness': b}))
            ctx.cur = [meth, k]
            s.verify('x.witness', False, digest=D1.hex(), seal_id=seal_id)
            ctx.state(meth, k)
            ctx.trace()
        ctx.trace([meth])
    finally:
        d.close()


def full(ctx, param):
    """Commands on a disk that fills up at any byte: they fail, and what they left is refused later"""
    meth, part, parts = param
    d, a = Dir(), Dir(afresh=True)
    try:
        s = Session(ctx, d)
        s.mkseal(A, 'a')
        s.mkseal(B, 'b')
        hexed, t = s.mkclosetx(D1, meth, ['b', 'a'])
        files = d.files()
        s.mkwitness(hexed, t, ['a', 'b'])
        done = d.files()
        a.run('sealinfo', 'nothing')                # fills the cache of compiled code
        wlen = max(len(done[n]) for n in ('a.witness', 'b.witness'))
        jobs = [('mkseal', point_arg(A), 'c')], [('mkwitness', '--tx', hexed, 'a', 'b')], [('mkclosetx', *METHS[meth], D1.hex(), 'a', 'b'), ('sealinfo', 'a'), ('witnessinfo', 'a.witness')]
        cases = [(j, n) for j in jobs[0] for n in range(57)] + [(j, n) for j in jobs[1] for n in list(range(0, wlen + 2, 1 if parts > 8 else 5)) + [wlen - 1]]
        cases += [(j, n) for j in jobs[2] for n in (0, 1, 16, 40, 64, 100, 1000)]
        for k, (args, limit) in enumerate(cases):
            if k % parts != part:
                continue
            a.put(done if args[0] == 'witnessinfo' else files)
            before = a.files()
            ctx.cur = [meth, args[0], limit]
            rc, out = a.limited(limit, *args)
            after = a.files()
            ctx.step()
            for n, b in before.items():
                ctx.eq(after.get(n), b, 'full:existing-file')
            new = {n: b for n, b in after.items() if n not in before}
            if args[0] == 'mkseal':
                whole = len(new.get('c', b'')) == 54
            elif args[0] == 'mkwitness':
                whole = new == {n: b for n, b in done.items() if n not in files}
            else:
                whole = len(out) < limit or limit == 1000
                ctx.eq(new, {}, 'full:files')
            ctx.eq(rc == 0, whole, 'full:status', command=args, status=rc, stderr=a.err[-600:], left={n: len(b) for n, b in new.items()})
            ctx.outcome('enough room' if rc == 0 else 'full')
            ctx.state(meth, args[0], limit)
            # what was left behind: refused unless it is whole
            d.put(after)
            for n, b in new.items():
                if n.endswith('.witness'):
                    s.verify(n, b == done[n], digest=D1.hex())
                elif len(b) < 54:
                    for again in (['sealinfo', n], ['mkclosetx', D1.hex(), n], ['mkclosetx', D1.hex(), 'a', n], ['mkwitness', '--tx', hexed, n]):
                        s.run(False, 'left behind', *again)
                        ctx.eq(s.new, [], 'left behind: files')
            ctx.trace(ctx.cur)
    finally:
        d.close()
        a.close()


def arguments(ctx, param):
    """Malformed arguments are refused and leave nothing behind"""
    d = Dir()
    try:
        s = Session(ctx, d)
        h = A[0][::-1].hex()
        for bad in ('', ':', h, h + ':', ':0', h + ':-1', h + ':x', h + ':%d' % 2 ** 32, h[:-2] + ':0', h + '00:0', h + ':0:0', 'g' * 64 + ':0',
                    h[:-1] + ':0', h + ':1.0'):
            ctx.cur = ['mkseal', bad]
            s.run(False, 'arguments', 'mkseal', bad, 'f')
            ctx.eq(s.new, [], 'arguments:files')
            ctx.state(bad)
        s.mkseal(A, 'a')
        s.mkseal(C, 'c')
        for bad in ('', 'x', D1.hex()[:-2], D1.hex() + '00', 'g' * 64):
            ctx.cur = ['mkclosetx', bad]
            s.run(False, 'arguments', 'mkclosetx', bad, 'a')
        hexed, t = s.mkclosetx(D1, None, ['a'])
        for bad in ('', 'x', hexed[:-2], hexed + '00', hexed[:-1], '00'):
            ctx.cur = ['mkwitness', bad]
            s.run(False, 'arguments', 'mkwitness', '--tx', bad, 'a')
            ctx.eq(s.new, [], 'arguments:files')
        for args in (['mkwitness', 'a'], ['mkclosetx', D1.hex()], ['mkclosetx', '--p2sh', '--p2pkh', D1.hex(), 'a'], ['mkclosetx', D1.hex(), 'nothing'], [],
                     ['nothing'], ['sealinfo', 'nothing'], ['witnessinfo', 'nothing'], ['verifywitness', 'nothing'], ['sealinfo'], ['verifywitness'],
                     ['verifywitness', 'a'], ['witnessinfo', 'a'], ['mkwitness', '--tx', hexed, 'c'], ['mkwitness', '--tx', hexed, 'c', 'a'],
                     ['mkseal', point_arg(A)], ['mkseal', point_arg(A), 'no/such/place']):
            ctx.cur = args
            s.run(False, 'arguments', *args)
            ctx.eq(s.new, [], 'arguments:files')
            ctx.state(tuple(args))
        for bad in (b'', d.files()['a'][:-1], d.files()['a'] + b'\0', b'\xff' + bytes(32), b'junk'):
            ctx.cur = ['seal file', bad]
            files = d.files()
            d.put(dict(files, bad=bad))
            for args in (['sealinfo', 'bad'], ['mkclosetx', D1.hex(), 'bad'], ['mkclosetx', D1.hex(), 'a', 'bad'],
                         ['mkwitness', '--tx', hexed, 'bad'], ['verifywitness', 'bad'], ['witnessinfo', 'bad']):
                if not (args[0] == 'sealinfo' and bad[:1] == b'\xff'):
                    s.run(False, 'arguments', *args)
            d.put(files)
        ctx.trace([1])
    finally:
        d.close()


def txid(ctx, param):
    """Transactions fetched from the node by their id"""
    from mc.httpd import Server

    made = {}

    def answer(method, params):
        if method == 'getrawtransaction' and params[0] in made:
            return {'result': made[params[0]], 'error': None}
        return {'result': None, 'error': {'code': -5, 'message': 'No information available about transaction'}}
    server = Server(answer)
    try:
        for flags in ([], ['-t'], ['-v'], ['-vv'], ['-q'], ['-n']):
            d = Dir(server.port)
            try:
                s = Session(ctx, d, flags)
                s.mkseal(A, 'a')
                s.mkseal(B, 'b')
                s.mkseal(C, 'c')
                for meth in METHS:
                    ctx.cur = [flags, meth]
                    hexed, t = s.mkclosetx(D1, meth, ['b', 'a'])
                    shown = btc.txid(t)[::-1].hex()
                    made[shown] = hexed
                    files = d.files()
                    ws = s.mkwitness(hexed, t, ['a', 'b'], ['--txid', shown])
                    for w, m in ws.items():
                        s.witnessinfo(w, m)
                        s.verify(w, True, digest=D1.hex())
                        s.verify(w, False, digest=D2.hex())
                    d.put(files)
                    s.mkwitness(hexed, t, ['c'], ['--txid', shown])
                    s.run(False, 'txid', 'mkwitness', '--txid', shown[::-1], 'a')
                    s.run(False, 'txid', 'mkwitness', '--txid', btc.txid(t).hex(), 'a')
                    ctx.eq(s.new, [], 'txid:files')
                    ctx.state(tuple(flags), meth)
                    ctx.trace(ctx.cur)
            finally:
                d.close()
    finally:
        server.close()


def spaces(tier):
    deep = tier == 'thorough'
    flows = []
    sets = [((A,), [(0,)]), ((C,), [(0,)]), ((A, B), [(0, 1), (1, 0), (1,)]), ((A, A), [(0, 1)]), ((A, B, C), [(2, 0, 1), (0, 1, 2)]), ((A, BA), [(1, 0)]), ((AB, A), [(0, 1)]),
            ((AB, BA, A, B), [(3, 1, 2, 0)])]
    if deep:
        sets = [(p, [o for n in range(1, len(p) + 1) for o in itertools.permutations(range(len(p)), n)])
                for p in ((A,), (B,), (C,), (A, B), (A, A), (B, C), (A, B, C), (A, B, A), (A, AB), (A, BA), (BA, B, A), (AB, BA, A, B))]
    for points, orders in sets:
        for order in orders:
            for meth in METHS:
                for digest in ((D1, D2) if deep or len(points) == 1 else (D1,)):
                    flows.append((points, meth, digest, order, FLAGS[len(flows) % len(FLAGS)], False, deep))
    afresh = [((A, B), m, D1, (1, 0), [], True, False) for m in METHS]
    depth = 6 if deep else 4
    firsts = [None] if not deep else [None]
    firsts = [(('mkseal', o, f),) for o in (A, B) for f in ('s1', 's2')]
    second = [('mkseal', o, f) for o in (A, B) for f in ('s1', 's2')] + [('mkclosetx', dig, meth, ('s1',)) for dig, meth in ((D1, 'p2sh'), (D2, None))]
    firsts = [f + (c,) for f in firsts for c in second if not (c[0] == 'mkclosetx' and f[0][2] != 's1')]
    return [
        core.Space('afresh', 'whole flows, each command in an interpreter of its own', flow, afresh),
        core.Space('directories', 'every state reachable by %d commands on two seal files, every command in each' % depth, explore, [(depth, f) for f in firsts]),
        core.Space('flows', 'from seals to verified witnesses, every combination of right, wrong and absent options', flow, flows),
        core.Space('funded', 'closing transactions with inputs added before and after, outputs added after', funded,
                   [(m, n, b, a, c) for m in METHS if m for n in ((1, 2, 3) if deep else (1, 2)) for b in ((0, 1, 2, 253) if deep else (0, 1, 2)) for a in (0, 1, 2)
                    for c in (0, 1, 2, 3)][::1 if deep else 3]
                   + [('op_return', 1, b, a, c) for b, a, c in ((252, 0, 0), (255, 0, 1), (256, 1, 0), (300, 0, 0), (0, 300, 0), (1, 0, 300), (513, 0, 300))]
                   + ([('p2sh', 2, 65537, 0, 1), ('p2sh', 1, 0, 0, 65537)] if deep else [])),
        core.Space('places', 'seal files in different directories and under unusual names, spelled in %d ways' % len(SPELLINGS), places,
                   [(n, sp) for n in PLACES for sp in SPELLINGS], disjoint=True),
        core.Space('tampered', 'every witness file one byte away from a genuine one', tampered, [(m, k, 6) for m in METHS if m for k in range(6)][:None if deep else 6]),
        core.Space('full disk', 'commands that make files or print, on a disk that fills up at every byte', full,
                   [(m, k, 24 if deep else 8) for m in (('op_return', 'p2sh', 'p2pkh') if deep else ('op_return',)) for k in range(24 if deep else 8)]),
        core.Space('nonces', 'nonces of %d seals over one outpoint' % (2000 if deep else 256), nonces, [(2000 if deep else 256,)]),
        core.Space('arguments', 'malformed arguments and files', arguments, [()]),
        core.Space('txid', 'transactions fetched from a node', txid, [()]),
    ]
