"""Systematic small changes to /repo, to find out what the checks overlook.

python3 tools/mutate.py list FILE...            counts
python3 tools/mutate.py tests OUT.jsonl FILE... applies each change to a scratch copy, runs the stable tests, records the survivors
python3 tools/mutate.py checks SURVIVORS.jsonl OUT.jsonl   runs the checks of the file's properties on each survivor until one reports it
"""
import ast, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
L = 'lib/python-bitcoinlib/bitcoin/'
P = 'lib/python-proofmarshal/proofmarshal/'
PROPS = {      # the two or three that matter most
    P + 'merbinnertree.py': 'C01 C03 C02', P + 'mmr.py': 'C04 C05 C09', P + 'bits.py': 'C13 C09',
    P + 'proof.py': 'C08 C10 C09 C06 C07', P + 'serialize.py': 'C09 C08 C10',
    'proofchains/core/bitcoin.py': 'C17 C14 C07', 'proofchains/core/uniquebits/singleuseseal.py': 'C14 C15 C07', 'proofchains/core/uniquebits/gumap.py': 'C16 C07',
    'proofchains/uniquebits/singleuseseal.py': 'C15 C18', 'sus-tool.py': 'C18',
    L + '__init__.py': 'C30 C27 C31 C33', L + 'wallet.py': 'C30 C34', L + 'messages.py': 'C31', L + 'net.py': 'C31', L + 'bloom.py': 'C32', L + 'base58.py': 'C29 C30',
    L + 'rpc.py': 'C33', L + 'core/serialize.py': 'C19 C27 C31', L + 'core/__init__.py': 'C26 C19 C20 C28 C27', L + 'core/_bignum.py': 'C21 C22',
    L + 'core/script.py': 'C21 C25 C22 C24', L + 'core/scripteval.py': 'C22 C23 C24', L + 'core/key.py': 'C34 C24'}

CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'],
       ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['*'], ast.Div: ['*'], ast.Mod: ['//'], ast.LShift: ['>>'], ast.RShift: ['<<'], ast.BitAnd: ['|'],
       ast.BitOr: ['&', '^'], ast.BitXor: ['|', '&'], ast.Pow: ['*']}
OPTEXT = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not',
          ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Div: '/', ast.Mod: '%', ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|',
          ast.BitXor: '^', ast.Pow: '**'}


def mutations(src):
    """(start, end, new text, what) byte offsets"""
    data = src.encode()
    starts = [0]
    for line in data.split(b'\n'):
        starts.append(starts[-1] + len(line) + 1)
    off = lambda line, col: starts[line - 1] + col
    span = lambda n: (off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset))
    text = lambda n: data[slice(*span(n))].decode()
    out = []
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c.parent = n
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            doc.add(n.value)

    def between(a, b, old, new):
        s, e = span(a)[1], span(b)[0]
        seg = data[s:e].decode()
        k = seg.find(old)
        if k < 0 or '#' in seg:
            return
        out.append((s + k, s + k + len(old.encode()), new, '%s -> %s' % (old, new)))

    def skip(n):
        while n is not None:
            if isinstance(n, (ast.Assert,)) or n in doc:
                return True
            if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__') and False:
                return True
            if isinstance(n, ast.Raise):
                return True
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                return True
            n = getattr(n, 'parent', None)
        return False

    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or not skip(n):
            if isinstance(n, ast.Compare):
                items = [n.left] + n.comparators
                for a, op, b in zip(items, n.ops, items[1:]):
                    for new in CMP.get(type(op), []):
                        between(a, b, OPTEXT[type(op)], new)
            elif isinstance(n, ast.BinOp):
                for new in BIN.get(type(n.op), []):
                    if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (str, bytes)):
                        continue
                    between(n.left, n.right, OPTEXT[type(n.op)], new)
            elif isinstance(n, ast.BoolOp):
                old = 'and' if isinstance(n.op, ast.And) else 'or'
                for a, b in zip(n.values, n.values[1:]):
                    between(a, b, old, 'or' if old == 'and' else 'and')
                for v in n.values:
                    s, e = span(v)
                    out.append((s, e, 'True' if old == 'and' else 'False', 'drop operand'))
            elif isinstance(n, ast.Constant) and n not in doc:
                s, e = span(n)
                v = n.value
                if v is True or v is False:
                    out.append((s, e, str(not v), 'constant'))
                elif isinstance(v, int):
                    out += [(s, e, str(v + 1), 'constant'), (s, e, '(%d)' % (v - 1), 'constant')]
                elif isinstance(v, float):
                    out += [(s, e, repr(v + 1), 'constant')]
                elif isinstance(v, bytes) and v and v == data[s:e] is False:
                    pass
                elif isinstance(v, bytes):
                    out.append((s, e, repr(v + b'\0') if not v else repr(bytes([v[0] ^ 1]) + v[1:]), 'bytes'))
                elif isinstance(v, str) and isinstance(getattr(n, 'parent', None), (ast.Compare, ast.Call, ast.Subscript, ast.Return, ast.Assign, ast.BinOp, ast.Dict, ast.keyword)):
                    out.append((s, e, repr(v + 'x'), 'string'))
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                s, e = span(n.test)
                out.append((s, e, 'not (%s)' % text(n.test), 'negate'))
                if isinstance(n, ast.If):
                    out.append((s, e, 'False', 'never'))
                    out.append((s, e, 'True', 'always'))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                s, e = span(n)
                out.append((s, e, '(%s)' % text(n.operand), 'drop unary'))
            elif isinstance(n, ast.Slice):
                for part in (n.lower, n.upper, n.step):
                    if part is not None:
                        s, e = span(part)
                        out.append((s, e, '', 'open slice'))
            elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Continue, ast.Break, ast.Delete)):
                if isinstance(n, ast.Expr) and (n.value in doc or isinstance(n.value, ast.Yield)):
                    continue
                in_fn = False
                m = n
                while m is not None:
                    in_fn = in_fn or isinstance(m, (ast.FunctionDef,))
                    m = getattr(m, 'parent', None)
                if not in_fn and isinstance(n, ast.Assign):
                    continue
                s, e = span(n)
                out.append((s, e, 'pass', 'delete ' + type(n).__name__.lower()))
            elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args
                if not (isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'issubclass', 'getattr', 'super', 'hasattr')):
                    s, e = span(a)[0], span(b)[1]
                    out.append((s, e, '%s, %s' % (text(b), text(a)), 'swap arguments'))
            elif isinstance(n, ast.ExceptHandler) and n.type is not None:
                s, e = span(n.type)
                out.append((s, e, 'ZeroDivisionError', 'other exception'))
    seen, res = set(), []
    for m in sorted(out):
        if m[:3] not in seen:
            seen.add(m[:3])
            res.append(m)
    return data, res


def apply(f, m):
    data = open(os.path.join(REPO, f), 'rb').read()
    return data[:m[0]] + m[2].encode() + data[m[1]:]


def describe(f, m):
    data = open(os.path.join(REPO, f), 'rb').read()
    ln = data[:m[0]].count(b'\n') + 1
    a = data.rfind(b'\n', 0, m[0]) + 1
    b = data.find(b'\n', m[1])
    return '%s:%d: %s   [%s => %s]' % (f, ln, data[a:b].decode().strip()[:150], data[m[0]:m[1]].decode()[:60], m[2][:60])


local = threading.local()
copies = []
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')


def copy():
    if not hasattr(local, 'd'):
        local.d = tempfile.mkdtemp(prefix='mut-')
        subprocess.run(['cp', '-a', REPO, local.d + '/repo'], check=True)
        copies.append(local.d)
    return local.d + '/repo'


NAMES = None


def stable(c):
    out = os.path.dirname(c)
    try:
        subprocess.run(['bash', '-c', '. /opt/vp/env.sh; exec %s -m pytest -q -x -p no:cacheprovider --import-mode=prepend --rootdir=%s --timeout=60 '
                        '--ignore=lib/python-bitcoinlib/bitcoin/tests/test_wallet.py --deselect=lib/python-bitcoinlib/bitcoin/tests/test_transactions.py::Test_CTransaction::test_tx_valid proofchains lib/python-bitcoinlib/bitcoin '
                        'lib/python-proofmarshal/proofmarshal' % (PY, c)], cwd=c, capture_output=True, timeout=200, env=ENV, check=True)
        return True
    except (subprocess.CalledProcessError, subprocess.TimeoutExpired):
        return False


def one_test(job):
    f, m = job
    c = copy()
    p = os.path.join(c, f)
    new = apply(f, m)
    orig = open(os.path.join(REPO, f), 'rb').read()
    try:
        compile(new, f, 'exec')
    except Exception:
        return job, False
    try:
        open(p, 'wb').write(new)
        return job, stable(c)
    finally:
        open(p, 'wb').write(orig)


ABSTRACT = {'MerbinnerTree', 'MerkleMountainRange', 'SerializationContext', 'DeserializationContext', 'Serializer', 'HashingSerializer'}
BY_FUNCTION = [      # where one property says it all
    (r'^(FindAndDelete|RawSignatureHash|SignatureHash)', 'C25'), (r'^CScriptOp|^CScript\b', 'C21'), (r'CheckSig|_CheckMultiSig|^Verify', 'C24 C23'),
    (r'^Check(Transaction)$', 'C26'), (r'^CheckP|^CheckBlock|^GetLegacySig|^uint256_from_compact', 'C27'), (r'erkle', 'C28 C27'), (r'^CBlock\b', 'C28 C19'), (r'^CBlockHeader', 'C19 C28'),
    (r'^CMutable|^CTx|^CTransaction|^COutPoint|__make_mutable', 'C20 C19'), (r'Address', 'C30'), (r'CBitcoinSecret|CKey', 'C34 C30'),
    (r'^GuMap|make_GuMap', 'C16'), (r'OutPoint|TxProof|TxIn|TxOut|_deser', 'C17 C09'), (r'^(MainParams|RegTestParams|TestNetParams|CoreMain|SelectP)', 'C30 C27 C31 C33'),
    (r'^(CBigNum|bn2|mpi2|vch2|bin2bn)', 'C21 C22')]


def enclosing(f, pos):
    data = open(os.path.join(REPO, f), 'rb').read()
    st = [0]
    for l in data.split(b'\n'):
        st.append(st[-1] + len(l) + 1)
    best = []

    def walk(n, name):
        nonlocal best
        for c in ast.iter_child_nodes(n):
            nm = name
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                nm = name + [c.name]
                if st[c.lineno - 1] + c.col_offset <= pos < st[c.end_lineno - 1] + c.end_col_offset:
                    best = nm
            walk(c, nm)
    walk(ast.parse(data), [])
    return best


def dull(f, m):
    e = enclosing(f, m[0])
    old = open(os.path.join(REPO, f), 'rb').read()[m[0]:m[1]]
    return bool(e and (e[-1] == '__repr__' or e[-2:] == ['HashTag', '__str__'])) or old == b'raise NotImplementedError' or old.startswith(b'__slots__')


def props_of(f, m):
    e = '.'.join(enclosing(f, m[0]))
    if f.startswith(L) and ('core/' in f or 'wallet' in f or f == L + '__init__.py') or f.startswith('proofchains'):
        for pat, props in BY_FUNCTION:
            if re.search(pat, e):
                return props.split()
    return PROPS[f].split()


def one_check(rec):
    f, m = rec['file'], rec['m']
    c = copy()
    p = os.path.join(c, f)
    orig = open(os.path.join(REPO, f), 'rb').read()
    try:
        open(p, 'wb').write(apply(f, m))
        odd = []
        for prop in props_of(f, m):
            try:
                r = subprocess.run(['timeout', '-k', '5', os.environ.get('LIMIT', '30'), './check', prop, '--no-evidence'], cwd=HERE, capture_output=True, text=True, timeout=900,
                                   env=dict(ENV, VERIF_REPO=c, VERIF_JOBS='2', VERIF_ENOUGH='1'))
            except subprocess.TimeoutExpired:
                odd.append(prop + ' timeout')
                continue
            if 'VIOLATION property=' + prop in r.stdout and r.returncode == 1:
                return dict(rec, by=prop, odd=odd, why=r.stdout.split('\n')[0][:160])
            if r.returncode in (124, 137):
                odd.append(prop + ' cut')
            elif r.returncode:
                odd.append('%s exit %d %s' % (prop, r.returncode, r.stderr[-300:]))
        return dict(rec, by=None, odd=odd)
    finally:
        open(p, 'wb').write(orig)


def main():
    cmd = sys.argv[1]
    try:
        if cmd == 'list':
            for f in sys.argv[2:] or PROPS:
                print(f, len(mutations(open(os.path.join(REPO, f)).read())[1]))
        elif cmd == 'tests':
            out = open(sys.argv[2], 'a')
            jobs = [(f, m) for f in sys.argv[3:] or PROPS for m in mutations(open(os.path.join(REPO, f)).read())[1]]
            print(len(jobs), 'changes')
            n = 0
            with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as ex:
                for (f, m), ok in ex.map(one_test, jobs):
                    if ok:
                        n += 1
                        out.write(json.dumps({'file': f, 'm': m, 'desc': describe(f, m)}) + '\n')
                        out.flush()
            print(n, 'survive the tests')
        else:
            recs = [json.loads(l) for l in open(sys.argv[2])]
            done = set()
            if os.path.exists(sys.argv[3]):
                done = {(r['file'], tuple(r['m'])) for r in map(json.loads, open(sys.argv[3]))}
            out = open(sys.argv[3], 'a')
            per, todo, n = int(os.environ.get('PER', '12')), [], {}
            for r in recs:
                if not dull(r['file'], r['m']):
                    n.setdefault((r['file'], tuple(enclosing(r['file'], r['m'][0]))), []).append(r)
            for k, rs in n.items():       # at most so many of each function, evenly spread
                step = max(1, -(-len(rs) // per))
                todo += [r for r in rs[::step] if (r['file'], tuple(r['m'])) not in done]
            print(len(todo), 'to judge', flush=True)
            with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '4'))) as ex:
                for fu in cf.as_completed([ex.submit(one_check, r) for r in todo]):
                    out.write(json.dumps(fu.result()) + '\n')
                    out.flush()
    finally:
        for d in copies:
            shutil.rmtree(d)


main()
