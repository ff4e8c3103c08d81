"""Plants a bug: python3 tools/seed.py BATCH.py, where BATCH.py calls seed(...) for each.

Each is applied to a scratch copy of /repo, has to pass the stable tests there, and its
demonstration has to pass without it and fail with it; then it is kept under seeded/.
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD:$PWD/lib/python-bitcoinlib:$PWD/lib/python-proofmarshal" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''
results = []


def run(cmd, cwd, timeout=300, **env):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env))


def stable(copy):
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = next(v for v in base.values() if isinstance(v, list) and len(v) == 134)
    out = tempfile.mkdtemp(prefix='seed-out-')
    run(['bash', '-c', '. /opt/vp/env.sh; %s -m pytest -q -p no:cacheprovider --import-mode=prepend --rootdir=%s --timeout=300 --continue-on-collection-errors '
         '-o junit_family=xunit2 --junitxml=%s/r.xml --ignore=lib/python-bitcoinlib/bitcoin/tests/test_wallet.py proofchains lib/python-bitcoinlib/bitcoin '
         'lib/python-proofmarshal/proofmarshal; %s /opt/vp/results.py %s/o.json junit:%s/r.xml' % (PY, copy, out, PY, out, out)], copy)
    o = json.load(open(out + '/o.json'))
    shutil.rmtree(out)
    passed = set(o.get('passed') or o.get('pass') or [])
    return [n for n in names if n not in passed]


def seed(id, prop, edits, demo, needs, breaks):
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        return
    def bad(why):
        print('%s: NOT KEPT: %s' % (id, why))
        results.append((id, why))
    copy = tempfile.mkdtemp(prefix='seed-') + '/repo'
    subprocess.run(['cp', '-a', REPO, copy], check=True)
    d = os.path.join(HERE, 'seeded', id)
    try:
        for f, old, new in edits:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return bad('%d matches in %s of %r' % (s.count(old), f, old))
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', 'diff'], copy).stdout
        # only lines of the original repository may be changed
        for f in {f for f, _, _ in edits}:
            orig = run(['git', 'show', BASE + ':' + f], copy).stdout.split('\n')
            for line in diff.split('\n'):
                if line.startswith('-') and not line.startswith('---') and line[1:] not in orig and len({f for f, _, _ in edits}) == 1:
                    return bad('changes a line of a fix: ' + line)
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        clean = run(['bash', d + '/demo.sh'], REPO)
        if clean.returncode:
            return bad('demo fails on the unchanged tree: ' + clean.stderr[-600:] + clean.stdout[-300:])
        broken = run(['bash', d + '/demo.sh'], copy)
        if not broken.returncode:
            return bad('demo passes with the bug')
        missing = stable(copy)
        if missing:
            return bad('tests fail: %s' % missing[:4])
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/meta.json', 'a').write('\n')
        r = run(['./check', prop, '--no-evidence'], HERE, 900, VERIF_REPO=copy)
        caught = r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout
        line = [l for l in r.stdout.split('\n') if l.startswith('  ')][:1]
        print('%s: kept, %s%s' % (id, 'CAUGHT' if caught else 'MISSED (exit %d)' % r.returncode, ':' + line[0][:150] if line else ''), flush=True)
        if not caught:
            print(r.stdout[-300:], r.stderr[-300:])
        results.append((id, 'caught' if caught else 'missed'))
    finally:
        shutil.rmtree(os.path.dirname(copy))
        if results and results[-1][0] == id and results[-1][1] not in ('caught', 'missed'):
            shutil.rmtree(d, ignore_errors=True)


exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
print(len(results), 'planted:', {k: sum(r[1] == k for r in results) for k in ('caught', 'missed')})
