"""python -m mc.run PROPERTY [--tier quick|thorough] [--space NAME] [--replay FILE]"""
import argparse, collections, hashlib, importlib, signal, json, os, sys, time, traceback

from mc import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--space')
    ap.add_argument('--replay')
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    replay = None
    if args.replay:
        replay = json.load(open(args.replay))
        args.prop, args.tier = replay['property'], replay['tier']
    prop, tier = args.prop, args.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        mod = importlib.import_module('mc.props.' + prop.lower())
        spaces = mod.spaces(tier)
    except Exception:
        # the code under test can't even be loaded, or fails on the values everything starts from
        text = traceback.format_exc()
        print(text)
        os.makedirs(os.path.join(core.HERE, 'replays'), exist_ok=True)
        path = os.path.join(core.HERE, 'replays', prop + '-loading.json')
        with open(path, 'w') as fd:
            json.dump({'property': prop, 'tier': tier, 'space': None, 'shard': None, 'violation': text, 'how': './replay ' + os.path.relpath(path, core.HERE)}, fd, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)

    if replay:
        sp = [s for s in spaces if s.name == replay['space']][0]
        got = []
        core.run_pool([(sp, replay['shard'], sp.shards[replay['shard']])], tier, lambda s, i, p, r: got.append(r))
        for v in got[0]['violations']:
            print(json.dumps(v, indent=1))
        sys.exit(1 if got[0]['violations'] else 0)

    if args.space:
        spaces = [s for s in spaces if s.name == args.space]
    jobs = [(s, i, p) for s in spaces for i, p in enumerate(s.shards)]
    # the seed only permutes the order in which the shards run; all are run
    k = seed % len(jobs)
    jobs = jobs[k:] + jobs[:k]
    if 'VERIF_ENOUGH' in os.environ:
        jobs.sort(key=lambda j: hashlib.md5(repr((j[0].name, j[1])).encode()).digest())
    agg = {s.name: {'states': set(), 'nstates': 0, 'transitions': 0, 'traces': 0, 'outcomes': collections.Counter(),
                    'samples': [], 'shards': 0} for s in spaces}
    bad, first = [], []

    def on_result(s, i, p, r):
        a = agg[s.name]
        a['states'] |= r['states']
        a['nstates'] += r['nstates']
        a['transitions'] += r['transitions']
        a['traces'] += r['traces']
        a['outcomes'].update(r['outcomes'])
        if len(a['samples']) < 3:
            a['samples'] += r['samples'][:1]
        a['shards'] += 1
        for v in r['violations']:
            bad.append((s, i, p, v))
            if v['key'] not in known:
                first.append(time.time())

    findings = [(k, d) for q, k, d in core.load_findings() if q == prop]
    known = dict(findings)

    def enough():
        # many violations, or a minute after the first (what breaks a property may well slow down the rest)
        return len(first) >= int(os.environ.get('VERIF_ENOUGH', '8')) or bool(first) and time.time() - first[0] > 60

    core.run_pool(jobs, tier, on_result, stop=enough)

    # a violation counts once a fresh process repeats it
    confirmed, unconfirmed, reproduced = [], [], set()
    for s, i, p, v in bad:
        if v['key'] in known:
            reproduced.add(v['key'])
            continue
        if len(confirmed) >= 3 or confirmed and time.time() - t0 > 300 or any(c[3]['key'] == v['key'] for c in confirmed):
            continue
        for _ in range(2):
            if 'VERIF_ENOUGH' in os.environ:         # tools/mutate.py: not worth repeating
                confirmed.append((s, i, p, v))
                break
            got = []
            core.run_pool([(s, i, p)], tier, lambda s_, i_, p_, r: got.append(r))
            if any(w['key'] == v['key'] for w in got[0]['violations']):
                confirmed.append((s, i, p, v))
                break
        else:
            unconfirmed.append(v)
    for key, desc in findings:
        if key in reproduced:
            print('KNOWN-FINDING: property=%s %s' % (prop, desc))

    os.makedirs(os.path.join(core.HERE, 'replays'), exist_ok=True)
    for s, i, p, v in confirmed:
        path = os.path.join(core.HERE, 'replays', '%s-%s-%d.json' % (prop, s.name.replace(' ', '-'), i))
        with open(path, 'w') as fd:
            json.dump({'property': prop, 'tier': tier, 'space': s.name, 'shard': i, 'param': core.jsonable(p),
                       'violation': v, 'how': './replay ' + os.path.relpath(path, core.HERE)}, fd, indent=1)
        print('  %s: %s' % (v['key'], v['msg']))
        print('  case: %s' % core.short(v['case']))
        for k_, w in (v['witness'] or {}).items():
            print('  %s: %s' % (k_, str(w)[-1500:]))
        print('VIOLATION property=%s replay=%s' % (prop, path))

    total_states = set()
    nstates = 0
    for a in agg.values():
        a['nstates'] += len(a['states'])
        nstates += a['nstates']
    wall = time.time() - t0
    samples = [{'space': n, 'case': c} for n, a in agg.items() for c in a['samples'][:2]]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'),
          'coverage': {
              'states': nstates,
              'transitions': sum(a['transitions'] for a in agg.values()),
              'traces_validated_against_impl': sum(a['traces'] for a in agg.values()),
              'samples': samples,
              'exhaustive': (not confirmed and not unconfirmed and not args.space and
                             all(s.exhaustive for s in spaces)),
              'spaces': [{'name': s.name, 'bounds': s.bounds, 'shards': agg[s.name]['shards'],
                          'states': agg[s.name]['nstates'], 'transitions': agg[s.name]['transitions'],
                          'traces': agg[s.name]['traces'],
                          'outcomes': dict(sorted(agg[s.name]['outcomes'].items())[:60])} for s in spaces],
              'known_findings_reproduced': sorted(reproduced),
              'unconfirmed': [u['key'] for u in unconfirmed]},
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'violations': len(confirmed), 'wall_s': round(wall, 2)}
    if not args.no_evidence and not args.space:
        os.makedirs(os.path.join(core.HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(core.HERE, 'evidence', prop + '.json'), 'w') as fd:
            json.dump(ev, fd, indent=1)
            fd.write('\n')
    c = ev['coverage']
    print('%s %s: %d states, %d transitions, %d traces, %.1f s, %d violations' %
          (prop, tier, c['states'], c['transitions'], c['traces_validated_against_impl'], wall, len(confirmed)))
    for u in unconfirmed:
        print('  not repeated, dropped: %s %s' % (u['key'], u['msg']))
    sys.stdout.flush()
    sys.exit(1 if confirmed else 0)


if __name__ == '__main__':
    main()
