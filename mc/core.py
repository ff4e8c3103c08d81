"""The explorer: enumerates the shards of each space, each in its own forked process.

A property module defines `spaces(tier)`, returning Space objects. A space is a
finite set of executions of the real code, cut into shards. Every shard runs in
a fresh child of a parent that has only imported the code under test, so
nothing one shard left in the code's lazily filled caches can be seen by another.

Within a shard the property's reference model runs in lock step with the
implementation; `ctx` counts what was explored and records disagreements.
"""
import collections, errno, json, os, pickle, resource, select, signal, sys, time, traceback

NPROC = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOLATIONS_PER_SHARD = 3
STALL_CPU_S = 60          # CPU seconds without a single explored step: not terminating
SHARD_WALL_S = {'quick': 420, 'thorough': 5400}
MEM = 6 << 30


class Space:
    def __init__(self, name, bounds, fn, shards, exhaustive=True, disjoint=False):
        # disjoint: no state is reached in two shards, so that their numbers add up
        self.name, self.bounds, self.fn = name, bounds, fn
        self.shards, self.exhaustive, self.disjoint = list(shards), exhaustive, disjoint


class StopShard(Exception):
    pass


def jsonable(v, depth=0):
    if v is None or isinstance(v, (bool, int, float, str)):
        return v if not isinstance(v, str) or len(v) < 4000 else v[:4000] + '...'
    if isinstance(v, (bytes, bytearray)):
        h = bytes(v).hex()
        return 'hex:' + (h if len(h) < 600 else h[:600] + '...(%d bytes)' % len(v))
    if depth < 6 and isinstance(v, dict):
        return {str(k): jsonable(x, depth + 1) for k, x in list(v.items())[:60]}
    if depth < 6 and isinstance(v, (list, tuple, set, frozenset)):
        return [jsonable(x, depth + 1) for x in list(v)[:60]]
    try:
        return repr(v)[:1000]
    except Exception as e:
        return '<unprintable %s: %s>' % (type(v).__name__, type(e).__name__)


class Ctx:
    """What one shard explored, and what it found"""
    def __init__(self, tier):
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.cur = None          # the case being executed, for reports of crashes

    def state(self, *key):
        """A distinct model state reached; true the first time"""
        try:
            h = hash(key)
        except TypeError:
            h = hash(repr(key))
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        """n transitions executed on the implementation and compared with the model"""
        self.transitions += n

    def trace(self, sample=None, n=1):
        """A complete execution validated against the implementation"""
        self.traces += n
        if sample is not None and len(self.samples) < 2:
            self.samples.append(jsonable(sample))

    def outcome(self, name, n=1):
        self.outcomes[name] += n

    def fail(self, key, msg, /, **witness):
        if not any(v['key'] == key for v in self.violations):
            self.violations.append({'key': key, 'msg': msg, 'case': jsonable(self.cur),
                                    'witness': jsonable(witness)})
        if len(self.violations) >= MAX_VIOLATIONS_PER_SHARD:
            raise StopShard()

    def expect(self, cond, key, msg='', /, **witness):
        if not cond:
            self.fail(key, msg, **witness)
        return cond

    def eq(self, got, want, key, /, **witness):
        if got != want or (type(want) in (bool, int) and type(got) in (bool, int) and
                           isinstance(got, bool) != isinstance(want, bool)):
            self.fail(key, 'got %s, expected %s' % (short(got), short(want)), **witness)
            return False
        return True

    def raises(self, exc, fn, key, /, **witness):
        """fn must raise one of exc (and nothing else); returns the exception"""
        try:
            r = fn()
        except exc as e:
            return e
        except StopShard:
            raise
        except BaseException as e:
            self.fail(key, 'raised %s instead of %s' % (describe(e), names(exc)), **witness)
            return None
        self.fail(key, 'returned %s; expected %s' % (short(r), names(exc)), **witness)
        return None


def names(exc):
    return '/'.join(e.__name__ for e in (exc if isinstance(exc, tuple) else (exc,)))


def short(v):
    s = str(jsonable(v))
    return s if len(s) < 300 else s[:300] + '...'


def describe(e):
    try:
        s = str(e)
    except Exception:
        s = '?'
    return '%s(%s)' % (type(e).__name__, s[:200])


def crash_key(e):
    """A stable name for an unexpected exception: type and innermost function of the code under test"""
    name = ''
    for f in traceback.extract_tb(e.__traceback__):
        if '/verif/' not in f.filename and '/lib/python3' not in f.filename:
            name = os.path.basename(f.filename) + ':' + f.name
    return 'crash:%s:%s' % (type(e).__name__, name)


def run_shard_inline(space, param, tier):
    ctx = Ctx(tier)
    last = [-1, 0]

    def payload():
        return {'states': set() if space.disjoint else ctx.states, 'nstates': len(ctx.states) if space.disjoint else 0, 'transitions': ctx.transitions, 'traces': ctx.traces,
                'outcomes': ctx.outcomes, 'samples': ctx.samples, 'violations': ctx.violations}

    try:
        space.fn(ctx, param)
    except StopShard:
        pass
    except BaseException as e:
        tb = traceback.format_exception(type(e), e, e.__traceback__)
        ctx.violations.append({'key': crash_key(e), 'msg': 'unexpected ' + describe(e),
                               'case': jsonable(ctx.cur),
                               'witness': {'traceback': ''.join(tb[-12:])[-6000:]}})
    return payload()


class _Stalled(BaseException):
    pass


def child(space, param, tier, wfd):
    """Run a shard in this forked process and write its result to wfd"""
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ctx_box = {}
    orig = Ctx.__init__

    def init(self, t):
        orig(self, t)
        ctx_box['ctx'] = self
    Ctx.__init__ = init
    seen = [None]

    def tick(sig, frame):
        c = ctx_box.get('ctx')
        now = (c.transitions, c.traces, len(c.states)) if c else None
        if now == seen[0]:
            raise _Stalled('no progress in %d s of CPU time' % STALL_CPU_S)
        seen[0] = now
    signal.signal(signal.SIGPROF, tick)
    signal.setitimer(signal.ITIMER_PROF, STALL_CPU_S, STALL_CPU_S)
    res = run_shard_inline(space, param, tier)
    signal.setitimer(signal.ITIMER_PROF, 0)
    with os.fdopen(wfd, 'wb') as fd:
        fd.write(pickle.dumps(res, protocol=4))


def run_pool(jobs, tier, on_result, nproc=None, stop=None):
    """jobs: list of (space, index, param). Calls on_result(space, index, param, result)."""
    live = {}            # rfd -> [pid, job, chunks, t0]
    try:
        _run_pool(jobs, tier, on_result, nproc, stop, live)
    finally:
        for rfd, ent in live.items():
            _reap(rfd, ent)


def _run_pool(jobs, tier, on_result, nproc, stop, live):
    nproc = nproc or NPROC
    pending = collections.deque(jobs)
    while pending or live:
        if stop is not None and stop():
            pending.clear()
            for rfd, ent in list(live.items()):
                _reap(rfd, ent)
            live.clear()
        while pending and len(live) < nproc:
            job = pending.popleft()
            rfd, wfd = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    os.close(rfd)
                    for other in list(live):
                        os.close(other)
                    child(job[0], job[2], tier, wfd)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(wfd)
            live[rfd] = [pid, job, [], time.time()]
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [], 5)
        for rfd in ready:
            ent = live[rfd]
            data = os.read(rfd, 1 << 20)
            if data:
                ent[2].append(data)
                continue
            os.close(rfd)
            _, st = os.waitpid(ent[0], 0)
            _killpg(ent[0])
            del live[rfd]
            raw = b''.join(ent[2])
            try:
                res = pickle.loads(raw)
            except Exception:
                res = dead_result('died with status %d' % st)
            on_result(*ent[1], res)
        now = time.time()
        for rfd, ent in list(live.items()):
            if now - ent[3] > SHARD_WALL_S[tier]:
                _reap(rfd, ent)
                del live[rfd]
                on_result(*ent[1], dead_result('did not terminate within %d s' % SHARD_WALL_S[tier]))


def _reap(rfd, ent):
    _killpg(ent[0])
    try:
        os.kill(ent[0], signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(ent[0], 0)
    os.close(rfd)


def _killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


def dead_result(msg):
    return {'states': set(), 'nstates': 0, 'transitions': 0, 'traces': 0, 'outcomes': collections.Counter(), 'samples': [],
            'violations': [{'key': 'process', 'msg': 'exploring process ' + msg, 'case': None, 'witness': {}}]}


def load_findings():
    out = []
    try:
        with open(os.path.join(HERE, 'known-findings.txt')) as fd:
            for line in fd:
                if line.startswith('finding:'):
                    fields = line[len('finding:'):].split(None, 2)
                    d = dict(f.split('=', 1) for f in fields[:2])
                    out.append((d['property'], d['key'], fields[2].strip() if len(fields) > 2 else ''))
    except OSError as e:
        if e.errno != errno.ENOENT:
            raise
    return out
