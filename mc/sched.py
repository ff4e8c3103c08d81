"""A controlled scheduler: runs real threads of the code under test one at a time, switching only where told.

Import this module before the code under test: locks the code creates are then cooperative ones, which the
scheduler knows about. Every line (or bytecode) of the code under test is a point where it may switch threads.
`explore()` runs all schedules with at most a given number of preemptions.
"""
import _thread, ast, dis, functools, logging, os, queue, sys, threading, weakref, concurrent.futures

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + os.sep
_real_lock = _thread.allocate_lock

_active = None          # the execution in progress


class Abort(BaseException):
    pass


class CoopLock:
    """A lock whose blocking the scheduler sees; outside of an execution there is one thread only"""
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def _me(self):
        ex = _active
        return ex.me() if ex is not None else 'main'

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if _active is None or me == 'main':
                raise RuntimeError('deadlock: lock already held')
            _active.block(me, self)
        self.owner, self.count = me, self.count + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True

    def _is_owned(self):
        return self.owner == self._me()


def install():
    threading.Lock = CoopLock
    threading.RLock = CoopRLock
    threading._allocate_lock = _real_lock
    _thread.allocate_lock = CoopLock
    _thread.RLock = CoopRLock


BORING = {op for name, op in dis.opmap.items() if name.startswith((
    'LOAD_FAST', 'STORE_FAST', 'LOAD_CONST', 'POP_', 'PUSH_', 'COPY', 'SWAP', 'RESUME', 'NOP', 'CACHE', 'JUMP', 'RETURN', 'BUILD_',
    'KW_NAMES', 'END_', 'RERAISE', 'CHECK_EXC', 'MAKE_', 'LOAD_ASSERTION', 'IS_OP', 'EXTENDED_ARG', 'MAKE_CELL', 'LOAD_CLOSURE',
    'SEND', 'YIELD', 'CLEANUP')) and name not in ('COPY_FREE_VARS',)}
_globals = {}           # file -> names its functions rebind
_points = {}            # code -> offsets of the operations that may touch shared state


def rebound(filename):
    if filename not in _globals:
        names = set()
        try:
            with open(filename) as fd:
                for node in ast.walk(ast.parse(fd.read())):
                    if isinstance(node, ast.Global):
                        names |= set(node.names)
        except Exception:
            names = None
        _globals[filename] = names
    return _globals[filename]


def points_of(code, opcodes):
    """Offsets where a switch may matter: operations other than on the thread's own variables"""
    key = id(code)          # hashing a code object takes its time
    if opcodes:
        key = -key
    if key not in _points:
        names = rebound(code.co_filename)
        out, line_start, starts = set(), None, set()
        for ins in dis.get_instructions(code):
            if ins.starts_line:
                line_start = ins.offset
            boring = ins.opcode in BORING or (ins.opname == 'LOAD_GLOBAL' and names is not None and ins.argval not in names)
            if not boring:
                out.add(ins.offset)
                starts.add(line_start)
        if not opcodes:
            # lines are entered at any of their starts, also by jumps: go by line number
            lines = set()
            cur = None
            for ins in dis.get_instructions(code):
                if ins.starts_line:
                    cur = ins.starts_line
                if ins.offset in out:
                    lines.add(cur)
            out = lines
        _points[key] = out, code    # which keeps it, and with it its id
    return _points[key][0]


class Execution:
    """One run of the programs: the choices of the prefix, then no preemptions"""
    def __init__(self, programs, prefix, opcodes, free_at, limit=500000):
        self.programs, self.prefix, self.opcodes = programs, prefix, opcodes
        self.free_at = free_at          # after that many choices no preemption is left to explore
        n = len(programs)
        self.sems = [_real_lock() for _ in range(n)]
        for s in self.sems:
            s.acquire()
        self.done = _real_lock()
        self.done.acquire()
        self.finished = [False] * n
        self.waiting = [None] * n       # lock each thread waits for
        self.nwaiting = 0
        self.results = [None] * n
        self.points = []                # (alternatives, chosen, preemption?)
        self.ids = {}
        self.deadlock = self.diverged = self.aborting = False
        self.limit, self.steps = limit, 0
        self.free = False               # nothing left to record
        self.alive = {i: [i] + [j for j in range(n) if j != i] for i in range(n)}

    def me(self):
        return self.ids.get(_thread.get_ident(), 'main')

    def enabled(self):
        return [i for i in range(len(self.programs)) if not self.finished[i] and
                (self.waiting[i] is None or self.waiting[i].owner is None)]

    def pick(self, en, preemption):
        """Choose among several threads that can run; the first goes on by default"""
        k = len(self.points)
        c = en[0]
        if k < len(self.prefix):
            c = self.prefix[k]
            if c not in en:
                self.diverged, c = True, en[0]
        self.points.append((en, c, preemption))
        return c

    def choose(self):
        """The running thread can't go on: which one does?"""
        en = self.enabled()
        if len(en) < 2:
            return en[0] if en else None
        return self.pick(en, False)

    def switch(self, me, to):
        """Hand over to another thread and wait for our turn"""
        self.sems[to].release()
        self.sems[me].acquire()
        if self.aborting:
            raise Abort()

    def point(self, me):
        self.steps += 1
        if self.nwaiting:
            en = self.enabled()
            en.remove(me)
            en.insert(0, me)
        else:
            en = self.alive[me]
        if len(en) > 1:
            if self.free_at is not None and len(self.points) >= self.free_at:
                self.free = True
                return
            to = self.pick(en, True)
            if to != me:
                self.switch(me, to)
        if self.steps > self.limit:
            self.aborting = True
            raise Abort()

    def block(self, me, lock):
        self.waiting[me] = lock
        self.nwaiting += 1
        while lock.owner is not None:
            to = self.choose()
            if to is None:
                self.deadlock = self.aborting = True
                raise Abort()
            if to != me:
                self.switch(me, to)
        self.waiting[me] = None
        self.nwaiting -= 1

    def thread(self, i):
        self.sems[i].acquire()
        self.ids[_thread.get_ident()] = i
        code = self.programs[i]
        try:
            if not self.aborting:
                sys.settrace(self.tracer(i))
                try:
                    self.results[i] = ('ok', code())
                finally:
                    sys.settrace(None)
        except Abort:
            self.results[i] = ('aborted',)
        except BaseException as e:
            self.results[i] = ('error', type(e).__name__, str(e)[:100])
        self.finished[i] = True
        for a in self.alive:
            self.alive[a] = [j for j in self.alive[a] if j != i]
        nxt = None
        if not all(self.finished):
            if not self.aborting:
                nxt = self.choose()
                if nxt is None:
                    self.deadlock = self.aborting = True
            if nxt is None:
                nxt = self.finished.index(False)
        if nxt is None:
            self.done.release()
        else:
            self.sems[nxt].release()

    def tracer(self, i):
        opcodes = self.opcodes
        point = self.point

        def local(frame, event, arg):
            if self.free:
                return local
            if opcodes:
                if event == 'opcode' and frame.f_lasti in points_of(frame.f_code, True):
                    point(i)
            elif event == 'line' and frame.f_lineno in points_of(frame.f_code, False):
                point(i)
            return local

        def top(frame, event, arg):
            if self.free:
                return None
            code = frame.f_code
            ours = FILES.get(code.co_filename)
            if ours is None:
                ours = FILES[code.co_filename] = os.path.realpath(code.co_filename).startswith(REPO)
            if ours:
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return top

    def run(self):
        global _active
        _active = self
        try:
            for i in range(len(self.programs)):
                _thread.start_new_thread(self.thread, (i,))
            self.sems[self.choose()].release()
            self.done.acquire()
        finally:
            _active = None
        return self


FILES = {}


def explore(make, bound, opcodes, on_execution, max_executions=None):
    """Run all schedules with at most `bound` preemptions.

    make() returns (programs, finish): fresh programs, one per thread, and a function called when they have run.
    on_execution(results, final, execution). Returns (executions, complete).
    """
    if opcodes:
        sys._getframe().f_trace_opcodes = True      # else bytecodes are traced from the next settrace() on only
    # prefix of choices, preemptions in it, number of choices after which no preemption is left
    stack = [([], 0, 0 if bound < 1 else None)]
    n = 0
    while stack:
        prefix, used, free_at = stack.pop()
        programs, finish = make()
        ex = Execution(programs, prefix, opcodes, free_at).run()
        n += 1
        final = finish() if not ex.aborting else None
        on_execution(ex.results, final, ex)
        if max_executions and n >= max_executions and stack:
            return n, False
        choices = [p[1] for p in ex.points]
        # alternatives at the choices after the prefix
        for k in range(len(ex.points) - 1, len(prefix) - 1, -1):
            en, c, preempt = ex.points[k]
            for a in en:
                if a != c:
                    cost = used + (1 if preempt else 0)
                    if cost <= bound:
                        stack.append((choices[:k] + [a], cost, free_at if not preempt or cost < bound else k + 1))
    return n, True
