"""A stand-in for multiprocessing under a deterministic scheduler.

Processes are greenlets working on copies of what they are given; queues pass pickled copies and deliver them some time after
they were put; a blocking call with a long timeout waits for as long as anybody else can move, one with a short timeout may end at any time.  install() must be called before the
code under test is imported.  A schedule is a strategy object with pick(sim, choices) -> one of choices; a choice is
('p', process) or ('d', queue, putting process)."""
import copy, multiprocessing, multiprocessing.pool, os, pickle, queue as _queue
from greenlet import greenlet, GreenletExit

SIM = None
PATIENCE = 60       # a wait that ends sooner may end before the others have moved


class Deadlock(Exception):
    pass


class TooLong(Exception):
    pass


def current():
    return SIM.cur


class SimQueue:
    def __init__(self, maxsize=0, *, ctx=None):
        self.items, self.pending = [], {}       # delivered; putter -> not yet delivered
        self.counter = True                     # until something else than a 1 passes through
        self.n = len(SIM.queues)
        SIM.queues.append(self)

    def __deepcopy__(self, memo):
        return self

    def put(self, obj, block=True, timeout=None):
        b = pickle.dumps(obj)
        if obj != 1 or isinstance(obj, bool):
            self.counter = False
        if self.counter:
            self.items.append(b)
            SIM.point('count')
            return
        self.pending.setdefault(SIM.cur, []).append(b)
        if not SIM.delays:
            self.deliver(SIM.cur)
        SIM.point('put')

    def deliver(self, who):
        q = self.pending[who]
        self.items.append(q.pop(0))
        if not q:
            del self.pending[who]

    def get(self, block=True, timeout=None):
        SIM.point('get' if not self.counter else 'count')
        if not self.items:
            if not block:
                raise _queue.Empty
            if not SIM.wait(lambda: bool(self.items), timeout):
                raise _queue.Empty
        if not self.counter:
            SIM.major()
        return pickle.loads(self.items.pop(0))

    def put_nowait(self, obj):
        return self.put(obj, False)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        SIM.point('count')
        return len(self.items) + sum(map(len, self.pending.values()))

    def empty(self):
        SIM.point('count')
        return not self.items

    def full(self):
        return False

    def close(self):
        pass

    def join_thread(self):
        me = SIM.cur
        SIM.wait(lambda: me not in self.pending)

    def cancel_join_thread(self):
        pass


class SimLock:
    def __init__(self, *, ctx=None):
        self.held = False

    def __deepcopy__(self, memo):
        return self

    def acquire(self, block=True, timeout=None):
        SIM.point('lock')
        if self.held:
            if not block:
                return False
            if not SIM.wait(lambda: not self.held, timeout):
                return False
        self.held = True
        return True

    def release(self):
        self.held = False
        SIM.point('unlock')

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs)
        self.name, self.daemon, self._sim = name or 'p', daemon, None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        child = copy.deepcopy(self)
        self._sim = SIM.spawn(child.run)
        SIM.point('start')

    def join(self, timeout=None):
        p = self._sim
        SIM.wait(lambda: p.ended, timeout)

    def is_alive(self):
        SIM.point('count')
        return not self._sim.ended

    def terminate(self):
        SIM.kill(self._sim)

    kill = terminate

    @property
    def exitcode(self):
        return (1 if self._sim.failed else 0) if self._sim and self._sim.ended else None

    @property
    def pid(self):
        return self._sim.n if self._sim else None


class SimPool:
    """Runs the tasks one by one in an order of the strategy's choice; results in that order if unordered."""
    def __init__(self, processes=None, *a, **kw):
        pass

    def _go(self, fn, it):
        tasks = list(enumerate(it))
        tasks = SIM.strategy.shuffle(tasks)
        return [(i, pickle.loads(pickle.dumps(fn(pickle.loads(pickle.dumps(x)))))) for i, x in tasks]

    def imap_unordered(self, fn, it, chunksize=1):
        return iter([r for _, r in self._go(fn, it)])

    def imap(self, fn, it, chunksize=1):
        return iter([r for _, r in sorted(self._go(fn, it), key=lambda x: x[0])])

    def map(self, fn, it, chunksize=None):
        return list(self.imap(fn, it))

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Proc:
    def __init__(self, n, fn):
        self.n, self.ended, self.failed, self.cond, self.can_time_out, self.timed_out, self.short = n, False, None, None, False, False, False
        self.g = greenlet(self.main)
        self.fn = fn
        self.n_major = 0

    def main(self):
        try:
            self.fn()
        except GreenletExit:
            pass
        except BaseException as e:      # noqa
            self.failed = e
        self.ended = True
        SIM.hub.switch()

    def ready(self):
        return not self.ended and (self.cond is None or self.cond())


class Sim:
    def __init__(self, strategy, delays, limit=100000):
        self.strategy, self.delays, self.limit = strategy, delays, limit
        self.procs, self.queues, self.cur, self.steps = [], [], None, 0
        self.timeouts = 0

    def spawn(self, fn):
        p = Proc(len(self.procs), fn)
        self.procs.append(p)
        return p

    def kill(self, p):
        p.ended = True

    def point(self, what):
        if self.cur is not None:
            if what == 'put':
                self.major()
            self.hub.switch()

    def major(self):
        if self.cur is not None:
            self.cur.n_major += 1

    def wait(self, cond, timeout=None):
        p = self.cur
        if cond():
            return True
        p.cond, p.can_time_out, p.short = cond, timeout is not None, timeout is not None and timeout < PATIENCE
        self.hub.switch()
        p.cond = None
        if p.timed_out:
            p.timed_out = False
            return False
        return True

    def run(self, fn):
        """Runs fn as process 0 until all processes have ended."""
        self.hub = greenlet.getcurrent()
        main = self.spawn(fn)
        while True:
            choices = [('p', p) for p in self.procs if p.ready()]
            choices += [('d', q, w) for q in self.queues for w in q.pending]
            choices += [('t', p) for p in self.procs if p.cond and p.short and not p.ready() and not p.ended]
            if all(p.ended for p in self.procs):
                break
            if not choices:
                late = [p for p in self.procs if not p.ended and p.cond and p.can_time_out]
                if not late:
                    raise Deadlock([p.n for p in self.procs if not p.ended])
                # nobody else can move: the wait is over
                self.timeouts += 1
                late[0].timed_out, late[0].cond = True, None
                choices = [('p', late[0])]
            c = choices[0] if len(choices) == 1 else self.strategy.pick(self, choices)
            self.steps += 1
            if self.steps > self.limit:
                raise TooLong()
            if c[0] == 'd':
                c[1].deliver(c[2])
            elif c[0] == 't':
                self.timeouts += 1
                c[1].timed_out, c[1].cond = True, None
            else:
                self.cur = c[1]
                c[1].g.switch()
                self.cur = None
        if main.failed:
            raise main.failed


def simulate(fn, strategy, delays=True, limit=100000):
    global SIM
    SIM = Sim(strategy, delays, limit)
    try:
        SIM.run(fn)
    finally:
        for p in SIM.procs:
            p.fn = None
    return SIM


class Idle:
    """Stands in while modules are imported, which may make queues."""
    cur, queues, delays = None, [], False

    def point(self, what):
        pass


def install(cpus):
    global SIM
    SIM = Idle()
    multiprocessing.Queue = multiprocessing.JoinableQueue = multiprocessing.SimpleQueue = SimQueue
    multiprocessing.Lock = multiprocessing.RLock = SimLock
    multiprocessing.Process = SimProcess
    multiprocessing.Pool = multiprocessing.pool.Pool = SimPool
    multiprocessing.cpu_count = os.cpu_count = cpus


# -------------------------------------------------------------------- strategies
def key_of(c):
    return (c[0], c[1].n, c[2].n) if c[0] == 'd' else (c[0], c[1].n)


class Random:
    def __init__(self, rnd):
        self.rnd = rnd

    def shuffle(self, l):
        self.rnd.shuffle(l)
        return l

    def pick(self, sim, choices):
        return self.rnd.choice(choices)


class Priorities(Random):
    """Always the choice of highest priority; priorities change at a few random steps."""
    def __init__(self, rnd, d, length):
        self.rnd, self.prio = rnd, {}
        self.changes = set(rnd.randrange(length) for _ in range(d))

    def pick(self, sim, choices):
        def key(c):
            k = key_of(c)
            if k not in self.prio:
                self.prio[k] = self.rnd.random()
            return self.prio[k], k
        if sim.steps in self.changes:
            self.prio = {k: self.rnd.random() for k in self.prio}
        return max(choices, key=key)


class Bounded(Random):
    """One of the schedules that leave a process which could move only at given steps: [(step, index of the new choice)]."""
    def __init__(self, rnd, switches):
        self.rnd, self.switches, self.at = rnd, dict(switches), None
        self.points = []        # (step, number of choices) seen

    def pick(self, sim, choices):
        keys = [key_of(c) for c in choices]
        self.points.append((sim.steps, len(choices)))
        if sim.steps in self.switches:
            i = self.switches[sim.steps] % len(choices)
        elif self.at in keys:
            i = keys.index(self.at)
        else:
            i = 0
        self.at = keys[i]
        return choices[i]


class Replay(Random):
    """Follows a schedule of the specification: which merger makes its next access to a queue, 0 for a delivery."""
    def __init__(self, rnd, sched, first):
        self.rnd, self.sched, self.first, self.i, self.followed, self.left, self.goal = rnd, sched, first, 0, 0, 0, None

    def pick(self, sim, choices):
        ps = {c[1].n: c for c in choices if c[0] == 'p'}
        choices = [c for c in choices if c[0] != 't'] or choices
        main = [c for c in choices if c[0] == 'p' and c[1].n < self.first]
        early = [c for c in choices if c[0] == 'd' and c[2].n < self.first]
        if main or early:               # set up first
            return (main + early)[0]
        while self.i < len(self.sched):
            m = self.sched[self.i]
            if m == 0:
                self.i += 1
                ds = [c for c in choices if c[0] == 'd']
                if ds:
                    self.followed += 1
                    return ds[0]
                self.left += 1
                continue
            n = self.first + m - 1
            if self.goal is None:
                self.goal = (n, sim.procs[n].n_major if n < len(sim.procs) else 0)
            if n in ps and sim.procs[n].n_major <= self.goal[1]:
                return ps[n]
            # done, or it cannot
            if n < len(sim.procs) and (sim.procs[n].n_major > self.goal[1] or sim.procs[n].ended):
                self.followed += 1
            else:
                self.left += 1
            self.i += 1
            self.goal = None
        return choices[0]
