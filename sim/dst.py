"""Deterministic simulator core (runs under Jython).

Tasks are real Java threads, each parked on its own semaphore; exactly one
holds the token and runs.  The running task gives the token away only inside
Sim.step / Sim.line / Sim.block, where the seeded policy (or a replayed list of
overrides) decides who runs next.  All times are simulated.
"""
import sys
import heapq
import traceback
import hashlib
import random as _random
import SimTrace
from java.lang import Thread as JThread, Runnable
from java.util.concurrent import Semaphore as JSemaphore, TimeUnit

RUNNABLE, BLOCKED, DONE = 0, 1, 2
TICK = 1e-6

SIM = None          # the active simulation, if any


class SimExit(BaseException):
    """Unwinds a task of a simulation that has ended."""


class HarnessError(Exception):
    pass


class Task(object):

    def __init__(self, sim, id, name, fn, daemon):
        self.sim = sim
        self.id = id
        self.name = name
        self.fn = fn
        self.daemon = daemon
        self.sem = JSemaphore(0)
        self.endsem = JSemaphore(0)
        self.state = RUNNABLE
        self.thread = None
        self.exc = None
        self.blockno = 0
        self.timedout = False
        self.why = None
        self.ident = 1000 + id
        self.threadobj = None
        self.joiners = []
        self.stalled = 0

    def __repr__(self):
        return 'T%d(%s)' % (self.id, self.name)


class _Body(Runnable):

    def __init__(self, sim, task):
        self.sim = sim
        self.task = task

    def run(self):
        sim, task = self.sim, self.task
        task.sem.acquire()
        try:
            if not sim.dead:
                if sim.trace:
                    sim.tr.install()
                try:
                    task.fn()
                finally:
                    SimTrace.uninstall()
        except SimExit:
            pass
        except:         # what Java throws too
            if not sim.dead:
                task.exc = sys.exc_info()
                try:
                    sim.on_exception(task, task.exc)
                except SimExit:
                    pass
        sim._finish(task)


class Policy(object):
    """Chooses at which steps to preempt and whom to run.

    modes: 'none'  run each task until it blocks
           'rand'  preempt with probability p_sync at synchronisation steps and p_line at lines
           'pct'   random priorities with d change points over about `horizon` steps
    overrides: replay, {step: taskid}; nothing else is then decided at random."""

    def __init__(self, spec):
        self.mode = spec.get('mode', 'rand')
        self.rng = _random.Random(int(spec.get('seed', 0)))
        self.p_sync = spec.get('p_sync', 0.2)
        self.p_line = spec.get('p_line', 0.0)
        self.horizon = max(10, int(spec.get('horizon', 3000)))
        self.d = spec.get('d', 3)
        self.overrides = None
        if 'overrides' in spec:
            self.overrides = dict((int(s), t) for s, t in spec['overrides'])
            self.steps = sorted(self.overrides)
        elif self.mode == 'pct':
            self.points = sorted(self.rng.randrange(1, self.horizon) for i in range(self.d))
            self.prio = {}
            self.low = 0

    def next_line(self, step):
        """The next step at which a line event should call preempt()."""
        if self.overrides is not None:
            import bisect
            i = bisect.bisect_right(self.steps, step)
            return self.steps[i] if i < len(self.steps) else 1 << 60
        if self.mode == 'pct':
            for p in self.points:
                if p > step:
                    return p
            return 1 << 60
        if self.mode == 'rand' and self.p_line > 0:
            n = 1
            r = self.rng.random()
            import math
            n = int(math.log(1.0 - r) / math.log(1.0 - self.p_line)) + 1 if self.p_line < 1 else 1
            return step + n
        return 1 << 60

    def priority(self, task):
        if task.id not in self.prio:
            self.prio[task.id] = self.rng.random() + 1
        return self.prio[task.id]

    def at_sync(self, step, me, runnable):
        """Returns the task to run at a synchronisation step (me is runnable)."""
        if self.overrides is not None:
            return self._forced(step, me, runnable)
        if len(runnable) < 2:
            return me
        if self.mode == 'rand':
            if self.rng.random() < self.p_sync:
                return self.rng.choice(runnable)
            return me
        if self.mode == 'pct':
            return max(runnable, key=self.priority)
        return me

    def at_line(self, step, me, runnable):
        if self.overrides is not None:
            return self._forced(step, me, runnable)
        if len(runnable) < 2:
            return me
        if self.mode == 'rand':
            others = [t for t in runnable if t is not me]
            return self.rng.choice(others)
        if self.mode == 'pct':
            self.low -= 1
            self.prio[me.id] = self.low
            return max(runnable, key=self.priority)
        return me

    def at_block(self, step, me, runnable, default):
        if self.overrides is not None:
            t = self.overrides.get(step)
            for r in runnable:
                if r.id == t:
                    return r
            return default
        if len(runnable) < 2:
            return default
        if self.mode == 'rand':
            return self.rng.choice(runnable)
        if self.mode == 'pct':
            return max(runnable, key=self.priority)
        return default

    def _forced(self, step, me, runnable):
        t = self.overrides.get(step)
        if t is None or t == me.id:
            return me
        for r in runnable:
            if r.id == t:
                return r
        return me


class Sim(object):

    def __init__(self, policy, max_steps=400000, max_time=3600.0, trace=True, trace_prefix='/pyslet/pyslet/'):
        self.policy = policy
        self.tasks = []
        self.live = 0               # non-daemon tasks not finished
        self.cur = None
        self.tr = SimTrace(trace_prefix, self._line)
        self.offset = 0.0           # simulated time = offset + nsteps*TICK
        self.heap = []
        self.hseq = 0
        self._dead = False
        self.verdict = None         # None, 'deadlock', 'livelock', 'hang'
        self.main = JSemaphore(0)
        self.max_steps = max_steps
        self.quota = max_steps      # steps allowed without progress
        self.hard_max = 12 * max_steps
        self.tr.maxSteps = max_steps
        self.max_time = max_time
        self.trace = trace
        self.taken = []             # non-default decisions: [step, task id]
        self.nswitch = 0
        self.hash = hashlib.md5()
        self.syncsig = hashlib.md5()
        self.tr.nextLine = policy.next_line(0)
        self.exceptions = []
        self.stallplan = {}         # (kind) -> handled by scenario
        self.wall_skew = 0.0
        self.wall_fn = None
        self.wall_base = 1700000000.0
        self.onstep = None
        self.seqno = 0
        self.running = False
        self.stuck = []

    @property
    def nsteps(self):
        return self.tr.nsteps

    @property
    def dead(self):
        return self._dead

    def progress(self):
        """Something irreversible happened (bytes moved): the step budget counts from here."""
        n = self.tr.nsteps + self.quota
        if n - self.max_steps > 1000:
            n = min(n, self.hard_max)
            if n > self.max_steps:
                self.max_steps = n
                self.tr.maxSteps = n

    # ---- log
    def log(self, *what):
        self.hash.update(repr(what))

    def seq(self):
        """A global event sequence number (for histories)."""
        self.seqno += 1
        return self.seqno

    # ---- tracing
    def _line(self):
        if self.dead:
            raise SimExit()
        cur = self.cur
        if cur is None or JThread.currentThread() is not cur.thread:
            return
        if self.nsteps > self.max_steps:
            self.stuck_stack = ''.join(traceback.format_stack()[-10:])
            self._end('livelock')
            raise SimExit()
        self.tr.nextLine = self.policy.next_line(self.tr.nsteps)
        if self.nopreempt_depth:
            return
        self._pump()
        runnable = self._runnable()
        nxt = self.policy.at_line(self.nsteps, cur, runnable)
        self._goto(nxt)

    nopreempt_depth = 0
    stuck_stack = ''
    event_error = None

    # ---- time
    def now(self):
        return self.offset + self.tr.nsteps * TICK

    def wall(self):
        if self.wall_fn is not None:
            return self.wall_fn()
        return self.wall_base + self.now() + self.wall_skew

    def advance(self, dt):
        """Jumps the clock (nobody else runs)."""
        self.offset += dt

    def at(self, when, fn):
        self.hseq += 1
        ev = [when, self.hseq, fn]
        heapq.heappush(self.heap, ev)
        return ev

    def after(self, dt, fn):
        return self.at(self.now() + max(0.0, dt), fn)

    def cancel(self, ev):
        ev[2] = None

    def _pump(self):
        heap = self.heap
        while heap and heap[0][0] <= self.offset + self.tr.nsteps * TICK:
            ev = heapq.heappop(heap)
            if ev[2] is not None:
                try:
                    ev[2]()
                except SimExit:
                    raise
                except BaseException:
                    # a defect of the harness: stop the run and report it there
                    if self.event_error is None:
                        self.event_error = sys.exc_info()
                    self._end('harness')
                    raise SimExit()

    # ---- tasks
    def spawn(self, fn, name='task', daemon=False):
        t = Task(self, len(self.tasks), name, fn, daemon)
        self.tasks.append(t)
        if not daemon:
            self.live += 1
        t.thread = JThread(None, _Body(self, t), 'sim-%d' % t.id, 32 << 20)
        t.thread.setDaemon(True)
        t.thread.start()
        return t

    def in_task(self):
        cur = self.cur
        return cur is not None and JThread.currentThread() is cur.thread

    def _runnable(self):
        return [t for t in self.tasks if t.state == RUNNABLE]

    def _goto(self, nxt, default=None):
        """Hands the token from the current (runnable) task to nxt."""
        me = self.cur
        if nxt is me:
            return
        self.taken.append([self.nsteps, nxt.id])
        self._note(nxt)
        self.cur = nxt
        nxt.sem.release()
        me.sem.acquire()
        if self.dead:
            raise SimExit()

    def _note(self, nxt):
        self.nswitch += 1
        self.hash.update('%d>%d' % (self.nsteps, nxt.id))
        self.syncsig.update('>%d' % nxt.id)

    def step(self, kind='step'):
        """A preemption point at a synchronisation or I/O operation."""
        if self.dead:
            raise SimExit()
        if not self.in_task():
            return
        n = self.tr.nsteps = self.tr.nsteps + 1
        if n > self.max_steps:
            self._end('livelock')
            raise SimExit()
        if self.now() > self.max_time:
            self._end('hang')
            raise SimExit()
        if self.onstep is not None:
            self.onstep(kind)
        if self.heap:
            self._pump()
        if self.nopreempt_depth:
            return
        self.syncsig.update(kind[0])
        runnable = self._runnable()
        nxt = self.policy.at_sync(n, self.cur, runnable)
        self._goto(nxt)

    def block(self, deadline=None, why=None):
        """Parks the current task until wake() or the deadline; True if woken."""
        if self.dead:
            raise SimExit()
        me = self.cur
        me.state = BLOCKED
        me.why = why
        me.blockno += 1
        me.timedout = False
        ev = None
        if deadline is not None:
            no = me.blockno

            def expire():
                if me.state == BLOCKED and me.blockno == no:
                    me.timedout = True
                    me.state = RUNNABLE
            ev = self.at(deadline, expire)
        self.tr.nsteps += 1
        nxt = self._next(me)
        if nxt is None:
            raise SimExit()
        if nxt is not me:
            self._note(nxt)
            self.cur = nxt
            nxt.sem.release()
            me.sem.acquire()
        if self.dead:
            raise SimExit()
        if ev is not None:
            ev[2] = None
        me.why = None
        return not me.timedout

    def wake(self, task):
        if task.state == BLOCKED:
            task.state = RUNNABLE

    def sleep(self, dt):
        self.step('sleep')
        if dt <= 0:
            return
        self.block(self.now() + dt, 'sleep')

    def _next(self, me):
        """Finds the next task to run after me blocked or finished; None at the end."""
        if self.nsteps > self.max_steps:
            self._end('livelock')
            return None
        while True:
            if self.heap:
                self._pump()
            runnable = self._runnable()
            if runnable:
                break
            if not self.heap:
                self._end('deadlock')
                return None
            t = self.heap[0][0]
            if t > self.max_time:
                self._end('hang')
                return None
            now = self.now()
            if t > now:
                self.offset += t - now + 1e-9
        default = runnable[0]
        for t in runnable:
            if t.id > me.id:
                default = t
                break
        nxt = self.policy.at_block(self.nsteps, me, runnable, default)
        if nxt is not default:
            self.taken.append([self.nsteps, nxt.id])
        return nxt

    def _finish(self, task):
        task.state = DONE
        if self.dead:
            task.endsem.release()
            return
        for j in task.joiners:
            self.wake(j)
        if not task.daemon:
            self.live -= 1
            if self.live == 0:
                self._end(None)
                task.endsem.release()
                return
        self.tr.nsteps += 1
        try:
            nxt = self._next(task)
            if nxt is not None:
                self._note(nxt)
                self.cur = nxt
                nxt.sem.release()
        except SimExit:
            pass
        task.endsem.release()

    def _end(self, verdict):
        if not self.dead:
            self._dead = self.tr.dead = True
            self.verdict = verdict
            if verdict:
                self.stuck = [(t.name, str(t.why)) for t in self.tasks if t.state != DONE and not t.daemon]
            self.main.release()

    def on_exception(self, task, exc):
        self.exceptions.append((task, exc))

    def run(self):
        """Runs until every non-daemon task has finished (or a verdict)."""
        global SIM
        if not self.tasks:
            return
        SIM = self
        self.running = True
        try:
            first = self.policy.at_block(0, self.tasks[0], self._runnable(), self.tasks[0])
            if first is not self.tasks[0]:
                self.taken.append([0, first.id])
            self._note(first)
            self.cur = first
            first.sem.release()
            self.main.acquire()
            self.clean = True
            # unwind what is left, one at a time
            for t in self.tasks:
                if t.state != DONE:
                    self.cur = t
                    t.sem.release()
                if not t.endsem.tryAcquire(5, TimeUnit.SECONDS):
                    self.clean = False
        finally:
            self.running = False
            self.cur = None
            SIM = None
        self.hash.update('end %s %d %.6f' % (self.verdict, self.nsteps, self.now()))
        if self.event_error is not None:
            raise HarnessError, ('in an event: %s' % (self.event_error[1],)), self.event_error[2]


class nopreempt(object):
    """Harness code that must not be interleaved."""

    def __enter__(self):
        if SIM is not None:
            SIM.nopreempt_depth += 1

    def __exit__(self, *args):
        if SIM is not None:
            SIM.nopreempt_depth -= 1


def active():
    """The simulation, if the calling thread is its running task."""
    s = SIM
    if s is not None and s.in_task():
        return s
    return None
