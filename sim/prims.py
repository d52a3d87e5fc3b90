"""Simulated threading primitives and clock; install() patches the modules."""
import sys
import types
import dst

_installed = {}


class LockError(RuntimeError):
    pass


class SimLock(object):
    reentrant = False
    error = RuntimeError

    def __init__(self, *args, **kw):
        self.owner = None
        self.count = 0
        self.waiters = []

    def _free(self, sim):
        o = self.owner
        return o is None or (o is not True and o.sim is not sim)

    def acquire(self, blocking=True, timeout=-1):
        sim = dst.active()
        if sim is None:
            return True
        sim.step('acquire')
        me = sim.cur
        if self.reentrant and self.owner is me:
            self.count += 1
            return True
        while not self._free(sim):
            if not blocking:
                return False
            self.waiters.append(me)
            sim.block(None, 'lock')
        self.waiters = [w for w in self.waiters if w.sim is sim and w is not me]
        self.owner = me
        self.count = 1
        return True

    def release(self):
        sim = dst.active()
        if sim is None:
            return
        if sim.dead:
            if self.owner is sim.cur:
                self.owner = None
            return
        me = sim.cur
        if self.owner is None or (self.reentrant and self.owner is not me):
            raise self.error('release of a lock not held')
        self.count -= 1
        if self.count > 0:
            return
        self._drop(sim)
        sim.step('release')

    def _drop(self, sim):
        self.owner = None
        self.count = 0
        w = self.waiters
        self.waiters = []
        for t in w:
            if t.sim is sim:
                sim.wake(t)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _is_owned(self):
        sim = dst.active()
        return sim is None or self.owner is sim.cur


class SimRLock(SimLock):
    reentrant = True


class SimCondition(object):

    def __init__(self, lock=None):
        self.lock = SimRLock() if lock is None else lock
        self.acquire = self.lock.acquire
        self.release = self.lock.release
        self.waiting = []

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()

    def wait(self, timeout=None):
        sim = dst.active()
        if sim is None:
            return
        if not self.lock._is_owned():
            raise RuntimeError('cannot wait on un-acquired lock')
        me = sim.cur
        count = self.lock.count
        token = [me, False]
        self.waiting.append(token)
        self.lock._drop(sim)
        if timeout is not None and timeout <= 0:
            sim.step('wait0')
        else:
            dl = None if timeout is None else sim.now() + timeout
            while not token[1]:
                if not sim.block(dl, 'cond'):
                    break
        if token in self.waiting:
            self.waiting.remove(token)
        self.lock.acquire()
        self.lock.count = count

    def notify(self, n=1):
        sim = dst.active()
        if sim is None:
            return
        if not self.lock._is_owned():
            raise RuntimeError('cannot notify on un-acquired lock')
        k = 0
        while self.waiting and k < n:
            tok = self.waiting.pop(0)
            if tok[0].sim is not sim:
                continue
            tok[1] = True
            sim.wake(tok[0])
            k += 1

    def notify_all(self):
        self.notify(len(self.waiting))

    notifyAll = notify_all


class SimEvent(object):

    def __init__(self):
        self.flag = False
        self.waiting = []

    def is_set(self):
        sim = dst.active()
        if sim is not None:
            sim.step('event')
        return self.flag
    isSet = is_set

    def set(self):
        self.flag = True
        sim = dst.active()
        if sim is None:
            return
        w, self.waiting = self.waiting, []
        for t in w:
            if t.sim is sim:
                sim.wake(t)
        sim.step('event')

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        sim = dst.active()
        if sim is None:
            return self.flag
        sim.step('event')
        dl = None if timeout is None else sim.now() + timeout
        while not self.flag:
            self.waiting.append(sim.cur)
            if not sim.block(dl, 'event'):
                break
        return self.flag


class SimSemaphore(object):

    def __init__(self, value=1):
        self.cond = SimCondition(SimLock())
        self.value = value

    def acquire(self, blocking=True):
        with self.cond:
            while self.value == 0:
                if not blocking:
                    return False
                self.cond.wait()
            self.value -= 1
            return True

    def release(self):
        with self.cond:
            self.value += 1
            self.cond.notify()

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()


class _MainThread(object):
    name = 'MainThread'
    ident = 1
    daemon = False

    def getName(self):
        return self.name

    def isAlive(self):
        return True
    is_alive = isAlive

    def isDaemon(self):
        return False

_main = _MainThread()


class SimThread(object):
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, verbose=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        SimThread._n += 1
        self.name = name or 'Thread-%d' % SimThread._n
        self.daemon = False
        self._task = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        sim = dst.SIM
        if sim is None:
            raise RuntimeError('thread started outside a simulation')
        self._task = sim.spawn(self.run, self.name, self.daemon)
        self._task.threadobj = self
        if dst.active():
            sim.step('start')

    @property
    def ident(self):
        return self._task.ident if self._task else None

    def isAlive(self):
        return self._task is not None and self._task.state != dst.DONE
    is_alive = isAlive

    def join(self, timeout=None):
        sim = dst.active()
        if sim is None:
            return
        sim.step('join')
        dl = None if timeout is None else sim.now() + timeout
        while self.isAlive():
            self._task.joiners.append(sim.cur)
            if not sim.block(dl, 'join'):
                break

    def setDaemon(self, flag):
        self.daemon = flag

    def isDaemon(self):
        return self.daemon

    def getName(self):
        return self.name

    def setName(self, name):
        self.name = name


class SimTimer(SimThread):

    def __init__(self, interval, function, args=[], kwargs={}):
        SimThread.__init__(self)
        self.interval, self.function, self.args, self.kwargs = interval, function, args, kwargs
        self.finished = SimEvent()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.flag:
            self.function(*self.args, **self.kwargs)
        self.finished.set()


def current_thread():
    sim = dst.SIM
    if sim is None or not sim.in_task():
        return _main
    t = sim.cur
    if t.threadobj is None:
        th = SimThread(name=t.name)
        th._task = t
        t.threadobj = th
    return t.threadobj


def get_ident():
    return current_thread().ident


def start_new_thread(fn, args, kwargs={}):
    t = SimThread(target=fn, args=args, kwargs=kwargs)
    t.daemon = True
    t.start()
    return t.ident


# ---- clock
import time as _time


def _now():
    sim = dst.SIM
    if sim is None:
        return 1700000000.0
    return sim.wall()


def _time_module():
    m = types.ModuleType('time')
    for n in dir(_time):
        if not n.startswith('__'):
            try:
                setattr(m, n, getattr(_time, n))
            except Exception:
                pass

    def time():
        sim = dst.active()
        if sim is not None:
            sim.step('time')
        return _now()

    def sleep(dt):
        sim = dst.active()
        if sim is not None:
            sim.sleep(dt)

    def clock():
        sim = dst.SIM
        return sim.now() if sim is not None else 0.0

    def wrap(name):
        real = getattr(_time, name)

        def f(t=None):
            return real(_now() if t is None else t)
        f.__name__ = name
        return f

    def strftime(fmt, t=None):
        return _time.strftime(fmt, _time.localtime(_now()) if t is None else t)

    def ctime(t=None):
        return _time.ctime(_now() if t is None else t)

    def asctime(t=None):
        return _time.asctime(_time.localtime(_now()) if t is None else t)
    m.time, m.sleep, m.clock = time, sleep, clock
    m.gmtime, m.localtime = wrap('gmtime'), wrap('localtime')
    m.strftime, m.ctime, m.asctime = strftime, ctime, asctime
    return m


def install():
    import threading
    import thread
    import logging
    logging.disable(1000)
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading.Condition = SimCondition
    threading.Event = SimEvent
    threading.Semaphore = SimSemaphore
    threading.BoundedSemaphore = SimSemaphore
    threading.Thread = SimThread
    threading.Timer = SimTimer
    threading.current_thread = current_thread
    threading.currentThread = current_thread
    thread.allocate_lock = SimLock
    thread.get_ident = get_ident
    thread.start_new_thread = start_new_thread
    sys.modules['time'] = _time_module()
