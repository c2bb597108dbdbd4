"""Processes, queues, threads and sleeps under the scheduler's control (stand-ins for multiprocessing, threading, time).

A queue behaves like multiprocessing.Queue: put() only appends to a buffer; a feeder (an action of the scheduler) pickles
the item when it runs, as the real feeder thread does, and writes it to a pipe of limited capacity; get() reads the pipe."""
import multiprocessing
import pickle
import queue as stdqueue
import sys
import threading
import time
import contextlib
from collections import Counter
from dst.core import TaskKilled, HarnessError
from dst.sched import Sched
from dst import world

PIPE = 65536
REAL = {n: getattr(multiprocessing, n) for n in ('Queue', 'SimpleQueue', 'Process', 'get_context', 'parent_process', 'JoinableQueue')}
REAL_T = {n: getattr(threading, n) for n in ('Thread', 'Event')}
REAL_TIME = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'sleep', 'time_ns')}


class Env:
    def __init__(self, chooser, max_steps=200000, max_ticks=400):
        self.sched = Sched(chooser, max_steps=max_steps)
        self.stats = Counter()
        self.queues, self.procs, self.threads = [], [], []
        self.clock = 1.7e9
        self.deadlines = {}
        self.ticks, self.max_ticks, self.row = 0, max_ticks, 0
        self.main = None
        self.exits = []             # os._exit codes
        self.sched.actions.append(self._actions)

    def _actions(self):
        acts = []
        for q in self.queues:
            if q.can_flush():
                acts.append((f'flush:{q.name}', q.flush))
        if self.deadlines and self.ticks < self.max_ticks and (self.row < 3 or not any(
                not t.done and (t.cond is None or t.cond()) for t in self.sched.tasks)):
            acts.append(('tick', self.tick))
        return acts

    def tick(self):
        """The wall clock reaches the next deadline."""
        self.ticks += 1
        self.row += 1
        self.stats['fault.clock_ticks'] += 1
        self.clock = max(self.clock, min(self.deadlines.values()))

    def wait(self, cond, timeout=None, why=''):
        """True if cond became true, False on timeout."""
        t = self.sched.current
        if t is None or threading.current_thread() is not t.thread:
            return bool(cond())
        if timeout is None:
            self.sched.wait(cond, why)
            return True
        end = self.clock + max(timeout, 0)
        self.deadlines[t.name] = end
        try:
            self.sched.wait(lambda: cond() or self.clock >= end, why)
        finally:
            self.deadlines.pop(t.name, None)
        return bool(cond())

    def sleep(self, dt):
        self.wait(lambda: False, dt, 'sleep')

    def yield_(self):
        self.row = 0
        self.sched.yield_()

    def run(self, fn, name='sim'):
        self.main = self.sched.spawn(name, fn)
        self.sched.run()
        if self.main.exc is not None:
            raise self.main.exc

    # what the interpreter would wait for at exit
    def exit_blockers(self):
        res = []
        for p in self.procs:
            if p.started and not p.daemon and p.is_alive():
                res.append(f'process {p.name} is not a daemon and still running')
        for q in self.queues:
            if q.main_puts and not q.cancelled and q.buf and not q.broken:
                room = PIPE - q.pipe_bytes()
                need = 0
                for o in q.buf:
                    try:
                        need += len(pickle.dumps(o))
                    except Exception:
                        pass
                if need > room and not any(p.is_alive() for p in self.procs):
                    res.append(f'queue {q.name} holds {need} bytes that nobody will read and its pipe is full')
        return res


class SimQueue:
    def __init__(self, env, maxsize=0):
        self.env = env
        self.name = f'q{len(env.queues)}'
        self.buf, self.pipe = [], []
        self.cancelled = self.closed = self.broken = False
        self.main_puts = 0
        self.got, self.log = 0, []
        self.poison = None              # callable(item bytes) -> bytes, a fault of the channel
        env.queues.append(self)

    def pipe_bytes(self):
        return sum(len(b) for b in self.pipe)

    def can_flush(self):
        if not self.buf or self.closed:
            return False
        try:
            n = len(pickle.dumps(self.buf[0]))
        except Exception:
            n = 0
        return not self.pipe or self.pipe_bytes() + n <= PIPE

    def flush(self):
        o = self.buf.pop(0)
        try:
            b = pickle.dumps(o)
        except Exception as e:
            self.env.stats['fault.queue_unpicklable'] += 1
            print(f'queue feeder: {type(e).__name__}: {e}')
            return
        self.pipe.append(b)
        self.log.append('flush')

    def put(self, item, block=True, timeout=None):
        if self.closed:
            raise ValueError('Queue is closed')
        cur = self.env.sched.current
        if cur is self.env.main:
            self.main_puts += 1
        self.buf.append(item)
        self.env.yield_()

    def put_nowait(self, item):
        self.put(item, False)

    def get(self, block=True, timeout=None):
        self.env.yield_()
        if not self.pipe:
            if not block:
                raise stdqueue.Empty
            if not self.env.wait(lambda: bool(self.pipe), timeout, f'{self.name}.get'):
                raise stdqueue.Empty
        b = self.pipe.pop(0)
        self.got += 1
        return pickle.loads(b)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        self.env.yield_()
        return not self.pipe

    def full(self):
        return False

    def qsize(self):
        return len(self.buf) + len(self.pipe)

    def close(self):
        self.closed = True

    def cancel_join_thread(self):
        self.cancelled = True

    def join_thread(self):
        pass


class SimProcess:
    kind = 'process'

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None, env=None):
        self.env = env
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        lst = env.procs if self.kind == 'process' else env.threads
        self.name = name or f'{self.kind}-{len(lst)}'
        self.daemon = bool(daemon)
        self.started = False
        self.task = None
        self.exc = None
        lst.append(self)

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        self.started = True

        def body():
            try:
                self.run()
            except TaskKilled:
                raise
            except (Exception, SystemExit) as e:
                self.exc = e
                self.env.stats[f'probe.{self.kind}_died'] += 1
        self.task = self.env.sched.spawn(self.name, body, daemon=True)

    def is_alive(self):
        return bool(self.task) and not self.task.done

    def terminate(self):
        if self.task and not self.task.done:
            self.task.killed = True
            self.task.cond = None

    kill = terminate

    def join(self, timeout=None):
        if self.task:
            self.env.wait(lambda: self.task.done, timeout, f'join {self.name}')

    def close(self):
        pass

    @property
    def pid(self):
        return 4242

    @property
    def exitcode(self):
        return None if self.is_alive() else (1 if self.exc else 0)

    def setDaemon(self, v):
        self.daemon = v


class SimThread(SimProcess):
    kind = 'thread'


class _Parent:
    def __init__(self, env):
        self.env = env

    def is_alive(self):
        return not self.env.main.done

    def join(self, timeout=None):
        self.env.wait(lambda: self.env.main.done, timeout, 'parent')


class _Context:
    def __init__(self, env):
        self.env = env

    def Queue(self, maxsize=0):
        return SimQueue(self.env, maxsize)

    def Process(self, *a, **k):
        return SimProcess(*a, env=self.env, **k)

    def __getattr__(self, n):
        return getattr(multiprocessing, n)


@contextlib.contextmanager
def installed(env, threads=(), clock=True):
    """Replaces multiprocessing (everywhere), the clock and, in the given modules, threading."""
    def mkq(maxsize=0, **k):
        return SimQueue(env, maxsize)

    def mkp(*a, **k):
        return SimProcess(*a, env=env, **k)
    rep = {'Queue': mkq, 'SimpleQueue': mkq, 'JoinableQueue': mkq, 'Process': mkp, 'get_context': lambda method=None: _Context(env),
           'parent_process': lambda: _Parent(env)}
    undo = []

    def setattr_(o, n, v):
        undo.append((o, n, getattr(o, n)))
        setattr(o, n, v)
    for n, v in rep.items():
        setattr_(multiprocessing, n, v)
    for m in world.sut_modules():
        for n, v in list(vars(m).items()):
            for k, real in REAL.items():
                if v is real:
                    setattr_(m, n, rep[k])

    class FakeThreading:
        def Thread(self, *a, **k):
            return SimThread(*a, env=env, **k)

        def Lock(self):
            return SimLock(env)

        RLock = Lock

        def Event(self):
            return SimEvent(env)

        def Condition(self, lock=None):
            return SimCondition(env, lock)

        def __getattr__(self, n):
            return getattr(threading, n)
    for m in threads:
        if vars(m).get('threading') is threading:
            setattr_(m, 'threading', FakeThreading())
        for n, v in list(vars(m).items()):
            if v is REAL_T['Thread']:
                setattr_(m, n, lambda *a, **k: SimThread(*a, env=env, **k))
        if vars(m).get('queue') is stdqueue:
            setattr_(m, 'queue', _FakeQueueModule(env))
    if clock:
        now = lambda: env.clock                                     # noqa: E731
        for n, v in dict(time=now, monotonic=now, perf_counter=now, time_ns=lambda: int(env.clock * 1e9), sleep=env.sleep).items():
            setattr_(time, n, v)
    try:
        yield env
    finally:
        for o, n, v in reversed(undo):
            setattr(o, n, v)


class SimLock:
    def __init__(self, env):
        self.env, self.held = env, False

    def acquire(self, blocking=True, timeout=-1):
        if not blocking:
            if self.held:
                return False
        else:
            self.env.wait(lambda: not self.held, None if timeout is None or timeout < 0 else timeout, 'lock')
            if self.held:
                return False
        self.held = True
        return True

    def release(self):
        self.held = False

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.held


class SimEvent:
    def __init__(self, env):
        self.env, self.flag = env, False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        return self.env.wait(lambda: self.flag, timeout, 'event')


class SimCondition:
    def __init__(self, env, lock=None):
        self.env, self.lock, self.tickets, self.count = env, lock or SimLock(env), [], 0
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        me = [False]
        self.tickets.append(me)
        self.lock.release()
        ok = self.env.wait(lambda: me[0], timeout, 'condition')
        if me in self.tickets:
            self.tickets.remove(me)
        self.lock.acquire()
        return ok

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout):
                return pred()
        return True

    def notify(self, n=1):
        for t in self.tickets[:n]:
            t[0] = True
        del self.tickets[:n]

    def notify_all(self):
        self.notify(len(self.tickets))


class LocalQueue:
    """queue.Queue: an item is there as soon as it is put."""
    def __init__(self, env, maxsize=0):
        self.env, self.items, self.maxsize = env, [], maxsize

    def put(self, item, block=True, timeout=None):
        if self.maxsize > 0 and len(self.items) >= self.maxsize:
            if not block or not self.env.wait(lambda: len(self.items) < self.maxsize, timeout, 'put'):
                raise stdqueue.Full
        self.items.append(item)
        self.env.yield_()

    def put_nowait(self, item):
        self.put(item, False)

    def get(self, block=True, timeout=None):
        self.env.yield_()
        if not self.items:
            if not block or not self.env.wait(lambda: bool(self.items), timeout, 'get'):
                raise stdqueue.Empty
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)

    def task_done(self):
        pass


class _FakeQueueModule:
    def __init__(self, env):
        self._env = env
        self.Queue = self.SimpleQueue = lambda maxsize=0: LocalQueue(env, maxsize)

    def __getattr__(self, n):
        return getattr(stdqueue, n)
