"""Cooperative scheduler: real threads, one runs at a time, every switch decided by a seeded chooser.

A decision is an index into the list of enabled actions (runnable tasks and environment actions, in a stable order).
Decisions are recorded; a recorded (or shortened) list can be replayed: past its end the first enabled
action is taken."""
import threading
from dst.core import TaskKilled, HarnessError


class Chooser:
    """policy: 'uniform' | 'prio' | 'starve' | 'lowest' | 'fifo' ; trace: list of decisions to replay first."""

    def __init__(self, rng, policy='uniform', trace=None, change_p=0.02, starved=()):
        self.rng = rng
        self.policy = policy
        self.trace = list(trace) if trace is not None else None
        self.pos = 0
        self.rec = []
        self.prio = {}
        self.change_p = change_p
        self.starved = set(starved)
        self.points = 0

    def pick(self, names):
        n = len(names)
        if self.trace is not None:
            i = self.trace[self.pos] if self.pos < len(self.trace) else 0
            self.pos += 1
            i = i if 0 <= i < n else 0
        elif n == 1:
            i = 0
        elif self.policy == 'lowest':
            i = 0
        elif self.policy == 'uniform':
            i = self.rng.randint(0, n - 1)
        else:
            if self.policy == 'starve':
                ok = [k for k in range(n) if names[k] not in self.starved]
                if ok and self.rng.random() >= 0.03:        # slow, not dead
                    i = self.rng.choice(ok)
                else:
                    i = self.rng.randint(0, n - 1)
            else:   # prio: random priorities with change points (PCT)
                for nm in names:
                    if nm not in self.prio:
                        self.prio[nm] = self.rng.random()
                i = max(range(n), key=lambda k: self.prio[names[k]])
                if self.rng.random() < self.change_p:
                    self.prio[names[i]] = self.rng.random() * min(self.prio.values())
        if n > 1:
            self.points += 1
        self.rec.append(i)
        return i


class Task:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.cond = None          # callable -> bool when blocked
        self.why = ''
        self.done = False
        self.exc = None
        self.killed = False
        self.thread = None
        self.ctx = {}


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class Sched:
    def __init__(self, chooser, max_steps=200000, switch_in=None, switch_out=None):
        self.ch = chooser
        self.tasks = []
        self.actions = []          # callables returning list of (name, fn) environment actions
        self.current = None
        self.main_sem = threading.Semaphore(0)
        self.max_steps = max_steps
        self.steps = 0
        self.switch_in = switch_in
        self.switch_out = switch_out
        self.stop_when = None
        self.order = []            # sequence of task/action names, the interleaving

    def spawn(self, name, fn, daemon=False):
        t = Task(name, fn)
        t.daemon = daemon
        self.tasks.append(t)

        def body():
            t.sem.acquire()
            try:
                if not t.killed:
                    t.fn()
            except TaskKilled:
                pass
            except BaseException as e:
                t.exc = e
            t.done = True
            self.main_sem.release()

        t.thread = threading.Thread(target=body, daemon=True)
        t.thread.start()
        return t

    # called from inside a task -------------------------------------------------
    def _park(self):
        t = self.current
        self.main_sem.release()
        t.sem.acquire()
        if t.killed:
            raise TaskKilled()

    def yield_(self):
        t = self.current
        if t is None or threading.current_thread() is not t.thread:
            return
        t.cond = None
        self._park()

    def wait(self, cond, why=''):
        t = self.current
        if t is None or threading.current_thread() is not t.thread:
            if not cond():
                raise HarnessError('wait() outside a task: ' + why)
            return
        t.cond = cond
        t.why = why
        self._park()
        t.cond = None

    # main loop -------------------------------------------------------------------
    def _run_task(self, t):
        self.current = t
        if self.switch_in:
            self.switch_in(t)
        t.sem.release()
        self.main_sem.acquire()
        if self.switch_out:
            self.switch_out(t)
        self.current = None

    def run(self):
        """Runs until all non-daemon tasks are done. Raises Deadlock / StepLimit."""
        try:
            while True:
                if self.stop_when and self.stop_when():
                    return
                if all(t.done for t in self.tasks if not t.daemon):
                    return
                enabled = [(t.name, t) for t in self.tasks
                           if not t.done and (t.cond is None or t.cond())]
                for src in self.actions:
                    enabled.extend(src())
                if not enabled:
                    raise Deadlock('; '.join(f'{t.name} waits for {t.why}' for t in self.tasks if not t.done))
                self.steps += 1
                if self.steps > self.max_steps:
                    raise StepLimit(f'no completion within {self.max_steps} scheduling steps; ' +
                                    '; '.join(f'{t.name}: {t.why}' for t in self.tasks if not t.done))
                name, what = enabled[self.ch.pick([e[0] for e in enabled])]
                self.order.append(name)
                if isinstance(what, Task):
                    what.cond = None
                    self._run_task(what)
                    if what.exc is not None and not what.daemon:
                        return
                else:
                    what()
        finally:
            self.kill_all()

    def kill_all(self):
        for t in self.tasks:
            n = 0
            while not t.done:
                n += 1
                if n > 1000:
                    raise HarnessError(f'task {t.name} does not die')
                t.killed = True
                self._run_task(t)
