"""Runs the real Simul on generated parameter files, optionally perturbing group order, optionally on several ranks."""
import contextlib
import numpy as np
import random
from dst import world
from dst_objs import registry


def run_simul(files, overrides=None, shuffle=None, **kw):
    """Single process run. Returns (simul, log)."""
    import specula.simul as S
    registry.reset()
    with world.quiet() as buf, group_order(shuffle):
        sim = S.Simul(*([files] if isinstance(files, str) else files), overrides=overrides, speed_report=kw.pop('speed_report', False), **kw)
        sim.run()
    return sim, list(registry.LOG), buf.getvalue()


@contextlib.contextmanager
def start_time(t0):
    """Simulations started at t0 seconds (an argument of LoopControl.run that the parameter files cannot set)."""
    import specula.simul as S
    if not t0:
        yield
        return
    base = S.LoopControl

    class Loop(base):
        def run(self, *a, **k):
            return super().run(*a, **dict(k, t0=t0))
    S.LoopControl = Loop
    try:
        yield
    finally:
        S.LoopControl = base


@contextlib.contextmanager
def group_order(rng):
    """Shuffle the execution order inside each trigger group, through the loop's public trigger lists."""
    import specula.simul as S
    if rng is None:
        yield
        return
    base = S.LoopControl

    class Loop(base):
        def start(self, *a, **k):
            lists = getattr(self, 'trigger_lists', None)
            if isinstance(lists, dict):
                for idx in sorted(lists):
                    if isinstance(lists[idx], list):
                        rng.shuffle(lists[idx])
            return super().start(*a, **k)
    S.LoopControl = Loop
    try:
        yield
    finally:
        S.LoopControl = base


def run_ranks(files, nranks, chooser, precision=0, delay=True, max_steps=400000, overrides=None, after=None, pre=None, **kw):
    """The same parameter files on `nranks` simulated MPI ranks.
    Returns dict(logs, status, net, sched, errors)."""
    import specula.simul as S
    from dst.sched import Sched, Deadlock, StepLimit
    from dst.simmpi import Net

    logs = [[] for _ in range(nranks)]
    sims = [None] * nranks
    states = []
    for r in range(nranks):
        states.append((np.random.RandomState(1000 + r).get_state(), random.Random(1000 + r).getstate()))

    def switch_in(t):
        r = t.ctx['rank']
        world.set_process(r, comms[r])
        np.random.set_state(states[r][0])
        random.setstate(states[r][1])
        registry.LOG[:] = []
        t.ctx['mark'] = 0

    def switch_out(t):
        r = t.ctx['rank']
        states[r] = (np.random.get_state(), random.getstate())
        logs[r].extend(registry.LOG)
        registry.LOG[:] = []

    sched = Sched(chooser, max_steps=max_steps, switch_in=switch_in, switch_out=switch_out)
    net = Net(sched, nranks, delay=delay)
    comms = net.comms()
    sched.actions.append(net.actions)

    def body(r):
        sim = S.Simul(*([files] if isinstance(files, str) else files), overrides=overrides, speed_report=False, **kw)
        sims[r] = sim
        sim.run()
        if after:
            after(r, sim)

    registry.reset()
    status, detail = 'ok', ''
    with world.quiet():
        for r in range(nranks):
            t = sched.spawn(f'rank{r}', lambda r=r: body(r))
            t.ctx['rank'] = r
        try:
            sched.run()
        except Deadlock as e:
            status, detail = 'deadlock', str(e)
        except StepLimit as e:
            status, detail = 'livelock', str(e)
        finally:
            world.set_process(None, None)
    errors = [(t.name, t.exc) for t in sched.tasks if t.exc is not None]
    return dict(logs=logs, status=status, detail=detail, net=net, sched=sched, errors=errors, sims=sims,
                finished=[t.done and t.exc is None for t in sched.tasks])
