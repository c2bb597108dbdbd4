"""Runs a parameter set on the real Simul and keeps the full value of every output of the watched blocks after every step."""
import contextlib
import numpy as np
import yaml
from dst import world


def values(obj):
    res = {}
    for k, o in obj.outputs.items():
        its = o if isinstance(o, list) else [o]
        vals = []
        for it in its:
            try:
                v = it.get_value()
            except (NotImplementedError, AttributeError):
                v = None
            vals.append((int(it.generation_time), None if v is None else np.array(v, copy=True)))
        res[k] = vals if isinstance(o, list) else vals[0]
    return res


class Rec:
    """rec.at[block] = list over steps of {output: (generation_time, value)}; rec.t = list of step times."""
    def __init__(self):
        self.t, self.at, self.objs = [], {}, {}

    def seq(self, block, output):
        return [d[output] for d in self.at[block]]

    def fresh(self, block, output):
        """[(t, value)] at the steps where the output was refreshed."""
        return [(t, d[output][1]) for t, d in zip(self.t, self.at.get(block, [])) if d[output][0] == t]


@contextlib.contextmanager
def watching(rec, only=None, before=None, after=None):
    import specula.simul as S
    base = S.LoopControl

    class Loop(base):
        def iter(self, *a, **k):
            t = int(self.t)
            if before:
                before(self, t)
            r = super().iter(*a, **k)
            rec.t.append(t)
            for i in sorted(self.trigger_lists):
                for e in self.trigger_lists[i]:
                    rec.objs[e.name] = e
                    if only is None or e.name in only:
                        rec.at.setdefault(e.name, []).append(values(e))
            if after:
                after(self, t)
            return r
    S.LoopControl = Loop
    try:
        yield rec
    finally:
        S.LoopControl = base


def run(params, only=None, order=None, before=None, after=None, path='p.yml', overrides=None, text=None, built=None, rec=None, **kw):
    import specula.simul as S
    from dst.simrun import group_order
    if isinstance(params, dict):
        with open(path, 'w') as f:
            yaml.safe_dump(params, f, sort_keys=False)
    rec = Rec() if rec is None else rec
    with world.quiet() as buf:
        try:
            with group_order(order), watching(rec, only, before, after):
                sim = S.Simul(path, overrides=overrides, speed_report=kw.pop('speed_report', False), **kw)
                sim.run()
        finally:
            if text is not None:
                text.append(buf.getvalue())
    rec.sim = sim
    return rec


def main(nsteps, step_ns, **kw):
    # the shortest decimal that gives the wanted number of steps
    return dict({'class': 'SimulParams', 'root_dir': '.', 'total_time': nsteps * step_ns / 1e9, 'time_step': step_ns / 1e9,
                 'add_modules': ['dst_objs']}, **kw)


def close(a, b, rtol, atol=0.0):
    if (a is None) != (b is None):
        return False
    if a is None:
        return True
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))
