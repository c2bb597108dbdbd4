"""C09: an interactively acquired dark is the mean of exactly the frames requested."""
import copy
import itertools
import os
import numpy as np
from dst.core import Outcome, sut_exception
from dst.prng import Rng
from dst import bench, world
from dst.run import digest
from dst.props import c08

PROPERTY = 'C09'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=1200, budget=200), thorough=dict(cases=50000, budget=780))
RULE = ('one case = a real simulation of one dynamic dark calibrator whose frames (regular, sparse, in bursts) and commands (trigger, frame '
        'count, reset, load, save, well formed or not, several in one step, during acquisitions, with storage errors) come at steps chosen '
        'by the seed; oracle = the set of states that some sequential order of the commands of each step can give, kept by a reference '
        'model and narrowed by what is observed; every published dark, its time and every subtracted frame must belong to it; '
        'non-trivial = at least one completed acquisition; distinct = by command history')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'DynamicDarkCalibrator', 'Pixels (save and restore)'], stub=['scripted frame and command sources (dst_objs)'])
ASSUMPTIONS = ['commands of one step may be executed in any order, before the frame of that step',
               'the frame that completes an acquisition may be subtracted with the old or the new dark']
STEP = 1000000
CMDS = ['in_trigger', 'in_nframes', 'in_reset', 'in_load', 'in_save']


def generate(rng, tier, i):
    n = rng.randint(3, 45)
    fr = rng.choice(['all', 'all', 'sparse', 'period', 'burst'])
    m = rng.randint(2, 4)
    sched = [int({'all': True, 'sparse': rng.chance(0.5), 'period': k % m == 0, 'burst': k % 9 < 4}[fr]) for k in range(n)]
    c = dict(n=n, order=rng.next(), precision=rng.choice([0, 0, 1]), nframes=rng.randint(1, 5), shape=rng.choice([[3, 3], [2, 5], [4, 3]]),
             sched=sched, seed=rng.randint(1, 10**6), rebind=rng.chance(0.5), overwrite=rng.chance(0.3),
             cmds=[k for k in CMDS if k == 'in_trigger' or rng.chance(0.8)], plan=[])
    rate = rng.choice([0.05, 0.15, 0.4])
    names = ['s0', 's1', 's2.fits', 'sub/s3']
    for k in range(n):
        e = {}
        for x in c['cmds']:
            if rng.chance(rate * (1.5 if x == 'in_trigger' else 0.8)):
                bad = rng.chance(0.2)
                if bad and ('dark', x) in c08.BAD:
                    e[x] = rng.choice(c08.BAD['dark', x])
                elif x == 'in_nframes':
                    e[x] = rng.choice(['1', '2', '3', "'2'", '5', '7'])
                elif x in ('in_load', 'in_save'):
                    e[x] = repr(rng.choice(names + (['good'] if x == 'in_load' else [])))
                else:
                    e[x] = rng.choice(['1', 'None', "'x'"])
        c['plan'].append(e)
    return c


def params(c):
    p = {'main': bench.main(c['n'], STEP),
         'u': {'class': 'DstScript', 'kind': 'pixels', 'shape': c['shape'], 'seed': c['seed'], 'schedule': c['sched'], 'lo': 0.0, 'hi': 100.0, 'rebind': c['rebind']},
         'cmd': {'class': 'DstCommands', 'output_list': list(c['cmds']), 'plan': 'plan'},
         'dark': {'class': 'DynamicDarkCalibrator', 'nframes': c['nframes'], 'overwrite': c['overwrite'],
                  'inputs': dict({'in_pixels': 'u.out_pixels'}, **{x: f'cmd.{x}' for x in c['cmds']})}}
    return p


def path(root, v):
    s = str(v)
    return os.path.join(root, s if s.endswith('.fits') else s + '.fits')


def read_dark(p, shape):
    """The dark a file holds, or None if it is not a usable one."""
    from astropy.io import fits
    try:
        with fits.open(p, memmap=False) as h:
            a = np.array(h[1].data, dtype=float)
        return a if a.shape == tuple(shape) else None
    except Exception:
        return None


class State:
    __slots__ = ('nf', 'count', 'acc', 'dark', 'set', 'hist')

    def __init__(self, nf, dark):
        self.nf, self.count, self.acc, self.dark, self.set, self.hist = nf, 0, None, dark, False, []

    def copy(self):
        s = State(self.nf, self.dark)
        s.count, s.acc, s.set, s.hist = self.count, self.acc, self.set, list(self.hist)
        return s

    def key(self):
        return (self.nf, self.count, None if self.acc is None else (self.acc[0], self.acc[1].tobytes()), self.dark.tobytes(), self.set,
                tuple(h.tobytes() for h in self.hist))

    def cmd(self, x, v):
        if x == 'in_nframes':
            self.nf = v
        elif x == 'in_trigger':
            self.count, self.acc = self.nf, (self.nf, np.zeros_like(self.dark))
        else:                       # reset, load
            self.dark, self.set = v, True
            self.hist.append(v)

    def frame(self, v):
        if self.count:
            self.acc = (self.acc[0], self.acc[1] + v)
            self.count -= 1
            if self.count == 0:
                self.dark, self.set = self.acc[1] / self.acc[0], True
                self.hist.append(self.dark)
                self.acc = None
                return True
        return False


def execute(case, d):
    out = Outcome()
    c = case
    world.reset(1, c['precision'])
    from dst_objs import registry
    from dst_objs.dst_script import frame
    registry.reset()
    cm = c08.prepare('root', dict(blocks=[]))
    root = cm.root_subdir('DynamicDarkCalibrator')
    from specula.data_objects.pixels import Pixels
    px = Pixels(c['shape'][1], c['shape'][0])
    px.pixels[:] = frame(c['seed'] + 1, 0, c['shape'], 0, 50)
    px.save(path(root, 'good'), overwrite=True)
    wrong = Pixels(c['shape'][1] + 1, c['shape'][0])
    wrong.save(path(root, 'wrongshape'), overwrite=True)
    plan = [{x: c08.val(v) for x, v in e.items() if x in c['cmds']} for e in c['plan']]
    registry.HOOK['plan'] = plan
    registry.HOOK['noise'] = {'in_nframes': [1, 9], 'in_load': ['good'], 'in_save': ['noise'], 'in_trigger': [1, None], 'in_reset': [1, None]}
    disk = []                 # per step: darks that the loads of this step would find, the saved file and whether it existed

    def before(loop, t):
        e = plan[t // STEP]
        ld, sv = path(root, e.get('in_load')), path(root, e.get('in_save'))
        disk.append(dict(load=read_dark(ld, c['shape']) if 'in_load' in e else None, existed=os.path.exists(sv)))

    def after(loop, t):
        e = plan[t // STEP]
        disk[-1]['saved'] = read_dark(path(root, e.get('in_save')), c['shape']) if 'in_save' in e else None
    p = params(c)
    p['main']['root_dir'] = 'root'
    try:
        rec = bench.run(p, only=('dark',), order=Rng(c['order']), before=before, after=after)
    except Exception as e:
        sut_exception(out, e)
        return out
    out.stats['runs'] += 1
    f32 = c['precision'] == 1
    rt, at = (2e-6, 1e-4) if f32 else (1e-12, 1e-12)

    def eq(a, b):
        return bench.close(a, b, rt, at)
    states = [State(c['nframes'], np.zeros(c['shape']))]
    done = 0
    for k in range(c['n']):
        t = k * STEP
        e = plan[k]
        todo = []
        for x, v in e.items():
            if x == 'in_nframes':
                if c08.good(dict(kind='dark'), x, v) is not False:
                    todo.append((x, int(v)))
                else:
                    out.stats['fault.malformed_command'] += 1
            elif x == 'in_load':
                if disk[k]['load'] is not None and isinstance(v, str):
                    todo.append((x, disk[k]['load']))
                else:
                    out.stats['fault.bad_file_loaded'] += 1
            elif x == 'in_reset':
                todo.append((x, np.zeros(c['shape'])))
            elif x == 'in_trigger':
                todo.append((x, None))
                out.stats['probe.triggers'] += 1
        fresh = bool(c['sched'][k])
        fv = frame(c['seed'], k, c['shape'], 0.0, 100.0) if fresh else None
        gd, vd = rec.at['dark'][k]['out_darkframe']
        gs, vs = rec.at['dark'][k]['out_subtracted_pixels']
        nxt, seen = [], set()
        for s in states:
            for perm in itertools.permutations(todo):
                s2 = s.copy()
                s2.set, s2.hist = False, [s.dark]
                for x, v in perm:
                    s2.cmd(x, v)
                fin = s2.frame(fv) if fresh else False
                if not (eq(vd, s2.dark) and (gd == t) == s2.set):
                    continue
                if fresh and not any(eq(vs, fv - h) for h in s2.hist[:1] * bool(todo) + s2.hist[-1 - int(fin):]):
                    continue
                if s2.key() not in seen:
                    seen.add(s2.key())
                    nxt.append((s2, fin))
        where = f'step {k} (commands {e}, new frame {fresh})'
        if (gs == t) != fresh:
            out.fail('subtracted-time', f'{where}: subtracted frame refreshed {gs == t}')
            break
        if not nxt:
            s = states[0]
            out.fail('dark', f'{where}: dark {vd.ravel()[:3]} at {gd}, subtracted {None if vs is None else vs.ravel()[:3]}; before it the dark was '
                             f'{s.dark.ravel()[:3]}, {s.count} frames were missing; no order of the commands explains it')
            break
        if any(fin for _, fin in nxt):
            done += 1
        if 'in_save' in e:
            v = e['in_save']
            name_ok = isinstance(v, str) and v not in ('good', 'afile/x', 'dir') or (v == 'good' and c['overwrite'])
            if name_ok and (c['overwrite'] or not disk[k]['existed']):
                if disk[k]['saved'] is None or not any(eq(disk[k]['saved'], h) for s, _ in nxt for h in s.hist):
                    out.fail('save', f'{where}: the file holds {disk[k]["saved"]}, the dark is {vd}')
                    break
                out.stats['probe.saves'] += 1
            else:
                out.stats['fault.save_refused'] += 1
        states = [s for s, _ in nxt][:64]
    out.sim_time = c['n'] * STEP / 1e9
    out.stats['probe.acquisitions_completed'] += done
    out.nontrivial = done > 0
    out.digest = digest([[int(x[o][0]) for o in sorted(x)] + [[x[o][1].tolist()] for o in sorted(x)] for x in rec.at['dark']])
    out.key = digest([c['plan'], c['sched'], c['nframes']])
    return out


def reductions(c):
    for k, e in enumerate(c['plan']):
        for x in e:
            d = copy.deepcopy(c)
            del d['plan'][k][x]
            yield d
    for m in (c['n'] // 2, c['n'] - 1):
        if m > 0:
            d = copy.deepcopy(c)
            d['n'] = m
            yield d
    for a, v in (('precision', 0), ('nframes', 1), ('shape', [2, 2]), ('rebind', True), ('overwrite', False), ('sched', [1] * len(c['sched']))):
        if c[a] != v:
            d = copy.deepcopy(c)
            d[a] = v
            yield d
