"""C08: interactive inputs are applied once, in order, and bad ones never stop the run."""
import builtins
import copy
import os
import sys
import numpy as np
from dst.core import Outcome, sut_exception
from dst.prng import Rng
from dst.sched import Chooser, Deadlock, StepLimit
from dst import bench, simq, world
from dst.run import digest

PROPERTY = 'C08'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=900, budget=200), thorough=dict(cases=40000, budget=780))
RULE = ('one case = a real simulation with one or two interactive sources (SpeculaInput subclasses and the terminal) steering adjustable '
        'blocks; the input processes, the queue feeders and the simulation are tasks of the seeded scheduler, the user messages include '
        'malformed ones, the sources die, close or stay silent; oracle = the queue history (first-in first-out, everything that had '
        'arrived at the beginning of a step is used in that step, last value wins) and a twin run in which the valid commands alone are '
        'played by a plain block, which also changes the values between the commands; non-trivial = at least one valid message used; distinct = by interleaving')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'SpeculaInput', 'TerminalInput', 'terminal_task', 'DynamicIntegrator', 'DynamicIirFilter',
                        'DynamicDarkCalibrator', 'DynamicPyrPupdataCalibrator', 'Pixels/PupData storage'],
                  stub=['multiprocessing queue and process (dst/simq.py)', 'standard input', 'scripted frame and command sources'])
ASSUMPTIONS = ['a bare terminal command (no value) is the value False, as the terminal sends it',
               'thresholds outside [0, 1] and frame counts with a fractional part are not classified as malformed']
FIXED = []

VALID = {
    ('int', 'int_gain'): ["0.3", "'0.4'", "0.0", "-0.2", "1", "False", "'0'"],
    ('int', 'reset'): ["1", "None", "'x'", "False"],
    ('iir', 'int_gain'): ["0.3", "'0.4'", "[0.1, 0.5]", "np.array([0.2, 0.3])", "0.0", "[0.7]"],
    ('iir', 'reset'): ["1", "None", "'x'", "False"],
    ('dark', 'in_trigger'): ["1", "None", "'go'", "False"],
    ('dark', 'in_nframes'): ["1", "2", "3", "'2'", "'4'", "5", "7"],
    ('dark', 'in_reset'): ["1", "False"],
    ('dark', 'in_load'): ["'good'", "'good.fits'"],
    ('dark', 'in_save'): ["'s1'", "'s2.fits'", "'sub/s3'"],
    ('pyr', 'in_dt'): ["0.002", "'0.003'", "0.001"],
    ('pyr', 'in_thr1'): ["0.1", "'0.3'", "0.2"],
    ('pyr', 'in_thr2'): ["0.25", "'0.5'"],
    ('pyr', 'in_output_tag'): ["'tagA'", "'tagB'"],
    ('pyr', 'in_save'): ["'p1'", "'p2'", "False"],
}
BAD = {
    ('int', 'int_gain'): ["'abc'", "None", "[0.1, 0.2]", "{}", "'nan'", "nan", "''", "(1,)"],
    ('iir', 'int_gain'): ["'abc'", "[1.0, 'x']", "{}", "nan", "[nan, nan]", "''", "[[1.0], [2.0, 3.0]]"],
    ('dark', 'in_nframes'): ["'abc'", "0", "-3", "None", "[]", "'0'", "'2.5'", "nan", "inf", "{}"],
    ('dark', 'in_load'): ["'missing'", "'corrupt'", "'wrongshape'", "'empty'", "None", "5", "[1]", "'dir'", "'truncated'"],
    ('dark', 'in_save'): ["'good'", "'afile/x'", "5", "['a']", "'dir'"],
    ('pyr', 'in_dt'): ["'x'", "0", "-1", "None", "1e-12", "[]", "'0'", "nan", "inf", "{}"],
    ('pyr', 'in_thr1'): ["'x'", "None", "[]", "{}"],
    ('pyr', 'in_thr2'): ["'x'", "None", "[]", "{}"],
    ('pyr', 'in_output_tag'): ["None", "5", "['a']", "''", "False"],
    ('pyr', 'in_save'): ["5", "['a']", "'afile/x'", "'taken'"],
}
JUNK = ["None", "5", "(1, 2, 3)", "('{n}',)", "([1], 2)", "({{}}, 1)", "('unknown', 1)", "'xy'", "('{n} ', 1)", "[]", "(None, 1)", "(5, 5)", "''"]
INPUTS = {'int': ['int_gain', 'reset'], 'iir': ['int_gain', 'reset'],
          'dark': ['in_trigger', 'in_nframes', 'in_reset', 'in_load', 'in_save'],
          'pyr': ['in_dt', 'in_thr1', 'in_thr2', 'in_output_tag', 'in_save']}
STEP = 1000000
ENV = {'nan': float('nan'), 'inf': float('inf'), 'np': np, '__builtins__': {}}


def val(s):
    return eval(s, dict(ENV), {'None': None, 'True': True, 'False': False})


def generate(rng, tier, i):
    n = rng.randint(3, 25)
    c = dict(n=n, order=rng.next(), sched_seed=rng.next(), policy=rng.choice(['uniform', 'uniform', 'prio', 'starve']), blocks=[], sources=[])
    kinds = rng.sample(['int', 'iir', 'dark', 'pyr'], rng.weighted([(1, 3), (2, 2), (3, 1)]))
    for k in kinds:
        c['blocks'].append(dict(kind=k, seed=rng.randint(1, 10**6), sched=[int(rng.chance(rng.choice([1.0, 0.6]))) for _ in range(n)],
                                overwrite=rng.chance(0.3)))
    nsrc = rng.weighted([(1, 3), (2, 2)])
    chan = [(b, k, x) for b, k in enumerate(kinds) for x in INPUTS[k] if rng.chance(0.85)] or [(0, kinds[0], INPUTS[kinds[0]][0])]
    for s in range(nsrc):
        term = (s == 0 and rng.chance(0.4))
        mine = [x for j, x in enumerate(chan) if j % nsrc == s]
        if not mine:
            continue
        src = dict(term=term, names=[[f'c{b}{x}', b, x] for b, _, x in mine], msgs=[], end=rng.choice(['close', 'silent', 'die', 'silent']),
                   lead=rng.choice([0, 0, 3, 20]), gap=rng.choice([0, 0, 1, 4]))
        kind = {f'c{b}{x}': (k, x) for b, k, x in mine}
        for _ in range(rng.randint(1, 14)):
            nm = rng.choice(src['names'])[0]
            k = kind[nm]
            r = rng.random()
            if term:
                if r < 0.15:
                    src['msgs'].append([nm, rng.choice(['', '   ', 'a b c', 'help', 'unknown 1', 'unknown', '!decode', f'{nm} 1 2', '0.5', f'{nm}=3', '\x00', 'é ü'])])
                    continue
                bad = r < 0.5 and k in BAD
                vs = [v for v in (BAD if bad else VALID)[k] if v.startswith("'") and ' ' not in v and len(v) > 2] + ([''] if k in (('int', 'reset'), ('iir', 'reset'), ('dark', 'in_trigger'), ('dark', 'in_reset')) else [])
                if not vs:
                    continue
                v = rng.choice(vs)
                src['msgs'].append([nm, (rng.choice([f'{nm} {{}}', f'  {nm}   {{}} ', f'{nm}\t{{}}'])).format(v.strip("'"))])
            elif r < 0.15:
                src['msgs'].append([nm, 'raw:' + rng.choice(JUNK).format(n=nm)])
            else:
                src['msgs'].append([nm, rng.choice((BAD if r < 0.5 and k in BAD else VALID)[k])])
        c['sources'].append(src)
    return c


PUP = None


def pup_frames():
    """Two four-pupil images, flattened."""
    global PUP
    if PUP is None:
        y, x = np.mgrid[0:20, 0:20]
        PUP = []
        for j, (r, ctr) in enumerate([(3.2, 5), (3.9, 4.5)]):
            im = np.full((20, 20), 0.01)
            for a, b in ((ctr, ctr), (ctr, 10 + ctr), (10 + ctr, ctr), (10 + ctr, 10 + ctr)):
                d = np.hypot(y - a, x - b)
                im[d <= r] = 1.0 - 0.5 * (d[d <= r] / r) ** 2
            PUP.append(np.round(im, 4).tolist())
    return PUP


def params(c, root, twin):
    p = {'main': bench.main(c['n'], STEP, root_dir=root)}
    for b, f in enumerate(c['blocks']):
        k = f['kind']
        nm = f'b{b}'
        ins = {}
        for s, src in enumerate(c['sources']):
            for name, bb, x in src['names']:
                if bb == b:
                    ins[x] = f'in{s}.{name}'
        if k in ('int', 'iir'):
            p[f'u{b}'] = {'class': 'DstScript', 'kind': 'value', 'shape': [2], 'seed': f['seed'], 'schedule': f['sched']}
            ins['delta_comm'] = f'u{b}.out'
            if k == 'int':
                p[nm] = {'class': 'DynamicIntegrator', 'simul_params_ref': 'main', 'int_gain': [0.5, 0.4], 'n_modes': [1, 1], 'delay': 1}
            else:
                p[f'd{b}'] = {'class': 'IirFilterData', 'ordnum': [2, 2], 'ordden': [2, 2], 'num': [[0.0, 0.5]] * 2, 'den': [[-1.0, 1.0], [-0.9, 1.0]]}
                p[nm] = {'class': 'DynamicIirFilter', 'simul_params_ref': 'main', 'iir_filter_data_ref': f'd{b}', 'delay': 0.5}
        elif k == 'dark':
            p[f'u{b}'] = {'class': 'DstScript', 'kind': 'pixels', 'shape': [4, 4], 'seed': f['seed'], 'schedule': f['sched'], 'lo': 0.0, 'hi': 100.0}
            ins['in_pixels'] = f'u{b}.out_pixels'
            p[nm] = {'class': 'DynamicDarkCalibrator', 'nframes': 2, 'overwrite': False}
        else:
            p[f'u{b}'] = {'class': 'DstScript', 'kind': 'light', 'shape': [20, 20], 'seed': f['seed'], 'schedule': f['sched'], 'values': pup_frames()}
            ins['in_i'] = f'u{b}.out_i'
            p[nm] = {'class': 'DynamicPyrPupdataCalibrator', 'output_tag': 'final', 'overwrite': f['overwrite'], 'save_on_exit': f['overwrite']}
        p[nm]['inputs'] = ins
    for s, src in enumerate(c['sources']):
        ol = [x[0] for x in src['names']]
        if twin:
            p[f'in{s}'] = {'class': 'DstCommands', 'output_list': ol, 'plan': f'plan{s}'}
        elif src['term']:
            p[f'in{s}'] = {'class': 'TerminalInput', 'output_list': ol}
        else:
            p[f'in{s}'] = {'class': 'DstInput', 'output_list': ol, 'task': f'task{s}'}
    return p


class Stdin:
    def __init__(self, env, src, log, src_idx):
        self.env, self.src, self.i, self.log, self.lead = env, src, 0, log, src['lead']

    def readline(self, *a):
        for _ in range(self.lead + self.src['gap']):
            self.env.yield_()
        self.lead = 0
        self.env.yield_()
        if self.i < len(self.src['msgs']):
            ln = self.src['msgs'][self.i][1]
            self.i += 1
            self.log.append(ln)
            if ln == '!decode':
                self.env.stats['fault.undecodable_line'] += 1
                raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte')
            return ln + '\n'
        if self.src['end'] == 'close':
            self.env.stats['fault.stdin_closed'] += 1
            return ''
        if self.src['end'] == 'die':
            self.env.stats['fault.input_process_died'] += 1
            raise SystemExit(3)
        self.env.stats['fault.silent_input'] += 1
        self.env.wait(lambda: False, why='silent terminal')

    def __iter__(self):
        return iter(self.readline, '')

    def read(self, *a):
        return self.readline()

    def close(self):
        pass

    def flush(self):
        pass

    def isatty(self):
        return False


def producer(env, src):
    def task(q):
        for _ in range(src['lead']):
            env.yield_()
        for nm, m in src['msgs']:
            for _ in range(src['gap']):
                env.yield_()
            q.put(val(m[4:]) if m.startswith('raw:') else (nm, val(m)))
            env.stats['probe.messages_sent'] += 1
        if src['end'] == 'die':
            env.stats['fault.input_process_died'] += 1
            raise RuntimeError('input process died')
        if src['end'] == 'silent':
            env.stats['fault.silent_input'] += 1
            env.wait(lambda: False, why='silent user')
    return task


def terminal_items(lines):
    res = []
    for ln in lines:
        t = ln.split()
        if ln == '!decode' or len(t) not in (1, 2) or t == ['help']:
            continue
        res.append((t[0], False if len(t) == 1 else t[1]))
    return res


def good(f, x, v):
    """True: valid, False: malformed, for the value as it arrives."""
    r, kind = repr(v), f['kind']
    if (kind, x, v) == ('pyr', 'in_save', 'taken') and f['overwrite']:
        return True
    for tab, res in ((VALID, True), (BAD, False)):
        if any(repr(val(s)) == r for s in tab.get((kind, x), [])):
            return res
    return VALID.get((kind, x)) is not None and x in ('reset', 'in_trigger', 'in_reset')


def prepare(root, c):
    os.makedirs(os.path.join(root))
    from specula.calib_manager import CalibManager
    from specula.data_objects.pixels import Pixels
    from astropy.io import fits
    cm = CalibManager(root)
    for cls in ('DynamicDarkCalibrator', 'DynamicPyrPupdataCalibrator'):
        d = cm.root_subdir(cls)
        os.makedirs(d, exist_ok=True)
        for nm, n, fill in (('good', 4, 7.0), ('wrongshape', 3, 1.0)):
            px = Pixels(n, n)
            px.pixels[:] = np.arange(n * n).reshape(n, n) + fill
            px.save(os.path.join(d, nm + '.fits'), overwrite=True)
        with open(os.path.join(d, 'good.fits'), 'rb') as f:
            b = f.read()
        for nm, data in (('corrupt.fits', b'not a fits file' * 10), ('empty.fits', b''), ('truncated.fits', b[:2880 + 100]), ('afile', b'x'), ('taken.fits', b'mine')):
            with open(os.path.join(d, nm), 'wb') as f:
                f.write(data)
        os.makedirs(os.path.join(d, 'dir.fits'), exist_ok=True)
    return cm


def files(root):
    res = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                res[os.path.relpath(p, root)] = h.read()
    return res


def snapshot(log, c):
    from dst_objs.dst_probe import content
    from specula.base_value import BaseValue

    def after(loop, t):
        row = {}
        for i in sorted(loop.trigger_lists):
            for e in loop.trigger_lists[i]:
                if e.name[0] == 'b':
                    for k, o in e.outputs.items():
                        body = repr(o.value) if isinstance(o, BaseValue) else content(o)
                        row[f'{e.name}.{k}'] = (None if k == 'out_params' else int(o.generation_time), body)
                elif e.name.startswith('in'):
                    for k, o in e.outputs.items():
                        row[f'{e.name}.{k}'] = (int(o.generation_time), o.value)
        log.append((t, row))
    return after


def execute(case, d):
    out = Outcome()
    c = case
    world.reset(1)
    from dst_objs import registry
    import specula.processing_objects.terminal_input as TI
    registry.reset()
    n = c['n']
    starved = []
    if c['policy'] == 'starve':
        starved = [['sim'], ['process-0'], ['process-0', 'process-1']][c['sched_seed'] % 3]
    ch = Chooser(Rng(c['sched_seed']), c['policy'], c.get('_trace'), starved=starved)
    env = simq.Env(ch, max_steps=60000)
    for s, src in enumerate(c['sources']):
        registry.HOOK[f'task{s}'] = producer(env, src)
    prepare('a', c)
    prepare('b', c)
    lines, real_log, ref_log = [], [], []

    def taken():
        return [q.got for q in env.queues]

    marks = []

    def before(loop, t):
        env.yield_()
        marks.append((taken(), [len(q.pipe) for q in env.queues], env.clock))

    rec_items = {}

    stdin, had_open = sys.stdin, 'open' in vars(TI)
    TI.TerminalInput._instance = None
    term = next((s for s in c['sources'] if s['term']), None)
    old_get = simq.SimQueue.get

    def get(self, block=True, timeout=None):
        v = old_get(self, block, timeout)
        rec_items.setdefault(self.name, []).append((len(marks) - 1, v))
        return v
    err, blockers = None, []

    def main():
        bench.run(params(c, 'a', False), only=(), order=Rng(c['order']), before=before, after=snapshot(real_log, c))
        for p, src in zip(env.procs, c['sources']):
            if p.started and not p.daemon and p.is_alive() and src['end'] == 'silent':
                blockers.append(f'process {p.name} waits for its user and is not a daemon')
        blockers.extend(b for b in env.exit_blockers() if 'queue' in b)
    with simq.installed(env, threads=(TI,)):
        simq.SimQueue.get = get
        if term:
            TI.open = lambda *a, **k: Stdin(env, term, lines, 0)
        try:
            env.run(main)
        except (Deadlock, StepLimit) as e:
            out.fail('stalled', f'the simulation does not proceed: {e}')
        except Exception as e:
            err = e
        finally:
            simq.SimQueue.get = old_get
            sys.stdin = stdin
            if term and not had_open:
                del TI.open
            TI.TerminalInput._instance = None
    out.trace = ch.rec
    out.stats.update(env.stats)
    out.stats['runs'] += 1
    out.key = digest(env.sched.order)
    out.sim_time = len(real_log) * STEP / 1e9
    if err is not None:
        sut_exception(out, err)
    if out.violations:
        return out
    if len(real_log) != n:
        out.fail('steps', f'{len(real_log)} steps instead of {n}')
        return out
    # every message that had arrived when the step began is used in that step
    marks.append((taken(), None, None))
    for k in range(n):
        for j, m in enumerate(marks[k][0]):
            avail, used = marks[k][1][j], marks[k + 1][0][j] - m
            if used < avail:
                out.fail('late', f'step {k}: {avail} messages had arrived and only {used} were used')
    if term and env.queues:
        want = terminal_items(lines)
        qi = [s['term'] for s in c['sources']].index(True)
        q = env.queues[qi]
        have = [v for _, v in rec_items.get(q.name, [])] + [__import__('pickle').loads(b) for b in q.pipe] + list(q.buf)
        task = env.procs[qi].task
        # a line whose handling has not finished may be missing
        if have != want and have != want[:-1]:
            out.fail('terminal', f'lines {lines} gave the messages {have}')
    for w in blockers:
        out.fail('exit-blocked', 'the program cannot exit: ' + w)
    # the commands in the order and at the steps they were used
    valid = 0
    last = {}
    noise = registry.HOOK['noise'] = {}
    for s, src in enumerate(c['sources']):
        kind = {nm: (c['blocks'][b], x) for nm, b, x in src['names']}
        plan = [{} for _ in range(n)]
        shown = [{} for _ in range(n)]
        for k, item in rec_items.get(env.queues[s].name, []) if s < len(env.queues) else []:
            try:
                nm, v = item
                ok = nm in kind
            except (TypeError, ValueError):
                ok = False
            if not ok:
                out.stats['fault.malformed_message'] += 1
                continue
            shown[k][nm] = v
        for k in range(n):
            for nm, v in shown[k].items():
                if good(*kind[nm], v):
                    plan[k][nm] = v
                    valid += 1
                else:
                    out.stats['fault.malformed_value'] += 1
        registry.HOOK[f'plan{s}'] = plan
        for nm, (f, x) in kind.items():
            vs = [val(v) for v in VALID[f['kind'], x]]
            noise[nm] = [vs[(f['seed'] + 3 * j) % len(vs)] for j in range(7)]
        for k in range(n):
            t, row = real_log[k]
            for nm in kind:
                if nm in shown[k]:
                    last[s, nm] = (t, shown[k][nm])
                g, v = row[f'in{s}.{nm}']
                eg, ev = last.get((s, nm), (-1, None))
                if (nm in shown[k]) != (g == t) or ((s, nm) in last and (g != eg or repr(v) != repr(ev))):
                    out.fail('delivery', f'step {k}: in{s}.{nm} is {v!r} at {g}, expected {ev!r} at {eg}')
    if out.violations:
        return out
    try:
        bench.run(params(c, 'b', True), only=(), order=Rng(c['order']), after=snapshot(ref_log, c))
    except Exception as e:
        sut_exception(out, e, 'reference-aborted')
        return out
    for (t, a), (_, b) in zip(real_log, ref_log):
        for k in sorted(a):
            if k[0] == 'b' and a[k] != b[k] and not (k.endswith('out_params') and b[k][1] == 'None'):    # status not published yet
                out.fail('effect', f'step {t // STEP}: {k} is {a[k]}, with the valid commands alone {b[k]}')
                break
        if out.violations:
            break
    fa, fb = files('a'), files('b')
    if not out.violations and fa != fb:
        out.fail('files', f'files differ from the run with the valid commands alone: {sorted(k for k in set(fa) | set(fb) if fa.get(k) != fb.get(k))}')
    out.nontrivial = valid > 0
    out.stats['probe.valid_commands'] += valid
    out.digest = digest([env.sched.order, [[t, sorted((k, str(v)) for k, v in r.items())] for t, r in real_log]])
    return out


def reductions(c):
    for s, src in enumerate(c['sources']):
        for m in range(len(src['msgs'])):
            d = copy.deepcopy(c)
            del d['sources'][s]['msgs'][m]
            d.pop('_trace', None)
            yield d
        for a, v in (('lead', 0), ('gap', 0), ('end', 'silent')):
            if src[a] != v:
                d = copy.deepcopy(c)
                d['sources'][s][a] = v
                d.pop('_trace', None)
                yield d
    if c['n'] > 2:
        for m in (c['n'] // 2, c['n'] - 1):
            d = copy.deepcopy(c)
            d['n'] = m
            yield d
    if c['policy'] != 'lowest':
        d = copy.deepcopy(c)
        d['policy'] = 'lowest'
        d.pop('_trace', None)
        yield d
