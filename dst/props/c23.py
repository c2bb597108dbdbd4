"""C23: generators and input players follow the simulated time axis."""
import copy
import os
import numpy as np
from dst.core import Outcome
from dst.prng import Rng
from dst import bench, world, forked
from dst.run import digest
from dst.simrun import start_time
from dst.props.c18 import irregular

PROPERTY = 'C23'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=700, budget=150), thorough=dict(cases=60000, budget=700))
RULE = ('one case = a real simulation with one to five generators or input players (waves, schedules, time histories, vibrations, random '
        'values, phase screen cubes, random phase screens), a time step, length and start time chosen by the seed (run lengths that are no '
        'multiple of the step, long steps, changes scheduled exactly at a step), in a random group order, with the shared random state of the '
        'process disturbed between steps, possibly a second time in the same process; oracle = the formula of each generator evaluated at the '
        'exact integer time of each step, or, for random streams, the generator alone in a fresh process; non-trivial = three steps judged')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'WaveGenerator', 'ScheduleGenerator', 'TimeHistoryGenerator', 'VibrationGenerator', 'RandomGenerator',
                        'PhaseScreenCube', 'AtmoRandomPhase', 'TimeHistory', 'SpatioTempArray', 'phasescreen_manager'],
                  stub=['scripted seeing source (dst_objs/dst_script.py)'])
ASSUMPTIONS = ['square waves are not judged within the rounding error of a sign change',
               'the spectrum of vibrations is judged as a whole (power and band), not sample by sample']
STEPS = [1000000, 500000, 333333, 2000000, 1250000, 700000, 100000, 1000000000, 30000000000]
KINDS = ['wave', 'wave', 'schedule', 'schedule', 'history', 'vibration', 'random', 'cube', 'screens']


# ------------------------------------------------------------------------------------------------ generation
def vec(rng, n, lo, hi, digits=3):
    v = [rng.nice(lo, hi, digits) for _ in range(max(n, 1))]
    return v if n else v[0]


def generate(rng, tier, i):
    long = rng.chance(0.15)
    n = rng.randint(24, 70) if long else rng.randint(2, 16)
    step = rng.choice(STEPS)
    c = dict(n=n, step=step, tail=rng.choice([0, 0, 0, 1, step // 2, step - 1]), precision=rng.choice([0, 1, 1]),
             t0=rng.choice([0, 0, 0, 0, 3, 7]), order=rng.next() & 0xffffffff, twice=rng.chance(0.25), disturb=rng.next() & 0xffffff,
             npx=8, zenith=rng.choice([0.0, 0.0, 30.0]), mask=rng.choice([0.0, 0.3]), gens=[])
    end = c['t0'] + n
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(KINDS)
        m = rng.choice([0, 0, 1, 2, 3])
        if k == 'wave':
            g = dict(kind=k, wave_type=rng.choice(['SIN', 'SQUARE', 'TRIANGLE', 'sin', 'Triangle']),
                     freq=vec(rng, m, 0.001, 0.6, 4) if m else rng.choice([0.0, 0.25, 0.125, rng.nice(0.001, 0.6, 4)]))
            f = 1e9 / step
            g['freq'] = [x * f for x in g['freq']] if m else g['freq'] * f
            for key, lo, hi in (('amp', 0.1, 50), ('offset', -3, 3), ('constant', -20, 20), ('slope', -1, 1)):
                if rng.chance(0.6):
                    g[key] = vec(rng, m if rng.chance(0.7) else 0, lo, hi)
            if 'slope' in g:
                g['slope'] = [x * f for x in g['slope']] if isinstance(g['slope'], list) else g['slope'] * f
            if m == 0 and not any(isinstance(v, list) for v in g.values()):
                g.update(rng.choice([{}, {}, dict(vsize=3), dict(output_size=4)]))
        elif k == 'schedule':
            nt = rng.randint(0, 5)
            times = []
            for _ in range(nt):
                q = rng.randint(max(c['t0'] - 1, 0), end + 1) * step
                times.append(max(0, q + rng.choice([0, 0, 0, 0, 1, -1, step // 2, rng.randint(0, step)])))
            times = sorted(times)
            if nt > 1 and rng.chance(0.15):
                times[1] = times[0]
            per = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
            g = dict(kind=k, times=times, per=per, values=[[rng.nice(-5, 5) for _ in per] for _ in range(nt + 1)])
        elif k == 'history':
            rows = rng.choice([1, 2, n - 1, n, n + 1, rng.randint(1, n + 3)])
            g = dict(kind=k, rows=max(1, rows), cols=rng.choice([0, 1, 3]), seed=rng.randint(1, 10**6), ints=rng.chance(0.2))
        elif k == 'vibration':
            np_ = rng.randint(3, 12)
            modes = rng.randint(1, 3)
            g = dict(kind=k, nmodes=modes, seed=rng.randint(1, 5000), zero=rng.chance(0.5), two_d=rng.chance(0.5),
                     np=np_, psd=[rng.choice(['flat', 'band', 'none', 'rough']) for _ in range(modes + rng.choice([0, 0, 1]))], level=rng.choice([1.0, 1e-3, 2500.0]))
        elif k == 'random':
            g = dict(kind=k, distribution=rng.choice(['NORMAL', 'UNIFORM', 'normal', 'uniform']), seed=rng.randint(1, 10**6))
            u = rng.chance(0.3)
            if u:
                g.update(modal_rms=rng.nice(0.5, 100), output_size=rng.randint(2, 12), scaling_law=rng.choice(['CONSTANT', 'INVERSE', 'LINEAR', 'inverse']))
                g['forced_zero_modes'] = rng.randint(0, g['output_size'])
            else:
                g['amp'] = vec(rng, m, 0.1, 20)
                if rng.chance(0.6):
                    g['constant'] = vec(rng, m if rng.chance(0.6) else 0, -30, 30)
                if m == 0:
                    g.update(rng.choice([{}, dict(vsize=4), dict(output_size=5)]))
        elif k == 'cube':
            T = rng.randint(2, 6)
            a, b = c['t0'] * step, (end - 1) * step
            lo = a if rng.chance(0.5) else a - rng.randint(0, 2 * step)
            hi = b + rng.choice([0, 1, step, 3 * step])
            r = rng.random()
            if r < 0.1:
                hi = a + rng.randint(0, max(1, b - a))         # too short
            elif r < 0.15:
                lo = a + rng.randint(1, step)                  # starts too late
            inner = sorted({rng.choice([rng.randint(lo, max(hi, lo + 2)), rng.randint(c['t0'], end - 1) * step]) for _ in range(T - 2)})
            tv = sorted({lo, *[x for x in inner if lo < x < hi], max(hi, lo + 1)})
            g = dict(kind=k, tv=tv, dim=rng.choice([8, 8, 8, 10]), seed=rng.randint(1, 10**6), axis=rng.choice([0, -1]), scale=rng.choice([1.0, 1.0, 0.7, -2.0]),
                     src=rng.chance(0.4))
        else:
            g = dict(kind=k, seed=rng.randint(1, 500), L0=rng.choice([5.0, 25.0]), pixels=rng.choice([8, 16, 16, 32]), interval=rng.choice([1, 1, 2, 3, 4]),
                     wl=rng.choice([500.0, 750.0, 2200.0]), src=rng.chance(0.4), sched=irregular(rng, n), vseed=rng.randint(1, 10**6), zero=rng.chance(0.1),
                     every=rng.chance(0.5))
        c['gens'].append(g)
    return c


def total(c):
    """Length of the run in ns; it has n steps in any case."""
    return c['n'] * c['step'] if not c['tail'] or c['n'] < 2 else (c['n'] - 1) * c['step'] + c['tail']


def psd_of(g, fs):
    """(freq, psd): common grid from 0 to half the sampling frequency."""
    f = np.linspace(0, fs / 2, g['np'])
    r = np.random.RandomState(g['seed'] % 100003 + 5)
    rows = []
    for kind in g['psd']:
        if kind == 'flat':
            p = np.ones(g['np'])
        elif kind == 'band':
            p = np.zeros(g['np'])
            p[r.randint(g['np'])] = 1.0
        elif kind == 'none':
            p = np.zeros(g['np'])
        else:
            p = r.uniform(0, 1, g['np'])
        rows.append(p * g['level'])
    return f, np.array(rows)


def history(g):
    r = np.random.RandomState(g['seed'])
    v = r.uniform(-10, 10, (g['rows'], g['cols']) if g['cols'] else g['rows'])
    return np.round(v) if g['ints'] else v


def planes(g):
    return np.random.RandomState(g['seed']).uniform(-100, 100, (len(g['tv']), g['dim'], g['dim']))


def seeing(c, g):
    """(schedule, values) of the seeing of a random phase screen generator."""
    s = [1] * c['n'] if g['every'] else g['sched']
    v = np.round(np.random.RandomState(g['vseed']).uniform(0.3, 2.0, c['n']), 3)
    if g['zero']:
        v[g['vseed'] % c['n']] = 0.0
    return s, [[float(x)] for x in v]


def params(c, only=None, n=None):
    p = dict(main=bench.main(1, c['step'], pixel_pupil=c['npx'], pixel_pitch=0.05, zenithAngleInDeg=c['zenith']))
    p['main']['total_time'] = total(c) / 1e9 if n is None else n * c['step'] / 1e9
    for k, g in enumerate(c['gens']):
        if only is not None and k not in only:
            continue
        name, kind = f'g{k}', g['kind']
        if kind == 'wave':
            p[name] = {'class': 'WaveGenerator', **{a: b for a, b in g.items() if a != 'kind'}}
        elif kind == 'schedule':
            p[name] = {'class': 'ScheduleGenerator', 'scheduled_values': g['values'], 'scheduled_times': [t / 1e9 for t in g['times']], 'modes_per_group': g['per']}
        elif kind == 'history':
            p[f'h{k}'] = {'class': 'TimeHistory', 'time_history': history(g).tolist()}
            p[name] = {'class': 'TimeHistoryGenerator', 'time_hist_ref': f'h{k}'}
        elif kind == 'vibration':
            f, psd = psd_of(g, 1e9 / c['step'])
            fr = np.tile(f, (g['nmodes'], 1)).T if g['two_d'] else f
            p[name] = {'class': 'VibrationGenerator', 'simul_params_ref': 'main', 'nmodes': g['nmodes'], 'psd': psd.tolist(), 'freq': fr.tolist(),
                       'seed': g['seed'], 'start_from_zero': g['zero']}
        elif kind == 'random':
            p[name] = {'class': 'RandomGenerator', **{a: b for a, b in g.items() if a != 'kind'}}
        elif kind == 'cube':
            a = planes(g)
            p[f'h{k}'] = {'class': 'SpatioTempArray', 'array': (a if g['axis'] == 0 else np.moveaxis(a, 0, -1)).tolist(),
                          'time_vector': [t / 1e9 for t in g['tv']], 'time_axis': g['axis']}
            p[name] = {'class': 'PhaseScreenCube', 'simul_params_ref': 'main', 'cube_ref': f'h{k}', 'pixel_scale': 0.05 * c['npx'] / g['dim'] if g['dim'] == 10 else 0.05,
                       'scale_factor': g['scale'], 'inputs': {'pupilstop': 'pup'}}
        else:
            s, v = seeing(c, g)
            p[f'h{k}'] = {'class': 'DstScript', 'kind': 'value', 'shape': [1], 'schedule': s, 'values': v}
            p[name] = {'class': 'AtmoRandomPhase', 'simul_params_ref': 'main', 'L0': g['L0'], 'data_dir': 'screens', 'wavelengthInNm': g['wl'],
                       'pixel_phasescreens': g['pixels'], 'seed': g['seed'], 'update_interval': g['interval'],
                       'inputs': {'seeing': f'h{k}.out', 'pupilstop': 'pup'}}
        if kind in ('cube', 'screens'):
            p['pup'] = {'class': 'Pupilstop', 'simul_params_ref': 'main', 'obs_diam': c['mask']}
            if g['src']:
                p['src'] = {'class': 'Source', 'polar_coordinates': [0.0, 0.0], 'magnitude': 8, 'wavelengthInNm': 750}
                p[name]['source_dict_ref'] = ['src']
    return p


# ------------------------------------------------------------------------------------------------ execution
def simulate(c, prec, only=None, runs=1, mutate=None, n=None, disturb=True, order=True):
    world.reset(precision=prec)
    res = []
    for _ in range(runs):
        rec = bench.Rec()
        err = None
        r = np.random.RandomState(c['disturb'])

        def before(loop, t):
            if disturb:
                np.random.seed(int(r.randint(1 << 30)))
                np.random.random(int(r.randint(1, 5)))
        p = params(c, only, n)
        if mutate:
            mutate(p)
        try:
            with start_time(c['t0'] * c['step'] / 1e9):
                bench.run(p, only=[f'g{k}' for k in range(len(c['gens']))], order=Rng(c['order']) if order else None, before=before, rec=rec, path=f'p{os.getpid()}.yml')
        except Exception as e:
            from dst.core import sut_frame
            err = (type(e).__name__, str(e)[:300], sut_frame(e))
        masks = None
        if any(f'g{k}' in rec.objs and hasattr(rec.objs[f'g{k}'], 'ef_outputs') for k in range(len(c['gens']))):
            masks = {f'g{k}': [np.array(o.A) for o in rec.objs[f'g{k}'].ef_outputs.values()] for k, g in enumerate(c['gens']) if f'g{k}' in rec.objs and g['kind'] in ('cube', 'screens')}
        res.append(dict(t=rec.t, at=rec.at, err=err, masks=masks))
    return res


def wave(g, t, f32, size):
    """(value, tolerance) of the wave at time t in seconds."""
    par = {k: np.atleast_1d(np.asarray(g.get(k, 0.0), dtype=float)) for k in ('amp', 'freq', 'offset', 'constant', 'slope')}
    ph = par['freq'] * 2 * np.pi * t + par['offset']
    eps = 4e-7 if f32 else 1e-15
    err = eps * (np.abs(par['freq'] * 2 * np.pi * t) + np.abs(par['offset']) + 1)
    s = np.sin(ph)
    w = g['wave_type'].upper()
    if w == 'SIN':
        v = s
    elif w == 'SQUARE':
        v, err = np.sign(s), np.where(np.abs(s) <= 2 * err + eps, np.inf, eps)
    else:
        x = (ph / (2 * np.pi) + 0.25) % 1.0
        v = np.where(x < 0.5, 4 * x - 1, 3 - 4 * x)
        err = err + (2e-3 if f32 else 1e-7)
    val = par['slope'] * t + par['amp'] * v + par['constant']
    amp = np.broadcast_to(np.abs(par['amp']), np.broadcast(par['amp'], err).shape)
    tol = np.where(amp > 0, np.where(amp > 0, amp, 1) * err, 0) + eps * (np.abs(par['slope'] * t) + np.abs(par['constant']) + np.abs(par['amp']))
    return np.broadcast_to(val, size), np.broadcast_to(tol, size)


def noll(j):
    n = 0
    while (n + 1) * (n + 2) // 2 < j:
        n += 1
    return n


def amps(g):
    a = np.zeros(g['output_size'])
    for i in range(g['forced_zero_modes'], g['output_size']):
        n = noll(i + 1)
        a[i] = dict(CONSTANT=1.0, INVERSE=1.0 / max(n, 1), LINEAR=float(max(n, 1)))[g['scaling_law'].upper()]
    s = np.sqrt((a ** 2).sum())
    return a * (g['modal_rms'] / s) if s else a


def execute(case, d):
    c = case
    out = Outcome()
    st = out.stats
    ok, runs = forked.call(simulate, c, c['precision'], None, 2 if c['twice'] else 1)
    if not ok:
        raise forked.ChildError(str(runs))
    n, step, f32 = c['n'], c['step'], c['precision'] == 1
    times = [(c['t0'] + k) * step for k in range(n)]
    # steps at which a cube must refuse to go on
    stop = n
    for g in c['gens']:
        if g['kind'] == 'cube':
            for k, t in enumerate(times):
                if not g['tv'][0] <= t <= g['tv'][-1]:
                    stop = min(stop, k)
                    break
    st['runs'] += len(runs)
    st['fault.shared_random_state_disturbed'] += n * len(runs)
    st['fault.run_length_not_multiple'] += c['tail'] != 0
    if stop < n:
        st['fault.cube_out_of_range'] += 1
    judged = 0
    oracles = {}
    for rep, run in enumerate(runs):
        lab = 'second run in the same process' if rep else 'run'
        if run['err']:
            if stop == n or run['err'][0] != 'ValueError' or len(run['t']) != stop:
                out.fail(f'exception:{run["err"][0]}', f'{lab} stopped after {len(run["t"])} of {stop} expected steps: {run["err"]}')
                break
        elif stop < n:
            out.fail('unreported', f'{lab}: the phase screen cube does not cover step {stop} and nothing was said')
            break
        if run['t'] != times[:stop]:
            out.fail('times', f'{lab}: steps at {run["t"]} instead of {times[:stop]}')
            break
        for k, g in enumerate(c['gens']):
            why = judge(c, k, g, run, stop, times, f32, oracles, st)
            if why:
                out.fail(f'value:{g["kind"]}', f'{lab}: g{k} ({g["kind"]}): {why}')
                break
            judged += stop
            st['probe.judged_' + g['kind']] += stop
        if out.violations:
            break
        st['probe.judged_second_run'] += stop if rep else 0
    st['steps'] += n
    out.sim_time = n * step / 1e9
    out.nontrivial = judged >= 3
    out.key = digest([c['step'], c['tail'], c['t0'], [sorted(g.items()) for g in c['gens']]])
    out.digest = digest([sorted(st.items()), out.violations, [[r['t'], [[k, [[o, x[o][0]] for o in sorted(x)]] for k in sorted(r['at']) for x in r['at'][k]]] for r in runs]])
    return out


def judge(c, k, g, run, stop, times, f32, oracles, st):
    at = run['at'].get(f'g{k}', [])
    kind, step, n = g['kind'], c['step'], c['n']
    rt = 1e-5 if f32 else 1e-11
    if kind in ('cube', 'screens'):
        return judge_screen(c, k, g, run, at, stop, times, f32, oracles, st)
    seq = []
    for j in range(stop):
        t, v = at[j]['output']
        if t != times[j]:
            return f'output not refreshed at step {j} of {n}'
        seq.append(np.asarray(v, dtype=float))
    seq = np.array(seq)
    for j in range(stop):
        s, v, t = times[j] / 1e9, seq[j], times[j]
        if kind == 'wave':
            size = max([1] + [len(x) for x in g.values() if isinstance(x, list)] + [g.get('vsize', 1), g.get('output_size', 1)])
            want, tol = wave(g, s, f32, (size,))
        elif kind == 'schedule':
            want = np.repeat(g['values'][sum(x <= t for x in g['times'])], g['per'])
            tol = rt * np.abs(want)
        elif kind == 'history':
            want = np.atleast_1d(history(g)[min(j, g['rows'] - 1)])
            tol = rt * np.abs(want)
        else:
            continue
        if v.shape != want.shape or np.any(~(np.abs(v - want) <= tol)):
            return f'at step {j} of {n} (t = {t} ns) the output is {v} instead of {want}'
    if kind == 'vibration' and stop == n:
        return judge_vibration(c, k, g, seq, n, rt, oracles, st)
    if kind == 'random' and stop == n:
        if k not in oracles:
            a = amps(g) if 'modal_rms' in g else None

            def mutate(p):
                q = p[f'g{k}']
                if a is not None:
                    for x in ('modal_rms', 'forced_zero_modes', 'scaling_law'):
                        q.pop(x)
                    q['amp'] = a.tolist()
            ok, r = forked.call(simulate, c, c['precision'], [k], 1, mutate, None, False)
            if not ok:
                raise forked.ChildError(str(r))
            oracles[k] = r[0]
        o = oracles[k]
        if o['err']:
            return f'alone: {o["err"]}'
        want = np.array([np.asarray(x['output'][1], dtype=float) for x in o['at'][f'g{k}']])
        if want.shape != seq.shape or np.any(np.abs(want - seq) > rt * 10 * (1 + np.abs(want))):
            return 'the random stream is not the one of the same generator alone in a fresh process'
        a = np.atleast_1d(amps(g) if 'modal_rms' in g else np.asarray(g['amp'], dtype=float))
        size = max([g.get('output_size', 1), g.get('vsize', 1), len(a), len(np.atleast_1d(g.get('constant', 0.0)))])
        if seq.shape[1] != size:
            return f'{seq.shape[1]} values instead of {size}'
        cst = np.broadcast_to(np.asarray(g.get('constant', 0.0), dtype=float), (size,))
        a = np.broadcast_to(a, (size,))
        slack = 1e-5 * (np.abs(cst) + a + 1)
        z = seq[:, a > 0]
        if np.any(np.abs(seq[:, a == 0] - cst[a == 0]) > slack[a == 0]):
            return 'a mode forced to zero is not'
        if z.size:
            if g['distribution'].upper() == 'UNIFORM':
                if np.any(np.abs(seq - cst) > a / 2 + slack):
                    return 'value out of the bounds of the uniform distribution'
                x = (z - cst[a > 0]) / a[a > 0] * np.sqrt(12)
            else:
                x = (z - cst[a > 0]) / a[a > 0]
            m = x.size
            if abs(x.mean()) > 8 / np.sqrt(m):
                return f'mean {x.mean()} of {m} normalised values'
            if m >= 200 and not 0.5 < x.var() < 1.7:
                return f'variance {x.var()} of {m} normalised values'
            if np.any(np.all(z[1:] == z[:-1], axis=1)):
                return 'two steps with the same random values'
            if z.shape[1] > 1 and np.any(np.ptp(x, axis=1) == 0):
                return 'all the random values of a step are the same'
    return None


def judge_vibration(c, k, g, seq, n, rt, oracles, st):
    f, psd = psd_of(g, 1e9 / c['step'])
    if seq.shape[1] != g['nmodes']:
        return f'{seq.shape[1]} modes instead of {g["nmodes"]}'
    for i in range(g['nmodes']):
        v = seq[:, i]
        if not np.all(np.isfinite(v)):
            return f'mode {i} is not finite'
        if g['zero'] and v[0] != 0:
            return f'mode {i} starts from {v[0]} instead of zero'
        nb = (n + 1) // 2
        fs = 1e9 / c['step']
        p = np.interp(np.linspace(0, fs / 2, nb), f, psd[i])
        if not psd[i].any():
            if np.any(np.abs(v) > 0):
                return f'mode {i} without vibrations is not zero'
            continue
        if p.max() <= 1e-6 * psd[i].max():
            continue        # a line between two bins of the grid
        if n > 3 and g['psd'][i] in ('flat', 'rough'):
            # (a single line at half the sampling frequency repeats itself)
            for j in range(1, n):
                if v[j] == v[j - 1] and (j == n - 1 or not g['zero']):
                    return f'mode {i} is constant from step {j - 1} to {j} of {n}'
        # each mode is what a generator of this mode alone with the seed of the mode gives
        if (k, i) not in oracles:
            def mutate(q):
                q[f'g{k}'].update(nmodes=1, psd=[psd[i].tolist()], freq=f.tolist(), seed=g['seed'] + i)
            ok, r = forked.call(simulate, c, c['precision'], [k], 1, mutate, None, False)
            if not ok:
                raise forked.ChildError(str(r))
            oracles[k, i] = r[0]
        o = oracles[k, i]
        if o['err']:
            return f'mode {i} alone: {o["err"]}'
        w = np.array([np.asarray(x['output'][1], dtype=float)[0] for x in o['at'][f'g{k}']])
        if w.shape != v.shape or np.any(np.abs(w - v) > rt * 10 * (np.abs(w) + np.abs(w).max())):
            return f'mode {i} is not the one of a generator of that mode alone with its seed'
        if n >= 32 and n % 2 == 0 and not g['zero']:
            df = fs / nb / 2
            A = p * df
            sd = np.sqrt((A ** 2).sum() / 2)
            if abs(v.var() + v.mean() ** 2 - A.sum()) > 6 * sd + 0.02 * A.sum():
                return f'mode {i}: variance {v.var()} but the integral of the PSD is {A.sum()}'
            st['probe.spectra_judged'] += 1
            sp = np.abs(np.fft.rfft(v)) ** 2
            used = np.zeros(nb + 1, bool)
            for b in np.flatnonzero(p > 0):
                used[max(b - 1, 0):b + 3] = True
            if sp[~used].sum() > 1e-3 * sp.sum():
                return f'mode {i}: power out of the band of the PSD'
        st['probe.modes_judged'] += 1
    return None


def judge_screen(c, k, g, run, at, stop, times, f32, oracles, st):
    n, npx = c['n'], c['npx']
    names = ['out_src_ef', 'out_src_layer'] if g['src'] else ['out_ef', 'out_layer']
    masks = (run['masks'] or {}).get(f'g{k}')
    if stop and masks and any(x[names[0]][0] == t for x, t in zip(at, times) if names[0] in x):
        y, x = np.mgrid[0:npx, 0:npx] - (npx - 1) / 2
        r2 = (x ** 2 + y ** 2) / (npx / 2) ** 2
        for m in masks:
            if np.any(np.abs(m[r2 > 1.3]) > 0) or (c['mask'] == 0 and np.any(np.abs(m[r2 < 0.6] - 1) > 1e-6)):
                return 'the amplitude is not the one of the pupil stop'
    act = 0
    rng = Rng(c['order'])
    probe = set(rng.sample(range(stop), 2)) if stop else set()
    sched, see = seeing(c, g) if kind_is(g, 'screens') else (None, None)
    prev = None
    for j in range(stop):
        for name in names:
            if name not in at[j]:
                return f'no output {name} ({sorted(at[j])})'
        t, v = at[j][names[0]]
        t2, v2 = at[j][names[1]]
        if t != t2 or not np.array_equal(v, v2, equal_nan=True):
            return f'{names} differ at step {j}'
        ph = np.asarray(v)[1] if np.asarray(v).ndim == 3 else None
        if ph is None:
            return f'unexpected value of shape {np.asarray(v).shape}'
        if kind_is(g, 'cube'):
            if t != times[j]:
                return f'the cube was not refreshed at step {j} of {n}'
            a, tv = planes(g), g['tv']
            q = max(i for i in range(len(tv) - 1) if tv[i] <= times[j])
            w = (times[j] - tv[q]) / (tv[q + 1] - tv[q])
            want = g['scale'] * ((1 - w) * a[q] + w * a[q + 1])
            # times are kept in seconds, as doubles
            tol = (3e-5 if f32 else 1e-7) * 100 * abs(g['scale']) + 800 * abs(g['scale']) * 4e-16 * (abs(times[j]) + abs(tv[0])) / (tv[q + 1] - tv[q])
            if g['dim'] != npx:
                if j not in probe:
                    continue
                if (k, j) not in oracles:
                    e = ((1 - w) * a[q] + w * a[q + 1])
                    e = np.array([e, e])

                    def mutate(p):
                        p[f'h{k}'].update(array=(e if g['axis'] == 0 else np.moveaxis(e, 0, -1)).tolist(), time_vector=[c['t0'] * c['step'] / 1e9 - 1e-9 * (c['t0'] > 0), c['t0'] * c['step'] / 1e9 + 1000.0])
                    ok, r = forked.call(simulate, c, c['precision'], [k], 1, mutate, 1, False)
                    if not ok:
                        raise forked.ChildError(str(r))
                    oracles[k, j] = r[0]
                o = oracles[k, j]
                if o['err']:
                    return f'alone: {o["err"]}'
                want = np.asarray(o['at'][f'g{k}'][0][names[0]][1])[1]
                tol *= 20
                st['probe.interpolated_screens'] += 1
        else:
            # the pupil stop is a new value at time 0
            fresh = bool(sched[j]) or times[j] == 0
            if fresh != (t == times[j]):
                return f'refreshed {t == times[j]} at step {j} of {n}, expected {fresh}'
            if not fresh:
                if prev is not None and not np.array_equal(ph, prev):
                    return f'the phase changed at step {j} without a refreshed input'
                continue
            pos = act // g['interval']
            act += 1
            ns = g['pixels'] // npx
            b, i = divmod(pos, ns * ns)
            key = ('bank', g['seed'] + b, g['L0'], g['pixels'])
            if key not in oracles:
                def bank():
                    from specula.lib.phasescreen_manager import phasescreens_manager
                    world.reset(precision=c['precision'])
                    with world.quiet():
                        return np.array(phasescreens_manager(np.array([g['L0']]), g['pixels'], 0.05, 'oracle_screens', np, c['precision'], seed=np.array([g['seed'] + b]))[0], dtype=float)
                ok, r = forked.call(bank)
                if not ok:
                    raise forked.ChildError(str(r))
                oracles[key] = r
            s = oracles[key]
            y, x = divmod(i, ns)
            s = s[y * npx:(y + 1) * npx, x * npx:(x + 1) * npx]
            sv = see[j][0] if sched[j] else 0
            if sv == 0:
                want = np.zeros((npx, npx))
            else:
                r0 = 0.9759 * 500e-9 / (sv * 4.848e-6) * np.cos(np.radians(c['zenith'])) ** 0.6 * (g['wl'] / 500.0) ** 1.2
                want = s * g['wl'] / (2 * np.pi) * (0.05 / r0) ** (5 / 6)
            tol = (2e-4 if f32 else 1e-9) * max(np.abs(want).max(), 1e-3)
            st['probe.new_banks'] += b > 0
            prev = ph
        if ph.shape != want.shape or np.any(~(np.abs(ph - want) <= tol)):
            return f'at step {j} of {n} (t = {times[j]} ns) the phase is {ph.ravel()[:6]}... instead of {want.ravel()[:6]}... (maximum difference {np.abs(ph - want).max() if ph.shape == want.shape else "-"})'
    return None


def kind_is(g, kind):
    return g['kind'] == kind


def reductions(case):
    c = case
    if len(c['gens']) > 1:
        for k in range(len(c['gens'])):
            d = copy.deepcopy(c)
            d['gens'].pop(k)
            yield d
    for key, val in (('twice', False), ('t0', 0), ('tail', 0), ('zenith', 0.0), ('mask', 0.0), ('precision', 0)):
        if c[key] != val:
            yield dict(copy.deepcopy(c), **{key: val})
    for m in (c['n'] // 2, c['n'] - 1):
        if 2 <= m < c['n']:
            yield dict(copy.deepcopy(c), n=m)
    if c['step'] != 1000000:
        yield dict(copy.deepcopy(c), step=1000000)
    for k, g in enumerate(c['gens']):
        for key in ('amp', 'offset', 'constant', 'slope', 'vsize', 'output_size'):
            if key in g and g['kind'] == 'wave':
                d = copy.deepcopy(c)
                d['gens'][k].pop(key)
                yield d
        if g['kind'] == 'schedule' and g['times']:
            for q in range(len(g['times'])):
                d = copy.deepcopy(c)
                d['gens'][k]['times'].pop(q)
                d['gens'][k]['values'].pop(q)
                yield d
