"""C24: adaptive estimators (modal gains, optical gain, registration) update when their parameters say, from exactly the samples delivered since."""
import copy
import functools
import numpy as np
from dst.core import Outcome, sut_exception
from dst.prng import Rng
from dst import bench, world
from dst.run import digest
from dst.props.c18 import irregular

PROPERTY = 'C24'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=1000, budget=200), thorough=dict(cases=60000, budget=780))
RULE = ('one case = one to three adaptive estimators (modal gain optimiser, alone or driving an IIR filter; optical gain estimator, on '
        'scripted values or on two demodulators; a user-written subclass of the registration estimator) fed by scripted sources whose refresh '
        'schedule (jitter, stalls, sources that never deliver) and values are chosen by the seed, run by the real Simul in a random group '
        'order; oracle = the estimates recomputed in double precision from the delivered samples: which steps publish one, its value, no '
        'change in between, the gain used by the filter and its stability; non-trivial = at least one estimate published; distinct = by '
        'kinds, intervals and schedules')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'GainOptimizer', 'IirFilter', 'IirFilterData', 'OpticalGainEstimator', 'Demodulator', 'BaseSprintEstimator',
                        'demodulate_signal'],
                  stub=['scripted sources of vectors and slopes (dst_objs/dst_script.py)', 'linear model of the interaction matrix (dst_objs/dst_sprint.py)'])
ASSUMPTIONS = ['among gains whose residual variance is the smallest within rounding, any one is accepted',
               'the compensation of the optimised gains for the optical gain is judged with a constant optical gain only',
               'registration estimates are judged in windows whose samples are evenly spaced (in the other windows only the time of publication is)']
STEPS = [1000000, 500000, 333333]


# ------------------------------------------------------------------------------------------------ generation
def interval(rng, c):
    s, n = c['step'], c['n']
    return rng.weighted([(s * rng.randint(1, n), 4), (s * rng.randint(4, 20), 4), (s * rng.randint(4, 20) + rng.choice([1, -1, s // 2]), 2), (s * (n + 3), 0.4)])


def generate(rng, tier, i):
    n = rng.randint(10, 70)
    c = dict(step=rng.choice(STEPS), n=n, precision=rng.choice([0, 0, 1]), order=rng.next(), blocks=[])
    for k in range(rng.weighted([(1, 4), (2, 2), (3, 1)])):
        kind = rng.choice(['gopt', 'gopt', 'og', 'og', 'sprint'])
        b = dict(kind=kind, seed=rng.randint(1, 10**6))
        if kind == 'gopt':
            nm = rng.randint(1, 3)
            b.update(nm=nm, sched=irregular(rng, n), dt=interval(rng, c), delay=rng.choice([1, 2, 2, 3, 1.5, 2.3]), mgf=rng.choice([0.95, 0.8, 0.5]),
                     safety=rng.choice([0.9, 1.0, 0.5]), inc=rng.choice([0.5, 1.0, 0.1]), limit=rng.chance(0.7), ngains=rng.choice([20, 5, 1]),
                     mean=rng.chance(0.3), loop=rng.chance(0.5), og=rng.chance(0.2), amp=rng.choice([1.0, 1e-3, 100.0]), lp=rng.choice([0.0, 0.8, 0.97]))
            b['num'], b['den'] = [], []
            for q in range(nm):
                b['num'].append([0.0, 0.0, rng.choice([0.5, 0.1, 0.0, 1.0])])
                b['den'].append([0.0, -rng.choice([1.0, 1.0, 0.98, 0.9]), 1.0])
                if rng.chance(0.25):     # a lead on top of the integrator
                    z = rng.choice([0.3, 0.6])
                    g = rng.choice([0.4, 0.1])
                    b['num'][-1] = [0.0, -z * g, g]
        elif kind == 'og':
            size = rng.choice([1, 1, 3])
            b.update(size=size, gain=rng.choice([0.1, 0.5, 1.0]), init=rng.choice([1.0, 0.3, 1, 1.4]) if size == 1 or rng.chance(0.5) else [1.0, 0.5, 1.2],
                     scalar=size == 1 and rng.chance(0.3), demod=rng.chance(0.3), rebind=rng.chance(0.4))
            if size > 1 and not isinstance(b['init'], list):
                b['init'] = [b['init']] * size
            b['sched'] = [irregular(rng, n)]
            b['sched'].append(irregular(rng, n) if rng.chance(0.5) else b['sched'][0])
            b['zero'] = [int(rng.chance(0.15)) for _ in range(n)]
            if b['demod']:
                b.update(win=c['step'] * rng.randint(5, 20), freq=round(rng.uniform(0.1, 0.4) * 1e9 / c['step'], 2), size=1, scalar=False, init=1.0)
        else:
            ns = rng.randint(4, 8)
            nm = rng.randint(1, 3)
            npar = rng.randint(1, 3)
            b.update(ns=ns, nm=nm, npar=npar, dt=interval(rng, c), iters=rng.choice([1, 1, 2, 3]), thr=rng.choice([0.0, 0.0, 1e9]), abs=rng.chance(0.1),
                     gain=rng.choice([1.0, 0.5]), forget=rng.choice([1.0, 1.0, 0.9]), init=rng.choice([None, [0.01, -0.02, 0.005][:npar]]),
                     freq=[round((0.11 + 0.1 * q + rng.uniform(0, 0.03)) * 1e9 / c['step'], 2) for q in range(nm)],
                     true=[rng.choice([0.02, -0.01, 0.05]) for _ in range(npar)], flip=rng.choice([1, 1, -1]))
            m = rng.weighted([(1, 3), (2, 2)])
            b['sched'] = [int(j % m == 0) for j in range(n)] if rng.chance(0.6) else irregular(rng, n)
        c['blocks'].append(b)
    return c


def gopt_values(b, n):
    """Delta commands, and output commands when the loop is not closed by a filter: coloured noise."""
    res = []
    for s in (0, 1):
        x = np.random.RandomState((b['seed'] + 7919 * s) & 0x7fffffff).standard_normal((n, b['nm']))
        for j in range(1, n):
            x[j] += b['lp'] * x[j - 1]
        res.append(x * b['amp'])
    return res


def og_values(b, n):
    r = np.random.RandomState(b['seed'] & 0x7fffffff)
    d, m = r.uniform(0.1, 1.5, (n, b['size'])), r.uniform(0.5, 1.5, (n, b['size']))
    for j in range(n):
        if b['zero'][j]:
            m[j, j % b['size']] = 0.0
            if j % 2:
                m[j] = 0.0
    return d, m


def sprint_values(c, b):
    from dst_objs.dst_sprint import model
    a, bs = model(b['seed'], b['ns'], b['nm'], b['npar'])
    im = a + np.tensordot(np.array(b['true']), bs, 1)
    t = np.arange(c['n']) * c['step'] / 1e9
    carr = np.array([np.cos(2 * np.pi * f * t) for f in b['freq']])
    return (b['flip'] * im @ carr).T + 1e-3 * np.random.RandomState(b['seed'] & 0xffff).standard_normal((c['n'], b['ns']))


def params(c):
    n = c['n']
    p = {'main': bench.main(n, c['step'], pixel_pupil=8, pixel_pitch=0.1)}
    for k, b in enumerate(c['blocks']):
        if b['kind'] == 'gopt':
            x, y = gopt_values(b, n)
            p[f's{k}'] = {'class': 'DstScript', 'kind': 'value', 'shape': [b['nm']], 'schedule': b['sched'], 'values': x.tolist()}
            p[f'f{k}'] = {'class': 'IirFilterData', 'ordnum': [3] * b['nm'], 'ordden': [3] * b['nm'],
                          'num': b['num'], 'den': b['den']}
            q = {'class': 'GainOptimizer', 'simul_params_ref': 'main', 'iir_filter_data_ref': f'f{k}', 'opt_dt': b['dt'] / 1e9, 'delay': b['delay'],
                 'max_gain_factor': b['mgf'], 'safety_factor': b['safety'], 'max_inc': b['inc'], 'limit_inc': b['limit'], 'ngains': b['ngains'],
                 'running_mean': b['mean'], 'verbose': False, 'inputs': {'delta_comm': f's{k}.out'}}
            if b['loop']:
                p[f'i{k}'] = {'class': 'IirFilter', 'simul_params_ref': 'main', 'iir_filter_data_ref': f'f{k}', 'delay': 0, 'inputs': {'delta_comm': f's{k}.out'}}
                q['inputs']['out_comm'] = f'i{k}.out_comm'
            else:
                p[f'c{k}'] = {'class': 'DstScript', 'kind': 'value', 'shape': [b['nm']], 'schedule': b['sched'], 'values': y.tolist()}
                q['inputs']['out_comm'] = f'c{k}.out'
            if b['og']:
                p[f'o{k}'] = {'class': 'DstScript', 'kind': 'scalar', 'shape': [1], 'schedule': b['sched'], 'values': [[0.7]]}
                q['inputs']['optical_gain'] = f'o{k}.out'
            p[f'b{k}'] = q
        elif b['kind'] == 'og':
            ins = []
            for s, v in zip((0, 1), og_values(b, n)):
                p[f's{k}_{s}'] = {'class': 'DstScript', 'kind': 'scalar' if b['scalar'] else 'value', 'shape': [b['size']], 'schedule': b['sched'][s],
                                  'values': v.tolist(), 'rebind': b['rebind']}
                ins.append(f's{k}_{s}.out')
                if b['demod']:
                    p[f'd{k}_{s}'] = {'class': 'Demodulator', 'simul_params_ref': 'main', 'mode_numbers': [0], 'carrier_frequencies': [b['freq']],
                                      'demod_dt': b['win'] / 1e9, 'inputs': {'in_data': ins[-1]}}
                    ins[-1] = f'd{k}_{s}.output'
            p[f'b{k}'] = {'class': 'OpticalGainEstimator', 'gain': b['gain'], 'initial_optical_gain': b['init'],
                          'inputs': {'in_demod_delta_command': ins[0], 'in_demod_command': ins[1]}}
        else:
            p[f's{k}'] = {'class': 'DstScript', 'kind': 'slopes', 'shape': [b['ns']], 'schedule': b['sched'], 'values': sprint_values(c, b).tolist()}
            p[f'b{k}'] = {'class': 'DstSprint', 'simul_params_ref': 'main', 'seed': b['seed'], 'nslopes': b['ns'], 'carrier_frequencies': b['freq'],
                          'estimation_dt': b['dt'] / 1e9, 'max_iterations': b['iters'], 'convergence_threshold': b['thr'], 'n_params': b['npar'],
                          'apply_absolute_slopes': b['abs'], 'integration_gain': b['gain'], 'forgetting_factor': b['forget'], 'inputs': {'in_slopes': f's{k}.out_slopes'}}
            if b['init'] is not None:
                p[f'b{k}']['initial_misreg'] = b['init']
    return p


# ------------------------------------------------------------------------------------------------ reference
def delay_poly(delay):
    d = int(np.ceil(delay))
    den = np.zeros(d + 1)
    den[d] = 1
    num = den * 0
    f = delay - np.floor(delay)
    if f:
        num[:2] = f, 1 - f
    else:
        num[0] = 1
    return num, den


@functools.lru_cache(maxsize=None)
def stability(num, den, delay):
    """Spectral radius of the closed loop as a function of the gain (num: with unit gain)."""
    pn, pd = delay_poly(delay)
    cp_d, cp_n = np.convolve(den, pd), np.convolve(num, pn)

    def radius(gains):
        p = cp_d[None, :] + np.atleast_1d(gains)[:, None] * np.pad(cp_n, (0, len(cp_d) - len(cp_n)))[None, :]
        p = p[:, ::-1]                                  # highest power first
        lead = p[:, :1]
        m = p.shape[1] - 1
        comp = np.zeros((len(p), m, m))
        comp[:, 0, :] = -p[:, 1:] / lead
        comp[:, np.arange(1, m), np.arange(m - 1)] = 1
        return np.abs(np.linalg.eigvals(comp)).max(axis=1)
    return radius


@functools.lru_cache(maxsize=None)
def limit(num, den, delay):
    """Index in the grid of tested gains of the last stable one."""
    grid = np.linspace(1e-6, 20.0, 20000)
    r = stability(num, den, delay)
    for a in range(0, 20000, 500):
        bad = np.where(r(grid[a:a + 500]) >= 1)[0]
        if len(bad):
            return grid, a + bad[0] - 1
    return grid, 19999


def judge_gopt(out, c, k, b, rec, gains_after, f32):
    from scipy import signal
    n, step, dt, nm = c['n'], c['step'], b['dt'], b['nm']
    x, y = gopt_values(b, n)
    dtype = np.float32 if f32 else np.float64
    num = np.array(b['num'])
    unit = []
    for q in range(nm):
        g0 = num[q, -1]
        unit.append(tuple(num[q] / g0) if g0 else (0.0, 0.0, 1.0))
    prev = num[:, -1].copy()
    hist_d, hist_c, nxt, nper, mean, held = [], [], dt, None, [None] * nm, np.ones(nm)
    state = np.zeros((2, nm, 3))       # filter inputs and outputs, oldest first
    gain = prev.copy()
    for j in range(n):
        t = j * step
        where = f'gain optimiser b{k} (interval {dt} ns) at step {j} of {n}'
        g, v = rec.at[f'b{k}'][j]['optimized_gain']
        done = False
        if b['sched'][j]:
            if b['loop']:
                state = np.roll(state, -1, axis=2)
                state[0, :, -1] = x[j].astype(dtype)
                un = np.array(unit) * gain[:, None]
                state[1, :, -1] = ((un * state[0]).sum(1) - (np.array(b['den'])[:, :-1] * state[1, :, :-1]).sum(1)) / np.array(b['den'])[:, -1]
                go, vo = rec.at[f'i{k}'][j]['out_comm']
                tol = 1e-4 if f32 else 1e-9
                if go != t or not bench.close(vo, state[1, :, -1], tol, tol * b['amp'] * 30):
                    return out.fail('filter', f'{where}: the filter gives {vo} instead of {state[1, :, -1]} (gains {gain})')
                state[1, :, -1] = vo    # no accumulation of rounding in the reference
                hist_c.append(np.asarray(vo, dtype=float))
            else:
                hist_c.append(y[j])
            hist_d.append(x[j])
            if t >= nxt:
                nxt = (t // dt + 1) * dt
                done = len(hist_d) > 1
        else:
            out.stats['fault.sample_missing_steps'] += 1
        if (g == t and j > 0 or g == t and done) != done:
            return out.fail('refresh', f'{where}: gains refreshed {g == t}, expected {done} ({len(hist_d)} samples)')
        if not done:
            if not np.array_equal(np.asarray(v, dtype=float), held):
                return out.fail('changed', f'{where}: the gains became {v} without an optimisation (they were {held})')
            if not np.array_equal(np.asarray(gains_after[j], dtype=float), np.asarray(gain, dtype=dtype).astype(float)):
                return out.fail('filter-gain', f'{where}: the gains of the filter became {gains_after[j]} without an optimisation')
            continue
        out.stats['probe.optimisations'] += 1
        out.nontrivial = True
        out.stats['probe.optimisations_off_grid'] += t % dt != 0
        ol = np.array(hist_d)
        ol[1:] += np.array(hist_c)[:-1]
        nper = nper or min(len(ol), 256)
        for q in range(nm):
            freq, psd = signal.welch(ol[:, q].astype(dtype).astype(float), fs=1.0, window='hann', nperseg=nper)
            if b['mean']:
                psd = psd if mean[q] is None else (psd + mean[q]) / 2
                mean[q] = psd
            grid, last = limit(unit[q], tuple(b['den'][q]), float(b['delay']))
            z = np.exp(2j * np.pi * freq)
            den = np.polyval(np.array(b['den'][q])[::-1], z)
            den = np.where(np.abs(den) < 1e-9, 1e-12, den)
            cz = np.polyval(np.array(unit[q])[::-1], z) / den * z ** -float(b['delay'])
            ok = False
            cand = []
            for i in {max(last - 1, 0), last, min(last + 1, 19999)}:
                gmax = grid[i] * b['mgf']
                gs = np.linspace(gmax / b['ngains'], gmax, b['ngains'])
                tot = np.array([np.sum(np.abs(1 / (1 + a * cz)) ** 2 * psd) for a in gs])
                slack = (1e-2 if f32 else 1e-6)
                for a in gs[tot <= tot.min() * (1 + slack) + 1e-300]:
                    w = prev[q] + b['inc'] * (a - prev[q]) if b['limit'] else a
                    w = min(w * b['safety'], gmax)
                    cand.append(w)
                    ok |= bool(abs(w - float(v[q])) <= (2e-5 if f32 else 1e-9) * (1 + abs(w)))
            if not ok:
                return out.fail('gain', f'{where}: gain {float(v[q])} of mode {q} instead of {sorted(cand)} (limit {grid[last]}, before {prev[q]})')
            if float(v[q]) > grid[last] * 1.001 + 0.002:
                return out.fail('unstable', f'{where}: gain {float(v[q])} of mode {q} with limit {grid[last]}')
        prev = held = np.asarray(v, dtype=float)
        gain = prev.copy()
        if not np.array_equal(np.asarray(gains_after[j], dtype=float), prev):
            return out.fail('filter-gain', f'{where}: the filter has gains {gains_after[j]} after the optimisation that gave {v}')


def judge_og(out, c, k, b, rec, f32):
    n, step = c['n'], c['step']
    og = np.atleast_1d(np.array(b['init'], dtype=float))
    tol = 1e-5 if f32 else 1e-12
    held = np.minimum(og, 1.0)
    first = True
    for j in range(n):
        t = j * step
        where = f'optical gain estimator b{k} at step {j} of {n}'
        ins = [rec.at[f'd{k}_{s}'][j]['output'] if b['demod'] else rec.at[f's{k}_{s}'][j]['out'] for s in (0, 1)]
        fresh = [g == t and (j > 0 or bool(b['sched'][s][0]) and not b['demod']) for s, (g, v) in enumerate(ins)]
        (g1, v1), (g2, v2) = rec.at[f'b{k}'][j]['optical_gain'], rec.at[f'b{k}'][j]['output']
        upd = False
        if all(fresh):
            d, m = (np.atleast_1d(np.asarray(v, dtype=float)) for _, v in ins)
            val = np.abs(m) > 1e-12
            upd = bool(val.any())
            og = np.where(val, og - (1 - d / np.where(val, m, 1)) * b['gain'] * og, og)
            out.stats['fault.no_signal'] += not val.all()
        elif any(fresh):
            out.stats['fault.one_input_only'] += 1
        if any(fresh):
            held = np.minimum(og, 1.0)
            first = False
        for name, g, v, e, want in (('optical_gain', g1, v1, og, upd), ('output', g2, v2, held, any(fresh))):
            if (g == t and (j > 0 or want)) != want:
                return out.fail('refresh', f'{where}: {name} refreshed {g == t}, expected {want} (inputs refreshed: {fresh})')
            if first and name == 'output':
                continue
            if not bench.close(np.atleast_1d(v), e, tol, tol):
                return out.fail('optical-gain', f'{where}: {name} {v} instead of {e} (inputs {[v for _, v in ins]}, refreshed {fresh})')
        if upd:
            out.nontrivial = True
            out.stats['probe.optical_gains'] += 1
            og = np.atleast_1d(np.asarray(v1, dtype=float)).copy()


def judge_sprint(out, c, k, b, rec, f32):
    from specula.lib.demodulate_signal import demodulate_signal
    from dst_objs.dst_sprint import model
    n, step, dt = c['n'], c['step'], b['dt']
    a, bs = model(b['seed'], b['ns'], b['nm'], b['npar'])
    x = sprint_values(c, b)
    dtype = np.float32 if f32 else np.float64
    par = np.zeros(b['npar']) if b['init'] is None else np.array(b['init'])
    pend, last, held, err, known = [], 0, None, 0.0, True
    for j in range(n):
        t = j * step
        where = f'registration estimator b{k} (interval {dt} ns) at step {j} of {n}'
        vals = rec.at[f'b{k}'][j]
        done = False
        if b['sched'][j]:
            pend.append(j)
            done = t - last >= dt and len(pend) >= 10
        else:
            out.stats['fault.sample_missing_steps'] += 1
        for name, (g, v) in vals.items():
            if (g == t and (j > 0 or done)) != done:
                return out.fail('refresh', f'{where}: {name} refreshed {g == t}, expected {done} ({len(pend)} samples, last estimate at {last})')
        now = {o: np.array(vals[o][1], dtype=float) for o in vals}
        if not done:
            if held is not None and any(not np.array_equal(now[o], held[o]) for o in now):
                return out.fail('changed', f'{where}: the estimate changed without a new one')
            held = now
            continue
        held, last = now, t
        out.stats['probe.registrations'] += 1
        out.nontrivial = True
        w, pend = pend, []
        dd = np.diff(w)
        if not np.all(dd == dd[0]):
            out.stats['probe.uneven_windows'] += 1
            par = now['out_misreg_params'].copy()
            continue
        im = np.zeros((b['ns'], b['nm']))
        for q, f in enumerate(b['freq']):
            amp, ph = demodulate_signal(x[w].astype(dtype), f, 1e9 / (step * dd[0]), xp=np, dtype=np.float64)
            im[:, q] = amp * np.sign(np.cos(ph))
            if np.abs(np.cos(ph)).min() < 1e-3:      # the sign of an amplitude is a matter of rounding
                known = False
        if b['abs']:
            im = np.abs(im)
        scale = 1.0
        for _ in range(b['iters']):
            nom = a + np.tensordot(par, bs, 1)
            go = np.diag(np.linalg.pinv(nom) @ im)
            diff = im / (go + 1e-12) - nom
            scale = max(scale, 1 / max(np.abs(go).min(), 1e-9), np.abs(diff).max())
            delta = np.array([np.mean([bs[p][:, m] @ diff[:, m] / (bs[p][:, m] @ bs[p][:, m] + 1e-12) for m in range(b['nm'])]) for p in range(b['npar'])])
            rms = np.sqrt(np.mean(im ** 2))
            err = np.sqrt(np.mean(diff ** 2)) / max(rms, 1e-12)
            par = par * b['forget'] + delta * b['gain']
            if err * np.mean(np.abs(go)) < b['thr']:
                break
        tol = (5e-3 if f32 else 1e-4) * scale * b['iters'] ** 2       # the amplitudes are accumulated in single precision
        if known and scale < 20 and b['iters'] * scale < 30:
            for name, e in (('out_misreg_params', par), ('out_convergence_error', [err]), ('out_intmat', a + np.tensordot(par, bs, 1))):
                if not bench.close(now[name], e, tol, tol):
                    return out.fail('registration', f'{where}: {name} is {now[name].ravel()[:6]} instead of {np.ravel(e)[:6]} ({len(w)} samples from step {w[0]}, every {dd[0]})')
            out.stats['probe.registrations_judged'] += 1
        known = True
        par = now['out_misreg_params'].copy()


def execute(case, d):
    out = Outcome()
    out.nontrivial = False
    c = case
    world.reset(1, c['precision'])
    rec = bench.Rec()
    gains = {}

    def after(loop, t):
        for i in sorted(loop.trigger_lists):
            for e in loop.trigger_lists[i]:
                if type(e).__name__ == 'GainOptimizer':
                    gains.setdefault(e.name, []).append(np.array(e.iir_filter_data.gain, copy=True))
    try:
        bench.run(params(c), order=Rng(c['order']), rec=rec, after=after)
    except Exception as e:
        sut_exception(out, e)
        return out
    out.stats['runs'] += 1
    f32 = c['precision'] == 1
    for k, b in enumerate(c['blocks']):
        if b['kind'] == 'gopt':
            judge_gopt(out, c, k, b, rec, gains[f'b{k}'], f32)
        elif b['kind'] == 'og':
            judge_og(out, c, k, b, rec, f32)
        else:
            judge_sprint(out, c, k, b, rec, f32)
        if out.violations:
            break
    out.sim_time = c['n'] * c['step'] / 1e9
    out.digest = digest([[[k2, [[o, s[o][0], [] if s[o][1] is None else np.asarray(s[o][1]).tolist()] for o in s]] for s in rec.at[k2]] for k2 in sorted(rec.at)])
    out.key = digest([[b['kind'], b['sched'], b.get('dt'), b.get('win')] for b in c['blocks']])
    return out


def reductions(c):
    for k in range(len(c['blocks'])):
        if len(c['blocks']) > 1:
            d = copy.deepcopy(c)
            del d['blocks'][k]
            yield d
    for k, b in enumerate(c['blocks']):
        full = [[1] * c['n']] * 2 if b['kind'] == 'og' else [1] * c['n']
        for a, v in (('sched', full), ('rebind', False), ('loop', False), ('og', False), ('mean', False), ('limit', False), ('demod', False),
                     ('zero', [0] * c['n']), ('iters', 1), ('abs', False), ('forget', 1.0), ('init', None if b['kind'] == 'sprint' else b.get('init'))):
            if a in b and b[a] != v:
                d = copy.deepcopy(c)
                d['blocks'][k][a] = v
                yield d
    if c['precision']:
        d = copy.deepcopy(c)
        d['precision'] = 0
        yield d
    for m in (c['n'] // 2, c['n'] - 1):
        if 2 < m < c['n']:
            d = copy.deepcopy(c)
            d['n'] = m
            yield d
