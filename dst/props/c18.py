"""C18: time-averaged products (PSF, Strehl ratio, demodulated amplitudes, buffers) are made of exactly the samples of their window."""
import copy
import numpy as np
from dst.core import Outcome, sut_exception
from dst.prng import Rng
from dst import bench, world
from dst.run import digest
from dst.props.c06 import sched

PROPERTY = 'C18'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=1600, budget=200), thorough=dict(cases=60000, budget=780))
RULE = ('one case = one to three accumulating blocks (PSF, coronagraphic PSF, data buffer, demodulator), possibly buffering the '
        'products of each other, fed by scripted blocks whose refresh schedule (jitter, stalls, sources that never deliver) is chosen '
        'by the seed, run by the real Simul in a random group order and for any run length; oracle = the window bookkeeping and the '
        'averages recomputed in double precision from the delivered samples, compared after every step and after the end of the run; '
        'non-trivial = at least one window with two samples; distinct = by block kinds, windows and schedules')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'PSF', 'PsfCoronagraph', 'DataBuffer', 'Demodulator', 'demodulate_signal', 'calc_psf', 'radial_profile'],
                  stub=['scripted sources of electric fields, vectors, pixels and slopes (dst_objs/dst_script.py)'])
ASSUMPTIONS = ['demodulated values are judged in windows whose samples are evenly spaced (in the other windows only the time of publication is)',
               'the metrics of the radial profile are computed by the library itself on the reference PSF']
STEPS = [1000000, 500000, 333333]


def irregular(rng, n):
    kind = rng.weighted([('c06', 4), ('period', 3), ('stall', 2), ('never', 0.3), ('once', 0.5)])
    if kind == 'c06':
        return sched(rng, n)
    if kind == 'period':
        m = rng.randint(1, 4)
        ph = rng.randint(0, m - 1)
        return [int(k % m == ph) for k in range(n)]
    if kind == 'stall':
        a, b = rng.randint(0, n), rng.randint(0, n)
        return [int(not min(a, b) <= k < max(a, b)) for k in range(n)]
    if kind == 'once':
        a = rng.randint(0, n - 1)
        return [int(k == a) for k in range(n)]
    return [0] * n


def generate(rng, tier, i):
    n = rng.randint(2, 36)
    c = dict(step=rng.choice(STEPS), n=n, precision=rng.choice([0, 0, 1]), order=rng.next(), size=rng.choice([6, 8, 12]), blocks=[])
    for k in range(rng.weighted([(1, 3), (2, 2), (3, 1)])):
        kind = rng.choice(['psf', 'psf', 'buffer', 'buffer', 'demod', 'demod'])
        b = dict(kind=kind, seed=rng.randint(1, 10**6), sched=irregular(rng, n))
        if kind == 'psf':
            s = rng.weighted([('zero', 2), ('step', 4), ('between', 1), ('late', 0.5), ('negative', 0.3)])
            j = rng.randint(0, n - 1)
            b.update(start={'zero': 0.0, 'step': j * c['step'] / 1e9, 'between': (j * c['step'] + c['step'] // 2) / 1e9,
                            'late': (n + 1) * c['step'] / 1e9, 'negative': -0.5}[s],
                     nd=rng.choice([None, 1, 1.5, 2, 3]), wl=rng.choice([500.0, 750.0, 1650.0]), amp=rng.choice([30.0, 150.0, 600.0]),
                     coro=rng.choice([None, None, True, False]), metrics=rng.choice([0, 0, 1, 2]), ee=rng.choice([None, 1.0, [0.5, 1.5]]),
                     hole=rng.chance(0.5), const=rng.chance(0.1), store=rng.chance(0.3))
        elif kind == 'buffer':
            b.update(size=rng.choice([1, 2, 3, 5, rng.randint(1, n + 3)]), inputs=[])
            for q in range(rng.randint(1, 3)):
                b['inputs'].append(dict(kind=rng.choice(['value', 'value', 'scalar', 'pixels', 'slopes']), shape=rng.randint(1, 4), rebind=rng.chance(0.4),
                                        seed=rng.randint(1, 10**6), sched=irregular(rng, n)))
            b['products'] = rng.chance(0.4)
        else:
            nm = rng.randint(1, 4)
            b.update(nm=nm, modes=[rng.randint(0, nm - 1) for _ in range(rng.randint(1, 3))], rebind=rng.chance(0.4),
                     win=rng.choice([c['step'] * rng.randint(1, n), c['step'] * rng.randint(3, 12), c['step'] * rng.randint(4, 9) + rng.choice([1, -1, c['step'] // 2])]))
            b['freq'] = [round(rng.uniform(0.02, 0.6) * 1e9 / c['step'], 2) for _ in b['modes']]
        c['blocks'].append(b)
    return c


def mask(c, b):
    s = c['size']
    yy, xx = np.mgrid[:s, :s] - (s - 1) / 2
    r = np.hypot(yy, xx) / (s / 2)
    m = (r <= 1.05).astype(float)
    if b['hole']:
        m[r < 0.3] = 0
        m[s // 4] *= 0.5
    return m


def wavefront(c, b, k):
    from dst_objs.dst_script import frame
    return frame(b['seed'], 0 if b['const'] else k, (c['size'], c['size']), -b['amp'], b['amp'])


def params(c):
    p = {'main': bench.main(c['n'], c['step'], pixel_pupil=c['size'], pixel_pitch=0.1)}
    for k, b in enumerate(c['blocks']):
        if b['kind'] == 'psf':
            q = {'class': 'DstScript', 'kind': 'ef', 'shape': [c['size'], c['size']], 'seed': b['seed'], 'schedule': b['sched'], 'lo': -b['amp'], 'hi': b['amp'],
                 'mask': mask(c, b).ravel().tolist()}
            if b['const']:
                q['values'] = [wavefront(c, b, 0).tolist()]
            p[f's{k}'] = q
            q = {'class': 'PSF' if b['coro'] is None else 'PsfCoronagraph', 'simul_params_ref': 'main', 'wavelengthInNm': b['wl'], 'start_time': b['start'],
                 'compute_profile_metrics': b['metrics'] > 0, 'compute_metrics_in_trigger': b['metrics'] > 1, 'inputs': {'in_ef': f's{k}.out_ef'}}
            if b['nd']:
                q['nd'] = b['nd']
            if b['coro'] is not None:
                q['use_average_field'] = b['coro']
            if b['ee'] is not None:
                q['ee_radius_in_lambda_d'] = b['ee']
            p[f'b{k}'] = q
            if b['store']:
                p[f'st{k}'] = {'class': 'DataStore', 'store_dir': f'd{k}', 'inputs': {'input_list': [f'sr{k}-b{k}.out_sr', f'psf{k}-b{k}.out_psf']}}
        elif b['kind'] == 'buffer':
            names = []
            for q, f in enumerate(b['inputs']):
                p[f's{k}_{q}'] = {'class': 'DstScript', 'kind': f['kind'], 'shape': [f['shape'], f['shape'] + 1][:2 if f['kind'] == 'pixels' else 1], 'seed': f['seed'],
                                  'schedule': f['sched'], 'rebind': f['rebind']}
                names.append(f'i{q}-s{k}_{q}.' + {'pixels': 'out_pixels', 'slopes': 'out_slopes'}.get(f['kind'], 'out'))
            if b['products']:
                for j, o in enumerate(c['blocks'][:k]):
                    if o['kind'] == 'psf':
                        names += [f'psf{j}-b{j}.out_psf', f'sr{j}-b{j}.out_sr']
                    elif o['kind'] == 'demod':
                        names.append(f'dem{j}-b{j}.output')
            p[f'b{k}'] = {'class': 'DataBuffer', 'buffer_size': b['size'], 'inputs': {'input_list': names}}
        else:
            p[f's{k}'] = {'class': 'DstScript', 'kind': 'value', 'shape': [b['nm']], 'seed': b['seed'], 'schedule': b['sched'], 'rebind': b['rebind']}
            p[f'b{k}'] = {'class': 'Demodulator', 'simul_params_ref': 'main', 'mode_numbers': b['modes'], 'carrier_frequencies': b['freq'],
                          'demod_dt': b['win'] / 1e9, 'inputs': {'in_data': f's{k}.out'}}
    return p


def power(field, size):
    u = np.zeros((size, size), dtype=complex)
    u[:field.shape[0], :field.shape[1]] = field
    return np.abs(np.fft.fftshift(np.fft.fft2(u))) ** 2


def coronagraphic(A, phi, average):
    e, m = A * np.exp(1j * phi), A > 0
    if average:
        return e - m * (e * m).sum() / m.sum()
    mean = phi[m].mean()
    return e - m * np.sqrt(np.exp(-phi[m].var())) * np.exp(1j * mean) * A


def rms(x, m):
    return np.sqrt(max(0.0, float((x * m).sum() / m.sum())))


def judge_psf(out, c, k, b, rec, f32):
    """Also returns the products, by step, for the buffers that read them."""
    A, n, step = mask(c, b), c['n'], c['step']
    nd = b['nd'] or 1.0
    size = int(np.around(c['size'] * nd / 2) * 2)
    h = size // 2
    ref = power(A, size)
    ref0 = ref[h, h] / ref.sum()
    tol = 3e-4 if f32 else 1e-9
    acc, got = [], {}
    prof = b['metrics'] > 0
    last = {}
    for j in range(n):
        t = j * step
        at = rec.at[f'b{k}'][j]
        fresh = bool(b['sched'][j])
        where = f'{"PSF" if b["coro"] is None else "coronagraphic PSF"} b{k} at step {j} of {n} (start time {b["start"]} s)'
        names = ['out_sr', 'out_psf'] + (['out_coronagraph_psf'] if b['coro'] is not None else [])
        for o in names:
            if (at[o][0] == t) != fresh:
                out.fail('refresh', f'{where}: {o} refreshed {at[o][0] == t}, expected {fresh}')
                return got
        if not fresh:
            out.stats['fault.sample_missing_steps'] += 1
            for o, v in last.items():
                if not np.array_equal(np.asarray(at[o][1]), np.asarray(v)):
                    out.fail('changed', f'{where}: {o} changed without any new sample')
                    return got
            continue
        phi = wavefront(c, b, j) * 2 * np.pi / b['wl']
        P = power(A * np.exp(1j * phi), size)
        tot = P.sum()
        P = P / tot
        one = dict(out_sr=P[h, h] / ref0, out_psf=P)
        if b['coro'] is not None:
            one['out_coronagraph_psf'] = power(coronagraphic(A, phi, b['coro']), size) / tot
        for o in names:
            if not bench.close(at[o][1], one[o], 0, tol * max(1e-6, float(np.max(np.abs(P if o != 'out_sr' else one[o]))))):
                out.fail('instant', f'{where}: wrong {o} (largest difference {np.max(np.abs(np.asarray(at[o][1]) - one[o])):.3g})')
                return got
        got[j] = {o: at[o][1] for o in ('out_psf', 'out_sr')}
        last = {o: at[o][1] for o in names}
        if b['metrics'] > 1:
            if at['out_psf_profile'][0] != t:
                out.fail('metrics', f'{where}: profile not refreshed')
                return got
            if not same_metrics(rec.objs[f'b{k}'], P, at, 'out_', tol):
                out.fail('metrics', f'{where}: profile metrics do not belong to the instantaneous PSF')
                return got
        if t / 1e9 >= b['start']:
            acc.append(one)
        else:
            out.stats['probe.before_start_samples'] += 1
    if not acc:
        return got
    fin = bench.values(rec.objs[f'b{k}'])
    where = f'{"PSF" if b["coro"] is None else "coronagraphic PSF"} b{k} at the end of {n} steps (start time {b["start"]} s, {len(acc)} samples)'
    mean = {o: sum(a[o] for a in acc) / len(acc) for o in acc[0]}
    m2 = {o: sum(np.asarray(a[o]) ** 2 for a in acc) / len(acc) for o in acc[0]}
    checks = [('out_int_sr', mean['out_sr'], float(mean['out_sr'])), ('out_int_psf', mean['out_psf'], float(mean['out_psf'].max()))]
    if b['coro'] is not None:
        checks.append(('out_int_coronagraph_psf', mean['out_coronagraph_psf'], float(mean['out_psf'].max())))
    for o, v, s in checks:
        if fin[o][0] != (n - 1) * step:
            out.fail('refresh', f'{where}: {o} has time {fin[o][0]} instead of {(n - 1) * step}')
            return got
        if not bench.close(fin[o][1], v, 0, tol * s):
            out.fail('average', f'{where}: {o} is not the average of the samples of its window (largest relative difference '
                                f'{np.max(np.abs(np.asarray(fin[o][1]) - v)) / s:.3g})')
            return got
    for o, base in (('out_std_psf', 'out_psf'),) + ((('out_std_coronagraph_psf', 'out_coronagraph_psf'),) if b['coro'] is not None else ()):
        var = np.maximum(m2[base] - mean[base] ** 2, 0)
        g = np.asarray(fin[o][1], dtype=float) ** 2
        if g.shape != var.shape or np.abs(g - var).max() > (3e-4 if f32 else 1e-12) * float(m2['out_psf'].max()) + 1e-6 * float(var.max()):
            out.fail('deviation', f'{where}: {o} is not the standard deviation of the samples of its window')
            return got
    if prof and not same_metrics(rec.objs[f'b{k}'], mean['out_psf'], fin, 'out_int_', tol):
        out.fail('metrics', f'{where}: profile metrics do not belong to the integrated PSF')
    out.stats['probe.integrations'] += 1
    out.nontrivial |= len(acc) >= 2
    return got


def same_metrics(obj, P, at, prefix, tol):
    from specula.lib import radial_profile as R
    prof, dist, cnt = R.compute_radial_profile(P / P.max(), xp=np, dtype=np.float64, return_counts=True)
    rad = dist / obj.nd
    ee = R.compute_encircled_energy(prof, cnt, xp=np, dtype=np.float64)
    name = {'out_': ('out_psf_profile', 'out_psf_fwhm', 'out_encircled_energy', 'out_encircled_energy_at_radius'),
            'out_int_': ('out_int_psf_profile', 'out_int_psf_fwhm', 'out_int_encircled_energy', 'out_int_encircled_energy_at_radius')}[prefix]
    tol = max(tol, 1e-6) * 10
    ok = bench.close(at[name[0]][1], np.vstack([rad, prof]), tol, tol) and bench.close(at[name[2]][1], np.vstack([rad, ee]), tol, tol)
    if obj.ee_radius_in_lambda_d is not None:
        ok &= bench.close(np.ravel(at[name[3]][1]), np.ravel(R.get_encircled_energy_at_distance(ee, rad, obj.ee_radius_in_lambda_d, xp=np, dtype=np.float64)), tol, tol)
    w = R.compute_fwhm_from_profile(prof, rad, xp=np, dtype=np.float64)
    if np.min(np.abs(prof - 0.5)) > 1e-3 and np.isfinite(w):
        ok &= bench.close(at[name[1]][1], w, 30 * tol, 30 * tol)
    return bool(ok)


def judge_buffer(out, c, k, b, rec, dtype, products):
    from dst_objs.dst_script import frame
    n, step = c['n'], c['step']
    ins = {}
    for q, f in enumerate(b['inputs']):
        shape = [f['shape'], f['shape'] + 1][:2 if f['kind'] == 'pixels' else 1]
        vals = {}
        for j in range(n):
            if f['sched'][j]:
                v = frame(f['seed'], j, shape).astype(dtype)
                vals[j] = v.ravel()[0] if f['kind'] == 'scalar' else v
        ins[f'i{q}'] = vals
    if b['products']:
        ins.update(products)
    pend, count, held = {}, 0, {}

    def emit():
        for name, vs in pend.items():
            held[name] = np.array(vs)
        return list(pend)

    def compare(vals, new, where, t):
        for name in ins:
            g, v = vals[f'{name}_buffered']
            if (g == t) != (name in new):
                return out.fail('refresh', f'{where}: {name}_buffered refreshed {g == t}, expected {name in new}')
            e = held.get(name)
            if (v is None) != (e is None) or v is not None and not (np.shape(v) == e.shape and np.array_equal(np.asarray(v, dtype=float), e.astype(float))):
                return out.fail('buffer', f'{where}: {name}_buffered has {None if v is None else np.shape(v)} samples that are not those of its window '
                                          f'({None if e is None else e.shape})')
        return False
    for j in range(n):
        t = j * step
        now = [name for name in ins if j in ins[name]]
        new = []
        if now:
            for name in now:
                pend.setdefault(name, []).append(ins[name][j])
            count += 1
            if count >= b['size']:
                new = emit()
                out.nontrivial |= count > 1
                pend, count = {}, 0
                out.stats['probe.buffers'] += 1
        else:
            out.stats['fault.sample_missing_steps'] += 1
        compare(rec.at[f'b{k}'][j], new, f'buffer b{k} of {b["size"]} at step {j} of {n}', t)
        if out.violations:
            return
    new = [] if not count else emit()
    if new:
        out.stats['probe.incomplete_windows'] += 1
    fin = bench.values(rec.objs[f'b{k}'])
    last = (n - 1) * step
    for name in ins:      # a window can also have been completed at the last step
        if name not in new and fin[f'{name}_buffered'][0] == last and rec.at[f'b{k}'][-1][f'{name}_buffered'][0] == last:
            new.append(name)
    compare(fin, new, f'buffer b{k} of {b["size"]} after the {n} steps', last)


def demodulate(x, f, fs, periods_shift=0.0):
    """Amplitude of the carrier, following the description of demodulate_signal (cumulated); all admissible lengths of the final average."""
    nt = len(x)
    if nt < 3:
        return [0.0]
    t = np.arange(nt) / fs
    w = 2 * np.pi * f
    lengths = set()
    for s in (-1e-5, 1e-5):
        periods = int(np.floor(t[-1] * f * (1 + s)))
        if periods <= 0:
            lengths.add(max(1, nt // 4))
            continue
        tv = (np.arange(periods) + 1) * fs / f
        err = np.abs(tv - np.round(tv))
        for thr in (8e-4, 1.2e-3):
            i = np.where(err <= thr)[0]
            if len(i):
                for z in (-1e-4, 0, 1e-4):
                    lengths.add(int(tv[i.max()] + z))
            else:
                for q in np.where(err <= err.min() + 2e-4)[0]:
                    for z in (-1e-4, 0, 1e-4):
                        lengths.add(int(tv[q] + z))
    cur = x - x.mean()
    cur = cur - (cur[-1] - cur[0]) / nt * np.arange(nt) - cur[0]
    ph = np.arctan2(np.mean(cur * np.sin(w * t)), np.mean(cur * np.cos(w * t)))
    s, co = np.sin(w * t - ph), np.cos(w * t - ph)
    amp = []
    for j in range(2, nt):
        y = x[:j + 1] - x[:j + 1].mean()
        y = y - (y[-1] - y[0]) / j * np.arange(j + 1) - y[0]
        amp.append(2 * np.hypot((y * s[:j + 1]).sum(), (y * co[:j + 1]).sum()) / (j + 1))
    return [float(np.mean(amp[max(0, nt - 2 - m):])) for m in sorted(lengths) if m > 0] or [amp[-1]]


def judge_demod(out, c, k, b, rec, f32):
    from dst_objs.dst_script import frame
    n, step, win = c['n'], c['step'], b['win']
    pend, got, held = [], {}, None
    for j in range(n):
        t = j * step
        g, v = rec.at[f'b{k}'][j]['output']
        done = None
        where = f'demodulator b{k} (window of {win} ns, modes {b["modes"]}) at step {j} of {n}'
        if b['sched'][j]:
            if pend and pend[-1] * step // win != t // win:
                done, pend = pend, []
                out.stats['probe.windows_closed_late'] += 1
            pend.append(j)
            if (t + step) // win != t // win:
                done, pend = pend, []
        else:
            out.stats['fault.sample_missing_steps'] += 1
        if (g == t) != (done is not None):
            out.fail('refresh', f'{where}: output refreshed {g == t}, expected {done is not None}')
            return got
        if done is None:
            if held is not None and not np.array_equal(v, held):
                out.fail('changed', f'{where}: output changed before the end of its window')
                return got
            continue
        held = np.array(v)
        got[j] = held
        d = np.diff(done)
        if len(done) > 1 and np.all(d == d[0]):
            fs = 1e9 / (step * d[0])
        elif len(done) > 1:
            out.stats['probe.uneven_windows'] += 1
            continue
        else:
            fs = 1e9 / step
        x = np.array([frame(b['seed'], q, (b['nm'],)) for q in done])
        out.stats['probe.windows'] += 1
        out.nontrivial |= len(done) > 1
        for q, m in enumerate(b['modes']):
            e = demodulate(x[:, m], b['freq'][q], fs)
            if not any(abs(float(v[q]) - z) <= 2e-4 * max(1.0, abs(z)) for z in e):
                out.fail('demodulation', f'{where}: amplitude {float(v[q])} of mode {m} at {b["freq"][q]} Hz instead of {e} ({len(done)} samples)')
                return got
    if pend:
        out.stats['probe.incomplete_windows'] += 1
    return got


def execute(case, d):
    out = Outcome()
    c = case
    world.reset(1, c['precision'])
    rec = bench.Rec()
    try:
        bench.run(params(c), order=Rng(c['order']), rec=rec)
    except Exception as e:
        sut_exception(out, e)
        return out
    out.stats['runs'] += 1
    f32 = c['precision'] == 1
    products = {}
    for k, b in enumerate(c['blocks']):
        if b['kind'] == 'psf':
            got = judge_psf(out, c, k, b, rec, f32)
            products[f'psf{k}'] = {j: v['out_psf'] for j, v in got.items()}
            products[f'sr{k}'] = {j: v['out_sr'] for j, v in got.items()}
        elif b['kind'] == 'demod':
            products[f'dem{k}'] = judge_demod(out, c, k, b, rec, f32)
        else:
            judge_buffer(out, c, k, b, rec, np.float32 if f32 else np.float64, products)
        if out.violations:
            break
    out.sim_time = c['n'] * c['step'] / 1e9
    out.digest = digest([[[k2, [[o, s[o][0], [] if s[o][1] is None else np.asarray(s[o][1]).tolist()] for o in s]] for s in rec.at[k2]] for k2 in sorted(rec.at)])
    out.key = digest([[b['kind'], b['sched'], b.get('size'), b.get('win'), b.get('start'), [f['sched'] for f in b.get('inputs', [])]] for b in c['blocks']])
    return out


def reductions(c):
    for k in range(len(c['blocks'])):
        if len(c['blocks']) > 1:
            d = copy.deepcopy(c)
            del d['blocks'][k]
            yield d
    for k, b in enumerate(c['blocks']):
        for a, v in (('sched', [1] * c['n']), ('rebind', False), ('coro', None), ('metrics', 0), ('store', False), ('products', False), ('hole', False), ('nd', None)):
            if a in b and b[a] != v:
                d = copy.deepcopy(c)
                d['blocks'][k][a] = v
                yield d
        for q in range(len(b.get('inputs', []))):
            if len(b['inputs']) > 1:
                d = copy.deepcopy(c)
                del d['blocks'][k]['inputs'][q]
                yield d
        if len(b.get('modes', [])) > 1:
            d = copy.deepcopy(c)
            d['blocks'][k]['modes'], d['blocks'][k]['freq'] = b['modes'][:1], b['freq'][:1]
            yield d
    if c['precision']:
        d = copy.deepcopy(c)
        d['precision'] = 0
        yield d
    for m in (c['n'] // 2, c['n'] - 1):
        if 1 < m < c['n']:
            d = copy.deepcopy(c)
            d['n'] = m
            yield d
