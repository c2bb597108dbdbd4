"""C05: detector frames and integration windows account for every step exactly once."""
import copy
import numpy as np
from dst.core import Outcome, sut_exception
from dst.prng import Rng
from dst import bench, world
from dst.run import digest

PROPERTY = 'C05'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=1500, budget=200), thorough=dict(cases=60000, budget=780))
RULE = ('one case = random light sources (refresh schedules with stalls chosen by the seed), detectors and windowed integrators of '
        'random exposure, start time, binning, gains and noise settings, run by the real Simul in a random group order; oracle = '
        'sum of the light of exactly the steps of each exposure, recomputed from the seeds, checked after every step; non-trivial = '
        'at least one complete exposure; distinct = by schedules and exposure parameters')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'CCD', 'WindowedIntegration', 'Intensity', 'Pixels', 'rebin2d'],
                  stub=['scripted light and signal sources (dst_objs/dst_script.py)'])
ASSUMPTIONS = ['random noise is judged through its mean, at ten standard deviations']

STEPS = [1000000, 500000, 333333, 2000000, 1666667, 100000000]


def generate(rng, tier, i):
    step = rng.choice(STEPS)
    n = rng.randint(2, 40)
    c = dict(step=step, n=n, precision=rng.choice([0, 1]), order=rng.next(), sources=[], dets=[], wins=[])
    for k in range(rng.randint(1, 2)):
        c['sources'].append(dict(seed=rng.randint(1, 10**6), size=rng.choice([4, 6, 8]), holes=[], rebind=rng.chance(0.3)))
    for k in range(rng.randint(1, 3)):
        off = rng.weighted([(0, 5), (rng.randint(1, step - 1), 1)])
        d = dict(src=rng.randint(0, len(c['sources']) - 1), m=rng.randint(1, 7), start=rng.weighted([(0, 3), (rng.randint(1, n + 2), 2)]) * step + off,
                 bandw=rng.choice([1.0, 300.0, 0.5]), qe=rng.choice([1.0, 1.0, 0.3, 2.0]), binning=rng.choice([1, 1, 2]),
                 gains=rng.chance(0.3), back=rng.choice([0.0, 0.0, 5.0]), dark=rng.choice([0.0, 0.0, 3.0]),
                 noise=rng.weighted([('none', 6), ('readout', 1), ('photon', 1), ('cic', 1), ('excess', 1)]),
                 qesame=False)
        c['dets'].append(d)
    for k in range(rng.randint(0, 2)):
        off = rng.weighted([(0, 5), (rng.randint(1, step - 1), 1)])
        c['wins'].append(dict(seed=rng.randint(1, 10**6), m=rng.randint(1, 7), start=rng.weighted([(0, 3), (rng.randint(1, n + 2), 2)]) * step + off,
                              on_dt=rng.chance(0.5), size=rng.randint(1, 4), holes=[]))
    # stalls: steps at which a source delivers nothing; the last step of an exposure always has light (see known finding)
    for s, src in enumerate(c['sources']):
        if rng.chance(0.4):
            last = set()
            for d in c['dets']:
                if d['src'] == s:
                    last |= set(boundaries(d, c))
            p = rng.choice([0.1, 0.3, 0.7])
            src['holes'] = [k for k in range(n) if k not in last and rng.chance(p)]
    for w in c['wins']:
        if rng.chance(0.4):
            last = set(boundaries(w, c))
            w['holes'] = [k for k in range(n) if k not in last and rng.chance(0.3)]
    return c


FIXED = [dict(finding='no-light-at-last-step', step=1000000, n=6, precision=0, order=1,
              sources=[dict(seed=5, size=4, holes=[2], rebind=False)],
              dets=[dict(src=0, m=3, start=0, bandw=1.0, qe=1.0, binning=1, gains=False, back=0.0, dark=0.0, noise='none')], wins=[])]


def first(d, c):
    return max(0, -(-d['start'] // c['step']))


def boundaries(d, c):
    f = first(d, c)
    return list(range(f + d['m'] - 1, c['n'], d['m']))


def shape(s):
    """(rows, columns) of the light of a source: one in three is not square."""
    return [s['size'], s['size'] + 2 * (s['seed'] % 3 == 0)]


def params(c):
    p = {'main': bench.main(c['n'], c['step'])}
    for k, s in enumerate(c['sources']):
        p[f's{k}'] = {'class': 'DstScript', 'kind': 'light', 'shape': shape(s), 'seed': s['seed'], 'lo': 1.0, 'hi': 1e5, 'rebind': s['rebind'],
                      'schedule': [int(j not in s['holes']) for j in range(c['n'])]}
    for k, d in enumerate(c['dets']):
        sz = shape(c['sources'][d['src']])
        q = {'class': 'CCD', 'simul_params_ref': 'main', 'size': [sz[1], sz[0]], 'dt': d['m'] * c['step'] / 1e9, 'bandw': d['bandw'],
             'quantum_eff': d['qe'], 'binning': d['binning'], 'start_time': d['start'] / 1e9, 'inputs': {'in_i': f's{d["src"]}.out_i'}}
        if d['back']:
            q.update(background_noise=True, background_level=d['back'])
        if d['dark']:
            q.update(darkcurrent_noise=True, darkcurrent_level=d['dark'])
        if d['gains']:
            q['pixelGains'] = 1.25
        if d['noise'] == 'readout':
            q.update(readout_noise=True, readout_level=2.0)
        if d['noise'] in ('photon', 'excess'):
            q.update(photon_noise=True)
        if d['noise'] == 'excess':
            q.update(excess_noise=True, excess_delta=1.0)
        if d['noise'] == 'cic':
            q.update(cic_noise=True, cic_level=0.5)
        p[f'd{k}'] = q
    for k, w in enumerate(c['wins']):
        p[f'v{k}'] = {'class': 'DstScript', 'kind': 'value', 'shape': [w['size']], 'seed': w['seed'],
                      'schedule': [int(j not in w['holes']) for j in range(c['n'])]}
        p[f'w{k}'] = {'class': 'WindowedIntegration', 'simul_params_ref': 'main', 'n_elem': w['size'], 'dt': w['m'] * c['step'] / 1e9,
                      'start_time': w['start'] / 1e9, 'update_time_on_dt': w['on_dt'], 'inputs': {'input': f'v{k}.out'}}
    return p


def execute(case, d):
    out = Outcome()
    world.reset(1, case['precision'])
    try:
        rec = bench.run(params(case), order=Rng(case['order']))
    except Exception as e:
        sut_exception(out, e)
        return out
    n, step = case['n'], case['step']
    out.stats['runs'] += 1
    if rec.t != [k * step for k in range(n)]:
        out.fail('step-count', f'{len(rec.t)} steps at {rec.t[:3]}...')
        return out
    frames = 0
    from dst_objs.dst_script import frame
    f32 = case['precision'] == 1
    rtol = 2e-5 if f32 else 1e-10
    for k, q in enumerate(case['dets']):
        frames += check_det(out, case, k, q, rec, frame, rtol, f32)
    for k, w in enumerate(case['wins']):
        frames += check_win(out, case, k, w, rec, frame, rtol, f32)
    if case.get('finding'):
        for v in out.violations:
            v['sig'] = case['finding']
    out.sim_time = n * step / 1e9
    out.stats['probe.frames'] = frames
    out.stats['fault.light_missing_steps'] = sum(len(s['holes']) for s in case['sources'])
    out.stats['fault.signal_missing_steps'] = sum(len(s['holes']) for s in case['wins'])
    out.stats['probe.unaligned_start'] = sum(x['start'] % step != 0 for x in case['dets'] + case['wins'])
    out.nontrivial = frames > 0
    out.digest = digest([[t, [[b, {o: v[0] for o, v in s.items() if not isinstance(v, list)}]]] for b in sorted(rec.at) for t, s in zip(rec.t, rec.at[b])])
    out.key = digest([case['step'], case['n'], [[x['m'], x['start']] for x in case['dets'] + case['wins']], [s['holes'] for s in case['sources']]])
    return out


def check_det(out, c, k, q, rec, frame, rtol, f32):
    s = c['sources'][q['src']]
    sz = tuple(shape(s))
    step, n = c['step'], c['n']
    ends = boundaries(q, c)
    acc = np.zeros(sz)
    begin = first(q, c)
    exp_i, exp_t = np.zeros(sz), -1
    ref_pix = None
    got = 0
    for j in range(n):
        t = j * step
        g_pix, pix = rec.at[f'd{k}'][j]['out_pixels']
        g_i, ii = rec.at[f'd{k}'][j]['integrated_i']
        if j >= begin and j not in s['holes']:
            v = frame(s['seed'], j, sz, 1.0, 1e5)
            if f32:
                v = v.astype(np.float32).astype(float)
            acc += v * (step / 1e9) * q['bandw']
        if j in ends:
            exp_i, exp_t = acc, t
            acc = np.zeros(sz)
            got += 1
        where = f'detector d{k} (exposure {q["m"]} steps, start {q["start"]} ns, step {step} ns) at step {j}'
        if (g_pix == t) != (exp_t == t) or (g_i == t) != (exp_t == t):
            out.fail('frame-schedule', f'{where}: frame {"delivered" if g_pix == t else "not delivered"} '
                     f'(pixels time {g_pix}, integrated intensity time {g_i}); expected {"a frame" if exp_t == t else "none"}')
            return got
        if exp_t < 0:
            continue
        if not bench.close(ii, exp_i, rtol):
            out.fail('frame-flux', f'{where}: integrated intensity total {ii.sum()!r} instead of {exp_i.sum()!r} (ratio {ii.sum() / exp_i.sum():.6f})')
            return got
        if exp_t == t:
            check_pixels(out, where, q, pix, exp_i, rtol)
            ref_pix = pix
        elif not np.array_equal(ref_pix, pix):
            out.fail('frame-changed', f'{where}: the frame delivered at t={exp_t} changed without a new frame')
        if out.violations:
            return got
    return got


def check_pixels(out, where, q, pix, exp_i, rtol):
    b = q['binning']
    e = exp_i.reshape(exp_i.shape[0] // b, b, exp_i.shape[1] // b, b).sum(3).sum(1) * q['qe']
    light = e + q['back'] + q['dark']
    g = 1.25 if q['gains'] else 1.0
    if q['noise'] == 'none':
        e, tol = light * g, 0.0
    elif q['noise'] == 'readout':
        e, tol = light * g, 10 * 2.0 * g
    elif q['noise'] == 'cic':
        ok = np.all((np.abs(pix - light * g) <= rtol * light + 1e-9) | (np.abs(pix - (light + 1) * g) <= rtol * light + 1e-9))
        if not ok:
            out.fail('frame-pixels', f'{where}: clock-induced charge changes pixels by something else than 0 or 1 electron')
        return
    else:
        e = light * g - q['dark']
        var = light * (2.0 if q['noise'] == 'excess' else 1.0)
        tol = 10 * np.sqrt(var + 1) * g + 25
    bad = np.abs(pix - e) > tol + rtol * np.abs(e)
    if pix.shape != e.shape or bad.any():
        out.fail('frame-pixels', f'{where} (noise {q["noise"]}, binning {b}): pixels {np.asarray(pix).ravel()[:3]} instead of {e.ravel()[:3]}')


def check_win(out, c, k, w, rec, frame, rtol, f32):
    step, n = c['step'], c['n']
    ends = boundaries(w, c)
    begin = first(w, c)
    acc = np.zeros(w['size'])
    got = 0
    last_run = -1
    for j in range(n):
        t = j * step
        g, v = rec.at[f'w{k}'][j]['output']
        fired = j not in w['holes']
        x = None
        if fired and j >= begin:
            x = frame(w['seed'], j, (w['size'],))
            if f32:
                x = x.astype(np.float32).astype(float)
            acc += x / w['m']
        where = f'windowed integration w{k} (window {w["m"]} steps, start {w["start"]} ns) at step {j}'
        want = (j in ends) if w['on_dt'] else fired
        if (g == t) != want:
            out.fail('window-schedule', f'{where}: {"refreshed" if g == t else "not refreshed"}, expected the contrary')
            return got
        if j in ends:
            got += 1
            if not bench.close(v, acc, rtol, 1e-6 if f32 else 1e-12):
                out.fail('window-value', f'{where}: {v} instead of {acc}')
                return got
            acc = np.zeros(w['size'])
    return got


def reductions(c):
    if c.get('finding'):
        return
    for key in ('dets', 'wins'):
        for k in range(len(c[key])):
            if len(c['dets']) + len(c['wins']) > 1:
                d = copy.deepcopy(c)
                del d[key][k]
                yield d
    for k, s in enumerate(c['sources']):
        if s['holes']:
            d = copy.deepcopy(c)
            d['sources'][k]['holes'] = s['holes'][:len(s['holes']) // 2]
            yield d
    for k, q in enumerate(c['dets']):
        for f, v in (('noise', 'none'), ('binning', 1), ('gains', False), ('back', 0.0), ('dark', 0.0), ('qe', 1.0), ('bandw', 1.0)):
            if q[f] != v:
                d = copy.deepcopy(c)
                d['dets'][k][f] = v
                yield d
    if c['precision']:
        d = copy.deepcopy(c)
        d['precision'] = 0
        yield d
    for m in (c['n'] // 2, c['n'] - 1):
        if 0 < m < c['n']:
            d = copy.deepcopy(c)
            d['n'] = m
            yield d
