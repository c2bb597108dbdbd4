"""C07: turbulent layers are their frozen screens displaced by wind times elapsed time, whatever the update schedule."""
import math
import numpy as np
from dst.core import Outcome, sut_exception
from dst.prng import Rng
from dst import bench, world
from dst.run import digest

PROPERTY = 'C07'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=260, budget=110), thorough=dict(cases=20000, budget=780))
RULE = ('one case = an atmosphere (cyclic or infinite screens, with or without separate uplink list) with random layers, winds, directions, '
        'seeing and time offsets, updated on a random schedule with gaps by the real Simul; oracle for cyclic screens = a scan of the same '
        'screens at one pixel per step, displaced by the accumulated wind x time with linear interpolation and wrap; for infinite screens = '
        'overlap with the last layer seen at a whole-pixel position, and a twin run with another update schedule; distinct = by winds and schedules')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'AtmoEvolution', 'AtmoEvolutionUpDown', 'AtmoInfiniteEvolution', 'AtmoInfiniteEvolutionUpDown',
                        'InfinitePhaseScreen', 'phase screen cache'],
                  stub=['scripted seeing and wind sources (dst_objs/dst_script.py)'])
ASSUMPTIONS = ['the wind seen at an update applies to the whole time since the previous update (the convention of the code)',
               'lines of infinite screens that enter the field are compared between schedules for winds along an axis only, and not for the uplink list']

PITCH = 0.25


def generate(rng, tier, i):
    fam = rng.weighted([('cyclic', 3), ('infinite', 2)])
    step = rng.choice([1000000, 2000000, 500000, 1666667, 100000000])
    nl = rng.randint(1, 3 if fam == 'cyclic' else 2)
    n = rng.randint(4, 40 if fam == 'cyclic' else 24)
    c = dict(fam=fam, step=step, n=n, order=rng.next(), precision=rng.weighted([(0, 4), (1, 1)]) if fam == 'cyclic' else 0, updown=rng.chance(0.4),
             pupil=rng.choice([4, 6, 10]) if fam == 'cyclic' else rng.choice([10, 16, 20]), seed=rng.randint(1, 1000), nl=nl,
             size=rng.choice([32, 64]), heights=[rng.choice([0.0, 100.0, 5000.0]) for _ in range(nl)], fov=rng.choice([0.0, 0.0, 10.0]),
             zenith=rng.choice([None, None, 30.0]))
    w = [rng.randint(1, 5) for _ in range(nl)]
    c['cn2'] = [x / sum(w) for x in w]
    c['L0'] = [25.0] * nl if rng.chance(0.6) else [rng.choice([10.0, 25.0, 40.0]) for _ in range(nl)]
    constant = rng.chance(0.5)

    def speed():
        # pixels per step
        lim = 6.0 if fam == 'cyclic' else 1.5
        v = rng.weighted([(rng.randint(0, 4) / 4.0, 3), (rng.nice(0, lim), 3), (rng.randint(0, 2), 1)])
        return -v if rng.chance(0.15) else v

    def direction():
        if fam == 'infinite':
            return rng.weighted([(rng.choice([0, 90, 180, 270]), 4), (math.degrees(math.atan2(3, 4)), 2), (rng.choice([30.0, 45.0, 200.5, 310.0, -60.0]), 3)])
        return rng.weighted([(rng.choice([0, 90, 180, 270, 360, -90]), 4), (rng.choice([30.0, 45.0, 100.5, 200.0, -20.0]), 2)])
    c['const'] = constant
    c['extra'] = [rng.weighted([(0, 4), (rng.randint(1, 4), 2), (rng.nice(-3, 3), 1)]) for _ in range(nl)]      # in steps
    c['extra_up'] = [rng.weighted([(0, 1), (rng.randint(1, 5), 2), (rng.nice(-3, 4), 1)]) for _ in range(nl)]
    if fam == 'infinite' and not constant:
        c['extra'] = [0] * nl       # with a changing wind the offset also changes direction and sign
        c['extra_up'] = [0] * nl if rng.chance(0.5) else c['extra_up']
    dirs = [direction() for _ in range(nl)]
    if constant:
        sp = [speed() for _ in range(nl)]
        c['wind'] = [sp] * n
        c['dir'] = [dirs] * n
        c['seeing'] = [rng.nice(0.3, 2)] * n
    else:
        c['wind'] = [[speed() for _ in range(nl)] for _ in range(n)]
        if rng.chance(0.5):
            c['dir'] = [dirs] * n
        else:
            c['dir'] = [[direction() for _ in range(nl)] if rng.chance(0.3) or not j else None for j in range(n)]
            for j in range(n):
                c['dir'][j] = c['dir'][j] or c['dir'][j - 1]
        c['seeing'] = [rng.weighted([(rng.nice(0.3, 2), 8), (0.0, 1)]) for _ in range(n)]
    p = rng.choice([0.0, 0.0, 0.2, 0.6])

    def sched():
        return [1] + [int(not rng.chance(p)) for _ in range(n - 1)] if rng.chance(0.8) else [int(not rng.chance(0.5)) for _ in range(n)]
    c['sched'] = {k: sched() for k in ('seeing', 'wind', 'dir')}
    if constant:        # the values must be the same in the twin run
        for k in c['sched']:
            c['sched'][k][0] = 1
    return c


def reductions(case):
    out = []
    n = case['n']
    for m in (n // 2, n - 1):
        if 2 <= m < n:
            d = dict(case, n=m, wind=case['wind'][:m], dir=case['dir'][:m], seeing=case['seeing'][:m],
                     sched={k: v[:m] for k, v in case['sched'].items()})
            out.append(d)
    if case['nl'] > 1:
        for l in range(case['nl']):
            keep = [j for j in range(case['nl']) if j != l]
            tot = sum(case['cn2'][j] for j in keep)
            d = dict(case, nl=len(keep), cn2=[case['cn2'][j] / tot for j in keep], wind=[[r[j] for j in keep] for r in case['wind']],
                     dir=[[r[j] for j in keep] for r in case['dir']])
            for k in ('heights', 'L0', 'extra', 'extra_up'):
                d[k] = [case[k][j] for j in keep]
            out.append(d)
    if case['updown']:
        out.append(dict(case, updown=False))
    for j in range(n):
        for k, v in case['sched'].items():
            if not v[j]:
                out.append(dict(case, sched=dict(case['sched'], **{k: v[:j] + [1] + v[j + 1:]})))
    return out[:30]


def params(c, full=False, scan=None):
    step = c['step'] / 1e9
    n = scan or c['n']
    p = {'main': bench.main(n, c['step'], pixel_pupil=c['pupil'], pixel_pitch=PITCH)}
    if c['zenith'] is not None:
        p['main']['zenithAngleInDeg'] = c['zenith']
    nl = c['nl']

    def src(name, vals, shape, sched):
        p[name] = {'class': 'DstScript', 'kind': 'value', 'shape': [shape], 'values': vals, 'schedule': sched}
    if scan:
        src('seeing', [[1.0]] * n, 1, None)
        src('wind', [[PITCH / step] * nl] * n, nl, None)
        src('dir', [[0.0] * nl] * n, nl, None)
    else:
        s = {k: None for k in c['sched']} if full else c['sched']
        src('seeing', [[v] for v in c['seeing']], 1, s['seeing'])
        src('wind', [[v * PITCH / step for v in r] for r in c['wind']], nl, s['wind'])
        src('dir', [list(map(float, r)) for r in c['dir']], nl, s['dir'])
    a = {'class': 'AtmoEvolution', 'simul_params_ref': 'main', 'L0': c['L0'], 'heights': c['heights'], 'Cn2': c['cn2'], 'fov': c['fov'],
         'seed': c['seed'], 'inputs': {'seeing': 'seeing.out', 'wind_speed': 'wind.out', 'wind_direction': 'dir.out'}}
    if c['fam'] == 'cyclic':
        a.update(pixel_phasescreens=c['size'])
    else:
        a['class'] = 'AtmoInfiniteEvolution'
    ext = [0.0] * nl if scan else [e * step for e in c['extra']]
    if c['updown'] and not scan:
        a['class'] += 'UpDown'
        a['extra_delta_time_down'] = ext
        a['extra_delta_time_up'] = [e * step for e in c['extra_up']]
    else:
        a['extra_delta_time'] = ext
    if c['fam'] == 'cyclic':
        a['data_dir'] = '.'
    p['atmo'] = a
    return p


def layers(rec, name, k):
    """Phase of every layer of the list after step k, with generation times."""
    return [(g, None if v is None else v[1]) for g, v in rec.at['atmo'][k][name]]


def execute(case, d):
    out = Outcome()
    world.reset(1, case['precision'])
    try:
        rec = bench.run(params(case), order=Rng(case['order']), only=('atmo',))
        out.stats['runs'] += 1
        if case['fam'] == 'cyclic':
            ref = bench.run(params(case, scan=case['size']), only=('atmo',), path='scan.yml')
        elif case['const']:
            ref = bench.run(params(case, full=True), only=('atmo',), path='twin.yml')
        else:
            ref = None
        out.stats['runs'] += ref is not None
    except Exception as e:
        sut_exception(out, e)
        return out
    n, step = case['n'], case['step']
    if rec.t != [k * step for k in range(n)]:
        out.fail('step-count', f'{len(rec.t)} steps')
        return out
    f32 = np.float32 if case['precision'] else np.float64
    # inputs held by the sources after each step, and updates of the atmosphere
    nl = case['nl']
    cur = dict(seeing=[0.0], wind=[0.0] * nl, dir=[0.0] * nl)
    vals = dict(seeing=[[s] for s in case['seeing']], wind=[[v * PITCH / (step / 1e9) for v in r] for r in case['wind']], dir=case['dir'])
    held, upd = [], []
    for k in range(n):
        u = False
        for name in cur:
            if case['sched'][name][k]:
                cur[name] = [float(f32(x)) for x in vals[name][k]]
                u = True
        held.append({a: list(b) for a, b in cur.items()})
        upd.append(u)
    lists = [('layer_list', case['extra'])] + ([('layer_list_down', case['extra']), ('layer_list_up', case['extra_up'])] if case['updown'] else [])
    good = True
    for name, _ in lists:
        for k in range(n):
            for l, (g, v) in enumerate(layers(rec, name, k)):
                if (g == k * step) != upd[k]:
                    out.fail('refresh', f'{name}[{l}] at step {k}: generation time {g}, inputs refreshed: {upd[k]}')
                    good = False
                if not upd[k] and k and not np.array_equal(v, layers(rec, name, k - 1)[l][1]):
                    out.fail('changed-without-update', f'{name}[{l}] changed at step {k} where no input was refreshed')
                    good = False
    compared = 0
    if good:
        if case['fam'] == 'cyclic':
            compared = check_cyclic(out, case, rec, ref, held, upd, lists)
        else:
            compared = check_infinite(out, case, rec, ref, held, upd, lists)
    out.sim_time = n * step / 1e9
    out.stats['probe.layers_compared'] = compared
    out.stats['fault.skipped_updates'] = n - sum(upd)
    out.stats['fault.wind_changes'] = sum(held[k]['wind'] != held[k - 1]['wind'] for k in range(1, n))
    out.stats['fault.seeing_changes'] = sum(held[k]['seeing'] != held[k - 1]['seeing'] for k in range(1, n))
    out.stats['probe.' + case['fam'] + ('_updown' if case['updown'] else '')] = 1
    out.nontrivial = compared > 0
    out.digest = digest([[k, [v for _, v in layers(rec, name, k)]] for name, _ in lists for k in range(n)])
    out.key = digest([case['fam'], case['wind'], case['sched'], case['extra'], step])
    return out


def scale(seeing):
    return seeing ** (5.0 / 6.0) if seeing > 0 else 0.0


def positions(case, held, upd, l, extra):
    """Displacement in pixels of layer l at every update: accumulated, and with the constant offset."""
    step = case['step'] / 1e9
    last, pos, res = 0, 0.0, []
    for k in range(case['n']):
        if upd[k]:
            w = held[k]['wind'][l]
            pos += w * (k - last) * step / PITCH
            last = k
            res.append(pos + w * extra[l] * step / PITCH)
        else:
            res.append(None)
    return res


def check_cyclic(out, case, rec, ref, held, upd, lists):
    from scipy.ndimage import rotate
    size, n = case['size'], case['n']
    cnt = 0
    for l in range(case['nl']):
        S = np.stack([layers(ref, 'layer_list', q)[l][1][:, 0] for q in range(size)], axis=1).astype(np.float64)
        top = np.abs(S).max()
        atol = top * (4e-4 if case['precision'] else 1e-8)
        h = S.shape[0]
        for q in range(size):
            v = layers(ref, 'layer_list', q)[l][1]
            e = S[:, np.arange(q, q + h) % size]
            if not np.all(np.abs(v - e) <= atol):
                out.fail('not-frozen', f'layer {l} displaced by {q} pixels of {size} does not show the same screen as at the previous positions '
                                       f'(largest difference {np.abs(v - e).max():.3g} nm of {top:.3g})')
                return cnt
        yy, xx = np.mgrid[:h, :h] - (h - 1) / 2.0
        disc = np.hypot(yy, xx) <= h / 2.0 - 1.5
        for name, extra in lists:
            for k, pos in enumerate(positions(case, held, upd, l, extra)):
                if pos is None:
                    continue
                p0 = int(math.floor(pos))
                r = pos - p0
                e = (1 - r) * S[:, np.arange(p0, p0 + h) % size] + r * S[:, np.arange(p0 + 1, p0 + 1 + h) % size]
                wdf, wdi = np.modf(np.array([held[k]['dir'][l]], dtype=np.float32 if case['precision'] else np.float64) / 90.0)
                e = np.rot90(e, int(wdi[0]))
                m = np.ones_like(disc)
                if wdf[0]:
                    e = rotate(e, float(wdf[0] * 90), reshape=False, order=1)
                    m = disc
                sc = scale(held[k]['seeing'][0])
                e = e * sc
                v = layers(rec, name, k)[l][1]
                cnt += 1
                if v.shape != e.shape or not np.all(np.abs(v - e)[m] <= atol * max(sc, 1e-3) * (1 + abs(pos) / size)):
                    out.fail('displacement', f'{name}[{l}] at step {k}: expected the screen displaced by {pos:.6f} pixels (seeing {held[k]["seeing"][0]}, '
                                             f'direction {held[k]["dir"][l]}), largest difference {np.abs(v - e)[m].max() if v.shape == e.shape else v.shape} nm of {top * sc:.4g}')
                    return cnt
    return cnt


def check_infinite(out, case, rec, ref, held, upd, lists):
    n = case['n']
    step = case['step'] / 1e9
    cnt = 0
    f = len(lists) > 1
    for l in range(case['nl']):
        D, last, eff = np.zeros(2), 0, 0.0
        pos = 0.0
        anchor = None
        for k in range(n):
            if not upd[k]:
                continue
            w, di, see = held[k]['wind'][l], held[k]['dir'][l], held[k]['seeing'][0]
            u = np.array([math.sin(math.radians(di)), math.cos(math.radians(di))])     # axis 0, axis 1
            pos += w * (k - last) * step / PITCH
            last = k
            new = pos + w * case['extra'][l] * step / PITCH
            D = D + (new - eff) * u
            eff = new
            if anchor:
                anchor['max'] = np.maximum(anchor['max'], D)
            cur = layers(rec, 'layer_list', k)[l][1]
            todo = [('layer_list', D)]
            if f:
                todo += [('layer_list_down', D), ('layer_list_up', D + w * (case['extra_up'][l] - case['extra'][l]) * step / PITCH * u)]
            sc = scale(see)
            for name, P in todo:
                v = layers(rec, name, k)[l][1]
                if sc == 0.0:
                    if np.any(v):
                        out.fail('seeing', f'{name}[{l}] at step {k} is not flat with zero seeing')
                        return cnt
                    continue
                if anchor is None or name == 'layer_list' and k == anchor['k']:
                    continue
                h = v.shape[0]
                rel = P - anchor['D']
                ok = True
                idx = []
                for ax in (0, 1):
                    c = np.arange(h) + rel[ax]
                    fl = np.floor(c + 1e-9).astype(int)
                    fr = c - fl
                    lost = int(math.ceil((anchor['max'] - anchor['D'])[ax] - 1e-9))
                    good = (fl >= max(0, lost if rel[ax] < lost else 0)) & (fl + (fr > 1e-6) < h)
                    idx.append((fl, fr, good))
                    ok = ok and good.any()
                if not ok:
                    continue
                A = anchor['v']

                def take(di0, di1):
                    i = np.clip(idx[0][0] + di0, 0, h - 1)
                    j = np.clip(idx[1][0] + di1, 0, h - 1)
                    return A[np.ix_(i, j)]
                fr0, fr1 = idx[0][1][:, None], idx[1][1][None, :]
                e = (1 - fr0) * (1 - fr1) * take(0, 0) + fr0 * (1 - fr1) * take(1, 0) + (1 - fr0) * fr1 * take(0, 1) + fr0 * fr1 * take(1, 1)
                e = e * sc / anchor['sc']
                m = idx[0][2][:, None] & idx[1][2][None, :]
                top = np.abs(A).max() * sc / anchor['sc']
                diff = np.abs(v - e)[m].max()
                cnt += int(m.sum() > 3)
                # the code does not interpolate fractions below 1e-4 of a pixel
                if diff > 5e-4 * top:
                    out.fail('displacement', f'{name}[{l}] at step {k}: not the screen seen at step {anchor["k"]} displaced by {rel[1]:.4f}, {rel[0]:.4f} pixels '
                                             f'(largest difference {diff:.4g} nm of {top:.4g} over {int(m.sum())} pixels)')
                    return cnt
            if sc and np.all(np.abs(D - np.round(D)) < 1e-7):
                anchor = dict(k=k, D=np.round(D), max=np.round(D), v=cur, sc=sc)
        if ref is not None and not case['updown'] and held[0]['dir'][l] % 90 == 0:
            prev = None
            for k in range(n):
                if upd[k]:
                    a, b = layers(rec, 'layer_list', k)[l][1], layers(ref, 'layer_list', k)[l][1]
                    cnt += 1
                    if not np.all(np.abs(a - b) <= 1e-3 * np.abs(b).max()):
                        out.fail('schedule-dependent', f'layer {l} at step {k} (last update at {prev}) differs from the run updated at every step by '
                                                       f'{np.abs(a - b).max():.4g} nm of {np.abs(b).max():.4g}')
                        return cnt
                    prev = k
    return cnt
