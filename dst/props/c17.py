"""C17: calibrations are the average of exactly the measurements taken, and existing calibrations are protected."""
import copy
import glob
import math
import os
import numpy as np
import yaml
from dst.core import Outcome, sut_exception
from dst.prng import Rng
from dst.sched import Chooser
from dst import bench, simfs, simrun, world
from dst.props.c06 import sched
from dst.run import digest

PROPERTY = 'C17'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=1500, budget=220), thorough=dict(cases=60000, budget=780))
RULE = ('one case = a real simulation of one to three calibrators (interaction matrix, several sensors at once, their reconstructors, slope '
        'null, subapertures, pupils) fed by the push-pull generator or by scripted commands, and by scripted sensors whose refresh schedules '
        'the seed chooses (sparse, late, never), in a random group order, sometimes on two simulated ranks, sometimes with calibration files '
        'already there, with and without permission to overwrite, sometimes with disk errors at the end; oracle = the averages recomputed '
        'from the schedules and the files restored afterwards; non-trivial = at least two pokes measured; distinct = by configuration')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'PushPullGenerator', 'ImCalibrator', 'MultiImCalibrator', 'RecCalibrator', 'MultiRecCalibrator',
                        'SnCalibrator', 'ShSubapCalibrator', 'PyrPupdataCalibrator', 'Intmat, Recmat, Slopes (save and restore)'],
                  stub=['scripted sensors and commands (dst_objs/dst_script.py)', 'MPI (dst/simmpi.py)', 'file system errors (dst/simfs.py)'])
ASSUMPTIONS = ['commands are push-pull like: at most one mode is non-zero at a time',
               'reconstructors are compared with the pseudo-inverse only when the calibrated matrix is well conditioned']
STEP = 1000000
FIXED = [dict(n=4, precision=0, order=1, nranks=1, sched_seed=1, policy='uniform', ranks=[0], pre=[], plan=None,
              gens=[dict(kind='pp', nmodes=2, first=0, amp=1.0, const=True, vect=None, pattern=[1, -1], ncycles=1, nsamples=1, rep=False, full=False, push=False)],
              sensors=[dict(ns=3, seed=1, sched=[1] * 4, rebind=False), dict(ns=3, seed=2, sched=[1] * 4, rebind=False)],
              cals=[dict(kind='multi', sensors=[0, 1], gen=0, copies=False, nmodes=2, full=False, overwrite=True, ext='', rec=None)]),
         dict(n=4, precision=0, order=1, nranks=2, sched_seed=1, policy='uniform', ranks=[0], pre=[], plan=None, split_multi=True,
              gens=[dict(kind='pp', nmodes=2, first=0, amp=1.0, const=True, vect=None, pattern=[1, -1], ncycles=1, nsamples=1, rep=False, full=False, push=False)],
              sensors=[dict(ns=3, seed=1, sched=[1] * 4, rebind=False), dict(ns=3, seed=2, sched=[1] * 4, rebind=False)],
              cals=[dict(kind='multi', sensors=[0, 1], gen=0, copies=False, nmodes=2, full=True, overwrite=True, ext='',
                         rec=dict(nmodes=2, tag=True, full=False, overwrite=True))])]


def generate(rng, tier, i):
    c = dict(precision=rng.choice([0, 0, 1]), order=rng.next(), nranks=2 if rng.chance(0.15) else 1, sched_seed=rng.next(),
             policy=rng.choice(['uniform', 'starve', 'bursty']), ranks=[rng.randint(0, 1) for _ in range(5)], gens=[], sensors=[], cals=[], pre=[], plan=None)
    nm = rng.randint(1, 5)
    for g in range(rng.weighted([(1, 4), (2, 1)])):
        if rng.chance(0.6):
            first = rng.choice([0, 0, 0, rng.randint(0, nm - 1)])
            push = rng.chance(0.3)
            c['gens'].append(dict(kind='pp', nmodes=nm, first=first, amp=rng.choice([1.0, 50.0, 0.1, -2.0]), const=rng.chance(0.4), push=push,
                                  vect=[round(rng.choice([1, -1]) * rng.uniform(0.5, 20), 2) * int(rng.chance(0.95)) for _ in range(nm - first)] if rng.chance(0.35) else None,
                                  pattern=rng.choice([[1, -1], [1, -1], [-1, 1], [1], [1, -1, 1], [0.5, -1, 2], [1, 0, -1]]),
                                  ncycles=rng.randint(1, 3), nsamples=1 if push else rng.choice([1, 1, 2, 3]), rep=rng.chance(0.3), full=rng.chance(0.3)))
        else:
            c['gens'].append(dict(kind='script', nmodes=nm, seed=rng.randint(1, 10**6), p=rng.choice([1.0, 1.0, 0.5]), zero=rng.choice([0.0, 0.2])))
    lens = [len(pushpull(g)) for g in c['gens'] if g['kind'] == 'pp']
    n = min(lens) if lens else rng.randint(2, 30)
    if rng.chance(0.2):
        n = rng.randint(1, n)
    c['n'] = n
    for s in range(rng.randint(1, 3)):
        w = rng.choice([sched(rng, n), sched(rng, n), [1] * n])
        if rng.chance(0.06):
            w = [0] * n
        if rng.chance(0.1):
            a = rng.randint(0, n - 1)
            w = [int(k >= a and w[k]) for k in range(n)]
        c['sensors'].append(dict(ns=rng.randint(1, 8), seed=rng.randint(1, 10**6), sched=w, rebind=rng.chance(0.4)))
    for k in range(rng.weighted([(1, 3), (2, 2), (3, 1)])):
        kind = rng.weighted([('im', 4), ('multi', 4), ('sn', 2), ('subap', 0.3), ('pup', 0.3)])
        g = rng.randint(0, len(c['gens']) - 1)
        d = dict(kind=kind, gen=g, overwrite=rng.chance(0.4), ext=rng.choice(['', '', '.fits']), rec=None)
        if kind == 'im':
            f = c['gens'][g].get('first', 0)
            d.update(sensor=rng.randint(0, len(c['sensors']) - 1), first=rng.choice([f, f, 0, rng.randint(0, nm)]), nmodes=rng.choice([nm, nm, max(1, nm - f), rng.randint(1, nm + 2)]))
            if rng.chance(0.5):
                d['rec'] = dict(nmodes=rng.choice([d['nmodes'], rng.randint(1, d['nmodes'])]), overwrite=rng.chance(0.4), template=rng.chance(0.2))
        elif kind == 'multi':
            ss = [rng.randint(0, len(c['sensors']) - 1) for _ in range(rng.randint(1, 3))]
            d.update(sensors=ss, copies=rng.chance(0.3), nmodes=rng.choice([nm, nm, rng.randint(1, nm + 1)]), full=True, ext='', one_tag=rng.chance(0.2))
            if rng.chance(0.5):
                d['rec'] = dict(nmodes=rng.choice([d['nmodes'], rng.randint(1, d['nmodes'])]), overwrite=rng.chance(0.4), tag=rng.chance(0.7), full=rng.chance(0.6))
        elif kind == 'sn':
            d.update(sensor=rng.randint(0, len(c['sensors']) - 1), template=rng.chance(0.2))
        else:
            d.update(seed=rng.randint(1, 10**6), sched=[1] * n)
        c['cals'].append(d)
    files = [f for fs in targets(c) for f in fs]
    for f in files:
        if rng.chance(0.1):
            c['pre'].append(f)
    if c['nranks'] == 1 and rng.chance(0.12):
        c['plan'] = rng.choice([dict(kind='eio', at=rng.randint(0, 25), n=rng.choice([1, 1, 3])), dict(kind='enospc', room=rng.randint(0, 12000), until=10**9),
                                dict(kind='erofs', match=rng.choice(['im', 'rec', 'slopenulls']))])
    return c


# ---------------------------------------------------------------- reference model

def radial_order(noll):
    n = 0
    while (n + 1) * (n + 2) // 2 < noll:
        n += 1
    return n


def pushpull(g):
    """The documented sequence: list of command vectors."""
    amp = []
    for m in range(g['first'], g['nmodes']):
        if g['vect'] is not None:
            amp.append(g['vect'][m - g['first']])
        elif g['const']:
            amp.append(g['amp'])
        else:
            amp.append(g['amp'] / math.sqrt(radial_order(m + 2)))
    pat = [1] if g['push'] else g['pattern']
    seq = []
    cycles = 1 if g['full'] else g['ncycles']
    for m in range(g['first'], g['nmodes']):
        if g['rep'] and not g['full']:
            pokes = [p for p in pat for _ in range(cycles)]
        else:
            pokes = list(pat) * cycles
        for p in pokes:
            v = np.zeros(g['nmodes'])
            v[m] = p * amp[m - g['first']]
            seq.append(v)
    if g['full']:
        seq = seq * g['ncycles']
    return [v for v in seq for _ in range(g['nsamples'])]


def script(g, n):
    rs = np.random.RandomState(g['seed'])
    values, fire = [], []
    for k in range(n):
        v = np.zeros(g['nmodes'])
        m, a, s, z = rs.randint(g['nmodes']), rs.uniform(0.2, 3), rs.choice([-1, 1]), rs.uniform()
        if z >= g['zero']:
            v[m] = round(a * s, 3)
        values.append(v)
        fire.append(int(rs.uniform() < g['p']))
    return values, fire


def commands(c, g):
    """Command in effect at every step."""
    g = c['gens'][g]
    if g['kind'] == 'pp':
        return pushpull(g)[:c['n']]
    values, fire = script(g, c['n'])
    cur, res = np.zeros(g['nmodes']), []
    for v, f in zip(values, fire):
        cur = v if f else cur
        res.append(cur)
    return res


def slopes(c, s, k):
    from dst_objs.dst_script import frame
    s = c['sensors'][s]
    dt = np.float32 if c['precision'] else np.float64
    return frame(s['seed'], k, (s['ns'],)).astype(dt).astype(float)


def average(c, sensor, gen, nmodes, first=0):
    """Expected interaction matrix [slopes, modes], number of pokes counted."""
    dt = np.float32 if c['precision'] else np.float64
    acc = np.zeros((c['sensors'][sensor]['ns'], nmodes))
    cnt = np.zeros(nmodes, dtype=int)
    for k, cmd in enumerate(commands(c, gen)):
        if not c['sensors'][sensor]['sched'][k]:
            continue
        nz = np.flatnonzero(cmd)
        if len(nz) and 0 <= nz[0] - first < nmodes:
            acc[:, nz[0] - first] += slopes(c, sensor, k) / float(dt(cmd[nz[0]]))
            cnt[nz[0] - first] += 1
    return acc / np.maximum(cnt, 1), cnt


# ---------------------------------------------------------------- the simulation

def targets(c):
    """Files each calibrator (and its reconstructor) writes, relative to the root, in the order of the blocks."""
    res = []
    for k, d in enumerate(c['cals']):
        if d['kind'] == 'im':
            res.append([f'im/c{k}.fits'])
            if d['rec']:
                res.append([f'rec/r{k}.fits'])
        elif d['kind'] == 'multi':
            res.append([f'im/c{k}_{j}.fits' for j in range(len(d['sensors']))] + ([f'im/full{k}.fits'] if d['full'] else []))
            if d['rec']:
                res.append(([f'rec/r{k}_{j}.fits' for j in range(len(d['sensors']))] if d['rec']['tag'] else []) +
                           ([f'rec/rfull{k}.fits'] if d['rec']['full'] else []))
        else:
            res.append([f"{ {'sn': 'slopenulls', 'subap': 'subapdata', 'pup': 'pupils'}[d['kind']]}/c{k}.fits"])
    return res


def params(c):
    p = {'main': bench.main(c['n'], STEP, root_dir='./calib')}
    rk = iter(range(10**6))

    def rank():
        return c['ranks'][next(rk) % len(c['ranks'])] % c['nranks']
    for k, g in enumerate(c['gens']):
        if g['kind'] == 'pp':
            q = {'class': 'PushPullGenerator', 'nmodes': g['nmodes'], 'ncycles': g['ncycles'], 'push_pull_type': 'PUSH' if g['push'] else 'PUSHPULL'}
            for a, b, dflt in (('first', 'first_mode', 0), ('const', 'constant_amp', False), ('nsamples', 'nsamples', 1), ('rep', 'repeat_ncycles', False),
                               ('full', 'repeat_full_sequence', False), ('vect', 'vect_amplitude', None), ('pattern', 'pattern', [1, -1])):
                if g[a] != dflt:
                    q[b] = g[a]
            if g['vect'] is None:
                q['amp'] = g['amp']
            p[f'gen{k}'] = q
        else:
            v, f = script(g, c['n'])
            p[f'gen{k}'] = {'class': 'DstScript', 'kind': 'value', 'shape': [g['nmodes']], 'schedule': f, 'values': [x.tolist() for x in v]}
    for k, s in enumerate(c['sensors']):
        p[f's{k}'] = {'class': 'DstScript', 'kind': 'slopes', 'shape': [s['ns']], 'seed': s['seed'], 'schedule': s['sched'], 'rebind': s['rebind']}
    owner = []
    for k, d in enumerate(c['cals']):
        gen = f"gen{d['gen']}." + ('output' if c['gens'][d['gen']]['kind'] == 'pp' else 'out')
        ow = {'overwrite': True} if d['overwrite'] else {}
        owner.append((f'cal{k}', d['overwrite']))
        if d['kind'] == 'im':
            p[f'cal{k}'] = {'class': 'ImCalibrator', 'nmodes': d['nmodes'], 'im_tag': f"c{k}{d['ext']}", **ow,
                            'inputs': {'in_slopes': f"s{d['sensor']}.out_slopes", 'in_commands': gen}}
            if d['first']:
                p[f'cal{k}']['first_mode'] = d['first']
            if d['rec']:
                tag = {'rec_tag': 'auto', 'tag_template': f'r{k}'} if d['rec']['template'] else {'rec_tag': f'r{k}'}
                p[f'rec{k}'] = {'class': 'RecCalibrator', 'nmodes': d['rec']['nmodes'], **tag, 'inputs': {'in_intmat': f'cal{k}.out_intmat'}}
                if d['rec']['overwrite']:
                    p[f'rec{k}']['overwrite'] = True
                owner.append((f'rec{k}', d['rec']['overwrite']))
        elif d['kind'] == 'multi':
            p[f'cal{k}'] = {'class': 'MultiImCalibrator', 'nmodes': d['nmodes'], 'n_inputs': len(d['sensors']), **ow,
                            'im_tag': f'c{k}_' if d.get('one_tag') else [f'c{k}_{j}' for j in range(len(d['sensors']))],
                            'inputs': {'in_slopes_list': [f's{j}.out_slopes' for j in d['sensors']],
                                       'in_commands_list': [gen] * (len(d['sensors']) if d['copies'] else 1)}}
            if d['full']:
                p[f'cal{k}']['full_im_tag'] = f'full{k}'
            if d['rec']:
                p[f'rec{k}'] = {'class': 'MultiRecCalibrator', 'nmodes': d['rec']['nmodes'],
                                'inputs': {'intmat_list': [f'cal{k}.out_intmat_list'] , 'full_intmat': f'cal{k}.out_intmat_full'}}
                if d['rec']['tag']:
                    p[f'rec{k}']['rec_tag'] = f'r{k}_'
                if d['rec']['full']:
                    p[f'rec{k}']['full_rec_tag'] = f'rfull{k}'
                if d['rec']['overwrite']:
                    p[f'rec{k}']['overwrite'] = True
                owner.append((f'rec{k}', d['rec']['overwrite']))
        elif d['kind'] == 'sn':
            tag = {'output_tag': 'auto', 'tag_template': f"c{k}{d['ext']}"} if d['template'] else {'output_tag': f"c{k}{d['ext']}"}
            p[f'cal{k}'] = {'class': 'SnCalibrator', **tag, **ow, 'inputs': {'in_slopes': f"s{d['sensor']}.out_slopes"}}
        elif d['kind'] == 'subap':
            p[f'img{k}'] = {'class': 'DstScript', 'kind': 'pixels', 'shape': [16, 16], 'seed': d['seed'], 'schedule': d['sched'], 'lo': 1.0, 'hi': 9.0}
            p[f'cal{k}'] = {'class': 'ShSubapCalibrator', 'subap_on_diameter': 4, 'energy_th': 0.1, 'output_tag': f"c{k}{d['ext']}", **ow,
                            'inputs': {'in_pixels': f'img{k}.out_pixels'}}
        else:
            p[f'img{k}'] = {'class': 'DstScript', 'kind': 'light', 'shape': [24, 24], 'schedule': d['sched'], 'values': [pupils().ravel().tolist()], 'rebind': True}
            p[f'img{k}']['values'] = [pupils().tolist()]
            p[f'cal{k}'] = {'class': 'PyrPupdataCalibrator', 'output_tag': f"c{k}{d['ext']}", **ow, 'inputs': {'in_i': f'img{k}.out_i'}}
    if c['nranks'] > 1:
        for name in p:
            if name != 'main':
                p[name]['target_rank'] = rank()
        for k, d in enumerate(c['cals']):
            if d['kind'] == 'multi' and d['rec']:
                p[f'rec{k}']['target_rank'] = p[f'cal{k}']['target_rank'] if not c.get('split_multi') else 1 - p[f'cal{k}']['target_rank']
    return p, owner


def pupils():
    a = np.zeros((24, 24))
    y, x = np.mgrid[:24, :24]
    for cy in (6, 17):
        for cx in (6, 17):
            a[(y - cy) ** 2 + (x - cx) ** 2 <= 16] = 10.0
    return a


def intmat(path):
    from specula.data_objects.intmat import Intmat
    return np.asarray(Intmat.restore(path).intmat, dtype=float)


def recmat(path):
    from specula.data_objects.recmat import Recmat
    return np.asarray(Recmat.restore(path).recmat, dtype=float)


def check_im(out, what, path, exp, tol, cnt):
    try:
        got = intmat(path)
    except Exception as e:
        out.fail('im-file', f'{what}: {path} cannot be restored: {type(e).__name__}: {e}')
        return
    if got.shape != exp.shape or not np.allclose(got, exp, rtol=0, atol=tol * max(1.0, np.abs(exp).max(initial=0))):
        bad = [m for m in range(exp.shape[1]) if got.shape != exp.shape or not np.allclose(got[:, m], exp[:, m], rtol=0, atol=tol * max(1.0, np.abs(exp).max()))]
        out.fail('average', f'{what}: calibrated matrix differs from the average of the measurements for modes {bad} (measured {cnt.tolist()} times): '
                            f'{got[:, bad[0]] if got.shape == exp.shape else got.shape} instead of {exp[:, bad[0]] if got.shape == exp.shape else exp.shape}')


def check_rec(out, what, path, im, nm, f32, stats):
    try:
        got = recmat(path)
    except Exception as e:
        out.fail('rec-file', f'{what}: {path} cannot be restored: {type(e).__name__}: {e}')
        return
    m = im[:, :nm]
    s = np.linalg.svd(m, compute_uv=False)
    nz = s[s > 1e-12 * max(s.max(initial=0), 1e-30)]
    if len(nz) == 0:
        exp = np.zeros((m.shape[1], m.shape[0]))
    elif nz.max() > 300 * nz.min():
        stats['probe.ill_conditioned'] += 1
        return
    else:
        exp = np.linalg.pinv(m)
    tol = (3e-3 if f32 else 1e-7) * max(np.abs(exp).max(initial=0), 1e-12)
    stats['probe.reconstructors'] += 1
    if got.shape != exp.shape or np.abs(got - exp).max(initial=0) > tol:
        out.fail('reconstructor', f'{what}: the saved reconstructor is not the pseudo-inverse of the calibrated matrix: {got.ravel()[:4]} instead of {exp.ravel()[:4]} (shapes {got.shape}, {exp.shape})')


def judge(out, c, touched):
    """Content of the files after a run; `touched` = files hit by an injected fault."""
    f32 = bool(c['precision'])
    tol = 2e-5 if f32 else 1e-11
    pokes = 0
    for k, d in enumerate(c['cals']):
        what = f"{d['kind']} cal{k}"
        if d['kind'] == 'im':
            exp, cnt = average(c, d['sensor'], d['gen'], d['nmodes'], d['first'])
            if not any(c['sensors'][d['sensor']]['sched']):
                continue
            pokes += int(cnt.sum())
            f = f'calib/im/c{k}.fits'
            if f not in touched:
                check_im(out, what, f, exp, tol, cnt)
            if d['rec'] and f'calib/rec/r{k}.fits' not in touched:
                check_rec(out, f'{what} rec', f'calib/rec/r{k}.fits', exp, d['rec']['nmodes'], f32, out.stats)
        elif d['kind'] == 'multi':
            res = [average(c, s, d['gen'], d['nmodes']) for s in d['sensors']]
            pokes += sum(int(r[1].sum()) for r in res)
            if not any(any(c['sensors'][s]['sched']) for s in d['sensors']):
                continue
            for j, (exp, cnt) in enumerate(res):
                if f'calib/im/c{k}_{j}.fits' not in touched:
                    check_im(out, f'{what} sensor {j}', f'calib/im/c{k}_{j}.fits', exp, tol, cnt)
                if d['rec'] and d['rec']['tag'] and f'calib/rec/r{k}_{j}.fits' not in touched:
                    check_rec(out, f'{what} rec {j}', f'calib/rec/r{k}_{j}.fits', exp, d['rec']['nmodes'], f32, out.stats)
            full = np.vstack([r[0] for r in res])
            if not d['full']:
                if os.path.exists('calib/im/None.fits'):
                    out.fail('unnamed-full-matrix', f'{what}: full_im_tag is not set, but the full matrix is saved as None.fits')
            elif f'calib/im/full{k}.fits' not in touched:
                check_im(out, f'{what} full', f'calib/im/full{k}.fits', full, tol, sum(r[1] for r in res))
            if d['rec'] and d['rec']['full'] and f'calib/rec/rfull{k}.fits' not in touched:
                check_rec(out, f'{what} full rec', f'calib/rec/rfull{k}.fits', full, d['rec']['nmodes'], f32, out.stats)
        elif d['kind'] == 'sn':
            from specula.data_objects.slopes import Slopes
            ks = [j for j in range(c['n']) if c['sensors'][d['sensor']]['sched'][j]]
            f = f'calib/slopenulls/c{k}.fits'
            if not ks or f in touched:
                continue
            pokes += len(ks)
            exp = np.mean([slopes(c, d['sensor'], j) for j in ks], axis=0)
            try:
                got = np.asarray(Slopes.restore(f).slopes, dtype=float)
            except Exception as e:
                out.fail('sn-file', f'{what}: cannot be restored: {type(e).__name__}: {e}')
                continue
            if got.shape != exp.shape or not np.allclose(got, exp, rtol=0, atol=tol):
                out.fail('average', f'{what}: slope null {got} instead of the mean of the {len(ks)} measurements {exp}')
        else:
            f = f"calib/{'subapdata' if d['kind'] == 'subap' else 'pupils'}/c{k}.fits"
            if f in touched:
                continue
            from specula.data_objects.subap_data import SubapData
            from specula.data_objects.pupdata import PupData
            try:
                (SubapData if d['kind'] == 'subap' else PupData).restore(f)
            except Exception as e:
                out.fail('file', f'{what}: {f} cannot be restored: {type(e).__name__}: {e}')
    return pokes


def unmeasured(c):
    """Calibrators that never receive a measurement have no defined result (an error, an empty or a null file)."""
    return any(not any(c['sensors'][d['sensor']]['sched']) for d in c['cals'] if d['kind'] in ('im', 'sn')) or \
        any(not any(any(c['sensors'][s]['sched']) for s in d['sensors']) for d in c['cals'] if d['kind'] == 'multi')


def execute(case, d):
    c = case
    out = Outcome()
    world.reset(1, precision=c['precision'])
    p, owner = params(c)
    pre = list(c['pre'])
    for f in pre:
        os.makedirs(os.path.dirname('calib/' + f), exist_ok=True)
        with open('calib/' + f, 'wb') as g:
            g.write(b'previous calibration ' * 40)
    protected = [f for fs, (name, ow) in zip(targets(c), owner) for f in fs if f in pre and not ow]
    before = simfs.tree('calib') if os.path.isdir('calib') else {}
    rec = bench.Rec()
    order, err, touched, fired = None, None, set(), []
    out.stats['runs'] += 1
    if c['nranks'] == 1:
        fs = simfs.Fs(os.path.realpath('calib'), [c['plan']] if c['plan'] else [], out.stats)
        try:
            with fs.installed():
                bench.run(p, only=(), order=Rng(c['order']), rec=rec)
        except Exception as e:
            err = e
        fired = fs.fired
        steps = len(rec.t)
    else:
        with open('p.yml', 'w') as f:
            yaml.safe_dump(p, f, sort_keys=False)
        ch = Chooser(Rng(c['sched_seed']), c['policy'], c.get('_trace'), starved=['rank0'])
        r = simrun.run_ranks('p.yml', c['nranks'], ch, precision=c['precision'])
        out.trace = ch.rec
        order = r['sched'].order
        out.stats['probe.rank_runs'] += 1
        steps = None
        if r['errors']:
            err = r['errors'][0][1]
        elif r['status'] != 'ok':
            out.fail(r['status'], f"ranks stop: {r['detail']}")
    after = simfs.tree('calib') if os.path.isdir('calib') else {}
    out.sim_time = c['n'] * STEP / 1e9
    pokes = 0
    if protected:
        out.stats['fault.existing_file_protected'] += 1
        bad = [f for f in pre if before.get(f) != after.get(f)] if steps == 0 else [f for f in protected if before.get(f) != after.get(f)]
        if bad:
            out.fail('overwritten', f'{bad} existed and overwriting was not requested, but it was changed')
        elif not out.violations or c['nranks'] == 1:
            if err is None:
                out.fail('not-told', f'{protected} existed and overwriting was not requested, but the run ended normally')
            elif steps:
                out.fail('late-protection', f'{protected} existed and overwriting was not requested, but the run went through {steps} steps before {type(err).__name__}: {err}')
        if out.violations and out.violations[0]['sig'] == 'deadlock':     # the other rank waits for the one that refused to start
            out.violations[:] = []
    elif unmeasured(c):
        if err is not None and not fired and not isinstance(err, (AttributeError, ValueError, TypeError, np.linalg.LinAlgError)):
            sut_exception(out, err)
        if err is None:
            pokes = judge(out, c, ())
    elif fired:
        touched = {os.path.join('calib', f) for f in after if before.get(f) == after.get(f)}
        if err is None:
            # a failed operation that made no difference (creating a directory that exists) needs no error
            pokes = judge(out, c, ())
            stale = [f for f in pre if before.get(f) == after.get(f)]
            if stale or out.violations:
                msg = stale or out.violations[0]['msg']
                out.violations[:] = []
                out.fail('silent-io-error', f'file operations failed ({fired[:3]}), the run ended normally and results are missing: {msg}')
        else:
            allf = {f'calib/{f}' for fs_ in targets(c) for f in fs_}
            hit = {f for f in allf if not os.path.exists(f)} | {os.path.join('calib', x[3]) for x in fired} | touched
            hit |= {f for f in allf if any(os.path.dirname(f) == os.path.dirname(h) for h in hit)}   # temporaries beside their target
            pokes = judge(out, c, hit)
    elif err is not None:
        sut_exception(out, err)
    elif not out.violations:
        for f in pre:
            if before.get(f) == after.get(f):
                out.fail('not-stored', f'{f}: overwriting was requested but the previous calibration is still there')
        pokes = judge(out, c, ())
        for k, x in enumerate(c['cals']):
            o = rec.objs.get(f'cal{k}')
            if x['kind'] == 'im' and o is not None and any(c['sensors'][x['sensor']]['sched']):
                exp = average(c, x['sensor'], x['gen'], x['nmodes'], x['first'])[0]
                got = np.stack([np.asarray(s.modes[0], dtype=float).ravel() for s in o.outputs['out_single_im']], axis=1)
                if got.shape != exp.shape or not np.allclose(got, exp, rtol=0, atol=(2e-5 if c['precision'] else 1e-11) * max(1.0, np.abs(exp).max())):
                    out.fail('single-im', f'cal{k}: the single-mode matrices differ from the averages of the measurements')
        if c.get('split_multi') and out.violations:
            msg = out.violations[0]['msg']
            out.violations[:] = []
            out.fail('multi-rec-on-other-process', msg)
    out.stats['probe.pokes'] += pokes
    out.nontrivial = pokes >= 2 or bool(protected)
    out.digest = digest([sorted(after), pokes, type(err).__name__, order, [v['msg'] for v in out.violations]])
    out.key = digest([{k: v for k, v in c.items() if k not in ('order', 'sched_seed', '_trace', '_seed')}, order])
    return out


def reductions(c):
    def mod(**kw):
        d = copy.deepcopy(c)
        d.update(kw)
        d.pop('_trace', None)
        return d
    if c['nranks'] > 1:
        yield mod(nranks=1)
    if c['plan']:
        yield mod(plan=None)
    if c['pre']:
        yield mod(pre=[])
    for k in range(len(c['cals'])):
        if len(c['cals']) > 1:
            d = mod(pre=[])
            del d['cals'][k]
            yield d
    for k, x in enumerate(c['cals']):
        for a, v in (('rec', None), ('overwrite', True), ('ext', ''), ('first', 0)):
            if a in x and x[a] != v:
                d = mod()
                d['cals'][k][a] = v
                yield d
        if x['kind'] == 'multi' and len(x['sensors']) > 1:
            d = mod()
            d['cals'][k]['sensors'] = x['sensors'][:-1]
            yield d
    for k, s in enumerate(c['sensors']):
        for a, v in (('sched', [1] * len(s['sched'])), ('ns', 2), ('rebind', False)):
            if s[a] != v:
                d = mod()
                d['sensors'][k][a] = v
                yield d
    for m in (c['n'] // 2, c['n'] - 1):
        if 0 < m < c['n']:
            yield mod(n=m)
    if c['precision']:
        yield mod(precision=0)
