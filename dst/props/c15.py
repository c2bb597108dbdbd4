"""C15: disk caches of phase screens and kernels never alter results or corrupt runs."""
import copy
import os
import shutil
import numpy as np
from dst.core import Outcome, sut_exception, SimCrash
from dst.prng import Rng
from dst.sched import Sched, Chooser, Deadlock, StepLimit
from dst import simfs, world
from dst.run import digest

PROPERTY = 'C15'
LEVEL = 'exploration'
TECHNIQUE = 'seeded search over request histories of several simulated processes sharing one cache directory, with crashes and I/O errors'
TIERS = dict(quick=dict(cases=1500, budget=300), thorough=dict(cases=60000, budget=780))
RULE = ('one case = rounds of 1..3 simulated processes, concurrent under a seeded scheduler with a switch at every file operation, each making requests '
        '(phase screens, AtmoEvolution, AtmoRandomPhase, LGS and Gaussian kernels, whole SH sensors) with nearly equal parameters on one cache directory, '
        'some of them crashing or meeting a full disk, I/O errors or an unwritable directory, and files truncated between rounds; the last round repeats '
        'every request without faults; oracle = the same request on a private empty directory; non-trivial = some request found a file in the cache; '
        'distinct = by requests and interleaving')
COMPONENTS = dict(real=['phasescreens_manager', 'calc_phasescreen', 'ConvolutionKernel', 'GaussianConvolutionKernel', 'AtmoEvolution', 'AtmoRandomPhase', 'SH',
                        'astropy.io.fits on a real directory'],
                  stub=['failing file operations and process crashes', 'scheduler of the concurrent processes'])
ASSUMPTIONS = ['a process that meets an error while writing or reading the cache may stop with an exception, but the data it gets must be right',
               'a crash loses what was not written; a power cut can also truncate files, never rearrange their contents']

PITCHES = [0.05, 0.0504, 0.04996, 0.0500001, 0.1, 0.1004, 0.3, 1 / 3, 0.015625, 0.016]
L0S = [25.0, 25.4, 24.6, 25.00004, 25, 10.0, 10.00001, 0.3, 1e5]


def gen_screens(rng):
    n = rng.choice([1, 1, 2, 3])
    return dict(kind='screens', L0=[rng.choice(L0S) for _ in range(rng.choice([1, n]))], dim=rng.choice([16, 16, 15, 17, 32]), pitch=rng.choice(PITCHES),
                seeds=[rng.randint(1, 3) + j for j in range(n)], prec=rng.choice([0, 1, 1]))


def gen_evol(rng):
    n = rng.choice([1, 2, 3])
    same = rng.chance(0.5)
    return dict(kind='evol', n=n, L0=rng.choice(L0S) if same else [rng.choice(L0S) for _ in range(n)], dim=rng.choice([32, 64]), pitch=rng.choice(PITCHES),
                seed=rng.randint(1, 3), prec=rng.choice([0, 1, 1]))


def gen_rand(rng):
    return dict(kind='rand', L0=rng.choice(L0S), dim=rng.choice([16, 32, 16]), pitch=rng.choice(PITCHES), seed=rng.randint(1, 3), prec=rng.choice([0, 1, 1]))


THIRDS = [1.0, 1.0001, 1 / 3, 0.1 + 0.2, 2.0, 0.7000000000000001]


def gen_kernel(rng):
    n = rng.randint(2, 4)
    return dict(kind='kernel', dimx=n, dimy=n, pxscale=rng.choice([0.1, 0.2, 1 / 3, 0.1 + 0.2]), pupil=rng.choice([8.0, 8.2]), dim=rng.choice([8, 9, 12]),
                launcher=rng.choice([[5.0, 5.0, 0.0], [5.0, 0.0, 0.0], [0.0, 5.0, 0.0], [5.0, 5.0, 0.1]]), seeing=rng.choice([0.0, 0.5]),
                lsize=rng.choice(THIRDS), zfocus=rng.choice([90e3, 90e3, 91e3, -1]), theta=rng.choice([[0.0, 0.0], [0.1, 0.0], [0.0, 0.1]]),
                airmass=rng.choice([1.0, 1.0, 1.2]), over=rng.choice([1, 1, 2]), fft=rng.chance(0.7), pos=rng.chance(0.7), prec=rng.choice([0, 1, 1]),
                prof=[gen_profile(rng) for _ in range(rng.choice([1, 1, 2, 3]))])


def gen_profile(rng):
    k = rng.choice([1, 2, 3])
    return [[85e3 + 4e3 * j + rng.choice([0.0, 0.0, 100.0]) for j in range(k)], [rng.choice([1.0, 0.5, 0.50001]) for _ in range(k)]]


def gen_gauss(rng):
    n = rng.randint(2, 4)
    return dict(kind='gauss', dimx=n, dimy=n, pxscale=rng.choice([0.1, 0.2, 1 / 3, 0.1 + 0.2]), pupil=rng.choice([8.0, 8.2]), dim=rng.choice([8, 9, 12]),
                lsize=rng.choice(THIRDS), over=rng.choice([1, 1, 2]), fft=rng.chance(0.7), pos=rng.chance(0.7), prec=rng.choice([0, 1, 1]),
                again=rng.choice([1, 1, 2]))


def gen_sh(rng):
    return dict(kind='sh', nsub=rng.choice([2, 4]), npx=rng.choice([4, 6]), pxscale=rng.choice([0.5, 0.6]), pitch=rng.choice([0.1, 0.12]),
                lsize=rng.choice(THIRDS), tel=rng.choice([[], [5.0, 0.0, 0.0], [0.0, 5.0, 0.0]]), tt=rng.choice([[0.0, 0.0], [0.3, 0.0]]),
                focus=rng.choice([90e3, 91e3]), prec=rng.choice([0, 1, 1]), prof=[gen_profile(rng) for _ in range(rng.choice([1, 2]))])


GEN = dict(screens=gen_screens, evol=gen_evol, rand=gen_rand, kernel=gen_kernel, gauss=gen_gauss, sh=gen_sh)


def near(rng, r):
    """The same request, or one that differs in one parameter."""
    x = copy.deepcopy(r)
    if rng.chance(0.35):
        return x
    y = GEN[r['kind']](rng)
    k = rng.choice([k for k in x if k != 'kind'])
    if k in ('dimx', 'dimy') and r['kind'] in ('kernel', 'gauss') and rng.chance(0.5):
        x['dimx'] = x['dimy'] = y['dimx']
    elif k == 'dimy':
        x['dimy'] = rng.randint(1, x['dimx'])
    elif k == 'dimx':
        x['dimx'] = x['dimy'] = y['dimx']
    elif k in ('L0', 'seeds', 'n') and r['kind'] in ('screens', 'evol'):
        for q in ('L0', 'seeds', 'n'):
            if q in x:
                x[q] = y[q]
    else:
        x[k] = y[k]
    return x


def generate(rng, tier, i):
    kinds = rng.weighted([(['screens'], 4), (['screens', 'evol', 'rand'], 2), (['kernel'], 4), (['gauss'], 2), (['kernel', 'gauss'], 1), (['sh'], 1),
                          (['sh', 'gauss', 'kernel'], 1)])
    bases = [GEN[rng.choice(kinds)](rng) for _ in range(rng.choice([1, 1, 2]))]
    c = dict(kinds=kinds, rounds=[], sched_seed=rng.next(), policy=rng.choice(['uniform', 'uniform', 'prio', 'starve']), sub=rng.choice(['', 'a/b']))
    for _ in range(rng.randint(1, 3)):
        np_ = rng.choice([1, 1, 2, 3]) if 'sh' not in kinds else 1
        procs = []
        for _ in range(np_):
            plan = None
            if rng.chance(0.35):
                k = rng.weighted([('kill', 4), ('eio', 2), ('enospc', 2), ('erofs', 1), ('rdfail', 1)])
                plan = dict(kind=k, at=rng.randint(0, 12))
                if k == 'kill':
                    plan['keep'] = rng.choice([0.0, 0.3, 0.9, 1.0])
                elif k == 'eio':
                    plan['n'] = rng.choice([1, 1, 2, 50])
                elif k == 'enospc':
                    plan['room'] = rng.choice([0, 100, 2880, 2881, 3000, 5760, 7000, 12000])
                elif k == 'erofs':
                    plan['match'] = ''
                else:
                    plan['at'] = rng.randint(0, 2)
                    plan['n'] = rng.choice([1, 5])
            procs.append(dict(reqs=[near(rng, rng.choice(bases)) for _ in range(rng.choice([1, 1, 2, 3]))], plan=plan))
        c['rounds'].append(dict(procs=procs, cut=[rng.random(), rng.choice([0.0, 0.3, 0.6, 0.95, -1])] if rng.chance(0.25) else None))
    return c


# ------------------------------------------------------------------------------------------------ the requests, on the real code
def ask(r, d):
    """List of arrays the block works with."""
    k = r['kind']
    if k == 'screens':
        from specula.lib.phasescreen_manager import phasescreens_manager
        return list(phasescreens_manager(np.array(r['L0'], dtype=float), r['dim'], r['pitch'], d, np, r['prec'], seed=np.array(r['seeds'])))
    if k in ('evol', 'rand'):
        from specula.data_objects.simul_params import SimulParams
        from specula.data_objects.source import Source
        from specula.processing_objects.atmo_evolution import AtmoEvolution
        from specula.processing_objects.atmo_random_phase import AtmoRandomPhase
        sp = SimulParams(pixel_pupil=8, pixel_pitch=r['pitch'], total_time=1, time_step=1)
        if k == 'evol':
            o = AtmoEvolution(sp, L0=r['L0'], heights=[1000.0 * j for j in range(r['n'])], Cn2=[[1.0], [0.5, 0.5], [0.5, 0.25, 0.25]][r['n'] - 1], fov=0.0,
                              data_dir=d, pixel_phasescreens=r['dim'], seed=r['seed'], precision=r['prec'], target_device_idx=-1)
            return list(o.phasescreens)
        o = AtmoRandomPhase(sp, L0=r['L0'], data_dir=d, source_dict={'s': Source([0.0, 0.0], 5, 500)}, pixel_phasescreens=r['dim'], seed=r['seed'],
                            precision=r['prec'], target_device_idx=-1)
        return [o.phasescreens]
    from specula.data_objects.convolution_kernel import ConvolutionKernel
    from specula.data_objects.gaussian_convolution_kernel import GaussianConvolutionKernel
    if k == 'kernel':
        o = ConvolutionKernel(dimx=r['dimx'], dimy=r['dimy'], pxscale=r['pxscale'], pupil_size_m=r['pupil'], dimension=r['dim'], launcher_pos=r['launcher'],
                              seeing=r['seeing'], launcher_size=r['lsize'], zfocus=r['zfocus'], theta=r['theta'], airmass=r['airmass'],
                              oversampling=r['over'], return_fft=r['fft'], positive_shift_tt=r['pos'], data_dir=d, precision=r['prec'], target_device_idx=-1)
        res = []
        for alt, inten in r['prof']:
            o.prepare_for_sh(sodium_altitude=np.array(alt), sodium_intensity=np.array(inten), current_time=len(res))
            res.append(o.kernels.copy())
        return res
    if k == 'gauss':
        o = GaussianConvolutionKernel(dimx=r['dimx'], dimy=r['dimy'], pxscale=r['pxscale'], dimension=r['dim'], spot_size=r['lsize'], pupil_size_m=r['pupil'],
                                      oversampling=r['over'], return_fft=r['fft'], positive_shift_tt=r['pos'], data_dir=d, precision=r['prec'],
                                      target_device_idx=-1)
        res = []
        for j in range(r['again']):
            o.prepare_for_sh(current_time=j)
            res.append(o.kernels.copy())
        return res
    return ask_sh(r, d)


def ask_sh(r, d):
    from specula.base_value import BaseValue
    from specula.data_objects.electric_field import ElectricField
    from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
    from specula.data_objects.simul_params import SimulParams
    from specula.processing_objects.sh import SH
    npx = 8 * r['nsub']
    sp = SimulParams(pixel_pupil=npx, pixel_pitch=r['pitch'], total_time=1, time_step=1)
    llt = LaserLaunchTelescope(simul_params=sp, spot_size=r['lsize'], tel_position=r['tel'], beacon_focus=r['focus'], beacon_tt=r['tt'],
                               target_device_idx=-1, precision=r['prec'])
    o = SH(wavelengthInNm=600, subap_wanted_fov=r['pxscale'] * r['npx'], sensor_pxscale=r['pxscale'], subap_on_diameter=r['nsub'], subap_npx=r['npx'],
           laser_launch_tel=llt, data_dir=d, target_device_idx=-1, precision=r['prec'])
    ef = ElectricField(npx, npx, r['pitch'], S0=100.0, target_device_idx=-1, precision=r['prec'])
    ef.phaseInNm[:] = np.add.outer(np.arange(npx) ** 2, np.arange(npx)) * 0.5
    alt, inten = BaseValue(target_device_idx=-1, precision=r['prec']), BaseValue(target_device_idx=-1, precision=r['prec'])
    o.inputs['in_ef'].set(ef)
    o.inputs['sodium_altitude'].set(alt)
    o.inputs['sodium_intensity'].set(inten)
    res = []
    for t, (a, b) in enumerate(r['prof'], 1):
        alt.value, inten.value = np.array(a), np.array(b)
        ef.generation_time = alt.generation_time = inten.generation_time = t
        if t == 1:
            o.setup()
        o.check_ready(t)
        o.trigger()
        o.post_trigger()
        res.append(o.outputs['out_i'].i.copy())
    return res


def reference(r, d):
    """Each item computed alone, by a new block with an empty directory."""
    if 'prof' in r:
        res = [ask(dict(r, prof=[p]), os.path.join(d, str(j)))[0] for j, p in enumerate(r['prof'])]
    elif r['kind'] == 'screens':
        L0 = r['L0'] if len(r['L0']) > 1 else r['L0'] * len(r['seeds'])
        res = [ask(dict(r, L0=[x], seeds=[s]), os.path.join(d, str(j)))[0] for j, (x, s) in enumerate(zip(L0, r['seeds']))]
    else:
        res = ask(r, d)
    return [np.array(a, copy=True) for a in res]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype.newbyteorder('=') == b.dtype.newbyteorder('=') and np.array_equal(a, b)


def compare(out, r, exp, got, who):
    for j, (a, b) in enumerate(zip(exp, got)):
        if not same(a, b):
            a, b = np.asarray(a), np.asarray(b)
            d = f'largest difference {np.abs(a - b).max():.6g} of {np.abs(a).max():.6g}' if a.shape == b.shape else ''
            out.fail(f'wrong-data:{r["kind"]}', f'{who}: request {r}: item {j} is {b.dtype}{b.shape} instead of {a.dtype}{a.shape} computed without a cache; {d}')
            return
    if len(exp) != len(got):
        out.fail(f'wrong-data:{r["kind"]}', f'{who}: request {r}: {len(got)} items instead of {len(exp)}')


def rkey(r):
    return digest(r)


def execute(case, d):
    c = case
    out = Outcome()
    world.reset(1, precision=1)
    refs = {}
    rounds = c['rounds'] + [dict(procs=[dict(reqs=[], plan=None)], cut=None)]
    for rd in c['rounds']:
        for p in rd['procs']:
            for r in p['reqs']:
                k = rkey(r)
                if k not in refs:
                    with world.quiet():
                        try:
                            refs[k] = reference(r, os.path.join(d, 'ref', k))
                        except Exception as e:
                            sut_exception(out, e, 'request-refused')
                            return out
                    rounds[-1]['procs'][0]['reqs'].append(r)
    cache = os.path.join(d, 'cache')
    os.makedirs(cache)
    where = os.path.join(cache, c['sub']) if c['sub'] else cache
    rng = Rng(c['sched_seed'])
    order, hits = [], 0
    ch = Chooser(rng.fork('r'), c['policy'], c.get('_trace'), starved=('p0',))
    for n, rd in enumerate(rounds):
        if rd['cut']:
            files = sorted(k for k, v in simfs.tree(cache).items() if v is not None)
            if files:
                f = os.path.join(cache, files[int(rd['cut'][0] * len(files))])
                size = os.path.getsize(f)
                os.truncate(f, max(0, size - 2880) if rd['cut'][1] < 0 else int(size * rd['cut'][1]))
                out.stats['fault.truncated_file'] += 1
        hits += bool(simfs.tree(cache))
        sched = Sched(ch, max_steps=100000)
        router = simfs.Router()
        results, state = {}, {}
        for q, p in enumerate(rd['procs']):
            fs = simfs.Fs(cache, [p['plan']] if p['plan'] else [], out.stats, yield_point=sched.yield_ if len(rd['procs']) > 1 else None)

            def body(q=q, p=p, fs=fs):
                results[q] = []
                for r in p['reqs']:
                    try:
                        results[q].append((r, ask(r, where)))
                    except SimCrash:
                        return
                    except Exception as e:
                        state[q] = (r, e)
                        return
            t = sched.spawn(f'p{q}', body)
            t.ctx['fs'] = fs
        sched.switch_in = lambda t: router.enter(t.ctx['fs'])
        sched.switch_out = lambda t: router.enter(None)
        with world.quiet(), router.installed():
            try:
                sched.run()
            except (Deadlock, StepLimit) as e:
                out.fail('no-progress', f'round {n}: {e}')
        order.append(list(sched.order))
        out.stats['runs'] += len(rd['procs'])
        out.stats['fault.concurrent_process'] += len(rd['procs']) - 1
        for q, p in enumerate(rd['procs']):
            who = f'round {n} process {q}'
            for r, got in results.get(q, []):
                out.stats['requests'] += 1
                compare(out, r, refs[rkey(r)], got, who)
            fs = sched.tasks[q].ctx['fs']
            if sched.tasks[q].exc is not None:
                raise sched.tasks[q].exc
            if q in state and not fs.fired:
                r, e = state[q]
                x = Outcome()
                sut_exception(x, e, 'request-failed')
                out.fail(x.violations[0]['sig'] + ':' + r['kind'], f'{who}: request {r}: ' + x.violations[0]['msg'])
        if out.violations:
            break
    out.trace = ch.rec
    out.nontrivial = hits > 0
    out.key = digest([{k: v for k, v in c.items() if k not in ('sched_seed', '_trace')}, order])
    out.digest = digest([sorted(simfs.tree(cache)) and len(simfs.tree(cache)), order, [v['msg'] for v in out.violations]])
    shutil.rmtree(os.path.join(d, 'ref'), ignore_errors=True)
    shutil.rmtree(cache, ignore_errors=True)
    return out


def reductions(c):
    def mod():
        x = copy.deepcopy(c)
        x.pop('_trace', None)
        return x
    for n in range(len(c['rounds'])):
        if len(c['rounds']) > 1:
            x = mod()
            del x['rounds'][n]
            yield x
        for q, p in enumerate(c['rounds'][n]['procs']):
            if len(c['rounds'][n]['procs']) > 1:
                x = mod()
                del x['rounds'][n]['procs'][q]
                yield x
            if p['plan']:
                x = mod()
                x['rounds'][n]['procs'][q]['plan'] = None
                yield x
            for j in range(len(p['reqs'])):
                if len(p['reqs']) > 1:
                    x = mod()
                    del x['rounds'][n]['procs'][q]['reqs'][j]
                    yield x
                for k in ('prof', 'L0', 'seeds'):
                    v = p['reqs'][j].get(k)
                    if isinstance(v, list) and len(v) > 1 and p['reqs'][j]['kind'] not in ('evol',):
                        x = mod()
                        x['rounds'][n]['procs'][q]['reqs'][j][k] = v[:1]
                        yield x
        if c['rounds'][n]['cut']:
            x = mod()
            x['rounds'][n]['cut'] = None
            yield x
