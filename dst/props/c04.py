"""C04: same parameters and seeds give bit-identical results in every environment."""
import copy
import json
import os
import random
import shutil
import numpy as np
from dst.core import Outcome, sut_exception
from dst.prng import Rng
from dst import chains, world
from dst.clock import SimClock
from dst.run import digest

PROPERTY = 'C04'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=160, budget=200), thorough=dict(cases=6000, budget=780))
TECHNIQUE = 'seeded search over environments (hash seed, clock, global generators, cache state, run history, batches)'
RULE = ('one case = one random AO chain or random-block bench of the repository, run once as reference in a clean state and then again in '
        'perturbed environments chosen by the seed: warm/cold cache, after an unrelated run, other states of the global '
        'random generators, scripted wall clock with jumps, shuffled group order, another interpreter with another hash '
        'seed, inside a multi-simulation batch; every output of every block at every step must be bit-identical; '
        'non-trivial = at least two perturbed runs; distinct = by reference log digest and variants')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'every block of the chain', 'phase-screen cache on a scratch directory'],
                  stub=['wall clock (SimClock)', 'state of the global random generators'])
ASSUMPTIONS = ['same machine, libraries and thread count (OMP_NUM_THREADS=1)']
VARIANTS = ['warm', 'cold', 'polluted', 'globals', 'clock', 'order', 'hash', 'batch']


def generate(rng, tier, i):
    vs = [v for v in VARIANTS if rng.chance(0.45)]
    if len(vs) < 2:
        vs = ['warm', rng.choice(['polluted', 'globals', 'batch', 'hash'])]
    base = dict(variants=vs, vseed=rng.next(), precision=rng.choice([0, 1]))
    if rng.chance(0.25):
        return dict(base, bench=gen_bench(rng))
    c = chains.gen_chain(rng)
    c['cic'], c['excess'], c['dark'] = rng.chance(0.3), rng.chance(0.2), rng.chance(0.2)
    c['noise'] = c['noise'] or c['cic'] or c['excess']
    return dict(base, chain=c, pollute=chains.gen_chain(rng), pollute_same_seed=rng.chance(0.5), nsim=rng.randint(2, 3))


# ------------------------------------------------------------------------------------------------ random-stream bench
def gen_bench(rng):
    seeds = [rng.randint(1, 50) for _ in range(3)]
    blocks = []
    for k in range(rng.randint(2, 4)):
        blocks.append(dict(kind=rng.choice(['normal', 'uniform', 'normal']), seed=rng.choice(seeds), size=rng.choice([4, 4, 4, 6]),
                           amp=1.0))
    return dict(blocks=blocks, steps=rng.randint(2, 6), ccds=[dict(seed=rng.choice(seeds), ron=rng.choice(seeds) + 100)
                                                              for _ in range(rng.randint(0, 2))])


def bench_params(b):
    p = {'main': {'class': 'SimulParams', 'root_dir': '.', 'total_time': round(b['steps'] * 0.001, 6), 'time_step': 0.001,
                  'add_modules': ['dst_objs']}}
    for k, x in enumerate(b['blocks']):
        p[f'r{k}'] = {'class': 'RandomGenerator', 'distribution': x['kind'].upper(), 'seed': x['seed'], 'output_size': x['size'],
                      'amp': x['amp']}
    if b['ccds']:
        p['light'] = {'class': 'DstLight', 'size': 6, 'level': 1000.0, 'outputs': ['out_i']}
        for k, x in enumerate(b['ccds']):
            p[f'c{k}'] = {'class': 'CCD', 'simul_params_ref': 'main', 'size': [6, 6], 'dt': 0.001, 'bandw': 100, 'photon_noise': True,
                          'readout_noise': True, 'readout_level': 3.0, 'photon_seed': x['seed'], 'readout_seed': x['ron'],
                          'inputs': {'in_i': 'light.out_i'}}
    return p


def streams(out, log, b):
    """Same kind and seed: same numbers; different explicit seeds: different numbers."""
    by = {}
    for t, n, s in log:
        by.setdefault(n, []).append([x[2] for x in s if x[0] in ('output', 'out_pixels')])
    groups = [[(f'r{k}', (x['kind'], x['size']), x['seed']) for k, x in enumerate(b['blocks'])],
              [(f'c{k}', 'ccd', (x['seed'], x['ron'])) for k, x in enumerate(b['ccds'])]]
    for g in groups:
        for i in range(len(g)):
            for j in range(i):
                if g[i][1] != g[j][1]:
                    continue
                a, c = by.get(g[i][0]), by.get(g[j][0])
                if g[i][2] == g[j][2] and a != c:
                    out.fail('same-seed-differs', f'{g[i][0]} and {g[j][0]} have the same seed {g[i][2]} but different values')
                if g[i][2] != g[j][2] and any(x == y for x, y in zip(a, c)):
                    out.fail('shared-stream', f'{g[i][0]} (seed {g[i][2]}) and {g[j][0]} (seed {g[j][2]}) deliver the same values')


# ------------------------------------------------------------------------------------------------ execution
def fresh(case, d, name, precision, cache_from=None):
    import yaml
    p = os.path.join(d, name)
    os.makedirs(p)
    os.chdir(p)
    if 'chain' in case:
        chains.write(case['chain'])
        if cache_from:
            src = os.path.join(d, cache_from, 'calib', 'phasescreens')
            for f in os.listdir(src):
                shutil.copy(os.path.join(src, f), 'calib/phasescreens')
    else:
        yaml.safe_dump(bench_params(case['bench']), open('p.yml', 'w'), sort_keys=False)
    return p


def execute(case, d):
    out = Outcome()
    rng = Rng(case['vseed'])
    prec = case['precision']
    n = 0
    try:
        world.reset(1, prec)
        fresh(case, d, 'ref', prec)
        ref, _, _ = chains.run()
        out.stats['runs'] += 1
        if 'bench' in case:
            streams(out, ref, case['bench'])
        out.digest = digest(ref)
        for k, v in enumerate(case['variants']):
            name = f'v{k}'
            kw = dict(order=None)
            clock = None
            world.reset(1, prec)
            if v == 'batch':
                n += batch(out, case, d, name, prec, ref)
                continue
            fresh(case, d, name, prec, 'ref' if v in ('warm', 'hash') and rng.chance(0.7) else None)
            if v == 'warm':
                chains.run()
                out.stats['runs'] += 1
            if v == 'polluted' and 'chain' in case:
                here = os.getcwd()
                pc = dict(case['pollute'])
                if case['pollute_same_seed']:
                    pc['seed'] = case['chain']['seed']
                q = os.path.join(d, name + 'p')
                os.makedirs(q)
                os.chdir(q)
                chains.write(pc)
                chains.run()
                os.chdir(here)
                out.stats['runs'] += 1
            if v in ('globals', 'polluted'):
                np.random.seed(rng.randint(0, 2**31))
                np.random.random(rng.randint(0, 1000))
                random.seed(rng.randint(0, 2**31))
                out.stats['fault.global_rng_perturbed'] += 1
            if v == 'order':
                kw['order'] = Rng(rng.next())
            if v == 'hash':
                from dst.peer import peer
                ans = peer(str(rng.randint(1, 3) * 1111)).ask(dict(dir=os.getcwd(), npseed=7, precision=prec))
                if 'error' in ans:
                    out.fail('run-aborted:peer', ans['error'])
                    continue
                log = ans['log']
                out.stats['fault.hash_seed_changed'] += 1
            elif v == 'clock':
                script = [rng.choice([0.0, 0.001, -5.0, 3600.0, -86400.0, 0.5]) for _ in range(30)]
                clock = SimClock(start=rng.choice([0.0, 1.7e9, 4e9]), script=script, tail=0.001)
                with clock.installed():
                    log, _, _ = chains.run(speed_report=True)
                out.stats['fault.wall_clock_jumps'] += clock.reads
            else:
                log, _, _ = chains.run(**kw)
            out.stats['runs'] += 1
            n += 1
            df = chains.diff(log, ref)
            if df:
                out.fail('not-reproducible:' + v, f'{v} run against reference: {df}')
    except Exception as e:
        sut_exception(out, e)
    finally:
        os.chdir(d)
        world.reset()
    c = case.get('chain')
    out.sim_time = (c['nsteps'] * c['step'] if c else case['bench']['steps'] * 0.001) * out.stats['runs']
    for v in case['variants']:
        out.stats['probe.variant_' + v] += 1
    out.nontrivial = n >= 1
    out.key = digest([out.digest, case['variants']])
    return out


def batch(out, case, d, name, prec, ref):
    """nsimul > 1: one override per simulation index; each must equal its run alone."""
    import yaml
    import specula
    if 'chain' not in case or case['chain']['sensor'] == 'none' or case['chain']['atmo'] == 'random':
        return 0
    fresh(case, d, name, prec)
    ov = {}
    for k in range(case['nsim']):
        if k:
            ov[f'control_override_{k}'] = {'int_gain': [0.1 * (k + 1)]}
            if case['chain']['noise']:
                ov[f'det_override_{k}'] = {'photon_seed': 50 + k}
    if case['chain']['psf']:
        ov['remove_1'] = ['psf']
    yaml.safe_dump(ov, open('ov.yml', 'w'), sort_keys=False)
    alone = []
    for k in range(case['nsim']):
        world.reset(1, prec)
        log, _, _ = chains.run(['p.yml', 'ov.yml'], simul_idx=k)
        alone.append(log)
    df = chains.diff(alone[0], ref)
    if df:
        out.fail('not-reproducible:index0', f'simulation 0 of a batch alone against the plain run: {df}')
    logs = []
    import specula.simul as S
    base = S.Simul
    cur = []

    class Spy(base):
        def run(self, *a, **k):
            cur.clear()
            with chains.recorder(cur):
                r = super().run(*a, **k)
            logs.append(list(cur))
            return r
    S.Simul = Spy
    init = specula.init
    specula.init = lambda *a, **k: None        # precision was already set for all loaded modules
    try:
        world.reset(1, prec)
        specula.init = lambda *a, **k: None
        with world.quiet():
            specula.main_simul(['p.yml', 'ov.yml'], nsimul=case['nsim'], cpu=True, precision=prec, no_speed_report=True)
    finally:
        S.Simul = base
        specula.init = init
    out.stats['runs'] += 2 * case['nsim']
    if len(logs) != case['nsim']:
        out.fail('batch-count', f'{len(logs)} simulations were run instead of {case["nsim"]}')
    for k, (a, b) in enumerate(zip(logs, alone)):
        df = chains.diff(a, b)
        if df:
            out.fail('batch-differs', f'simulation {k} of a batch against the same simulation alone: {df}')
    return 1


def reductions(c):
    for k in range(len(c['variants'])):
        if len(c['variants']) > 1:
            d = copy.deepcopy(c)
            del d['variants'][k]
            yield d
    if 'chain' in c:
        for ch in chains.reductions(c['chain']):
            d = copy.deepcopy(c)
            d['chain'] = ch
            yield d
        for k in ('cic', 'excess', 'dark'):
            if c['chain'].get(k):
                d = copy.deepcopy(c)
                d['chain'][k] = False
                yield d
    else:
        for k in range(len(c['bench']['blocks'])):
            d = copy.deepcopy(c)
            del d['bench']['blocks'][k]
            yield d
        if c['bench']['ccds']:
            d = copy.deepcopy(c)
            d['bench']['ccds'] = []
            yield d
