"""C12: a data store records every refreshed sample exactly once, in order."""
import copy
import glob
import os
import pickle
import re
import numpy as np
import yaml
from dst.core import Outcome, sut_exception
from dst.clock import SimClock
from dst.prng import Rng
from dst.sched import Chooser
from dst import bench, simrun, world
from dst.run import digest

PROPERTY = 'C12'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=900, budget=220), thorough=dict(cases=40000, budget=780))
RULE = ('one case = a simulation of scripted sources with seeded refresh schedules (in-place, rebound, scalar, pixels, slopes, fields, '
        'outputs published at the end of the run) and one or two data stores (format, precision, start time, downsampling, split, '
        'first suffix), on one process or with the store on another simulated rank; oracle = the refreshed samples recorded in a '
        'run without stores, filtered by the documented selection; non-trivial = at least three samples stored; distinct = by case')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'DataStore', 'astropy FITS and pickle files on disk'],
                  stub=['sources (dst_objs)', 'wall clock', 'MPI communicator (SimMPI) in the rank family'])
ASSUMPTIONS = ['a sample refreshed in the last step and replaced in finalize() may be stored with either value when its chunk was already saved']

OUT = dict(value='out', scalar='out', unset='out', pixels='out_pixels', slopes='out_slopes', light='out_i', ef='out_ef', last='out')
KINDS = ['value', 'value', 'scalar', 'pixels', 'slopes', 'light', 'ef', 'unset']


def generate(rng, tier, i):
    n = rng.randint(1, 14)
    step = rng.choice([1000000, 1000000, 500000, 3, 100000000, 1234567, 1000000000])
    c = dict(n=n, step=step, prec=rng.choice([0, 0, 1]), order=rng.next(), blocks=[], stores=[], nranks=rng.weighted([(1, 4), (2, 1), (3, 1)]),
             ranks=[rng.randint(0, 2) for _ in range(10)], policy=rng.choice(['uniform', 'prio', 'starve']), sched_seed=rng.next())
    for b in range(rng.randint(1, 4)):
        p = rng.choice([1.0, 1.0, 0.7, 0.3, 0.1])
        c['blocks'].append(dict(kind=rng.choice(KINDS), seed=rng.randint(1, 10**6), rebind=rng.chance(0.3),
                                sched=[int(rng.chance(p)) for _ in range(n)]))
    if rng.chance(0.35):
        c['blocks'].append(dict(kind='last', refresh=rng.chance(0.5), scale=rng.randint(1, 5)))
    for s in range(rng.weighted([(1, 4), (2, 1)])):
        names = list(range(len(c['blocks'])))
        rng.shuffle(names)
        names = sorted(names[:rng.randint(1, len(names))])
        st = dict(inputs=names, fmt=rng.choice(['fits', 'fits', 'pickle']), split=rng.weighted([(0, 3), (rng.randint(1, 5), 3)]),
                  first=rng.choice([0, 0, 5, 100]), start=rng.choice([0, 0, 0, rng.randint(0, n)]), down=1, by={}, create_tn=rng.chance(0.8))
        m = rng.weighted([('none', 4), ('global', 3), ('by', 3)])
        if m == 'global':
            st['down'] = rng.randint(1, 4)
        elif m == 'by':
            st['by'] = {str(b): rng.randint(1, 4) for b in names if rng.chance(0.6)}
        c['stores'].append(st)
    return c


def params(c, stores=True):
    p = {'main': bench.main(c['n'], c['step'])}
    for b, f in enumerate(c['blocks']):
        if f['kind'] == 'last':
            p[f'b{b}'] = {'class': 'DstLast', 'refresh': f['refresh'], 'scale': f['scale'], 'inputs': {'input': 'b0src.out'}}
            p['b0src'] = {'class': 'DstScript', 'kind': 'value', 'shape': [2], 'seed': 5, 'schedule': [int(k % 2 == 0) for k in range(c['n'])]}
            continue
        p[f'b{b}'] = {'class': 'DstScript', 'kind': f['kind'], 'shape': [4, 4] if f['kind'] == 'ef' else [4, 6] if f['kind'] in ('pixels', 'light') else [4],
                      'seed': f['seed'], 'schedule': f['sched'], 'lo': 0.0, 'hi': 1.0, 'rebind': f['rebind']}
    if stores:
        for s, st in enumerate(c['stores']):
            d = {'class': 'DataStore', 'store_dir': f'./st{s}', 'data_format': st['fmt'], 'split_size': st['split'], 'first_suffix': st['first'],
                 'start_time': st['start'] * c['step'] / 1e9,
                 'inputs': {'input_list': [f"k{b}-b{b}.{OUT[c['blocks'][b]['kind']]}" for b in st['inputs']]}}
            if not st['create_tn']:
                d['create_tn'] = False
            if st['down'] != 1:
                d['downsample_factor'] = st['down']
            if st['by']:
                d['downsample_factor_by_input'] = {f'k{b}': v for b, v in st['by'].items()}
            p[f'store{s}'] = d
    return p


def expected(c, rec, b):
    """[(t, value, alternative or None)] of every refreshed sample of block b."""
    f = c['blocks'][b]
    out = OUT[f['kind']]
    seq = [(t, v, None) for t, v in rec.fresh(f'b{b}', out)]
    if f['kind'] == 'last':
        t_last = rec.t[-1]
        final = np.array(rec.objs[f'b{b}'].outputs['out'].value)
        if seq and seq[-1][0] == t_last:
            seq[-1] = (t_last, final, seq[-1][1])
        else:
            seq.append((t_last, final, None))
    return seq


def read_store(base, fmt, alias, split):
    """[(suffix, times, data)] for one stored quantity."""
    from astropy.io import fits
    res = []
    dirs = [base] + sorted(x for x in glob.glob(base + '/*') if os.path.isdir(x))
    for d in dirs:
        fn = os.path.join(d, alias + '.' + fmt)
        if not os.path.exists(fn):
            continue
        m = re.search(r'_(-?\d+)$', os.path.basename(d))
        suffix = int(m.group(1)) if split and m else 0
        if fmt == 'fits':
            with fits.open(fn, memmap=False) as h:
                res.append((suffix, h[1].data.copy(), h[0].data.copy(), d))
        else:
            with open(fn, 'rb') as f:
                x = pickle.load(f)
            res.append((suffix, x['times'], x['data'], d))
    res.sort(key=lambda x: x[0])
    return res


def judge_store(out, c, s, rec):
    st = c['stores'][s]
    base = f'st{s}'
    dt = np.float32 if c['prec'] else np.float64
    stored = 0
    for b in st['inputs']:
        alias = f'k{b}'
        every = st['by'].get(str(b), st['down'])
        exp = [x for x in expected(c, rec, b) if x[0] >= st['start'] * c['step']][::every]
        got = read_store(base, st['fmt'], alias, st['split'])
        if len(got) > 1 and not st['split']:
            out.fail('layout', f'{alias}: {len(got)} files for an unsplit recording: {[g[3] for g in got]}')
            continue
        times = [int(t) for g in got for t in np.atleast_1d(g[1])]
        data = [v for g in got for v in g[2]]
        if times != [x[0] for x in exp]:
            out.fail('samples', f'{alias} ({c["blocks"][b]["kind"]}, every {every}, split {st["split"]}, {st["fmt"]}): stored times {times}, expected {[x[0] for x in exp]}')
            continue
        if any(len(np.atleast_1d(g[1])) != len(g[2]) for g in got):
            out.fail('samples', f'{alias}: numbers of times and values differ')
            continue
        if st['split'] and any(len(np.atleast_1d(g[1])) > st['split'] for g in got):
            out.fail('layout', f'{alias}: a chunk holds more than split_size={st["split"]} steps')
            continue
        for (t, v, alt), w in zip(exp, data):
            w = np.asarray(w)
            ok = w.shape == np.shape(v) and np.array_equal(w.astype(dt), np.asarray(v, dtype=dt))
            if not ok and alt is not None and st['split']:
                ok = np.array_equal(w.astype(dt), np.asarray(alt, dtype=dt))
            if not ok:
                out.fail('value', f'{alias} at t={t}: stored {w.ravel()[:4]} (shape {w.shape}), the output was {np.ravel(v)[:4]} (shape {np.shape(v)})')
                break
        stored += len(times)
    return stored


def execute(case, d):
    c = case
    out = Outcome()
    world.reset(1, precision=c['prec'])
    stored = 0
    order = None
    try:
        rec = bench.run(params(c, stores=False), path='ref.yml')
        with SimClock(start=1.7e9, tail=0.0).installed():
            if c['nranks'] == 1:
                bench.run(params(c), only=(), order=Rng(c['order']))
            else:
                p = params(c)
                for k, name in enumerate(x for x in p if x != 'main'):
                    p[name]['target_rank'] = c['ranks'][k % len(c['ranks'])] % c['nranks']
                for name in p:                       # what is published in finalize() is not sent to other ranks
                    if p[name]['class'] in ('DstLast', 'DataStore'):
                        p[name]['target_rank'] = c['ranks'][0] % c['nranks']
                with open('p.yml', 'w') as f:
                    yaml.safe_dump(p, f, sort_keys=False)
                ch = Chooser(Rng(c['sched_seed']), c['policy'], c.get('_trace'), starved=['rank0'])
                r = simrun.run_ranks('p.yml', c['nranks'], ch, precision=c['prec'])
                out.trace = ch.rec
                order = r['sched'].order
                out.stats['probe.rank_runs'] += 1
                if r['errors']:
                    sut_exception(out, r['errors'][0][1])
                elif r['status'] != 'ok':
                    out.fail(r['status'], f"ranks stop: {r['detail']}")
                elif r['net'].leftovers():
                    out.fail('unreceived-message', f"messages sent but never received: {r['net'].leftovers()[:4]}")
    except Exception as e:
        sut_exception(out, e)
    out.stats['runs'] += 1
    out.sim_time = c['n'] * c['step'] / 1e9
    if not out.violations:
        for s in range(len(c['stores'])):
            stored += judge_store(out, c, s, rec)
    out.stats['probe.samples'] += stored
    out.nontrivial = stored >= 3
    out.key = digest([{k: v for k, v in c.items() if k not in ('order', 'sched_seed', '_trace')}, order])
    out.digest = digest([stored, order, rec.t if not out.violations else None])
    return out


def reductions(c):
    def mod(**kw):
        d = copy.deepcopy(c)
        d.update(kw)
        d.pop('_trace', None)
        return d
    if c['nranks'] > 1:
        yield mod(nranks=1)
    for b in reversed(range(len(c['blocks']))):
        if len(c['blocks']) > 1 and all(b not in s['inputs'] for s in c['stores']) and b == len(c['blocks']) - 1:
            d = mod()
            del d['blocks'][b]
            yield d
    for n in (1, 2, c['n'] - 1):
        if 0 < n < c['n']:
            yield mod(n=n)
    for s in range(len(c['stores'])):
        if len(c['stores']) > 1:
            d = mod()
            del d['stores'][s]
            yield d
        for k, v in (('fmt', 'fits'), ('split', 0), ('first', 0), ('start', 0), ('down', 1), ('by', {}), ('create_tn', True)):
            if c['stores'][s][k] != v:
                d = mod()
                d['stores'][s][k] = v
                yield d
        if len(c['stores'][s]['inputs']) > 1:
            for b in c['stores'][s]['inputs']:
                d = mod()
                d['stores'][s]['inputs'] = [x for x in c['stores'][s]['inputs'] if x != b]
                yield d
    for b, f in enumerate(c['blocks']):
        if f['kind'] not in ('value', 'last'):
            d = mod()
            d['blocks'][b]['kind'] = 'value'
            yield d
    for k, v in (('prec', 0), ('step', 1000000)):
        if c[k] != v:
            yield mod(**{k: v})
