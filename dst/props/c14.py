"""C14: replaying a stored run reproduces the stored data and the recomputed outputs."""
import copy
import glob
import os
import numpy as np
import yaml
from dst.core import Outcome, sut_exception
from dst.clock import SimClock
from dst.prng import Rng
from dst import bench, chains, graph, world
from dst.run import digest

PROPERTY = 'C14'
LEVEL = 'exploration'
TECHNIQUE = 'seeded search over refresh histories, stored subsets, configurations and replayed targets'
TIERS = dict(quick=dict(cases=700, budget=300), thorough=dict(cases=30000, budget=780))
RULE = ('one case = a recorded run with one or two data stores (scripted sources, random block graphs or closed-loop systems of real blocks; format, '
        'precision, start time, split), then the replay described by its replay_params.yml, a targeted replay of one block, and a second run of its '
        'params.yml; oracle = the outputs of the recorded run; non-trivial = at least two stored samples were replayed; distinct = by case')
COMPONENTS = dict(real=['Simul (build_replay, build_targeted_replay)', 'LoopControl', 'DataStore', 'DataSource', 'AO blocks in the chain family'],
                  stub=['sources and nodes of dst_objs in the other families', 'wall clock'])
ASSUMPTIONS = ['before its first stored sample a replayed output is zero: the recorded outputs of the generated systems start from zero as well',
               'a replay of one chunk of a split run covers the steps of that chunk']

OUT = dict(value='out', scalar='out', unset='out', pixels='out_pixels', slopes='out_slopes', light='out_i', ef='out_ef', layer='out_ef')
KINDS = ['value', 'value', 'scalar', 'unset', 'pixels', 'slopes', 'light', 'ef', 'layer']
STORABLE = ['control.out_comm', 'rec.out_modes', 'slopec.out_slopes', 'det.out_pixels', 'wfs.out_i', 'prop.out_star_ef', 'dm.out_layer',
            'disturb.output', 'modal.out_modes', 'psf.out_psf', 'psf.out_sr', 'seeing.output', 'dm_dist.out_layer', 'atmo.out_star_ef', 'wind_speed.output']


def generate(rng, tier, i):
    fam = rng.weighted([('scripts', 4), ('graph', 4), ('chain', 3), ('field', 1)])
    c = dict(fam=fam, prec=rng.choice([0, 0, 1]), fmt=rng.choice(['fits', 'fits', 'pickle']), pick=rng.next(), nstores=rng.weighted([(1, 4), (2, 1)]),
             create_tn=rng.chance(0.8), pos=rng.random())
    if fam == 'scripts':
        n = rng.randint(1, 12)
        c.update(n=n, step=rng.choice([1000000, 500000, 3, 1234567, 1000000000]), blocks=[], split=rng.choice([0, 0, rng.randint(1, 5)]),
                 start=rng.choice([0, 0, rng.randint(0, n)]), down=rng.choice([1, 1, 1, 2, 3]))
        for b in range(rng.randint(1, 4)):
            p = rng.choice([1.0, 0.7, 0.3])
            c['blocks'].append(dict(kind=rng.choice(KINDS), seed=rng.randint(1, 10**6), sched=[int(rng.chance(p)) for _ in range(n)]))
    elif fam == 'graph':
        g = graph.gen_graph(rng, nmin=2, nmax=8, modes=('inplace', 'rebind', 'inplace', 'view'))
        c.update(graph=g, n=rng.randint(2, 7), step=rng.choice([1000000, 1000000000]))
    else:
        c.update(chain=chains.gen_chain(rng))
    if fam == 'field':
        ch = c['chain']
        ch.update(height_src='inf', sensor='sh' if ch['sensor'] == 'none' else ch['sensor'], atmo=rng.choice(['evol', 'infinite']), psf=False)
        c.update(stars=[[rng.choice([0.0, 1.0, 4.0]), rng.choice([0.0, 45.0, 200.0])], [5.0, rng.choice([10.0, 120.0])]], later_prec=rng.choice([0, 1]),
                 psf_start=rng.choice([0, 0, 1, 2]), what=rng.choice(['cube', 'psf', 'modal']))
    return c


def data_store(c, inputs, s=0):
    d = {'class': 'DataStore', 'store_dir': f'./st{s}', 'inputs': {'input_list': inputs}}
    if c['fmt'] != 'fits':
        d['data_format'] = c['fmt']
    if not c['create_tn']:
        d['create_tn'] = False
    return d


def insert(p, key, val, pos):
    """The store may stand anywhere in the parameter file."""
    items = list(p.items())
    items.insert(1 + int(pos * len(items)), (key, val))
    return dict(items)


def run_dirs(s=0):
    return sorted({os.path.dirname(x) for x in glob.glob(f'st{s}/params.yml') + glob.glob(f'st{s}/*/params.yml')})


def record(p, only=None):
    return bench.run(p, only=only)


def same(a, b):
    if (a is None) != (b is None):
        return False
    return a is None or (np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True))


def run_file(path):
    return bench.run(None, path=path)


def judge_delivery(out, orig, rep, pairs, dt, select, tag):
    """Every stored sample is delivered at its step and only there. pairs: {alias: (block, output)}."""
    n = 0
    for alias, (b, o) in pairs.items():
        exp = select(orig.fresh(b, o))
        got = rep.fresh('data_source', alias)
        if [t for t, _ in exp] != [t for t, _ in got]:
            out.fail('replay-times', f'{tag}: {b}.{o} was stored at {[t for t, _ in exp]} and is replayed at {[t for t, _ in got]}')
            return n
        for (t, v), (_, w) in zip(exp, got):
            v = np.asarray(v, dtype=dt)
            if np.shape(v) != np.shape(w) or not np.array_equal(v, np.asarray(w), equal_nan=True):
                out.fail('replay-value', f'{tag}: {b}.{o} at t={t}: replayed {np.ravel(w)[:4]} {np.shape(w)}, stored {np.ravel(v)[:4]} {np.shape(v)}')
                return n
        a, r = orig.objs[b].outputs[o], rep.objs['data_source'].outputs[alias]
        if type(a) is not type(r):
            out.fail('replay-type', f'{tag}: {b}.{o} is a {type(a).__name__}, replayed as {type(r).__name__}')
        n += len(got)
    return n


def judge_recomputed(out, orig, rep, tag):
    """Blocks computed in the replay give the outputs of the recorded run."""
    for b in sorted(rep.at):
        if b.startswith('data_source') or b not in orig.at:
            continue
        for t, x, y in zip(orig.t, orig.at[b], rep.at[b]):
            for o in x:
                for u, v in zip(x[o] if isinstance(x[o], list) else [x[o]], y[o] if isinstance(y[o], list) else [y[o]]):
                    if u[0] != v[0]:
                        out.fail('recomputed-time', f'{tag}: {b}.{o} at t={t}: generation time {v[0]} instead of {u[0]}')
                        return
                    if not same(u[1], v[1]):
                        out.fail('recomputed-value', f'{tag}: {b}.{o} at t={t}: {np.ravel(v[1])[:4]} instead of {np.ravel(u[1])[:4]}')
                        return


def with_clock(fn):
    with SimClock(start=1.7e9, tail=0.0).installed():
        return fn()


def rerun_params(out, orig, d, c, p):
    """The saved params.yml describes the run."""
    rep = with_clock(lambda: bench.run(None, path=os.path.join(d, 'params.yml')))
    out.stats['runs'] += 1
    if rep.t != orig.t:
        out.fail('params-file', f'a run of the saved params.yml makes steps {rep.t[:3]}.. ({len(rep.t)}), the recorded run made {orig.t[:3]}.. ({len(orig.t)})')
        return
    with open(os.path.join(d, 'params.yml')) as f:
        saved = yaml.safe_load(f)
    for b, q in p.items():
        if (saved.get(b) or {}).get('target_rank') != q.get('target_rank'):
            out.fail('params-file', f'{b} ran with target_rank {q.get("target_rank")}, the saved params.yml says {(saved.get(b) or {}).get("target_rank")}')
            return
    missing = set(orig.at) - set(rep.at)
    if missing:
        out.fail('params-file', f'blocks {sorted(missing)} are missing from the saved params.yml')
        return
    judge_recomputed(out, orig, rep, 'run of the saved params.yml')


def execute_scripts(c, out):
    p = {'main': bench.main(c['n'], c['step'])}
    for b, f in enumerate(c['blocks']):
        p[f'b{b}'] = {'class': 'DstScript', 'kind': f['kind'], 'shape': [4, 4] if f['kind'] in ('ef', 'layer') else [4, 6] if f['kind'] in ('pixels', 'light') else [4],
                      'seed': f['seed'], 'schedule': f['sched'], 'lo': 0.0, 'hi': 1.0}
        if f['seed'] % 3 == 0:
            p[f'b{b}']['target_rank'] = 0
    pairs = {f'k{b}': (f'b{b}', OUT[f['kind']]) for b, f in enumerate(c['blocks'])}
    names = list(pairs)
    groups = [names] if c['nstores'] == 1 or len(names) < 2 else [names[::2], names[1::2]]
    for s, g in enumerate(groups):
        d = data_store(c, [f'{a}-{pairs[a][0]}.{pairs[a][1]}' for a in g], s)
        d.update(split_size=c['split'], start_time=c['start'] * c['step'] / 1e9, downsample_factor=c['down'])
        p = insert(p, f'store{s}', d, c['pos'])
    # a reader, so that the replay has something to compute
    sink = [f'b{b}' for b, f in enumerate(c['blocks']) if f['kind'] in ('value', 'scalar', 'unset')]
    orig = with_clock(lambda: record(p))
    dt = np.float32 if c['prec'] else np.float64
    n = 0
    for s, g in enumerate(groups):
        dirs = run_dirs(s)
        # a chunk is made of split_size steps at which the store received something
        steps = sorted({t for a in g for t, _ in orig.fresh(*pairs[a]) if t >= c['start'] * c['step']})
        for d in dirs:
            with open(os.path.join(d, 'replay_params.yml')) as f:
                rp = yaml.safe_load(f)
            rp['main'].setdefault('add_modules', ['dst_objs'])
            stored = [a for a in g if os.path.exists(os.path.join(d, f'{a}.{c["fmt"]}'))]
            if not stored:
                continue
            chunk = steps
            if c['split']:
                k = int(os.path.basename(d).split('_')[-1].split('.')[0])
                chunk = steps[k:k + c['split']]

            def select(seq):
                x = [y for y in seq if y[0] >= c['start'] * c['step']][::c['down']]
                return [y for y in x if y[0] in chunk]
            if len(stored) < len(g):
                # an output without any sample has no file
                rp['data_source']['outputs'] = stored
            rep = bench.run(rp, path=f'replay{s}.yml')
            out.stats['runs'] += 1
            if rep.t != orig.t:
                out.fail('replay-duration', f'the replay makes {len(rep.t)} steps, the run made {len(orig.t)}')
                return 0
            n += judge_delivery(out, orig, rep, {a: pairs[a] for a in stored}, dt, select, f'replay of {os.path.basename(d) or d}')
            if out.violations:
                return n
        if dirs:
            rerun_params(out, orig, dirs[0], c, p)
    out.sim_time = c['n'] * c['step'] / 1e9 * 2
    return n


def execute_graph(c, out):
    g = c['graph']
    rng = Rng(c['pick'])
    names = [nd['name'] for nd in g['nodes']]
    # a replayed output is zero before its first sample
    for nd in g['nodes']:
        nd['none_init'] = False
    p = graph.to_params(g, c['n'] * c['step'] / 1e9, c['step'] / 1e9)
    rng.shuffle(names)
    chosen = names[:rng.randint(1, max(1, len(names) - 1))]
    orig0 = record(p)
    chosen = [b for b in chosen if orig0.fresh(b, 'out')]
    if not chosen:
        out.nontrivial = False
        return 0
    groups = [chosen] if c['nstores'] == 1 or len(chosen) < 2 else [chosen[::2], chosen[1::2]]
    for s, gr in enumerate(groups):
        p = insert(p, f'store{s}', data_store(c, [f'k{b}-{b}.out' for b in gr], s), c['pos'])
    orig = with_clock(lambda: record(p))
    n = 0
    for s, gr in enumerate(groups):
        pairs = {f'k{b}': (b, 'out') for b in gr}
        d = run_dirs(s)[0]
        rep = with_clock(lambda: run_file(os.path.join(d, 'replay_params.yml')))
        out.stats['runs'] += 1
        if rep.t != orig.t:
            out.fail('replay-duration', f'the replay makes {len(rep.t)} steps, the run made {len(orig.t)}')
            return n
        n += judge_delivery(out, orig, rep, pairs, np.float32 if c['prec'] else np.float64, lambda x: x, f'replay of {gr}')
        lost = [b for b in orig.at if b not in rep.at and b not in gr and not b.startswith('store')]
        if lost:
            out.fail('replay-lost-block', f'blocks {lost} are not in the replay although none of their outputs is stored')
        judge_recomputed(out, orig, rep, f'replay of {gr}')
        if out.violations:
            return n
        target(out, c, orig, p, pairs, rng, d, gr)
        if out.violations:
            return n
    rerun_params(out, orig, run_dirs(0)[0], c, p)
    out.sim_time = c['n'] * c['step'] / 1e9 * 3
    return n


def target(out, c, orig, p, pairs, rng, d, gr):
    """Targeted replay of one block that is not stored."""
    import specula.simul as S
    cand = [b for b in sorted(p) if p[b]['class'] not in ('SimulParams', 'DataStore') and 'inputs' in p[b] and b not in gr]
    if not cand:
        return
    b = rng.choice(cand)
    own = {k: v for k, v in p.items() if v['class'] != 'DataStore' or {x.split('-')[0] for x in v['inputs']['input_list']} == set(pairs)}
    before = copy.deepcopy(own)
    with world.quiet():
        tp = S.Simul([]).build_targeted_replay(own, b, set_store_dir=d)
    if own != before:
        out.fail('targeted-replay-changes-params', f'build_targeted_replay({b}) changed the parameters it was given: '
                 f'{[k for k in before if own.get(k) != before[k]]}')
        return
    rep = with_clock(lambda: bench.run(tp, path='target.yml'))
    out.stats['runs'] += 1
    out.stats['probe.targeted_replays'] += 1
    if b not in rep.at:
        out.fail('targeted-replay', f'{b} is missing from its targeted replay')
        return
    judge_recomputed(out, orig, rep, f'targeted replay of {b} from {gr}')


def execute_chain(c, out):
    ch = c['chain']
    rng = Rng(c['pick'])
    chains.calib(ch)
    p = chains.params(ch)
    outs = [o for o in STORABLE if o.split('.')[0] in p and o.split('.')[1] in p[o.split('.')[0]].get('outputs', ['output'])]
    rng.shuffle(outs)
    outs = outs[:rng.randint(1, min(4, len(outs)))]
    groups = [outs] if c['nstores'] == 1 or len(outs) < 2 else [outs[::2], outs[1::2]]
    for s, gr in enumerate(groups):
        p = insert(p, f'store{s}', data_store(c, [f'{o.replace(".", "_")}-{o}' for o in gr], s), c['pos'])
    orig = with_clock(lambda: record(p))
    n = 0
    for s, gr in enumerate(groups):
        pairs = {o.replace('.', '_'): tuple(o.split('.')) for o in gr}
        d = run_dirs(s)[0]
        if any(not orig.fresh(*pr) for pr in pairs.values()):
            out.stats['probe.never_refreshed'] += 1
            continue
        rep = with_clock(lambda: run_file(os.path.join(d, 'replay_params.yml')))
        out.stats['runs'] += 1
        if rep.t != orig.t:
            out.fail('replay-duration', f'the replay makes {len(rep.t)} steps, the run made {len(orig.t)}')
            return n
        n += judge_delivery(out, orig, rep, pairs, np.float32 if c['prec'] else np.float64, lambda x: x, f'replay of {gr}')
        if not out.violations:
            judge_recomputed(out, orig, rep, f'replay of {gr}')
        if out.violations:
            return n
        target(out, c, orig, p, pairs, rng, d, [o.split('.')[0] for o in gr])
        if out.violations:
            return n
    rerun_params(out, orig, run_dirs(0)[0], c, p)
    out.stats['probe.ao_chains'] += 1
    out.sim_time = ch['nsteps'] * ch['step'] * 3
    return n


def execute_field(c, out):
    """Field analysis of a stored run = what the run itself would have given for those stars."""
    import specula
    from specula.field_analyser import FieldAnalyser
    from specula.lib.calc_psf import calc_psf_geometry
    ch = c['chain']
    rng = Rng(c['pick'])
    chains.calib(ch)
    p = chains.params(ch)
    p['atmo']['fov'] = 12.0
    p['prop']['outputs'] = list(p['prop']['outputs'])
    p['prop']['source_dict_ref'] = list(p['prop']['source_dict_ref'])
    start = min(c['psf_start'], ch['nsteps'] - 1) * ch['step']
    geo = calc_psf_geometry(ch['npx'], ch['pitch'], 750.0, nd=2.0)
    mpar = {'type_str': 'zernike', 'nmodes': 4, 'npixels': ch['npx'], 'obsratio': ch['obs']}
    base = copy.deepcopy(p)
    for k, (r, th) in enumerate(c['stars']):
        p[f'fs{k}'] = {'class': 'Source', 'polar_coordinates': [r, th], 'magnitude': 8, 'wavelengthInNm': 750.0}
        p['prop']['source_dict_ref'].append(f'fs{k}')
        p['prop']['outputs'].append(f'out_fs{k}_ef')
        p[f'fpsf{k}'] = {'class': 'PSF', 'simul_params_ref': 'main', 'wavelengthInNm': 750.0, 'pixel_size_mas': geo.pixel_size_mas, 'start_time': start,
                         'inputs': {'in_ef': f'prop.out_fs{k}_ef'}, 'outputs': ['out_int_psf', 'out_int_sr']}
        p[f'fmod{k}'] = dict({'class': 'ModalAnalysis', 'inputs': {'in_ef': f'prop.out_fs{k}_ef'}, 'outputs': ['out_modes']}, **mpar)
    ref = with_clock(lambda: record(p))
    outs = [o for o in ('rec.out_modes', 'slopec.out_slopes', 'dm.out_layer', 'seeing.output', 'disturb.output') if o.split('.')[0] in p]
    rng.shuffle(outs)
    outs = ['control.out_comm'] + outs[:rng.randint(0, 2)]
    base = insert(base, 'store0', data_store(c, [f'{o.replace(".", "_")}-{o}' for o in outs]), c['pos'])
    orig = with_clock(lambda: record(base))
    out.stats['runs'] += 2
    if any(not orig.fresh(*o.split('.')) for o in outs):
        return 0
    d = run_dirs(0)[0]
    world.reset(1, precision=c['later_prec'])
    with SimClock(start=1.7e9, tail=0.0).installed(), world.quiet():
        fa = FieldAnalyser(os.path.dirname(d) or '.', os.path.basename(d), np.array(c['stars']).T, wavelength_nm=750.0, start_time=start)
        res = {'cube': fa.compute_phase_cube, 'psf': lambda: fa.compute_field_psf(psf_sampling=2.0), 'modal': lambda: fa.compute_modal_analysis(mpar)}[c['what']]()
    out.stats['runs'] += 1
    out.stats['probe.field_analyses'] += 1
    n = 0
    for k in range(len(c['stars'])):
        if c['what'] == 'cube':
            exp, got = np.array([v for _, v in ref.fresh('prop', f'out_fs{k}_ef')]), res['phase_cubes'][k]
        elif c['what'] == 'modal':
            exp, got = np.array([v for _, v in ref.fresh(f'fmod{k}', 'out_modes')]), res['modal_coeffs'][k]
        else:
            exp, got = np.array(ref.objs[f'fpsf{k}'].outputs['out_int_psf'].value), res['psf_list'][k][-1]
        n += len(exp)
        eps = 0.0
        if exp.shape != got.shape or not np.all(np.abs(exp - got) <= eps * (np.max(np.abs(exp)) if exp.size else 0)):
            err = np.max(np.abs(exp - got)) / np.max(np.abs(exp)) if exp.shape == got.shape and exp.size else None
            out.fail('field-analysis', f'{c["what"]} of the star at {c["stars"][k]} from the stored {outs} differs from the one of the run itself: '
                     f'shapes {got.shape} {exp.shape}, relative error {err}')
            return n
    return n


def execute(case, d):
    c = case
    out = Outcome()
    world.reset(1, precision=c['prec'])
    n = 0
    out.stats['runs'] += 1
    try:
        n = dict(scripts=execute_scripts, graph=execute_graph, chain=execute_chain, field=execute_field)[c['fam']](c, out)
    except Exception as e:
        sut_exception(out, e)
    out.stats['probe.samples_replayed'] += n or 0
    out.nontrivial = (n or 0) >= 2
    out.key = digest(c)
    out.digest = digest([n, out.violations])
    return out


def reductions(c):
    def mod(**kw):
        d = copy.deepcopy(c)
        d.update(kw)
        return d
    for k, v in (('nstores', 1), ('prec', 0), ('fmt', 'fits'), ('create_tn', True), ('pos', 0.99), ('split', 0), ('start', 0), ('down', 1), ('step', 1000000)):
        if k in c and c[k] != v:
            yield mod(**{k: v})
    if c['fam'] == 'graph':
        for g in graph.graph_reductions(c['graph']):
            yield mod(graph=g)
    if c['fam'] in ('chain', 'field'):
        for ch in chains.reductions(c['chain']):
            if c['fam'] == 'chain' or (ch['sensor'] != 'none' and ch['atmo'] != 'none'):
                yield mod(chain=ch)
    if c['fam'] == 'scripts' and len(c['blocks']) > 1:
        for b in range(len(c['blocks'])):
            d = mod()
            del d['blocks'][b]
            yield d
    if 'n' in c:
        for n in (1, 2, c['n'] - 1):
            if 0 < n < c['n']:
                yield mod(n=n)
    for k in range(6):
        if c['pick'] != k:
            yield mod(pick=k)
            break
