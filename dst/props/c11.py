"""C11: observing a simulation never changes it."""
import copy
import numpy as np
import yaml
from dst.core import Outcome, sut_exception, sut_frame
from dst.clock import SimClock
from dst.prng import Rng
from dst.sched import Chooser, Deadlock, StepLimit
from dst import bench, chains, simfs, simgui, simq, simweb, world
from dst.run import digest

PROPERTY = 'C11'
LEVEL = 'exploration'
TECHNIQUE = 'seeded search over systems, observer combinations, request timings and observer failures, against the unobserved run'
TIERS = dict(quick=dict(cases=800, budget=300), thorough=dict(cases=12000, budget=780))
RULE = ('one case = a system (scripted blocks with values nobody can serialise, plot or print, or a closed-loop system of real blocks) run once alone and '
        'once with observers: data stores, data printers, displays of every kind, the display server with clients, the speed report; the disk fills or fails, '
        'windows cannot be opened or drawn, clients leave; oracle = every output of every block at every step is bit-identical to the run alone; '
        'non-trivial = at least one observer and three steps; distinct = by case')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'DataStore', 'DataPrint', 'specula.display.*', 'DisplayServer with its server threads and plotter', 'AO blocks in the chain family'],
                  stub=['file system faults (dst/simfs.py)', 'windows (Agg backend with injected failures)', 'processes, threads, sockets (dst/simq.py, dst/simweb.py)', 'wall clock'])
ASSUMPTIONS = ['observers are attached to outputs of a type they accept: others are rejected when the simulation is built']
STEP = 1000000

VEC = ['DataPrint', 'PlotDisplay', 'PlotVectorDisplay', 'ModesDisplay', 'DataStore']
KIND_OBS = dict(value=VEC, bad=VEC, odd=VEC, ef=['PhaseDisplay', 'DoublePhaseDisplay', 'DataStore'], pixels=['PixelsDisplay', 'PixelsDisplay', 'PixelsPupDisplay', 'DataStore', 'DataStore'],
                slopes=['SlopecDisplay', 'DataStore'], psf=['PsfDisplay', 'DataStore'], other=['DataStore'])
KEY = dict(DataPrint='in_value', PlotDisplay='value', PlotVectorDisplay='vector', ModesDisplay='modes', PhaseDisplay='phase', PixelsDisplay='pixels', PixelsPupDisplay='in_pixels',
           SlopecDisplay='slopes', PsfDisplay='psf')
SCRIPT_OUT = dict(value=('out', 'value'), scalar=('out', 'value'), unset=('out', 'value'), pixels=('out_pixels', 'pixels'), slopes=('out_slopes', 'slopes'),
                  light=('out_i', 'other'), ef=('out_ef', 'ef'), layer=('out_ef', 'other'), bad=('out', 'bad'), odd=('out', 'odd'), psf=('out', 'psf'))
CHAIN_OUT = [('prop.out_star_ef', 'ef'), ('atmo.out_star_ef', 'ef'), ('det.out_pixels', 'pixels'), ('slopec.out_slopes', 'slopes'), ('psf.out_psf', 'psf'),
             ('rec.out_modes', 'value'), ('control.out_comm', 'value'), ('modal.out_modes', 'value'), ('psf.out_sr', 'value'), ('wfs.out_i', 'other'),
             ('dm.out_layer', 'other'), ('disturb.output', 'value'), ('seeing.output', 'value')]


def targets(c):
    if c['fam'] == 'chain':
        p = chains.params(c['chain'])
        return [(o, k) for o, k in CHAIN_OUT if o.split('.')[0] in p and o.split('.')[1] in p[o.split('.')[0]].get('outputs', ['output'])]
    return [(f'b{b}.{SCRIPT_OUT[f["kind"]][0]}', SCRIPT_OUT[f['kind']][1]) for b, f in enumerate(c['blocks'])]


def generate(rng, tier, i):
    c = dict(fam=rng.weighted([('scripts', 3), ('chain', 2)]), prec=rng.choice([0, 1]), order=rng.next(), obs=[], faults=[], speed=rng.chance(0.5))
    if c['fam'] == 'chain':
        c['chain'] = chains.gen_chain(rng)
        c['chain']['nsteps'] = min(c['chain']['nsteps'], 6)
        c['n'] = c['chain']['nsteps']
    else:
        n = c['n'] = rng.randint(3, 8)
        c['blocks'] = []
        for b in range(rng.randint(1, 4)):
            kind = rng.choice(list(SCRIPT_OUT))
            p = rng.choice([1.0, 0.6])
            c['blocks'].append(dict(kind=kind, seed=rng.randint(1, 10**6), sched=[int(rng.chance(p)) for _ in range(n)], how=rng.choice(
                ['ragged', 'text', 'object', 'header'] if kind == 'odd' else ['pickle', 'copy', 'display', 'lambda']), since=rng.randint(0, 3),
                special=rng.choice([None, None, None, 'nan', 'zero'])))
        c['reader'] = rng.chance(0.7)
    ts = targets(c)
    names = [o for o, _ in ts] + (['lst.input'] if c['fam'] == 'scripts' else ['atmo.layer_list', 'prop.atmo_layer_list', 'prop.common_layer_list'])
    if rng.chance(0.4 if c['fam'] == 'scripts' else 0.25):
        # the display server and its clients, together with the other observers
        c['srv'] = dict(mode=rng.choice(['image', 'data']), block=rng.chance(0.7), real_plotter=rng.chance(0.4), sched_seed=rng.next(), pace=rng.choice([1, 5, 20]),
                        clients=[dict(leaves=rng.chance(0.4), broken=rng.chance(0.2), gap=rng.choice([0, 3, 15]),
                                      reqs=[[rng.choice(names) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 4))]) for _ in range(rng.randint(1, 3))])
        if c['srv']['mode'] == 'data':
            c['srv']['block'] = True
    for _ in range(rng.weighted([(1, 3), (2, 3), (3, 2)])):
        o, k = rng.choice(ts)
        cls = rng.choice(KIND_OBS[k])
        ob = dict(cls=cls, of=o, pos=rng.random(), delay=int(rng.chance(0.15)), opts={})
        if cls == 'DataStore':
            ob['of'] = [rng.choice(ts)[0] for _ in range(rng.randint(1, 3))]
            ob['opts'] = dict(split_size=rng.choice([0, 0, 2]), data_format=rng.choice(['fits', 'pickle']), create_tn=rng.chance(0.7), downsample_factor=rng.choice([1, 1, 2]))
            ob['delay'] = 0
        elif cls == 'DataPrint':
            ob['opts'] = dict(print_dt=rng.choice([0.0, 0.002, 1.0]), format_str=rng.choice(['.4f', '.2e', 'd', 's', '']), prefix=rng.choice(['', 'x']))
            if rng.chance(0.3):
                ob['opts']['range_slice'] = rng.choice([[0, 2], [5, 9], [None, None, 2]])
        elif cls == 'DoublePhaseDisplay':
            ob['of'] = [o, rng.choice([x for x, kk in ts if kk == 'ef'])]
        elif cls == 'PlotDisplay':
            ob['opts'] = dict(histlen=rng.choice([2, 200]), x_axis=rng.choice(['time', 'iteration']))
        elif cls == 'PlotVectorDisplay':
            ob['opts'] = dict(histlen=rng.choice([2, 200]))
            if rng.chance(0.5):
                ob['opts'].update(rng.choice([dict(indices=[0, 99]), dict(slice_args=[0, 2]), dict(max_elements=1)]))
        elif cls in ('PixelsDisplay', 'PsfDisplay'):
            ob['opts'] = dict(log_scale=rng.chance(0.5))
            if cls == 'PixelsDisplay' and rng.chance(0.4):
                ob['opts']['crop'] = rng.choice([[0, 2, 0, 2], [1, 2], [5, 2, 0, 3]])
        elif cls == 'PixelsPupDisplay':
            ob['opts'] = dict(log_scale=rng.chance(0.5))
            if rng.chance(0.5):
                ob['opts'].update(rng.choice([dict(crop=[0, 2, 0, 3]), dict(crop=[2, 2, 1, 2], crop_mode='center'), dict(crop=[1, 2]), dict(crop=[3, 3, 0, 2])]))
            ob['pup'] = dict(every=rng.choice([1, 1, 3, 0]), par=rng.chance(0.5))
        c['obs'].append(ob)
    if rng.chance(0.35):
        k = rng.weighted([('eio', 2), ('enospc', 3), ('erofs', 1)])
        f = dict(kind=k)
        if k == 'eio':
            f.update(at=rng.randint(0, 12), n=rng.choice([1, 2, 50]))
        elif k == 'enospc':
            f.update(room=rng.choice([0, 3000, 12000]))
        else:
            f.update(match=rng.choice(['st', 'fits', '.yml']))
        c['faults'].append(f)
    c['gui'] = rng.choice([None, None, 'figure', 'draw', 'show', 'figure_later', 'canvas'])
    return c


def base_params(c):
    if c['fam'] == 'chain':
        return chains.params(c['chain'])
    p = {'main': bench.main(c['n'], STEP)}
    val = None
    for b, f in enumerate(c['blocks']):
        k = f['kind']
        if k == 'bad':
            p[f'b{b}'] = {'class': 'DstBad', 'how': f['how']}
        elif k == 'odd':
            p[f'b{b}'] = {'class': 'DstOdd', 'how': f['how'], 'since': f['since']}
        else:
            p[f'b{b}'] = {'class': 'DstScript', 'kind': 'value' if k == 'psf' else k, 'shape': [4, 6] if k in ('pixels', 'light') else [4, 4] if k in ('ef', 'layer', 'psf') else [4], 'seed': f['seed'],
                          'schedule': f['sched'], 'lo': 0.0, 'hi': 0.0 if f['special'] == 'zero' else 1.0}
            if f['special'] == 'nan':
                p[f'b{b}']['hi'] = float('nan')
        if k == 'value' and f['special'] is None:
            val = b
    ins = [f'b{b}.{SCRIPT_OUT[f["kind"]][0]}' for b, f in enumerate(c['blocks'])]
    p['lst'] = {'class': 'DstProbe', 'inputs': {'input': ins}}
    if c['reader'] and val is not None:
        p['f'] = {'class': 'Integrator', 'simul_params_ref': 'main', 'int_gain': [0.5], 'n_modes': [4], 'inputs': {'delta_comm': f'b{val}.out'}}
    return p


def observed_params(c, p):
    for k, ob in enumerate(c['obs']):
        d = {'class': ob['cls']}
        d.update({a: v for a, v in ob['opts'].items()})
        sfx = ':-1' if ob['delay'] else ''
        if ob['cls'] == 'DataStore':
            d['store_dir'] = f'./st{k}'
            d['inputs'] = {'input_list': [f'k{j}-{o}' for j, o in enumerate(ob['of'])]}
        elif ob['cls'] == 'DoublePhaseDisplay':
            d['inputs'] = {'phase1': ob['of'][0] + sfx, 'phase2': ob['of'][1] + sfx}
        elif ob['cls'] == 'PlotDisplay' and ob['pos'] > 0.5:
            d['inputs'] = {'value_list': [ob['of'] + sfx]}
        else:
            d['inputs'] = {KEY[ob['cls']]: ob['of'] + sfx}
        if 'pup' in ob:
            p = dict(p, **{f'obs{k}p': {'class': 'DstPup', 'every': ob['pup']['every']}, 'main': dict(p['main'], add_modules=['dst_objs'])})
            d['inputs']['in_pupdata'] = f'obs{k}p.out_pupdata'
            if ob['pup']['par']:
                d['inputs']['in_params'] = f'obs{k}p.out_params'
        if ob['cls'].endswith('Display'):
            d['figsize'] = [2, 2]
        items = list(p.items())
        items.insert(1 + int(ob['pos'] * len(items)), (f'obs{k}', d))
        p = dict(items)
    if c.get('srv'):
        if c['srv']['block']:
            p['srv'] = {'class': 'DisplayServer', 'mode': c['srv']['mode']}
        else:
            p['main'] = dict(p['main'], display_server=True)
    return p


def serve(c, out, rec):
    """The observed run with the display server, its threads and clients under the scheduler."""
    s = c['srv']
    ch = Chooser(Rng(s['sched_seed']), 'uniform', c.get('_trace'))
    env = simq.Env(ch, max_steps=150000, max_ticks=10**9)
    web = simweb.Web(env)
    simweb.FakePlotter.fail = set()
    import specula.lib.display_server_api as api
    import specula.processing_objects.display_server as DS
    state = dict(stop=False, k=-1)

    def client(k, cl):
        sid = f'sid{k}'

        def body():
            web.inbox[sid] = []
            env.wait(lambda: web.serving or state['stop'], why='client')
            if state['stop']:
                return
            web.alive.add(sid)
            if cl['broken']:
                web.broken.add(sid)
            web.call(sid, 'connect')
            for q in cl['reqs']:
                for _ in range(cl['gap']):
                    env.yield_()
                if state['stop']:
                    return
                web.call(sid, 'newdata', q)
                out.stats['probe.requests'] += 1
            if cl['leaves']:
                env.stats['fault.client_left'] += 1
                web.alive.discard(sid)
                web.call(sid, 'disconnect')
        return body

    def before(loop, t):
        if t == 0:
            for j, cl in enumerate(s['clients']):
                env.sched.spawn(f'client{j}', client(j, cl), daemon=True)
        for _ in range(s['pace']):
            env.yield_()
        state['k'] += 1
        if state['k'] == c['n'] - 1:
            state['stop'] = True

    def main():
        bench.run(None, order=Rng(c['order'] + 1), before=before, speed_report=c['speed'], rec=rec)
    err = None
    with simq.installed(env, threads=(api, DS)), simweb.installed(env, web, 'absent', real_plotter=s['real_plotter']):
        try:
            env.run(main)
        except (Deadlock, StepLimit) as e:
            err = RuntimeError(f'no progress: {e}')
        except Exception as e:
            err = e
    out.trace = ch.rec
    out.stats.update(env.stats)
    if err is not None:
        raise err


def same(u, v):
    if isinstance(u, list):
        return len(u) == len(v) and all(same(x, y) for x, y in zip(u, v))
    (ta, a), (tb, b) = u, v
    if ta != tb or (a is None) != (b is None):
        return False
    if a is None:
        return True
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    return a.tolist() == b.tolist() if a.dtype == object else a.tobytes() == b.tobytes()


def compare(out, ref, got, c):
    if ref.t != got.t:
        out.fail('observer-changed-steps', f'{len(got.t)} steps with observers, {len(ref.t)} without')
        return
    for k, t in enumerate(ref.t):
        for b in ref.at:
            for o, u in ref.at[b][k].items():
                if b not in got.at or not same(u, got.at[b][k][o]):
                    v = got.at[b][k][o] if b in got.at else None
                    out.fail('observer-changed-values', f'{b}.{o} at t={t} is {str(v)[:120]} with observers {[x["cls"] for x in c["obs"]]} and {str(u)[:120]} without')
                    return


def damaged(ref, got):
    """Attributes that observed objects have lost."""
    for b, o in ref.objs.items():
        for k, x in o.outputs.items():
            y = got.objs[b].outputs[k]
            for u, v in zip(x if isinstance(x, list) else [x], y if isinstance(y, list) else [y]):
                lost = set(vars(u)) - set(vars(v))
                if lost:
                    return f'{b}.{k} has lost {sorted(lost)}'
    return None


def execute(case, d):
    c = case
    out = Outcome()
    from dst_objs import registry
    world.reset(1, precision=c['prec'])
    registry.reset()
    if c['fam'] == 'chain':
        chains.calib(c['chain'])
    ref = bench.run(base_params(c), order=Rng(c['order']))
    world.reset(1, precision=c['prec'])
    p = observed_params(c, base_params(c))
    out.stats['runs'] += 2
    fs = simfs.Fs('.', [dict(f) for f in c['faults']], out.stats)
    got = bench.Rec()
    with open('p.yml', 'w') as f:
        yaml.safe_dump(p, f, sort_keys=False)
    try:
        with simgui.Gui(c['gui'], out.stats):
            if c.get('srv'):
                with fs.installed():
                    serve(c, out, got)
            else:
                with SimClock(start=1.7e9, tail=0.0).installed(), fs.installed():
                    bench.run(None, order=Rng(c['order'] + 1), speed_report=c['speed'], rec=got)
    except OSError as e:
        # data that could not be saved when the run was over
        if len(got.t) < len(ref.t) or (sut_frame(e) or '').split(':')[0] != 'specula/processing_objects/data_store.py':
            sut_exception(out, e, 'observer-aborted-run')
    except Exception as e:
        sut_exception(out, e, 'observer-aborted-run')
    if not out.violations:
        compare(out, ref, got, c)
        lost = None if out.violations else damaged(ref, got)
        if lost:
            out.fail('observed-object-damaged', lost)
    for ob in c['obs']:
        out.stats['probe.' + ob['cls']] += 1
    out.nontrivial = c['n'] >= 3
    out.sim_time = c['n'] * STEP / 1e9
    out.key = digest(c)
    out.digest = digest([out.violations, len(ref.t)])
    return out


def reductions(c):
    def mod(**kw):
        d = copy.deepcopy(c)
        d.update(kw)
        return d
    for k in range(len(c['obs'])):
        d = mod()
        del d['obs'][k]
        yield d
    for k, v in (('faults', []), ('gui', None), ('speed', False), ('prec', 0)):
        if c[k] != v:
            yield mod(**{k: v})
    if c.get('srv'):
        d = mod()
        d.pop('srv')
        d.pop('_trace', None)
        yield d
        for k in range(len(c['srv']['clients'])):
            d = mod()
            del d['srv']['clients'][k]
            d.pop('_trace', None)
            yield d
    if c['fam'] == 'chain':
        for ch in chains.reductions(c['chain']):
            d = mod(chain=ch, n=ch['nsteps'])
            ok = {o for o, _ in targets(d)}
            if all(set(x['of'] if isinstance(x['of'], list) else [x['of']]) <= ok for x in d['obs']):
                yield d
