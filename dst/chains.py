"""Random small AO systems made only of the repository's own blocks (turbulence, propagation, sensor, detector, control,
mirror, products), their calibration files, and a recorder of every block output at every step."""
import contextlib
import copy
import hashlib
import os
import numpy as np
import yaml
from dst import world


# ------------------------------------------------------------------------------------------------ generation
def gen_chain(rng, noise=True, psf=True):
    npx = rng.choice([16, 20, 24])
    kind = rng.weighted([('sh', 4), ('pyr', 2), ('none', 1)])
    step = rng.choice([0.001, 0.002, 0.0005])
    c = dict(npx=npx, pitch=rng.choice([0.05, 0.1]), step=step, nsteps=rng.randint(3, 9), sensor=kind, n_sub=4,
             det_every=rng.choice([1, 1, 2, 3]), det_start=rng.choice([0, 0, 1]), noise=bool(noise and rng.chance(0.6)),
             atmo=rng.weighted([('evol', 3), ('infinite', 2), ('random', 1), ('none', 1)]),
             layers=rng.randint(1, 2), seed=rng.randint(1, 9999), seeing=rng.choice([0.6, 0.9]),
             seeing_var=rng.chance(0.4), wind=[rng.choice([0.0, 5.0, 20.0, 33.3]) for _ in range(2)],
             wdir=[rng.choice([0.0, 90.0, 37.0]) for _ in range(2)], nmodes=rng.randint(3, 6), delay=rng.choice([0, 1, 2, 1.5]),
             gain=rng.choice([0.3, 0.5]), height_src=rng.choice(['inf', 'inf', 'inf', 90000.0]), magn=rng.choice([5, 8]),
             psf=bool(psf and rng.chance(0.6)), modal=rng.chance(0.5), dist=rng.choice(['none', 'rand', 'wave', 'vibr']),
             zenith=rng.choice([0.0, 30.0]), matseed=rng.next() & 0xffffffff, obs=rng.choice([0.0, 0.2]))
    if c['atmo'] == 'random':
        c['layers'] = 1
    if c['atmo'] == 'none' and c['dist'] == 'none':
        c['dist'] = 'rand'
    if c['height_src'] != 'inf':
        c['layers'] = 1
    return c


def params(c, ranks=None, extra=None):
    p = {}
    p['main'] = {'class': 'SimulParams', 'root_dir': './calib', 'pixel_pupil': c['npx'], 'pixel_pitch': c['pitch'],
                 'total_time': round(c['nsteps'] * c['step'], 9), 'time_step': c['step'], 'zenithAngleInDeg': c['zenith']}
    p['pupilstop'] = {'class': 'Pupilstop', 'simul_params_ref': 'main', 'obs_diam': c['obs']}
    h = float('inf') if c['height_src'] == 'inf' else c['height_src']
    src = {'class': 'Source', 'polar_coordinates': [0.0, 0.0], 'magnitude': c['magn'], 'wavelengthInNm': 750}
    if h != float('inf'):
        src['height'] = h
    p['star'] = src
    nl = c['layers']
    common = ['pupilstop']
    atmo_in = None
    if c['atmo'] in ('evol', 'infinite'):
        p['seeing'] = ({'class': 'WaveGenerator', 'constant': c['seeing'], 'amp': 0.2, 'freq': 40.0} if c['seeing_var']
                       else {'class': 'WaveGenerator', 'constant': c['seeing']})
        p['wind_speed'] = {'class': 'WaveGenerator', 'constant': c['wind'][:nl]}
        p['wind_direction'] = {'class': 'WaveGenerator', 'constant': c['wdir'][:nl]}
        a = {'class': 'AtmoEvolution' if c['atmo'] == 'evol' else 'AtmoInfiniteEvolution', 'simul_params_ref': 'main',
             'L0': 20 if c['atmo'] == 'evol' else [20.0] * nl, 'heights': [0.0, 3000.0][:nl], 'Cn2': [[1.0], [0.7, 0.3]][nl - 1],
             'fov': 0.0, 'seed': c['seed'],
             'inputs': {'seeing': 'seeing.output', 'wind_speed': 'wind_speed.output', 'wind_direction': 'wind_direction.output'},
             'outputs': ['layer_list']}
        if c['atmo'] == 'evol':
            a['pixel_phasescreens'] = 128
        p['atmo'] = a
        atmo_in = ['atmo.layer_list']
    elif c['atmo'] == 'random':
        p['seeing'] = {'class': 'WaveGenerator', 'constant': c['seeing']}
        p['atmo'] = {'class': 'AtmoRandomPhase', 'simul_params_ref': 'main', 'L0': 20, 'pixel_phasescreens': 128,
                     'source_dict_ref': ['star'], 'seed': c['seed'],
                     'inputs': {'seeing': 'seeing.output', 'pupilstop': 'pupilstop'}, 'outputs': ['out_star_ef']}
    nm = c['nmodes']
    if c['dist'] != 'none' and c['atmo'] != 'random':
        if c['dist'] == 'rand':
            p['disturb'] = {'class': 'RandomGenerator', 'amp': 30.0, 'seed': c['seed'] + 17, 'output_size': nm}
        elif c['dist'] == 'wave':
            p['disturb'] = {'class': 'WaveGenerator', 'amp': [20.0] * nm, 'freq': [17.0 + i for i in range(nm)],
                            'offset': [0.1 * i for i in range(nm)], 'constant': [0.0] * nm, 'slope': [0.0] * nm}
        else:
            p['disturb'] = {'class': 'VibrationGenerator', 'simul_params_ref': 'main', 'nmodes': nm, 'seed': c['seed'],
                            'psd': [[100.0, 50.0, 10.0]] * nm, 'freq': [1.0, 50.0, 100.0]}
        p['dm_dist'] = {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': nm, 'height': 0,
                        'obsratio': c['obs'], 'inputs': {'in_command': 'disturb.output'}, 'outputs': ['out_layer']}
        common.append('dm_dist.out_layer')
    closed = c['sensor'] != 'none' and c['atmo'] != 'random'
    if closed:
        common.append('dm.out_layer:-1')
    if c['atmo'] == 'random':
        ef = 'atmo.out_star_ef'
    else:
        ins = {'common_layer_list': common}
        if atmo_in:
            ins['atmo_layer_list'] = atmo_in
        p['prop'] = {'class': 'AtmoPropagation', 'simul_params_ref': 'main', 'source_dict_ref': ['star'], 'inputs': ins,
                     'outputs': ['out_star_ef']}
        ef = 'prop.out_star_ef'
    if c.get('flat'):
        p['flat'] = {'class': 'PhaseFlattening', 'inputs': {'in_ef': ef}, 'outputs': ['out_ef']}
        ef = 'flat.out_ef'
    if c['sensor'] != 'none':
        if c['sensor'] == 'sh':
            p['wfs'] = {'class': 'SH', 'subap_wanted_fov': 3.0, 'sensor_pxscale': 0.75, 'subap_npx': 4, 'subap_on_diameter': c['n_sub'],
                        'wavelengthInNm': 750, 'inputs': {'in_ef': ef}, 'outputs': ['out_i']}
            size = [c['n_sub'] * 4] * 2
        else:
            size = [24, 24]
            p['wfs'] = {'class': 'ModulatedPyramid', 'simul_params_ref': 'main', 'pup_diam': 8.0, 'pup_dist': 12.0, 'fov': 2.0, 'mod_amp': 2.0,
                        'mod_step': 14, 'output_resolution': 24, 'wavelengthInNm': 750, 'inputs': {'in_ef': ef}, 'outputs': ['out_i']}
        p['det'] = {'class': 'CCD', 'simul_params_ref': 'main', 'size': size, 'dt': round(c['det_every'] * c['step'], 9), 'bandw': 300,
                    'photon_noise': c['noise'], 'readout_noise': c['noise'], 'readout_level': 0.5, 'quantum_eff': 0.3,
                    'photon_seed': c['seed'] + 3, 'readout_seed': c['seed'] + 4,
                    'inputs': {'in_i': 'wfs.out_i'}, 'outputs': ['out_pixels']}
        if c.get('excess'):
            p['det'].update(excess_noise=True, excess_delta=1.1, excess_seed=c['seed'] + 5)
        if c.get('cic'):
            p['det'].update(cic_noise=True, cic_level=0.1)
        if c.get('dark'):
            p['det'].update(darkcurrent_noise=True, darkcurrent_level=0.5, background_noise=True, background_level=0.25)
        if c['det_start']:
            p['det']['start_time'] = round(c['step'] * c['det_every'], 9)
        if c['sensor'] == 'sh':
            p['slopec'] = {'class': 'ShSlopec', 'subapdata_object': 'subaps', 'inputs': {'in_pixels': 'det.out_pixels'},
                           'outputs': ['out_slopes']}
        else:
            p['slopec'] = {'class': 'PyrSlopec', 'pupdata_object': 'pups', 'inputs': {'in_pixels': 'det.out_pixels'},
                           'outputs': ['out_slopes']}
        p['rec'] = {'class': 'Modalrec', 'recmat_object': 'rec', 'inputs': {'in_slopes': 'slopec.out_slopes'}, 'outputs': ['out_modes']}
        p['control'] = {'class': 'Integrator', 'simul_params_ref': 'main', 'delay': c['delay'], 'int_gain': [c['gain']], 'n_modes': [nm],
                        'inputs': {'delta_comm': 'rec.out_modes'}, 'outputs': ['out_comm']}
        p['dm'] = {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': nm, 'height': 0, 'obsratio': c['obs'],
                   'inputs': {'in_command': 'control.out_comm'}, 'outputs': ['out_layer']}
    if c['psf']:
        p['psf'] = {'class': 'PSF', 'simul_params_ref': 'main', 'wavelengthInNm': 1650, 'nd': 2, 'start_time': 0.0,
                    'inputs': {'in_ef': ef}, 'outputs': ['out_psf', 'out_sr']}
    if c['modal']:
        p['modal'] = {'class': 'ModalAnalysis', 'type_str': 'zernike', 'nmodes': nm, 'npixels': c['npx'], 'obsratio': c['obs'],
                      'inputs': {'in_ef': ef}, 'outputs': ['out_modes']}
    if extra:
        p.update(extra)
    if ranks:
        for k, r in ranks.items():
            if k in p and r is not None:
                p[k]['target_rank'] = r
    return p


STATIC = ('main', 'star', 'pupilstop')


def blocks(c):
    return [k for k in params(c) if k not in STATIC]


def write(c, path='p.yml', **kw):
    """Parameter file and calibration files, in the current directory."""
    p = params(c, **kw)
    with open(path, 'w') as f:
        yaml.safe_dump(p, f, sort_keys=False)
    calib(c)
    return p


def calib(c):
    from specula.data_objects.subap_data import SubapData
    from specula.data_objects.pupdata import PupData
    from specula.data_objects.recmat import Recmat
    for d in ('subapdata', 'pupils', 'rec', 'phasescreens', 'slopenulls'):
        os.makedirs(os.path.join('calib', d), exist_ok=True)
    if c['sensor'] == 'none':
        return
    rs = np.random.RandomState(c['matseed'])
    with world.quiet():
        if c['sensor'] == 'sh':
            n, k = c['n_sub'], 4
            idx = np.arange((n * k) ** 2).reshape(n * k, n * k)
            idxs = np.array([idx[a * k:(a + 1) * k, b * k:(b + 1) * k].ravel() for a in range(n) for b in range(n)])
            keep = [i for i in range(n * n) if i not in (0, n - 1, n * (n - 1), n * n - 1)]
            SubapData(idxs[keep], np.array(keep), n, n).save('calib/subapdata/subaps.fits', overwrite=True)
            ns = 2 * len(keep)
        else:
            g = np.arange(24 * 24).reshape(24, 24)
            yy, xx = np.mgrid[0:8, 0:8]
            m = (yy - 3.5) ** 2 + (xx - 3.5) ** 2 <= 16
            cols = [g[r:r + 8, q:q + 8][m] for r, q in ((2, 2), (2, 14), (14, 2), (14, 14))]
            pd = PupData(ind_pup=np.array(cols).T, radius=[4] * 4, cx=[6, 18, 6, 18], cy=[6, 6, 18, 18], framesize=[24, 24])
            pd.save('calib/pupils/pups.fits', overwrite=True)
            ns = 2 * len(cols[0])
        Recmat(rs.normal(size=(c['nmodes'], ns)) * (20.0 if c['sensor'] == 'sh' else 200.0)).save('calib/rec/rec.fits', overwrite=True)


# ------------------------------------------------------------------------------------------------ recording
def val_digest(x):
    """Digest of a data object's visible value, bit-exact."""
    try:
        v = x.get_value()
    except (NotImplementedError, AttributeError):
        h = hashlib.sha1()
        for k in sorted(vars(x)):
            if isinstance(vars(x)[k], np.ndarray):
                h.update(k.encode() + np.ascontiguousarray(vars(x)[k]).tobytes())
        return type(x).__name__ + h.hexdigest()[:12]
    if v is None:
        return 'None'
    a = np.ascontiguousarray(np.asarray(v))
    return f'{a.dtype}{list(a.shape)}' + hashlib.sha1(a.tobytes()).hexdigest()[:12]


def snapshot(obj, full=False):
    res = []
    for k, o in obj.outputs.items():
        for j, it in enumerate(o if isinstance(o, list) else [o]):
            res.append([f'{k}[{j}]' if isinstance(o, list) else k, int(it.generation_time), val_digest(it)])
    return res


@contextlib.contextmanager
def recorder(log, only=None):
    """Append [t, block, outputs] for every local block at the end of every step."""
    import specula.simul as S
    base = S.LoopControl

    class Loop(base):
        def iter(self, *a, **k):
            t = self.t
            r = super().iter(*a, **k)
            for i in sorted(self.trigger_lists):
                for e in self.trigger_lists[i]:
                    if only is None or e.name in only:
                        log.append([int(t), e.name, snapshot(e)])
            return r
    S.LoopControl = Loop
    try:
        yield
    finally:
        S.LoopControl = base


def run(path='p.yml', order=None, overrides=None, **kw):
    """Single-process run of a parameter file. Returns (log, simul, text)."""
    import specula.simul as S
    from dst.simrun import group_order
    log = []
    with world.quiet() as buf, group_order(order), recorder(log):
        sim = S.Simul(*([path] if isinstance(path, str) else path), overrides=overrides, speed_report=kw.pop('speed_report', False), **kw)
        sim.run()
    return log, sim, buf.getvalue()


def diff(a, b):
    """First difference between two logs as text, or None. Compares per block sequences."""
    def by(log):
        d = {}
        for t, n, s in log:
            d.setdefault(n, []).append([t, s])
        return d
    da, db = by(a), by(b)
    first = None
    for n in sorted(set(da) | set(db)):
        x, y = da.get(n, []), db.get(n, [])
        for k in range(max(len(x), len(y))):
            p = x[k] if k < len(x) else None
            q = y[k] if k < len(y) else None
            if p != q:
                t = (p or q)[0]
                if first is None or t < first[0]:
                    first = (t, n, p and p[1], q and q[1])
                break
    if first is None:
        return None
    t, n, p, q = first
    if p and q:
        for u, v in zip(p, q):
            if u != v:
                what = 'refresh time' if u[2] == v[2] else ('value' if u[1] == v[1] else 'value and refresh time')
                return f'{n}.{u[0]} differs in {what} at t={t} ns: {u} / {v}'
    return f'{n} differs at t={t} ns: {p} / {q}'


def reductions(c):
    for k, v in (('psf', False), ('modal', False), ('noise', False), ('seeing_var', False), ('layers', 1), ('det_every', 1),
                 ('det_start', 0), ('delay', 0), ('obs', 0.0), ('zenith', 0.0), ('height_src', 'inf'), ('npx', 16),
                 ('nmodes', 3), ('dist', 'none'), ('atmo', 'none'), ('sensor', 'none')):
        if c[k] != v:
            d = copy.deepcopy(c)
            d[k] = v
            if d['atmo'] == 'none' and d['dist'] == 'none':
                continue
            yield d
    for n in (1, 2, c['nsteps'] - 1):
        if 0 < n < c['nsteps']:
            d = copy.deepcopy(c)
            d['nsteps'] = n
            yield d
