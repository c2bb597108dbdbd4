"""C16: saved calibration objects are never clobbered and load back as saved."""
import copy
import gc
import os
import shutil
import numpy as np
from dst.core import Outcome, sut_exception, SimCrash
from dst.prng import Rng
from dst import simfs, world
from dst.run import digest

PROPERTY = 'C16'
LEVEL = 'exploration'
TECHNIQUE = 'seeded search over histories of saves and restores on one directory with crashes, full disks and I/O errors at every file operation'
TIERS = dict(quick=dict(cases=9000, budget=200), thorough=dict(cases=400000, budget=780))
RULE = ('one case = a history of saves (with and without permission to overwrite, over objects, foreign files, unfinished files), restores and re-saves of '
        'two data objects of one class and two file names, in which any file operation may fail or be the last one of the process; a small model says '
        'which object each file holds (or which two it may hold after an interrupted save); every file is restored and compared after every step; '
        'non-trivial = a fault fired or a save was refused; distinct = by class, history and content sizes')
COMPONENTS = dict(real=['save() and restore() of the data objects', 'BaseValue', 'CalibManager', 'astropy.io.fits on a real directory'],
                  stub=['failing file operations and process crashes'])
ASSUMPTIONS = ['objects have the default precision of the process', 'header values are kept to 11 digits', 'a crash loses what was not written, nothing is rearranged',
               'an existing empty file may be overwritten without permission']

ALWAYS = ('iir', 'ssr', 'sta', 'calib')     # their save() always overwrites: no permission to give
NEVER = ('history',)                        # its save() never overwrites


def gnum(rng):
    return rng.choice([0.0, 1.0, -2.5, 1 / 3, -1.2345678901234567e-05, 6.02214076e23, 589.0, 1e-9 / 7])


def gshape(rng, nd, lo=1, hi=5):
    return [rng.randint(lo, hi) for _ in range(nd)]


TAGS = ['', 'tag', "it's", 'a' * 75, 'scao_pup_12x12 v2', '1.5', 'T', '/x/y']

KINDS = dict(
    value=lambda r: dict(shape=r.choice([None, [], [3], [2, 3], [1], [0], 'scalar', 'scalar']), special=r.choice([None, None, 'nan', 'inf', '-inf']), x=gnum(r)),
    history=lambda r: dict(shape=gshape(r, r.choice([1, 2])), integer=r.chance(0.3)),
    ifunc=lambda r: dict(nm=r.randint(1, 5), n=r.randint(2, 6), mask=r.choice(['float', 'bool', 'int']), from_type=r.chance(0.2)),
    ifuncinv=lambda r: dict(nm=r.randint(1, 5), n=r.randint(2, 6), mask=r.choice(['float', 'bool', 'int'])),
    stop=lambda r: dict(n=r.randint(2, 8), pitch=r.choice([0.1, 1 / 3]), shift=[gnum(r), 0.5], rot=r.choice([0.0, 33.3]), magn=r.choice([1.0, 1 / 3]), mask=r.chance(0.6)),
    layer=lambda r: dict(s=gshape(r, 2), pitch=r.choice([0.1, 1 / 3]), height=r.choice([0.0, 12345.678, 1e4]), shift=[0.25, gnum(r)], rot=r.choice([0.0, -33.3]),
                         magn=r.choice([1.0, 1.1])),
    field=lambda r: dict(s=gshape(r, 2), pitch=r.choice([0.1, 1 / 3]), S0=gnum(r)),
    intensity=lambda r: dict(s=gshape(r, 2)),
    intmat=lambda r: dict(s=gshape(r, 2), mm=r.chance(0.5), rms=r.chance(0.5), pt=r.choice(TAGS), st=r.choice(TAGS), norm=gnum(r)),
    recmat=lambda r: dict(s=gshape(r, 2), norm=gnum(r), ext=r.chance(0.7)),
    subap=lambda r: dict(n=r.randint(1, 4), npx=r.choice([1, 4, 9]), nx=r.randint(2, 4), ny=r.randint(2, 4), th=gnum(r)),
    lenslet=lambda r: dict(n=r.randint(1, 6)),
    source=lambda r: dict(pol=[gnum(r), 45.0], mag=gnum(r), wl=r.choice([589.0, 1650, 1 / 3]), height=r.choice(['inf', 90e3, 90000, 1 / 3]), band=r.choice(TAGS[:3]),
                          zp=r.choice([0, 1e10 / 3]), err=r.choice([[0., 0.], [0.1, -0.2]])),
    pupdata=lambda r: dict(n=r.randint(1, 6), p=r.choice([1, 3, 4]), fs=[r.randint(4, 9), r.randint(4, 9)]),
    iir=lambda r: dict(n=r.randint(1, 4), o=r.randint(1, 4)),
    ssr=lambda r: dict(n=r.randint(1, 3), st=r.randint(1, 3)),
    m2c=lambda r: dict(s=gshape(r, 2)),
    sta=lambda r: dict(s=gshape(r, r.choice([1, 2, 3])), first=r.chance(0.5)),
    llt=lambda r: dict(spot=gnum(r), tel=r.choice([None, [5.0, 0.0, 1 / 3], [0.0, 0.0, 0.0], [0, 1, 2]]), focus=r.choice([90e3, 1e5 / 3]), tt=[gnum(r), 0.3],
                       zen=r.choice([None, 0.0, 30.0, 45.5])),
    slopes=lambda r: dict(n=2 * r.randint(1, 5), il=r.chance(0.5), pt=r.choice([None] + TAGS), st=r.choice([None] + TAGS)),
    pixels=lambda r: dict(s=gshape(r, 2), bits=r.choice([8, 12, 16, 24, 32, 64]), signed=r.choice([0, 1])),
    calib=lambda r: dict(s=gshape(r, r.choice([1, 2])), subdir=r.choice(['data', 'im', 'rec'])),
)


def generate(rng, tier, i):
    kinds = sorted(KINDS)
    kind = kinds[i % len(kinds)]
    objs = [dict(KINDS[kind](rng), seed=rng.randint(0, 10 ** 6)) for _ in range(2)]
    if rng.chance(0.3):         # nearly equal objects
        objs[1] = dict(copy.deepcopy(objs[0]), seed=objs[1]['seed'])
    steps = []
    faulty = rng.chance(0.75)
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(['save'] * 7 + ['foreign', 'resave', 'cut', 'empty'])
        st = dict(op=k, obj=rng.choice([0, 1]), file=rng.choice([0, 0, 0, 1]), ow=rng.choice([True, True, False, None]), plan=None)
        if k in ('save', 'resave') and faulty and rng.chance(0.6):
            f = rng.choice(['kill', 'kill', 'eio', 'enospc', 'rdfail'])
            if f == 'kill':
                st['plan'] = dict(kind='kill', at=rng.choice([0, 1, 2, 3, 4, 5, 6, 8, rng.randint(0, 20)]), keep=rng.choice([0, 0.3, 0.7, 1.0]))
            elif f == 'eio':
                st['plan'] = dict(kind='eio', at=rng.choice([0, 1, 2, 3, 4, 5, rng.randint(0, 20)]), n=rng.choice([1, 1, 2, 100]))
            elif f == 'enospc':
                st['plan'] = dict(kind='enospc', room=rng.choice([0, 512, 2880, 5760, 8640, 11520, 14400, rng.randint(0, 30000)]))
            else:
                st['plan'] = dict(kind='rdfail', at=rng.randint(0, 4), n=rng.choice([1, 3]))
        if k == 'cut':
            st['cut'] = rng.choice([-1, 0.0, 0.3, 0.7, 0.99, rng.randint(1, 6)])
        steps.append(st)
    return dict(kind=kind, prec=rng.choice([0, 1, 1]), objs=objs, steps=steps, ext=rng.choice(['.fits'] * 5 + ['.fits.gz', '']))


FIXED = [dict(kind='recmat', prec=1, objs=[dict(s=[3, 2], norm=1.0, ext='layers', seed=1)] * 2, steps=[dict(op='save', obj=0, file=0, ow=True, plan=None)], ext='.fits')]


# ---------------------------------------------------------------- building, saving and reading back

def arr(r, shape, dtype=None):
    a = np.array([r.gauss() for _ in range(int(np.prod(shape)))]).reshape(shape)
    return a if dtype is None else a.astype(dtype)


class R:
    def __init__(self, seed):
        self.g = np.random.RandomState(seed)

    def gauss(self):
        return float(self.g.normal() * 10 ** self.g.randint(-3, 4))

    def ints(self, hi, shape):
        return self.g.randint(0, hi, size=shape)


def build(kind, p, d):
    from specula.data_objects import simul_params
    r = R(p['seed'])
    SP = simul_params.SimulParams
    if kind == 'value':
        from specula.base_value import BaseValue
        if p['shape'] is None:
            return BaseValue()
        if p['shape'] == 'scalar':
            return BaseValue(value=float(p['special']) if p['special'] else p['x'])
        v = arr(r, p['shape'])
        if p['special'] and v.size:
            v.flat[0] = float(p['special'])
        b = BaseValue()
        b.set_value(v)
        return b
    if kind == 'history':
        from specula.data_objects.time_history import TimeHistory
        return TimeHistory(r.ints(1000, p['shape']) if p['integer'] else arr(r, p['shape']))
    if kind in ('ifunc', 'ifuncinv'):
        from specula.data_objects.ifunc import IFunc
        from specula.data_objects.ifunc_inv import IFuncInv
        if p.get('from_type'):
            return IFunc(type_str='zernike', npixels=p['n'] + 4, nmodes=p['nm'] + 1)
        m = r.ints(2, (p['n'], p['n']))
        m[0, 0] = 1
        npx = int(m.sum())
        m = m.astype(dict(float=np.float32, bool=bool, int=np.int32)[p['mask']])
        return IFunc(arr(r, (p['nm'], npx)), mask=m) if kind == 'ifunc' else IFuncInv(arr(r, (npx, p['nm'])), m)
    if kind == 'stop':
        from specula.data_objects.pupilstop import Pupilstop
        return Pupilstop(SP(p['n'], p['pitch']), input_mask=r.ints(2, (p['n'], p['n'])) if p['mask'] else None, shiftXYinPixel=tuple(p['shift']),
                         rotInDeg=p['rot'], magnification=p['magn'])
    if kind == 'layer':
        from specula.data_objects.layer import Layer
        x = Layer(*p['s'], p['pitch'], p['height'], tuple(p['shift']), p['rot'], p['magn'])
        x.field[:] = arr(r, x.field.shape)
        return x
    if kind == 'field':
        from specula.data_objects.electric_field import ElectricField
        x = ElectricField(*p['s'], p['pitch'], S0=p['S0'])
        x.field[:] = arr(r, x.field.shape)
        return x
    if kind == 'intensity':
        from specula.data_objects.intensity import Intensity
        x = Intensity(*p['s'])
        x.i[:] = arr(r, x.i.shape)
        return x
    if kind == 'intmat':
        from specula.data_objects.intmat import Intmat
        n = p['s'][1]
        return Intmat(arr(r, p['s']), slope_mm=arr(r, (n, 2)) if p['mm'] else None, slope_rms=arr(r, (n,)) if p['rms'] else None,
                      pupdata_tag=p['pt'], subapdata_tag=p['st'], norm_factor=p['norm'])
    if kind == 'recmat':
        from specula.data_objects.recmat import Recmat
        x = Recmat(arr(r, p['s']), norm_factor=p['norm'])
        if p['ext'] == 'layers':
            x.set_modes2recLayer(np.eye(3))
        return x
    if kind == 'subap':
        from specula.data_objects.subap_data import SubapData
        return SubapData(idxs=r.ints(100, (p['n'], p['npx'])), display_map=r.ints(p['nx'] * p['ny'], (p['n'],)), nx=p['nx'], ny=p['ny'], energy_th=p['th'])
    if kind == 'lenslet':
        from specula.data_objects.lenslet import Lenslet
        return Lenslet(p['n'])
    if kind == 'source':
        from specula.data_objects.source import Source
        return Source(p['pol'], p['mag'], p['wl'], height=float(p['height']), band=p['band'], zero_point=p['zp'], error_coord=tuple(p['err']))
    if kind == 'pupdata':
        from specula.data_objects.pupdata import PupData
        return PupData(ind_pup=r.ints(50, (p['n'], p['p'])), radius=arr(r, (p['p'],)), cx=arr(r, (p['p'],)), cy=arr(r, (p['p'],)), framesize=p['fs'])
    if kind == 'iir':
        from specula.data_objects.iir_filter_data import IirFilterData
        o = r.ints(p['o'], (2, p['n'])) + 1
        o[:, 0] = p['o']
        num, den = arr(r, (p['n'], p['o'])), arr(r, (p['n'], p['o']))
        for k in range(p['n']):     # lowest orders first: unused low orders are zero
            num[k, :p['o'] - o[0, k]] = 0
            den[k, :p['o'] - o[1, k]] = 0
        return IirFilterData(o[0], o[1], num, den)
    if kind == 'ssr':
        from specula.data_objects.ssr_filter_data import SsrFilterData
        n, s = p['n'], p['n'] * p['st']
        return SsrFilterData(arr(r, (s, s)), arr(r, (s, n)), arr(r, (n, s)), arr(r, (n, n)))
    if kind == 'm2c':
        from specula.data_objects.m2c import M2C
        return M2C(arr(r, p['s']))
    if kind == 'sta':
        from specula.data_objects.spatio_temp_array import SpatioTempArray
        return SpatioTempArray(arr(r, p['s']), np.cumsum(np.abs(arr(r, (p['s'][0 if p['first'] else -1],)))), time_axis=0 if p['first'] else -1)
    if kind == 'llt':
        from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
        sp = SP(zenithAngleInDeg=p['zen']) if p['zen'] is not None or p['tel'] is not None else None
        return LaserLaunchTelescope(simul_params=sp, spot_size=p['spot'], tel_position=p['tel'] or [], beacon_focus=p['focus'], beacon_tt=p['tt'])
    if kind == 'slopes':
        from specula.data_objects.slopes import Slopes
        x = Slopes(slopes=arr(r, (p['n'],)), interleave=p['il'])
        x.pupdata_tag, x.subapdata_tag = p['pt'], p['st']
        return x
    if kind == 'pixels':
        from specula.data_objects.pixels import Pixels
        x = Pixels(*p['s'], bits=p['bits'], signed=p['signed'])
        x.pixels[:] = r.ints(2 ** min(p['bits'], 20) // 2, x.pixels.shape) * (-1 if p['signed'] else 1)
        return x
    if kind == 'calib':
        return arr(r, p['s'])
    raise KeyError(kind)


def klass(kind):
    import importlib
    mod, cls = dict(value=('base_value', 'BaseValue'), history=('data_objects.time_history', 'TimeHistory'), ifunc=('data_objects.ifunc', 'IFunc'),
                    ifuncinv=('data_objects.ifunc_inv', 'IFuncInv'), stop=('data_objects.pupilstop', 'Pupilstop'), layer=('data_objects.layer', 'Layer'),
                    field=('data_objects.electric_field', 'ElectricField'), intensity=('data_objects.intensity', 'Intensity'),
                    intmat=('data_objects.intmat', 'Intmat'), recmat=('data_objects.recmat', 'Recmat'), subap=('data_objects.subap_data', 'SubapData'),
                    lenslet=('data_objects.lenslet', 'Lenslet'), source=('data_objects.source', 'Source'), pupdata=('data_objects.pupdata', 'PupData'),
                    iir=('data_objects.iir_filter_data', 'IirFilterData'), ssr=('data_objects.ssr_filter_data', 'SsrFilterData'),
                    m2c=('data_objects.m2c', 'M2C'), sta=('data_objects.spatio_temp_array', 'SpatioTempArray'),
                    llt=('data_objects.laser_launch_telescope', 'LaserLaunchTelescope'), slopes=('data_objects.slopes', 'Slopes'),
                    pixels=('data_objects.pixels', 'Pixels'))[kind]
    return getattr(importlib.import_module('specula.' + mod), cls)


FIELDS = dict(
    value=['value'], history=['time_history'], ifunc=['influence_function', 'mask_inf_func', 'idx_inf_func'], ifuncinv=['ifunc_inv', 'mask_inf_func', 'idx_inf_func'],
    stop=['A', 'field', 'pixel_pitch', 'shiftXYinPixel', 'rotInDeg', 'magnification', 'pixel_pupil'],
    layer=['field', 'pixel_pitch', 'height', 'shiftXYinPixel', 'rotInDeg', 'magnification'], field=['field', 'pixel_pitch', 'S0'], intensity=['i'],
    intmat=['intmat', 'slope_mm', 'slope_rms', 'pupdata_tag', 'subapdata_tag', 'norm_factor'], recmat=['recmat', 'norm_factor', 'modes2recLayer', 'proj_list'],
    subap=['idxs', 'display_map', 'nx', 'ny', 'energy_th', 'np_sub', 'n_subaps'], lenslet=['n_lenses', '_lenses'],
    source=['orig_polar_coordinates', 'polar_coordinates', 'height', 'magnitude', 'wavelengthInNm', 'zero_point', 'band', 'error_coord'],
    pupdata=['ind_pup', 'radius', 'cx', 'cy', 'framesize'], iir=['ordnum', 'ordden', 'num', 'den', 'nfilter'], ssr=['A', 'B', 'C', 'D', 'nfilter', 'total_states'],
    m2c=['m2c'], sta=['array', 'time_vector'], llt=['spot_size', 'tel_pos', 'beacon_focus', 'beacon_tt', 'airmass'],
    slopes=['slopes', 'interleave', 'pupdata_tag', 'subapdata_tag', 'indices_x', 'indices_y'], pixels=['pixels', 'type', 'bpp', 'bytespp', 'signed'], calib=[])

# values that travel in the header as decimal text
HEADER = {'shiftXYinPixel', 'orig_polar_coordinates', 'polar_coordinates', 'error_coord', 'tel_pos', 'beacon_tt'}


def plain(x):
    """Compared form: nested tuples of arrays and scalars."""
    if isinstance(x, (list, tuple)):
        return tuple(plain(y) for y in x)
    if x is None or isinstance(x, (str, type)):
        return x
    a = np.asarray(x)
    return a.astype(a.dtype.newbyteorder('='))


def equal(a, b, tol):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, tuple)) and isinstance(b, (np.ndarray, tuple)) and tol and (isinstance(a, tuple) or isinstance(b, tuple)):
        a, b = np.asarray(a), np.asarray(b)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        if tol:
            return bool(np.allclose(a.astype(float), b.astype(float), rtol=tol, atol=0, equal_nan=True))
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))
    if type(a) is not type(b):
        return False
    return a == b


def state(kind, o):
    if kind == 'calib':
        return {'data': plain(o)}
    res = {}
    for f in FIELDS[kind]:
        v = getattr(o, f)
        if kind == 'slopes' and f.endswith('tag'):
            v = v or ''
        res[f] = plain(v)
    return res


def differences(a, b, prec):
    bad = []
    for f in a:
        scalar = isinstance(a[f], np.ndarray) and a[f].ndim == 0
        tol = 1e-11 if f in HEADER or scalar else 0
        if tol and isinstance(a[f], np.ndarray) and a[f].dtype == np.float32:
            tol = 1.2e-7        # shortest text that gives the same single precision number
        if not equal(a[f], b[f], tol):
            bad.append(f)
    return bad


class Store:
    """The calls a user makes."""

    def __init__(self, kind, d, ext):
        self.kind, self.dir = kind, d
        self.ext = ext if kind in ('recmat', 'llt') and ext == '' or ext == '.fits.gz' and kind not in ('recmat', 'llt', 'calib', 'subap') else '.fits'

    def path(self, n, objs=None):
        return os.path.join(self.dir, 'data' if self.kind == 'calib' else '', f'f{n}' + (self.ext or '.fits'))

    def save(self, o, n, ow):
        if self.kind == 'calib':
            from specula.calib_manager import CalibManager
            return CalibManager(self.dir).write_data(f'f{n}', o)
        if self.kind in ALWAYS + NEVER:
            return o.save(self.path(n))
        fn = os.path.join(self.dir, f'f{n}' + self.ext)
        return o.save(fn) if ow is None else o.save(fn, overwrite=ow)

    def restore(self, n):
        if self.kind == 'calib':
            from specula.calib_manager import CalibManager
            return CalibManager(self.dir).read_data(f'f{n}')
        return klass(self.kind).restore(self.path(n))


def allowed(kind, ow):
    """Permission to overwrite given by this call; None when the default of the class decides."""
    if kind in ALWAYS:
        return True
    if kind in NEVER:
        return False
    return ow


def execute(case, d):
    import inspect
    import warnings
    c = case
    out = Outcome()
    world.reset(1, precision=c['prec'])
    kind = c['kind']
    root = os.path.join(d, 'store')
    os.makedirs(os.path.join(root, 'data'))
    st = Store(kind, root, c['ext'])
    default = True
    if kind not in ALWAYS + NEVER:
        default = inspect.signature(klass(kind).save).parameters['overwrite'].default
    known = {}              # content token -> state
    content = {0: {None}, 1: {None}}        # file -> tokens it may hold (None: nothing that can be restored)
    fired = refused = 0
    partial_known = kind == 'recmat' and c['objs'][0]['ext'] == 'layers'
    with world.quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        objs = [build(kind, p, d) for p in c['objs']]
        for k, o in enumerate(objs):
            known[k] = state(kind, o)

        def look(n):
            """Restored state, or the exception."""
            try:
                return state(kind, st.restore(n))
            except Exception as e:
                return e

        def check(n, who):
            got = look(n)
            poss = content[n]
            if isinstance(got, Exception):
                if None not in poss:
                    x = Outcome()
                    sut_exception(x, got, 'restore-failed')
                    out.fail(f"restore-failed:{kind}", f'{who}: f{n} cannot be restored: {got!r}'[:300])
                return
            out.stats['restores'] += 1
            best = None
            for t in poss:
                if t is None:
                    continue
                bad = differences(known[t], got, c['prec'])
                if not bad:
                    return
                best = bad if best is None or len(bad) < len(best) else best
            if best is None:
                out.fail(f'restored-nothing-saved:{kind}', f'{who}: f{n} gives an object although none was completely saved')
            elif partial_known and set(best) <= {'modes2recLayer', 'proj_list'}:
                out.fail('recmat-layers-not-restored', f'{who}: f{n}: {best} differ')
            else:
                f = best[0]
                t = sorted(x for x in poss if x is not None)[0]
                out.fail(f"not-equal:{kind}:{','.join(best)}", f'{who}: f{n}: {best} differ from what was saved: {known[t][f]!r} became {got[f]!r}'[:400])

        for i, s in enumerate(c['steps']):
            n, who = s['file'], f"step {i} ({s['op']})"
            path = st.path(n)
            before = simfs.tree(root)
            rel = os.path.relpath(path, root)
            if s['op'] == 'foreign':
                with open(path, 'wb') as f:
                    f.write(b'not a FITS file at all' * 10)
                content[n] = {None}
                continue
            if s['op'] == 'empty':
                open(path, 'wb').close()
                content[n] = {None}
                continue
            if s['op'] == 'cut':
                if os.path.exists(path):
                    size = os.path.getsize(path)
                    new = max(0, size - 1) if s['cut'] == -1 else int(2880 * s['cut'] if s['cut'] >= 1 else size * s['cut'])
                    if new < size:
                        os.truncate(path, new)
                        out.stats['fault.truncated_file'] += 1
                        # as if a save were interrupted, except that a temporary file protects atomic saves: not judged for them
                        content[n] = content[n] | {None}
                        if kind in ('recmat', 'pupdata', 'intmat'):
                            os.remove(path)
                            content[n] = {None}
                continue
            if s['op'] == 'resave':         # load an object and save it elsewhere
                got = look(n)
                if isinstance(got, Exception):
                    continue
                try:
                    obj = st.restore(n)
                except Exception as e:
                    out.fail(f'restore-failed:{kind}', f'{who}: second restore failed: {e!r}')
                    break
                tokens = set(content[n]) - {None}
                n = 1 - n
                rel = os.path.relpath(st.path(n), root)
            else:
                obj, tokens = objs[s['obj']], {s['obj']}
            ow = allowed(kind, s['ow'])
            ow = default if ow is None else ow
            exists = before.get(rel) is not None
            blocked = exists and not ow and len(before[rel]) > 0
            fs = simfs.Fs(root, [s['plan']] if s['plan'] else [], out.stats)
            exc = None
            crash = False
            with fs.installed():
                try:
                    st.save(obj, n, s['ow'])
                except SimCrash:
                    crash = True
                except Exception as e:
                    exc = Outcome()
                    sut_exception(exc, e, 'save-failed')
                    exc = exc.violations[0]['msg']
                crash = crash or fs.dead
                if fs.fired and path.endswith('.gz'):
                    gc.collect()        # compressed files flush when they are collected
            out.stats['saves'] += 1
            fired += bool(fs.fired)
            after = simfs.tree(root)
            for f in before:
                if f != rel and before[f] is not None and after.get(f) != before[f]:
                    out.fail(f'other-file-changed:{kind}', f'{who}: {f} was changed by a save to {rel}')
            if blocked:
                refused += 1
                if after.get(rel) != before[rel]:
                    out.fail(f'clobbered:{kind}', f'{who}: {rel} was changed without permission to overwrite')
                if exc is None and not crash:
                    out.fail(f'not-refused:{kind}', f'{who}: save over {rel} without permission did not fail')
            elif crash:
                content[n] = content[n] | tokens | {None}
            elif exc is not None:
                if not fs.fired and not (exists and not ow):
                    out.fail(f'save-failed:{kind}', f'{who}: {exc}')
                    break
                content[n] = content[n] | tokens | {None}
            else:
                content[n] = set(tokens)
            for m in (0, 1):
                check(m, who)
            if out.violations:
                break
        if not out.violations and kind not in NEVER:        # whatever happened, saving works again
            try:
                st.save(objs[0], 0, True)
                content[0] = {0}
                check(0, 'final save')
            except Exception as e:
                out.fail(f'save-failed:{kind}', f'final save: {e!r}')
    out.nontrivial = bool(fired or refused)
    out.key = digest(c)
    out.digest = digest([sorted(simfs.tree(root)), [v['msg'] for v in out.violations]])
    if any('.' in os.path.basename(x) and os.path.basename(x).startswith('.') for x in simfs.tree(root)):
        out.stats['leftover_temporary'] += 1
    shutil.rmtree(root, ignore_errors=True)
    return out


def reductions(c):
    for n in range(len(c['steps'])):
        if len(c['steps']) > 1:
            x = copy.deepcopy(c)
            del x['steps'][n]
            yield x
        if c['steps'][n]['plan']:
            x = copy.deepcopy(c)
            x['steps'][n]['plan'] = None
            yield x
    if c['ext'] != '.fits':
        yield dict(copy.deepcopy(c), ext='.fits')
    if c['prec'] != 1:
        yield dict(copy.deepcopy(c), prec=1)
