"""C22: blocks without memory compute each output from the current values of their inputs alone."""
import copy
import os
import numpy as np
from dst.core import Outcome
from dst.prng import Rng
from dst import bench, world, forked
from dst.run import digest
from dst.props.c18 import irregular

PROPERTY = 'C22'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=800, budget=200), thorough=dict(cases=60000, budget=780))
RULE = ('one case = one to three optical or measurement blocks (mirrors, propagation, wavefront sensors, slope computers, coronagraphs, ...), '
        'possibly chained and possibly reading the same data, fed by scripted sources whose refresh schedule (jitter, stalls, sources that '
        'never deliver) and corrupted frames (NaN, infinities, dark frames, no flux, huge phases) are chosen by the seed, run by the real '
        'Simul in a random group order, possibly a second time in the same process; oracle = for chosen activations, the same block alone '
        'in a fresh process that receives nothing but the current values of its inputs; also: outputs do not change without a refreshed '
        'input and delivered data are never written to; non-trivial = an activation judged after an earlier one; distinct = by kinds and schedules')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'DM', 'AtmoPropagation', 'SH', 'DistributedSH', 'PolyChromSH', 'ModulatedPyramid', 'ModulatedDoubleRoof',
                        'PolyCromPyramid', 'ExtSourcePyramid', 'ZernikeSensor', 'CurvatureSensor', 'CiaoCiaoSensor', 'ShSlopec', 'PyrSlopec', 'DoubleRoofSlopec',
                        'CurWfsSlopec', 'ZwfsSlopec', 'CiaoCiaoSlopec', 'IdealDerivativeSensor', 'ModalAnalysis', 'PSF', 'PsfCoronagraph', 'coronagraphs',
                        'Lift', 'ExtendedSource', 'ElectricFieldCombinator', 'ElectricFieldReflection', 'PhaseFlattening', 'PowerLoss', 'SpotMonitor', 'EFInterpolator', 'Interp2D'],
                  stub=['scripted sources (dst_objs/dst_optic.py)'])
ASSUMPTIONS = ['the support of the pupil amplitude does not change during a run (the extrapolation at its edge is computed once, by design)',
               'activations whose current inputs are corrupted are not judged, only the later ones',
               'differential oracle: the arithmetic of one frame is the one of the code itself']
STEPS = [1000000, 500000, 333333]
PYR = dict(pup_diam=8, pup_dist=12, fov=2.0, output_resolution=24, wavelengthInNm=750)


# ------------------------------------------------------------------------------------------------ generation
def plan(rng, n, glitches, kinds):
    s = irregular(rng, n)
    if not any(s) and rng.chance(0.7):
        s[rng.randint(0, n - 1)] = 1
    res, seen = [], []
    for k, f in enumerate(s):
        if not f:
            res.append(None)
            continue
        q = rng.choice(seen) if seen and rng.chance(0.1) else k
        g = None
        if glitches and rng.chance(0.2):
            g = rng.choice([x for x in kinds if x not in ('dark', 'nan_amp') or len(seen) > 1])
        seen.append(q)
        res.append([q, g])
    return res


def source(c, rng, kind, **kw):
    """Index of a source of this kind: one that exists already, or a new one."""
    new = kw.pop('new', False)
    same = [] if new else [i for i, s in enumerate(c['sources']) if s['kind'] == kind and all(s.get(k) == v for k, v in kw.items())]
    if same and rng.chance(0.5):
        return rng.choice(same)
    n = c['npx']
    s = dict(kind=kind, seed=rng.randint(1, 10**6), shape=[n, n])
    gl = ['nan', 'nan', 'inf', 'huge', 'dark']
    if kind in ('ef', 'layer'):
        s.update(mask=rng.choice(['disk', 'disk', 'annulus', 'full']), amp=rng.choice([20.0, 100.0, 400.0]), scint=rng.choice([0.0, 0.0, 0.3]),
                 s0=rng.choice([1.0, 50.0]), s0_var=rng.chance(0.4), smooth=rng.chance(0.7))
        gl = ['nan', 'nan', 'inf', 'nan_amp', 'dark', 'nan_flux', 'zero_flux', 'huge']
    elif kind in ('pixels', 'light'):
        s.update(amp=rng.choice([10.0, 1000.0]), lo=rng.choice([0.0, 0.0, -1.0]), rebind=rng.chance(0.4))
    else:
        s.update(amp=rng.choice([1.0, 100.0]), lo=-1.0, rebind=rng.chance(0.4))
    s.update(kw)
    s['plan'] = plan(rng, c['n'], c['glitches'], gl)
    if kind not in ('ef', 'layer') and 'rows' not in s:
        for p in s['plan']:
            if p is not None and rng.chance(0.15):
                p[1] = 'dark'       # all zeros: a value like any other here
    c['sources'].append(s)
    return len(c['sources']) - 1


STABLE = ('prop', 'refl', 'flat')   # blocks whose output amplitude has always the same support


def a_field(c, rng, only=None, **kw):
    """A field to look at: a source, or the output of an earlier block."""
    outs = [[k, o] for k, b in enumerate(c['blocks']) for o in b.get('fields', []) if only is None or b['kind'] in only]
    if outs and not kw and rng.chance(0.4):
        return rng.choice(outs)
    return source(c, rng, 'ef', **{'shape': [c['npx'], c['npx']], **kw})


def misreg(rng, magn=False, none=0.4):
    if rng.chance(none):
        return {}
    r = dict(rotAnglePhInDeg=rng.choice([0, 10.0, 45.0]), xShiftPhInPixel=rng.choice([0, 0.5, -1.0]), yShiftPhInPixel=rng.choice([0, 0.7]))
    if magn:
        r['magnification'] = rng.choice([1.0, 1.1, 0.95])
    return r


KINDS = [('dm', 2), ('prop', 5), ('sh', 3), ('dsh', 2), ('psh', 1.5), ('pyr', 3), ('droof', 1.5), ('ppyr', 1), ('epyr', 2.5), ('zern', 1), ('curv', 1),
         ('ciao', 1), ('shslopec', 1.5), ('pyrslopec', 1.5), ('drslopec', 1), ('curslopec', 1), ('zslopec', 0.7), ('ciaoslopec', 0.7), ('ideal', 0.7), ('modal', 1.5), ('psf', 1.5),
         ('ccd', 1), ('winint', 0.5), ('op', 0.8), ('mvm', 0.5), ('lincomb', 0.5), ('slicer', 0.4), ('lift', 0.8), ('esrc', 0.8),
         ('coro', 2), ('comb', 1.2), ('refl', 0.5), ('flat', 0.7), ('loss', 0.3), ('spot', 0.5)]


def block(c, rng, kind):
    n = c['npx']
    b = dict(kind=kind, ins={}, par={}, outs=None)
    par, ins = b['par'], b['ins']
    if kind == 'dm':
        nm = rng.randint(2, 6)
        par.update(cls='DM', simul_params_ref='main', type_str='zernike', height=rng.choice([0, 500.0]), sign=rng.choice([-1, 1]))
        v = rng.choice(['plain', 'start', 'idx', 'm2c'])
        par['nmodes'] = nm
        if v == 'start':
            par['start_mode'] = rng.randint(1, nm - 1)
        elif v == 'idx':
            del par['nmodes']
            par['idx_modes'] = sorted(rng.sample(list(range(6)), rng.randint(1, 4)))
            nm = len(par['idx_modes'])
        elif v == 'm2c':
            par['m2c_object'] = f'm2c{nm}'
        ins['in_command'] = source(c, rng, 'value', shape=[nm])
        b['outs'] = ['out_layer']
    elif kind == 'prop':
        fresnel = rng.chance(0.2)
        ns = 1 if fresnel else rng.randint(1, 2)
        stars = []
        for q in range(ns):
            h = 90000.0 if fresnel else rng.choice([float('inf'), float('inf'), 90000.0])
            stars.append(dict(height=h, pos=[0.0, 0.0] if fresnel or rng.chance(0.4) else [rng.choice([5.0, 10.0]), rng.choice([0.0, 120.0])], magnitude=rng.choice([5, 8])))
        b['stars'] = stars
        par.update(cls='AtmoPropagation', simul_params_ref='main', source_dict_ref=True)
        if fresnel:
            par.update(doFresnel=True, wavelengthInNm=rng.choice([500.0, 1000.0]), padding_factor=rng.choice([1, 2]))
            if rng.chance(0.4):
                par['band_limit_factor'] = 0.9
        if rng.chance(0.2):
            par['upwards'] = True
        common = []
        for q in range(rng.randint(1, 2)):
            lay = dict(height=0.0, shape=[n, n])
            if not fresnel and rng.chance(0.4):
                lay.update(rot=rng.choice([0.0, 30.0]), shift=rng.choice([[0.0, 0.0], [1.0, -0.5]]), magn=rng.choice([1.0, 1.1, 0.9]))
            common.append(source(c, rng, 'layer', **lay))
        dms = [[k, 'out_layer'] for k, o in enumerate(c['blocks']) if o['kind'] == 'dm' and o['par']['height'] == 0]
        if dms and rng.chance(0.7):
            common.append(dms[0])
        atmo = []
        hs = sorted(rng.sample([1000.0, 4000.0, 9000.0], rng.randint(0, 2)))
        for h in hs:
            sz = n if fresnel else n + 16
            lay = dict(height=h, shape=[sz, sz], mask='full')
            if not fresnel and rng.chance(0.3):
                lay.update(magn=rng.choice([1.1, 0.9]))
            atmo.append(source(c, rng, 'layer', **lay))
        ins['common_layer_list'] = common
        if atmo:
            ins['atmo_layer_list'] = atmo
        b['outs'] = [f'out_star{q}_ef' for q in range(ns)]
        b['fields'] = list(b['outs'])
    elif kind in ('sh', 'dsh', 'psh'):
        nsub = rng.choice([4, 4, 5, 6]) if kind == 'dsh' else rng.choice([4, 4, 6])
        par.update(subap_wanted_fov=3.0, sensor_pxscale=rng.choice([0.75, 0.5]), subap_npx=4 if rng.chance(0.7) else 6, subap_on_diameter=nsub, wavelengthInNm=rng.choice([750, 600]))
        par['subap_wanted_fov'] = par['sensor_pxscale'] * par['subap_npx']
        par.update(misreg(rng, none=0.5))
        if rng.chance(0.3):
            par['squaremask'] = False
        if kind == 'dsh':
            par.update(cls='DistributedSH', n_slices=rng.randint(1, nsub))
        elif kind == 'psh':
            par.update(cls='PolyChromSH', wavelengthInNm=[600, 750], flux_factor=[0.4, 0.6])
            if rng.chance(0.5):
                par['xy_tilts_in_arcsec'] = [[0.1, 0.0], [-0.1, 0.05]]
        else:
            par['cls'] = 'SH'
        ins['in_ef'] = a_field(c, rng, STABLE)
        b['outs'] = ['out_i']
    elif kind in ('pyr', 'droof', 'ppyr', 'epyr', 'zern'):
        par.update(PYR, simul_params_ref='main')
        if rng.chance(0.3):
            par['pup_shifts'] = [0.3, -0.6]
        if kind != 'zern':
            par.update(misreg(rng, magn=(kind == 'pyr')))
        if kind == 'pyr':
            par.update(cls='ModulatedPyramid', mod_amp=rng.choice([2.0, 3.0]), mod_step=20, fft_res=rng.choice([3.0, 4.0]))
            v = rng.choice(['circular', 'circular', 'vertical', 'horizontal', 'none', 'force'])
            if v == 'none':
                par.update(mod_amp=0.0, mod_step=1)
            elif v == 'force':
                par['force_extrapolation'] = True
            else:
                par['mod_type'] = v
            if rng.chance(0.3):
                par['output_resolution'] = rng.choice([26, 30])
            if rng.chance(0.2):
                par['fp_obs'] = 0.5
        elif kind == 'droof':
            par.update(cls='ModulatedDoubleRoof', mod_amp=2.0, mod_step=14)
        elif kind == 'ppyr':
            par.update(cls='PolyCromPyramid', mod_amp=2.0, mod_step=14, wavelengthInNm=[700, 750], flux_factor=[0.4, 0.6])
            if rng.chance(0.5):
                par['xy_tilts_in_arcsec'] = [[0.1, 0.0], [-0.1, 0.05]]
        elif kind == 'epyr':
            par.update(cls='ExtSourcePyramid', max_batch_size=rng.choice([2, 3, 8]), cuda_stream_enable=rng.chance(0.5))
            m = rng.randint(2, 6)
            rows = []
            for q in range(3):
                rows.append([[round(rng.uniform(-2, 2), 3), round(rng.uniform(-2, 2), 3), round(rng.uniform(-1, 1), 3), rng.choice([1.0, 0.5, 1e-5, 0.2])] for _ in range(m)])
            ins['ext_source_coeff'] = source(c, rng, 'value', shape=[m, 4], rows=rows, new=True)
        else:
            par.pop('pup_dist')
            par.pop('pup_shifts', None)
            par.update(cls='ZernikeSensor', pup_diam=12, output_resolution=16, fov=1.5)
        ins['in_ef'] = a_field(c, rng, () if kind == 'epyr' else STABLE)
        b['outs'] = ['out_i'] if kind == 'ppyr' else ['out_i', 'out_psf_tot', 'out_psf_bfm', 'out_transmission', 'out_flux_frac_inside_detector']
    elif kind == 'curv':
        par.update(cls='CurvatureSensor', wavelengthInNm=rng.choice([500.0, 750.0]), wanted_fov=2.4, pxscale=0.1, number_px=n, defocus_rms_nm=rng.choice([500.0, 1000.0]))
        ins['in_ef'] = a_field(c, rng, STABLE)
        b['outs'] = ['out_i1', 'out_i2']
    elif kind == 'ciao':
        par.update(cls='CiaoCiaoSensor', wavelengthInNm=750.0, number_px=rng.choice([n, n // 2]), diffRotAngleInDeg=rng.choice([180.0, 90.0]), tiltInArcsec=[0.2, -0.1],
                   normalize_flux=rng.chance(0.5))
        par.update(misreg(rng, magn=True))
        if rng.chance(0.3):
            par.update(xShiftDiffPhInPixel=0.5, magnificationDiff=1.05)
        ins['in_ef'] = a_field(c, rng, STABLE)
        b['outs'] = ['out_i']
    elif kind == 'shslopec':
        par.update(cls='ShSlopec', subapdata_object='subaps')
        v = rng.choice(['plain', 'thr', 'weight', 'rad', 'window', 'sn'])
        par.update(dict(plain={}, thr=dict(thr_value=rng.choice([1.0, 20.0])), weight=dict(exp_weight=1.2), rad=dict(weightedPixRad=2.0), window=dict(weightedPixRad=2.0, windowing=True),
                        sn=dict(sn_object='sn24'))[v])
        if rng.chance(0.3):
            par['interleave'] = v != 'sn'
        ins['in_pixels'] = source(c, rng, 'pixels', shape=[16, 16])
    elif kind in ('pyrslopec', 'drslopec'):
        par.update(cls='PyrSlopec' if kind == 'pyrslopec' else 'DoubleRoofSlopec', pupdata_object='pups')
        v = rng.choice(['plain', 'thr', 'int', 'norm'])
        par.update(dict(plain={}, thr=dict(thr_value=2.0), int=dict(slopes_from_intensity=True), norm=dict(norm_factor=30.0))[v])
        ins['in_pixels'] = source(c, rng, 'pixels', shape=[24, 24])
    elif kind == 'curslopec':
        par.update(cls='CurWfsSlopec', diameter=12, ccd_size=[16, 16])
        ins['in_pixels1'] = source(c, rng, 'pixels', shape=[16, 16])
        ins['in_pixels2'] = source(c, rng, 'pixels', shape=[16, 16])
    elif kind == 'zslopec':
        par.update(cls='ZwfsSlopec', pup_diam=12, ccd_size=16, thr_value=rng.choice([0.0, 1.0]))
        ins['in_pixels'] = source(c, rng, 'pixels', shape=[16, 16])
    elif kind == 'ciaoslopec':
        par.update(cls='CiaoCiaoSlopec', wavelength_in_nm=750.0, window_x_in_pix=rng.choice([4.0, 3.0]), window_y_in_pix=2.0, window_sigma_in_pix=2.0, pupil_mask_ref='pup16',
                   diffRotAngleInDeg=rng.choice([0.0, 90.0]))
        ins['in_pixels'] = source(c, rng, 'pixels', shape=[16, 16])
    elif kind == 'ideal':
        par.update(cls='IdealDerivativeSensor', simul_params_ref='main', subapdata_object='subaps', fov=3.0)
        ins['in_ef'] = a_field(c, rng)
        b['outs'] = ['out_slopes']
    elif kind == 'modal':
        nm = rng.randint(2, 5)
        par.update(cls='ModalAnalysis', type_str='zernike', nmodes=nm, npixels=n, dorms=rng.chance(0.3), wavelengthInNm=rng.choice([0.0, 0.0, 750.0]))
        if rng.chance(0.6):
            ins['in_ef'] = a_field(c, rng)
            b['outs'] = ['out_modes', 'rms']
        else:
            ins['in_ef_list'] = [a_field(c, rng) for _ in range(rng.randint(1, 3))]
            par['n_inputs'] = len(ins['in_ef_list'])
            b['outs'] = ['out_modes_list', 'rms']
    elif kind == 'psf':
        par.update(cls=rng.choice(['PSF', 'PsfCoronagraph']), simul_params_ref='main', wavelengthInNm=rng.choice([750, 1650]), nd=rng.choice([1, 2, 3]), start_time=0.0)
        if rng.chance(0.3):
            par.update(compute_profile_metrics=True, compute_metrics_in_trigger=True)
        ins['in_ef'] = a_field(c, rng)
        b['outs'] = ['out_psf'] + (['out_coronagraph_psf'] if par['cls'] != 'PSF' else []) + (['out_psf_profile', 'out_encircled_energy'] if 'compute_profile_metrics' in par else [])
        if type(ins['in_ef']) is int and not c['sources'][ins['in_ef']]['scint']:
            b['outs'].append('out_sr')
    elif kind == 'coro':
        v = rng.choice(['Lyot', 'FourQuadrant', 'Vortex', 'Filter', 'knife'])
        par.update(simul_params_ref='main', wavelengthInNm=rng.choice([750, 1650]))
        if v in ('Lyot', 'knife'):
            par.update(cls='LyotCoronagraph', iwaInLambdaOverD=2.0, knife_edge=v == 'knife')
        elif v == 'FourQuadrant':
            par.update(cls='FourQuadrantCoronagraph')
        elif v == 'Vortex':
            par.update(cls='VortexCoronagraph', vortexCharge=2.0)
            if rng.chance(0.3):
                par.update(addInVortex=True, inVortexRadInLambdaOverD=1.0, inVortexCharge=1, inVortexShift=0.5)
        else:
            par.update(cls='FocalPlaneFilter', fov=1.0, fp_obs=rng.choice([0.0, 0.3]))
        if v not in ('Filter',) and rng.chance(0.5):
            par.update(innerStopAsRatioOfPupil=0.2, outerStopAsRatioOfPupil=0.9)
        ins['in_ef'] = a_field(c, rng)
        b['outs'] = ['out_ef']
        b['fields'] = ['out_ef']
    elif kind == 'comb':
        par['cls'] = 'ElectricFieldCombinator'
        sq = {} if rng.chance(0.6) else dict(shape=[n, n + 6])
        if rng.chance(0.5):
            ins['in_ef1'], ins['in_ef2'] = a_field(c, rng, **sq), a_field(c, rng, **sq)
        else:
            ins['in_ef_list'] = [a_field(c, rng, **sq) for _ in range(rng.randint(1, 3))]
        b['outs'] = ['out_ef']
        b['fields'] = [] if sq else ['out_ef']
    elif kind in ('refl', 'flat'):
        par['cls'] = 'ElectricFieldReflection' if kind == 'refl' else 'PhaseFlattening'
        sq = {} if rng.chance(0.7) else dict(shape=[n, n + 6])
        ins['in_ef'] = a_field(c, rng, STABLE, **sq)
        b['outs'] = ['out_ef']
        b['fields'] = [] if sq else ['out_ef']
    elif kind == 'loss':
        par.update(cls='PowerLoss', simul_params_ref='main', wavelengthInNm=1000.0, nd=2, prop_distance=1e6, receiver_diam=0.5)
        ins['se_sr'] = source(c, rng, 'value', shape=[1], lo=0.1)
        b['outs'] = ['out_power_loss']
    elif kind == 'spot':
        par.update(cls='SpotMonitor', subapdata_object='subaps')
        ins['in_pixels'] = source(c, rng, 'pixels', shape=[16, 16])
        b['outs'] = ['out_sum_pixels', 'out_params', 'out_model_pixels', 'out_residual_pixels']
    elif kind == 'ccd':
        par.update(cls='CCD', simul_params_ref='main', size=[16, 16] if rng.chance(0.7) else [8, 8], dt=c['step'] / 1e9, bandw=rng.choice([300, 20]), quantum_eff=rng.choice([1.0, 0.3]))
        if par['size'] == [8, 8]:
            par['binning'] = 2
        if rng.chance(0.3):
            par.update(background_noise=True, background_level=2.5)
        ins['in_i'] = source(c, rng, 'light', shape=par['size'])
        b['outs'] = ['out_pixels', 'integrated_i']
    elif kind == 'winint':
        m = rng.randint(1, 4)
        par.update(cls='WindowedIntegration', simul_params_ref='main', n_elem=m, dt=c['step'] / 1e9)
        ins['input'] = source(c, rng, 'value', shape=[m])
        b['outs'] = ['output']
    elif kind == 'op':
        par['cls'] = 'BaseOperation'
        m = rng.randint(1, 4)
        v = rng.choice(['constant_mul', 'constant_div', 'constant_sum', 'constant_sub', 'constant_max', 'constant_min', 'mul', 'div', 'sum', 'sub', 'concat', 'sum'])
        ins['in_value1'] = source(c, rng, 'value', shape=[m])
        if v.startswith('constant'):
            par[v] = rng.choice([2.0, -0.5])
        else:
            m2 = m
            par[v] = True
            if v == 'concat':
                m2 = rng.randint(1, 3)
            elif m > 1 and rng.chance(0.6):
                m2 = rng.randint(1, m - 1)
                if rng.chance(0.5):
                    par['value2_is_shorter'] = True
                else:
                    par['value2_remap'] = rng.sample(list(range(m)), m2)
            ins['in_value2'] = source(c, rng, 'value', shape=[m2])
        b['outs'] = ['out_value']
    elif kind == 'mvm':
        par.update(cls='MVM', recmat_object='rec24')
        ins['in_vector'] = source(c, rng, 'value', shape=[24])
        b['outs'] = ['out_vector']
    elif kind == 'lincomb':
        par.update(cls='LinearCombination', simul_params_ref='main', no_focus=rng.chance(0.5), no_lift=rng.chance(0.5))
        v = [source(c, rng, 'value', shape=[6])]
        if not par['no_focus']:
            v.append(source(c, rng, 'value', shape=[1]))
        if not par['no_lift']:
            v.append(source(c, rng, 'value', shape=[rng.randint(1, 3)]))
        v.append(source(c, rng, 'value', shape=[5]))
        if rng.chance(0.5):
            par.update(plate_scale_idx=rng.choice([2, 3]))
        else:
            v[-1] = source(c, rng, 'value', shape=[2])
        ins['in_vectors_list'] = v
        b['outs'] = ['out_vector']
    elif kind == 'lift':
        nz, npist = rng.randint(3, 5), rng.choice([0, 0, 1])
        par.update(cls='Lift', nPistons=npist, nZern=nz, wavelengthInNm=750.0, pix_scale=0.0483, npix_side=16, cropped_size=rng.choice([4, 5]), fft_res=2, n_iter=rng.choice([20, 3]),
                   ref_zern_amp=[0.0, 0.0, rng.choice([0.5, 1.0])], fix=rng.chance(0.2))
        b['lift'] = [npist, nz]
        i = ins['in_pixels'] = source(c, rng, 'pixels', shape=[20, 20], spot=rng.choice([0.5, 1.5]), amp=1000.0, new=True)
        for p in c['sources'][i]['plan']:       # a frame without a spot has no centre: the block raises
            if p is not None and p[1] in ('dark', 'nan', 'inf'):
                p[1] = None
        b['outs'] = ['out_pistons', 'out_zern']
    elif kind == 'esrc':
        q = rng.choice([9, 10, 12])
        sz = q if rng.chance(0.5) else q + 4
        par.update(cls='ExtendedSource', simul_params_ref='main', source_type='FROM_PSF', wavelengthInNm=750, sampling_lambda_over_d=rng.choice([1.0, 0.7]), pixel_scale_psf=0.08,
                   crop_psf=sz != q or rng.chance(0.3), initial_psf=[[1.0] * q] * q, sampling_type=rng.choice(['CARTESIAN', 'POLAR']), flux_threshold=rng.choice([0.0, 0.5]))
        if rng.chance(0.3):
            par.update(layer_height=[9e4, 1e5], intensity_profile=[0.4, 0.6], focus_height=9.5e4, tt_profile=[[0.0, 0.0], [0.1, -0.1]])
        i = ins['psf'] = source(c, rng, 'value', shape=[sz, sz], spot=1.0, amp=1.0, lo=0.0, new=True)
        for p in c['sources'][i]['plan']:       # an empty PSF keeps the previous one, by design
            if p is not None and p[1] == 'dark':
                p[1] = None
        b['outs'] = ['coeff']
    elif kind == 'slicer':
        par['cls'] = 'BaseSlicer'
        ins['in_value'] = source(c, rng, 'value', shape=[5])
        par.update(rng.choice([dict(indices=[0, 3]), dict(indices=[4, 1]), dict(slice_args=[1, 4]), dict(slice_args=[0, 5, 2])]))
        b['outs'] = ['out_value']
    if kind.endswith('slopec'):
        b['outs'] = ['out_slopes', 'out_flux_per_subaperture', 'out_total_counts', 'out_subap_counts']
    if rng.chance(c['mixed']):
        b['precision'] = 1 - c['precision']
    return b


def generate(rng, tier, i):
    c = dict(npx=rng.choice([16, 20, 24]), step=rng.choice(STEPS), n=rng.randint(2, 9), precision=rng.choice([0, 0, 1]), order=rng.next(),
             glitches=rng.chance(0.5), twice=rng.chance(0.25), mixed=0.3 if rng.chance(0.15) else 0.0, sources=[], blocks=[], matseed=rng.randint(1, 10**6))
    same = rng.chance(0.35)
    kind = None
    for k in range(rng.weighted([(1, 2), (2, 4), (3, 2)])):
        if kind is None or not same:
            kind = rng.weighted(KINDS)
        c['blocks'].append(block(c, rng, kind))
    c['probe'] = rng.next()
    return c


# ------------------------------------------------------------------------------------------------ parameter files
def name(c, ref):
    if isinstance(ref, int):
        s = c['sources'][ref]
        return f's{ref}.' + {'ef': 'out_ef', 'layer': 'out_ef', 'light': 'out_i', 'pixels': 'out_pixels', 'value': 'out'}[s['kind']]
    return f'b{ref[0]}.{ref[1]}'


def refs(b):
    for v in b['ins'].values():
        if isinstance(v, list) and not (len(v) == 2 and isinstance(v[1], str)):
            yield from v
        else:
            yield v


def closure(c, k):
    """Blocks and sources that output of block k depends on."""
    bl, so, todo = [], [], [k]
    while todo:
        k = todo.pop()
        if k in bl:
            continue
        bl.append(k)
        for r in refs(c['blocks'][k]):
            if isinstance(r, int):
                if r not in so:
                    so.append(r)
            else:
                todo.append(r[0])
    return sorted(bl), sorted(so)


def params(c, blocks=None, plans=None, n=None, alone=False):
    p = {'main': bench.main(n or c['n'], c['step'], pixel_pupil=c['npx'], pixel_pitch=0.1)}
    p['main']['root_dir'] = './calib'
    blocks = list(range(len(c['blocks']))) if blocks is None else blocks
    used = sorted({r for k in blocks for r in refs(c['blocks'][k]) if isinstance(r, int)})
    for i in used:
        s = dict(c['sources'][i])
        q = {'class': 'DstOptic'}
        q.update(s)
        q['plan'] = s['plan'] if plans is None else plans[i]
        p[f's{i}'] = q
    for k in blocks:
        b = c['blocks'][k]
        q = dict(b['par'])
        q = {'class': q.pop('cls'), **q}
        if alone and b['kind'] == 'dsh':
            q.pop('n_slices')
            q.update({'class': 'SH', 'fov_ovs_coeff': 0})
        if b['kind'] == 'prop':
            names = []
            for j, st in enumerate(b['stars']):
                z = {'class': 'Source', 'polar_coordinates': st['pos'], 'magnitude': st['magnitude'], 'wavelengthInNm': 750}
                if st['height'] != float('inf') and st['height'] is not None:
                    z['height'] = st['height']
                p[f'b{k}star{j}'] = z
                names.append(f'b{k}star{j}')
            q['source_dict_ref'] = names
        if q.get('pupil_mask_ref') == 'pup16':
            p['par16'] = {'class': 'SimulParams', 'pixel_pupil': 16, 'pixel_pitch': 0.1, 'root_dir': './calib', 'add_modules': ['dst_objs'], 'total_time': (n or c['n']) * c['step'] / 1e9, 'time_step': c['step'] / 1e9}
            p['pup16'] = {'class': 'Pupilstop', 'simul_params_ref': 'par16'}
        if 'lift' in b:
            p['parlift'] = {'class': 'SimulParams', 'pixel_pupil': 32, 'pixel_pitch': 0.05, 'root_dir': './calib', 'add_modules': ['dst_objs'], 'total_time': (n or c['n']) * c['step'] / 1e9, 'time_step': c['step'] / 1e9}
            q.update(simul_params_ref='parlift', ifunc_object='lift%d%d' % tuple(b['lift']))
        if 'precision' in b:
            q['precision'] = b['precision']
        q['inputs'] = {}
        for f, v in b['ins'].items():
            q['inputs'][f] = [nm(c, k, r) for r in v] if isinstance(v, list) and not (len(v) == 2 and isinstance(v[1], str)) else nm(c, k, v)
        p[f'b{k}'] = q
    return p


def outname(k, b, o):
    return o.replace('out_star', f'out_b{k}star') if b['kind'] == 'prop' else o


def nm(c, k, r):
    if isinstance(r, int):
        return name(c, r)
    return f'b{r[0]}.' + outname(r[0], c['blocks'][r[0]], r[1])


def calib(c):
    from dst import chains
    from specula.data_objects.slopes import Slopes
    from specula.data_objects.m2c import M2C
    base = dict(nmodes=3, matseed=c['matseed'], n_sub=4)
    for s in ('sh', 'pyr'):
        chains.calib(dict(base, sensor=s))
    rs = np.random.RandomState(c['matseed'])
    with world.quiet():
        os.makedirs('calib/slopenulls', exist_ok=True)
        os.makedirs('calib/m2c', exist_ok=True)
        Slopes(slopes=rs.uniform(-0.2, 0.2, 24)).save('calib/slopenulls/sn24.fits', overwrite=True)
        from specula.data_objects.recmat import Recmat
        os.makedirs('calib/rec', exist_ok=True)
        Recmat(rs.uniform(-1, 1, (3, 24))).save('calib/rec/rec24.fits', overwrite=True)
        from specula.data_objects.ifunc import IFunc
        z = IFunc(type_str='zernike', nmodes=5, npixels=32)
        m, v = np.asarray(z.mask_inf_func), np.asarray(z.influence_function)
        os.makedirs('calib/ifunc', exist_ok=True)
        for npist, nz in sorted({tuple(b['lift']) for b in c['blocks'] if 'lift' in b}):
            IFunc(np.vstack([np.tile(1.0 * (v[0] > 0), (npist, 1)), v[:nz]]), mask=m).save(f'calib/ifunc/lift{npist}{nz}.fits', overwrite=True)
        for nm_ in range(2, 7):
            M2C(rs.uniform(-1, 1, (nm_, nm_))).save(f'calib/m2c/m2c{nm_}.fits', overwrite=True)


# ------------------------------------------------------------------------------------------------ runs (each in a fork)
def look(c, blocks, objs):
    res = {}
    for k in blocks:
        b, o = c['blocks'][k], objs[f'b{k}']
        for f in b['outs']:
            d = o.outputs[outname(k, b, f)]
            v = []
            for it in (d if isinstance(d, list) else [d]):
                x = it.get_value()
                s0 = getattr(it, 'S0', None)
                v.append((int(it.generation_time), None if x is None else np.array(x, copy=True), None if s0 is None or b['kind'] == 'dm' else float(s0)))
            res[k, f] = v
    return res


def simulate(c, blocks, plans, n, precision, order, times=1, alone=False):
    """In the child: list (one entry per run) of dict(t, out: per step {(block, output): [(gen time, value, S0)]}, damage)."""
    all_runs = []
    for rep in range(times):
        world.reset(precision=precision)
        res = dict(out=[], damage=[])

        def after(loop, t, res=res):
            objs = {e.name: e for i in sorted(loop.trigger_lists) for e in loop.trigger_lists[i]}
            res['out'].append(look(c, blocks, objs))
            for nme, e in objs.items():
                if type(e).__name__ == 'DstOptic':
                    d = e.damage()
                    if d:
                        res['damage'].append((len(res['out']) - 1, nme, d))
        try:
            bench.run(params(c, blocks, plans, n, alone), only=set(), order=Rng(order) if order is not None else None, after=after, path=f'p{os.getpid()}.yml')
        except Exception as e:
            from dst.core import sut_frame
            where = sut_frame(e)
            if where is None:
                raise
            res['error'] = (type(e).__name__, str(e)[:300], where)
        all_runs.append(res)
    return all_runs


def current(c, i, step):
    """Plan entry whose data source i holds at this step (None: never delivered)."""
    last = None
    for p in c['sources'][i]['plan'][:step + 1]:
        if p is not None:
            last = p
    return last


UNJUDGED = {'nan', 'inf', 'nan_amp', 'dark', 'nan_flux'}


def same(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False, f'shape {a.shape} instead of {b.shape}'
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return False, f'{int(np.sum(~fa))} non-finite elements instead of {int(np.sum(~fb))}'
    if not fb.any():
        return True, ''
    d = np.abs(np.where(fa, a, 0) - np.where(fb, b, 0)).max()
    m = np.abs(np.where(fb, b, 0)).max()
    return bool(d <= tol * max(m, 1e-30)), f'largest difference {d:.3g} (largest value {m:.3g})'


def compare(k, f, kind, got, want, tol):
    if len(got) != len(want):
        return f'{len(got)} items instead of {len(want)}'
    for (tg, vg, sg), (tw, vw, sw) in zip(got, want):
        if (vg is None) != (vw is None):
            return 'value missing' if vg is None else 'unexpected value'
        if vg is None:
            continue
        if vg.ndim == 3 and vg.shape[0] == 2 and f != 'out_psf':     # amplitude and phase
            parts = [(vg[0], vw[0]), (vg[1], vw[1])]
            if kind == 'coro' or (kind == 'prop'):
                # a phase is defined where there is light and up to a turn (coronagraphs, Fresnel)
                z = [x[0] * np.exp(2j * np.pi * x[1] / 750.0) for x in (vg, vw)] if kind == 'prop' else None
                if z is None:
                    parts = [(vg[0], vw[0])]
        else:
            parts = [(vg, vw)]
        for x, y in parts:
            ok, why = same(x, y, tol)
            if not ok:
                return why
        if sg is not None:
            ok, why = same([sg], [sw], tol)
            if not ok:
                return 'flux: ' + why
    return None


# Known findings: pinned by test_ext_source_pyr.py (a second reader of the same coefficients must see n_points + 4)
# and by test_atmo_propagation.py::test_interpolation_artifacts_correction (the phase of the layer must have changed)
FIXED = [dict(npx=16, step=1000000, n=1, precision=0, order=1, glitches=False, twice=False, mixed=0.0, matseed=3, probe=1, known=True,
              sources=[dict(kind='value', seed=1, shape=[2, 4], amp=1.0, lo=-1.0, rebind=False, plan=[[0, None]],
                            rows=[[[0.5, 0.0, 0.0, 1.0], [1.0, 0.5, 0.1, 1e-5]]]),
                       dict(kind='ef', seed=2, shape=[16, 16], mask='disk', amp=20.0, scint=0.0, s0=1.0, s0_var=False, smooth=True, plan=[[0, None]])],
              blocks=[dict(kind='epyr', ins=dict(ext_source_coeff=0, in_ef=1), outs=['out_i'],
                           par=dict(PYR, cls='ExtSourcePyramid', simul_params_ref='main', max_batch_size=3, cuda_stream_enable=False))]),
         dict(npx=16, step=1000000, n=1, precision=0, order=1, glitches=False, twice=False, mixed=0.0, matseed=3, probe=1, known=True,
              sources=[dict(kind='layer', seed=2, shape=[16, 16], mask='annulus', amp=20.0, scint=0.0, s0=1.0, s0_var=False, smooth=True, height=0.0, magn=1.1, plan=[[0, None]])],
              blocks=[dict(kind='prop', ins=dict(common_layer_list=[0]), outs=['out_star0_ef'], fields=['out_star0_ef'], stars=[dict(height=90000.0, pos=[0.0, 0.0], magnitude=5)],
                           par=dict(cls='AtmoPropagation', simul_params_ref='main', source_dict_ref=True))])]
KNOWN = {'ext-source': 'ExtSourcePyramid with cuda_stream_enable=False changed the coefficients it reads (4 rows appended, flux of the weak points set to zero)',
         'layer-holes': 'AtmoPropagation replaced the phase of a magnified layer it reads where its amplitude is zero'}


def execute(case, d):
    c = case
    world.reset(precision=c['precision'])
    out = Outcome()
    calib(c)
    n = c['n']
    blocks = list(range(len(c['blocks'])))
    ok, runs = forked.call(simulate, c, blocks, None, n, c['precision'], c['order'], 2 if c['twice'] else 1)
    if not ok:
        raise forked.ChildError(str(runs))
    st = out.stats
    st['runs'] += len(runs)
    rng = Rng(c['probe'])
    fresh = {k: [any(p_fresh(c, k, s) for _ in (0,)) for s in range(n)] for k in blocks}
    judged = 0
    oracle = {}
    for s in c['sources']:
        for p in s['plan']:
            if p is not None and p[1]:
                st['fault.frame_' + p[1]] += 1
        st['fault.stall_steps'] += sum(p is None for p in s['plan'])
    for rep, run in enumerate(runs):
        label = 'second run in the same process' if rep else 'run'
        err = run.get('error')
        if err:
            # the same exception from the last frame alone: an invalid configuration or an unusable frame, not history
            s = len(run['out'])
            bad = False
            for k in blocks:
                o = ask(c, oracle, k, min(s, n - 1))
                if o is None or o.get('error'):
                    bad = True
            glitch = any(p is not None and p[1] for q in c['sources'] for p in q['plan'][:s + 1])
            if not bad and not glitch:
                out.fail(f'exception:{err[0]}', f'{label} stopped at step {s}: {err[0]}: {err[1]} in {err[2]}, while each block alone computes the same frame')
            elif bad:
                st['probe.invalid_configurations'] += 1
            break
        for s, who, what in run['damage']:
            i = int(who[1:])
            if what in KNOWN:
                st['probe.known_' + what] += 1
                if c.get('known') and rep == 0 and s == 0:
                    out.fail(what, KNOWN[what])
                continue
            users = [c['blocks'][k]['par']['cls'] for k in blocks if i in refs(c['blocks'][k])]
            out.fail('input-modified', f'{label}: the data delivered by {who} ({c["sources"][i]["kind"]}, read by {", ".join(users)}) had been changed by somebody else after step {s}: {what}')
            return finish(out, c, judged)
        for k in blocks:
            b = c['blocks'][k]
            for f in b['outs']:
                for s in range(1, n):
                    if not fresh[k][s]:
                        for x, y in zip(run['out'][s][k, f], run['out'][s - 1][k, f]):
                            if x[0] != y[0] or not (x[1] is None and y[1] is None) and not np.array_equal(np.asarray(x[1], dtype=complex), np.asarray(y[1], dtype=complex), equal_nan=True):
                                out.fail('changed', f'{label}: {b["par"]["cls"]} b{k}.{f} changed at step {s} although no input of it was refreshed')
                                return finish(out, c, judged)
            steps = [s for s in range(n) if fresh[k][s]]
            rng.shuffle(steps)
            for s in steps[:4 if rep == 0 else 2]:
                bl, so = closure(c, k)
                cur = {i: current(c, i, s) for i in so}
                g = {p[1] for i, p in cur.items() if p is not None and p[1] and not (p[1] == 'dark' and c['sources'][i]['kind'] not in ('ef', 'layer'))}
                prec = max(c['precision'], *(c['blocks'][q].get('precision', 0) for q in bl))
                if g & UNJUDGED or ('huge' in g and prec):
                    st['probe.corrupted_inputs_skipped'] += 1
                    continue
                o = ask(c, oracle, k, s)
                if o is None or o.get('error'):
                    st['probe.invalid_configurations'] += 1
                    continue
                prior = any(fresh[k][:s])
                dirty = any(p is not None and p[1] in UNJUDGED for i in so for p in c['sources'][i]['plan'][:s])
                tol = (2e-3 if prec else 1e-8) * (100 if 'huge' in g else 1)
                for f in b['outs']:
                    got, want = run['out'][s][k, f], o['out'][0][k, f]
                    t = s * c['step']
                    if [x[0] == t for x in got] != [x[0] == 0 for x in want] and any(x[0] == 0 for x in want):
                        out.fail('refresh', f'{label}: {b["par"]["cls"]} b{k}.{f} at step {s}: refreshed {[x[0] == t for x in got]}, expected {[x[0] == 0 for x in want]}')
                        return finish(out, c, judged)
                    why = compare(k, f, b['kind'], got, want, tol)
                    if why:
                        out.fail(f'value:{b["par"]["cls"]}', f'{label}: {b["par"]["cls"]} b{k}.{f} at step {s} of {n} is not what the block alone computes from the same inputs: {why}'
                                 + (' (earlier inputs were corrupted)' if dirty else ''))
                        return finish(out, c, judged)
                judged += 1
                st['probe.activations_judged'] += 1
                st['probe.judged_' + b['par']['cls']] += 1
                if prior:
                    st['probe.judged_with_history'] += 1
                if dirty:
                    st['probe.judged_after_corruption'] += 1
                if rep:
                    st['probe.judged_second_run'] += 1
    return finish(out, c, judged)


def p_fresh(c, k, s):
    for r in refs(c['blocks'][k]):
        if isinstance(r, int):
            if c['sources'][r]['plan'][s] is not None:
                return True
        elif p_fresh(c, r[0], s):
            return True
    return False


def ask(c, cache, k, s):
    """The block (with those it reads from) alone in a fresh process, receiving the frames that are current at step s."""
    if (k, s) not in cache:
        bl, so = closure(c, k)
        plans = {i: [current(c, i, s)] for i in so}
        ok, res = forked.call(simulate, c, bl, plans, 1, c['precision'], None, 1, True)
        if not ok:
            raise forked.ChildError(str(res))
        cache[k, s] = res[0]
    return cache[k, s]


def finish(out, c, judged):
    out.stats['steps'] += c['n']
    out.stats['probe.blocks'] += len(c['blocks'])
    out.nontrivial = out.stats['probe.judged_with_history'] > 0
    out.sim_time = c['n'] * c['step'] / 1e9
    out.key = digest([[(b['kind'], sorted(b['par'].items(), key=str)) for b in c['blocks']], [s['plan'] for s in c['sources']]])
    out.digest = digest([sorted(out.stats.items()), out.violations])
    return out


def drop(c, k):
    d = copy.deepcopy(c)
    if any(not isinstance(r, int) and r[0] == k for b in d['blocks'] for r in refs(b)):
        return None
    d['blocks'].pop(k)

    def fix(v):
        if isinstance(v, list) and len(v) == 2 and isinstance(v[1], str):
            return [v[0] - (v[0] > k), v[1]]
        return [fix(x) for x in v] if isinstance(v, list) else v
    for b in d['blocks']:
        b['ins'] = {f: fix(v) for f, v in b['ins'].items()}
    return d


def reductions(case):
    c = case
    if len(c['blocks']) > 1:
        for k in range(len(c['blocks'])):
            d = drop(c, k)
            if d:
                yield d
    if c['twice']:
        yield dict(copy.deepcopy(c), twice=False)
    for m in {1, 2, c['n'] // 2, c['n'] - 1}:
        if 0 < m < c['n']:
            d = copy.deepcopy(c)
            d['n'] = m
            for s in d['sources']:
                s['plan'] = s['plan'][:m]
            yield d
    for i, s in enumerate(c['sources']):
        for k, p in enumerate(s['plan']):
            if p is not None and p[1]:
                d = copy.deepcopy(c)
                d['sources'][i]['plan'][k] = [p[0], None]
                yield d
        for q in (dict(scint=0.0), dict(s0_var=False), dict(rebind=False), dict(smooth=True)):
            f = list(q)[0]
            if f in s and s[f] != q[f]:
                d = copy.deepcopy(c)
                d['sources'][i].update(q)
                yield d
        for k, p in enumerate(s['plan']):
            if p is not None:
                d = copy.deepcopy(c)
                d['sources'][i]['plan'][k] = None
                yield d
    for q, b in enumerate(c['blocks']):
        for f in list(b['par']):
            if f in ('rotAnglePhInDeg', 'xShiftPhInPixel', 'yShiftPhInPixel', 'magnification', 'pup_shifts', 'xy_tilts_in_arcsec', 'upwards', 'squaremask', 'dorms', 'fp_obs', 'sign'):
                d = copy.deepcopy(c)
                d['blocks'][q]['par'].pop(f)
                yield d
