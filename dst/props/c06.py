"""C06: control filters apply gains and the declared delay for every history of arrivals and runtime controls."""
import copy
import math
import numpy as np
from dst.core import Outcome, sut_exception
from dst.prng import Rng
from dst import bench, world
from dst.run import digest

PROPERTY = 'C06'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=1600, budget=200), thorough=dict(cases=60000, budget=780))
RULE = ('one case = one to three control filters (integrator, IIR, state-space, low-pass, and their runtime-adjustable kinds) fed by '
        'scripted blocks whose refresh schedules, and the arrival of gains, gain modulations and resets, are chosen by the seed; run '
        'by the real Simul in a random group order; oracle = the difference equation and the delay line recomputed per activation '
        'in double precision, compared after every step; non-trivial = at least three activations; distinct = by filter kinds, '
        'delays and schedules')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'BaseFilter', 'Integrator', 'IirFilter', 'LowPassFilter', 'SsrFilter',
                        'DynamicIntegrator', 'DynamicIirFilter', 'IirFilterData', 'SsrFilterData'],
                  stub=['scripted command and control sources (dst_objs/dst_script.py)'])
ASSUMPTIONS = ['the coefficients of the low-pass filter are read from the filter (their design is outside this property)']
STEPS = [1000000, 500000, 333333]


def sched(rng, n, p_choices=(1.0, 1.0, 0.5, 0.2)):
    p = rng.choice(p_choices)
    m = rng.choice([1, 1, 2, 3, 5])
    kind = rng.choice(['bern', 'period', 'burst'])
    if kind == 'period':
        ph = rng.randint(0, m - 1)
        return [int(k % m == ph) for k in range(n)]
    if kind == 'burst':
        a = rng.randint(0, n - 1)
        return [int(k >= a or k % 7 == 0) for k in range(n)]
    return [int(rng.chance(p)) for _ in range(n)]


def rare(rng, n, p):
    return [int(rng.chance(p)) for _ in range(n)]


def generate(rng, tier, i):
    n = rng.randint(3, 40)
    c = dict(step=rng.choice(STEPS), n=n, precision=rng.choice([0, 0, 1]), order=rng.next(), filters=[])
    for k in range(rng.weighted([(1, 3), (2, 2), (3, 1)])):
        kind = rng.choice(['Integrator', 'Integrator', 'DynamicIntegrator', 'DynamicIntegrator', 'IirFilter', 'DynamicIirFilter', 'SsrFilter', 'LowPassFilter'])
        f = dict(kind=kind, seed=rng.randint(1, 10**6), delay=rng.choice([0, 1, 2, 3, 0.5, 1.5, 2.25, 0.1, 4.75]), integration=rng.chance(0.85),
                 nm=rng.randint(1, 5), sched=sched(rng, n), rebind=rng.chance(0.3), one=rng.chance(0.1), gm=None, reset=None, gain=None)
        if f['nm'] == 1:
            f['one'] = False
        nm = f['nm']
        if kind in ('Integrator', 'DynamicIntegrator'):
            f['blocks'] = [nm] if rng.chance(0.5) or nm == 1 else [1, nm - 1]
            f['int_gain'] = [rng.choice([0.3, 0.5, 1.0, -0.2, 0.0]) for _ in f['blocks']]
            f['ff'] = rng.choice([None, [0.9] * len(f['blocks']), [0.5] * len(f['blocks'])])
        elif kind in ('IirFilter', 'DynamicIirFilter'):
            a, b = rng.randint(1, 3), rng.randint(2, 4)
            f['num'] = [[round(rng.uniform(-1, 1), 3) for _ in range(a - 1)] + [rng.choice([0.3, 1.0, -0.7])] for _ in range(nm)]
            f['den'] = [[round(rng.uniform(-0.9, 0.9) / b, 3) for _ in range(b - 1)] + [rng.choice([1.0, 1.0, 2.0])] for _ in range(nm)]
        elif kind == 'SsrFilter':
            f['ns'] = [rng.randint(1, 2) for _ in range(nm)]
            f['new_state'] = rng.chance(0.7)
        else:
            f['n_ord'] = rng.choice([1, 2])
            f['fc'] = [rng.choice([10.0, 100.0, 50.0]) for _ in range(nm)]
        if rng.chance(0.4):
            f['gm'] = dict(sched=rng.choice([sched(rng, n), rare(rng, n, 0.2)]), size=rng.choice([1, nm]), unset=rng.chance(0.3), seed=rng.randint(1, 10**6))
        if kind.startswith('Dynamic'):
            if rng.chance(0.6):
                f['reset'] = dict(sched=rare(rng, n, rng.choice([0.05, 0.2])))
            if rng.chance(0.7):
                vec = kind == 'DynamicIirFilter'
                f['gain'] = dict(sched=rare(rng, n, rng.choice([0.05, 0.3])), vec=vec,
                                 values=[[rng.choice([0.1, 0.7, 0.0, 1.2, -0.4] + ([float('nan')] if vec else []))
                                          for _ in range(rng.choice([nm, nm, max(1, nm - 1), nm + 1]) if vec else 1)]
                                         for _ in range(n)])
        c['filters'].append(f)
    return c


def ssr(f):
    rs = np.random.RandomState(f['seed'])
    A, B, C, D = [], [], [], []
    for s in f['ns']:
        A.append(np.round(rs.uniform(-0.45, 0.45, (s, s)), 3).tolist())
        B.append(np.round(rs.uniform(-1, 1, (s, 1)), 3).tolist())
        C.append(np.round(rs.uniform(-1, 1, (1, s)), 3).tolist())
        D.append([[float(np.round(rs.uniform(-1, 1), 3))]])
    return A, B, C, D


def blockdiag(M):
    r, c = sum(len(m) for m in M), sum(len(m[0]) for m in M)
    out = np.zeros((r, c))
    i = j = 0
    for m in M:
        m = np.array(m)
        out[i:i + m.shape[0], j:j + m.shape[1]] = m
        i, j = i + m.shape[0], j + m.shape[1]
    return out


def params(c):
    p = {'main': bench.main(c['n'], c['step'])}
    for k, f in enumerate(c['filters']):
        nm = f['nm']
        p[f'u{k}'] = {'class': 'DstScript', 'kind': 'value', 'shape': [1 if f['one'] else nm], 'seed': f['seed'], 'schedule': f['sched'], 'rebind': f['rebind']}
        q = {'class': f['kind'], 'simul_params_ref': 'main', 'delay': f['delay'], 'inputs': {'delta_comm': f'u{k}.out'}}
        if f['kind'] in ('Integrator', 'DynamicIntegrator'):
            q.update(int_gain=f['int_gain'], n_modes=f['blocks'], integration=f['integration'])
            if f['ff']:
                q['ff'] = f['ff']
        elif f['kind'] in ('IirFilter', 'DynamicIirFilter'):
            p[f'data{k}'] = {'class': 'IirFilterData', 'ordnum': [len(f['num'][0])] * nm, 'ordden': [len(f['den'][0])] * nm, 'num': f['num'], 'den': f['den']}
            q.update(iir_filter_data_ref=f'data{k}', integration=f['integration'])
        elif f['kind'] == 'SsrFilter':
            A, B, C, D = ssr(f)
            p[f'data{k}'] = {'class': 'SsrFilterData', 'A': A, 'B': B, 'C': C, 'D': D}
            q.update(ssr_filter_data_ref=f'data{k}', output_uses_new_state=f['new_state'])
        else:
            q.update(cutoff_freq=f['fc'], n_ord=f['n_ord'])
        if f['gm']:
            p[f'g{k}'] = {'class': 'DstScript', 'kind': 'unset' if f['gm']['unset'] else 'value', 'shape': [f['gm']['size']], 'seed': f['gm']['seed'],
                          'schedule': f['gm']['sched'], 'lo': 0.0, 'hi': 1.5}
            q['inputs']['gain_mod'] = f'g{k}.out'
        if f['reset']:
            p[f'r{k}'] = {'class': 'DstScript', 'kind': 'scalar', 'schedule': f['reset']['sched'], 'values': [[1.0]]}
            q['inputs']['reset'] = f'r{k}.out'
        if f['gain']:
            p[f'i{k}'] = {'class': 'DstScript', 'kind': 'unset' if f['gain']['vec'] else 'scalar', 'schedule': f['gain']['sched'], 'values': f['gain']['values'],
                          'rebind': True}
            q['inputs']['int_gain'] = f'i{k}.out'
        p[f'f{k}'] = q
    return p


class Model:
    def __init__(self, f, obj, f32):
        self.f, self.nm, self.f32 = f, f['nm'], f32
        nm = self.nm
        k = f['kind']
        if k in ('Integrator', 'DynamicIntegrator'):
            g = np.repeat(f['int_gain'], f['blocks']).astype(float)
            ff = np.repeat(f['ff'], f['blocks']).astype(float) if f['ff'] else np.ones(nm)
            self.gain, self.numn = g, np.tile([0.0, 1.0], (nm, 1))
            self.den = np.stack([-ff, np.ones(nm)], axis=1)
        elif k in ('IirFilter', 'DynamicIirFilter'):
            num = np.array(f['num'], dtype=float)
            self.gain = num[:, -1].copy()
            self.numn = num / self.gain[:, None]
            self.den = np.array(f['den'], dtype=float)
        elif k == 'LowPassFilter':
            num = np.array(obj.iir_filter_data.num, dtype=float)
            self.gain, self.numn = np.ones(nm), num
            self.den = np.array(obj.iir_filter_data.den, dtype=float)
        else:
            self.m = [blockdiag(x) for x in ssr(f)]
        self.fb = f.get('integration', True) or k in ('SsrFilter', 'LowPassFilter')
        self.reset()
        self.size = 1.0

    def reset(self):
        self.ins, self.outs = [], []
        if self.f['kind'] == 'SsrFilter':
            self.x = np.zeros(len(self.m[0]))
        self.hist = []          # outputs since the last reset, newest last

    def set_gain(self, v):
        v = np.asarray(v, dtype=float).ravel()
        if v.size == 1 and not self.f['gain']['vec']:
            v = np.full(self.nm, v[0])
        for m in range(min(self.nm, v.size)):
            if np.isfinite(v[m]):
                self.gain[m] = v[m]

    def step(self, u, gm):
        if self.f['kind'] == 'SsrFilter':
            A, B, C, D = self.m
            w = u * gm
            xn = A @ self.x + B @ w
            y = C @ (xn if self.f['new_state'] else self.x) + D @ w
            self.x = xn
        else:
            self.ins.append(u)
            ni, no = self.numn.shape[1], self.den.shape[1]
            y = np.zeros(self.nm)
            for a in range(ni):                  # last coefficient multiplies the newest input
                d = ni - 1 - a
                if d < len(self.ins):
                    y += self.numn[:, a] * self.gain * gm * self.ins[-1 - d]
            if self.fb:
                for a in range(no - 1):
                    d = no - 1 - a
                    if d <= len(self.outs):
                        y -= self.den[:, a] * self.outs[-d]
            y = y / self.den[:, -1]
            self.outs.append(y)
        self.hist.append(y)
        self.size = max(self.size, float(np.abs(y).max()))

    def past(self, d):
        return self.hist[-1 - d] if d < len(self.hist) else np.zeros(self.nm)

    def output(self):
        d = self.f['delay']
        lo, fr = int(math.floor(d)), d - math.floor(d)
        return (1 - fr) * self.past(lo) + (fr * self.past(lo + 1) if fr else 0.0)


def execute(case, d):
    out = Outcome()
    world.reset(1, case['precision'])
    try:
        rec = bench.run(params(case), order=Rng(case['order']))
    except Exception as e:
        sut_exception(out, e)
        return out
    out.stats['runs'] += 1
    from dst_objs.dst_script import frame
    n, step, f32 = case['n'], case['step'], case['precision'] == 1
    act = 0
    for k, f in enumerate(case['filters']):
        nm = f['nm']
        m = Model(f, rec.objs[f'f{k}'], f32)
        gm = np.ones(nm)
        for j in range(n):
            t = j * step
            g, v = rec.at[f'f{k}'][j]['out_comm']
            g0, v0 = rec.at[f'f{k}'][j]['out_comm_no_delay']
            if f['gm'] and f['gm']['sched'][j]:
                gm = np.ones(nm) * frame(f['gm']['seed'], j, (f['gm']['size'],), 0.0, 1.5)
            elif f['gm'] and not f['gm']['unset'] and not any(f['gm']['sched'][:j + 1]):
                gm = np.zeros(nm)
            touched = False
            if f['reset'] and f['reset']['sched'][j]:
                m.reset()
                touched = True
                out.stats['probe.resets'] += 1
            if f['gain'] and f['gain']['sched'][j]:
                m.set_gain(f['gain']['values'][j])
                out.stats['probe.gain_changes'] += 1
            if f['sched'][j]:
                u = frame(f['seed'], j, (1 if f['one'] else nm,))
                m.step(np.ones(nm) * u, gm)
                touched = True
                act += 1
            else:
                out.stats['fault.command_missing_steps'] += 1
            where = f'{f["kind"]} f{k} (delay {f["delay"]}) at step {j} of {n}'
            if (g == t) != touched or (g0 == t) != touched:
                out.fail('refresh', f'{where}: outputs refreshed {g == t}/{g0 == t}, expected {touched}')
                break
            tol = (2e-4 if f32 else 1e-9) * m.size
            if not bench.close(v, m.output(), 0, tol):
                out.fail('command', f'{where}: command {v} instead of {m.output()}')
                break
            if not bench.close(v0, m.past(0), 0, tol):
                out.fail('command-no-delay', f'{where}: undelayed command {v0} instead of {m.past(0)}')
                break
    out.sim_time = n * step / 1e9
    out.nontrivial = act >= 3
    out.digest = digest([[[k2, [[o, s[o][0], [] if s[o][1] is None else s[o][1].tolist()] for o in s]] for s in rec.at[k2]] for k2 in sorted(rec.at)])
    out.key = digest([[f['kind'], f['delay'], f['sched']] for f in case['filters']])
    return out


def reductions(c):
    for k in range(len(c['filters'])):
        if len(c['filters']) > 1:
            d = copy.deepcopy(c)
            del d['filters'][k]
            yield d
    for k, f in enumerate(c['filters']):
        for a, v in (('gm', None), ('reset', None), ('gain', None), ('delay', 0), ('integration', True), ('rebind', False), ('one', False),
                     ('sched', [1] * c['n'])):
            if f[a] != v:
                d = copy.deepcopy(c)
                d['filters'][k][a] = v
                yield d
    if c['precision']:
        d = copy.deepcopy(c)
        d['precision'] = 0
        yield d
    for m in (c['n'] // 2, c['n'] - 1):
        if 0 < m < c['n']:
            d = copy.deepcopy(c)
            d['n'] = m
            yield d
