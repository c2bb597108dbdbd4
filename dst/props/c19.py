"""C19: blocks with several inputs at different or irregular rates use the latest value of each, once, for every order of arrival."""
import copy
import math
import numpy as np
from dst.core import Outcome, sut_exception
from dst.prng import Rng
from dst import bench, world
from dst.run import digest
from dst.props.c06 import rare
from dst.props.c18 import irregular

PROPERTY = 'C19'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=1600, budget=200), thorough=dict(cases=60000, budget=780))
RULE = ('one case = one to three control blocks with several inputs (reconstructors with one or more sensors, with or without '
        'pseudo-open-loop commands, multi-rate reconstructor alone or feeding the complementary filter, the filter on separate '
        'sensors or on one vector, products, combinations, slices, insertions and element-wise operations), every input fed by a '
        'scripted block whose schedule (rates, jitter, stalls, late or missing or unexpected measurements, never arriving) is chosen '
        'by the seed; some outputs are also read one step late by another block; run by the real Simul in a random group order; '
        'oracle = the formula applied to the latest value of each input at each activation, and the step at which a broken '
        'synchronisation must be reported; compared after every step; non-trivial = at least three activations; distinct = by block '
        'kinds and schedules')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'Modalrec', 'ModalrecImplicitPolc', 'ModalrecMultirate', 'MultirateComplementaryFilter',
                        'MVM', 'LinearCombination', 'MirrorCommandsCombinator', 'BaseOperation', 'BaseSlicer', 'BaseInserter', 'Recmat', 'Intmat'],
                  stub=['scripted sensors and commands (dst_objs/dst_script.py)', 'late reader (dst_objs/dst_lag.py)'])
ASSUMPTIONS = ['without synchronisation checks, the complementary filter adds the slow inputs at the multiples of their factor, as documented']
STEPS = [1000000, 500000, 333333]
KINDS = [('rec', 3), ('polc', 4), ('multi', 3), ('chain', 3), ('sync', 4), ('vec', 2), ('mvm', 1), ('lincomb', 1), ('mirror', 1), ('op', 2), ('slice', 1), ('insert', 1)]


def source(rng, n, size, kind='slopes', s=None):
    return dict(kind=kind, size=size, seed=rng.randint(1, 10**6), sched=irregular(rng, n) if s is None else s, rebind=rng.chance(0.3))


def iir(rng, nm):
    a, b = rng.randint(1, 3), rng.randint(2, 4)
    return dict(num=[[round(rng.uniform(-1, 1), 3) for _ in range(a - 1)] + [rng.choice([0.3, 1.0, -0.7])] for _ in range(nm)],
                den=[[round(rng.uniform(-0.9, 0.9) / b, 3) for _ in range(b - 1)] + [rng.choice([1.0, 2.0])] for _ in range(nm)],
                delay=rng.choice([0, 0, 1, 2, 0.5, 1.25]))


def generate(rng, tier, i):
    n = rng.randint(3, 30) if rng.chance(0.95) else rng.randint(60, 300)
    c = dict(step=rng.choice(STEPS), n=n, precision=rng.choice([0, 0, 1]), order=rng.next(), blocks=[], lag=rng.chance(0.6))
    for k in range(rng.weighted([(1, 3), (2, 2), (3, 1)])):
        kind = rng.weighted(KINDS)
        b = dict(kind=kind, seed=rng.randint(1, 10**6), src={})
        S = b['src']
        if kind in ('rec', 'polc', 'multi', 'chain'):
            ns = rng.choice([1, 2, 2, 3])
            sizes = [rng.randint(1, 4) for _ in range(ns)]
            b['nm'] = rng.randint(1, 4)
            for q in range(ns):
                S[f's{q}'] = source(rng, n, sizes[q])
            if kind == 'multi' or kind == 'chain':
                masks = [[bool(m >> q & 1) for q in range(ns)] for m in range(1, 2 ** ns)]
                rng.shuffle(masks)
                b['masks'] = masks[1:] if rng.chance(0.12) and len(masks) > 1 else masks
            else:
                b['single'] = ns == 1 and rng.chance(0.7)
            if kind == 'polc':
                b.update(implicit=rng.chance(0.5), comm=[], clist=rng.chance(0.4), delayed=rng.chance(0.5), nv=rng.randint(1, 4))
                parts = [b['nm']] if not b['clist'] or b['nm'] == 1 else [1, b['nm'] - 1]
                for q, m in enumerate(parts):
                    S[f'c{q}'] = source(rng, n, m, kind=rng.choice(['value', 'value', 'unset']))
            if kind == 'chain':
                b.update(iir(rng, b['nm']), g=rng.choice([0.1, 0.005, 0.5]), w=[rng.choice([0.5, 1.0, 0.2]) for _ in range(ns)], N=[rng.randint(1, 4) for _ in range(ns - 1)])
        elif kind in ('sync', 'vec'):
            ns = rng.choice([1, 1, 2])
            b['nm'] = rng.randint(1, 3)
            b.update(iir(rng, b['nm']), g=rng.choice([0.1, 0.005, 0.5]), w=[rng.choice([0.5, 1.0, 0.2]) for _ in range(ns + 1)], N=[rng.randint(1, 5) for _ in range(ns)], fault=None)
            fast = irregular(rng, n)
            if kind == 'sync':
                S['f'] = source(rng, n, b['nm'], 'value', fast)
                cnt, slow = 0, [[0] * n for _ in range(ns)]
                for j in range(n):
                    cnt += fast[j]
                    for q in range(ns):
                        slow[q][j] = int(fast[j] and cnt % b['N'][q] == 0)
                if rng.chance(0.35):
                    q, j = rng.randint(0, ns - 1), rng.randint(0, n - 1)
                    slow[q][j] ^= 1
                    b['fault'] = 'late'
                    if rng.chance(0.5) and j + 1 < n:       # late rather than missing
                        slow[q][j + 1] = 1
                for q in range(ns):
                    S[f'y{q}'] = source(rng, n, b['nm'], 'value', slow[q])
            else:
                perm = list(range(b['nm'] * (ns + 1)))
                rng.shuffle(perm)
                b['idx'] = [perm[q * b['nm']:(q + 1) * b['nm']] for q in range(ns + 1)]
                S['v'] = source(rng, n, len(perm), 'value', fast)
            if rng.chance(0.5):
                S['g'] = source(rng, n, rng.choice([1, b['nm']]), rng.choice(['value', 'unset']), rng.choice([None, rare(rng, n, 0.3)]))
        elif kind == 'mvm':
            b.update(nm=rng.randint(1, 4))
            S['v'] = source(rng, n, rng.randint(1, 4), 'value')
        elif kind == 'lincomb':
            b.update(no_focus=rng.chance(0.5), no_lift=rng.chance(0.5), ps=rng.choice([None, None, 2, 3]))
            S['lgs'] = source(rng, n, rng.randint(6, 9), 'value')
            if not b['no_focus']:
                S['focus'] = source(rng, n, rng.randint(1, 2), 'value')
            if not b['no_lift']:
                S['lift'] = source(rng, n, rng.randint(1, 3), 'value')
            S['ngs'] = source(rng, n, 5 if b['ps'] is not None else rng.randint(2, 5), 'value')
        elif kind == 'mirror':
            lo3, extra = rng.randint(1, 3), rng.randint(0, 3)
            b.update(lo=[2, 0, lo3], od=[2 + lo3 + extra + 1, rng.randint(1, 4), lo3 + rng.randint(1, 3)], dp=rng.choice([0, 2, 3]))
            b['k'] = [round(rng.uniform(-1, 1), 2) for _ in range(lo3)]
            ho = sum(b['od']) - sum(b['lo']) - 1
            for nm, m in (('HO', ho), ('LO', 2 + lo3), ('F', 1), ('P', b['dp'] or 2)):
                S[nm] = source(rng, n, m, 'value')
        elif kind == 'op':
            op = rng.choice(['mul', 'div', 'sum', 'sub', 'concat', 'constant_mul', 'constant_div', 'constant_sum', 'constant_sub', 'constant_max', 'constant_min'])
            m = rng.randint(1, 4)
            b.update(op=op, cst=rng.choice([0.5, -2.0, 3.0]), mode=None)
            S['a'] = source(rng, n, m, 'value')
            if not op.startswith('constant'):
                m2 = m
                if op == 'concat':
                    m2 = rng.randint(1, 3)
                elif m > 1 and rng.chance(0.5):
                    m2 = rng.randint(1, m)
                    p = list(range(m))
                    rng.shuffle(p)
                    b['mode'] = rng.choice(['short', p[:m2]])
                S['b'] = source(rng, n, m2, 'value')
        elif kind == 'slice':
            m = rng.randint(3, 7)
            b.update(sel=rng.choice([dict(indices=[rng.randint(0, m - 1) for _ in range(rng.randint(1, 3))]), dict(indices=rng.randint(0, m - 1)),
                                     dict(slice_args=[rng.randint(0, 1), rng.randint(2, m)]), dict(slice_args=[0, m, 2]), dict(slice_args=[None, None, -1]), {}]))
            S['a'] = source(rng, n, m, 'value')
        else:
            m = rng.randint(2, 4)
            b.update(out=rng.randint(m + 1, 8), sel=rng.choice([dict(indices=[[0, 1], [m, 0]]), dict(slice_args=[[0, m], [1, 1 + m]]),
                                                               dict(slice_args=[[[0, 1], [0, 1]], [[1, m], [2, m + 1]]])]))
            S['a'] = source(rng, n, m, 'value')
        c['blocks'].append(b)
    return c


def mat(seed, r, k):
    return np.round(np.random.RandomState(seed).uniform(-1, 1, (r, k)), 3)


def names(b, prefix):
    return [s for s in sorted(b['src'], key=lambda x: (x[0], len(x), x)) if s.startswith(prefix)]


def nslopes(b):
    return sum(b['src'][s]['size'] for s in names(b, 's'))


def filter_params(p, k, b):
    nm = b['nm']
    p[f'data{k}'] = {'class': 'IirFilterData', 'ordnum': [len(b['num'][0])] * nm, 'ordden': [len(b['den'][0])] * nm, 'num': b['num'], 'den': b['den']}
    return {'class': 'MultirateComplementaryFilter', 'simul_params_ref': 'main', 'iir_filter_data_ref': f'data{k}', 'g_track': b['g'], 'weights': b['w'],
            'N_list': b['N'], 'delay': b['delay'], 'inputs': {}}


def params(c):
    p = {'main': bench.main(c['n'], c['step'], pixel_pupil=8, pixel_pitch=0.1)}
    for k, b in enumerate(c['blocks']):
        S, kind = b['src'], b['kind']

        def ref(s):
            return f'{s}_{k}.' + ('out_slopes' if S[s]['kind'] == 'slopes' else 'out')
        for s, f in S.items():
            p[f'{s}_{k}'] = {'class': 'DstScript', 'kind': f['kind'], 'shape': [f['size']], 'seed': f['seed'], 'schedule': f['sched'], 'rebind': f['rebind']}
            if s == 'b' and b.get('op') == 'div':
                p[f'{s}_{k}'].update(lo=0.5, hi=2.0)
        if kind in ('rec', 'polc'):
            ns = nslopes(b)
            q = {'class': 'Modalrec', 'recmat_ref': f'rm{k}', 'inputs': {}}
            if b['single']:
                q['inputs']['in_slopes'] = ref('s0')
            else:
                q['inputs']['in_slopes_list'] = [ref(s) for s in names(b, 's')]
            if kind == 'rec':
                p[f'rm{k}'] = {'class': 'Recmat', 'recmat': mat(b['seed'], b['nm'], ns).tolist()}
            else:
                p[f'rm{k}'] = {'class': 'Recmat', 'recmat': mat(b['seed'], b['nv'], ns).tolist()}
                p[f'pm{k}'] = {'class': 'Recmat', 'recmat': mat(b['seed'] + 1, b['nm'], b['nv']).tolist()}
                p[f'im{k}'] = {'class': 'Intmat', 'intmat': mat(b['seed'] + 2, ns, b['nm']).tolist()}
                q.update(projmat_ref=f'pm{k}', intmat_ref=f'im{k}')
                if b['implicit']:
                    q['class'] = 'ModalrecImplicitPolc'
                else:
                    q['polc'] = True
                d = ':-1' if b['delayed'] else ''
                if b['clist']:
                    q['inputs']['in_commands_list'] = [ref(s) + d for s in names(b, 'c')]
                else:
                    q['inputs']['in_commands'] = ref('c0') + d
        elif kind in ('multi', 'chain'):
            ns = nslopes(b)
            for m, mk in enumerate(b['masks']):
                p[f'rm{k}_{m}'] = {'class': 'Recmat', 'recmat': mat(b['seed'] + m, b['nm'], ns).tolist()}
            q = {'class': 'ModalrecMultirate', 'recmat_list_ref': [f'rm{k}_{m}' for m in range(len(b['masks']))], 'validity_masks': b['masks'],
                 'n_modes_total': b['nm'], 'inputs': {'in_slopes_list': [ref(s) for s in names(b, 's')]}}
            if kind == 'chain':
                p[f'm{k}'] = q
                q = filter_params(p, k, b)
                q['validate_sync'] = False
                q['inputs'] = {'in_yf': f'm{k}.out_modes_0', 'in_ys': [f'm{k}.out_modes_{i}' for i in range(1, len(names(b, 's')))]}
        elif kind in ('sync', 'vec'):
            q = filter_params(p, k, b)
            if kind == 'sync':
                q['inputs'] = {'in_yf': ref('f'), 'in_ys': [ref(s) for s in names(b, 'y')]}
            else:
                q['inputs'] = {'in_vec': ref('v')}
                q.update(idx_yf=b['idx'][0], idx_ys=b['idx'][1:])
            if 'g' in S:
                q['inputs']['gain_mod'] = ref('g')
                p[f'g_{k}'].update(lo=0.0, hi=1.5)
        elif kind == 'mvm':
            p[f'rm{k}'] = {'class': 'Recmat', 'recmat': mat(b['seed'], b['nm'], S['v']['size']).tolist()}
            q = {'class': 'MVM', 'recmat_ref': f'rm{k}', 'inputs': {'in_vector': ref('v')}}
        elif kind == 'lincomb':
            q = {'class': 'LinearCombination', 'simul_params_ref': 'main', 'no_focus': b['no_focus'], 'no_lift': b['no_lift'],
                 'inputs': {'in_vectors_list': [ref(s) for s in ('lgs', 'focus', 'lift', 'ngs') if s in S]}}
            if b['ps'] is not None:
                q['plate_scale_idx'] = b['ps']
        elif kind == 'mirror':
            p[f'rm{k}'] = {'class': 'Recmat', 'recmat': mat(b['seed'], b['od'][0] + 1, b['dp'] or 2).tolist()}
            q = {'class': 'MirrorCommandsCombinator', 'k_vector': b['k'], 'recmat_ref': f'rm{k}', 'dims_LO': b['lo'], 'dims_P': b['dp'], 'dims_F': 1,
                 'out_dims': b['od'], 'inputs': {f'in_commands{s}': ref(s) for s in ('HO', 'LO', 'F', 'P')}}
        elif kind == 'op':
            q = {'class': 'BaseOperation', b['op']: b['cst'] if b['op'].startswith('constant') else True, 'inputs': {'in_value1': ref('a')}}
            if 'b' in S:
                q['inputs']['in_value2'] = ref('b')
            if b['mode'] == 'short':
                q['value2_is_shorter'] = True
            elif b['mode']:
                q['value2_remap'] = b['mode']
        else:
            q = dict({'class': 'BaseSlicer' if kind == 'slice' else 'BaseInserter', 'inputs': {'in_value': ref('a')}}, **b['sel'])
            if kind == 'insert':
                q['output_size'] = b['out']
        p[f'b{k}'] = q
    if c['lag']:
        p['clock'] = {'class': 'DstScript', 'kind': 'value', 'shape': [1], 'seed': 1}
        p['lag'] = {'class': 'DstLag', 'inputs': {'clock': 'clock.out', 'input': [x + ':-1' for x in lagged(c)]}}
    return p


def outputs(b):
    kind = b['kind']
    if kind in ('rec', 'polc'):
        return ['out_modes'] + (['out_pseudo_ol_modes'] if kind == 'polc' and not b['implicit'] else [])
    if kind == 'multi':
        return [f'out_modes_{i}' for i in range(len(names(b, 's')))]
    return {'chain': ['out_comm', 'out_comm_no_delay'], 'sync': ['out_comm', 'out_comm_no_delay'], 'vec': ['out_comm', 'out_comm_no_delay'],
            'mvm': ['out_vector'], 'lincomb': ['out_vector'], 'mirror': [f'out_result_commands{i}' for i in (1, 2, 3)],
            'op': ['out_value'], 'slice': ['out_value'], 'insert': ['out_value']}[kind]


def lagged(c):
    return [f'b{k}.{o}' for k, b in enumerate(c['blocks']) for o in outputs(b)]


class Stop(Exception):
    """The run must report an error at this step."""


class Fusion:
    """Difference equation and delay line of the complementary filter."""
    def __init__(self, b):
        w = np.array(b['w'], dtype=float)
        w /= w.sum()
        self.b, self.count, self.prev = b, 0, np.zeros(b['nm'])
        self.a0, self.c = 1 + b['g'] * w[0], [b['g'] * w[i + 1] * N for i, N in enumerate(b['N'])]
        self.num, self.den = np.array(b['num'], dtype=float), np.array(b['den'], dtype=float)
        self.ins, self.outs, self.gm = [], [], np.ones(b['nm'])

    def step(self, yf, ys):
        self.count += 1
        x = self.a0 * yf - self.prev
        for N, cy, y in zip(self.b['N'], self.c, ys):
            if self.count % N == 0:
                x = x + cy * y
        self.prev = yf
        self.ins.append(x)
        ni, no = self.num.shape[1], self.den.shape[1]
        y = sum(self.num[:, a] * self.gm * self.ins[-1 - (ni - 1 - a)] for a in range(ni) if ni - 1 - a < len(self.ins))
        y = y - sum((self.den[:, a] * self.outs[-(no - 1 - a)] for a in range(no - 1) if no - 1 - a <= len(self.outs)), np.zeros(self.b['nm']))
        self.outs.append(y / self.den[:, -1])

    def out(self):
        d = self.b['delay']
        lo, fr = int(math.floor(d)), d - math.floor(d)
        g = lambda m: self.outs[-1 - m] if m < len(self.outs) else np.zeros(self.b['nm'])
        return {'out_comm': (1 - fr) * g(lo) + (fr * g(lo + 1) if fr else 0.0), 'out_comm_no_delay': g(0)}


class Model:
    def __init__(self, b, n):
        from dst_objs.dst_script import frame
        self.b, self.frame, self.n = b, frame, n
        self.v = {s: None if f['kind'] == 'unset' else np.zeros(f['size']) for s, f in b['src'].items()}
        self.prev = dict(self.v)
        self.f = Fusion(b) if b['kind'] in ('chain', 'sync', 'vec') else None
        self.val = None
        if b['kind'] == 'insert':
            self.val = np.zeros(b['out'])
        self.last_fast = None

    def step(self, j):
        """{output: value} for the outputs refreshed at step j."""
        b, S = self.b, self.b['src']
        self.prev = dict(self.v)
        fresh = {s for s, f in S.items() if f['sched'] is None or f['sched'][j]}
        for s in fresh:
            lo, hi = (0.5, 2.0) if s == 'b' and b.get('op') == 'div' else (0.0, 1.5) if s == 'g' else (-1.0, 1.0)
            self.v[s] = self.frame(S[s]['seed'], j, (S[s]['size'],), lo, hi)
        return getattr(self, 'do_' + b['kind'])(fresh)

    def slopes(self):
        return np.concatenate([self.v[s] for s in names(self.b, 's')])

    def do_rec(self, fresh):
        return {'out_modes': mat(self.b['seed'], self.b['nm'], nslopes(self.b)) @ self.slopes()} if fresh else {}

    def do_polc(self, fresh):
        b = self.b
        if not any(s.startswith('s') for s in fresh):
            return {}
        v = self.prev if b['delayed'] else self.v
        c = [v[s] for s in names(b, 'c')]
        c = np.zeros(b['nm']) if any(x is None for x in c) else np.concatenate(c)
        ns = nslopes(b)
        ol = mat(b['seed'], b['nv'], ns) @ (self.slopes() + mat(b['seed'] + 2, ns, b['nm']) @ c)
        r = {'out_modes': mat(b['seed'] + 1, b['nm'], b['nv']) @ ol - c}
        if not b['implicit']:
            r['out_pseudo_ol_modes'] = ol
        return r

    def do_multi(self, fresh):
        b, r = self.b, {}
        if not fresh:
            return r
        mask = [s in fresh for s in names(b, 's')]
        if mask not in b['masks']:
            raise Stop('KeyError')
        R, pos = mat(b['seed'] + b['masks'].index(mask), b['nm'], nslopes(b)), 0
        for i, s in enumerate(names(b, 's')):
            m = b['src'][s]['size']
            r[f'out_modes_{i}'] = R[:, pos:pos + m] @ self.v[s] if mask[i] else np.zeros(b['nm'])
            pos += m
        return r

    def do_chain(self, fresh):
        r = self.do_multi(fresh)
        if not r:
            return r
        self.f.step(r['out_modes_0'], [r[f'out_modes_{i}'] for i in range(1, len(r))])
        return self.f.out()

    def gain(self):
        if self.v.get('g') is not None:
            self.f.gm = np.ones(self.b['nm']) * self.v['g']

    def do_sync(self, fresh):
        b = self.b
        self.gain()
        if 'f' in fresh:
            for q, N in enumerate(b['N']):
                if ((self.f.count + 1) % N == 0) != (f'y{q}' in fresh):
                    raise Stop('RuntimeError')
            self.f.step(self.v['f'], [self.v[f'y{q}'] for q in range(len(b['N']))])
            return self.f.out()
        if any(s.startswith('y') for s in fresh):
            raise Stop('RuntimeError')
        return {}

    def do_vec(self, fresh):
        self.gain()
        if 'v' not in fresh:
            return {}
        v = [self.v['v'][i] for i in self.b['idx']]
        self.f.step(v[0], v[1:])
        return self.f.out()

    def do_mvm(self, fresh):
        return {'out_vector': mat(self.b['seed'], self.b['nm'], self.b['src']['v']['size']) @ self.v['v']} if fresh else {}

    def do_lincomb(self, fresh):
        if not fresh:
            return {}
        b, v = self.b, self.v
        x = v['lgs'].copy()
        x[:2] = v['ngs'][:2]
        if not b['no_focus']:
            x[2] = v['focus'][0]
        if b['ps'] is not None:
            x[b['ps']:b['ps'] + 3] = v['ngs'][2:]
        if not b['no_lift']:
            x = np.concatenate([x, v['lift']])
        return {'out_vector': x}

    def do_mirror(self, fresh):
        if not fresh:
            return {}
        b, v = self.b, self.v
        lo1, lo3 = v['LO'][:2], v['LO'][2:]
        h1, h2 = b['od'][0] - 2 - 1, b['od'][1]
        y1 = np.concatenate([lo1, v['F'], v['HO'][:h1]])
        y1[2:2 + len(lo3)] += np.array(b['k']) * lo3
        if b['dp']:
            y1 = y1 + mat(b['seed'], b['od'][0] + 1, b['dp'])[:b['od'][0]] @ v['P']
        return {'out_result_commands1': y1, 'out_result_commands2': v['HO'][h1:h1 + h2], 'out_result_commands3': np.concatenate([lo3, v['HO'][h1 + h2:]])}

    def do_op(self, fresh):
        if not fresh:
            return {}
        a, op, k = self.v['a'], self.b['op'], self.b['cst']
        if op.startswith('constant'):
            return {'out_value': {'constant_mul': a * k, 'constant_div': a / k, 'constant_sum': a + k, 'constant_sub': a - k,
                                  'constant_max': np.maximum(a, k), 'constant_min': np.minimum(a, k)}[op]}
        z = self.v['b']
        if op == 'concat':
            return {'out_value': np.concatenate([a, z])}
        w = np.full(len(a), 1.0 if op == 'div' else 0.0)
        if self.b['mode'] == 'short':
            w[:len(z)] = z
        elif self.b['mode']:
            w[self.b['mode']] = z
        else:
            w[:] = z
        with np.errstate(all='ignore'):
            return {'out_value': {'mul': a * w, 'div': a / w, 'sum': a + w, 'sub': a - w}[op]}

    def do_slice(self, fresh):
        sel = self.b['sel']
        if not fresh:
            return {}
        a = self.v['a']
        return {'out_value': np.array(a[sel['indices']] if 'indices' in sel else a[slice(*sel['slice_args'])] if sel else a)}

    def do_insert(self, fresh):
        if not fresh:
            return {}
        sel, a = self.b['sel'], self.v['a']
        if 'indices' in sel:
            self.val[sel['indices'][1]] = a[sel['indices'][0]]
        else:
            s = sel['slice_args']
            for f, t in (s if isinstance(s[0][0], list) else [s]):
                self.val[slice(*t)] = a[slice(*f)]
        return {'out_value': self.val.copy()}




def execute(case, d):
    out = Outcome()
    c = case
    n, step, f32 = c['n'], c['step'], c['precision'] == 1
    world.reset(1, c['precision'])
    models = [Model(b, n) for b in c['blocks']]
    ref, stop, err = [], None, set()
    for j in range(n):
        row = []
        for m in models:
            try:
                row.append(m.step(j))
            except Stop as e:
                stop = j
                err.add(str(e))
        if stop is not None:
            break
        ref.append(row)
    rec = bench.Rec()
    try:
        bench.run(params(c), order=Rng(c['order']), rec=rec)
        if stop is not None:
            out.fail('unreported', f'broken synchronisation at step {stop} was not reported ({sorted(err)} expected)')
            return out
    except Exception as e:
        if stop is None or type(e).__name__ not in err or len(rec.t) != stop:
            if stop is not None and len(rec.t) != stop:
                out.fail('reported-step', f'{type(e).__name__}: {e} after {len(rec.t)} steps, expected at step {stop}')
            else:
                sut_exception(out, e)
            return out
        out.stats['fault.broken_synchronisation'] += 1
    out.stats['runs'] += 1
    act = 0
    tol = 2e-4 if f32 else 1e-9
    for k, b in enumerate(c['blocks']):
        size, held = 1.0, {}
        for j in range(len(ref)):
            t, r = j * step, ref[j][k]
            at = rec.at[f'b{k}'][j]
            where = f'{b["kind"]} b{k} at step {j} of {n}'
            act += bool(r)
            for s, f in b['src'].items():
                if f['sched'] is not None and not f['sched'][j]:
                    out.stats['fault.input_missing_steps'] += 1
            for o in outputs(b):
                g, v = at[o]
                if (g == t) != (o in r):
                    out.fail('refresh', f'{where}: {o} refreshed {g == t}, expected {o in r} '
                                        f'(inputs {[s for s, f in b["src"].items() if f["sched"] is None or f["sched"][j]]})')
                    break
                if o in r:
                    e = np.asarray(r[o], dtype=float)
                    fin = np.abs(e[np.isfinite(e)])
                    size = max(size, float(fin.max()) if fin.size else 0)
                    v2 = np.asarray(v, dtype=float)
                    if v2.shape != e.shape or not np.allclose(v2, e, rtol=0, atol=tol * size, equal_nan=True):
                        out.fail('value', f'{where}: {o} = {v} instead of {e}')
                        break
                    held[o] = np.array(v)
                elif o in held and not np.array_equal(np.asarray(v), held[o], equal_nan=True):
                    out.fail('changed', f'{where}: {o} changed without being refreshed')
                    break
            if out.violations:
                break
        if out.violations:
            break
    if c['lag'] and not out.violations and len(ref) == n:
        for j, (t, got) in enumerate(rec.objs['lag'].seen):
            if j == 0:
                continue
            for name, (g, v) in zip(lagged(c), got):
                k, o = name.split('.')
                eg, ev = rec.at[k][t // step - 1][o]
                if g != eg or not np.array_equal(np.asarray(v), np.asarray(ev), equal_nan=v is not None and ev is not None):
                    out.fail('delayed-read', f'{name} read with one step of delay at step {j}: {v} of time {g}, but it was {ev} of time {eg} at the end of the previous step')
                    break
            if out.violations:
                break
        out.stats['probe.delayed_reads'] += n
    out.sim_time = n * step / 1e9
    out.nontrivial = act >= 3
    out.digest = digest([[[k2, [[o, s[o][0], [] if s[o][1] is None else np.asarray(s[o][1]).tolist()] for o in s]] for s in rec.at[k2]] for k2 in sorted(rec.at)])
    out.key = digest([[b['kind'], [[s, f['sched']] for s, f in b['src'].items()]] for b in c['blocks']])
    return out


def reductions(c):
    for k in range(len(c['blocks'])):
        if len(c['blocks']) > 1:
            d = copy.deepcopy(c)
            del d['blocks'][k]
            yield d
    if c['lag']:
        d = copy.deepcopy(c)
        d['lag'] = False
        yield d
    for k, b in enumerate(c['blocks']):
        if 'g' in b['src']:
            d = copy.deepcopy(c)
            del d['blocks'][k]['src']['g']
            yield d
        if b.get('delay'):
            d = copy.deepcopy(c)
            d['blocks'][k]['delay'] = 0
            yield d
        if b['kind'] != 'sync':
            for s, f in b['src'].items():
                for a, v in (('sched', [1] * c['n']), ('rebind', False)):
                    if f[a] != v:
                        d = copy.deepcopy(c)
                        d['blocks'][k]['src'][s][a] = v
                        yield d
    if c['precision']:
        d = copy.deepcopy(c)
        d['precision'] = 0
        yield d
    for m in (c['n'] // 2, c['n'] - 1):
        if 2 < m < c['n']:
            d = copy.deepcopy(c)
            d['n'] = m
            yield d
