"""C01: causal trigger order, refresh rule, delayed inputs, independence of YAML and group order."""
import copy
from dst.core import Outcome, sut_exception
from dst.prng import Rng
from dst import graph, simrun, world
from dst.run import digest

PROPERTY = 'C01'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=1600, budget=200), thorough=dict(cases=60000, budget=780))
RULE = ('one case = one random graph of user blocks (2-9 blocks; single/list/optional inputs, delayed feedback, output '
        'schedules, value representations, read phases), run for 3-12 steps by the real Simul in 3 variants (as '
        'generated, YAML entries and inputs permuted, groups executed in shuffled order) against a reference '
        'interpreter; non-trivial = at least one connection; distinct = by full log digest')
COMPONENTS = dict(real=['Simul (YAML, ordering, connection)', 'LoopControl', 'BaseProcessingObj', 'InputValue/InputList',
                        'BaseValue', 'BaseDataObj'], stub=['user blocks of dst_objs/'])


def generate(rng, tier, i):
    g = graph.gen_graph(rng)
    perm = list(g['order'])
    rng.shuffle(perm)
    return dict(graph=g, steps=rng.randint(3, 12), perm=perm, shuffle_seed=rng.next(), inperm_seed=rng.next(),
                dt=rng.choice([0.001, 0.002, 0.0005, 1, 0.1]))


def collect(log):
    d, fin = {}, {}
    for t, name, kind, payload in log:
        if kind == 'run':
            d.setdefault(name, []).append((t, payload))
        elif kind == 'end':
            fin[name] = payload
    return d, fin


def permute_inputs(p, rng):
    q = {}
    for k, v in p.items():
        v = dict(v)
        if 'inputs' in v:
            items = list(v['inputs'].items())
            rng.shuffle(items)
            v['inputs'] = dict(items)
        items = list(v.items())
        rng.shuffle(items)
        q[k] = dict(items)
    return q


def compare(out, tag, g, log, ref, reffin):
    d, fin = collect(log)
    for nd in g['nodes']:
        nm = nd['name']
        a, b = d.get(nm, []), ref.get(nm, [])
        if a != b:
            for k in range(max(len(a), len(b))):
                x = a[k] if k < len(a) else None
                y = b[k] if k < len(b) else None
                if x != y:
                    if x is None or (y is not None and x[0] > y[0]):
                        out.fail('missed-run', f'[{tag}] block {nm} did not run at t={y[0]} ns although it was due')
                    elif y is None or x[0] < y[0]:
                        out.fail('spurious-run', f'[{tag}] block {nm} ran at t={x[0]} ns although no input was refreshed')
                    else:
                        out.fail('wrong-input', f'[{tag}] block {nm} at t={x[0]} ns saw {x[1]} instead of {y[1]}')
                    return
        if nm in fin and fin[nm] != reffin[nm]:
            out.fail('wrong-output', f'[{tag}] block {nm} ended with {fin[nm]} instead of {reffin[nm]}')
            return


def execute(case, d):
    out = Outcome()
    g = case['graph']
    world.reset()
    dt_ns = round(case['dt'] * 1e9)
    ref, reffin = graph.reference(g, case['steps'], dt_ns)
    total = round(case['steps'] * case['dt'], 9)
    logs = []
    try:
        variants = [('as written', g['order'], None, None),
                    ('YAML order permuted', case['perm'], None, Rng(case['inperm_seed'])),
                    ('group order shuffled', g['order'], Rng(case['shuffle_seed']), None)]
        for tag, order, shuf, inperm in variants:
            p = graph.to_params(g, total, case['dt'], order=[x for x in order if x in g['order']])
            if inperm:
                p = permute_inputs(p, inperm)
            graph.write_params(p, 'p.yml')
            _, log, _ = simrun.run_simul('p.yml', shuffle=shuf)
            out.stats['runs'] += 1
            out.sim_time += total
            logs.append(log)
            compare(out, tag, g, log, ref, reffin)
            if out.violations:
                break
    except Exception as e:
        sut_exception(out, e)
    conn = [s for nd in g['nodes'] for i in nd['inputs'] for s in i['srcs']]
    out.stats['probe.delayed_connections'] = sum(1 for s in conn if s[2] < 0)
    out.stats['probe.slow_producers'] = sum(1 for nd in g['nodes'] if 0 in nd['sched'])
    out.stats['probe.runs_skipped_by_refresh_rule'] = sum(case['steps'] - len(v) for v in ref.values())
    out.stats['probe.variants_yaml_permuted'] = int(case['perm'] != g['order'])
    out.nontrivial = len(conn) > 0
    out.digest = digest(logs)
    out.key = digest([g['nodes'], case['steps']])
    return out


def reductions(c):
    for g in graph.graph_reductions(c['graph']):
        d = copy.deepcopy(c)
        d['graph'] = g
        d['perm'] = [x for x in d['perm'] if x in g['order']]
        yield d
    for s in (1, 2, 3, c['steps'] - 1):
        if 0 < s < c['steps']:
            d = copy.deepcopy(c)
            d['steps'] = s
            yield d
    if c['dt'] != 1:
        d = copy.deepcopy(c)
        d['dt'] = 1
        yield d
