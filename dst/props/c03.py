"""C03: results do not depend on the assignment of blocks to MPI ranks; no deadlock, no stray message."""
import copy
from dst.core import Outcome, sut_exception
from dst.prng import Rng
from dst import chains, graph, simrun, world
from dst.sched import Chooser
from dst.run import digest
from dst.props.c01 import compare, collect

PROPERTY = 'C03'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=1200, budget=240), thorough=dict(cases=40000, budget=780))
RULE = ('one case = one block graph, one assignment of its blocks to 2-4 ranks and one seeded schedule of rank steps and '
        'message deliveries on the simulated communicator, run by the real Simul on every rank; oracle = reference '
        'interpreter (= single-process run); non-trivial = at least one message crosses ranks; distinct = by '
        'interleaving digest')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'BaseProcessingObj', 'InputValue/InputList', 'data objects'],
                  stub=['MPI communicator (SimMPI)', 'user blocks of dst_objs/ in the graph family'])
ASSUMPTIONS = ['MPI is non-overtaking per (source, destination, tag) and delivers every message eventually',
               'the MPI send buffer is large enough']


# histories that failed before their fixes: list output read remotely; unset output twice in a remote list; field resized and
# scaled in setup()
def _node(name, **kw):
    d = dict(name=name, sched=[1], size=1, coef=1, mode='inplace', phase='trigger', none_init=False, list_out=0, inputs=[])
    d.update(kw)
    return d


FIXED = [dict(graph=dict(nodes=[_node('n0', list_out=2),
                                _node('n1', inputs=[dict(name='i0', kind='list', srcs=[['n0', 'outs', 0]])])],
                         statics=[], order=['n0', 'n1']),
              nranks=2, ranks={'n0': 0, 'n1': 1}, T=2000000, dt=1000000, policy='lowest', starved=[], sched_seed=1,
              delay=False),
         dict(graph=dict(nodes=[_node('n0', none_init=True),
                                _node('n1', inputs=[dict(name='i0', kind='list', srcs=[['n0', 'out', 0], ['n0', 'out', 0]])])],
                         statics=[], order=['n0', 'n1']),
              nranks=2, ranks={'n0': 0, 'n1': 1}, T=2000000, dt=1000000, policy='lowest', starved=[], sched_seed=1,
              delay=False),
         dict(chain=dict(npx=16, pitch=0.1, step=0.001, nsteps=3, sensor='sh', n_sub=4, det_every=1, det_start=0, noise=False, atmo='none',
                         layers=1, seed=1, seeing=0.6, seeing_var=False, wind=[5.0, 5.0], wdir=[0.0, 0.0], nmodes=3, delay=1, gain=0.3,
                         height_src='inf', magn=5, psf=False, modal=False, dist='rand', zenith=0.0, matseed=1, obs=0.0, flat=True),
              nranks=2, ranks={'flat': 1}, policy='lowest', starved=[], sched_seed=1, delay=False)]


def gen_chain(rng):
    c = chains.gen_chain(rng)
    c["flat"] = rng.chance(0.2)
    nr = rng.randint(2, 4)
    ranks = {b: rng.randint(0, nr - 1) for b in chains.blocks(c)}
    pol = rng.weighted([('uniform', 4), ('prio', 3), ('starve', 3)])
    starved = [f'rank{rng.randint(0, nr - 1)}'] if pol == 'starve' else []
    return dict(chain=c, prec=int(rng.chance(0.3)), nranks=nr, ranks=ranks, policy=pol, starved=starved, sched_seed=rng.next(), delay=rng.chance(0.85))


def execute_chain(case, d):
    out = Outcome()
    c = case['chain']
    prec = case.get('prec', 0)
    world.reset(precision=prec)
    chains.write(c)
    try:
        ref, _, _ = chains.run()
    except Exception as e:
        sut_exception(out, e)
        out.fail('run-aborted:single', 'single-process run failed')
        return out
    chains.write(c, ranks=case['ranks'])
    world.reset(precision=prec)
    ch = make_chooser(case)
    log = []
    with chains.recorder(log):
        r = simrun.run_ranks('p.yml', case['nranks'], ch, delay=case['delay'])
    judge(out, r, ch)
    if not out.violations:
        df = chains.diff(log, ref)
        if df:
            out.fail('mpi-differs', 'MPI run against single-process run: ' + df)
    out.sim_time = c['nsteps'] * c['step']
    out.stats['probe.ao_chains'] += 1
    if case['starved']:
        out.stats['fault.stalled_rank'] += 1
    r['logs'] = sorted(log, key=lambda x: (x[0], x[1]))
    finish(out, r, ch)
    return out


def generate(rng, tier, i):
    if rng.chance(0.3):
        return gen_chain(rng)
    g = graph.gen_graph(rng, nmin=2, nmax=8, modes=('inplace', 'rebind', 'scalar', 'inplace', 'view'))
    nr = rng.randint(2, 4)
    ranks = {nd['name']: rng.randint(0, nr - 1) for nd in g['nodes']}
    if rng.chance(0.2):
        nd = rng.choice(g['nodes'])
        ranks[nd['name']] = None          # default rank
    dt = rng.choice([1000000, 500000, 1000000000])
    n = rng.randint(1, 7)
    T = n * dt if rng.chance(0.6) else (n - 1) * dt + rng.randint(1, dt)
    pol = rng.weighted([('uniform', 4), ('prio', 3), ('starve', 3)])
    starved = [f'rank{rng.randint(0, nr - 1)}'] if pol == 'starve' else []
    t0 = rng.choice([dt, 2 * dt, 5 * dt + dt // 2, 1000000000]) if rng.chance(0.2) else 0
    return dict(graph=g, nranks=nr, ranks=ranks, T=T, dt=dt, t0=t0, policy=pol, starved=starved, sched_seed=rng.next(),
                delay=rng.chance(0.85))


def make_chooser(case):
    return Chooser(Rng(case['sched_seed']), case['policy'], case.get('_trace'), starved=case['starved'])


def execute(case, d):
    if 'chain' in case:
        return execute_chain(case, d)
    out = Outcome()
    g = case['graph']
    world.reset()
    n = -(-case['T'] // case['dt'])
    t0 = case.get('t0', 0)
    ref, reffin = graph.reference(g, n, case['dt'], t0)
    ranks = {k: v for k, v in case['ranks'].items()}
    p = graph.to_params(g, case['T'] / 1e9, case['dt'] / 1e9, ranks=ranks)
    graph.write_params(p, 'p.yml')
    ch = make_chooser(case)
    with simrun.start_time(t0 / 1e9):
        r = simrun.run_ranks('p.yml', case['nranks'], ch, delay=case['delay'])
    judge(out, r, ch)
    if not out.violations:
        compare(out, 'MPI', g, [x for lg in r['logs'] for x in lg], ref, reffin)
    out.sim_time = n * case['dt'] / 1e9
    if case['starved']:
        out.stats['fault.stalled_rank'] += 1
    finish(out, r, ch)
    return out


def judge(out, r, ch):
    out.stats['runs'] += 1
    if r['errors']:
        e = r['errors'][0][1]
        sut_exception(out, e)
    elif r['status'] != 'ok':
        out.fail(r['status'], f"ranks stop: {r['detail']}")
    elif r['net'].leftovers():
        out.fail('unreceived-message', f"messages sent but never received: {r['net'].leftovers()[:4]}")


def finish(out, r, ch):
    out.stats.update(r['net'].stats)
    out.stats['probe.schedule_decisions'] += ch.points
    out.trace = ch.rec
    sent = r['net'].stats['probe.mpi_sent_object'] + r['net'].stats['probe.mpi_sent_buffer']
    out.nontrivial = sent > 0
    out.digest = digest([r['logs'], r['sched'].order])
    out.key = digest(r['sched'].order)


def reductions(c):
    if 'chain' in c:
        for ch in chains.reductions(c['chain']):
            d = copy.deepcopy(c)
            d['chain'] = ch
            have = chains.blocks(ch)
            d['ranks'] = {k: v for k, v in d['ranks'].items() if k in have}
            yield d
        for k in sorted(c['ranks']):
            if c['ranks'][k]:
                d = copy.deepcopy(c)
                d['ranks'][k] = 0
                yield d
        return
    for g in graph.graph_reductions(c['graph']):
        d = copy.deepcopy(c)
        d['graph'] = g
        d['ranks'] = {k: v for k, v in d['ranks'].items() if k in g['order']}
        yield d
    n = -(-c['T'] // c['dt'])
    for m in (1, 2, n - 1):
        if 0 < m < n:
            d = copy.deepcopy(c)
            d['T'] = c['T'] - (n - m) * c['dt']
            yield d
    if c['T'] % c['dt']:
        d = copy.deepcopy(c)
        d['T'] = n * c['dt']
        yield d
    if c['nranks'] > 2:
        d = copy.deepcopy(c)
        d['nranks'] = 2
        d['ranks'] = {k: (None if v is None else min(v, 1)) for k, v in d['ranks'].items()}
        yield d
    if c.get('t0'):
        d = copy.deepcopy(c)
        d['t0'] = 0
        yield d
    if c['delay']:
        d = copy.deepcopy(c)
        d['delay'] = False
        d.pop('_trace', None)
        yield d
