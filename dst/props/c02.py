"""C02: exact time axis, independent of the wall clock, speed reports and stepping."""
import builtins
import copy
from dst.core import Outcome, sut_exception
from dst.prng import Rng
from dst import graph, simrun, world
from dst.clock import SimClock
from dst.run import digest

PROPERTY = 'C02'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=2400, budget=200), thorough=dict(cases=60000, budget=780))
RULE = ('one case = one (duration, step, start) triple in integer ns and one wall-clock script; run by the real Simul / '
        'LoopControl with speed report off and on, with stepping answers, and repeated; oracle = integer arithmetic; '
        'non-trivial = at least one step; distinct = by (duration, step, start, clock kind, mode)')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'BaseTimeObj', 'BaseProcessingObj'],
                  stub=['wall clock (scripted)', 'terminal input() (scripted)', 'user blocks of dst_objs/'])
ASSUMPTIONS = ['durations and steps below 2**50 ns, where a float second count identifies the ns exactly']

CLOCKS = ['normal', 'frozen', 'coarse', 'backwards', 'jumps', 'slow']


def gen_ns(rng):
    kind = rng.choice(['ms', 'us', 'ns', 'free', 'sec', 'hz'])
    if kind == 'ms':
        return rng.randint(1, 50) * 1000000
    if kind == 'us':
        return rng.randint(1, 99999) * 1000
    if kind == 'ns':
        return rng.randint(1, 5000)
    if kind == 'sec':
        return rng.randint(1, 1000) * 10 ** 9
    if kind == 'hz':
        return round(1e9 / rng.randint(1, 5000))
    return rng.randint(1, 4 * 10 ** 9)


def generate(rng, tier, i):
    dt = gen_ns(rng)
    n = rng.randint(1, 34)
    T = n * dt if rng.chance(0.5) else rng.randint(max(1, (n - 1) * dt + 1), n * dt)
    mode = rng.weighted([('simul', 3), ('loop', 2), ('stepping', 2), ('infinite', 0.5)])
    t0 = 0
    if mode in ('loop', 'infinite'):
        t0 = rng.choice([0, dt, gen_ns(rng), -gen_ns(rng) if rng.chance(0.3) else gen_ns(rng)])
    clock = rng.choice(CLOCKS)
    script = []
    if clock == 'coarse':
        script = [rng.choice([0, 0, 0, 0.0155]) for _ in range(40)]
    elif clock == 'backwards':
        script = [rng.choice([0.001, -0.5, -3600]) for _ in range(40)]
    elif clock == 'jumps':
        script = [rng.choice([0.001, 86400.0 * 365, -86400.0, 0.0]) for _ in range(40)]
    tail = {'normal': 0.001, 'frozen': 0.0, 'coarse': 0.0, 'backwards': -0.01, 'jumps': 0.0, 'slow': 30.0}[clock]
    answers = [rng.choice(['', '', '1', '2', '5', 'abc', '-3', '0', '1e3', ' 4 ', '7x', '99999999', 'é'])
               for _ in range(rng.randint(0, 12))]
    return dict(T=T, dt=dt, t0=t0, mode=mode, clock=clock, script=script, tail=tail, answers=answers,
                speed=rng.chance(0.6), chain=rng.randint(0, 2), twice=rng.chance(0.3))


def expected(case):
    t0, T, dt = case['t0'], case['T'], case['dt']
    n = -(-T // dt)
    return [t0 + k * dt for k in range(n)]


def check_log(out, tag, log, names, exp):
    for nm in names:
        ticks = [(t, p) for t, name, kind, p in log if name == nm and kind == 'tick']
        got = [t for t, _ in ticks]
        if got != exp:
            k = next((i for i in range(max(len(got), len(exp))) if got[i:i + 1] != exp[i:i + 1]), 0)
            sig = 'step-count' if got[:min(len(got), len(exp))] == exp[:min(len(got), len(exp))] else 'step-time'
            out.fail(sig, f'[{tag}] block {nm}: {len(got)} steps instead of {len(exp)}; step {k}: {got[k:k+2]} instead of {exp[k:k+2]} ns')
            return
        for t, (cur, sec) in ticks:
            if cur != t or abs(sec - t / 1e9) > 1e-15 * max(1, abs(t / 1e9)) * 4:
                out.fail('block-time', f'[{tag}] block {nm} at t={t} ns sees current time {cur} ns, {sec!r} s')
                return


class Stop(Exception):
    pass


def execute(case, d):
    out = Outcome()
    world.reset()
    from dst_objs import registry
    exp = expected(case)
    dt, T, t0 = case['dt'] / 1e9, case['T'] / 1e9, case['t0'] / 1e9
    names = ['t0'] + [f't{i}' for i in range(1, case['chain'] + 1)]
    clock = SimClock(script=case['script'], tail=case['tail'])
    answers = list(case['answers'])
    asked = [0]

    def fake_input(prompt=''):
        asked[0] += 1
        if asked[0] > 100000:
            raise RuntimeError('stepping prompt repeated without progress')
        return answers.pop(0) if answers else ''
    logs = []
    real_input = builtins.input
    builtins.input = fake_input
    try:
        with clock.installed():
            if case['mode'] in ('simul', 'stepping'):
                p = {'main': {'class': 'SimulParams', 'root_dir': '.', 'total_time': T, 'time_step': dt, 'add_modules': ['dst_objs']}}
                for i, nm in enumerate(names):
                    p[nm] = {'class': 'DstTick', 'chained': i > 0}
                    if i:
                        p[nm]['inputs'] = {'input': names[i - 1] + '.out'}
                graph.write_params(p, 'p.yml')
                for rep in range(2 if case['twice'] else 1):
                    sim, log, _ = simrun.run_simul('p.yml', speed_report=case['speed'], stepping=case['mode'] == 'stepping')
                    logs.append(log)
                    out.stats['runs'] += 1
                    check_log(out, case['mode'], log, names, exp)
            else:
                from specula.loop_control import LoopControl
                from dst_objs.dst_tick import DstTick
                registry.reset()
                loop = LoopControl()
                objs = []
                for i, nm in enumerate(names):
                    o = DstTick(chained=i > 0)
                    o.name = nm
                    if i:
                        o.inputs['input'].set(objs[-1].outputs['out'])
                    objs.append(o)
                    loop.add(o, i)
                with world.quiet():
                    for rep in range(2 if case['twice'] else 1):
                        registry.LOG.clear()
                        if case['mode'] == 'infinite':
                            # after the last expected step the user stops the run
                            def hook(o, t):
                                if o.name == 't0' and len([1 for x in registry.LOG if x[1] == 't0' and x[2] == 'tick']) > len(exp):
                                    raise Stop()
                            registry.HOOK['tick'] = hook
                            try:
                                loop.run(run_time=-1, dt=dt, t0=t0, speed_report=case['speed'])
                                out.fail('infinite-run-ended', 'a run with duration -1 ended by itself')
                            except Stop:
                                pass
                            log = [x for x in registry.LOG]
                            log = [x for x in log if not (x[1] == 't0' and x[0] is not None and x[0] > exp[-1])]
                        else:
                            loop.run(run_time=T, dt=dt, t0=t0, speed_report=case['speed'])
                            log = list(registry.LOG)
                        logs.append(log)
                        out.stats['runs'] += 1
                        check_log(out, case['mode'] + (' (second run)' if rep else ''), log, names, exp)
    except Exception as e:
        sut_exception(out, e)
    finally:
        builtins.input = real_input
    out.sim_time = len(exp) * dt * max(1, len(logs))
    if case['clock'] != 'normal':
        out.stats['fault.wall_clock_' + case['clock']] = clock.reads
    out.stats['probe.stepping_prompts'] = asked[0]
    out.stats['probe.duration_not_multiple_of_step'] = int(case['T'] % case['dt'] != 0)
    out.stats['probe.nonzero_start'] = int(case['t0'] != 0)
    out.digest = digest(logs)
    out.key = digest([case['T'], case['dt'], case['t0'], case['clock'], case['mode']])
    out.nontrivial = len(exp) > 0
    return out


def reductions(c):
    n = -(-c['T'] // c['dt'])
    for k, v in (('clock', 'normal'), ('speed', False), ('chain', 0), ('twice', False), ('answers', []), ('t0', 0)):
        if c[k] != v:
            d = copy.deepcopy(c)
            d[k] = v
            if k == 'clock':
                d['script'], d['tail'] = [], 0.001
            yield d
    if c['script']:
        d = copy.deepcopy(c)
        d['script'] = []
        yield d
    for m in (1, 2, n // 2, n - 1):
        if 0 < m < n:
            d = copy.deepcopy(c)
            d['T'] = c['T'] - (n - m) * c['dt']
            yield d
