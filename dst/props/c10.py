"""C10: every display request is answered completely, in order, to its requester."""
import base64
import copy
import json
import numpy as np
from dst.core import Outcome, sut_exception
from dst.prng import Rng
from dst.sched import Chooser, Deadlock, StepLimit
from dst import bench, simq, simweb, world
from dst.run import digest

PROPERTY = 'C10'
LEVEL = 'exploration'
TIERS = dict(quick=dict(cases=500, budget=220), thorough=dict(cases=20000, budget=780))
RULE = ('one case = a real simulation with the display server (image or data mode, created by the main options or as a block), its server '
        'process with its threads, the queue feeders and one to four clients, all tasks of the seeded scheduler over simulated queues, '
        'pipes and wall clock; clients wait for replies, pipeline requests, disconnect, break, ask for the parameters or send nonsense, objects cannot be copied, '
        'serialised or plotted, the simulation stalls for minutes, the frontend comes and goes; oracle = per client the sequence of '
        'replies (items in request order, one marker each) and the recorded state of every object after every step: one step must explain '
        'all items of a reply; every request is answered within two steps and a bounded number of scheduling decisions once clients stop; '
        'non-trivial = at least two replies; distinct = by interleaving')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'DisplayServer', 'start_server', 'FlaskServer (both modes) and its two threads', 'event handlers'],
                  stub=['multiprocessing, threading, queue, time (dst/simq.py)', 'socket.io server, clients, frontend and plotter (dst/simweb.py)'])
ASSUMPTIONS = ['objects that do not exist or cannot be shown may be answered by an empty or error item or by none']
STEP = 1000000
DRAIN = 20000


def generate(rng, tier, i):
    n = rng.randint(5, 14)
    pace = rng.choice([1, 5, 20, 60])
    mode = rng.choice(['image', 'data'])
    c = dict(n=n, mode=mode, pace=pace, block=mode == 'data' or rng.chance(0.3), order=rng.next(), sched_seed=rng.next(),
             policy=rng.choice(['uniform', 'uniform', 'prio', 'starve']), starve=rng.choice(['process-0', 'thread-0', 'thread-1', 'client0', 'sim']),
             frontend=rng.choice(['absent', 'ok', 'flaky']), blocks=[], clients=[],
             stalls=[rng.choice([0.5, 2.0, 90.0]) if rng.chance(rng.choice([0.05, 0.2])) else 0 for _ in range(n)], plot_fail=rng.chance(0.3))
    nb = rng.randint(2, 4)
    for b in range(nb):
        c['blocks'].append(dict(kind=rng.choice(['value', 'scalar', 'pixels', 'slopes', 'value', 'unset', 'light']), seed=rng.randint(1, 10**6), big=rng.chance(0.1),
                                sched=[int(rng.chance(rng.choice([1.0, 0.6]))) for _ in range(n)]))
    c['bad'] = rng.choice([None, None, 'pickle', 'copy', 'display', 'lambda'])
    names = object_names(c)
    for k in range(rng.weighted([(1, 3), (2, 3), (3, 2), (4, 1)])):
        cl = dict(kind=rng.weighted([('polite', 5), ('pipeline', 3), ('leaves', 2), ('broken', 1), ('rogue', 2)]), lead=rng.choice([0, 0, 5, 40]),
                  gap=rng.choice([0, 0, 3, 15]), reqs=[])
        for _ in range(rng.randint(1, 6)):
            q = [rng.choice(names) for _ in range(rng.randint(0, 5))]
            if rng.chance(0.3):
                q.insert(rng.randint(0, len(q)), rng.choice(['nosuch.out', 'b0.nosuch', 'nosuch', 'a.b.c', '', 'b0.in_nosuch']))
            if cl['kind'] == 'rogue' and rng.chance(0.6):
                q = rng.choice([None, 5, 'abc', {}, [None], [5, ['x']], [{}], {'b0.out': 1}, True])
            cl['reqs'].append(q)
        cl['extras'] = [rng.choice([None, None, None, 'get_params', 'get_params', 'unsubscribe', 'set_client_type']) for _ in cl['reqs']]
        c['clients'].append(cl)
    return c


OUT = dict(value='out', scalar='out', unset='out', pixels='out_pixels', slopes='out_slopes', light='out_i')


def object_names(c):
    ns = [f"b{b}.{OUT[f['kind']]}" for b, f in enumerate(c['blocks'])] + ['f.out_comm', 'f.delta_comm', 'lst.input']
    if c['bad']:
        ns.append('bad.out')
    return ns


def params(c):
    p = {'main': bench.main(c['n'], STEP)}
    if not c['block']:
        p['main']['display_server'] = True
    else:
        p['disp'] = {'class': 'DisplayServer', 'mode': c['mode']}
    for b, f in enumerate(c['blocks']):
        p[f'b{b}'] = {'class': 'DstScript', 'kind': f['kind'], 'shape': [90, 90] if f['big'] else [4, 6] if f['kind'] in ('pixels', 'light') else [4],
                      'seed': f['seed'], 'schedule': f['sched'], 'lo': 0.0, 'hi': 1.0}
        if f['kind'] in ('value', 'unset') and f['big']:
            p[f'b{b}']['shape'] = [8000]
        if f['kind'] == 'slopes':
            p[f'b{b}']['shape'] = [4]
    p['u'] = {'class': 'DstScript', 'kind': 'value', 'shape': [3], 'seed': 99}
    p['f'] = {'class': 'Integrator', 'simul_params_ref': 'main', 'int_gain': [0.5], 'n_modes': [3], 'inputs': {'delta_comm': 'u.out'}}
    p['lst'] = {'class': 'DstProbe', 'inputs': {'input': [f"b0.{OUT[c['blocks'][0]['kind']]}", 'u.out']}}
    if c['bad']:
        p['bad'] = {'class': 'DstBad', 'how': c['bad']}
    return p


def shown(o):
    """What data mode shows of an object, or None when there is nothing to show."""
    try:
        if isinstance(o, list):
            return [x for x in map(shown, o) if x is not None]
        a = o.array_for_display()
        return None if a is None else np.asarray(a, dtype=float).tolist()
    except Exception:
        return None


def execute(case, d):
    out = Outcome()
    c = case
    world.reset(1)
    from dst_objs import registry
    registry.reset()
    ch = Chooser(Rng(c['sched_seed']), c['policy'], c.get('_trace'), starved=[c['starve']])
    env = simq.Env(ch, max_steps=120000, max_ticks=10**9)
    web = simweb.Web(env)
    simweb.FakePlotter.fail = {'f.out_comm'} if c['plot_fail'] else set()
    import specula.lib.display_server_api as api
    import specula.processing_objects.display_server as DS
    names = object_names(c)
    n = c['n']
    hist = []                     # per step: name -> fingerprint / shown value
    state = dict(stop=False, step=-1, sim=None)
    sessions = []

    def refs(loop):
        objs = {e.name: e for i in loop.trigger_lists for e in loop.trigger_lists[i]}
        res = {}
        for nm in names:
            o, k = nm.split('.')
            res[nm] = objs[o].outputs[k] if k in objs[o].outputs else objs[o].local_inputs[k]
        return res

    def client(k, cl):
        sid = f'sid{k}'
        s = dict(sid=sid, kind=cl['kind'], sent=[], left=False, params=0)
        sessions.append(s)

        def wait(cond):
            env.wait(lambda: cond() or state['stop'], why='client')

        def dones():
            return sum(1 for e, _ in web.inbox[sid] if e == 'done')

        def body():
            web.inbox[sid] = []
            wait(lambda: web.serving)
            if state['stop'] or not web.serving:
                return
            for _ in range(cl['lead']):
                env.yield_()
            web.alive.add(sid)
            if cl['kind'] == 'broken':
                web.broken.add(sid)
            s['params'] += 1
            web.call(sid, 'connect')
            for j, q in enumerate(cl['reqs']):
                for _ in range(cl['gap']):
                    env.yield_()
                if state['stop']:
                    break
                s['sent'].append((q, state['step']))
                web.call(sid, 'newdata', q)
                x = (cl.get('extras') or [None] * (j + 1))[j]
                if x in web.on_:
                    env.stats['fault.other_event'] += 1
                    s['params'] += x == 'get_params'
                    web.call(sid, x, *dict(get_params=[], unsubscribe=[{'output': q[0] if isinstance(q, list) and q else 'b0.out'}],
                                           set_client_type=[{'type': 'web'}])[x])
                if cl['kind'] == 'polite':
                    wait(lambda: dones() >= len(s['sent']))
            if cl['kind'] == 'leaves':
                env.stats['fault.client_left'] += 1
                s['left'] = True
                web.alive.discard(sid)
                web.call(sid, 'disconnect')
            s['finished'] = True
        return body

    def outstanding():
        return [s['sid'] for s in sessions if s['kind'] in ('polite', 'pipeline') and
                len(s['sent']) > sum(1 for e, _ in web.inbox.get(s['sid'], []) if e == 'done')]

    def settle(cond, what):
        """Fair scheduling until cond; bounded progress."""
        ch.policy = 'uniform'
        start = env.sched.steps
        env.wait(lambda: cond() or env.sched.steps - start > DRAIN, why=what)
        if not cond():
            out.fail('not-served', f'{what}: not done after {DRAIN} scheduling decisions; waiting: {outstanding()}; server exits {env.exits}')

    def before(loop, t):
        k = t // STEP
        if k == 0:
            for j, cl in enumerate(c['clients']):
                env.sched.spawn(f'client{j}', client(j, cl), daemon=True)
        if c['stalls'][k]:
            env.stats['fault.simulation_stalled'] += 1
            env.sleep(c['stalls'][k])
        for _ in range(c['pace']):
            env.yield_()
        if k == n - 2:
            # clients stop asking; all requests made have reached the simulation
            state['stop'] = True
            settle(lambda: not env.queues[0].buf and all(x.cond is not None or x.done for x in env.sched.tasks if x.name.startswith('client')), 'requests on their way')
        if k == n - 1:
            settle(lambda: not outstanding(), 'replies on their way')
        state['step'] = k

    def after(loop, t):
        r = refs(loop)
        hist.append({nm: dict(fp=simweb.fingerprint(o), shown=shown(o)) for nm, o in r.items()})

    def main():
        bench.run(params(c), only=(), order=Rng(c['order']), before=before, after=after)
        out.stats['probe.leftover_blockers'] += len(env.exit_blockers())
        for b in env.exit_blockers():
            out.fail('exit-blocked', 'the program cannot exit: ' + b)
    err = None
    with simq.installed(env, threads=(api, DS)), simweb.installed(env, web, c['frontend']):
        try:
            env.run(main)
        except (Deadlock, StepLimit) as e:
            out.fail('stalled', f'no progress: {e}')
        except Exception as e:
            err = e
    out.trace = ch.rec
    out.stats.update(env.stats)
    out.stats['runs'] += 1
    out.key = digest(env.sched.order)
    out.sim_time = len(hist) * STEP / 1e9
    if err is not None:
        sut_exception(out, err)
        return out
    if env.exits and not out.violations:
        out.fail('server-exited', 'the display server stopped while the simulation was running')
    if web.stray:
        out.fail('stray', f'sent to nobody: {web.stray[:3]}')
    replies = 0
    bad = {'bad.out'} if c['bad'] else set()
    if c['plot_fail'] and c['mode'] == 'image':
        bad.add('f.out_comm')
    for s in sessions:
        if s['kind'] in ('rogue', 'broken') or out.violations:
            continue
        evs = web.inbox.get(s['sid'], [])
        cur, parts = [], []
        for e, data in evs:
            if e in ('plot', 'data_update'):
                cur.append(data)
            elif e == 'done':
                parts.append(cur)
                cur = []
            elif e not in ('params', 'speed_report'):
                out.fail('unexpected', f'event {e} sent to {s["sid"]}')
        ps = [data for e, data in evs if e == 'params']
        if len(ps) != s['params'] and not s['left']:
            out.fail('params', f'{s["sid"]} asked for the parameters {s["params"]} times (connection included) and got them {len(ps)} times')
        for x in ps:
            miss = [k for k, v in params(c).items() if 'inputs' in v and (k not in x or x[k]['inputs'] != v['inputs'])]
            if miss:
                out.fail('params', f'the parameters sent to {s["sid"]} lack {miss}')
        if len(parts) > len(s['sent']):
            out.fail('replies', f'{s["sid"]} made {len(s["sent"])} requests and got {len(parts)} end markers')
            continue
        if cur and not s['left']:
            out.fail('after-marker', f'{s["sid"]} got items after the last end marker: {[x["name"] for x in cur]}')
        for (q, at), items in zip(s['sent'], parts):
            replies += 1
            got = [x['name'] for x in items]
            must = [x for x in q if x in names and x not in bad]
            may = [x for x in q if not (x in names and x not in bad)]
            rest, j = list(got), 0
            ok = [x for x in got if x in must] == must and all(got.count(x) <= q.count(x) for x in got)
            if not ok:
                out.fail('items', f'{s["sid"]} asked for {q} and got {got}')
                break
            cand = set(range(max(at - 1, 0), len(hist)))      # at: the step in progress
            why = []
            for x in items:
                nm = x['name']
                if nm not in names or nm in bad:
                    continue
                if c['mode'] == 'image':
                    fp = json.loads(base64.b64decode(x['imgdata']))
                    m = {k for k in range(len(hist)) if hist[k][nm]['fp'] == fp}
                else:
                    v = x['data']
                    if nm == 'lst.input':
                        if v['type'] != 'multi_data':
                            continue
                        m = {k for k in range(len(hist)) if hist[k][nm]['shown'] == [np.asarray(x, dtype=float).tolist() for x in v['data']]}
                        cand &= m
                        why.append(f'{nm}: steps {sorted(m)}')
                        continue
                    m = {k for k in range(len(hist)) if hist[k][nm]['shown'] == (None if v['data'] is None else np.asarray(v['data'], dtype=float).tolist())}
                cand &= m
                why.append(f'{nm}: steps {sorted(m)}')
            if not cand:
                out.fail('step', f'{s["sid"]}, request {q} made at step {at}: no single step explains the items ({"; ".join(why)})')
                break
    out.nontrivial = replies >= 2
    out.stats['probe.replies'] += replies
    out.digest = digest([env.sched.order, hist[-1] if hist else None, {k: [e for e, _ in v] for k, v in web.inbox.items()}])
    return out


def reductions(c):
    for k in range(len(c['clients'])):
        if len(c['clients']) > 1:
            d = copy.deepcopy(c)
            del d['clients'][k]
            d.pop('_trace', None)
            yield d
    for k, cl in enumerate(c['clients']):
        for m in range(len(cl['reqs'])):
            d = copy.deepcopy(c)
            del d['clients'][k]['reqs'][m]
            if d['clients'][k].get('extras'):
                del d['clients'][k]['extras'][m]
            d.pop('_trace', None)
            yield d
        for a, v in (('gap', 0), ('lead', 0), ('kind', 'polite'), ('extras', None)):
            if cl.get(a) != v:
                d = copy.deepcopy(c)
                d['clients'][k][a] = v
                d.pop('_trace', None)
                yield d
    for a, v in (('stalls', [0] * c['n']), ('plot_fail', False), ('bad', None), ('frontend', 'absent'), ('policy', 'lowest')):
        if c[a] != v:
            d = copy.deepcopy(c)
            d[a] = v
            d.pop('_trace', None)
            yield d
    if c['n'] > 5:
        d = copy.deepcopy(c)
        d['n'] = 5
        d.pop('_trace', None)
        yield d
