"""C13: stored runs are never lost, overwritten or corrupted silently."""
import copy
import os
import re
import shutil
from collections import Counter
import yaml
from dst.core import Outcome, SimCrash, sut_exception
from dst.clock import SimClock
from dst.prng import Rng
from dst.sched import Chooser, Sched, Deadlock, StepLimit
from dst import bench, simfs, world
from dst.run import digest

PROPERTY = 'C13'
LEVEL = 'exploration'
TECHNIQUE = 'seeded search over file-system fault plans, crash points and interleavings of concurrent runs'
TIERS = dict(quick=dict(cases=900, budget=240), thorough=dict(cases=30000, budget=780))
RULE = ('one case = a simulation with one or two data stores run on a simulated file system, either alone with a fault plan (I/O error, full disk, '
        'unwritable path, crash at a numbered operation, unrepresentable data, another block failing at the end) after earlier runs in the same '
        'directory, or two or three runs interleaved at every file operation in the same directory in the same second; oracle = the tree written '
        'by the fault-free run alone; non-trivial = a fault fired, or two runs overlapped; distinct = by case or interleaving')
COMPONENTS = dict(real=['Simul', 'LoopControl', 'DataStore', 'astropy FITS writer, pickle, yaml'],
                  stub=['file system operations under the store directory (simfs over a scratch directory)', 'sources (dst_objs)', 'wall clock'])
ASSUMPTIONS = ['a crash is a process crash: what was written before it stays (nothing in the code synchronises files)',
               'create_tn=False asks for a fixed directory: replacing the files of an earlier run there is not judged',
               'being told = the run fails, or prints a line with error/exception/warning that the fault-free run does not print']

TOLD = re.compile(r'error|exception|warning|fail|cannot|unable|denied|no space|not saved|lost', re.I)
START = 1.7e9


def generate(rng, tier, i):
    n = rng.randint(1, 10)
    c = dict(fam=rng.weighted([('fault', 6), ('kill', 3), ('race', 3)]), n=n, step=1000000, prec=rng.choice([0, 0, 1]), blocks=[], stores=[], prior=rng.choice([0, 0, 1, 2]),
             plan=None, odd=None, failfin=False, seed=rng.randint(1, 9999), nruns=rng.randint(2, 3), clocks=[rng.choice([0.0, 0.0, 0.0, -3600.0, 0.4]) for _ in range(5)],
             policy=rng.choice(['uniform', 'uniform', 'prio']), sched_seed=rng.next())
    for b in range(rng.randint(1, 3)):
        c['blocks'].append(dict(kind=rng.choice(['value', 'value', 'pixels', 'slopes', 'scalar']), size=rng.choice([2, 4, 40])))
    for s in range(rng.weighted([(1, 3), (2, 2)])):
        c['stores'].append(dict(dir=rng.choice(['a', 'a', 'b', 'x/y']), fmt=rng.choice(['fits', 'pickle']), split=rng.choice([0, 0, rng.randint(1, 4)]),
                                first=rng.choice([0, 0, 7]), fixed=c['fam'] != 'race' and rng.chance(0.1)))
    if len({s['dir'] for s in c['stores'] if s['fixed']}) < sum(s['fixed'] for s in c['stores']):
        c['stores'] = c['stores'][:1]
    if c['fam'] == 'fault':
        k = rng.weighted([('eio', 4), ('enospc', 3), ('erofs', 2), ('none', 2)])
        at = rng.random()
        if k == 'eio':
            c['plan'] = dict(kind='eio', at=at, n=rng.choice([1, 1, 1, 2, 5]))
        elif k == 'enospc':
            c['plan'] = dict(kind='enospc', room=at, until=rng.choice([None, rng.random()]))
        elif k == 'erofs':
            c['plan'] = dict(kind='erofs', match=rng.choice(['k0.', 'k1.', 'params', 'replay', 'store', '_0', '_2']))
        if k == 'none' or rng.chance(0.25):
            if rng.chance(0.7):
                c['odd'] = dict(how=rng.choice(['ragged', 'text', 'object', 'header']), since=rng.randint(0, n))
            else:
                c['failfin'] = True
    elif c['fam'] == 'kill':
        c['plan'] = dict(kind='kill', at=rng.random(), keep=rng.choice([0, 0.5, 1]))
    return c


def params(c, seed, failfin=False):
    p = {'main': bench.main(c['n'], c['step'])}
    out = {'pixels': 'out_pixels', 'slopes': 'out_slopes'}
    inputs = []
    for b, f in enumerate(c['blocks']):
        p[f'b{b}'] = {'class': 'DstScript', 'kind': f['kind'], 'shape': [4, 6] if f['kind'] == 'pixels' else [f['size']], 'seed': seed * 10 + b}
        inputs.append(f'k{b}-b{b}.{out.get(f["kind"], "out")}')
    if c['odd']:
        p['odd'] = {'class': 'DstOdd', 'how': c['odd']['how'], 'since': c['odd']['since']}
        inputs.insert(len(inputs) // 2, 'kodd-odd.out')
    if c['failfin']:
        p['failing'] = {'class': 'DstFailFin', 'fail': failfin}
    for s, st in enumerate(c['stores']):
        d = {'class': 'DataStore', 'store_dir': f'store/{st["dir"]}', 'data_format': st['fmt'], 'split_size': st['split'], 'first_suffix': st['first'],
             'inputs': {'input_list': inputs[s % 2:] or inputs}}
        if st['fixed']:
            d['create_tn'] = False
        p[f'store{s}'] = d
    return p


class Place:
    """A directory of its own for one simulated machine."""
    def __init__(self, name):
        self.path = os.path.abspath(name)
        os.makedirs(self.path, exist_ok=True)

    def __enter__(self):
        self.back = os.getcwd()
        os.chdir(self.path)
        return self

    def __exit__(self, *a):
        os.chdir(self.back)


def simulate(c, seed, plan=(), failfin=False, stats=None):
    """One run in the current directory. Returns (fs, exception or None, text)."""
    import specula.simul as S
    with open(f'p{seed}.yml', 'w') as f:
        yaml.safe_dump(params(c, seed, failfin), f, sort_keys=False)
    os.makedirs('store', exist_ok=True)
    fs = simfs.Fs('store', plan, stats)
    exc = None
    import warnings
    text = ''
    with SimClock(start=START, tail=0.0).installed(), warnings.catch_warnings(record=True) as wl:
        with world.quiet() as buf:
            warnings.simplefilter('always')
            try:
                with fs.installed():
                    S.Simul(f'p{seed}.yml', speed_report=False).run()
            except SimCrash as e:
                exc = e
            except Exception as e:
                exc = e
        text = buf.getvalue()
    return fs, exc, text


def told(text, ref_text):
    new = Counter(ln for ln in text.splitlines() if TOLD.search(ln)) - Counter(ln for ln in ref_text.splitlines() if TOLD.search(ln))
    return bool(new)


def norm(rel, data):
    if data is None:
        return None
    if rel.endswith('.yml'):
        data = data.replace(b'fail: true', b'fail: false')
        if os.path.basename(rel) == 'replay_params.yml':
            data = re.sub(rb'store_dir: .*', b'store_dir:', data)
    return data


def new_files(tree, before):
    return {k: v for k, v in tree.items() if v is not None and k not in before}


def chunk_of(rel):
    """(parent of the run directory, chunk suffix, file name): what identifies a stored file whatever the run is called."""
    d, f = os.path.split(rel)
    m = re.search(r'\d{8}_\d{6}(_-?\d+)?(\.\d+)?$', os.path.basename(d))
    if not m:
        return d, None, f
    return os.path.dirname(d), m.group(1), f


def judge_prior(out, before, after, c):
    fixed = [os.path.normpath(st['dir']) for st in c['stores'] if st['fixed']]
    for k, v in before.items():
        if os.path.dirname(k) in fixed:
            continue
        if k not in after:
            out.fail('earlier-run-deleted', f'{k}, written by an earlier run, is gone')
            return
        if after[k] != v:
            out.fail('earlier-run-overwritten', f'{k}, written by an earlier run, was changed')
            return


def execute_one(c, out):
    trees = {}
    for place in ('ref', 'run'):
        with Place(place):
            for k in range(c['prior']):
                simulate(c, c['seed'] + 1 + k)
                out.stats['runs'] += 1
            trees[place + '0'] = simfs.tree('store') if os.path.isdir('store') else {}
    with Place('ref'):
        fs, exc, rtext = simulate(c, c['seed'])
        reftree = simfs.tree('store')
    out.stats['runs'] += 2
    if exc is not None:
        sut_exception(out, exc)
        return
    judge_prior(out, trees['ref0'], reftree, c)
    ref = new_files(reftree, {} if any(st['fixed'] for st in c['stores']) else trees['ref0'])
    # the fault-free run has stored every good quantity in every chunk, or told
    reflog = fs.log
    for s, st in enumerate(c['stores']):
        al = [x.split('-')[0] for x in params(c, c['seed'])[f'store{s}']['inputs']['input_list']]
        chunks = [None] if not st['split'] else [f"_{k + st['first']}" for k in range(0, c['n'], st['split'])]
        for a in al:
            for ch in chunks:
                have = [k for k in ref if chunk_of(k) == (os.path.normpath(st['dir']) if not st['fixed'] or st['split'] else k.rsplit('/', 1)[0], ch, f"{a}.{st['fmt']}")]
                if not have and a == 'kodd' and not TOLD.search(rtext):
                    out.fail('silent-loss', f"unrepresentable data ({c['odd']['how']}): {a}.{st['fmt']} of chunk {ch} is not stored and nothing is said")
                if not have and a != 'kodd':
                    out.fail('not-stored', f"{a}.{st['fmt']} of chunk {ch} in {st['dir']} is not stored (no fault injected)" +
                             (f"; another output of the run is unrepresentable ({c['odd']['how']})" if c['odd'] else ''))
    if out.violations:
        return
    plan = []
    if c['plan']:
        p = dict(c['plan'])
        if p['kind'] in ('eio', 'kill'):
            p['at'] = int(p['at'] * fs.ops)
        elif p['kind'] == 'enospc':
            p['room'] = int(p['room'] * (fs.bytes + 512 * sum(x[1] in ('open', 'mkdir') for x in fs.log)))
            if p['until'] is not None:
                p['until'] = int(p['until'] * fs.ops)
        plan = [p]
    with Place('run'):
        fs, exc, text = simulate(c, c['seed'], plan, failfin=c['failfin'], stats=out.stats)
        tree = simfs.tree('store')
    crashed = fs.dead
    if exc is not None and not crashed and not isinstance(exc, Exception):
        raise exc
    judge_prior(out, trees['run0'], tree, c)
    got = new_files(tree, {} if any(st['fixed'] for st in c['stores']) else trees['run0'])
    said = exc is not None or told(text, rtext)
    if c['failfin']:
        out.stats['fault.failing_finalize'] += 1
    if c['odd']:
        out.stats['fault.unrepresentable_data'] += 1
    have = {}
    for k, v in got.items():
        have.setdefault(chunk_of(k), []).append(norm(k, v))
    hit = [f[3] for f in fs.fired]
    first_chunk_op = {}
    for k, what, path in reflog:
        first_chunk_op.setdefault(os.path.dirname(path), []).append(k)
    for k, v in ref.items():
        if norm(k, v) in have.get(chunk_of(k), []):
            continue
        d = os.path.dirname(k)
        if crashed:
            if max(first_chunk_op.get(d, [0])) < plan[0]['at'] and not any(st['fixed'] for st in c['stores']):
                out.fail('complete-chunk-lost', f'{k} was completely written before the crash at operation {plan[0]["at"]} and is missing or damaged')
                return
            continue
        if not said:
            out.fail('silent-loss', f'{k} is missing or incomplete, the run succeeded and printed nothing about it; faults: {fs.fired[:3]}')
            return
        # blamed on a fault: on the file itself, or on the directory it goes to
        if not any(h == k or chunk_of(h) == chunk_of(k) or d == h or d.startswith(h + os.sep) or chunk_of(h + '/x')[:2] == chunk_of(d + '/x')[:2] for h in hit):
            if os.path.basename(k) == 'replay_params.yml' and any(os.path.basename(h) == 'params.yml' for h in hit):
                continue
            out.fail('other-output-lost', f'{k} is missing or incomplete although no fault concerned it; faults: {fs.fired[:3]}; '
                     + (f'run ended by {type(exc).__name__}: {exc}' if exc is not None else 'run ended normally'))
            return
    out.nontrivial = bool(fs.fired or c['odd'] or c['failfin'])
    out.digest = digest([fs.fired, sorted(got), said])


def execute_race(c, out):
    import specula.simul as S
    refs = []
    seeds = [c['seed'] + 100 * r for r in range(c['nruns'])]
    for r, seed in enumerate(seeds):
        with Place(f'ref{r}'):
            _, exc, _ = simulate(c, seed)
            if exc is not None:
                sut_exception(out, exc)
                return
            refs.append(simfs.tree('store'))
    with Place('run'):
        for k in range(c['prior']):
            simulate(c, c['seed'] + 1 + k)
        os.makedirs('store', exist_ok=True)
        before = simfs.tree('store')
        ch = Chooser(Rng(c['sched_seed']), c['policy'], c.get('_trace'))
        sched = Sched(ch, max_steps=200000)
        fs = simfs.Fs('store', (), out.stats, yield_point=sched.yield_)
        for seed in seeds:
            with open(f'p{seed}.yml', 'w') as f:
                yaml.safe_dump(params(c, seed), f, sort_keys=False)
            sched.spawn(f'run{seed}', lambda seed=seed: S.Simul(f'p{seed}.yml', speed_report=False).run())
        with SimClock(start=START, script=c['clocks'], tail=0.0).installed(), world.quiet() as buf, fs.installed():
            try:
                sched.run()
            except (Deadlock, StepLimit) as e:
                out.fail('no-progress', f'concurrent runs stop: {e}')
        text = buf.getvalue()
        tree = simfs.tree('store')
    out.trace = ch.rec
    out.stats['runs'] += 2 * c['nruns']
    out.stats['fault.concurrent_run'] += c['nruns'] - 1
    for t in sched.tasks:
        if t.exc is not None:
            sut_exception(out, t.exc)
            return
    judge_prior(out, before, tree, c)
    dirs = {}
    for k, v in tree.items():
        if v is not None and k not in before:
            dirs.setdefault(os.path.dirname(k), {})[os.path.basename(k)] = norm(k, v)
    free = dict(dirs)
    for r, ref in enumerate(refs):
        rd = {}
        for k, v in ref.items():
            if v is not None:
                rd.setdefault(os.path.dirname(k), {})[os.path.basename(k)] = norm(k, v)
        for d, files in rd.items():
            m = [x for x in free if free[x] == files and chunk_of(x + '/x')[:2] == chunk_of(d + '/x')[:2]]
            if not m:
                out.fail('concurrent-run-lost', f'run {r}: no directory holds its {sorted(files)} (chunk {d}); directories of all runs: '
                         f'{ {x: sorted(f) for x, f in sorted(dirs.items())} }')
                return
            y = tree.get(m[0] + '/replay_params.yml')
            if y is not None:
                sd = yaml.safe_load(y)['data_source']['store_dir']
                if os.path.normpath(sd) != os.path.normpath(os.path.join('store', m[0])):
                    out.fail('replay-file-points-elsewhere', f'replay_params.yml in {m[0]} refers to {sd}')
                    return
            del free[m[0]]
    if free:
        out.fail('mixed-files', f'directories with files that no run writes alone: { {x: sorted(f) for x, f in free.items()} }')
    out.key = digest(sched.order)
    out.digest = digest([sorted(tree), sched.order])


def execute(case, d):
    c = case
    out = Outcome()
    world.reset(1, precision=c['prec'])
    if c['fam'] == 'race':
        execute_race(c, out)
    else:
        execute_one(c, out)
        out.key = digest({k: v for k, v in c.items() if k not in ('sched_seed', '_trace')})
    out.sim_time = c['n'] * c['step'] / 1e9 * (c['nruns'] if c['fam'] == 'race' else 1)
    for p in ('ref', 'run'):
        shutil.rmtree(os.path.join(d, p), ignore_errors=True)
    return out


def reductions(c):
    def mod(**kw):
        x = copy.deepcopy(c)
        x.update(kw)
        return x
    for k, v in (('prior', 0), ('odd', None), ('failfin', False), ('plan', None), ('prec', 0), ('nruns', 2)):
        if c[k] != v and not (k == 'plan' and c['fam'] == 'kill'):
            yield mod(**{k: v})
    if len(c['stores']) > 1:
        for s in range(len(c['stores'])):
            x = mod()
            del x['stores'][s]
            yield x
    if len(c['blocks']) > 1:
        yield mod(blocks=c['blocks'][:1])
    for n in (1, 2, c['n'] - 1):
        if 0 < n < c['n']:
            yield mod(n=n)
    for s, st in enumerate(c['stores']):
        for k, v in (('split', 0), ('first', 0), ('dir', 'a'), ('fixed', False), ('fmt', 'fits')):
            if st[k] != v:
                x = mod()
                x['stores'][s][k] = v
                yield x
    if c['plan'] and c['plan'].get('n', 1) > 1:
        yield mod(plan=dict(c['plan'], n=1))
