"""Check runner:  python -m dst.run C01 [--tier quick|thorough] [--seed N] [--jobs J] [--cases N] [--budget S]
                  python -m dst.run C01 --replay FILE
Exit 0: held on everything explored.  Exit 1 + 'VIOLATION property=<id> replay=<path>'.  Exit 2: harness error."""
import argparse
import copy
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

_mono = time.monotonic          # captured before any simulated clock is installed
_here = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(_here)
OUT = os.environ.get('DST_OUT', VERIF)          # evidence and replay files (development runs against scratch copies)
sys.path.insert(0, VERIF)

from dst.prng import Rng, mix            # noqa: E402
from dst.core import Hang, HarnessError  # noqa: E402

CASE_WALL = 240.0


def load(prop):
    return importlib.import_module('dst.props.' + prop.lower())


def known_sigs(prop):
    res = {}
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:') and f'property={prop} ' in line:
                for tok in line.split():
                    if tok.startswith('sig='):
                        res[tok[4:]] = line
    return res


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def run_case(mod, case):
    """Run one case with a wall guard. Returns outcome dict (with 'error' on harness failure)."""
    def onalarm(sig, frame):
        raise Hang()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL)
    here = os.getcwd()
    try:
        with tempfile.TemporaryDirectory(prefix='dst_', dir=scratch_root()) as d:
            os.chdir(d)
            try:
                out = mod.execute(copy.deepcopy(case), d).as_dict()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                os.chdir(here)
    except Hang:
        out = dict(violations=[{'sig': 'no-progress', 'msg': f'the run did not end within {CASE_WALL} s of wall time '
                                '(cases take well under 1% of that)'}],
                   stats={}, key=None, nontrivial=False, sim_time=0, digest='', trace=None, hang=True)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        out = dict(violations=[], stats={}, key=None, nontrivial=False, sim_time=0, digest='', trace=None,
                   error=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return out


def scratch_root():
    r = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    return r


def gen_case(mod, base, i, tier):
    s = mix(base, mod.PROPERTY, i)
    case = mod.generate(Rng(s), tier, i)
    case['_seed'] = s
    case['_index'] = i
    return case


def with_trace(case, out):
    """Explicit case: recorded decisions become part of the case, so that it can be minimised and replayed."""
    c = copy.deepcopy(case)
    if out.get('trace') is not None:
        c['_trace'] = out['trace']
    return c


# ------------------------------------------------------------------------------------------------ worker
def worker(a):
    from dst import world
    world.boot()
    mod = load(a.property)
    t0 = _mono()
    outf = open(a.out, 'w')
    cases = [int(x) for x in a.indices.split(':')]
    start, stop, step = cases
    fixed = getattr(mod, 'FIXED', [])
    n = 0
    for i in range(start, stop, step):
        if n and _mono() - t0 > a.budget:
            break
        if i < len(fixed):
            case = copy.deepcopy(fixed[i])
            case.setdefault('_seed', mix(a.seed, a.property, 'fixed', i))
            case['_index'] = i
            case['_fixed'] = True
        else:
            case = gen_case(mod, a.seed, i, a.tier)
        tc = _mono()
        out = run_case(mod, case)
        out['wall'] = round(_mono() - tc, 4)
        out['index'] = i
        if out['violations'] or out.get('error'):
            out['case'] = with_trace(case, out)
        elif i % 97 == 0 or n == 0:
            out['sample'] = case
        out.pop('trace', None)
        outf.write(json.dumps(out, default=str) + '\n')
        outf.flush()
        n += 1
        if out.get('hang'):
            break
    outf.write(json.dumps({'end': True}) + '\n')
    outf.close()
    sys.stdout.flush()
    os._exit(0)


def run_one(a):
    """--onecase FILE: run the case in FILE, print outcome JSON (used by shrink and for fresh-process confirmation)."""
    from dst import world
    world.boot()
    mod = load(a.property)
    case = json.load(open(a.onecase))
    out = run_case(mod, case)
    with open(a.out, 'w') as f:
        json.dump(out, f, default=str)
    os._exit(0)


def do_shrink(a):
    """--shrink FILE: minimise the case in FILE for signature a.sig within a.budget seconds."""
    from dst import world
    world.boot()
    mod = load(a.property)
    case = json.load(open(a.shrink))
    t0 = _mono()
    best, tried, improved = case, 0, True

    def fails(c):
        out = run_case(mod, c)
        hit = any(v['sig'] == a.sig for v in out['violations'])
        return hit, out
    red = getattr(mod, 'reductions', None)

    def cands(c):
        if red is not None:
            yield from red(c)
        yield from generic_trace(c)
    while improved and _mono() - t0 < a.budget:
        improved = False
        for c in cands(best):
            if _mono() - t0 > a.budget:
                break
            tried += 1
            try:
                ok, out = fails(c)
            except Exception:
                continue
            if ok:
                best = c
                improved = True
                break
    ok, out = fails(best)
    with open(a.out, 'w') as f:
        json.dump(dict(case=best, tried=tried, violations=out['violations'], digest=out['digest']), f, default=str)
    os._exit(0)


def generic_trace(c):
    t = c.get('_trace')
    if not t:
        return
    n = len(t)
    for cut in (0, n // 4, n // 2, 3 * n // 4, n - 1):
        if cut < n:
            d = copy.deepcopy(c)
            d['_trace'] = t[:cut]
            yield d
    size = max(1, n // 8)
    while size >= 1:
        for s in range(0, n, size):
            if any(t[s:s + size]):
                d = copy.deepcopy(c)
                d['_trace'] = t[:s] + [0] * len(t[s:s + size]) + t[s + size:]
                yield d
        if size == 1:
            break
        size //= 2


# ------------------------------------------------------------------------------------------------ parent
def child_env(hashseed='0'):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MKL_NUM_THREADS='1', MPLBACKEND='Agg', TZ='UTC', SPECULA_DISABLE_GPU='TRUE',
             MPLCONFIGDIR=os.path.join(tempfile.gettempdir(), 'dst_mpl'), PYTHONPATH=VERIF)
    return e


def popen(argv, log, hashseed='0'):
    return subprocess.Popen([sys.executable, '-m', 'dst.run'] + argv, cwd=VERIF, env=child_env(hashseed),
                            stdout=log, stderr=subprocess.STDOUT)


def sub(prop, argv, timeout, hashseed='0'):
    """Run a child that writes JSON to --out; returns parsed JSON or None."""
    fd, path = tempfile.mkstemp(prefix='dst_out_')
    os.close(fd)
    lf = tempfile.TemporaryFile()
    p = popen([prop] + argv + ['--out', path], lf, hashseed)
    try:
        p.wait(timeout)
        txt = open(path).read()
        if txt.strip():
            return json.loads(txt)
        lf.seek(0)
        sys.stderr.write(lf.read().decode(errors='replace')[-2000:])
        return None
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None
    finally:
        os.unlink(path)


def write_tmp(obj):
    fd, path = tempfile.mkstemp(prefix='dst_case_', suffix='.json')
    with os.fdopen(fd, 'w') as f:
        json.dump(obj, f, default=str)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('DST_JOBS', str(min(8, os.cpu_count() or 1)))))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--onecase')
    ap.add_argument('--shrink')
    ap.add_argument('--sig')
    ap.add_argument('--out')
    ap.add_argument('--indices')
    ap.add_argument('--no-shrink', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if a.indices:
        return worker(a)
    if a.onecase:
        return run_one(a)
    if a.shrink:
        return do_shrink(a)
    if a.replay:
        return replay(a)
    return check(a)


def replay(a):
    d = json.load(open(a.replay))
    path = write_tmp(d['case'])
    out = sub(a.property, ['--onecase', path], CASE_WALL + 60)
    os.unlink(path)
    if out is None or out.get('error'):
        print('HARNESS ERROR', (out or {}).get('error'))
        return 2
    for v in out['violations']:
        print(f"  {v['sig']}: {v['msg']}")
    if any(v['sig'] == d['sig'] for v in out['violations']):
        same = 'identical' if out['digest'] == d.get('digest') else 'different'
        print(f'replayed: violation reproduced, {same} execution digest')
        print(f'VIOLATION property={a.property} replay={a.replay}')
        return 1
    print('replayed: no violation')
    return 0


def check(a):
    t0 = _mono()
    prop = a.property
    mod = load(prop)
    tier = mod.TIERS[a.tier]
    cases = a.cases or tier['cases']
    budget = a.budget or tier.get('budget', 300)
    fixed = getattr(mod, 'FIXED', [])
    cases = max(cases, len(fixed))
    jobs = max(1, min(a.jobs, cases))
    outs, procs = [], []
    tmp = tempfile.mkdtemp(prefix='dst_run_')
    for w in range(jobs):
        path = os.path.join(tmp, f'w{w}.jsonl')
        log = open(os.path.join(tmp, f'w{w}.log'), 'w')
        procs.append((popen([prop, '--tier', a.tier, '--seed', str(a.seed), '--out', path,
                             '--indices', f'{w}:{cases}:{jobs}', '--budget', str(budget)], log), path, log))
    deadline = _mono() + budget + CASE_WALL + 120
    errors = []
    for p, path, log in procs:
        try:
            p.wait(max(1, deadline - _mono()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append(f'worker did not end by its deadline ({path})')
        log.close()
        ended = False
        if os.path.exists(path):
            for line in open(path):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get('end'):
                    ended = True
                else:
                    outs.append(d)
        if not ended:
            errors.append('worker ended early: ' + open(log.name).read()[-1500:])
    outs.sort(key=lambda d: d['index'])
    herr = [d for d in outs if d.get('error')]
    known = known_sigs(prop)
    seen_known, viol = {}, {}
    for d in outs:
        for v in d['violations']:
            if v['sig'] in known:
                seen_known.setdefault(v['sig'], v)
                continue
            viol.setdefault(v['sig'], []).append((d, v))
    # ---- determinism self-check: a few cases again, in a fresh process with another hash seed
    det = dict(checked=0, mismatches=0)
    done = [d for d in outs if not d.get('error') and not d['violations'] and d['digest']]
    for d in done[:: max(1, len(done) // 3)][:3]:
        case = (copy.deepcopy(fixed[d['index']]) if d['index'] < len(fixed) else gen_case(mod, a.seed, d['index'], a.tier))
        if d['index'] < len(fixed):
            case.setdefault('_seed', mix(a.seed, prop, 'fixed', d['index']))
        path = write_tmp(case)
        o = sub(prop, ['--onecase', path], CASE_WALL + 60, hashseed=str(100 + d['index']))
        os.unlink(path)
        if o and not o.get('error'):
            det['checked'] += 1
            det['mismatches'] += int(o['digest'] != d['digest'])
    # ---- minimise and report
    rc = 0
    reported = []
    rdir = os.path.join(OUT, 'replays')
    for sig, lst in list(viol.items())[:3]:
        lst.sort(key=lambda x: (len(json.dumps(x[0].get('case', {}), default=str)), x[0]['index']))
        d, v = lst[0]
        case = d['case']
        final, msg, dig, tried = case, v['msg'], d['digest'], 0
        if not a.no_shrink and not d.get('hang'):
            path = write_tmp(case)
            r = sub(prop, ['--shrink', path, '--sig', sig, '--budget', '45'], CASE_WALL + 120)
            os.unlink(path)
            if r and any(x['sig'] == sig for x in r['violations']):
                final, tried, dig = r['case'], r['tried'], r['digest']
                msg = [x['msg'] for x in r['violations'] if x['sig'] == sig][0]
        path = write_tmp(final)
        o = sub(prop, ['--onecase', path], CASE_WALL + 120)
        os.unlink(path)
        repro = bool(o and any(x['sig'] == sig for x in o['violations']))
        if not repro and final is not case:
            final = case
            path = write_tmp(final)
            o = sub(prop, ['--onecase', path], CASE_WALL + 120)
            os.unlink(path)
            repro = bool(o and any(x['sig'] == sig for x in o['violations']))
        if repro:
            msg = [x['msg'] for x in o['violations'] if x['sig'] == sig][0]
            dig = o['digest']
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f'{prop}-{digest([sig, final])}.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, sig=sig, message=msg, seed=final.get('_seed'), digest=dig,
                           reproduced_in_fresh_process=repro, shrink_candidates_tried=tried,
                           original_index=d['index'], occurrences=len(lst), case=final), f, indent=1, default=str)
        print(f'{sig}: {msg}')
        print(f'VIOLATION property={prop} replay={rp}')
        if not repro:
            print('note: the violation did not reproduce in a fresh process (nondeterminism in the code under test)')
        reported.append(dict(sig=sig, replay=rp, count=len(lst)))
        rc = 1
    for sig, line in known.items():
        if sig in seen_known:
            desc = line.split(' sig=' + sig, 1)[1].strip()
            print(f'KNOWN-FINDING: property={prop} {sig} {desc}')
    if rc == 0 and (errors or herr or not outs):
        rc = 2
        for e in errors[:3]:
            print('HARNESS ERROR', e)
        for d in herr[:3]:
            print('HARNESS ERROR in case', d['index'], d['error'])
            path = write_tmp(d['case'])
            print('  case kept in', path)
    # ---- evidence
    wall = _mono() - t0
    stats = Counter()
    for d in outs:
        stats.update(d['stats'])
    keys = {d['key'] for d in outs if d['nontrivial'] and d['key'] and not d.get('error')}
    samples = [d['sample'] for d in outs if d.get('sample')][:3]
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault.')}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('probe.')}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith(('fault.', 'probe.'))}
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level=mod.LEVEL,
              coverage=dict(evaluations=len(outs), distinct_nontrivial=len(keys), rule=mod.RULE,
                            samples=samples or [d.get('case') for d in outs[:1]],
                            simulated_runs=int(stats.get('runs', 0)), seeds=len(outs),
                            runs_per_hour=round(stats.get('runs', 0) / wall * 3600) if wall else 0,
                            seeds_per_hour=round(len(outs) / wall * 3600) if wall else 0,
                            simulated_seconds=round(sum(d['sim_time'] for d in outs), 6),
                            fault_free_cases=sum(1 for d in outs if not any(k.startswith('fault.') for k in d['stats'])),
                            faults_fired=faults, probes=probes, counters=other,
                            determinism_selfcheck=det, components=mod.COMPONENTS,
                            cases_requested=cases, known_findings_seen=sorted(seen_known),
                            harness_errors=len(herr)),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2),
              violations=sum(len(x) for x in viol.values()))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    print(f'{prop} {a.tier}: {len(outs)}/{cases} cases, {len(keys)} distinct, {int(stats.get("runs", 0))} simulated runs, '
          f'{len(herr)} harness errors, {sum(len(x) for x in viol.values())} violations, {wall:.1f} s')
    return rc


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc or 0)
