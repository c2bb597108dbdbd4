"""Writes MANIFEST.json from the property modules present in dst/props and the table of not-applicable properties."""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
NA = {
 'C20': 'Pure functions of their numeric inputs: no scheduling, time, I/O, randomness or multi-party behaviour for a simulator to control; deterministic simulation cannot decide them.',
 'C21': 'Parameter combination is a sequential pure function of the given files and overrides, executed before any step runs; there is no schedule, clock or fault for it to depend on.',
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    fn = os.path.join(here, 'dst', 'props', i.lower() + '.py')
    if os.path.exists(fn) and i not in NA:
        m = importlib.import_module('dst.props.' + i.lower())
        checks.append(dict(property=i, quick_cmd=f'bash check.sh {i} --tier quick', thorough_cmd=f'bash check.sh {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json',
                           technique='deterministic simulation with fault injection: ' + getattr(m, 'TECHNIQUE', 'seeded search over schedules and histories'),
                           level=m.LEVEL, level_note=getattr(m, 'NOTE', 'Seeded search over simulated runs; no exhaustive claim. ' ) + ' Assumes: ' + '; '.join(getattr(m, 'ASSUMPTIONS', []) or ['none beyond the stubs listed in the evidence'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'Not claimed yet: check under construction.')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='SPECULA_DST', enable='no hooks are needed: the checks run the shipped code through its own seams (communicator, clock, modules)', source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print([c['property'] for c in checks])
