"""mkbug.py ID PROP FILE OLD NEW NEEDS BREAKS: write seeded/ID/patch.diff (+meta.json, demo.sh) from one textual replacement.
OLD/NEW with '@path' are read from that file.  The demonstration itself (demo.py) is written by hand."""
import json, os, subprocess, sys, tempfile, shutil
ident, prop, needs, breaks = sys.argv[1:5]
edits = sys.argv[5:]
d = f'/verif/seeded/{ident}'
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix='mkbug.')
try:
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for f, old, new in zip(edits[::3], edits[1::3], edits[2::3]):
        s = open(f'{w}/r/{f}', newline='').read()
        assert s.count(old) == 1, (f, s.count(old))
        open(f'{w}/r/{f}', 'w', newline='').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
finally:
    shutil.rmtree(w, ignore_errors=True)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
with open(d + '/demo.sh', 'w') as f:
    f.write('#!/bin/bash\n# run in /repo: exit 0 when the property holds\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + '/demo.sh', 0o755)
print(diff.decode())
