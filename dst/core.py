"""Shared types: outcomes, violations, exception classification."""
import os
import traceback
from collections import Counter

REPO = os.environ.get('DST_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    """A fault of the harness, never of the code under test."""


class SimCrash(BaseException):
    """Simulated process crash: unwinds everything."""


class TaskKilled(BaseException):
    """Raised inside a simulated task to unwind it at the end of a run."""


class Hang(BaseException):
    """The wall-clock guard of one case expired."""


class Outcome:
    def __init__(self):
        self.violations = []          # list of {'sig','msg'}
        self.stats = Counter()        # fault.*, probe.*, steps ...
        self.key = None               # behavioural key, for the distinct count
        self.nontrivial = True
        self.sim_time = 0.0           # simulated seconds covered
        self.digest = ''
        self.trace = None             # recorded scheduler decisions

    def fail(self, sig, msg):
        self.violations.append({'sig': sig, 'msg': str(msg)[:1500]})

    def as_dict(self):
        return dict(violations=self.violations, stats=dict(self.stats), key=self.key,
                    nontrivial=bool(self.nontrivial), sim_time=self.sim_time, digest=self.digest,
                    trace=self.trace)


STUBS = ('simmpi.py', 'clock.py', 'simfs.py', 'simq.py', 'sched.py', 'simgui.py', 'simweb.py', 'dst_bad.py', 'dst_odd.py')     # simulated environment: raises like the real one


def sut_frame(exc):
    """Return 'file:function' of the innermost frame that belongs to the code under test, if that frame is
    inside the last harness frame (i.e. the code under test raised), else None."""
    pkg = os.path.join(REPO, 'specula') + os.sep
    ver = os.path.join(VERIF, '')
    for fr, _ in reversed(list(traceback.walk_tb(exc.__traceback__))):
        fn = fr.f_code.co_filename
        if fn.startswith(pkg):
            return os.path.relpath(fn, REPO) + ':' + fr.f_code.co_name
        if fn.startswith(ver) and os.path.basename(fn) not in STUBS:
            return None
    return None


def sut_exception(out, exc, prefix='run-aborted'):
    """Record an exception raised by the code under test as a violation; re-raise anything else."""
    where = sut_frame(exc)
    if where is None:
        raise exc
    out.fail(f'{prefix}:{type(exc).__name__}', f'{type(exc).__name__}: {exc} raised in {where}')
