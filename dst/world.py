"""Boots the code under test inside this process and controls its process-wide state."""
import os
import sys
import io
import random
import contextlib
from dst.core import REPO, VERIF

_NAMES = ('process_rank', 'process_comm')
_PREC_NAMES = ('global_precision', 'float_dtype', 'complex_dtype', 'float_dtype_list', 'complex_dtype_list',
               'cpu_float_dtype_list', 'cpu_complex_dtype_list', 'gpu_float_dtype_list', 'gpu_complex_dtype_list')
_booted = False


def boot():
    global _booted, np, specula
    if _booted:
        return
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ['SPECULA_DISABLE_GPU'] = 'TRUE'
    import numpy as np
    with contextlib.redirect_stdout(io.StringIO()):
        import specula
        specula.init(-1, precision=0)
    f = os.path.abspath(specula.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f'specula imported from {f}, not from {REPO}')
    import specula.simul  # noqa: F401
    import specula.processing_objects.display_server  # noqa: F401
    _booted = True


def sut_modules():
    return [m for n, m in list(sys.modules.items())
            if m is not None and (n == 'specula' or n.startswith('specula.'))]


def set_process(rank, comm):
    """What specula.init(rank=, comm=) does in a fresh process, for modules already imported."""
    for m in sut_modules():
        d = m.__dict__
        if 'process_rank' in d:
            d['process_rank'] = rank
        if 'process_comm' in d:
            d['process_comm'] = comm


def set_precision(p):
    with contextlib.redirect_stdout(io.StringIO()):
        specula.init(-1, precision=p)
    for m in sut_modules():
        for n in _PREC_NAMES:
            if n in m.__dict__ and n in specula.__dict__:
                m.__dict__[n] = specula.__dict__[n]
    set_process(None, None)


def reset(seed=12345, precision=0):
    """Known process-wide state before each case."""
    set_precision(precision)
    np.random.seed(seed & 0xffffffff)
    random.seed(seed)


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield buf
