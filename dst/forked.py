"""Runs a function in a fork of this process: process-wide caches of the code under test start pristine every time and die with the child."""
import os
import pickle
import signal
import traceback


class ChildError(Exception):
    pass


def call(fn, *args, **kw):
    """(True, result) or (False, (exception type name, text, 'file:function' in the code under test or None))."""
    from dst.core import sut_frame
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                res = (True, fn(*args, **kw))
            except Exception as e:
                where = sut_frame(e)
                if where is None:
                    res = (None, ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
                else:
                    res = (False, (type(e).__name__, str(e)[:400], where))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f, protocol=4)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise ChildError('the forked simulation died without a result')
    ok, res = pickle.loads(data)
    if ok is None:
        raise ChildError('in the forked simulation: ' + res)
    return ok, res
