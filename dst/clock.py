"""Scripted wall clock behind the time module (the names blocks and libraries call as time.xxx)."""
import time
import contextlib

REAL = {n: getattr(time, n) for n in ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter',
                                      'perf_counter_ns', 'process_time', 'sleep', 'strftime', 'localtime', 'gmtime')}


class SimClock:
    """now() is the scripted wall time. script: list of increments (s) consumed one per reading, then `tail`."""

    def __init__(self, start=1.7e9, script=(), tail=0.001):
        self.t = float(start)
        self.script = list(script)
        self.tail = tail
        self.reads = 0
        self.mono = 0.0

    def now(self):
        self.reads += 1
        inc = self.script.pop(0) if self.script else self.tail
        self.t += inc
        return self.t

    def advance(self, dt):
        self.t += dt

    def sleep(self, dt):
        self.t += max(dt, 0)

    @contextlib.contextmanager
    def installed(self):
        real_strftime, real_localtime, real_gmtime = REAL['strftime'], REAL['localtime'], REAL['gmtime']

        def mono():
            v = self.now()
            self.mono = max(self.mono, v)      # monotonic clocks may stall but never go back
            return self.mono

        rep = dict(time=self.now, time_ns=lambda: int(self.now() * 1e9), monotonic=mono,
                   monotonic_ns=lambda: int(mono() * 1e9), perf_counter=mono,
                   perf_counter_ns=lambda: int(mono() * 1e9), process_time=mono, sleep=self.sleep,
                   strftime=lambda fmt, t=None: real_strftime(fmt, t if t is not None else real_gmtime(self.t)),
                   localtime=lambda s=None: real_gmtime(self.t if s is None else s),
                   gmtime=lambda s=None: real_gmtime(self.t if s is None else s))
        import datetime as _dt
        for n, f in rep.items():
            setattr(time, n, f)
        try:
            yield self
        finally:
            for n, f in REAL.items():
                setattr(time, n, f)
