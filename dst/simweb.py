"""Stand-ins for the web layer of the display server: socket.io server and clients, the frontend connection, the plotter."""
import contextlib
import json
import hashlib
import numpy as np
from dst.core import TaskKilled


def fingerprint(o):
    """Content of a data object (or list of them): time and value."""
    if isinstance(o, list):
        return [fingerprint(x) for x in o]
    try:
        v = o.get_value()
    except NotImplementedError:
        v = None
    if v is None:
        return [int(o.generation_time), 'None']
    v = np.asarray(v)
    return [int(o.generation_time), hashlib.sha256(str((v.shape, v.dtype)).encode() + np.ascontiguousarray(v).tobytes()).hexdigest()[:16]]


class Fig:
    def __init__(self, text):
        self.text = text

    def savefig(self, buf, **k):
        buf.write(self.text.encode())


class Web:
    """Fake SocketIO server with its clients."""
    def __init__(self, env):
        self.env = env
        self.on_, self.handlers, self.namespace_handlers = {}, {}, {}
        self.inbox = {}             # sid -> list of (event, data)
        self.alive = set()
        self.broken = set()         # sids to which sending fails
        self.serving = False
        self.stray = []

    def on(self, name, *a, **k):
        def deco(fn):
            self.on_[name] = fn
            return fn
        return deco

    event = on

    def emit(self, event, *args, **kw):
        self.env.yield_()
        room = kw.get('room', kw.get('to'))
        data = args[0] if args else None
        json.dumps(data, default=str)
        rooms = list(self.alive) if room is None else [room]
        for r in rooms:
            if r in self.broken:
                self.env.stats['fault.send_failed'] += 1
                raise OSError('connection lost')
            if r in self.alive:
                self.inbox[r].append((event, data))
            elif r not in self.inbox:
                self.stray.append((r, event))

    send = emit

    def run(self, *a, **k):
        self.serving = True
        self.env.wait(lambda: False, why='serving')

    def call(self, sid, name, *args):
        """A client event: the server runs its handler in a thread of its own; errors are logged by the web layer."""
        self.env.sched.current.ctx['sid'] = sid
        self.env.yield_()
        try:
            return self.on_[name](*args)
        except TaskKilled:
            raise
        except Exception as e:
            self.env.stats['probe.handler_errors'] += 1
            print(f'handler {name}: {type(e).__name__}: {e}')


class FakeRequest:
    def __init__(self, env):
        self._env = env

    @property
    def sid(self):
        return self._env.sched.current.ctx['sid']


class FakeOs:
    def __init__(self, env, real):
        self._env, self._real = env, real

    def _exit(self, code=0):
        self._env.exits.append(code)
        raise TaskKilled()

    def __getattr__(self, n):
        return getattr(self._real, n)


class FakeSocketModule:
    AF_INET, SOCK_STREAM, SOL_SOCKET, SO_REUSEADDR = 2, 1, 1, 2

    class socket:
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def bind(self, *a):
            pass

        def setsockopt(self, *a):
            pass

        def getsockname(self):
            return ('127.0.0.1', 54321)

        def close(self):
            pass


class FakeSioModule:
    """socketio: the connection to the frontend. mode: 'absent' | 'ok' | 'flaky'."""
    def __init__(self, env, real, mode):
        self.exceptions = real.exceptions
        m = self

        class Client:
            def __init__(self, *a, **k):
                self.connected, self.n = False, 0

            def connect(self, *a, **k):
                env.yield_()
                if mode == 'absent' or (mode == 'flaky' and len(m.sent) % 3 == 1):
                    env.stats['fault.frontend_refused'] += 1
                    raise real.exceptions.ConnectionError('refused')
                self.connected = True

            def emit(self, *a, **k):
                env.yield_()
                m.sent.append(a)
                if not self.connected or (mode == 'flaky' and len(m.sent) % 2):
                    self.connected = False
                    env.stats['fault.frontend_lost'] += 1
                    raise real.exceptions.BadNamespaceError('/ is not a connected namespace.')

            def disconnect(self, *a):
                self.connected = False
        self.Client = Client
        self.sent = []


class FakePlotter:
    fail = set()

    @staticmethod
    def plot_best_effort(name, obj, *a, **k):
        if name in FakePlotter.fail:
            raise RuntimeError('cannot be plotted')
        return Fig(json.dumps(fingerprint(obj)))


@contextlib.contextmanager
def installed(env, web, frontend='absent', real_plotter=False):
    import specula.lib.display_server_api as api
    rep = dict(sio=web, request=FakeRequest(env), join_room=lambda *a, **k: None, os=FakeOs(env, api.os), socket=FakeSocketModule,
               socketio=FakeSioModule(env, api.socketio, frontend), server=None)
    if not real_plotter:
        rep['DataPlotter'] = FakePlotter
    old = {k: getattr(api, k) for k in rep}
    for k, v in rep.items():
        setattr(api, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(api, k, v)
