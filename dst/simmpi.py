"""An in-process MPI communicator under the scheduler's control.

Semantics modelled: per (source, dest, tag) FIFO (non-overtaking), arbitrary finite delivery delay, buffered and
synchronous sends, barrier, matching of typed buffers (truncation, datatype and contiguity errors as mpi4py raises)."""
import pickle
from collections import OrderedDict, Counter
import numpy as np

ANY_SOURCE = -1
ANY_TAG = -1


class MPIError(RuntimeError):
    pass


class Msg:
    __slots__ = ('kind', 'data', 'dtype', 'count', 'src', 'tag', 'arrived', 'seq', 'taken')

    def __init__(self, kind, data, dtype, count, src, tag, seq):
        self.kind, self.data, self.dtype, self.count = kind, data, dtype, count
        self.src, self.tag, self.seq = src, tag, seq
        self.arrived = False
        self.taken = False


class Req:
    def __init__(self, fn=None, done=None):
        self.fn = fn
        self.done = done

    def wait(self, status=None):
        return self.fn() if self.fn else None

    Wait = wait

    def test(self, status=None):
        if self.done is None or self.done():
            return True, self.wait()
        return False, None

    def Test(self, status=None):
        return self.test()[0]


class Net:
    def __init__(self, sched, size, delay=True):
        self.sched = sched
        self.size = size
        self.delay = delay
        self.chan = OrderedDict()       # (src, dst, tag) -> list of Msg, in send order
        self.seq = 0
        self.stats = Counter()
        self.barriers = [0] * size
        self.inbox_order = {}
        self.log = []

    def comms(self):
        return [Comm(self, r) for r in range(self.size)]

    def send(self, src, dst, tag, kind, data, dtype=None, count=0):
        if not (0 <= dst < self.size):
            raise MPIError(f'MPI_ERR_RANK: invalid rank {dst}')
        if not (0 <= tag < 2 ** 31 - 1):
            raise MPIError(f'MPI_ERR_TAG: invalid tag {tag}')
        self.seq += 1
        m = Msg(kind, data, dtype, count, src, tag, self.seq)
        if not self.delay:
            m.arrived = True
        self.chan.setdefault((src, dst, tag), []).append(m)
        self.stats['probe.mpi_sent_' + kind] += 1
        return m

    def actions(self):
        """One delivery action per channel with an undelivered message (channels of a pair are independent)."""
        acts = []
        for key, q in self.chan.items():
            for m in q:
                if not m.arrived:
                    acts.append((f'deliver{key}', lambda m=m: self._arrive(m)))
                    break
        return acts

    def _arrive(self, m):
        m.arrived = True
        if any((not x.arrived) and x.seq < m.seq for q in self.chan.values() for x in q):
            self.stats['fault.mpi_delayed_past_later_message'] += 1

    def match(self, dst, src, tag):
        best = None
        for (s, d, t), q in self.chan.items():
            if d != dst or not q:
                continue
            if src not in (ANY_SOURCE, None) and s != src:
                continue
            if tag not in (ANY_TAG, None) and t != tag:
                continue
            if q[0].arrived and (best is None or q[0].seq < best[1][0].seq):
                best = ((s, d, t), q)
        return best

    def leftovers(self):
        return [(k, [m.kind for m in q]) for k, q in self.chan.items() if q]


class Comm:
    def __init__(self, net, rank):
        self.net = net
        self._rank = rank

    # mpi4py names
    rank = property(lambda self: self._rank)
    size = property(lambda self: self.net.size)

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self.net.size

    # --- object messages
    def _osend(self, obj, dest, tag=0, sync=False):
        data = pickle.dumps(obj)
        m = self.net.send(self._rank, dest, tag, 'object', data)
        self.net.sched.yield_()
        if sync:
            self.net.sched.wait(lambda: m.taken, f'synchronous send to {dest} tag {tag}')

    def send(self, obj, dest, tag=0):
        self._osend(obj, dest, tag)

    bsend = send

    def ssend(self, obj, dest, tag=0):
        self._osend(obj, dest, tag, sync=True)

    def isend(self, obj, dest, tag=0):
        self._osend(obj, dest, tag)
        return Req()

    ibsend = isend
    issend = isend

    def _orecv(self, source=ANY_SOURCE, tag=ANY_TAG):
        net = self.net
        net.sched.wait(lambda: net.match(self._rank, source, tag) is not None,
                       f'object from rank {source} tag {tag}')
        key, q = net.match(self._rank, source, tag)
        m = q.pop(0)
        m.taken = True
        if m.kind != 'object':
            raise MPIError(f'message of {m.count} x {m.dtype} received as a pickled object on tag {m.tag}')
        return pickle.loads(m.data)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._orecv(source, tag)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Req(lambda: self._orecv(source, tag),
                   lambda: self.net.match(self._rank, source, tag) is not None)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self._osend(sendobj, dest, sendtag)
        return self._orecv(source, recvtag)

    # --- buffer messages
    @staticmethod
    def _buf(b):
        if isinstance(b, (list, tuple)):
            b = b[0]
        if not isinstance(b, np.ndarray):
            if isinstance(b, (bytearray, memoryview)):
                b = np.frombuffer(b, dtype=np.uint8)
            else:
                raise TypeError(f'expecting a buffer, got {type(b)}')
        if not (b.flags.c_contiguous or b.flags.f_contiguous):
            raise ValueError('ndarray is not contiguous')
        return b

    def _bsend(self, buf, dest, tag=0, sync=False):
        b = self._buf(buf)
        m = self.net.send(self._rank, dest, tag, 'buffer', b.tobytes(order='A'), b.dtype, b.size)
        self.net.sched.yield_()
        if sync:
            self.net.sched.wait(lambda: m.taken, f'synchronous Send to {dest} tag {tag}')

    def Send(self, buf, dest, tag=0):
        self._bsend(buf, dest, tag)

    Bsend = Send

    def Ssend(self, buf, dest, tag=0):
        self._bsend(buf, dest, tag, sync=True)

    def Isend(self, buf, dest, tag=0):
        self._bsend(buf, dest, tag)
        return Req()

    Ibsend = Isend
    Issend = Isend

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        net = self.net
        b = self._buf(buf)
        if not b.flags.writeable:
            raise ValueError('buffer is read-only')
        net.sched.wait(lambda: net.match(self._rank, source, tag) is not None,
                       f'buffer from rank {source} tag {tag}')
        key, q = net.match(self._rank, source, tag)
        m = q.pop(0)
        m.taken = True
        if m.kind != 'buffer':
            raise MPIError(f'pickled object received into a typed buffer on tag {m.tag}')
        if len(m.data) > b.nbytes:
            raise MPIError('MPI_ERR_TRUNCATE: message truncated')
        if m.dtype != b.dtype:
            self.net.stats['probe.mpi_dtype_mismatch'] += 1
        flat = np.frombuffer(m.data, dtype=b.dtype)
        tgt = b.reshape(-1, order='C' if b.flags.c_contiguous else 'F')
        tgt[:flat.size] = flat

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return Req(lambda: self.Recv(buf, source, tag),
                   lambda: self.net.match(self._rank, source, tag) is not None)

    # --- collectives
    def barrier(self):
        net = self.net
        net.barriers[self._rank] += 1
        n = net.barriers[self._rank]
        net.sched.wait(lambda: all(x >= n for x in net.barriers), f'barrier {n}')

    Barrier = barrier

    def bcast(self, obj, root=0):
        tag = 2 ** 30
        if self._rank == root:
            for r in range(self.net.size):
                if r != root:
                    self._osend(obj, r, tag)
            return obj
        return self._orecv(root, tag)

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.net.sched.yield_()
        return self.net.match(self._rank, source, tag) is not None

    Iprobe = iprobe

    def __reduce__(self):
        raise TypeError('communicator cannot be pickled')
