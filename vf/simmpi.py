"""A model of MPI inside one process.

Ranks run in threads, one at a time; a generated sequence of choices decides who goes on after every
call and when a message is delivered.  A message is copied either when it is sent (buffered mode) or at
any moment between the two posted calls (rendezvous mode), both allowed by the standard.  A receive
buffer holds NaN until its message has come.
"""
import random
import threading

ANY = -1


class Deadlock(Exception):
    pass


class Stop(BaseException):
    """Unwinds a rank after a failure elsewhere."""


class Request:
    def __init__(self, world, ready=None):
        self.world, self.done, self._ready = world, False, ready
        self.value = None

    def ready(self):
        if not self.done and self._ready is not None and self._ready():
            self.done = True
        return self.done

    def Wait(self, status=None):
        self.world.block(self.ready)
        return True

    def wait(self, status=None):
        self.Wait()
        return self.value

    def Test(self, status=None):
        self.world.step()
        return self.ready()

    test = Test

    def Free(self):
        pass

    @staticmethod
    def Waitall(requests, statuses=None):
        for r in requests:
            r.Wait()
        return True

    @staticmethod
    def waitall(requests, statuses=None):
        return [r.wait() for r in requests]

    @staticmethod
    def Waitany(requests, status=None):
        w = requests[0].world
        w.block(lambda: any(r.ready() for r in requests))
        return [i for i, r in enumerate(requests) if r.ready()][0]


def array_of(buf):
    """The numpy array behind a buffer argument."""
    if isinstance(buf, (tuple, list)):
        buf = buf[0]
    return buf


class Comm:
    def __init__(self, world, rank):
        self.world, self.rank, self.size = world, rank, world.size
        self.seq = 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    # Point to point.

    def Isend(self, buf, dest, tag=0):
        return self.world.send(self.rank, dest, tag, array_of(buf))

    def Irecv(self, buf, source=ANY, tag=ANY):
        return self.world.recv(self.rank, source, tag, array_of(buf))

    def Send(self, buf, dest, tag=0):
        self.Isend(buf, dest, tag).Wait()

    Ssend = Send

    def Recv(self, buf, source=ANY, tag=ANY, status=None):
        self.Irecv(buf, source, tag).Wait()

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        q = [self.Isend(sendbuf, dest, sendtag), self.Irecv(recvbuf, source, recvtag)]
        Request.Waitall(q)

    def isend(self, obj, dest, tag=0):
        return self.world.send(self.rank, dest, tag, None, obj)

    def irecv(self, buf=None, source=ANY, tag=ANY):
        return self.world.recv(self.rank, source, tag, None)

    def send(self, obj, dest, tag=0):
        self.isend(obj, dest, tag).wait()

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        return self.irecv(None, source, tag).wait()

    # Collectives: the k-th one of a rank meets the k-th one of every other rank.

    def _collect(self, kind, value):
        self.seq += 1
        c = self.world.collective(self.seq, kind)
        c[self.rank] = value
        self.world.trace(self.rank, kind)
        return c

    def Ibarrier(self):
        c = self._collect('barrier', None)
        self.world.step()
        return Request(self.world, lambda: len(c) == self.size)

    def Barrier(self):
        self.Ibarrier().Wait()

    barrier = Barrier

    def allgather(self, obj):
        c = self._collect('allgather', obj)
        self.world.block(lambda: len(c) == self.size)
        return [c[i] for i in range(self.size)]

    def gather(self, obj, root=0):
        c = self._collect('gather', obj)
        if self.rank != root:
            self.world.step()
            return None
        self.world.block(lambda: len(c) == self.size)
        return [c[i] for i in range(self.size)]

    def bcast(self, obj=None, root=0):
        c = self._collect('bcast', obj)
        self.world.block(lambda: root in c)
        return c[root]

    def allreduce(self, obj, op=None):
        xs = self.allgather(obj)
        return sum(xs) if op in (None, 'SUM') else max(xs) if op == 'MAX' else min(xs)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        import numpy as np
        c = self._collect('Gatherv', np.array(array_of(sendbuf), copy=True).reshape(-1))
        if self.rank != root:
            self.world.step()
            return
        self.world.block(lambda: len(c) == self.size)
        buf, counts, displs = recvbuf, None, None
        if isinstance(recvbuf, (tuple, list)):
            buf, rest = recvbuf[0], [x for x in recvbuf[1:] if not isinstance(x, str)]
            if rest and isinstance(rest[0], (tuple, list)) and len(rest[0]) == 2 \
                    and hasattr(rest[0][0], '__len__'):
                counts, displs = rest[0]
            else:
                counts = rest[0] if rest else None
                displs = rest[1] if len(rest) > 1 else None
        if counts is None:
            counts = [len(buf) // self.size] * self.size
        if displs is None:
            displs = [sum(counts[:i]) for i in range(self.size)]
        flat = buf.reshape(-1)
        for i in range(self.size):
            if len(c[i]) > counts[i]:
                raise ValueError('message truncated: {0} values for {1}'.format(len(c[i]), counts[i]))
            flat[displs[i]:displs[i] + len(c[i])] = c[i]

    def Gather(self, sendbuf, recvbuf, root=0):
        self.Gatherv(sendbuf, recvbuf, root)


class World:
    def __init__(self, size, seed, eager, on_call=None):
        self.size = size
        self.r = random.Random(seed)
        self.eager = eager                  # share of buffered messages, per cent
        self.on_call = on_call
        self.sends, self.recvs, self.colls = [], [], {}
        self.order = 0
        self.waiting = {}                   # rank -> condition, None while it may go on
        self.alive = set()
        self.turn = [threading.Semaphore(0) for _ in range(size)]
        self.back = threading.Semaphore(0)
        self.local = threading.local()
        self.failed = None
        self.late = 0                       # messages read after the sender went on

    # Called by ranks.

    def me(self):
        return self.local.rank

    def yield_(self, cond):
        rank = self.me()
        self.waiting[rank] = cond
        self.back.release()
        self.turn[rank].acquire()
        if self.failed is not None:
            raise Stop()

    def step(self):
        self.yield_(None)

    def block(self, cond):
        self.step()
        while not cond():
            self.yield_(cond)

    def trace(self, rank, kind):
        if self.on_call is not None:
            self.on_call(rank, kind)

    def collective(self, seq, kind):
        k, c = self.colls.setdefault(seq, (kind, {}))
        if k != kind:
            raise Deadlock('collective calls do not match: {0} and {1}'.format(k, kind))
        return c

    def send(self, src, dst, tag, buf, obj=None):
        if not 0 <= dst < self.size:
            raise ValueError('invalid rank {0}'.format(dst))
        q = Request(self)
        m = {'src': src, 'dst': dst, 'tag': tag, 'buf': buf, 'obj': obj, 'req': q, 'n': self.order,
             'copy': None, 'gone': False}
        self.order += 1
        if buf is not None and self.r.randrange(100) < self.eager:
            m['copy'] = buf.copy()
            q.done = True
        self.sends.append(m)
        self.trace(src, 'Isend')
        self.step()
        m['gone'] = True
        return q

    def recv(self, dst, src, tag, buf):
        q = Request(self)
        if buf is not None:
            buf[...] = float('nan') if buf.dtype.kind == 'f' else 0
        self.recvs.append({'src': src, 'dst': dst, 'tag': tag, 'buf': buf, 'req': q})
        self.trace(dst, 'Irecv')
        self.step()
        return q

    # Called by the scheduler.

    def matches(self):
        """Deliverable pairs: messages of one pair of ranks never overtake each other."""
        out, taken = [], set()
        for p in self.recvs:
            for s in self.sends:
                if id(s) in taken or s['dst'] != p['dst']:
                    continue
                if p['src'] in (ANY, s['src']) and p['tag'] in (ANY, s['tag']):
                    out.append((s, p))
                    taken.add(id(s))
                    break
        return out

    def deliver(self, s, p):
        self.sends.remove(s)
        self.recvs.remove(p)
        if p['buf'] is None or s['buf'] is None:
            p['req'].value = s['obj'] if s['buf'] is None else s['buf'].copy()
            if p['buf'] is not None:
                raise ValueError('object sent to a buffer')
        else:
            data = (s['copy'] if s['copy'] is not None else s['buf']).reshape(-1)
            dst = p['buf'].reshape(-1)
            if len(data) > len(dst):
                raise ValueError('message truncated: {0} values for {1}'.format(len(data), len(dst)))
            p['buf'].reshape(-1)[:len(data)] = data
            self.late += s['copy'] is None and s['gone']
        s['req'].done = p['req'].done = True

    def run(self, body):
        """body(rank, comm) in every rank; raises the first failure."""
        threads = []

        def main(rank):
            self.local.rank = rank
            self.turn[rank].acquire()
            try:
                if self.failed is None:
                    body(rank, Comm(self, rank))
            except Stop:
                pass
            except BaseException as e:                        # noqa: BLE001
                if self.failed is None:
                    self.failed = e
            self.alive.discard(rank)
            self.back.release()

        for k in range(self.size):
            self.alive.add(k)
            self.waiting[k] = None
            t = threading.Thread(target=main, args=(k,), daemon=True)
            threads.append(t)
            t.start()
        try:
            while self.alive and self.failed is None:
                go = [k for k in sorted(self.alive) if self.waiting[k] is None or self.waiting[k]()]
                pairs = self.matches()
                if not go and not pairs:
                    self.failed = Deadlock('deadlock: ranks {0} wait for ever'.format(sorted(self.alive)))
                    break
                x = self.r.randrange(len(go) + len(pairs))
                if x < len(go):
                    k = go[x]
                    self.waiting[k] = None
                    self.turn[k].release()
                    self.back.acquire()
                else:
                    self.deliver(*pairs[x - len(go)])
        except BaseException as e:                            # noqa: BLE001
            self.failed = self.failed or e
        # Let the others unwind.
        for k in list(self.alive):
            self.turn[k].release()
            self.back.acquire()
        for t in threads:
            t.join(5)
        if self.failed is not None:
            raise self.failed
