"""A stand-in for the parts of mpi4py that the dispatcher uses, with message
completion under the control of the explorer.  Follows MPI's rules: messages are
matched by source and tag, a message has to be sent with a concrete tag, testsome
and waitsome report completed requests in any order with the statuses in that
same order and turn them into null requests, and calls without any active
request are reported as 'undefined' (None, None)."""


class MPIError(Exception):
    pass


class Deadlock(Exception):
    pass


class Status:
    def __init__(self):
        self.source, self.tag, self.error = -1, -1, 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


ANY = -1


class Req:
    def __init__(self, comm, source, tag):
        self.comm, self.source, self.tag = comm, source, tag
        self.null = False

    def match(self, msgs):
        for m in msgs:
            if (self.source in (ANY, m[0])) and (self.tag in (ANY, m[1])):
                return m
        return None

    # single-request interface, should the code use it
    def test(self, status=None):
        idx, res = Request.testsome([self], [status] if status else None)
        return (bool(idx), res[0] if idx else None)

    def wait(self, status=None):
        return Request.waitall([self], [status] if status else None)[0]


class Request:
    """the three collective calls; `env.pick(kind, n)` decides what has completed"""

    @staticmethod
    def _finish(reqs, done, statuses):
        res = []
        for j, (i, m) in enumerate(done):
            comm = reqs[i].comm
            comm.arrived.remove(m)
            reqs[i].null = True
            res.append(m[2])
            if statuses is not None and j < len(statuses) and statuses[j] is not None:
                statuses[j].source, statuses[j].tag = m[0], m[1]
        return [i for i, _ in done], res

    @staticmethod
    def _ready(reqs, order):
        """indices of the requests matched by messages that have arrived, in the
        order the environment wants them reported"""
        done, used = [], []
        for m in order:
            for i, r in enumerate(reqs):
                if r.null or i in [d[0] for d in done]:
                    continue
                if r.match([m]) is m:
                    done.append((i, m))
                    used.append(m)
                    break
        return done

    @staticmethod
    def _some(reqs, statuses, blocking):
        act = [r for r in reqs if not r.null]
        if not act:
            return None, None
        comm = act[0].comm
        order = comm.env.arrive(comm, blocking)
        done = Request._ready(reqs, order)
        if blocking and not done:
            raise Deadlock("waiting for a result that never comes")
        return Request._finish(reqs, done, statuses)

    @staticmethod
    def waitsome(requests, statuses=None):
        return Request._some(requests, statuses, True)

    @staticmethod
    def testsome(requests, statuses=None):
        return Request._some(requests, statuses, False)

    @staticmethod
    def waitall(requests, statuses=None):
        act = [r for r in requests if not r.null]
        if not act:
            return [None for r in requests]
        comm = act[0].comm
        order = comm.env.arrive(comm, "all")
        done = Request._ready(requests, order)
        if len(done) < len(act):
            raise Deadlock("waiting for results that never come")
        done.sort()
        return Request._finish(requests, done, statuses)[1]

    @staticmethod
    def waitany(requests, status=None):
        act = [r for r in requests if not r.null]
        if not act:
            return None, None
        comm = act[0].comm
        order = comm.env.arrive(comm, True)[:1]
        idx, res = Request._finish(requests, Request._ready(requests, order), [status] if status else None)
        return idx[0], res[0]


class Comm:
    """the parent's end. `outbox[c]` are messages on their way from child c"""

    def __init__(self, size, env):
        self.size, self.env = size, env
        self.sent = []            # (dest, tag, obj)
        self.outbox = {c: [] for c in range(1, size)}
        self.arrived = []

    def Get_rank(self):
        return 0

    def Get_size(self):
        return self.size

    rank = property(Get_rank)

    def send(self, obj, dest, tag=0):
        if tag is None or int(tag) < 0:
            raise MPIError("MPI_ERR_TAG: invalid tag")
        if not (1 <= dest < self.size):
            raise MPIError("MPI_ERR_RANK: invalid rank")
        self.sent.append((dest, tag, obj))
        self.env.deliver(self, dest, tag, obj)

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return None

    def irecv(self, buf=None, source=ANY, tag=ANY):
        return Req(self, source, tag)


class MPI:
    ANY_TAG = ANY
    ANY_SOURCE = ANY
    Status = Status
    Request = Request
    Exception = MPIError
    COMM_WORLD = None
