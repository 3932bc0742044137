"""Script construction for the task-level harness."""


class Script:
    def __init__(self, sid, ntask, free=False, states=False, keepref=True,
                 start=(1000, 0), prio=8, cfg=None):
        self.sid = sid
        self.n = ntask
        self.free = free
        self.states = states
        self.keepref = keepref
        self.start = start
        self.prio = [prio] * (ntask + 1) if isinstance(prio, int) else [0] + list(prio)
        self.auto = [1] * (ntask + 1)
        self.objs = [0, 0, 0]
        self.fdsets = []
        self.gt = False
        self.chans = []
        self.body = []
        self.cfg = cfg

    def objects(self, mutex=0, cond=0, sel=0):
        self.objs = [mutex, cond, sel]
        return self

    def fds(self, count, kind=0, sndbuf=0):
        """Adds descriptor pairs: 0 stream sockets, 1 pipe (read end first),
        2 datagram sockets, 3 listener, 4 seqpacket sockets"""
        self.fdsets.append((kind, sndbuf, count))
        return self

    def channel(self, size, bufs):
        self.chans.append((size, bufs))
        return len(self.chans) - 1

    @staticmethod
    def ops(lst):
        return ";".join(o if isinstance(o, str) else " ".join(map(str, o)) for o in lst)

    def burst(self, cmds):
        """cmds: list of (task, [ops])"""
        cmds = [(t, o) for t, o in cmds if o]
        if cmds:
            self.body.append("B " + "|".join("%d %s" % (t, self.ops(o)) for t, o in cmds))
        return self

    def program(self, t, ops):
        self.body.append("R %d %s" % (t, self.ops(ops)))
        return self

    def advance(self):
        self.body.append("A")
        return self

    def delay(self, us):
        self.body.append("D %d" % us)
        return self

    def intr(self, n):
        self.body.append("I %d" % n)
        return self

    def text(self):
        o = ["S %s %d %d %d %d %d %d" % (self.sid, self.n, self.free, self.states,
                                         self.keepref, self.start[0], self.start[1])]
        if self.cfg:
            o.append("G " + self.cfg)
        for t in range(1, self.n + 1):
            o.append("T %d %d %d" % (t, self.prio[t], self.auto[t]))
        o.append("O " + " ".join(map(str, self.objs)))
        for f in self.fdsets:
            o.append("P %d %d %d" % f)
        if self.gt:
            o.append("W")
        for c in self.chans:
            o.append("H %d %d" % c)
        return "\n".join(o + self.body + ["E"]) + "\n"


def chunks(rng, seq, lo=1, hi=5):
    i = 0
    while i < len(seq):
        n = rng.randint(lo, hi)
        yield seq[i:i + n]
        i += n


def group_by_task(seq):
    """[(t, op)...] -> burst commands, one per task in order of appearance"""
    order, ops = [], {}
    for t, o in seq:
        if t not in ops:
            ops[t] = []
            order.append(t)
        ops[t].append(o)
    return [(t, ops[t]) for t in order]
