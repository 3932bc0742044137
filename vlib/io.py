"""Checks of descriptor readiness and the I/O calls."""
from . import cio
from .gen import Script, chunks, group_by_task
from .kern import both, kdrv, run_both, tour, GUARD

IN, PRI, OUT, RDHUP = 1, 2, 4, 8192


def fdscript(sid, n, pairs, kind=0, sndbuf=0, gt=True, **kw):
    """A script over descriptor pairs whose readiness is recorded."""
    s = Script(sid, n, **kw)
    s.fds(pairs, kind, sndbuf)
    s.gt = gt
    s.cfg = '"nf":%d,"gt":%d' % (2 * pairs, gt)
    return s


# ------------------------------------------------------------------- C13 --
def reactor_ops(h, n, pipe):
    """Model descriptors are the even ends; the other side does the traffic."""
    r, w = (0, 1)
    for t, o, x, y, z in h:
        t = t or n + 1
        if o == "put":
            yield t, ("fput", 2 * x + w, 3)
        elif o == "get":
            yield t, ("fget", 2 * x + r, 1000)
        elif o == "fdel":
            yield t, ("fdel", 2 * x)
        elif o in ("fadd", "fmod"):
            yield t, (o, x, 2 * y, z & IN if pipe else z)
        elif o == "wake":
            yield t, ("wake", x)
        else:
            yield t, (o,)


def reactor_random(ctx, num):
    rng = ctx.rng
    sc = []
    for i in range(num if ctx.quick else 15 * num):
        n = rng.randint(2, 6)
        pairs = rng.randint(1, 4)
        kind = rng.choice([0, 0, 0, 1])
        free = rng.random() < .5
        s = fdscript("r%d" % i, n, pairs, kind, free=free, sndbuf=4096 if kind else rng.choice([0, 2048]))

        def rop(t):
            x = rng.random()
            f = rng.randrange(2 * pairs)
            ev = rng.choice([IN, IN, IN, OUT, IN | OUT])
            u = t if rng.random() < .7 else rng.randint(1, n)
            if x < .16:
                return ("fadd", u, f, ev)
            if x < .28:
                return ("fmod", u, f, ev)
            if x < .34:
                return ("fdel", f)
            if x < .50:
                return ("fput", f, rng.choice([1, 10, 1000, 3000, 4096]))
            if x < .60:
                return ("fget", f, rng.choice([1, 100, 8192, 65536]))
            if x < .62:
                return ("fclose", f)
            if x < .64:
                return ("fshut", f)
            if x < .80:
                return ("waitio",)
            if x < .86:
                return ("wake", rng.randint(1, n))
            if x < .88:
                return ("intr", rng.randint(1, 4))
            return ("yield",)
        if free:
            for t in range(1, n + 1):
                s.program(t, [rop(t) for _ in range(rng.randint(5, 40))])
        else:
            for _ in range(rng.randint(4, 20)):
                ts = rng.sample(range(1, n + 1), rng.randint(1, n))
                s.burst([(t, [rop(t) for _ in range(rng.randint(1, 6))]) for t in ts])
        sc.append(s.text())
    return sc


def c13(ctx):
    rng = ctx.rng
    ctx.model("ReactorImpl", need=["Put", "Get", "AddFd", "ModFd", "DelFd", "WakeUp", "WaitIo",
                                   "Yield", "Sched", "Idle", "Ext", "ExtPut"])
    sc = []
    for i, h in enumerate(tour(ctx, "ReactorGen", 2, "Fds = {0, 1}\nEvs = {1, 5}\n",
                               500 if ctx.quick else 0)):
        s = fdscript("t%d" % i, 3, 2)
        for t, o in reactor_ops(h, 2, False):
            s.burst([(t, [o])])
        sc.append(s.text())
    for i, h in enumerate(ctx.generate("ReactorGen", "ReactorGen.cfg", 150 if ctx.quick else 2000, 50)):
        kind = rng.choice([0, 0, 1])
        s = fdscript("g%d" % i, 4, 3, kind)
        for c in chunks(rng, list(reactor_ops(h, 3, kind == 1)), 1, 7):
            s.burst(group_by_task(c))
            if rng.random() < .1:
                s.intr(rng.randint(1, 3))
        sc.append(s.text())
    sc += reactor_random(ctx, 200)
    # others stay runnable for long while somebody is to be woken
    for i in range(20 if ctx.quick else 200):
        n = rng.randint(3, 6)
        s = fdscript("y%d" % i, n, n)
        s.burst([(t, [("fadd", t, 2 * t - 2, IN), ("waitio",), ("fget", 2 * t - 2, 100), ("waitio",)])
                 for t in range(1, n - 1)])
        s.burst([(n - 1, [("yield",)] * rng.randint(150, 250)),
                 (n, [("yield",)] * rng.randint(0, 5) +
                  [("fput", 2 * t - 1, 1) for t in range(1, n - 1)] + [("yield",)] * rng.randint(100, 200) +
                  [("fput", 2 * t - 1, 1) for t in range(1, n - 1)] + [("yield",)] * 20)])
        sc.append(s.text())
    rng.shuffle(sc)
    run_both(ctx, "ReactorTrace", sc, "readiness")
    # more descriptors become ready together than one poll can report
    big = []
    for i, (n, per) in enumerate([(250, 5)] if ctx.quick else [(250, 5), (12, 100), (150, 10), (40, 45)]):
        s = fdscript("b%d" % i, n + 1, n * per, gt=False)
        order = list(range(n * per))
        if i % 2:
            rng.shuffle(order)
        mine = {t: [] for t in range(1, n + 1)}
        for j, p in enumerate(order):
            mine[1 + j // per].append(p)
        ts = list(range(1, n + 1))
        for a in range(0, n, 50):
            s.burst([(t, [("fadd", t, 2 * p, IN) for p in mine[t]] + [("waitio",)] * 2) for t in ts[a:a + 50]])
        for _ in range(2):
            s.burst([(n + 1, [("mput", 1, 1, n * per)])])
        big.append(s.text())
    ctx.check_traces("ReactorTrace", kdrv(ctx), big, what="very many descriptors", sample=0)


# -------------------------------------------------------------- C14, C15 --
STREAM, PIPE, DGRAM, LISTEN, SEQ = range(5)
INPROGRESS, ALREADY, ISCONN, REFUSED, TIMEDOUT = 115, 114, 106, 111, 110


def ioscript(sid, n, sets, **kw):
    """sets: (kind, send buffer, pairs)"""
    s = Script(sid, n, **kw)
    types = []
    for kind, sb, pairs in sets:
        s.fds(pairs, kind, sb)
        types += [kind] * (2 * pairs)
    s.gt = True
    s.cfg = '"types":%s' % str(types).replace(" ", "")
    return s


def modes(rng, kind, whole):
    if kind == PIPE:
        return rng.choice([0, 1])
    if whole:
        return rng.choice([3, 5, 7])
    if kind == DGRAM:
        return rng.choice([0, 1, 2, 4, 4, 6, 6, 6])
    return rng.choice([0, 1, 2, 4, 6])


def io_tours(ctx, whole, limit):
    """One script per transition of the model of the retry loops."""
    rng = ctx.rng
    out = []
    hs = ctx.tour("IoGen", "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n"
                  "CONSTANTS Cap = 3\nLow = 1\nMax = 4\n", 0)
    hs = [h for h in hs if whole or not any(x[2] for x in h if x[0] in "rw")]
    if ctx.quick and len(hs) > limit:
        hs = rng.sample(hs, limit)
    for i, h in enumerate(hs):
        kind = STREAM if whole else rng.choice([STREAM, PIPE])
        unit = 1024 if kind == PIPE else rng.choice([1, 700, 1500])
        s = ioscript("t%d" % i, 3, [(kind, 4096, 1)])
        for o, n, w in h:
            y = rng.choice([(0, 0), (0, 0), (1, 0)])
            if o == "r":
                s.burst([(1, [("ior", 0, n * unit, modes(rng, kind, w)) + y + (rng.randint(1, 6), rng.randint(0, 99))])])
            elif o == "w":
                s.burst([(2, [("iow", 1, n * unit, modes(rng, kind, w)) + y + (rng.randint(1, 6), rng.randint(0, 99))])])
            elif o == "wake":
                s.burst([(3, [("wake", n)])])
            elif o == "put":
                s.burst([(3, [("fput", 1, unit)])])
            elif o == "get":
                s.burst([(3, [("fget", 0, unit)])])
            elif o == "end":
                s.burst([(3, [("fclose" if kind == PIPE or rng.random() < .5 else "fshut", 1)])])
            else:
                s.burst([(3, [("fclose", 0)])])
        for _ in range(3):
            s.burst([(3, [("fput", 1, unit), ("fget", 0, 100000)])])
        out.append(s.text())
    return out


def io_random(ctx, whole, count):
    rng = ctx.rng
    out = []
    for i in range(count):
        n = rng.randint(2, 5)
        sets = []
        kinds = []
        for _ in range(rng.randint(1, 3)):
            k = rng.choice([STREAM, STREAM, STREAM, STREAM, PIPE, DGRAM, DGRAM] if whole else [STREAM, STREAM, PIPE, DGRAM, SEQ, LISTEN])
            sets.append((k, rng.choice([0, 4096, 4096, 16384]) if k != PIPE else rng.choice([4096, 8192]), 1))
            kinds.append(k)
        free = rng.random() < .2
        s = ioscript("r%d" % i, n, sets, free=free,
                     prio=rng.choice([8, [rng.choice([1, 4, 8, 15]) for _ in range(n)]]))

        def yk():
            if rng.random() < .6:
                return (0, 0)
            k = rng.choice([1, 1, 2])
            return (k, rng.randint(1, 6) if k == 2 or rng.random() < .4 else 0)

        def size(k):
            if k in (DGRAM, SEQ):
                return rng.choice([1, 2, 10, 100, 1000])
            return rng.choice([1, 2, 7, 100, 1000, 4096, 5000, 20000] + ([60000, 100000] if whole else []))

        def rop():
            p = rng.randrange(len(kinds))
            k = kinds[p]
            a, b = (2 * p, 2 * p + 1) if k == PIPE or rng.random() < .5 else (2 * p + 1, 2 * p)
            x = rng.random()
            w = whole and k == STREAM and rng.random() < .7
            if k == LISTEN:
                a = 2 * p
                if x < .4:
                    return ("ioacc", a) + yk()
                if x < .7:
                    return ("fconn", a)
                if x < .75:
                    return ("fget", a, 1)
            else:
                if x < .3:
                    m = 8 if k != PIPE and rng.random() < .08 else modes(rng, k, w)
                    return ("ior", a, size(k), m) + yk() + (rng.randint(1, 7), rng.randint(0, 99))
                if x < .6:
                    return ("iow", b, size(k), modes(rng, k, w)) + yk() + (rng.randint(1, 7), rng.randint(0, 99))
                if x < .68:
                    return ("fput", b, size(k))
                if x < .78:
                    return ("fget", a, size(k))
                if x < .795 and k != DGRAM:
                    return ("fclose", rng.choice([a, b]))
                if x < .81:
                    return ("fshut", rng.choice([a, b]))
                if x < .84 and k == STREAM and not whole:
                    e = [rng.choice([INPROGRESS, ALREADY]) for _ in range(rng.randint(0, 4))]
                    e.append(rng.choice([-1, ISCONN, REFUSED, TIMEDOUT]))
                    return ("ioconn", a) + yk() + tuple(e)
            if x < .92:
                return ("wake", rng.randint(1, n))
            if x < .94 and not whole:
                return ("mkfd", rng.randint(0, 9))
            return ("yield",)
        if free:
            for t in range(1, n + 1):
                s.program(t, [rop() for _ in range(rng.randint(5, 25))])
        else:
            for _ in range(rng.randint(4, 16)):
                ts = rng.sample(range(1, n + 1), rng.randint(1, n))
                s.burst([(t, [rop() for _ in range(rng.randint(1, 5))]) for t in ts])
        out.append(s.text())
    return out


def c14(ctx):
    ctx.model("IoImpl", need=["TryR", "TryW", "Report", "Stray", "Abort", "Put", "Get", "End", "Break"])
    sc = io_tours(ctx, False, 300) + io_random(ctx, False, 600 if ctx.quick else 5000)
    ctx.rng.shuffle(sc)
    run_both(ctx, "IoTrace", sc, "I/O calls")


def io_small(rng, sid):
    """Few bytes at a time into many pieces; the pieces end where the bytes do."""
    s = ioscript(sid, 2, [(STREAM, 4096, 1)])
    y = rng.choice([(0, 0), (0, 0), (1, 0)])
    if rng.random() < .6:
        n = rng.choice([2, 3, 4, 4, 6, 8, 8, 9, 12, 12])
        u = rng.choice([n, n // 2, n // 3, n // 4, 1, 1]) or 1
        s.burst([(1, [("ior", 0, n, rng.choice([3, 5, 7, 7, 7])) + y + (rng.randint(2, 7), rng.randint(0, 99))])])
        for _ in range(n):
            s.burst([(2, [("fput", 1, u * rng.choice([1, 1, 2]))])])
    else:
        n = 4032 * rng.randint(1, 5) + rng.choice([0, 0, 1, 100])
        s.burst([(1, [("iow", 0, n, rng.choice([3, 5, 7, 7, 9, 9])) + y + (rng.randint(2, 7), rng.randint(0, 99))])])
        for _ in range(8):
            s.burst([(2, [("fget", 1, rng.choice([4032, 4032, 4032, 8064, 100]))])])
    s.burst([(2, [("fput", 1, 100), ("fget", 1, 100000)])])
    s.burst([(2, [("fget", 1, 100000)])])
    return s.text()


def c15(ctx):
    ctx.model("IoImpl", need=["TryR", "TryW", "Report", "Stray", "Abort", "Put", "Get", "End", "Break"])
    sc = io_tours(ctx, True, 350) + io_random(ctx, True, 450 if ctx.quick else 5000)
    sc += [io_small(ctx.rng, "s%d" % i) for i in range(250 if ctx.quick else 2500)]
    ctx.rng.shuffle(sc)
    run_both(ctx, "IoTrace", sc, "whole transfers")
    rng = ctx.rng
    sc = []
    for i in range(300 if ctx.quick else 3000):
        stack = rng.choice([[], [], [], ["pass"], [(0, 0)], ["pass", (0, 3)], cio.stacks(rng)])
        sc.append(cio.cio_random(rng, "x%d" % i, stack, exact=.85))
    ctx.check_traces("CioTrace", cio.cdrv(ctx), sc, what="whole transfers on streams")


# ------------------------------------------------------------------- C16 --
POLLMASKS = [IN, IN, OUT, IN | OUT, RDHUP, IN | RDHUP, PRI, 0, IN | OUT | RDHUP | PRI, 64, 256, 128 | 512]


def pollscript(sid, n, sets, **kw):
    s = ioscript(sid, n, sets, **kw)
    s.cfg = None
    return s


def poll_hist(rng, sid, h, two):
    """Model descriptors are the even ends, not writable at first."""
    unit = rng.choice([1, 10, 1000])
    s = pollscript(sid, 2, [(STREAM, 4096, 2 if two else 1)],
                   start=rng.choice([(1000, 0), (1000, 999999999), (5, 999000000)]))
    s.burst([(2, [("fput", 2 * f, 100000) for f in range(2 if two else 1)])])
    for x in h:
        o = x[0]
        f = 2 * x[1] if len(x) > 1 and o != "call" else 0
        if o == "call":
            a = ["iopoll", x[1] * unit if x[1] > 0 else x[1]]
            for i in range(2, len(x), 2):
                a += [2 * x[i] + 1, x[i + 1]]
            s.burst([(1, [tuple(a)])])
        elif o == "wake":
            s.burst([(2, [("wake", 1)])])
        elif o == "tick":
            s.delay(unit * 1000)
        elif o == "close":
            s.burst([(2, [("fclose", f)])])
        elif o == "hup":
            s.burst([(2, [("fclose", f + 1)])])
        elif o == "start":
            s.burst([(2, [("fput", f + 1, 10) if x[2] == "in" else ("fget", f + 1, 100000)])])
        else:
            s.burst([(2, [("fget", f, 100000) if x[2] == "in" else ("fput", f, 100000)])])
    return s.advance().advance().text()


def c16(ctx):
    rng = ctx.rng
    ctx.model("PollImpl", need=["Call", "Report", "Stray", "Timer", "Look", "Start", "Stop", "Close", "Tick"])
    k = 1 if ctx.quick else 10
    sc = []
    base = "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS Timeouts <- TO\n"
    for i, h in enumerate(ctx.tour("PollGen", base + "Fds = {0}\n", 300 if ctx.quick else 0)):
        sc.append(poll_hist(rng, "t%d" % i, h, False))
    for i, h in enumerate(ctx.generate("PollGen", base + "INVARIANT Emit\nCONSTANTS Fds = {0, 1}\n", 250 * k, 50)):
        sc.append(poll_hist(rng, "g%d" % i, h, True))
    for i in range(400 * k):
        n = rng.randint(2, 4)
        sets = [(rng.choice([STREAM, STREAM, PIPE, DGRAM, SEQ]), 4096, 1) for _ in range(rng.randint(1, 4))]
        nf = 2 * len(sets)
        free = rng.random() < .2
        s = pollscript("r%d" % i, n, sets, free=free,
                       start=rng.choice([(1000, 0), (1000, 999999999), (5, 999000000), (77777, 500000001)]))
        style = rng.random()

        def rop():
            x = rng.random()
            f = rng.randrange(nf)
            if x < .35:
                a = ["iopoll", rng.choice([0, -1, -1, -5, 1, 2, 3, 10, 100] + ([100000, 2147483647] if style < .2 else []))]
                for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
                    g = rng.randrange(nf) if rng.random() < .95 else 99
                    a += [g + 1, rng.choice(POLLMASKS)]
                return tuple(a)
            if x < .5:
                return ("fput", f, rng.choice([1, 10, 1000, 50000]))
            if x < .62:
                return ("fget", f, rng.choice([1, 10, 100000]))
            if x < .65:
                return ("fclose", f)
            if x < .69:
                return ("fshut", f)
            if x < .86:
                return ("wake", rng.randint(1, n))
            if x < .88:
                return ("pollerr", rng.choice([0, -1, 5]))
            if x < .93:
                return ("burn", rng.choice([1, 100, 400, 999, 1000, 5000]))
            if x < .95 and free:
                return ("sleep", rng.choice([1, 3]))
            return ("yield",)
        if free:
            for t in range(1, n + 1):
                s.program(t, [rop() for _ in range(rng.randint(5, 20))])
        else:
            for _ in range(rng.randint(5, 20)):
                x = rng.random()
                if x < .6:
                    ts = rng.sample(range(1, n + 1), rng.randint(1, n))
                    s.burst([(t, [rop() for _ in range(rng.randint(1, 3))]) for t in ts])
                elif x < .7:
                    s.advance()
                else:
                    s.delay(rng.choice([1, 100, 500, 900, 1000, 5000]))
        sc.append(s.text())
    # long lists, some descriptors more than once
    for i in range(25 * k):
        s = pollscript("l%d" % i, 2, [(rng.choice([STREAM, PIPE]), 4096, 1) for _ in range(8)])
        for _ in range(3):
            es = [f for f in rng.sample(range(16), rng.randint(3, 14))]
            es = (es + [rng.choice(es) for _ in range(rng.choice([0, 1, 2]))])[:16]
            if rng.random() < .3:
                rng.shuffle(es)
            s.burst([(1, [("iopoll", rng.choice([-1, -1, 50])) +
                          tuple(x for f in es for x in (f + 1, rng.choice([1, 2]) if sum(e == f for e in es) > 1 else 1))])])
            s.burst([(2, [("fput", es[-1] ^ 1, 3)])])
            s.advance()
            s.burst([(2, [("fput", f ^ 1, 3) for f in es])])
            s.burst([(2, [("fget", f, 1000) for f in es])])
        sc.append(s.text())
    rng.shuffle(sc)
    run_both(ctx, "PollTrace", sc, "poll")


# ------------------------------------------------------------------- C17 --
def splice_sides(rng, shared):
    """Descriptor sets and (a in, a out, b in, b out): a side has one stream
    socket, or an input and an output of their own."""
    sets, ends = [], []

    def add(kind, small):
        sets.append((kind, rng.choice([4096, 4096, 8192] if small else [0, 65536]), 1))
        return 2 * len(sets) - 2
    small = rng.random() < .7
    for one in shared:
        if one:
            f = add(STREAM, small)
            ends += [f, f]
        else:
            for writing in (0, 1):
                kind = rng.choice([STREAM, PIPE])
                f = add(kind, small)
                ends.append(f + 1 if kind == PIPE and writing else f)
    return sets, ends


def splice_random(rng, sid, how=0):
    n = rng.randint(2, 4)
    shared = rng.choice([(1, 1), (1, 1), (1, 0), (0, 1), (0, 0), (0, 0)])
    sets, (ai, ao, bi, bo) = splice_sides(rng, shared)
    s = ioscript(sid, n, sets)
    y = rng.choice([(0, 0)] * 4 + [(1, 0)] * 3 + [(1, rng.randint(1, 6)), (2, rng.randint(1, 30))])
    big = rng.random() < .4
    sizes = [1, 2, 100, 3000, 20000, 60000, 200000] if big else [1, 2, 3, 7, 50, 64, 900, 4096, 5000]
    buf = rng.choice([1000, 4096, 8192, 65536] if big else [1, 2, 7, 64, 1000, 4096, 8192, 65536])
    src, dst = [ai ^ 1, bi ^ 1], [bo ^ 1, ao ^ 1]
    lean = rng.random()         # how busy which direction is
    slow = rng.random() < .5    # the receivers are

    def rop():
        x = rng.random()
        d = rng.random() < lean
        if x < (.6 if slow else .45):
            return ("fput", src[d], rng.choice(sizes))
        if x < .86:
            return ("fget", dst[d], rng.choice(sizes))
        if x < .96:
            return ("wake", 1) if rng.random() < .5 else ("yield",)
        return rng.choice([("fshut", src[d]), ("fclose", src[d]), ("fshut", src[d]), ("fclose", dst[d])])
    early = [rop() for _ in range(rng.randint(0, 3))]
    if early:
        s.burst([(2, early)])
    s.burst([(1, [("splice", ai, ao, bi, bo, buf) + y + (how,)])])
    for _ in range(rng.randint(5, 25)):
        ts = rng.sample(range(2, n + 1), rng.randint(1, n - 1))
        s.burst([(t, [rop() for _ in range(rng.randint(1, 5))]) for t in ts])
    end = rng.random()
    for _ in range(4):
        s.burst([(2, [("fget", d, 200000) for d in dst])])
    if end < .8:
        for f in src:
            s.burst([(2, [("fshut", f), ("fclose", f) if f not in dst else ("fshut", f)])])
            s.burst([(2, [("fget", d, 200000) for d in dst])])
    for _ in range(3):
        s.burst([(2, [("fget", d, 200000) for d in dst])])
    return s.text()


def splice_hist(rng, sid, h, how=0):
    shared = rng.choice([(1, 1), (1, 1), (1, 0), (0, 1)]) if h[0][1] else (0, 0)
    sets, (ai, ao, bi, bo) = splice_sides(rng, shared)
    s = ioscript(sid, 2, sets)
    buf = rng.choice([1, 2, 3, 500, 1500, 4096, 8192])
    unit = rng.choice([1, 2, 3, 700, 2500])
    src = {1: ai ^ 1, 2: bi ^ 1}
    dst = {1: bo ^ 1, 2: ao ^ 1}
    s.burst([(1, [("splice", ai, ao, bi, bo, buf, rng.choice([0, 0, 1]), 0, how)])])
    for o, d in h[1:]:
        if o == "put":
            s.burst([(2, [("fput", src[d], unit)])])
        elif o == "end":
            f = src[d]
            # closing a socket that the other direction delivers to breaks that one too
            pipe = sets[f // 2][0] == PIPE
            s.burst([(2, [("fclose", f) if pipe or (f not in dst.values() and rng.random() < .5)
                          else ("fshut", f)])])
        elif o == "drain":
            s.burst([(2, [("fget", dst[d], unit)])])
        elif o == "break":
            s.burst([(2, [("fclose", dst[d])])])
        elif o == "wake":
            s.burst([(2, [("wake", 1)])])
    for _ in range(2):
        s.burst([(2, [("fget", dst[1], 100000), ("fget", dst[2], 100000)])])
    return s.text()


def c17(ctx):
    rng = ctx.rng
    ctx.model("SpliceImpl", need=["Round", "Decide", "Wake", "Put", "End", "Drain", "Break", "Stray"])
    k = 1 if ctx.quick else 10
    sc = []
    base = "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS Buf = 2\nCap = 1\nLow = 0\n"
    for i, h in enumerate(ctx.tour("SpliceGen", base + "Total = 2\n", 300 if ctx.quick else 6000)):
        sc.append(splice_hist(rng, "t%d" % i, h))
    for i, h in enumerate(ctx.generate("SpliceGen", base + "Total = 9\nINVARIANT Emit\n", 150 * k, 60)):
        sc.append(splice_hist(rng, "g%d" % i, h))
    for i in range(450 * k):
        sc.append(splice_random(rng, "r%d" % i))
    rng.shuffle(sc)
    vs = [("0", "0", GUARD), ("0", "1", GUARD), ("1", "0", {}), ("1", "1", {})]
    for j, (sl, sp, env) in enumerate(vs):
        ctx.check_traces("SpliceTrace", kdrv(ctx, ENABLE_MEMALLOC_SLICE=sl, ENABLE_IO_SPLICE_SYSCALL=sp),
                         sc[j::4], env=env, what="splice")
