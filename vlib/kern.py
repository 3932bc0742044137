"""Checks of the task-level properties."""
from . import core
from .gen import Script, chunks, group_by_task

GUARD = {"KDRV_GUARD": "1"}


def kdrv(ctx, **over):
    return ctx.program("kdrv", ["kdrv.c", "kio.c"], ctx.lib(**over), core.WRAPS_KERN)


def both(ctx):
    """(program, environment) for the two library variants the task-level
    scripts run on: pages protected after release, and the default build."""
    return [(kdrv(ctx, ENABLE_MEMALLOC_SLICE="0"), GUARD), (kdrv(ctx), {})]


def run_both(ctx, module, scripts, what, **kw):
    progs = both(ctx)
    half = (len(scripts) * 2) // 3
    ctx.check_traces(module, progs[0][0], scripts[:half], env=progs[0][1], what=what, **kw)
    ctx.check_traces(module, progs[1][0], scripts[half:], env=progs[1][1], what=what, **kw)


def tour(ctx, module, tasks, constants, limit):
    return ctx.tour(module, "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS Tasks = {%s}\n%s"
                    % (",".join(str(t + 1) for t in range(tasks)), constants), limit)


# ------------------------------------------------------------------- C06 --
def c06(ctx):
    rng = ctx.rng
    ctx.model("MutexImpl", need=["Lock", "Recheck", "TryLock", "Unlock", "Stray"])
    scripts = []
    gen = ctx.generate("MutexGen", "MutexGen.cfg", 150 if ctx.quick else 1500, 40)
    for i, h in enumerate(gen):
        s = Script("g%d" % i, 4, prio=[rng.choice([1, 2, 4, 8, 8, 8, 15]) for _ in range(4)])
        s.objects(mutex=2)
        seq = [(t, (o, m - 1 if o != "wake" else m)) for t, o, m in h if o != "turn"]
        for c in chunks(rng, seq, 1, 6):
            s.burst(group_by_task(c))
        scripts.append(s.text())
    for n, m, num in [(3, 1, 0), (4, 1, 300 if ctx.quick else 0), (3, 2, 200 if ctx.quick else 0)]:
        for i, h in enumerate(tour(ctx, "MutexGen", n, "Mutexes = {%s}\nStrays = 2\n"
                                   % ",".join(str(x + 1) for x in range(m)), num)):
            s = Script("t%d%d-%d" % (n, m, i), n, prio=[rng.choice([1, 2, 4, 8]) for _ in range(n)])
            s.objects(mutex=m)
            for t, o, x in h:
                if o != "turn":
                    s.burst([(t, [(o, x - 1 if o != "wake" else x)])])
            for _ in range(n):
                s.burst([(t, [("unlock", x) for x in range(m)]) for t in range(1, n + 1)])
            scripts.append(s.text())
    for i in range(250 if ctx.quick else 4000):
        n = rng.randint(2, 7)
        m = rng.randint(1, 3)
        if rng.random() < 0.4:
            pr = 8
        else:
            pr = [rng.choice([1, 1, 2, 4, 8, 15]) for _ in range(n)]
        free = rng.random() < 0.35
        s = Script("r%d" % i, n, free=free, prio=pr).objects(mutex=m)

        def rop(t):
            x = rng.random()
            mm = rng.randrange(m)
            if x < .35:
                return ("lock", mm)
            if x < .65:
                return ("unlock", mm)
            if x < .75:
                return ("trylock", mm)
            if x < .88:
                return ("wake", rng.randint(1, n))
            return ("yield",)
        if free:
            for t in range(1, n + 1):
                s.program(t, [rop(t) for _ in range(rng.randint(5, 40))] +
                          [("unlock", x) for x in range(m)])
        else:
            for _ in range(rng.randint(4, 14)):
                ts = rng.sample(range(1, n + 1), rng.randint(1, n))
                s.burst([(t, [rop(t) for _ in range(rng.randint(1, 4))]) for t in ts])
            s.burst([(t, [("unlock", x) for x in range(m)]) for t in range(1, n + 1)])
            s.burst([(t, [("unlock", x) for x in range(m)]) for t in range(1, n + 1)])
        scripts.append(s.text())
    rng.shuffle(scripts)
    run_both(ctx, "MutexTrace", scripts, "mutex")
    big = []
    for i in range(10 if ctx.quick else 80):
        n = rng.choice([12, 20, 40, 100])
        s = Script("c%d" % i, n, free=True, prio=rng.choice([8, [rng.choice([1, 4, 8, 15]) for _ in range(n)]]))
        s.objects(mutex=1)
        for t in range(1, n + 1):
            s.program(t, [("yield",)] * rng.randint(0, 2) +
                      ([("lock", 0)] + [("yield",)] * rng.choice([0, 1, 1, 3]) + [("unlock", 0)]) * rng.randint(1, 3))
        big.append(s.text())
    ctx.check_traces("MutexTrace", kdrv(ctx), big, what="very many waiters")


# -------------------------------------------------------------- C07, C08 --
def cond_scripts(ctx, timed, count, spec=True):
    """Programs around condition variables; timed is the share of timed waits."""
    rng = ctx.rng
    out = []
    gen = ctx.generate("CondGen", "CondGen.cfg", count // 3, 40) if spec else []
    for i, h in enumerate(gen):
        s = Script("g%d" % i, 4, prio=rng.choice([8, [1, 2, 4, 8], [8, 4, 2, 1]]))
        s.objects(mutex=1, cond=1)
        seq = []
        for t, o in h:
            if o == "expire":
                for c in chunks(rng, seq, 1, 4):
                    s.burst(group_by_task(c))
                seq = []
                s.advance()
            elif o == "ctimed":
                seq.append((t, ("ctimed", 0, 0, rng.choice([1, 2, 3, 5, 10, 500, 1000, 2500]))))
            elif o == "cwait":
                seq.append((t, ("cwait", 0, 0)))
            else:
                seq.append((t, (o, 0)))
        for c in chunks(rng, seq, 1, 4):
            s.burst(group_by_task(c))
        s.advance().advance()
        out.append(s.text())
    for n, num in [(2, 0), (3, count if ctx.quick else 0)] if spec else []:
        for i, h in enumerate(tour(ctx, "CondGen", n, "Mutexes = {1}\nConds = {1}\n", num)):
            s = Script("t%d-%d" % (n, i), n, prio=[rng.choice([1, 4, 8]) for _ in range(n)])
            s.objects(mutex=1, cond=1)
            now = 0
            for j, (t, o) in enumerate(h):
                if o == "expire":
                    # time-outs expire in the order of the behaviour
                    now = 10 * j + 1000
                    s.advance()
                elif o == "ctimed":
                    e = [m for m in range(j, len(h)) if h[m] == [t, "expire"]]
                    s.burst([(t, [(o, 0, 0, (10 * e[0] + 1000 if e else 60000 + 10 * j) - now)])])
                elif o == "cwait":
                    s.burst([(t, [(o, 0, 0)])])
                else:
                    s.burst([(t, [(o, 0)])])
            s.burst([(t, [("unlock", 0)]) for t in range(1, n + 1)])
            if rng.random() < .5:
                s.advance()
            s.burst([(t, [("unlock", 0), ("csig", 0)]) for t in range(1, n + 1)])
            s.advance()
            out.append(s.text())
    for i in range(count // 2):
        n = rng.randint(2, 7)
        nc = rng.randint(1, 2)
        nm = nc if rng.random() < .3 else 1
        pr = 8 if rng.random() < .4 else [rng.choice([1, 2, 4, 8, 15]) for _ in range(n)]
        free = rng.random() < .25
        s = Script("r%d" % i, n, free=free, prio=pr,
                   start=(1000, rng.choice([0, 999000000, 123456000, 500000000])))
        s.objects(mutex=nm, cond=nc)

        def wait(c):
            m = c % nm
            if rng.random() < timed:
                w = ("ctimed", c, m, rng.choice([0, 1, 1, 2, 3, 5, 7, 10, 10, 500, 1000, 3000]))
            else:
                w = ("cwait", c, m)
            hold = rng.choice([[], [], [("yield",)], [("sleep", rng.choice([1, 5, 2000]))]])
            return [("lock", m), w] + hold + [("unlock", m)]

        def note(c):
            m = c % nm
            o = ("csig", c) if rng.random() < .65 else ("cbc", c)
            if rng.random() < .5:
                return [("lock", m), o] + ([("yield",)] if rng.random() < .3 else []) + [("unlock", m)]
            return [o]

        def cmd():
            c = rng.randrange(nc)
            x = rng.random()
            if x < .5:
                return wait(c)
            if x < .82:
                return note(c)
            if x < .92:
                return [("wake", rng.randint(1, n))]
            if x < .96:
                return [("lock", c % nm), ("sleep", rng.choice([1, 4, 20])), ("unlock", c % nm)]
            return [("yield",)]
        if free:
            for t in range(1, n + 1):
                ops = []
                for _ in range(rng.randint(2, 10)):
                    ops += cmd()
                s.program(t, ops)
        else:
            for _ in range(rng.randint(4, 16)):
                x = rng.random()
                if x < .68:
                    ts = rng.sample(range(1, n + 1), rng.randint(1, n))
                    s.burst([(t, cmd()) for t in ts])
                elif x < .88:
                    s.advance()
                else:
                    s.delay(rng.choice([300, 999, 1000, 1500, 4000]))
            for c in range(nc):
                s.burst([(t, [("csig", c)]) for t in range(1, n + 1)])
        out.append(s.text())
    rng.shuffle(out)
    return out


def cond_crowd(ctx, timed, count):
    """Very many waiters of one condition variable."""
    rng = ctx.rng
    out = []
    for i in range(count):
        n = rng.choice([12, 20, 40, 70])
        s = Script("c%d" % i, n, prio=rng.choice([8, [rng.choice([1, 4, 8, 15]) for _ in range(n)]]))
        s.objects(mutex=1, cond=1)
        for _ in range(rng.randint(1, 2)):
            ts = rng.sample(range(1, n + 1), n)
            for a in range(0, n - 1, 10):
                s.burst([(t, [("lock", 0), ("ctimed", 0, 0, rng.choice([5, 10, 11, 12, 1000]))
                              if rng.random() < timed else ("cwait", 0, 0), ("unlock", 0)])
                         for t in ts[:-1][a:a + 10]])
            x = rng.random()
            if x < .3:
                # no more at once: any waiters may be chosen
                for _ in range(rng.randint(1, n)):
                    s.burst([(ts[-1], [("csig", 0)] * rng.choice([1, 1, 2]))])
            elif x < .5:
                s.advance()
                s.burst([(ts[-1], [("lock", 0), ("csig", 0), ("csig", 0), ("yield",), ("unlock", 0)])])
            s.burst([(ts[-1], [("cbc", 0)])])
            s.advance()
        out.append(s.text())
    return out


COND_NEED = ["LockOps", "Wait", "Expire", "Leave", "Relock", "Signal", "Broadcast"]


def c07(ctx):
    ctx.model("CondImpl", need=COND_NEED)
    run_both(ctx, "CondTrace", cond_scripts(ctx, .3, 450 if ctx.quick else 5000), "cond")
    ctx.check_traces("CondTrace", kdrv(ctx), cond_crowd(ctx, .3, 12 if ctx.quick else 80), what="very many waiters")


def c08(ctx):
    ctx.model("CondImpl", need=COND_NEED)
    run_both(ctx, "CondTrace", cond_scripts(ctx, .8, 450 if ctx.quick else 5000), "timed cond wait")
    ctx.check_traces("CondTrace", kdrv(ctx), cond_crowd(ctx, .8, 12 if ctx.quick else 80), what="very many waiters")


# -------------------------------------------------------- C01, C02, C03 --
def from_sched(ctx, num, **kw):
    """Scripts that make the scheduler follow behaviours of SchedGen."""
    out = []
    for i, h in enumerate(ctx.generate("SchedGen", "SchedGen.cfg", num, 70)):
        n = 5
        auto = [0] * (n + 1)
        progs = {t: [] for t in range(1, n + 1)}
        curp = {}
        st = {t: "stop" for t in range(1, n + 1)}
        phase = 0
        ok = True
        for e in h:
            t, o = e[0], e[1]
            if o == "turn":
                continue
            if t == 0:
                phase += 1
                if auto[e[2]]:
                    break
                auto[e[2]] = phase
                st[e[2]] = "run"
                curp[e[2]] = []
                progs[e[2]].append(curp[e[2]])
                continue
            if o == "spawn" and st[e[2]] == "stop":
                st[e[2]] = "run"
                curp[e[2]] = []
                progs[e[2]].append(curp[e[2]])
            if o == "ret":
                if ctx.rng.random() < .4:
                    curp[t].append(("exit", ctx.rng.choice([0, 0, 3, 20])))
                st[t] = "stop"
                continue
            curp[t].append(tuple([o] + ([e[2]] if o in ("spawn", "wake", "setprio") else []) +
                                 e[3:]))
        s = Script("g%d" % i, n, free=True, prio=8, **kw)
        s.auto = auto
        for t in progs:
            for p in progs[t]:
                s.program(t, p or [("nop",)])
        out.append(s)
    return out


def life(ctx, i, n, weights, states=True, starts=2, lo=1, hi=10, auto=.6, prio=None, burns=(1, 10, 50, 999), **kw):
    """A random free-running script."""
    rng = ctx.rng
    s = Script("r%d" % i, n, free=True, states=states,
               prio=prio or [rng.choice([1, 2, 3, 5, 8, 15]) for _ in range(n)], **kw)
    ops = list(weights)
    w = [weights[o] for o in ops]

    def rop(t):
        o = rng.choices(ops, w)[0]
        if o in ("wake", "spawn", "join", "getprio", "ref", "unref", "create"):
            return (o, rng.randint(1, n))
        if o == "setprio":
            return (o, rng.randint(1, n), rng.choice([-3, 0, 1, 1, 2, 4, 8, 15, 16, 40]))
        if o == "exit":
            return (o, rng.choice([0, 1, 5, 30]))
        if o == "sleep":
            return (o, rng.choice([0, 1, 1, 2, 3, 10]))
        if o == "usleep":
            return (o, rng.choice([0, 1, 10, 500, 1000]))
        if o == "burn":
            return (o, rng.choice(burns))
        return (o,)
    for t in range(1, n + 1):
        s.auto[t] = (rng.choice([1, 1, 1, 2, 3]) if rng.random() < auto else 0)
        for _ in range(rng.randint(1, starts)):
            s.program(t, [rop(t) for _ in range(rng.randint(lo, hi))])
    if not any(a == 1 for a in s.auto):
        s.auto[1] = 1
    return s


def c01(ctx):
    rng = ctx.rng
    ctx.model("SchedModel", "SchedModel.cfg" if ctx.quick else "SchedModelBig.cfg",
              need=["Outside", "Turn", "Yields", "Others"])
    k = 1 if ctx.quick else 10
    sc = from_sched(ctx, 100 * k, states=True)
    w = dict(spawn=4, **{"yield": 4}, waitio=1.5, wake=5, exit=.7, ret=.5, dcheck=1.5, sleep=.6,
             setprio=.4)
    for i in range(300 * k):
        sc.append(life(ctx, i, rng.randint(2, 9), w, starts=4))
    # without waiting everything ends and the system can be run again
    w2 = dict(w, waitio=0)
    for i in range(100 * k):
        sc.append(life(ctx, 10000 + i, rng.randint(2, 9), w2, starts=4))
    sc = [s.text() for s in sc]
    rng.shuffle(sc)
    run_both(ctx, "TaskTrace", sc, "task life cycle")
    big = []
    for i, n in enumerate([255, 256, 310]):
        s = life(ctx, 20000 + i, n, w2, states=False, hi=3, starts=1)
        s.auto[1:] = [1] * n
        big.append(s.text())
    ctx.check_traces("TaskTrace", kdrv(ctx), big, what="very many tasks")


def c02(ctx):
    rng = ctx.rng
    ctx.model("SchedModel", "SchedModel.cfg" if ctx.quick else "SchedModelBig.cfg",
              need=["Outside", "Turn", "Yields", "Others"])
    k = 1 if ctx.quick else 10
    sc = from_sched(ctx, 100 * k, states=True)
    w = dict(waitio=4, wake=7, **{"yield": 4}, sleep=1.2, usleep=.8, burn=.3, spawn=.4, ret=.05)
    for i in range(330 * k):
        sc.append(life(ctx, i, rng.randint(2, 9), w, hi=30, auto=.9))
    for i in range(12 * k):
        sc.append(life(ctx, 10000 + i, rng.randint(30, 120), w, hi=15, auto=.95, starts=1))
    sc = [s.text() for s in sc]
    rng.shuffle(sc)
    run_both(ctx, "TaskTrace", sc, "wait and wakeup")
    from . import io
    run_both(ctx, "ReactorTrace", io.reactor_random(ctx, 120), "wakeup by descriptors")


def c03(ctx):
    rng = ctx.rng
    ctx.model("SchedModel", "SchedModel.cfg" if ctx.quick else "SchedModelBig.cfg",
              need=["Outside", "Turn", "Yields", "Others"])
    ctx.model("SchedModel", "SchedFair.cfg", need=["Turn", "Yields"])
    k = 1 if ctx.quick else 10

    def pr(n):
        x = rng.random()
        if x < .3:
            return [8] * n
        if x < .5:
            return [rng.choice([1, 2]) for _ in range(n)]
        if x < .6:
            return [rng.choice([0, 0, 1, 8, 15]) for _ in range(n)]
        return [rng.choice([-1, 1, 1, 2, 3, 4, 5, 7, 8, 11, 14, 15, 17]) for _ in range(n)]
    sc = from_sched(ctx, 150 * k)
    w = dict(**{"yield": 10}, waitio=2, wake=5, setprio=1, getprio=.6, spawn=1.5, ret=.1)
    for i in range(220 * k):
        n = rng.randint(2, 10)
        sc.append(life(ctx, i, n, w, states=False, hi=40, auto=.8, prio=pr(n)))
    for i in range(30 * k):
        n = rng.randint(2, 6)
        sc.append(life(ctx, 10000 + i, n, {"yield": 1}, states=False, starts=1, lo=60, hi=150,
                       auto=1, prio=pr(n)))
    for i in range(8 * k):
        n = rng.randint(40, 200)
        sc.append(life(ctx, 20000 + i, n, w, states=False, starts=1, lo=2, hi=10, auto=.9,
                       prio=pr(n)))
    for s in sc:
        s.cfg = '"clock":0,"prio":[%s]' % ",".join(map(str, s.prio[1:]))
    sc = [s.text() for s in sc]
    rng.shuffle(sc)
    run_both(ctx, "SchedTrace", sc, "dispatch order")
    # the configuration that charges measured time
    prog = kdrv(ctx, CONFIG_SCHED_CLOCK="CLOCK_MONOTONIC")
    if "variants_not_built" in ctx.notes:
        return
    sc = []
    for i in range(80 * k):
        n = rng.randint(2, 6)
        s = life(ctx, 30000 + i, n, dict(w, burn=5), states=False, hi=25, auto=.8, prio=pr(n))
        s.cfg = '"clock":1,"prio":[%s]' % ",".join(map(str, s.prio[1:]))
        sc.append(s.text())
    # turns of many seconds
    for i in range(20 * k):
        n = rng.randint(2, 6)
        s = life(ctx, 40000 + i, n, dict(w, burn=2), states=False, hi=20, auto=.8, prio=pr(n),
                 burns=[1000000 * x for x in (1, 2, 3, 4, 5, 8, 13, 40)])
        s.cfg = '"clock":2,"prio":[%s]' % ",".join(map(str, s.prio[1:]))
        sc.append(s.text())
    ctx.check_traces("SchedTrace", prog, sc, what="dispatch order, measured time")


# ------------------------------------------------------------- C04, C05 --
def c04(ctx):
    rng = ctx.rng
    ctx.model("JoinImpl", need=["Start", "Wait", "Wake", "Join", "Again", "End"])
    k = 1 if ctx.quick else 10
    sc = []
    w = dict(join=4, wake=4, **{"yield": 4}, waitio=1.5, spawn=3, exit=.8, ret=.4, sleep=.4)
    for i in range(350 * k):
        sc.append(life(ctx, i, rng.randint(2, 7), w, states=False, starts=4, hi=12, auto=.7).text())
    w = dict(w, waitio=.3, join=6)
    for i in range(150 * k):
        sc.append(life(ctx, 10000 + i, rng.randint(2, 7), w, states=False, starts=6, hi=8,
                       auto=.7).text())
    run_both(ctx, "JoinTrace", sc, "join")
    # very many tasks join the same one, or each other in a row
    big = []
    for i in range(10 if ctx.quick else 80):
        n = rng.choice([12, 20, 40, 100])
        s = Script("c%d" % i, n, free=True, prio=[rng.choice([1, 4, 8, 15]) for _ in range(n)])
        row = rng.random() < .4
        for t in range(1, n + 1):
            s.auto[t] = 1
            end = rng.choice([[], [("exit", rng.choice([0, 5, 30]))]])
            go = [("yield",)] * rng.randint(0, 4)
            s.program(t, (go + [("sleep", 1)] if t == 1 else go + [("join", t - 1 if row else rng.choice([1, 1, 1, 2]))]
                          if t > 2 or row else go * 3) + go + end)
        big.append(s.text())
    ctx.check_traces("JoinTrace", kdrv(ctx), big, what="very many joins")


def c05(ctx):
    rng = ctx.rng
    ctx.model("TaskRefImpl", need=["New", "Ref", "Unref", "Start", "End", "Free"])
    k = 1 if ctx.quick else 10
    sc = []
    w = dict(spawn=4, create=1, ref=3, unref=4, **{"yield": 3}, waitio=.6, wake=2, exit=.8, ret=.5,
             sleep=.2, join=1.2)
    prog = kdrv(ctx, ENABLE_MEMALLOC_SLICE="0")
    for i in range(500 * k):
        s = life(ctx, i, rng.randint(2, 7), w, states=True, starts=4, hi=14, auto=.6, keepref=False)
        sc.append(s.text())
    for i, n in enumerate([127, 128, 255, 256, 300]):
        s = Script("n%d" % i, 2, free=True, keepref=False)
        s.auto[1] = 1
        s.program(1, [("create", 2)] + [("ref", 2)] * n + [("spawn", 2), ("yield",), ("yield",)] + [("unref", 2)] * (n + 1))
        s.program(2, rng.choice([[], [("yield",)] * 3, [("exit", 1)]]))
        sc.append(s.text())
    rng.shuffle(sc)
    ctx.check_traces("TaskRefTrace", prog, sc[:len(sc) // 2], env=GUARD, what="task references")
    ctx.check_traces("TaskRefTrace", prog, sc[len(sc) // 2:], what="task references")


# ------------------------------------------------------------------- C12 --
def c12(ctx):
    rng = ctx.rng
    ctx.model("SleepImpl", need=["Sleep", "Resume", "Wake", "Fire", "Tick"])
    k = 1 if ctx.quick else 10
    starts = [(1000, 0), (1000, 999999999), (5, 999000000), (77777, 500000001), (1000, 999999000),
              (2000000, 1), (1000, 990000000)]
    sc = []
    for i, h in enumerate(ctx.generate("SleepGen", "SleepGen.cfg", 120 * k, 50)):
        unit = rng.choice([("sleep", 1), ("sleep", 10), ("usleep", 1), ("usleep", 333),
                           ("sleep", 250), ("usleep", 1000)])
        us = unit[1] * (1000 if unit[0] == "sleep" else 1)
        s = Script("g%d" % i, 5, prio=[rng.choice([1, 4, 8]) for _ in range(5)],
                   start=rng.choice(starts))
        seq = []
        for t, o, x in h:
            if o == "tick":
                s.burst(group_by_task(seq))
                seq = []
                s.delay(us)
            elif o == "sleep":
                seq.append((t, (unit[0], x * unit[1])))
            else:
                seq.append((t, (o, x)))
        s.burst(group_by_task(seq)).advance().advance()
        sc.append(s.text())
    for n, num in [(2, 200 if ctx.quick else 0), (3, 300 if ctx.quick else 0)]:
        for i, h in enumerate(tour(ctx, "SleepGen", n, "Max = 5\nDurs = {0, 1, 2, 3}\n", num)):
            s = Script("t%d-%d" % (n, i), n, prio=[rng.choice([1, 4, 8]) for _ in range(n)],
                       start=rng.choice(starts))
            for t, o, x in h:
                if o == "tick":
                    s.delay(1000)
                else:
                    s.burst([(t, [(o, x)])])
            for _ in range(3):
                s.advance()
            sc.append(s.text())
    for i in range(250 * k):
        n = rng.choice([1, 2, 3, 4, 6, 9])
        free = rng.random() < .4
        s = Script("r%d" % i, n, free=free, start=rng.choice(starts),
                   prio=[rng.choice([1, 2, 4, 8, 15]) for _ in range(n)])
        style = rng.random()

        def dur():
            if style < .5:
                o, c = rng.choice([("sleep", [0, 1, 2, 3, 5, 10, 10, 11, 999, 1000, 1001]),
                                   ("usleep", [0, 1, 2, 10, 999, 1000, 1001, 5000, 1000000])])
            elif style < .75:
                o, c = ("sleep", [1, 10, 10, 20])
            else:
                o, c = rng.choice([("sleep", [4294967, 4294968, 4294967295, 2147483648, 2147483647,
                                              9000000, 3600000, 86400000]),
                                   ("usleep", [4294967295, 4294967294, 2147483648, 3999999999,
                                               1000000, 999999])])
            return (o, rng.choice(c))

        def rop(t):
            x = rng.random()
            if x < .55:
                return dur()
            if x < .85:
                return ("wake", rng.randint(1, n))
            if x < .93:
                return ("yield",)
            return ("burn", rng.choice([1, 300, 1000, 2500, 1000000]))
        if free:
            for t in range(1, n + 1):
                s.program(t, [rop(t) for _ in range(rng.randint(2, 15))])
        else:
            for _ in range(rng.randint(4, 16)):
                x = rng.random()
                if x < .55:
                    ts = rng.sample(range(1, n + 1), rng.randint(1, n))
                    s.burst([(t, [rop(t) for _ in range(rng.randint(1, 3))]) for t in ts])
                elif x < .8:
                    s.advance()
                else:
                    s.delay(rng.choice([1, 500, 1000, 1000, 5000, 1000000]))
        sc.append(s.text())
    for i in range(14 * k):
        n = rng.randint(40, 200)
        s = Script("b%d" % i, n, free=True, start=rng.choice(starts))
        c = [rng.randint(1, 60) for _ in range(rng.choice([3, 20, 200]))]
        for t in range(1, n + 1):
            s.program(t, [("sleep", rng.choice(c)) if rng.random() < .7 else
                          ("wake", rng.randint(1, n)) for _ in range(rng.randint(2, 6))])
        sc.append(s.text())
    rng.shuffle(sc)
    run_both(ctx, "SleepTrace", sc, "sleep")
