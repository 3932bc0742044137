"""Checks of task systems in several threads."""
from . import chan, core, io, kern
from .seq import WRAPS_MEM, script

WRAPS_PT = ["pthread_spin_lock", "pthread_spin_trylock", "pthread_spin_unlock", "pthread_rwlock_rdlock",
            "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "sem_init", "sem_wait", "sem_trywait", "sem_post",
            "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_wait",
            "pthread_cond_signal", "pthread_cond_broadcast", "pthread_once", "pthread_create", "pthread_join"]
WRAPS_Y = WRAPS_MEM + WRAPS_PT + ["epoll_create", "epoll_create1", "timerfd_create", "eventfd", "close",
                                  "epoll_wait", "epoll_pwait", "epoll_ctl", "pthread_setspecific"]
TSAN = {"CFLAGS": "-fsanitize=thread"}
CFG = core.TRACE_CFG + "CONSTANT Threads = {1, 2, 3, 4, 5, 6}\n"


def ydrv(ctx, **over):
    return ctx.program("ydrv", ["ydrv.c"], ctx.lib(**dict(TSAN, **over)), WRAPS_Y)


def schedule(rng, n, span):
    """How the threads take turns."""
    x = rng.random()
    if x < .45:
        return "random %d %d" % (rng.randrange(1, 1 << 30), rng.choice([1, 2, 3, 5, 10, 30, 100, 400]))
    at = sorted(rng.sample(range(1, span), min(rng.randint(1, 12), span - 1)))
    return "at " + " ".join("%d %d" % (p, rng.randint(1, n)) for p in at)


def history(rng, t, rounds, faults):
    """What one thread does."""
    ls = []
    up = False
    for _ in range(rounds):
        x = rng.random()
        if not up:
            if x < .25:
                ls.append("init %d %d %d %d" % ((t,) + rng.choice(
                    [(rng.randint(1, 6), 0, 0), (0, rng.randint(1, 2), 0), (0, 0, 1)])))
                # whether it failed is not known here
                ls.append("init %d 0 0 0" % t)
                up = True
            elif x < .35 and faults:
                ls.append("fault %d" % t)
            elif x < .5:
                ls.append("peek %d" % t)
            else:
                ls.append("init %d 0 0 0" % t)
                up = True
        elif x < .15:
            ls.append("init %d 0 0 0" % t)
        elif x < .45:
            ls.append("fini %d" % t)
            up = False
        elif x < .55 and faults:
            ls.append("fault %d" % t)
        else:
            ls.append("run %d %s" % (t, " ".join(
                "".join(rng.choice("yyysmmflli" + ("g" if faults else ""))
                        for _ in range(rng.randint(1, 8))) for _ in range(rng.randint(1, 4)))))
    if up and rng.random() < .95:
        ls.append("fini %d" % t)
        ls.append("peek %d" % t)
    return ls


def crowd(ctx, module, scripts, n, what, cfg=None):
    """Groups of n scripts, each group executed by n threads at once."""
    rng = ctx.rng
    scripts = scripts[:len(scripts) // n * n]
    for i in range(0, len(scripts), n):
        x = rng.random()
        if x < .6:
            z = "Z %d %d" % (rng.randrange(1, 1 << 30), rng.choice([1, 2, 5, 20, 100, 1000]))
        else:
            at = sorted(rng.sample(range(1, rng.choice([500, 5000, 30000])), rng.randint(5, 60)))
            z = "Y " + " ".join("%d %d" % (p, rng.randint(1, n)) for p in at)
        scripts[i] = scripts[i].replace("\nE\n", "\n%s\nE\n" % z)
    lib = ctx.lib(**dict(TSAN, ENABLE_MEMALLOC_SLICE=rng.choice(["0", "1"])))
    prog = ctx.program("kbat", ["kdrv.c", "kio.c"], lib, core.WRAPS_KERN + WRAPS_PT, cflags=["-DKDRV_BATON"])
    ctx.check_traces(module, prog, scripts, what=what, args=(str(n),), group=n, cfg=cfg)


def c24(ctx):
    rng = ctx.rng
    ctx.model("SystemsImpl", need=["Acquire", "Refuse", "Again", "Release", "Fault"])
    k = 1 if ctx.quick else 12
    sc = []
    for i in range(300 * k):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        faults = rng.random() < .5
        ls = ["threads %d" % n, schedule(rng, n, rng.choice([300, 2000, 10000]))]
        for t in range(1, n + 1):
            ls += history(rng, t, rng.randint(2, 7), faults)
        sc.append(script("h%d" % i, ls))
    half = len(sc) * 2 // 3
    ctx.check_traces("SystemsTrace", ydrv(ctx), sc[:half], cfg=CFG, what="task systems")
    ctx.check_traces("SystemsTrace", ydrv(ctx, ENABLE_MEMALLOC_SLICE="0"), sc[half:], cfg=CFG, what="task systems")
    w = dict(spawn=3, waitio=1.5, wake=6, **{"yield": 5}, sleep=1, exit=.5, ret=.3)
    crowd(ctx, "TaskTrace", [kern.life(ctx, i, rng.randint(2, 6), w, starts=3).text() for i in range(48 * k)],
          rng.choice([2, 3, 4]), "tasks of several threads")
    crowd(ctx, "CondTrace", kern.cond_scripts(ctx, .5, 96 * k, spec=False), rng.choice([2, 3]),
          "synchronisation in several threads")
    crowd(ctx, "ChannelTrace", chan.random_scripts(ctx, 48 * k), rng.choice([2, 3, 4]), "channels of several threads")
    crowd(ctx, "IoTrace", io.io_random(ctx, rng.random() < .5, 48 * k), rng.choice([2, 3]), "I/O in several threads")


# ------------------------------------------------------------------- C23 --
WRAPS_D = WRAPS_MEM + WRAPS_PT + ["epoll_create", "epoll_create1", "socketpair", "close", "read", "write", "poll",
                                  "epoll_ctl", "epoll_wait", "epoll_pwait", "getaddrinfo", "getnameinfo"]
DNS_CFG = core.TRACE_CFG + ("CONSTANTS Askers = {%s}\nQueries = {}\nHelpers = {}\n"
                            % ", ".join(str(10 * t + n) for t in range(1, 6) for n in range(1, 7)))


def ddrv(ctx, **over):
    return ctx.program("ddrv", ["ddrv.c"], ctx.lib(**dict(TSAN, **over)), WRAPS_D)


def lookups(rng, sid, threads, first=None):
    """A script of lookups from the tasks of several threads."""
    ls = ["threads %d" % threads, schedule(rng, threads + 1, rng.choice([100, 600, 2000, 6000]))]
    if first:
        ls[1] = first
    if rng.random() < .3:
        ls.append("spurious %d" % rng.randint(1, 3))
    x = rng.random()
    if x < .08:
        ls.append("nothread 1")
    elif x < .16:
        ls.append("nofd %d %d" % rng.choice([(0, 1), (1, 0)]))
    lean = x >= .16
    qs, nq, ng = [], 0, 0
    sysl = []
    for t in range(1, threads + 1):
        for _ in range(rng.choice([1, 1, 2, 3])):
            progs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                p = ""
                for _ in range(rng.choice([1, 1, 2, 3])):
                    nq += 1
                    ret = rng.choice([0, 0, 0, -2, -3, -8, -11])
                    hold = rng.choice([0, 0, 0, -1, -5, -40])
                    if rng.random() < .2:
                        # another task of the same system lets it go on
                        ng += 1
                        hold = ng
                        progs.append("y" * rng.randint(0, 6) + "o%d" % ng)
                    qs.append((ret, 100 + nq))
                    ls.append("q %d %d %d %d %d" % (nq, rng.random() < .4, hold, ret, 100 + nq))
                    p += "y" * rng.choice([0, 0, 1, 3]) + "l%d" % nq
                progs.append(p + "y" * rng.choice([0, 0, 2]))
            rng.shuffle(progs)
            sysl.append("system %d 0 %s" % (t, " ".join(progs[:6])))
            if len(progs) > 6:
                return lookups(rng, sid, threads, first)
    return script(sid, ls + sysl, '"lean":%d,"q":[%s]' % (lean, ",".join("[%d,%d]" % q for q in qs)))


def c23(ctx):
    rng = ctx.rng
    ctx.model("DnsImpl", need=["DoAsk", "Get", "HelperFails", "Made", "Give", "Read", "HTake", "HReply", "Remove",
                               "Free", "Over"])
    k = 1 if ctx.quick else 12
    sc = [lookups(rng, "l%d" % i, rng.choice([1, 2, 2, 3, 3, 4])) for i in range(300 * k)]
    # lookups in a row and the end of the system
    for i in range(250 * k):
        n = rng.choice([1, 1, 2])
        ls = ["threads %d" % n, "random %d %d" % (rng.randrange(1, 1 << 30), rng.choice([1, 2, 3, 4, 6, 10, 20]))]
        q = 0
        for t in range(1, n + 1):
            for _ in range(rng.choice([1, 2])):
                p = ""
                for _ in range(rng.randint(2, 4)):
                    q += 1
                    ls.append("q %d %d 0 0 %d" % (q, rng.random() < .5, q))
                    p += "l%d" % q
                ls.append("system %d 0 %s" % (t, p))
        sc.append(script("r%d" % i, ls, '"lean":1,"q":[%s]' % ",".join("[0,%d]" % (j + 1) for j in range(q))))
    rng.shuffle(sc)
    half = len(sc) // 2
    ctx.check_traces("DnsTrace", ddrv(ctx), sc[:half], cfg=DNS_CFG, what="lookups")
    ctx.check_traces("DnsTrace", ddrv(ctx, ENABLE_MEMALLOC_SLICE="0"), sc[half:], cfg=DNS_CFG, what="lookups")
