"""Checks of calls that obtain memory, address space or descriptors."""
from . import core
from .seq import WRAPS_MEM, script

WRAPS = WRAPS_MEM + ["socket", "socketpair", "pipe", "pipe2", "dup", "dup2", "dup3", "accept", "accept4", "eventfd",
                     "open", "openat", "ioctl", "fcntl", "epoll_ctl", "close", "mmap", "munmap", "mprotect"]
CFG = core.TRACE_CFG + 'CONSTANT Kinds = {"mem", "page", "fd"}\n'
# kinds of things and how many requests they make at most
KINDS = {"task": 4, "call": 1, "chan": 2, "sel": 1, "ring": 1, "cfd": 1, "csock": 1, "cnull": 1, "cbuf": 3,
         "pipe": 3, "pair": 3, "sock": 2, "dup": 2, "dup2": 2, "open": 2, "openat": 2, "creat": 2, "accept": 2}


def rdrv(ctx, **over):
    return ctx.program("rdrv", ["rdrv.c"], ctx.lib(**over), WRAPS)


def sizes(rng, kind):
    if kind == "task":
        return rng.choice([-1, 4096, 8192, 16384, 32768, 65536, 1 << 20]), 0
    if kind == "call":
        return rng.choice([0, 8, 16, 200]), rng.choice([4096, 8192, 16384, 65536])
    if kind == "chan":
        return rng.choice([0, 1, 8, 100, 4000]), rng.choice([0, 0, 1, 2, 16, 300])
    if kind == "ring":
        return rng.choice([1, 10, 64, 4096, 65536]), 0
    if kind == "cbuf":
        return rng.choice([0, 1, 100, 4096]), rng.choice([0, 1, 100, 4096])
    return rng.randint(0, 1), rng.randint(0, 1)


def make(rng, h, kind, at):
    if kind in ("splice", "csplice"):
        return "%s %d %d" % (kind, rng.choice([1, 7, 100, 4095, 4096, 65536]), at)
    return "%s %d %d %d %d" % ((kind, h) + sizes(rng, kind) + (at,))


def c27(ctx):
    rng = ctx.rng
    ctx.model("MeansImpl", need=["Enter", "Request", "Refuse", "Return", "Fail", "Succeed", "Drop"])
    k = 1 if ctx.quick else 8
    sc = []
    hs = ctx.tour("MeansGen", "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS Things = {1, 2, 3}\n"
                  'Careless = FALSE\nKinds = {"mem", "page", "fd"}\n', 150 * k)
    for i, h in enumerate(hs):
        ls = []
        for e in h:
            if e[0] == "new":
                kind = rng.choice(["pipe", "pair"]) if e[2] == "pipe" else \
                    rng.choice(["splice", "csplice"]) if e[2] == "splice" else \
                    rng.choice(["ring", "call", "sel", "cfd", "csock", "cnull"]) if e[2] == "ring" else e[2]
                ls.append(make(rng, e[1], kind, e[3]))
            else:
                ls.append("%s %d" % (e[0], e[1]))
        sc.append(("t%d" % i, ls))
    # every request of every kind, between things that exist
    for kind, n in sorted(KINDS.items()):
        for at in range(n + 2):
            other = rng.choice(sorted(KINDS))
            ls = [make(rng, 1, other, 0), make(rng, 2, "task", 0), "use 1", make(rng, 3, kind, at), "use 3",
                  make(rng, 3, kind, 0), "use 2", "use 3", "use 1", "del 1", make(rng, 3, kind, at), "use 3", "del 3",
                  make(rng, 1, other, 0), "use 1"]
            sc.append(("k%s%d" % (kind, at), ls))
    for kind in ("splice", "csplice"):
        for at in range(9):
            sc.append(("k%s%d" % (kind, at), [make(rng, 1, "cbuf", 0), "%s 4096 %d" % (kind, at), "use 1",
                                              make(rng, 2, kind, 0), "%s 77 %d" % (kind, at)]))
    for i in range(250 * k):
        ls = []
        hs = rng.randint(1, 8)
        some = rng.sample(sorted(KINDS), rng.randint(1, 6)) + ["splice", "csplice"] * (rng.random() < .3)
        for _ in range(rng.randint(5, 60)):
            x = rng.random()
            if x < .5:
                kind = rng.choice(some)
                ls.append(make(rng, rng.randint(1, hs), kind,
                               rng.choice([0, rng.randint(1, KINDS.get(kind, 6) + 1)])))
            elif x < .8:
                ls.append("use %d" % rng.randint(1, hs))
            else:
                ls.append("del %d" % rng.randint(1, hs))
        sc.append(("r%d" % i, ls))
    # sizes that cannot be had
    big = [("chan", s, b) for s in (0, 1, 16, 2 ** 31, 2 ** 32 - 17, 2 ** 32 - 2, 2 ** 32 - 1)
           for b in (2 ** 31 - 1, 2 ** 31, 2 ** 32 - 3, 2 ** 32 - 2, 2 ** 32 - 1)]
    big += [("task", s, 0) for s in (2 ** 31 - 1, 2 ** 31 - 4096, 2 ** 31 - 4097, 2 ** 31 - 8193)]
    big += [("call", b, s) for b in (0, 100, 2 ** 30) for s in (2 ** 31 - 1, 2 ** 31 - 17, 2 ** 31 - 5000)]
    big += [("ring", s, 0) for s in (2 ** 62, 2 ** 63 - 1)]
    big += [("cbuf", r, w) for r in (0, 10, 2 ** 63 - 1) for w in (0, 2 ** 62)]
    for i, (kind, a, b) in enumerate(big):
        sc.append(("b%d" % i, [make(rng, 1, "chan", 0), "%s 2 %d %d 0 1" % (kind, a, b), "use 2", "use 1", "del 2",
                               "%s 3 %d %d 1 1" % (kind, a, b), "use 3", "use 1"]))
    env = {"RDRV_DIR": ctx.work}
    for what, over, part in (
            ("plain allocator", {"ENABLE_MEMALLOC_SLICE": "0"}, sc),
            ("default build", {}, sc[::2]),
            ("stacks on the heap", {"ENABLE_MEMALLOC_SLICE": "0", "CONFIG_STACK_BACKEND": "STACK_HEAP"}, sc[::5]),
            ("forwarding by a buffer, no guards",
             {"ENABLE_MEMALLOC_SLICE": "0", "ENABLE_IO_SPLICE_SYSCALL": "0", "ENABLE_STACK_OVERFLOW_DETECTION": "0"},
             [s for s in sc if any("splice" in x for x in s[1]) or s[0].startswith("ktask")])):
        ctx.check_traces("MeansTrace", rdrv(ctx, **over),
                         [script(i, ls, '"slice":%d' % (not over)) for i, ls in part], env=env, cfg=CFG, what=what)
