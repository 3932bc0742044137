"""Checks of the parts that need no tasks: circular buffer, memory."""
from . import core

WRAPS_MEM = ["malloc", "calloc", "realloc", "free", "memalign", "aligned_alloc", "posix_memalign", "reallocarray",
             "strdup"]


def sdrv(ctx, **over):
    return ctx.program("sdrv", ["sdrv.c"], ctx.lib(**over), WRAPS_MEM)


def script(sid, lines, cfg=""):
    return "S %s\n%s%sE\n" % (sid, "G %s\n" % cfg if cfg else "", "".join(x + "\n" for x in lines))


# ------------------------------------------------------------------- C18 --
def c18(ctx):
    rng = ctx.rng
    ctx.model("RingImpl", need=["Put", "Get", "PutKept", "GetKept"])
    k = 1 if ctx.quick else 10
    sc = []
    hs = ctx.tour("RingGen", "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANT MaxCap = %d\n"
                  % (4 if ctx.quick else 7), 0)
    for i, h in enumerate(hs):
        ls = ["cnew %d" % h[0][1]]
        for o, n in h[1:]:
            ls += ["c%s %d" % (o[1], -2) if o[0] == "o" else "c%s %d" % (o, n), "cr -1", "cw -1"]
        sc.append(script("t%d" % i, ls))
    for i in range(300 * k):
        cap = rng.choice([0, 1, 2, 3, 5, 8, 16, 61, 64, 100, 1000, 4095, 4096, 65536, 100001])
        ls = ["cnew %d" % cap]
        refs = 1
        for _ in range(rng.randint(10, 120)):
            x = rng.random()
            top = rng.choice([3, cap + 5, cap // 2 + 1])
            if x < .4:
                ls.append("cw %d" % rng.choice([rng.randint(0, top), cap, 1]))
            elif x < .8:
                ls.append("cr %d" % rng.choice([rng.randint(0, top), cap, 1]))
            elif x < .86:
                ls.append(rng.choice(["cw -1", "cr -1", "cw -2", "cr -2"]))
            elif x < .92:
                ls.append("ck%s %d" % (rng.choice("wr"), rng.choice([rng.randint(0, top), cap, 1])))
            elif x < .96:
                refs += 1
                ls.append("cref")
            elif refs > 1:
                refs -= 1
                ls.append("cunref")
        ls += ["cunref"] * refs
        sc.append(script("r%d" % i, ls))
    for i, n in enumerate([255, 256, 300]):
        sc.append(script("n%d" % i, ["cnew 10", "cw 3"] + ["cref"] * n + ["cr 1"] + ["cunref"] * (n - 1) +
                         ["cw 2", "cunref", "cr 2", "cw 1", "cunref"]))
    for i, n in enumerate([2 ** 64 - 1, 2 ** 64 - 8, 2 ** 64 - 31, 2 ** 64 - 64, 2 ** 63, 2 ** 62]):
        sc.append(script("b%d" % i, ["cnew %d" % n, "cw 10", "cr 5"]))
    ctx.check_traces("RingTrace", sdrv(ctx), sc, what="circular buffer")


# ------------------------------------------------------------------- C22 --
ALIGN, TOP = 64, 4096       # size classes of the default build
HUGE = [2 ** 37, 2 ** 37 + 64, 2 ** 38, 2 ** 38 + 64, 2 ** 38 + 640, 2 ** 38 + 4096, 2 ** 38 + 4160, 2 ** 39 + 1,
        2 ** 32, 2 ** 32 + 64, 2 ** 63, 2 ** 63 + 64, 2 ** 64 - 1, 2 ** 64 - 15, 2 ** 64 - 16, 2 ** 64 - 17,
        2 ** 64 - 63, 2 ** 64 - 64, 2 ** 64 - 65, 2 ** 64 - 80, 2 ** 64 - 129]


def memsize(rng):
    x = rng.random()
    if x < .05:
        return 0
    if x < .4:
        return max(0, ALIGN * rng.choice([1, 2, 3, 5, 32, 63, 64, 65]) + rng.choice([-17, -16, -1, 0, 1, 15, 16]))
    if x < .6:
        return rng.choice([1, 8, 63, 64, 65, 128, 129])
    if x < .9:
        return rng.randint(1, TOP)
    return rng.randint(TOP - 70, 6 * TOP)


def memops(rng, n, nh):
    ls = []
    few = [memsize(rng) for _ in range(rng.randint(1, 4))] if rng.random() < .6 else None
    up = rng.uniform(.3, .6)
    for _ in range(n):
        h = rng.randrange(nh)
        x = rng.random()
        z = rng.choice(few) if few else memsize(rng)
        if x < up:
            o = rng.random()
            if o < .5:
                ls.append("m %d %d" % (h, z))
            elif o < .75:
                ls.append("z %d %d" % (h, z))
            else:
                d = rng.choice([1, 2, 3, 4, 8, 16])
                ls.append("k %d %d %d" % ((h,) + rng.choice([(z // d, d), (d, z // d)])))
        elif x < .72:
            ls.append("r %d %d" % (h, z))
        else:
            ls.append("f %d" % h)
        if rng.random() < .02:
            ls.append("nomem %d" % rng.randint(1, 3))
        if rng.random() < .02:
            ls.append("%s %d %d" % (rng.choice("mzr"), h, rng.choice(HUGE)))
    return ls


def c22(ctx):
    rng = ctx.rng
    ctx.model("SliceImpl", need=["Alloc", "Free", "Resize"])
    k = 1 if ctx.quick else 10
    hs = ctx.tour("SliceGen", "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS Handles = {1, 2, 3}\n"
                  "Classes = {1, 2, 3}\nLimit = 3\nBlocks = {1, 2, 3, 4, 5, 6, 7}\nLarge = 4\n",
                  300 if ctx.quick else 0)
    sc = []
    for i, h in enumerate(hs):
        cl = rng.choice([(64, 128, 192), (64, 4096, 1024), (4032, 4096, 64), (1, 65, 4033)])
        size = {1: cl[0], 2: cl[1], 3: cl[2], 4: rng.choice([4097, 5000, 20000])}
        ls = ["init"] + ["%s %d %d" % (o, x, size.get(z, 0)) for o, x, z in h]
        # everything is still sound afterwards
        ls += ["m %d %d" % (10 + j, size[1 + j % 3]) for j in range(6)] + ["f %d" % x for x in range(20)] + ["fini"]
        sc.append(script("t%d" % i, ls, '"limit":3,"slice":1'))
    for i in range(200 * k):
        ls = ["init"] + memops(rng, rng.randint(20, 150), rng.choice([3, 8, 20]))
        if rng.random() < .8:
            ls += ["f %d" % h for h in range(20)]
        if rng.random() < .9:
            ls.append("fini")
        sc.append(script("r%d" % i, ls, '"limit":3,"slice":1'))
    ctx.check_traces("MemoryTrace", sdrv(ctx, CONFIG_MEMALLOC_SLICE_MAX_COUNT="3"), sc, what="few freed blocks kept")

    sc = []
    for i, n in enumerate(HUGE):
        ls = ["init"]
        # freed blocks of all kinds are there to be mistaken
        ls += ["m %d %d" % (j, z) for j, z in enumerate([64, 640, 4096, 128, 5000])] + ["f %d" % j for j in range(4)]
        for o in "mz":
            ls += ["%s 9 %d" % (o, n)]
        ls += ["m 10 100", "r 10 %d" % n, "r 10 50", "f 10", "r 4 %d" % n, "f 4", "fini"]
        sc.append(script("h%d" % i, ls, '"limit":1000,"slice":1'))
    for i, (a, b) in enumerate([(0, 0), (0, 5), (5, 0), (2 ** 32, 2 ** 32), (2 ** 33, 2 ** 31 + 1), (2 ** 63, 2),
                                (2 ** 64 - 1, 2 ** 64 - 1), (2 ** 62 + 1, 4), (2 ** 61 + 2, 8), (3, 2 ** 63),
                                (2 ** 64 - 1, 2), (2 ** 32 + 1, 2 ** 32), (2 ** 58 + 1, 64), (2 ** 52, 4096),
                                (2 ** 52 + 1, 4096), (6148914691236517206, 3)]):
        sc.append(script("k%d" % i, ["init", "k 1 %d %d" % (a, b), "k 2 %d %d" % (b, a), "m 3 64", "f 1", "f 2", "f 3",
                                     "fini"], '"limit":1000,"slice":1'))
    for i in range(60 * k):
        ls = ["init"] + memops(rng, rng.randint(20, 200), rng.choice([3, 8, 20]))
        if i % 10 == 0:
            ls += ["fini", "init"]
        ls += ["f %d" % h for h in range(20)] + ["fini"]
        sc.append(script("d%d" % i, ls, '"limit":1000,"slice":1'))
    # more freed blocks than are kept
    for i in range(2 if ctx.quick else 10):
        a, b, z1, z2 = rng.randint(300, 700), rng.randint(200, 400), rng.choice([1, 64, 500]), rng.choice([2000, 4096])
        ls = ["init", "many 0 %d %d" % (a - 1, z1), "many %d %d %d" % (a, a + b - 1, z2),
              "many %d 1059 %d" % (a + b, rng.choice([65, 4000])), "none 0 1059", "many 0 20 %d" % z2, "none 0 1059",
              "m 0 %d" % z1, "f 0", "fini"]
        sc.append(script("n%d" % i, ls, '"limit":1000,"slice":1'))
    ctx.check_traces("MemoryTrace", sdrv(ctx), sc, what="default allocator")

    sc = [script("s%d" % i, ["init"] + memops(rng, rng.randint(20, 100), 8) + ["f %d" % h for h in range(20)] + ["fini"],
                 '"limit":0,"slice":0') for i in range(60 * k)]
    ctx.check_traces("MemoryTrace", sdrv(ctx, ENABLE_MEMALLOC_SLICE="0"), sc, what="system allocator")
