"""Checks of reference-counted objects."""
from . import cio, core
from .seq import WRAPS_MEM, script

TSAN = {"CFLAGS": "-fsanitize=thread", "ENABLE_MEMALLOC_SLICE": "0"}
CFG = core.TRACE_CFG + "CONSTANTS Threads = {0, 1, 2, 3, 4}\nAtoms = {1, 2, 3, 4, 5, 6, 7}\n"


def tdrv(ctx):
    return ctx.program("tdrv", ["tdrv.c"], ctx.lib(**TSAN), WRAPS_MEM)


def obj_program(rng, n, nobj):
    """Operations of n threads; every reference is given back at last."""
    ls, refs = [], {o: 0 for o in range(1, nobj + 1)}
    for t in range(1, n + 1):
        mine = {}
        for o in refs:
            mine[o] = rng.choice([0, 1, 1, 2]) if n > 1 else 1
            refs[o] += mine[o]
        for _ in range(rng.randint(0, 6)):
            os = [o for o in mine if mine[o]]
            if not os:
                break
            o = rng.choice(os)
            x = rng.choice(["use", "ref", "unref", "unref"])
            mine[o] += {"use": 0, "ref": 1, "unref": -1}[x]
            ls.append("%s %d %d" % (x, t, o))
        keep = rng.random() < .1
        for o in mine:
            if not keep:
                ls += ["unref %d %d" % (t, o)] * mine[o]
    return ["threads %d" % n] + ["new %d %d" % (o, r) for o, r in refs.items() if r] + ls


def c25(ctx):
    rng = ctx.rng
    k = 1 if ctx.quick else 10
    ctx.model("StagesImpl", need=["Create", "DoRef", "DoUnref", "Release"])
    ctx.model("ObjectImpl", need=["Use", "Ref", "Unref", "Destroy"])
    sc = [cio.stages_random(rng, "s%d" % i, False) for i in range(250 * k)]
    sc += [cio.stages_refs(rng, "n%d" % i, False) for i in range(4)]
    ctx.check_traces("StagesTrace", cio.odrv(ctx), sc, what="objects")

    sc = []
    tiny = [["threads 2", "new 1 2", "use 1 1", "unref 1 1", "use 2 1", "unref 2 1"],
            ["threads 2", "new 1 2", "ref 1 1", "unref 1 1", "unref 1 1", "ref 2 1", "use 2 1", "unref 2 1", "unref 2 1"],
            ["threads 3", "new 1 3", "unref 1 1", "use 2 1", "unref 2 1", "ref 3 1", "unref 3 1", "unref 3 1"],
            ["threads 2", "fresh 1 0 1", "fresh 2 0 2"], ["threads 2", "fresh 1 2 0", "fresh 2 2 0"],
            ["threads 2", "fresh 1 3 0", "fresh 2 3 0"], ["threads 2", "fresh 1 1 0", "fresh 2 0 1"]]
    for i, p in enumerate(tiny):
        n = int(p[0].split()[1])
        # one change of the running thread anywhere, then more of them
        for at in range(1, 50):
            sc.append(script("p%d_%d" % (i, at), p + ["at 1 %d %d %d" % (rng.randint(1, n), at + 1, rng.randint(1, n))]))
        for j in range(60 * k):
            pts = sorted(rng.sample(range(1, 45), rng.randint(2, 6)))
            sc.append(script("q%d_%d" % (i, j), p + ["at " + " ".join("%d %d" % (x, rng.randint(1, n)) for x in pts)]))
    for i in range(600 * k):
        p = obj_program(rng, rng.randint(2, 4), rng.randint(1, 3))
        sc.append(script("r%d" % i, p + ["random %d %d" % (rng.randint(1, 10 ** 6), rng.choice([1, 2, 3, 8]))]))
    ctx.check_traces("ObjectTrace", tdrv(ctx), sc, cfg=CFG, what="shared objects")
