"""Checks of stacks and calls on separate stacks."""
import os

from . import core
from .seq import WRAPS_MEM, script

SPARE = 1300     # what waiting, allocating and recording may take
TOP = 700        # frames of a stack's first function
FRAME = 420      # a nested frame


def pdrv(ctx, **over):
    return ctx.program("pdrv", ["pdrv.c"], ctx.lib(**over), WRAPS_MEM, extra=["-Wl,-z,now"])


class Nest:
    def __init__(self, rng, sizes, calls, deep):
        self.rng, self.sizes, self.calls, self.deep = rng, sizes, calls, deep
        self.left = rng.randint(5, 150)      # operations

    def wait(self, task):
        r = self.rng.random() * (1 if task else .7)      # the first one wakes the others
        return "y" if r < .7 else "w" if r < .9 else "s %d" % self.rng.choice([1, 10, 100])

    def frames(self, room, depth, task, out, tasks, own):
        """operations of a frame with room bytes of stack"""
        rng = self.rng
        while self.left > 0:
            self.left -= 1
            x = rng.random()
            if x < .3:
                out.append(self.wait(task))
            elif x < .55 and room > FRAME + SPARE and depth < self.deep:
                pad = rng.choice([0, 8, rng.randint(0, 300), rng.randint(0, 4000)])
                pad = min(pad, room - FRAME - SPARE)
                out.append("f %d" % pad)
                self.frames(room - FRAME - pad, depth + 1, task, out, tasks, own)
                out.append("]")
            elif x < .55 + self.calls and depth < self.deep and room > FRAME + SPARE:
                base = rng.choice([0, 0, 1, 7, 16, rng.randint(0, 200)])
                if rng.random() < .4:
                    out.append("c %d %d 1" % (base, rng.choice([512, 513, 527, 600, 1000, 4096, rng.randint(512, 70000)])))
                else:
                    size = rng.choice([2600, 4096, 4097, rng.randint(2600, 9000), rng.randint(2600, 100000)])
                    out.append("c %d %d 0" % (base, size))
                    self.frames(size - TOP, depth + 1, task, out, tasks, False)
                    out.append("]")
            elif x < .85 and own:
                out.append("t %d" % rng.randrange(2))
            elif x < .93 and tasks:
                out.append("%s %d" % (rng.choice("nnnd"), rng.choice(tasks)))
            elif x < .94 and task and rng.random() < .3:
                out.append("x")
            else:
                break


def nest_script(rng, sid, over=False, sizes=None):
    sizes = sizes or [4096, 8192, 5000, 4097, 12345, 65536, -1, 3500, rng.randint(3500, 40000), 300000]
    n = rng.randint(1, 8)
    tasks = list(range(1, n + 1))
    calls, deep = rng.choice([0, .1, .2, .3]), rng.choice([2, 5, 20])
    lines = []
    victim = rng.choice(tasks)
    for t in [0] + tasks:
        size = 262144 if t == 0 else rng.choice(sizes)
        body = []
        if t == 0:
            for u in tasks:
                body.append("n %d" % u)
                body += ["y"] * rng.randint(0, 2)
        ne = Nest(rng, sizes, calls, deep)
        ne.frames((65536 if size < 0 else size) - TOP, 0, t, body, tasks, True)
        if over and t == victim:
            body += ["y"] * rng.randint(0, 3) + ["o"]
        lines += ["T %d %d" % (t, size)] + body
    return script(sid, lines)


def c26(ctx):
    rng = ctx.rng
    ctx.model("StacksImpl", need=["Spawn", "Switch", "Push", "Call", "Ret"])
    k = 1 if ctx.quick else 10
    cfg = core.TRACE_CFG + "CONSTANT Page = %d\n" % os.sysconf("SC_PAGESIZE")
    sc = [nest_script(rng, "r%d" % i, i % 3 == 0) for i in range(500 * k)]
    ctx.check_traces("PileTrace", pdrv(ctx), sc, cfg=cfg, what="stacks")
    sc = [nest_script(rng, "p%d" % i, i % 3 == 0) for i in range(200 * k)]
    ctx.check_traces("PileTrace", pdrv(ctx, ENABLE_MEMALLOC_SLICE="0"), sc, cfg=cfg, what="stacks, plain allocator")
    # stacks from the allocator are not followed by inaccessible memory
    sc = [nest_script(rng, "h%d" % i) for i in range(200 * k)]
    ctx.check_traces("PileTrace", pdrv(ctx, CONFIG_STACK_BACKEND="STACK_HEAP"), sc, cfg=cfg, what="stacks on the heap")
