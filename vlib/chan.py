"""Checks of channels and channel selection (C09, C10, C11)."""
from .gen import Script, chunks, group_by_task
from .kern import run_both

SIZES = [0, 1, 1, 2, 3, 4, 4, 5, 7, 8, 8, 9, 16, 17, 31, 64, 100, 1000]


def header(s):
    s.cfg = '"cap":[%s],"size":[%s]' % (",".join(str(b) for _, b in s.chans),
                                        ",".join(str(z) for z, _ in s.chans))
    return s


def translate(rng, h, z):
    seq = []
    for t, o, x in h:
        if o == "turn":
            continue
        if o in ("chr", "chw"):
            seq.append((t, (o, x - 1, rng.choice([z, z, rng.choice(SIZES)]))))
        elif o == "chd":
            seq.append((t, (o, x - 1)))
        elif o in ("seladd", "seldel"):
            seq.append((t, (o, 0, x - 1)))
        elif o in ("selr", "selw"):
            seq.append((t, (o, 0, rng.choice([-1, -1, -1, 0, 5]))))
        elif o == "ret":
            seq.append((t, ("ret",)))
        else:
            seq.append((t, (o, x)))
    return seq


def from_model(ctx, num, sel, depth=45):
    rng = ctx.rng
    out = []
    for b in (0, 1, 2):
        cfg = "ChannelGen%s%d.cfg" % ("S" if sel else "C", b)
        for i, h in enumerate(ctx.generate("ChannelGen", cfg, num, depth)):
            s = Script("g%d-%d" % (b, i), 4, prio=[rng.choice([1, 4, 8]) for _ in range(4)])
            if sel:
                s.objects(sel=1)
            z = rng.choice(SIZES)
            s.channel(z, b)
            for c in chunks(rng, translate(rng, h, z), 1, 4):
                s.burst(group_by_task(c))
            out.append(header(s).text())
    return out


TOUR = """INIT GInit
NEXT GNext
CONSTANTS Touring = TRUE
          Tasks = {%s}
          Buffers = %d
          Ids = {1}
          WithSelect = %s
          WithEnd = %s
CHECK_DEADLOCK FALSE
"""


def tours(ctx, tasks, sel, limit, end=False):
    """Every transition of the algorithm's state graph, call by call."""
    rng = ctx.rng
    out = []
    for b in (0, 1, 2):
        cfg = TOUR % (",".join(str(t + 1) for t in range(tasks)), b, str(sel).upper(),
                      str(end).upper())
        for i, h in enumerate(ctx.tour("ChannelGen", cfg, limit)):
            s = Script("t%d%d-%d" % (tasks, b, i), tasks,
                       prio=[rng.choice([1, 4, 8]) for _ in range(tasks)])
            if sel:
                s.objects(sel=1)
            s.channel(8, b)
            for c in translate(rng, h, 8):
                s.burst([(c[0], [c[1]])])
            # what is left behind must serve the calls that follow
            more = [("chr", 0, 8), ("chr", 1, 8), ("chw", 0, 8), ("chw", 1, 8)]
            if sel:
                more += [("selr", 0, 5), ("selw", 0, 5)] * 2
            for _ in range(3):
                o = rng.choice(more)
                s.burst([(1 if o[0][:3] == "sel" else rng.randint(1, tasks), [o])])
            out.append(header(s).text())
    return out


def random_scripts(ctx, num, close=.03, end=.03, long=False):
    """Programs over one to three channels; any task may use any end."""
    rng = ctx.rng
    out = []
    for i in range(num):
        n = rng.randint(2, 5)
        free = rng.random() < .4
        s = Script("r%d" % i, n, free=free, prio=[rng.choice([1, 2, 8, 8, 15]) for _ in range(n)])
        nch = rng.choice([1, 1, 1, 2, 3])
        zs = []
        for _ in range(nch):
            z = rng.choice(SIZES + [3000, 8000] * long)
            b = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 8])
            s.channel(z, b)
            zs.append(z)
        # ends are usually kept apart, so that directions fill up
        own = {e: rng.randint(1, n) for e in range(2 * nch)}

        def size(e):
            z = zs[e // 2]
            x = rng.random()
            if x < .35:
                return z
            if x < .55:
                return max(0, z + rng.choice([-1, 1, -2, 3]))
            return rng.choice(SIZES + [3000, 8000] * long)

        def rop(t):
            mine = [e for e in own if own[e] == t]
            e = rng.choice(mine) if mine and rng.random() < .75 else rng.randrange(2 * nch)
            x = rng.random()
            if x < .42:
                return ("chw", e, size(e))
            if x < .82:
                return ("chr", e, size(e))
            if x < .82 + close:
                return ("chd", e)
            if x < .82 + close + end and not free:
                return ("ret",)
            if x < .95:
                return ("wake", rng.randint(1, n))
            return ("yield",)
        if free:
            for t in range(1, n + 1):
                s.program(t, [rop(t) for _ in range(rng.randint(3, 40))])
        else:
            for _ in range(rng.randint(5, 25)):
                ts = rng.sample(range(1, n + 1), rng.randint(1, n))
                s.burst([(t, [rop(t) for _ in range(rng.randint(1, 5))]) for t in ts])
        out.append(header(s).text())
    return out


def pipeline(ctx, num):
    """One producer and one consumer per direction, run until all is read."""
    rng = ctx.rng
    out = []
    for i in range(num):
        n = rng.choice([2, 2, 4])
        s = Script("p%d" % i, n, free=True, prio=[rng.choice([1, 2, 8]) for _ in range(n)])
        for c in range(n // 2):
            z = rng.choice([1, 2, 4, 8, 16, 100, 333])
            s.channel(z, rng.choice([0, 1, 2, 3, 7, 16]))
            m = rng.randint(5, 60)
            back = rng.random() < .5
            w, r = [], []
            for j in range(m):
                k = rng.choice([z, z, z - 1, 1, 2 * z, rng.choice(SIZES)])
                w.append(("chw", 2 * c, k))
                r.append(("chr", 2 * c + 1, rng.choice([k, k, k + 1, 2 * k, max(0, k - 1)])))
                if rng.random() < .2:
                    (w if rng.random() < .5 else r).append(("yield",))
                if back and rng.random() < .4:
                    r.append(("chw", 2 * c + 1, z))
                    w.append(("chr", 2 * c, z))
            if rng.random() < .5:
                w.append(("chd", 2 * c))
                r += [("chr", 2 * c + 1, z)] * 2
            s.program(2 * c + 1, w)
            s.program(2 * c + 2, r)
        out.append(header(s).text())
    return out


def select_scripts(ctx, num):
    rng = ctx.rng
    out = []
    for i in range(num):
        n = rng.randint(2, 5)
        s = Script("s%d" % i, n, prio=[rng.choice([1, 2, 8, 8]) for _ in range(n)])
        nset = rng.choice([1, 1, 2])
        s.objects(sel=nset)
        nch = rng.randint(1, 4)
        for _ in range(nch):
            s.channel(8, rng.choice([0, 1, 1, 2, 3, 4]))
        wr = rng.random() < .5          # mostly selecting for writing?

        def cmd(t):
            x = rng.random()
            e = rng.randrange(2 * nch)
            if t <= nset:
                st = t - 1
                e = 2 * rng.randrange(nch)
                if x < .25:
                    return [("seladd", st, e)]
                if x < .32:
                    return [("seldel", st, e)]
                o = "selw" if (rng.random() < .8) == wr else "selr"
                if x < .7:
                    r = [(o, st, rng.choice([-1, -1, -1, 0, 1, 5, 30]))]
                    if rng.random() < .3:
                        r.append(("chw" if o == "selw" else "chr", e, 8))
                    return r
                return [(("chw" if (rng.random() < .7) == wr else "chr"), e, rng.choice([0, 3, 8]))]
            e = 2 * rng.randrange(nch) + 1
            if x < .45:
                return [("chr", e, 8)]
            if x < .85:
                return [("chw", e, rng.choice([0, 3, 8]))]
            if x < .9:
                return [("chd", e)]
            return [("wake", rng.randint(1, n))]
        for st in range(nset):
            s.burst([(st + 1, [("seladd", st, e) for e in range(0, 2 * nch, 2)
                               if rng.random() < .6])])
        for _ in range(rng.randint(6, 25)):
            x = rng.random()
            if x < .12:
                s.advance()
            elif x < .18:
                s.delay(rng.choice([500, 1000, 3000]))
            elif x < .26:
                # becomes ready in the last millisecond
                ms = rng.choice([1, 2, 5])
                s.burst([(1, [(rng.choice(["selr", "selw"]), 0, ms)])])
                s.delay(1000 * ms - rng.choice([1, 300, 999]))
                e = 2 * rng.randrange(nch) + 1
                s.burst([(rng.randint(nset + 1, n), [(rng.choice(["chw", "chr"]), e, 8)])] if n > nset else [])
            else:
                ts = rng.sample(range(1, n + 1), rng.randint(1, n))
                s.burst([(t, sum([cmd(t) for _ in range(rng.randint(1, 3))], [])) for t in ts])
        out.append(header(s).text())
    return out


def huge(ctx):
    """Channels whose storage exceeds 32 bits of bytes (hardly touched)."""
    out = []
    for i, (z, b) in enumerate([(65536, 65535), (1 << 30, 3)]):
        s = Script("h%d" % i, 2, free=True)
        s.channel(z, b)
        for e in (0, 1):
            s.program(e + 1, [("chw", e, n) for n in (8, 8000, 5, 100)] +
                      [("chr", e, n) for n in (8, 8000, 8, 50)])
        out.append(header(s).text())
    # many and long messages
    for i in range(4):
        s = Script("m%d" % i, 2, free=True, prio=[8, ctx.rng.choice([4, 8, 15])])
        b = ctx.rng.choice([255, 256, 257, 300, 500])
        z = 8 if i % 2 else 70000
        s.channel(z, b if i % 2 else 3)
        if i % 2:
            w = [("chw", 0, ctx.rng.randint(1, 8)) for _ in range(700)]
            s.program(1, w[:b + ctx.rng.randint(-3, 3)] + [("yield",)] * 600 + w[b:])
            s.program(2, [("yield",)] * ctx.rng.choice([0, 300, 1100]) + [("chr", 1, 8) for _ in range(700)])
        else:
            s.program(1, [("chw", 0, n) for n in (65535, 65536, 65537, 70000, 70001, 1, 69000)])
            s.program(2, [("chr", 1, n) for n in (70000, 65536, 70000, 70000, 75000, 70000, 65535)])
        out.append(header(s).text())
    return out


NEED = ["Read", "ReadMore", "Write", "WriteMore", "Close"]


def models(ctx):
    ctx.model("ChannelImpl", "ChannelImpl0.cfg", need=NEED + ["EndTask"])
    for c in (["Q1", "Q2"] if ctx.quick else ["Impl1", "Impl2", "Big"]):
        ctx.model("ChannelImpl", "Channel%s.cfg" % c, need=NEED)


def c09(ctx):
    k = 1 if ctx.quick else 10
    models(ctx)
    sc = from_model(ctx, 40 * k, False) + pipeline(ctx, 150 * k)
    sc += random_scripts(ctx, 170 * k, close=.01, end=0, long=True)
    ctx.rng.shuffle(sc)
    run_both(ctx, "ChannelTrace", huge(ctx) + sc, "channel content")


def c10(ctx):
    k = 1 if ctx.quick else 10
    models(ctx)
    sc = from_model(ctx, 60 * k, False) + pipeline(ctx, 60 * k)
    sc += random_scripts(ctx, 150 * k, close=.04, end=.04)
    sc += tours(ctx, 2, False, 0) + tours(ctx, 3, False, 150 if ctx.quick else 0, end=True)
    ctx.rng.shuffle(sc)
    run_both(ctx, "ChannelTrace", sc, "channel blocking")


def c11(ctx):
    k = 1 if ctx.quick else 10
    for b in (0, 1, 2):
        ctx.model("ChannelImpl", "SelectImpl%d.cfg" % b, need=NEED + ["SelAdd", "SelDel", "Select",
                                                                   "SelMore"])
    sc = from_model(ctx, 50 * k, True) + select_scripts(ctx, 250 * k)
    sc += tours(ctx, 2, True, 300 if ctx.quick else 0)
    if not ctx.quick:
        sc += tours(ctx, 3, True, 3000)
    ctx.rng.shuffle(sc)
    run_both(ctx, "ChannelTrace", sc, "channel select")
