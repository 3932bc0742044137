"""Checks of the stream stages."""
from . import kern
from .seq import WRAPS_MEM, script


def cdrv(ctx, **over):
    over.setdefault("ENABLE_MEMALLOC_SLICE", "0")
    return ctx.program("cdrv", ["cdrv.c"], ctx.lib(**over), WRAPS_MEM)


def cio_cfg(stack):
    """size kept, single buffering stage, top can peek"""
    bufs = [x for x in stack if x != "pass"]
    return '"size":%d,"one":%d,"peek":%d' % (
        sum(x[1] for x in bufs), len(bufs) == 1, bool(stack) and stack[-1] != "pass" and stack[-1][0] > 0)


def cio_script(sid, stack, lr, lw, lf, ops):
    ls = ["lr " + " ".join(map(str, lr)), "lw " + " ".join(map(str, lw)), "lf " + " ".join(map(str, lf))]
    ls += ["pass" if x == "pass" else "buf %d %d" % x for x in stack]
    return script(sid, ls + ["%s %d %d %d %d" % o for o in ops], cio_cfg(stack))


def cio_hist(rng, sid, h, r, w, scale):
    lr, lw, lf, ops = [], [], [], []
    vec = rng.random()
    for x in h:
        ks = [k * scale if k > 0 else k for k in x["ks"]]
        if x["o"] in ("rd", "pk"):
            lr += ks
        else:
            lw += ks
            lf += x["f"]
        o = x["o"]
        if rng.random() < vec and o != "fl":
            o = {"rd": "rv", "wr": "wv", "pk": "pk"}[o]
        # a call that would wait is given up there
        ops.append((o, x["n"] * scale, rng.randint(1, 4), rng.randint(0, 9999), 2 if x["again"] else 1))
    # everything left goes through afterwards
    ops += [("wr", 2, 1, 0, 1), ("fl", 0, 0, 0, 1), ("fl", 0, 0, 0, 0), ("rd", 100, 1, 0, 1), ("rdx", 100, 1, 0, 0)]
    return cio_script(sid, [(r * scale, w * scale)], lr, lw, lf, ops)


def cio_random(rng, sid, stack, exact=.3):
    big = rng.random() < .3
    top = rng.choice([3, 10, 40]) * (50 if big else 1)

    def amount():
        return rng.choice([1, 1, 2, 3, rng.randint(1, top), rng.randint(1, top)])

    def answers(n, p, q):
        a = []
        for _ in range(n):
            x = rng.random()
            a.append(-1 if x < p else amount())
        if rng.random() < q:
            a.append(-2)
        return a
    lr = answers(rng.randint(0, 60), rng.choice([0, .1, .4, .7]), .3)
    lw = answers(rng.randint(0, 60), rng.choice([0, .1, .4, .7]), .3)
    lf = [rng.choice([-1, 0, 0]) for _ in range(rng.randint(0, 10))] + ([-2] if rng.random() < .1 else [])
    ops = []
    both = rng.random()
    peek = rng.random() * .4 if stack and stack[-1] != "pass" else 0
    for _ in range(rng.randint(5, 60)):
        n = rng.choice([0] + [amount() for _ in range(8)] + [3 * top])
        y = rng.choice([0, 1, 1, 1, rng.randint(2, 6)])
        x = "x" if rng.random() < exact else ""
        if y > 1 and x and rng.random() < .8:
            y = 1
        v = rng.choice(["", "v"])
        if rng.random() < both:
            if rng.random() < peek:
                ops.append((rng.choice(["pk", "pk", "pv"]), n, 0, 0, 0))
            else:
                ops.append((("rv" if v else "rd") + x, n, rng.randint(1, 6), rng.randint(0, 99999), y))
        elif rng.random() < .25:
            ops.append(("fl", 0, 0, 0, y))
        else:
            ops.append((("wv" if v else "wr") + x, n, rng.randint(1, 6), rng.randint(0, 99999), y))
    ops += [("fl", 0, 0, 0, 1)]
    return cio_script(sid, stack, lr, lw, lf, ops)


def stacks(rng):
    def one():
        z = [0, 1, 2, 3, 5, 8, 16, 64, 100, 1000]
        return rng.choice([0, rng.choice(z), rng.choice(z)]), rng.choice([0, rng.choice(z), rng.choice(z)])
    return rng.choice([
        [one()], [one()], [one()], [one()], [one(), one()], [one(), one()], [one(), one(), one()],
        ["pass", one()], [one(), "pass", one()]])


# ------------------------------------------------------------------- C19 --
def c19(ctx):
    rng = ctx.rng
    ctx.model("CioImpl", need=["Read", "Peek", "Write", "Flush"])
    k = 1 if ctx.quick else 10
    sc = []
    base = "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS R = %d\nW = %d\nMaxR = %d\nMaxW = %d\n"
    for r, w, mr, mw in ((2, 2, 3, 3), (0, 0, 3, 3), (1, 3, 1, 6), (3, 1, 6, 1)):
        h = 0 if ctx.quick else 1
        for i, h in enumerate(ctx.tour("CioGen", base % (r, w, mr + h, mw + h), 300 if ctx.quick else 3000)):
            sc.append(cio_hist(rng, "t%d%d_%d" % (r, w, i), h, r, w, rng.choice([1, 1, 7, 1000])))
    for i in range(500 * k):
        sc.append(cio_random(rng, "r%d" % i, stacks(rng)))
    ctx.check_traces("CioTrace", cdrv(ctx), sc, what="buffering stage")


# ------------------------------------------------------------------- C21 --
def splice_script(rng, sid, size, kind, stack, outs, before=None):
    ls = []
    # sides that report a descriptor; without stages it may be used if both do
    fds = rng.choice([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1) if any(stack) else (0, 0)])
    for i in range(2):
        if i:
            ls.append("other")
        ls += ["pass" if x == "pass" else "buf %d %d" % x for x in stack[i]]
        ls.append("live %d %d %d %d" % (rng.randrange(1 << 30), rng.choice([0, 0, 1, 3, 50]),
                                        rng.choice([0, 0, 0, 10, 50]), fds[i]))
    if before is None:
        before = rng.randrange(len(outs) + 1) if rng.random() < .3 else 0
    run = ["splice %d %d" % (size, kind)]
    outs = ["%s %d %d %d" % o for o in outs]
    end = []
    if rng.random() < .9:
        end = ["fblk %d 0 0" % i for i in range(2)] + ["room %d 1000000 0" % i for i in range(2)]
        if rng.random() < .7:
            end.append("eof %d 0 0" % rng.randrange(2))
        rng.shuffle(end)
        end.append("put 0 1 0")
    return script(sid, ls + outs[:before] + run + outs[before:] + end, '"keep":[%d,%d]' % tuple(
        sum(x[1] for x in st if x != "pass") for st in stack))


def splice_random(rng, sid):
    z = [0, 1, 2, 3, 5, 8, 16, 64]
    size = rng.choice([1, 1, 2, 3, 5, 8, 64, 1000])

    def one():
        return rng.choice(z), rng.choice(z)
    stack = [rng.choice([[], [], ["pass"], [one()], [one()], [one(), one()], [one(), "pass"]]) for _ in range(2)]
    top = rng.choice([1, 3, 10, 40, 400])
    lone = rng.choice([None, None, 0, 1])
    flush, fault, tight = rng.choice([0, .1, .4]), rng.choice([0, 0, .04]), rng.choice([.2, .5, .8])
    outs = []
    if rng.random() < .5:
        outs += [("room", i, 100000, 0) for i in range(2)]
    for _ in range(rng.randint(3, 60)):
        s = rng.randrange(2)
        x = rng.random()
        late = int(rng.random() < .2)
        if x < fault:
            outs.append((rng.choice(["rerr", "werr"]), s, 0, late))
        elif x < fault + flush:
            outs.append(("fblk", s, rng.randrange(2), late))
        elif x < fault + flush + .03:
            outs.append(("eof", s, 0, late))
        elif rng.random() < tight:
            outs.append(("room", 1 - s if lone == s else s, rng.randint(1, top), late))
        else:
            outs.append(("put", s if lone is None else lone, rng.randint(1, top), late))
    return splice_script(rng, sid, size, rng.choice([0, 1, 1, rng.randint(2, 20)]), stack, outs)


def c21(ctx):
    from . import io
    rng = ctx.rng
    ctx.model("CioSpliceImpl", need=["Round", "Put", "End", "Room", "Block", "Unblock", "Wake"])
    k = 1 if ctx.quick else 10
    sc = []
    base = "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS IB = %d\nOB = %d\nBuf = %d\nTotal = %d\n"
    for ib, ob, buf in ((2, 2, 1), (0, 2, 2), (1, 0, 1), (0, 1, 1)):
        cfg = base % (ib, ob, buf, 3 if ctx.quick else 5)
        for i, h in enumerate(ctx.tour("CioSpliceGen", cfg, 250 if ctx.quick else 2500)):
            m, a = rng.choice([1, 1, 5]), rng.randrange(2)
            side = {"put": a, "eof": a}
            stack = [[(ib * m, 0)] if ib else [], [(0, ob * m)] if ob else []]
            outs = [(o, side.get(o, 1 - a), n * m, late) for o, n, late in h]
            sc.append(splice_script(rng, "t%d%d_%d" % (ib, ob, i), buf * m, 1,
                                    stack if a == 0 else stack[::-1], outs, 1))
    for i in range(2000 * k):
        sc.append(splice_random(rng, "r%d" % i))
    ctx.check_traces("CioSpliceTrace", cdrv(ctx), sc, what="forwarding between streams")
    sc = [io.splice_random(rng, "d%d" % i, rng.randint(1, 16)) for i in range(300 * k)]
    for sp in range(2):
        ctx.check_traces("SpliceTrace", kern.kdrv(ctx, ENABLE_MEMALLOC_SLICE="0", ENABLE_IO_SPLICE_SYSCALL=str(sp)),
                         sc[sp::2], env=kern.GUARD, what="forwarding between streams of descriptors")


# ------------------------------------------------------------------- C20 --
METHODS = 10


def odrv(ctx, **over):
    over.setdefault("ENABLE_MEMALLOC_SLICE", "0")
    return ctx.program("odrv", ["odrv.c"], ctx.lib(**over), WRAPS_MEM + ["close"])


class Heap:
    """What a program may do next."""

    def __init__(self):
        self.mine, self.next, self.kind, self.arg, self.alive = {}, {}, {}, {}, set()

    def sweep(self):
        while True:
            held = {self.next[o] for o in self.alive}
            dead = {o for o in self.alive if not self.mine[o] and o not in held}
            if not dead:
                return
            self.alive -= dead

    def below(self, o):
        r = []
        while o:
            r.append(o)
            o = self.next[o]
        return r

    def apply(self, op, a, b=0):
        if op == "new":
            self.alive.add(a)
            self.mine[a], self.next[a] = 1, 0
        elif op == "ref":
            self.mine[a] += 1
        elif op == "unref":
            self.mine[a] -= 1
        elif op == "push":
            self.next[a] = b
            self.mine[b] -= 1
        elif op == "pop":
            if self.next[a]:
                self.mine[self.next[a]] += 1
                self.next[a] = 0
            self.mine[a] -= 1
        self.sweep()


class Stages:
    def __init__(self, rng, sid, stages=True):
        self.rng, self.sid, self.heap, self.lines, self.stages = rng, sid, Heap(), [], stages
        self.ways = [rng.choice("sspu46") for _ in range(8)]
        self.free = list(range(8))
        self.lines += ["pair %d" % ord(w) for w in self.ways]

    def new(self, o):
        rng, hp = self.rng, self.heap
        k = rng.choice("oa") if not self.stages else rng.choice("PPPpbbnffss")
        a = (0, 0)
        if k == "P":
            a = (rng.choice([1023, 0, rng.randrange(1024), rng.randrange(1024)]), 0)
        elif k == "b":
            a = rng.choice([(0, 0), (0, 0), (10, 0), (0, 10), (5, 7)])
        elif k in "oa":
            a = (rng.randrange(4), 0)
        elif k in "fs":
            got = [p for p in self.free if self.ways[p] in ("sp" if k == "f" else "su46")]
            rng.shuffle(got)
            if not got:
                k = "p"
            elif k == "s":
                self.free.remove(got[0])
                a = (2 * got[0], 0)
            else:
                def end(p, way):
                    return -1 if rng.random() < .15 else 2 * p + (1 if way == "w" and self.ways[p] == "p" else 0)
                p = got[0]
                self.free.remove(p)
                if self.ways[p] == "s" and rng.random() < .5:
                    a = (2 * p, 2 * p)
                elif len(got) > 1 and rng.random() < .8:
                    self.free.remove(got[1])
                    a = (end(p, "r"), end(got[1], "w"))
                else:
                    a = (2 * p, -1) if rng.random() < .5 else (-1, end(p, "w"))
        hp.kind[o], hp.arg[o] = k, a
        self.lines.append("new %d %d %d %d" % (o, ord(k), a[0], a[1]))
        hp.apply("new", o)

    def op(self, op, a, b=0):
        if op == "new":
            self.new(a)
        else:
            self.lines.append("%s %d %d" % (op, a, b))
            self.heap.apply(op, a, b)

    def knows(self, o, m):
        k, a = self.heap.kind[o], self.heap.arg[o]
        return (k == "P" and a[0] >> m & 1) or k in "ns" or (k == "f" and not 4 <= m <= 7)

    def use(self):
        rng, hp = self.rng, self.heap
        os = [o for o in hp.alive if hp.mine[o]]
        if not os:
            return
        o = rng.choice(os)
        if not self.stages:
            self.lines.append("iface %d" % o)
            return
        m = rng.randrange(METHODS)
        chain = hp.below(o)
        who = next((x for x in chain if self.knows(x, m)), 0)
        if m < 4 and any(hp.kind[x] == "b" and hp.arg[x] != (0, 0) for x in chain[:chain.index(who) if who else None]):
            return      # kept in the buffer
        n = rng.choice([1, 3, 64, 100, 700])
        to = -1
        after = []
        if m == 9:
            n = rng.randrange(2)
        elif who and hp.kind[who] in "fs" and m < 8:
            a = hp.arg[who]
            f = a[0] if hp.kind[who] == "s" or m % 2 == 0 else a[1]
            way = self.ways[f // 2]
            if f >= 0 and m % 2 == 0 and rng.random() < .8:
                k = rng.choice([1, 5, 64, 200, 900])
                self.lines.append("feed %d %d" % (f ^ 1, k))
                after.append("drain_%d" % f)
            elif f >= 0 and m % 2 == 1:
                if way in "46":
                    if m < 4:
                        return
                    to = f ^ 1
                if way in "spu" and rng.random() < .25:
                    self.lines.append("fill %d" % f)
                    after.append("rest %d" % (f ^ 1))
                else:
                    after.append("drain %d 0" % (f ^ 1))
        self.lines.append("use %d %d %d %d" % (o, m, n, to))
        for x in after:
            if x.startswith("drain_"):
                # the rest of what was fed
                self.lines.append("rest %s" % x[6:])
            else:
                self.lines.append(x)

    def finish(self):
        rng, hp = self.rng, self.heap
        while True:
            os = [o for o in hp.alive if hp.mine[o]]
            if not os:
                break
            self.op(rng.choice(["unref", "unref", "pop"]) if self.stages else "unref", rng.choice(os))

    def text(self):
        return script(self.sid, self.lines, '"ways":[%s]' % ",".join('"%s"' % w for w in self.ways))


def stages_random(rng, sid, stages=True):
    s = Stages(rng, sid, stages)
    hp = s.heap
    n = 0
    most = rng.randint(2, 12)
    for _ in range(rng.randint(10, 80)):
        os = [o for o in hp.alive if hp.mine[o]]
        x = rng.random()
        if not os or (x < .2 and n < most):
            if n == 60:
                break
            n += 1
            s.op("new", n)
        elif x < .3:
            s.op("ref", rng.choice(os))
        elif x < .42:
            s.op("unref", rng.choice(os))
        elif x < .65 and stages:
            o, p = rng.choice(os), rng.choice(os)
            if o != p and not hp.next[o] and o not in hp.below(p):
                s.op("push", o, p)
        elif x < .7 and stages:
            s.op("pop", rng.choice(os))
        else:
            s.use()
    if rng.random() < .9:
        s.finish()
    return s.text()


def stages_refs(rng, sid, stages=True):
    """Very many references to one of them."""
    s = Stages(rng, sid, stages)
    for o in range(1, 4):
        s.op("new", o)
    if stages:
        s.op("push", 1, 2)
    o = rng.choice([1, 3])
    n = rng.choice([255, 256, 300])
    for _ in range(n):
        s.op("ref", o)
    s.use()
    for _ in range(n):
        s.op("unref", o)
    s.use()
    s.finish()
    return s.text()


def c20(ctx):
    rng = ctx.rng
    ctx.model("StagesImpl", need=["Create", "DoRef", "DoUnref", "DoPush", "DoPop", "Release"])
    k = 1 if ctx.quick else 10
    sc = []
    base = "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS Obj = {%s}\nMaxRef = 2\n"
    hs = ctx.tour("StagesGen", base % ("1, 2, 3" if ctx.quick else "1, 2, 3, 4"), 400 if ctx.quick else 4000)
    hs += ctx.generate("StagesGen", base % "1, 2, 3, 4, 5" + "INVARIANT Emit\n", 200 * k, 30)
    for i, h in enumerate(hs):
        s = Stages(rng, "t%d" % i)
        often = rng.choice([0, .3, 1])
        for o, a, b in h:
            s.op(o, a, b)
            if rng.random() < often:
                s.use()
        s.finish()
        sc.append(s.text())
    for i in range(600 * k):
        sc.append(stages_random(rng, "r%d" % i))
    ctx.check_traces("StagesTrace", odrv(ctx), sc, what="stages")
