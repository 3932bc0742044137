/* Driver of the stream stages: stacks of buffering and plain stages over a
   scripted stage that plays the outside world. */
#include <errno.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/uio.h>

#include <hev-task.h>
#include <hev-task-io.h>
#include <hev-task-cio.h>
#include <hev-task-cio-buffer.h>
#include <hev-task-system.h>

#include "mem.h"

#define TOKENS 256
#define CALLS 30000
#define YIELDS 300

static unsigned char
pat (long pos)
{
    unsigned x = pos * 2654435761u;
    return (x >> 24) ^ (x >> 13) ^ pos;
}

/* ------------------------------------------------------- scripted stage -- */
typedef struct
{
    HevTaskCIO base;
    int id;
    long rt[TOKENS], wt[TOKENS], ft[TOKENS]; /* answers to come */
    int nr, nw, nf, ir, iw, jf;
    long rpos, wpos; /* bytes given and arrived */
    int live;        /* answers follow the state below instead */
    long inq, room;
    int eof, rerr, werr, fblk;
    long dirty;      /* bytes arrived since the last flush */
    unsigned seed;
    int fd;          /* reported one, counted from 1 */
    int frag, spur;  /* most bytes at once, how often to answer "again" first */
    int again;       /* will be ready after such an answer */
} Low;

static Low lows[2];
static long calls, yields;
static HevTask *main_task;

static void
lowlog (Low *l, const char *o, long a, long r, int err)
{
    if (++calls > CALLS && !l->live)
        trcrash (-14, 0);
    l->base.err = err;
    if (!l->live)
        trv ("low", o, a, err, l->id, r);
}

static long
total (const struct iovec *iov, int n)
{
    long t = 0;
    int i;

    for (i = 0; i < n; i++)
        t += iov[i].iov_len;
    return t;
}

static unsigned
chance (Low *l, unsigned n)
{
    l->seed = l->seed * 1103515245 + 12345;
    return (l->seed >> 16) % n;
}

/* amount a stage that follows its state moves at once */
static long
lively (Low *l, long t)
{
    if (t >= 0 && l->spur && chance (l, 100) < l->spur) {
        l->again = 1;
        return -1;
    }
    if (t > 1 && l->frag)
        t = 1 + chance (l, t < l->frag ? t : l->frag);
    return t;
}

static ssize_t
low_readv (HevTaskCIO *base, const struct iovec *iov, int n)
{
    Low *l = (Low *)base;
    long cap = total (iov, n), k, t;
    int i, err = 0;

    if (l->live)
        t = lively (l, l->inq ? l->inq : l->rerr ? -2 : l->eof ? 0 : -1);
    else
        t = l->ir < l->nr ? l->rt[l->ir] : 0;
    if (cap == 0 && t > 0)
        t = 0;
    else if (!l->live && (t > 0 || t == -1))
        l->ir++;
    if (t < 0) {
        err = t == -1 ? EAGAIN : EIO;
        t = -1;
    }
    if (t > cap)
        t = cap;
    if (t > 0) {
        for (i = 0, k = t; i < n && k; i++) {
            long j, m = k < iov[i].iov_len ? k : iov[i].iov_len;
            for (j = 0; j < m; j++)
                ((unsigned char *)iov[i].iov_base)[j] = pat (l->rpos++ + l->id);
            k -= m;
        }
        if (l->live)
            l->inq -= t;
    }
    lowlog (l, "r", cap, t, err);
    return t;
}

static ssize_t
low_read (HevTaskCIO *base, void *buf, size_t count)
{
    struct iovec v = { buf, count };
    return low_readv (base, &v, 1);
}

static ssize_t
low_writev (HevTaskCIO *base, const struct iovec *iov, int n)
{
    Low *l = (Low *)base;
    long all = total (iov, n), t, p = l->wpos;
    int i, err = 0;

    /* everything offered has to be right, taken or not */
    for (i = 0; i < n; i++) {
        long j;
        for (j = 0; j < iov[i].iov_len; j++)
            if (((unsigned char *)iov[i].iov_base)[j] != pat (p++ + (l->live ? !l->id : l->id + 7)))
                trcrash (-6, p - 1);
    }
    if (l->live)
        t = lively (l, l->werr ? -2 : l->room > 0 ? l->room : -1);
    else
        t = l->iw < l->nw ? l->wt[l->iw] : all;
    if (all == 0 && t > 0)
        t = 0;
    else if (!l->live && (t > 0 || t == -1))
        l->iw++;
    if (t < 0) {
        err = t == -1 ? EAGAIN : EIO;
        t = -1;
    }
    if (t > all)
        t = all;
    if (t > 0) {
        l->wpos += t;
        l->dirty += t;
        if (l->live)
            l->room -= t;
    }
    lowlog (l, "w", all, t, err);
    return t;
}

static ssize_t
low_write (HevTaskCIO *base, const void *buf, size_t count)
{
    struct iovec v = { (void *)buf, count };
    return low_writev (base, &v, 1);
}

static long
low_ctrl (HevTaskCIO *base, int ctrl, long larg, void *parg)
{
    Low *l = (Low *)base;
    long t;
    int err = 0;

    /* a descriptor that is not meant to be used past the stages */
    if (ctrl == HEV_TASK_CIO_CTRL_GET_FD)
        return l->fd - 1;
    if (ctrl != HEV_TASK_CIO_CTRL_FLUSH)
        return -1;
    if (l->live)
        t = lively (l, l->werr ? -2 : l->fblk ? -1 : 0);
    else
        t = l->jf < l->nf ? l->ft[l->jf] : 0;
    if (!l->live && t != -2)
        l->jf++;
    if (t < 0) {
        err = t == -1 ? EAGAIN : EIO;
        t = -1;
    } else {
        l->dirty = 0;
    }
    lowlog (l, "f", 0, t, err);
    return t;
}

static void
low_destruct (HevObject *base)
{
    trv ("note", "gone", ((Low *)base)->id, 0, 0, 0);
    HEV_TASK_CIO_TYPE->destruct (base);
}

/* closed on the other side */
static int
descriptor (void)
{
    int fd[2];

    if (socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd) < 0)
        abort ();
    close (fd[1]);
    return fd[0];
}

static HevTaskCIOClass low_class;

static HevTaskCIO *
low_new (int id)
{
    Low *l = &lows[id];
    HevTaskCIOClass *k = &low_class;

    memset (l, 0, sizeof (*l));
    memcpy (k, HEV_TASK_CIO_TYPE, sizeof (*k));
    k->base.name = "Low";
    k->base.destruct = low_destruct;
    k->read = low_read;
    k->write = low_write;
    k->readv = low_readv;
    k->writev = low_writev;
    k->ctrl = low_ctrl;
    hev_task_cio_construct (&l->base);
    HEV_OBJECT (l)->klass = HEV_OBJECT_CLASS (k);
    l->id = id;
    return &l->base;
}

/* a stage that adds nothing */
static HevTaskCIO *
pass_new (void)
{
    HevTaskCIO *p = calloc (1, sizeof (*p));

    hev_task_cio_construct (p);
    return p;
}

/* --------------------------------------------------------------- calls -- */
static int aborted, abort_at, ended;
static char **lines;
static int nlines;
static HevTaskCIO *top;

static void
yielded (int type)
{
    if (++yields > YIELDS)
        trcrash (-14, 1);
    trv ("yield", "nop", type, 0, 0, 0);
}

static int
yielder (HevTaskYieldType type, void *data)
{
    if (data != &aborted)
        trcrash (-7, 0);
    yielded (type);
    if (abort_at && --abort_at == 0) {
        aborted = 1;
        return 1;
    }
    return 0;
}

/* total bytes in count pieces, empty ones among them */
static struct iovec *
pieces (long all, int count, unsigned seed, struct iovec *keep)
{
    struct iovec *v = malloc (sizeof (*v) * (count ? count : 1));
    long left = all;
    int i;

    for (i = 0; i < count; i++) {
        long n = left;
        if (i + 1 < count) {
            seed = seed * 1103515245 + 12345;
            n = (seed >> 16) % 3 ? (seed >> 18) % (left + 1) : 0;
        }
        v[i].iov_base = malloc (n);
        v[i].iov_len = n;
        left -= n;
        keep[i] = v[i];
    }
    return v;
}

static void
moved (struct iovec *v, struct iovec *keep, int count)
{
    int i;

    for (i = 0; i < count; i++) {
        if (v[i].iov_base != keep[i].iov_base || v[i].iov_len != keep[i].iov_len)
            trcrash (-8, i);
        free (v[i].iov_base);
    }
    free (v);
}

static void
fill (struct iovec *v, int count, long pos)
{
    int i;
    long j;

    for (i = 0; i < count; i++)
        for (j = 0; j < v[i].iov_len; j++)
            ((unsigned char *)v[i].iov_base)[j] = pat (pos++ + 7);
}

static void
match (const struct iovec *v, int count, long n, long pos)
{
    int i;
    long j;

    for (i = 0; i < count && n > 0; i++)
        for (j = 0; j < v[i].iov_len && n > 0; j++, n--)
            if (((unsigned char *)v[i].iov_base)[j] != pat (pos++))
                trcrash (-6, pos - 1);
}

static long rused, wused;

static void
operate (const char *op, unsigned long *a)
{
    struct iovec *v, keep[64], got[2];
    HevTaskIOYielder y = NULL;
    long n = a[0], r = 0;
    int cnt = a[1], yk, i;

    yk = a[3];
    aborted = 0;
    abort_at = yk > 1 ? yk - 1 : 0;
    if (yk)
        y = yielder;
    calls = yields = 0;
    if (cnt > 60)
        cnt = 60;
    trv ("call", op, n, yk, cnt, 0);
    if (op[0] == 'r') {
        if (op[1] == 'v') {
            v = pieces (n, cnt, a[2], keep);
            if (op[2])
                r = hev_task_cio_readv_exact (top, v, cnt, y, &aborted);
            else
                r = hev_task_cio_readv (top, v, cnt, y, &aborted);
        } else {
            cnt = 1;
            v = pieces (n, 1, 0, keep);
            if (op[2])
                r = hev_task_cio_read_exact (top, v->iov_base, n, y, &aborted);
            else
                r = hev_task_cio_read (top, v->iov_base, n, y, &aborted);
        }
        match (v, cnt, r, rused);
        moved (v, keep, cnt);
        if (r > 0)
            rused += r;
    } else if (op[0] == 'p') {
        if (op[1] == 'v') {
            i = hev_task_cio_buffer_peekv (HEV_TASK_CIO_BUFFER (top), got);
            if (i < 0 || i > 2) {
                r = i;
            } else {
                r = total (got, i);
                match (got, i, r, rused);
            }
        } else {
            v = pieces (n, 1, 0, keep);
            r = hev_task_cio_buffer_peek (HEV_TASK_CIO_BUFFER (top), v->iov_base, n);
            match (v, 1, r, rused);
            moved (v, keep, 1);
        }
    } else if (op[0] == 'w') {
        if (op[1] == 'v') {
            v = pieces (n, cnt, a[2], keep);
            fill (v, cnt, wused);
            if (op[2])
                r = hev_task_cio_writev_exact (top, v, cnt, y, &aborted);
            else
                r = hev_task_cio_writev (top, v, cnt, y, &aborted);
        } else {
            cnt = 1;
            v = pieces (n, 1, 0, keep);
            fill (v, 1, wused);
            if (op[2])
                r = hev_task_cio_write_exact (top, v->iov_base, n, y, &aborted);
            else
                r = hev_task_cio_write (top, v->iov_base, n, y, &aborted);
        }
        moved (v, keep, cnt);
        if (r > 0)
            wused += r;
    } else {
        r = hev_task_cio_flush (top, y, &aborted);
    }
    trv ("ret", op, n, aborted, r < 0 ? top->err : 0, r);
}

static void
waker_entry (void *data)
{
    while (!ended) {
        hev_task_yield (HEV_TASK_YIELD);
        if (!ended && hev_task_get_state (main_task) == HEV_TASK_WAITING) {
            yielded (HEV_TASK_WAITIO);
            hev_task_wakeup (main_task);
        }
    }
}

/* ----------------------------------------------------------- forwarding -- */
static HevTaskCIO *tops[2];
static HevTask *splicer;
static long splice_size;
static int splice_kind, splice_in, splice_over;

static int
splice_yielder (HevTaskYieldType type, void *data)
{
    if (data != &splice_kind || splice_over || aborted ||
        (type != HEV_TASK_YIELD && type != HEV_TASK_WAITIO))
        trcrash (-7, 1);
    splice_in = 1;
    hev_task_yield (type);
    splice_in = 0;
    if (abort_at && --abort_at == 0) {
        aborted = 1;
        return 1;
    }
    return 0;
}

static void
sides (const char *e)
{
    long x[18], *v = x;
    int i;

    for (i = 0; i < 2; i++) {
        Low *l = &lows[i];
        *v++ = l->inq;
        *v++ = l->eof;
        *v++ = l->rerr;
        *v++ = l->rpos;
        *v++ = l->room > 0;
        *v++ = l->werr;
        *v++ = l->wpos;
        *v++ = l->fblk;
        *v++ = l->dirty;
    }
    trx (e, "splice", splice_kind, aborted, 0, 0, 18, x);
}

static void
splice_entry (void *data)
{
    hev_task_cio_splice (tops[0], tops[1], splice_size, splice_kind ? splice_yielder : NULL, &splice_kind);
    splice_over = 1;
    sides ("ret");
}

/* lets the forwarding task go as far as it can */
static void
settle (void)
{
    long seen = -1;
    int idle = 0;

    while (!splice_over) {
        long now = lows[0].rpos + lows[1].rpos + lows[0].wpos + lows[1].wpos;

        idle = now == seen ? idle + 1 : 0;
        seen = now;
        if (idle > 5000)
            trcrash (-14, 2);
        if (hev_task_get_state (splicer) == HEV_TASK_WAITING) {
            if (splice_kind && !splice_in)
                trcrash (-7, 2);
            if (!lows[0].again && !lows[1].again)
                break;
            lows[0].again = lows[1].again = 0;
            hev_task_wakeup (splicer);
        }
        hev_task_yield (HEV_TASK_YIELD);
    }
    if (!splice_over)
        sides ("quiet");
}

/* what happens outside; the forwarding task hears of it once */
static void
outside (const char *op, unsigned long *a)
{
    Low *l = &lows[a[0] & 1];
    int wake = 1;

    if (!strcmp (op, "put")) {
        if (l->eof || l->rerr)
            return;
        l->inq += a[1];
    } else if (!strcmp (op, "eof")) {
        l->eof = 1;
    } else if (!strcmp (op, "rerr")) {
        l->rerr = 1;
    } else if (!strcmp (op, "werr")) {
        l->werr = 1;
    } else if (!strcmp (op, "room")) {
        wake = l->room <= 0;
        l->room += a[1];
    } else if (!strcmp (op, "fblk")) {
        wake = l->fblk && !a[1];
        l->fblk = !!a[1];
    }
    trv ("note", op, a[0], a[1], 0, 0);
    if (splicer && !splice_over) {
        if (wake)
            hev_task_wakeup (splicer);
        if (!a[2])
            settle ();
    }
}

static int
tokens (unsigned long *a, int n, long *t)
{
    int i;

    for (i = 0; i < n; i++)
        t[i] = a[i];
    return n;
}

static void
main_entry (void *data)
{
    unsigned long a[TOKENS];
    char op[32];
    int i, n, cur = 0;

    top = low_new (0);
    for (i = 0; i < nlines; i++) {
        memset (a, 0, sizeof (a));
        n = trargs (lines[i], op, a, TOKENS);
        if (!strcmp (op, "lr")) {
            lows[0].nr = tokens (a, n, lows[0].rt);
        } else if (!strcmp (op, "lw")) {
            lows[0].nw = tokens (a, n, lows[0].wt);
        } else if (!strcmp (op, "lf")) {
            lows[0].nf = tokens (a, n, lows[0].ft);
        } else if (!strcmp (op, "buf")) {
            top = hev_task_cio_push (HEV_TASK_CIO (hev_task_cio_buffer_new (a[0], a[1])), top);
        } else if (!strcmp (op, "pass")) {
            top = hev_task_cio_push (pass_new (), top);
        } else if (!strcmp (op, "live")) {
            lows[cur].live = 1;
            lows[cur].seed = a[0];
            lows[cur].frag = a[1];
            lows[cur].spur = a[2];
            lows[cur].fd = a[3] ? 1 + descriptor () : 0;
            tops[cur] = top;
        } else if (!strcmp (op, "other")) {
            top = low_new (cur = 1);
        } else if (!strcmp (op, "splice")) {
            splice_size = a[0];
            splice_kind = a[1];
            abort_at = splice_kind > 1 ? splice_kind - 1 : 0;
            splicer = hev_task_ref (hev_task_new (-1));
            hev_task_run (splicer, splice_entry, NULL);
            hev_task_yield (HEV_TASK_YIELD);
            settle ();
        } else if (lows[0].live) {
            outside (op, a);
        } else {
            operate (op, a);
            if (aborted && op[strlen (op) - 1] == 'x')
                break;      /* how much was moved is not known */
        }
    }
    ended = 1;
    if (splicer) {
        if (!splice_over) {
            mem_check_all ();
            trv ("final", "nop", 0, 0, 0, 0);
            _exit (0);
        }
        hev_task_unref (splicer);
        hev_object_unref (HEV_OBJECT (tops[0]));
        top = tops[1];
    }
    hev_object_unref (HEV_OBJECT (top));
    mem_check_all ();
}

static void
trscript (char **line, int n)
{
    HevTask *t;

    lines = line;
    nlines = n;
    if (hev_task_system_init () < 0)
        trcrash (-1, 0);
    main_task = hev_task_new (-1);
    hev_task_run (main_task, main_entry, NULL);
    t = hev_task_new (-1);
    hev_task_run (t, waker_entry, NULL);
    hev_task_system_run ();
    hev_task_system_fini ();
    mem_check_all ();
}

int
main (int argc, char **argv)
{
    return trmain (argc, argv);
}
