/* Driver of the parts that need no tasks: circular buffer and memory. */
#include <sys/uio.h>

#include <hev-task.h>
#include <hev-task-system.h>
#include <hev-memory-allocator.h>
#include <hev-circular-buffer.h>

#include "mem.h"

#define HANDLES 4096
#define BIG (1UL << 29)

/* -------------------------------------------------------- circular buffer -- */

static HevCircularBuffer *cb;
static long wpos, rpos;
static Blk *cblk;

static unsigned char
pat (long i)
{
    return i * 31 + (i >> 8) * 7 + 13;
}

/* offers of the buffer as offsets in its memory block */
static int
segments (const char *o, struct iovec *v, int n, long want)
{
    long x[8];
    int i;

    for (i = 0; i < n && i < 4; i++) {
        unsigned char *p = v[i].iov_base;
        x[2 * i] = p - cblk->p;
        x[2 * i + 1] = v[i].iov_len;
        if (p < cblk->p || p + v[i].iov_len > cblk->p + cblk->size)
            x[2 * i] = -1;
    }
    trx ("op", o, want, n, hev_circular_buffer_get_use_size (cb),
         hev_circular_buffer_get_max_size (cb), 2 * i, x);
    for (i = 0; i < n; i++)
        if (x[2 * i] < 0)
            return -1;
    return 0;
}

static struct iovec wkept[4], rkept[4];
static long wkeptn, rkeptn;

static void
wcommit (struct iovec *v, long k, long n)
{
    long done = 0, i, j;

    for (i = 0; i < k; i++)
        for (j = 0; j < v[i].iov_len && done < n; j++)
            ((unsigned char *)v[i].iov_base)[j] = pat (wpos + done++);
    wkeptn = 0;
    /* committing nothing is not done on a buffer that cannot hold anything */
    if (!k && !hev_circular_buffer_get_max_size (cb))
        return;
    hev_circular_buffer_write_finish (cb, done);
    wpos += done;
    trv ("op", "wrote", done, 0, hev_circular_buffer_get_use_size (cb),
         hev_circular_buffer_get_max_size (cb));
}

/* n: -1 only look, -2 keep the offer */
static void
cwrite (long n)
{
    struct iovec v[4];
    long i, k;

    memset (v, 0x55, sizeof (v));
    k = hev_circular_buffer_writing (cb, v);
    if (segments ("writing", v, k, n) < 0 || n == -1)
        return;
    /* all of what is offered can be written to */
    for (i = 0; i < k; i++)
        memset (v[i].iov_base, 0xee, v[i].iov_len);
    if (n == -2) {
        memcpy (wkept, v, sizeof (v));
        wkeptn = k;
    } else {
        wcommit (v, k, n);
    }
}

static void
rcommit (struct iovec *v, long k, long n)
{
    long seen = 0, i, j;

    for (i = 0; i < k; i++)
        for (j = 0; j < v[i].iov_len; j++)
            if (((unsigned char *)v[i].iov_base)[j] != pat (rpos + seen++))
                trcrash (-6, rpos + seen - 1);
    if (n < 0 || (!k && !hev_circular_buffer_get_max_size (cb)))
        return;
    rkeptn = 0;
    if (n > seen)
        n = seen;
    hev_circular_buffer_read_finish (cb, n);
    rpos += n;
    trv ("op", "read", n, 0, hev_circular_buffer_get_use_size (cb),
         hev_circular_buffer_get_max_size (cb));
}

static void
cread (long n)
{
    struct iovec v[4];
    long k;

    memset (v, 0x55, sizeof (v));
    k = hev_circular_buffer_reading (cb, v);
    if (segments ("reading", v, k, n) < 0)
        return;
    rcommit (v, k, n);
    if (n == -2) {
        memcpy (rkept, v, sizeof (v));
        rkeptn = k;
    }
}

/* ----------------------------------------------------------------- memory -- */

static struct
{
    unsigned char *p;
    size_t size;
    int seed;
} hd[HANDLES];

static int
hpat (int h, size_t i)
{
    return (unsigned char)(hd[h].seed * 101 + i * 7 + (i >> 8) * 3 + 1);
}

static void
fill (int h, size_t from)
{
    size_t i;

    for (i = from; i < hd[h].size; i++)
        hd[h].p[i] = hpat (h, i);
}

static void
verify (int h, size_t n)
{
    size_t i;

    for (i = 0; i < n; i++)
        if (hd[h].p[i] != hpat (h, i))
            trcrash (-6, h);
}

/* where a block is: the system's block, offset in it, alignment */
static void
got (const char *o, int h, unsigned char *p, size_t size, int big, size_t keep, int zero)
{
    long x[3] = { -1, 0, 0 };
    size_t i;
    Blk *b = p ? mem_find (p) : NULL;

    if (b) {
        x[0] = b->dead ? -2 : b - mem_blk;
        x[1] = p - b->p;
        x[2] = (uintptr_t)p % 16;
    }
    trx ("op", o, h, big ? BIG : size, big, !!p, 3, x);
    if (!p)
        return;
    hd[h].p = p;
    hd[h].size = big ? 0 : size;
    if (big || !b || b->dead || p + size > b->p + b->size || p < b->p)
        return;
    verify (h, keep < size ? keep : size);
    if (zero)
        for (i = 0; i < size; i++)
            if (p[i])
                trcrash (-5, h);
    if (!keep)
        hd[h].seed++;
    fill (h, keep);
}

static void
step (char *line)
{
    unsigned long a[8] = { 0 };
    char op[32];
    int n = trargs (line, op, a, 8);
    int h = n > 0 ? a[0] % HANDLES : 0;

#define IS(x) (!strcmp (op, x))
    if (IS ("cnew")) {
        mem_log = 0;
        cb = hev_circular_buffer_new (a[0]);
        wpos = rpos = 0;
        wkeptn = rkeptn = 0;
        cblk = cb ? mem_find (cb) : NULL;
        trv ("op", "cnew", a[0] > BIG ? -1 : (long)a[0], cblk ? cblk->size : 0, 0, !!cb);
    } else if (IS ("cw")) {
        if (cb)
            cwrite (a[0]);
    } else if (IS ("cr")) {
        if (cb)
            cread (a[0]);
    } else if (IS ("ckw")) {
        if (cb && wkeptn)
            wcommit (wkept, wkeptn, a[0]);
    } else if (IS ("ckr")) {
        if (cb && rkeptn)
            rcommit (rkept, rkeptn, a[0]);
    } else if (IS ("cref")) {
        if (cb)
            trv ("op", "cref", 0, 0, 0, hev_circular_buffer_ref (cb) == cb);
    } else if (IS ("cunref")) {
        if (cb) {
            hev_circular_buffer_unref (cb);
            trv ("op", "cunref", 0, 0, 0, cblk->dead);
            if (cblk->dead)
                cb = NULL;
        }
    } else if (IS ("init")) {
        mem_log = 1;
        if (hev_task_system_init () < 0)
            abort ();
        trv ("op", "init", mem_n, 0, 0, 0);
    } else if (IS ("fini")) {
        /* the blocks that remain */
        hev_task_system_fini ();
        trv ("op", "fini", 0, 0, 0, 0);
        mem_log = 0;
    } else if (IS ("m") || IS ("z")) {
        int z = IS ("z");
        if (hd[h].p)
            return;
        trv ("call", op, h, 0, 0, 0);
        got (op, h, z ? hev_malloc0 (a[1]) : hev_malloc (a[1]), a[1], a[1] > BIG, 0, z);
    } else if (IS ("k")) {
        unsigned long z;
        int big = __builtin_mul_overflow (a[1], a[2], &z) || z > BIG;
        if (hd[h].p)
            return;
        trv ("call", op, h, 0, 0, 0);
        got (op, h, hev_calloc (a[1], a[2]), z, big, 0, 1);
    } else if (IS ("r")) {
        size_t keep = hd[h].size;
        unsigned char *p;
        if (!hd[h].p)
            return;
        verify (h, keep);
        trv ("call", op, h, 0, 0, 0);
        p = hev_realloc (hd[h].p, a[1]);
        if (!p && !a[1])
            hd[h].p = NULL;
        else if (!p)
            verify (h, keep);
        got (op, h, p, a[1], a[1] > BIG, keep, 0);
    } else if (IS ("f")) {
        if (!hd[h].p)
            return;
        verify (h, hd[h].size);
        trv ("call", op, h, 0, 0, 0);
        hev_free (hd[h].p);
        hd[h].p = NULL;
        trv ("op", "f", h, 0, 0, 0);
    } else if (IS ("many")) {
        /* blocks first..last of one size */
        for (h = a[0]; h <= a[1]; h++) {
            if (hd[h].p)
                continue;
            trv ("call", "m", h, 0, 0, 0);
            got ("m", h, hev_malloc (a[2]), a[2], 0, 0, 0);
        }
    } else if (IS ("none")) {
        for (h = a[0]; h <= a[1]; h++) {
            if (!hd[h].p)
                continue;
            verify (h, hd[h].size);
            trv ("call", "f", h, 0, 0, 0);
            hev_free (hd[h].p);
            hd[h].p = NULL;
            trv ("op", "f", h, 0, 0, 0);
        }
    } else if (IS ("nomem")) {
        mem_fail = a[0];
    } else {
        abort ();
    }
}

static void
trscript (char **line, int n)
{
    int i;

    for (i = 0; i < n; i++)
        step (line[i]);
    for (i = 0; i < HANDLES; i++)
        if (hd[i].p)
            verify (i, hd[i].size);
    mem_check_all ();
}

int
main (int argc, char **argv)
{
    return trmain (argc, argv);
}
