/*
 * Task-level harness: executes scripts of public API calls on the library and
 * records what every call did.  One JSON line per script.
 *
 * usage: kdrv SCRIPTS OUT [threads]
 */
#include "vrt.h"

#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/wait.h>
#include <pthread.h>
#include <stddef.h>

__thread K *k;

#ifdef KDRV_BATON
/* threads take turns: "Z seed chance" or "Y point thread ..." in the first
   script of a group */
static void
trcrash (int code, long where)
{
    if (k)
        vcrash (0, code, where);
    _exit (0);
}
#define SC_BARE
#define SC_PTHREAD
#define SC_POINTS 20000000
#include "baton.h"

static void
sc_refused (void)
{
}

static void
sc_access (void *p, int size, int kind, int mo)
{
}
#endif

static const char *evname[] = { "call",   "ret",   "op",    "quiet",
                                "time",   "start", "done",  "sysret",
                                "final",  "crash", "free",  "note" };

static const char *opname[] = {
#define X(n) #n,
    OPS (X)
#undef X
};

/* ---------------------------------------------------------------- log -- */

void
vlog (int e, int t, int o, int64_t a, int64_t b, int64_t c, int64_t r)
{
    Log *l = k->log;
    Event *v;
    int i;

    if (l->nev >= MAXEV) {
        l->overflow = 1;
        if (k->closing < 2) {
            k->closing = 2;
            _exit (98);
        }
        return;
    }
    k->spins = 0;
    v = &l->ev[l->nev];
    v->e = e;
    v->t = t;
    v->o = o;
    v->a = a;
    v->b = b;
    v->c = c;
    v->r = r;
    v->nx = k->nxx;
    memcpy (v->x, k->xx, sizeof (v->x));
    k->nxx = 0;
    for (i = 0; k->sc->gt && i < k->nfd && i < NGT; i++) {
        struct pollfd pf = { k->fd[i], POLLIN | POLLOUT | POLLPRI | POLLRDHUP | POLLRDNORM | POLLRDBAND | POLLWRNORM | POLLWRBAND };
        int n = 0;
        v->p[i] = 0;
        v->u[i] = 0;
        if (k->fd[i] < 0)
            continue;
        poll (&pf, 1, 0);
        v->p[i] = pf.revents;
        if (ioctl (k->fd[i], FIONREAD, &n) == 0)
            v->u[i] = n;
    }
    if (k->sc->states) {
        for (i = 1; i <= k->sc->ntask && i <= 32; i++)
            v->st[i - 1] = k->alive[i] ? hev_task_get_state (k->task[i]) : 9;
    }
    __sync_synchronize ();
    l->nev++;
}

void
vcall (int t, int o, int64_t a, int64_t b, int64_t c)
{
    k->inop[t] = 1;
    vlog (EV_CALL, t, o, a, b, c, 0);
}

void
vret (int t, int o, int64_t a, int64_t b, int64_t c, int64_t r)
{
    Log *l = k->log;
    Event *v = l->nev ? &l->ev[l->nev - 1] : NULL;

    k->inop[t] = 0;
    if (v && v->e == EV_CALL && v->t == t && v->o == o && !k->split[t]) {
        /* nothing happened in between: one atomic event */
        l->nev--;
        vlog (EV_OP, t, o, a, b, c, r);
        return;
    }
    k->split[t] = 0;
    vlog (EV_RET, t, o, a, b, c, r);
}

void
vtime (void)
{
    vlog (EV_TIME, 0, 0, k->sec, k->nsec, 0, 0);
}

void
vadvance_us (int64_t us)
{
    k->sec += us / 1000000;
    k->nsec += (us % 1000000) * 1000;
    if (k->nsec >= 1000000000) {
        k->nsec -= 1000000000;
        k->sec++;
    }
}

/* ---------------------------------------------------------- stand-ins -- */

int __real_clock_gettime (clockid_t id, struct timespec *ts);
int __real_timerfd_create (int clockid, int flags);
int __real_timerfd_settime (int fd, int flags, const struct itimerspec *n,
                            struct itimerspec *o);
int __real_epoll_wait (int fd, struct epoll_event *ev, int n, int timeout);

int
__wrap_clock_gettime (clockid_t id, struct timespec *ts)
{
    if (!k)
        return __real_clock_gettime (id, ts);
    ts->tv_sec = k->sec;
    ts->tv_nsec = k->nsec;
    return 0;
}

int
__wrap_timerfd_create (int clockid, int flags)
{
    if (!k)
        return __real_timerfd_create (clockid, flags);
    k->tfd = eventfd (0, EFD_NONBLOCK);
    return k->tfd;
}

int
__wrap_timerfd_settime (int fd, int flags, const struct itimerspec *n,
                        struct itimerspec *o)
{
    uint64_t v;

    if (!k || fd != k->tfd)
        return __real_timerfd_settime (fd, flags, n, o);
    if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec >= 1000000000 ||
        n->it_value.tv_sec < 0) {
        errno = EINVAL;
        return -1;
    }
    if (read (k->tfd, &v, sizeof (v)) < 0) {
        /* nothing pending */
    }
    k->fired = 0;
    k->armed = n->it_value.tv_sec || n->it_value.tv_nsec;
    k->tsec = n->it_value.tv_sec;
    k->tnsec = n->it_value.tv_nsec;
    if (!(flags & TFD_TIMER_ABSTIME)) {
        k->tsec += k->sec;
        k->tnsec += k->nsec;
        if (k->tnsec >= 1000000000) {
            k->tnsec -= 1000000000;
            k->tsec++;
        }
    }
    return 0;
}

static int
timer_due (void)
{
    return k->armed && !k->fired &&
           (k->tsec < k->sec || (k->tsec == k->sec && k->tnsec <= k->nsec));
}

static void
timer_fire (void)
{
    uint64_t one = 1;

    if (timer_due ()) {
        k->fired = 1;
        if (write (k->tfd, &one, sizeof (one)) < 0)
            abort ();
    }
}

/* closer than the time unit of the library: no timer is that exact */
static int
timer_near (void)
{
    return k->armed && !k->fired && k->tsec - k->sec < 2 &&
           (k->tsec - k->sec) * 1000000000 + k->tnsec - k->nsec < 1000;
}

void vcrash (int t, int code, int64_t x);
static int do_step (void);

int
__wrap_epoll_wait (int fd, struct epoll_event *ev, int n, int timeout)
{
    int r;

    if (!k || !k->sc)
        return __real_epoll_wait (fd, ev, n, timeout);

    k->epfd = fd;
    if (++k->spins > 20000) {
        /* busy without doing anything */
        vcrash (0, -14, 0);
        _exit (97);
    }
    for (;;) {
        if (k->intr_left) {
            k->intr_left--;
            errno = EINTR;
            return -1;
        }
        timer_fire ();
        r = __real_epoll_wait (fd, ev, n, 0);
        if (r != 0)
            return r;
        if (timeout == 0)
            return 0;
        if (timer_near ()) {
            k->sec = k->tsec;
            k->nsec = k->tnsec;
            vtime ();
            continue;
        }
        /* whatever happens next happens during the wait */
        if (!do_step ()) {
            vlog (EV_FINAL, 0, 0, k->armed && !k->fired, k->tsec, k->tnsec, 0);
            longjmp (k->out, 1);
        }
    }
}

int
__wrap_epoll_pwait (int fd, struct epoll_event *ev, int n, int timeout, const sigset_t *set)
{
    return __wrap_epoll_wait (fd, ev, n, timeout);
}

/* Nothing is runnable.  Decide what happens next; 0 if the script is over. */
static int
do_step (void)
{
    Script *s = k->sc;
    uint64_t one = 1;

    if (k->ctlgo) /* the controller was not woken */
        vcrash (0, -13, 0);
    for (;;) {
        Step *p;

        if (k->stepno >= s->nstep) {
            if (!s->freerun && !k->closing) {
                vlog (EV_QUIET, 0, 0, k->armed && !k->fired, k->tsec, k->tnsec,
                      0);
                k->closing = 1;
                k->ctlgo = -1;
                if (write (k->ctlfd, &one, sizeof (one)) < 0)
                    abort ();
                return 1;
            }
            if (k->armed && !k->fired) {
                vlog (EV_QUIET, 0, 0, 1, k->tsec, k->tnsec, 0);
                k->sec = k->tsec;
                k->nsec = k->tnsec;
                vtime ();
                return 1;
            }
            return 0;
        }
        p = &s->step[k->stepno++];
        switch (p->kind) {
        case 'B':
            vlog (EV_QUIET, 0, 0, k->armed && !k->fired, k->tsec, k->tnsec, 0);
            k->ctlgo = k->stepno;
            if (write (k->ctlfd, &one, sizeof (one)) < 0)
                abort ();
            return 1;
        case 'A':
            if (!(k->armed && !k->fired))
                continue;
            vlog (EV_QUIET, 0, 0, 1, k->tsec, k->tnsec, 0);
            k->sec = k->tsec;
            k->nsec = k->tnsec;
            vtime ();
            return 1;
        case 'D': {
            int64_t us = p->arg;
            vlog (EV_QUIET, 0, 0, k->armed && !k->fired, k->tsec, k->tnsec, 0);
            if (k->armed && !k->fired) {
                int64_t d = (k->tsec - k->sec) * 1000000 +
                            (k->tnsec - k->nsec) / 1000;
                if (d <= us) {
                    k->sec = k->tsec;
                    k->nsec = k->tnsec;
                    vtime ();
                    return 1;
                }
            }
            vadvance_us (us);
            vtime ();
            continue;
        }
        case 'I':
            k->intr_left = p->arg;
            return 1;
        }
    }
}

/* --------------------------------------------- guarded allocation ------ */

void *__real_mmap (void *, size_t, int, int, int, off_t);
int __real_munmap (void *, size_t);
void *__real_malloc (size_t);
void *__real_calloc (size_t, size_t);
void *__real_realloc (void *, size_t);
void __real_free (void *);

int vguard; /* every block on its own pages, unreadable after release */

typedef struct
{
    size_t size, map;
    void *base;
    uint64_t magic;
} GHdr;

#define GMAGIC 0x5643484b47554152ull

static void gput (void *p, GHdr *h);

static void *
galloc (size_t size)
{
    size_t need = (size + 15) & ~(size_t)15;
    size_t page = 4096;
    size_t map;
    uint8_t *m, *p;
    GHdr *h;

    if (need < size || need > ((size_t)1 << 40)) {
        errno = ENOMEM;
        return NULL;
    }
    map = ((need + page - 1) & ~(page - 1)) + 2 * page;
    m = __real_mmap (NULL, map, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) {
        errno = ENOMEM;
        return NULL;
    }
    p = m + map - page - need;
    h = (GHdr *)m;
    h->size = size;
    h->map = map;
    h->base = m;
    h->magic = GMAGIC;
    memset (p, 0xa7, need > 65536 ? 65536 : need);
    mprotect (m + map - page, page, PROT_NONE);
    gput (p, h);
    return p;
}

/* every guarded block ever handed out; addresses are never reused */
#define GTAB (1 << 18)
static struct
{
    void *p;
    GHdr *h;
} gtab[GTAB];
static pthread_mutex_t glock = PTHREAD_MUTEX_INITIALIZER;

static void
gput (void *p, GHdr *h)
{
    size_t i = ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 46;
    int n;

    pthread_mutex_lock (&glock);
    for (n = 0; gtab[i].p; i = (i + 1) & (GTAB - 1))
        if (++n == GTAB)
            abort ();
    gtab[i].h = h;
    gtab[i].p = p;
    pthread_mutex_unlock (&glock);
}

/* NULL: not one of ours */
static GHdr *
ghdr (void *p)
{
    size_t i = ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 46;
    GHdr *h = NULL;

    pthread_mutex_lock (&glock);
    for (; gtab[i].p; i = (i + 1) & (GTAB - 1))
        if (gtab[i].p == p) {
            h = gtab[i].h;
            break;
        }
    pthread_mutex_unlock (&glock);
    if (h && h->magic != GMAGIC) /* faults when released before */
        abort ();
    return h;
}

/* memory obtained while a task is created belongs to that task */
static void *
owned (void *p)
{
    int t;

    if (k && (t = k->creating) && p && p != MAP_FAILED && k->nres[t] < MAXRES)
        k->res[t][k->nres[t]++] = p;
    return p;
}

static void
disowned (void *p)
{
    int t, i;

    if (!k || !k->sc || k->sc->keepref || !p)
        return;
    for (t = 1; t <= k->sc->ntask; t++)
        for (i = 0; i < k->nres[t]; i++)
            if (k->res[t][i] == p) {
                k->res[t][i] = k->res[t][--k->nres[t]];
                if (p == (void *)k->task[t])
                    k->alive[t] = 0;
                if (!k->nres[t] && !k->creating)
                    vlog (EV_FREE, t, 0, 0, 0, 0, 0);
                return;
            }
}

void *
__wrap_mmap (void *a, size_t n, int prot, int flags, int fd, off_t off)
{
    return owned (__real_mmap (a, n, prot, flags, fd, off));
}

int
__wrap_munmap (void *p, size_t n)
{
    disowned (p);
    return __real_munmap (p, n);
}

void *
__wrap_malloc (size_t n)
{
    return owned (vguard ? galloc (n) : __real_malloc (n));
}

void *
__wrap_calloc (size_t n, size_t s)
{
    void *p;

    if (!vguard)
        return owned (__real_calloc (n, s));
    if (s && n > SIZE_MAX / s)
        return NULL;
    p = galloc (n * s);
    if (p)
        memset (p, 0, n * s);
    return owned (p);
}

void
__wrap_free (void *p)
{
    GHdr *h;

    disowned (p);
    if (!vguard) {
        __real_free (p);
        return;
    }
    if (!p)
        return;
    h = ghdr (p);
    if (!h) {
        __real_free (p);
        return;
    }
    mprotect (h->base, h->map, PROT_NONE);
}

void *
__wrap_realloc (void *p, size_t n)
{
    GHdr *h;
    void *q;

    if (!vguard)
        return __real_realloc (p, n);
    if (!p)
        return galloc (n);
    h = ghdr (p);
    if (!h)
        return __real_realloc (p, n);
    q = galloc (n);
    if (q) {
        memcpy (q, p, h->size < n ? h->size : n);
        mprotect (h->base, h->map, PROT_NONE);
    }
    return q;
}

/* -------------------------------------------------------------- tasks -- */

static void worker (void *data);

static void
create (int t)
{
    k->nres[t] = 0;
    k->creating = t;
    k->task[t] = hev_task_new (32768);
    k->creating = 0;
    k->alive[t] = 1;
    k->ownrefs[t] = 1;
    hev_task_set_priority (k->task[t], k->sc->prio[t]);
}

void
vspawn (int by, int t)
{
    if (!k->alive[t]) {
        create (t);
        vcall (by, O_create, t, 0, 0);
        vret (by, O_create, t, 0, 0, 0);
    }
    if (k->sc->keepref)
        hev_task_ref (k->task[t]);
    else
        k->ownrefs[t]--;
    if (hev_task_get_state (k->task[t]) == HEV_TASK_STOPPED)
        k->started[t]++;
    vcall (by, O_spawn, t, (intptr_t)k->startno[t] + 1, k->sc->prio[t]);
    hev_task_run (k->task[t], worker, (void *)(intptr_t)(t | (++k->startno[t] << 16)));
    vret (by, O_spawn, t, k->startno[t], k->sc->prio[t], 0);
}

static uint8_t *
payload (int t)
{
    if (!k->pay[t])
        k->pay[t] = __real_malloc (NPAY);
    return k->pay[t];
}

static void
fill (uint8_t *p, int id, int n)
{
    int i;

    for (i = 0; i < n; i++)
        p[i] = (uint8_t)(id * 7 + i * 13 + (i >> 8) * 5);
}

static int
match (const uint8_t *p, int *id, int n)
{
    int i;

    *id = 0;
    if (n <= 0)
        return 1;
    /* 7 * 183 = 1281 = 5 * 256 + 1 */
    *id = (uint8_t)(p[0] * 183);
    for (i = 0; i < n; i++)
        if (p[i] != (uint8_t)(*id * 7 + i * 13 + (i >> 8) * 5))
            return 0;
    return 1;
}

static void __attribute__ ((noinline)) exit_deep (int d)
{
    volatile char pad[64];

    pad[0] = d;
    if (d > 0)
        exit_deep (d - 1);
    else
        hev_task_exit ();
    pad[1] = pad[0];
}

static int exec (int t, Op *op);

/* Runs nested calls on separate stacks, switching inside, and verifies that
 * locals of every level survive. */
typedef struct
{
    HevTaskCall base;
    int t, depth, size, yields;
    int64_t seed;
    int bad;
} CallCtx;

static int64_t run_call (int t, int depth, int size, int yields, int64_t seed,
                         int *bad);

static void
call_entry (HevTaskCall *call)
{
    CallCtx *x = (CallCtx *)call;
    volatile uint8_t mark[48];
    int64_t r = x->seed * 3 + x->depth;
    double f = (double)x->seed * 0.5;
    int i;

    for (i = 0; i < 48; i++)
        mark[i] = x->seed + i;
    /* touch the part of the stack that may be used */
    if (x->size > 4096) {
        int use = x->size - 3072;
        volatile uint8_t *big = __builtin_alloca (use);
        for (i = 0; i < use; i += 32)
            big[i] = (uint8_t)(i + x->seed);
        for (i = 0; i < x->yields; i++)
            hev_task_yield (HEV_TASK_YIELD);
        for (i = 0; i < use; i += 32)
            if (big[i] != (uint8_t)(i + x->seed))
                x->bad = 1;
    }
    if (x->depth > 1)
        r += run_call (x->t, x->depth - 1, x->size, x->yields, x->seed + 1,
                       &x->bad);
    for (i = 0; i < x->yields; i++)
        hev_task_yield (HEV_TASK_YIELD);
    for (i = 0; i < 48; i++)
        if (mark[i] != (uint8_t)(x->seed + i))
            x->bad = 1;
    if (f != (double)x->seed * 0.5)
        x->bad = 1;
    hev_task_call_set_retval (call, (void *)(intptr_t)r);
}

static int64_t
run_call (int t, int depth, int size, int yields, int64_t seed, int *bad)
{
    CallCtx *x;
    volatile uint8_t mark[32];
    int64_t r;
    int i;

    for (i = 0; i < 32; i++)
        mark[i] = seed * 5 + i;
    x = (CallCtx *)hev_task_call_new (sizeof (CallCtx), size);
    x->t = t;
    x->depth = depth;
    x->size = size;
    x->yields = yields;
    x->seed = seed;
    x->bad = 0;
    r = (intptr_t)hev_task_call_jump (&x->base, call_entry);
    if (x->bad)
        *bad = 1;
    hev_task_call_destroy (&x->base);
    for (i = 0; i < 32; i++)
        if (mark[i] != (uint8_t)(seed * 5 + i))
            *bad = 1;
    return r;
}

static int64_t __attribute__ ((noinline))
deep (int t, int d, int64_t seed, int how)
{
    volatile uint8_t mark[40];
    volatile int64_t keep = seed * 11 + d;
    int64_t sub = 0;
    int i;

    for (i = 0; i < 40; i++)
        mark[i] = seed + d + i;
    if (d > 0)
        sub = deep (t, d - 1, seed, how);
    else if (how == 0)
        hev_task_yield (HEV_TASK_YIELD);
    else if (how == 1)
        hev_task_usleep (50);
    else
        hev_task_yield (HEV_TASK_WAITIO);
    for (i = 0; i < 40; i++)
        if (mark[i] != (uint8_t)(seed + d + i))
            return -1000000;
    if (keep != seed * 11 + d)
        return -1000000;
    return sub + 1;
}

/* a select set and its channels are used by one task only */
static int
foreign (int t, int set)
{
    return set && k->selown[set - 1] && k->selown[set - 1] != t;
}

/* ... which empties it before it ends */
static void
leave_sets (int t)
{
    int e;

    for (e = 0; e < 32; e++)
        if (k->ch[e] && k->chsel[e] && k->selown[k->chsel[e] - 1] == t) {
            int set = k->chsel[e] - 1;
            k->chsel[e] = 0;
            vcall (t, O_seldel, set, e, 0);
            hev_task_channel_select_del (k->sel[set], k->ch[e]);
            vret (t, O_seldel, set, e, 0, 0);
        }
    for (e = 0; e < 8; e++)
        if (k->selown[e] == t)
            k->selown[e] = 0;
}

void
vcrash (int t, int code, int64_t x)
{
    vlog (EV_CRASH, t, 0, code, x, 0, 0);
}

/* gives up the processor with a filled area where the frames of earlier calls
   were, to notice writes through pointers into finished calls */
static void __attribute__ ((noinline))
rest (int t, HevTaskYieldType type)
{
    volatile uint64_t area[256];
    unsigned i;

    for (i = 0; i < 256; i++)
        area[i] = 0x5aa5c33c0ff01dULL * (i + 1);
    hev_task_yield (type);
    for (i = 0; i < 256; i++)
        if (area[i] != 0x5aa5c33c0ff01dULL * (i + 1)) {
            vlog (EV_CRASH, t, 0, -3, i, 0, 0);
            break;
        }
}

/* executes one operation of task t; 1: leave the entry function */
static int
exec (int t, Op *op)
{
    int64_t *a = op->arg;
    int64_t r = 0;
    int i;

    switch (op->o) {
    case O_nop:
        break;
    case O_yield:
        vcall (t, O_yield, 0, 0, 0);
        rest (t, HEV_TASK_YIELD);
        vret (t, O_yield, 0, 0, 0, hev_task_self () == k->task[t] ? 0 : 1);
        break;
    case O_waitio:
        vcall (t, O_waitio, 0, 0, 0);
        hev_task_yield (HEV_TASK_WAITIO);
        vret (t, O_waitio, 0, 0, 0, hev_task_self () == k->task[t] ? 0 : 1);
        break;
    case O_wake:
        if (!k->alive[a[0]] ||
            hev_task_get_state (k->task[a[0]]) == HEV_TASK_STOPPED)
            SKIP;
        vcall (t, O_wake, a[0], 0, 0);
        hev_task_wakeup (k->task[a[0]]);
        vret (t, O_wake, a[0], 0, 0, 0);
        break;
    case O_lock:
        if (k->holder[a[0]] == t)
            SKIP;
        vcall (t, O_lock, a[0], 0, 0);
        r = hev_task_mutex_lock (&k->m[a[0]]);
        k->holder[a[0]] = t;
        vret (t, O_lock, a[0], 0, 0, r);
        break;
    case O_trylock:
        vcall (t, O_trylock, a[0], 0, 0);
        r = hev_task_mutex_trylock (&k->m[a[0]]);
        if (r == 0)
            k->holder[a[0]] = t;
        vret (t, O_trylock, a[0], 0, 0, r);
        break;
    case O_unlock:
        if (k->holder[a[0]] != t)
            SKIP;
        k->holder[a[0]] = 0;
        vcall (t, O_unlock, a[0], 0, 0);
        r = hev_task_mutex_unlock (&k->m[a[0]]);
        vret (t, O_unlock, a[0], 0, 0, r);
        break;
    case O_cwait:
        if (k->holder[a[1]] != t)
            SKIP;
        k->holder[a[1]] = 0;
        vcall (t, O_cwait, a[0], a[1], 0);
        r = hev_task_cond_wait (&k->c[a[0]], &k->m[a[1]]);
        k->holder[a[1]] = t;
        vret (t, O_cwait, a[0], a[1], 0, r);
        break;
    case O_ctimed:
        if (k->holder[a[1]] != t)
            SKIP;
        k->holder[a[1]] = 0;
        vcall (t, O_ctimed, a[0], a[1], a[2]);
        r = hev_task_cond_timedwait (&k->c[a[0]], &k->m[a[1]], a[2]);
        k->holder[a[1]] = t;
        vret (t, O_ctimed, a[0], a[1], a[2], r);
        break;
    case O_csig:
        vcall (t, O_csig, a[0], 0, 0);
        r = hev_task_cond_signal (&k->c[a[0]]);
        vret (t, O_csig, a[0], 0, 0, r);
        break;
    case O_cbc:
        vcall (t, O_cbc, a[0], 0, 0);
        r = hev_task_cond_broadcast (&k->c[a[0]]);
        vret (t, O_cbc, a[0], 0, 0, r);
        break;
    case O_sleep:
        /* a: value, logged as quotient/remainder to stay within 31 bits */
        vcall (t, O_sleep, a[0] / 1000, a[0] % 1000, 0);
        r = hev_task_sleep (a[0]);
        vret (t, O_sleep, a[0] / 1000, a[0] % 1000, r / 1000, r % 1000);
        break;
    case O_usleep:
        vcall (t, O_usleep, a[0] / 1000000, a[0] % 1000000, 0);
        r = hev_task_usleep (a[0]);
        vret (t, O_usleep, a[0] / 1000000, a[0] % 1000000, r / 1000000,
              r % 1000000);
        break;
    case O_join:
        if (a[0] == t || !k->alive[a[0]])
            SKIP;
        /* tasks joining each other in a circle never end */
        for (i = a[0]; i; i = k->joining[i])
            if (i == t)
                SKIP;
        k->joining[t] = a[0];
        /* a reference of its own, which the script does not drop */
        if (!k->sc->keepref) {
            vcall (t, O_ref, a[0], 0, 0);
            hev_task_ref (k->task[a[0]]);
            vret (t, O_ref, a[0], 0, 0, 0);
        }
        vcall (t, O_join, a[0], 0, 0);
        r = hev_task_join (k->task[a[0]]);
        k->joining[t] = 0;
        vret (t, O_join, a[0], 0, 0, r);
        if (!k->sc->keepref) {
            vcall (t, O_unref, a[0], 0, 0);
            hev_task_unref (k->task[a[0]]);
            vret (t, O_unref, a[0], 0, 0, 0);
        }
        break;
    case O_create:
        if (k->alive[a[0]])
            SKIP;
        create (a[0]);
        vcall (t, O_create, a[0], 0, 0);
        vret (t, O_create, a[0], 0, 0, 0);
        break;
    case O_spawn:
        /* without keepref the script must own a reference to hand over */
        if (!k->sc->keepref && k->alive[a[0]] &&
            (k->ownrefs[a[0]] < 1 ||
             hev_task_get_state (k->task[a[0]]) != HEV_TASK_STOPPED))
            SKIP;
        vspawn (t, a[0]);
        break;
    case O_exit:
        leave_sets (t);
        k->started[t]--;
        vcall (t, O_exit, a[0], 0, 0);
        exit_deep (a[0]);
        vret (t, O_exit, a[0], 0, 0, -1);
        break;
    case O_ret:
        return 1;
    case O_setprio:
        vcall (t, O_setprio, a[0], a[1], 0);
        hev_task_set_priority (k->task[a[0]], a[1]);
        vret (t, O_setprio, a[0], a[1], 0, 0);
        break;
    case O_getprio:
        vcall (t, O_getprio, a[0], 0, 0);
        r = hev_task_get_priority (k->task[a[0]]);
        vret (t, O_getprio, a[0], 0, 0, r);
        break;
    case O_ref:
        if (!k->alive[a[0]])
            SKIP;
        /* whoever takes a reference must know the task is still there */
        vcall (t, O_ref, a[0], 0, 0);
        hev_task_ref (k->task[a[0]]);
        k->ownrefs[a[0]]++;
        vret (t, O_ref, a[0], 0, 0, 0);
        break;
    case O_unref:
        if (!k->alive[a[0]] || k->ownrefs[a[0]] < 1)
            SKIP;
        /* dropping the last reference of a live system task is not allowed:
         * the system owns one while it is started */
        k->ownrefs[a[0]]--;
        vcall (t, O_unref, a[0], 0, 0);
        hev_task_unref (k->task[a[0]]);
        vret (t, O_unref, a[0], 0, 0, 0);
        break;
    case O_dcheck:
        vcall (t, O_dcheck, 0, 0, 0);
        r = ((intptr_t)hev_task_get_data (hev_task_self ()) & 0xffff) == t;
        vret (t, O_dcheck, 0, 0, 0, r);
        break;
    case O_burn:
        vadvance_us (a[0]);
        vtime ();
        break;
    case O_scall: {
        int bad = 0;
        vcall (t, O_scall, a[0], a[1], a[3]);
        r = run_call (t, a[0], a[1], a[2], a[3], &bad);
        vret (t, O_scall, a[0], a[1], a[3], bad ? -1 : r);
        break;
    }
    case O_deep:
        vcall (t, O_deep, a[0], a[1], 0);
        r = deep (t, a[0], a[0] + t, a[1]);
        vret (t, O_deep, a[0], a[1], 0, r);
        break;
    case O_chw: {
        /* channel end, length */
        int e = a[0], n = a[1], id;
        uint8_t *p = payload (t);
        if (!k->ch[e] || k->chbusy[e] || foreign (t, k->chsel[e]))
            SKIP;
        /* numbers come again after 255 messages */
        id = k->msgid++ % 255 + 1;
        fill (p, id, n);
        k->chbusy[e] = 1;
        vcall (t, O_chw, e, n, id);
        r = hev_task_channel_write (k->ch[e], p, n);
        k->chbusy[e] = 0;
        vret (t, O_chw, e, n, id, r);
        memset (p, 0xee, n);
        break;
    }
    case O_chr: {
        int e = a[0], n = a[1], id, ok;
        uint8_t *p = payload (t);
        if (!k->ch[e] || k->chbusy[e] || foreign (t, k->chsel[e]))
            SKIP;
        memset (p, 0x5c, n + 64);
        k->chbusy[e] = 1;
        vcall (t, O_chr, e, n, 0);
        r = hev_task_channel_read (k->ch[e], p, n);
        k->chbusy[e] = 0;
        ok = match (p, &id, r);
        for (i = r > 0 ? r : 0; i < n + 64; i++)
            if (p[i] != 0x5c)
                ok = 0;
        /* a broken payload is reported as an impossible message number */
        vret (t, O_chr, e, n, ok ? id : 9999, r);
        break;
    }
    case O_chd: {
        int e = a[0];
        HevTaskChannel *c = k->ch[e];
        if (!c || k->chbusy[e])
            SKIP;
        if (k->chsel[e])
            SKIP;
        k->ch[e] = NULL;
        vcall (t, O_chd, e, 0, 0);
        hev_task_channel_destroy (c);
        vret (t, O_chd, e, 0, 0, 0);
        break;
    }
    case O_seladd:
        /* set, channel end */
        if (!k->ch[a[1]] || k->chsel[a[1]] || k->chbusy[a[1]] ||
            foreign (t, a[0] + 1))
            SKIP;
        k->selown[a[0]] = t;
        k->chsel[a[1]] = a[0] + 1;
        vcall (t, O_seladd, a[0], a[1], 0);
        hev_task_channel_select_add (k->sel[a[0]], k->ch[a[1]]);
        vret (t, O_seladd, a[0], a[1], 0, 0);
        break;
    case O_seldel:
        if (!k->ch[a[1]] || k->chsel[a[1]] != a[0] + 1 || k->chbusy[a[1]] ||
            foreign (t, a[0] + 1))
            SKIP;
        k->chsel[a[1]] = 0;
        vcall (t, O_seldel, a[0], a[1], 0);
        hev_task_channel_select_del (k->sel[a[0]], k->ch[a[1]]);
        vret (t, O_seldel, a[0], a[1], 0, 0);
        break;
    case O_selr:
    case O_selw: {
        HevTaskChannel *c;
        if (foreign (t, a[0] + 1))
            SKIP;
        k->selown[a[0]] = t;
        vcall (t, op->o, a[0], a[1], 0);
        if (op->o == O_selr)
            c = hev_task_channel_select_read (k->sel[a[0]], a[1]);
        else
            c = hev_task_channel_select_write (k->sel[a[0]], a[1]);
        r = -1;
        if (c) {
            r = -2;
            for (i = 0; i < 32; i++)
                if (k->ch[i] == c)
                    r = i;
        }
        vret (t, op->o, a[0], a[1], 0, r);
        break;
    }
    case O_intr:
        k->intr_left = a[0];
        break;
    default:
        return vexec_io (t, op);
    }

    return 0;
}

static int
run_cmd (int t, Cmd *c)
{
    int i;

    for (i = 0; i < c->cnt; i++)
        if (exec (t, &k->sc->op[c->first + i]))
            return 1;
    return 0;
}

static void
worker (void *data)
{
    int t = (intptr_t)data & 0xffff;
    int n = (intptr_t)data >> 16;
    Script *s = k->sc;
    int i;

    vlog (EV_START, t, 0, n, hev_task_self () == k->task[t],
          hev_task_get_data (k->task[t]) == data, 0);
    if (s->freerun) {
        int no = 0;
        for (i = 0; i < s->ncmd; i++)
            if (s->cmd[i].t == t && ++no == n)
                run_cmd (t, &s->cmd[i]);
    } else {
        for (;;) {
            while (!k->pend[t] && !k->quit[t]) {
                k->idle[t] = 1;
                rest (t, HEV_TASK_WAITIO);
            }
            k->idle[t] = 0;
            if (k->pend[t]) {
                Cmd *c = k->pend[t];
                k->pend[t] = NULL;
                if (run_cmd (t, c))
                    break;
                continue;
            }
            break;
        }
    }
    leave_sets (t);
    vio_leave (t);
    k->started[t]--;
    vlog (EV_DONE, t, 0, n, 0, 0, 0);
}

static void
controller (void *data)
{
    Script *s = k->sc;
    uint64_t v;
    int i;

    hev_task_add_fd (hev_task_self (), k->ctlfd, POLLIN);
    for (;;) {
        int go;

        while (!k->ctlgo)
            hev_task_yield (HEV_TASK_WAITIO);
        if (read (k->ctlfd, &v, sizeof (v)) < 0) {
        }
        go = k->ctlgo;
        k->ctlgo = 0;
        if (go < 0)
            break;
        {
            Step *p = &s->step[go - 1];
            for (i = 0; i < p->cnt; i++) {
                Cmd *c = &s->cmd[p->first + i];
                if (!k->alive[c->t] || !k->idle[c->t] || k->pend[c->t])
                    continue;
                k->pend[c->t] = c;
                hev_task_wakeup (k->task[c->t]);
            }
        }
    }
    for (i = 1; i <= s->ntask; i++) {
        if (!k->alive[i] || !k->started[i])
            continue;
        k->quit[i] = 1;
        if (k->idle[i])
            hev_task_wakeup (k->task[i]);
    }
    hev_task_del_fd (hev_task_self (), k->ctlfd);
}

static void
run_script (Script *s, Log *log)
{
    int i;
    static __thread K kk;

    k = &kk; /* fresh in every process and thread */
    k->sc = s;
    k->log = log;
    k->sec = s->sec;
    k->nsec = s->nsec;
    k->tfd = -1;
    if (hev_task_system_init () < 0) {
        vlog (EV_CRASH, 0, 0, -1, 0, 0, 0);
        return;
    }
    vtime ();
    vio_open ();
    for (i = 0; i < s->nm; i++)
        hev_task_mutex_init (&k->m[i]);
    for (i = 0; i < s->nc; i++)
        hev_task_cond_init (&k->c[i]);
    for (i = 0; i < s->nchan; i++) {
        int r;
        if (s->chan[i].bufs)
            r = hev_task_channel_new_with_buffers (
                &k->ch[2 * i], &k->ch[2 * i + 1], s->chan[i].size,
                s->chan[i].bufs);
        else
            r = hev_task_channel_new (&k->ch[2 * i], &k->ch[2 * i + 1]);
        if (r < 0) {
            k->ch[2 * i] = k->ch[2 * i + 1] = NULL;
            if ((uint64_t)s->chan[i].size * s->chan[i].bufs < (1 << 26))
                vlog (EV_CRASH, 0, 0, -2, 0, 0, 0);
        }
    }
    for (i = 0; i < s->nsel; i++)
        k->sel[i] = hev_task_channel_select_new ();

    k->ctlfd = -1;
    if (!s->freerun) {
        k->ctlfd = eventfd (0, EFD_NONBLOCK);
        k->ctl = hev_task_new (32768);
        hev_task_set_priority (k->ctl, 1);
        hev_task_run (k->ctl, controller, NULL);
    }
    for (i = 1; i <= s->ntask; i++)
        if (s->keepref)
            create (i);
    for (i = 1; i <= s->ntask; i++)
        if (s->autorun[i] == 1)
            vspawn (0, i);

    if (setjmp (k->out) == 0) {
        int phase;
        for (phase = 2;; phase++) {
            int more = 0;
            hev_task_system_run ();
            vlog (EV_SYSRET, 0, 0, 0, 0, 0, 0);
            for (i = 1; i <= s->ntask; i++)
                if (s->autorun[i] == phase) {
                    if (!s->keepref && k->alive[i] && k->ownrefs[i] < 1)
                        continue;
                    vspawn (0, i);
                    more = 1;
                }
            if (!more)
                break;
        }
        if (!s->keepref) {
            /* drop what the script still owns */
            for (i = 1; i <= s->ntask; i++)
                while (k->alive[i] && k->ownrefs[i] > 0) {
                    k->ownrefs[i]--;
                    vcall (0, O_unref, i, 0, 0);
                    hev_task_unref (k->task[i]);
                    vret (0, O_unref, i, 0, 0, 0);
                }
        }
        hev_task_system_fini ();
        vlog (EV_NOTE, 0, O_nop, 0, 0, 0, 0);
    }
    k->reached_end = 1;
}

/* ------------------------------------------------------------ scripts -- */

static int
op_index (const char *n)
{
    int i;

    for (i = 0; i < O_COUNT; i++)
        if (!strcmp (n, opname[i]))
            return i;
    fprintf (stderr, "unknown operation %s\n", n);
    exit (2);
}

static void
parse_cmd (Script *s, char *txt)
{
    char *sv, *tok, *one, *sv2;
    Cmd *c = &s->cmd[s->ncmd++];

    if (s->ncmd >= MAXOPS) {
        fprintf (stderr, "script too long\n");
        exit (2);
    }
    c->t = strtol (txt, &txt, 10);
    c->first = s->nop;
    c->cnt = 0;
    for (one = strtok_r (txt, ";", &sv); one; one = strtok_r (NULL, ";", &sv)) {
        Op *o;
        int n = 0;
        tok = strtok_r (one, " \n", &sv2);
        if (!tok)
            continue;
        if (s->nop >= MAXOPS) {
            fprintf (stderr, "script too long\n");
            exit (2);
        }
        o = &s->op[s->nop++];
        memset (o, 0, sizeof (*o));
        o->o = op_index (tok);
        c->cnt++;
        while ((tok = strtok_r (NULL, " \n", &sv2)) && n < MAXARG)
            o->arg[n++] = strtoll (tok, NULL, 10);
    }
}

static char *line;
static size_t linecap;

/* reads the next script; 0 at end of file */
static int
read_script (FILE *f, Script *s)
{
    ssize_t n;
    int have = 0;

    while ((n = getline (&line, &linecap, f)) > 0) {
        char *p = line + 2;
        switch (line[0]) {
        case 'S':
            memset (s, 0, offsetof (Script, step));
            if (sscanf (p, "%63s %d %d %d %d %ld %ld", s->id, &s->ntask,
                        &s->freerun, &s->states, &s->keepref, &s->sec,
                        &s->nsec) != 7) {
                fprintf (stderr, "bad script header: %s", line);
                exit (2);
            }
            have = 1;
            break;
        case 'G':
            snprintf (s->cfg, sizeof (s->cfg), "%s", p);
            s->cfg[strcspn (s->cfg, "\n")] = 0;
            break;
        case 'T': {
            int t, pr, au;
            sscanf (p, "%d %d %d", &t, &pr, &au);
            s->prio[t] = pr;
            s->autorun[t] = au;
            break;
        }
        case 'O':
            sscanf (p, "%d %d %d", &s->nm, &s->nc, &s->nsel);
            break;
        case 'P':
            /* kind, send buffer, number of descriptor pairs */
            sscanf (p, "%d %d %d", &s->fdset[s->nfdset].type,
                    &s->fdset[s->nfdset].sndbuf, &s->fdset[s->nfdset].count);
            s->nfdset++;
            break;
        case 'W':
            s->gt = 1;
            break;
#ifdef KDRV_BATON
        case 'Z':
            sscanf (p, "%u %u", &sc_seed, &sc_rand);
            break;
        case 'Y': {
            int k;
            sc_nat = 0;
            sc_rand = 0;
            for (; sscanf (p, "%ld %d%n", &sc_at[sc_nat], &sc_to[sc_nat], &k) == 2; p += k)
                sc_nat++;
            break;
        }
#endif
        case 'H':
            sscanf (p, "%u %u", &s->chan[s->nchan].size,
                    &s->chan[s->nchan].bufs);
            s->nchan++;
            break;
        case 'R':
            parse_cmd (s, p);
            break;
        case 'B': {
            Step *st = &s->step[s->nstep++];
            char *sv, *c;
            char *parts[64];
            int i, np = 0;
            st->kind = 'B';
            st->first = s->ncmd;
            for (c = strtok_r (p, "|", &sv); c && np < 64;
                 c = strtok_r (NULL, "|", &sv))
                parts[np++] = c;
            for (i = 0; i < np; i++)
                parse_cmd (s, parts[i]);
            st->cnt = np;
            break;
        }
        case 'A':
        case 'D':
        case 'I': {
            Step *st = &s->step[s->nstep++];
            st->kind = line[0];
            st->arg = n > 2 ? atoll (p) : 0;
            break;
        }
        case 'E':
            return have;
        }
        if (s->nstep >= MAXSTEP) {
            fprintf (stderr, "too many steps\n");
            exit (2);
        }
    }
    return 0;
}

static int
nfd_of (Script *s)
{
    int i, n = 0;

    for (i = 0; i < s->nfdset; i++)
        n += 2 * s->fdset[i].count;
    return n < NGT ? n : NGT;
}

static void
print_trace (FILE *f, Script *s, Log *l, int thread)
{
    int i, j;

    fprintf (f, "{\"id\":\"%s\",\"n\":%d", s->id, s->ntask);
    if (s->cfg[0])
        fprintf (f, ",%s", s->cfg);
    fprintf (f, ",\"ev\":[");
    for (i = 0; i < l->nev; i++) {
        Event *v = &l->ev[i];
        const char *o = v->o < O_COUNT ? opname[v->o] : "?";
        fprintf (f, "%s{\"e\":\"%s\",\"t\":%d,\"o\":\"%s\",\"a\":%ld,\"b\":%ld,"
                    "\"c\":%ld,\"r\":%ld",
                 i ? "," : "", evname[v->e], v->t, o, v->a, v->b, v->c, v->r);
        if (v->nx) {
            fprintf (f, ",\"x\":[");
            for (j = 0; j < v->nx; j++)
                fprintf (f, "%s%ld", j ? "," : "", v->x[j]);
            fprintf (f, "]");
        }
        if (s->gt) {
            int n = nfd_of (s);
            fprintf (f, ",\"p\":[");
            for (j = 0; j < n; j++)
                fprintf (f, "%s%d", j ? "," : "", v->p[j]);
            fprintf (f, "],\"u\":[");
            for (j = 0; j < n; j++)
                fprintf (f, "%s%d", j ? "," : "", v->u[j]);
            fprintf (f, "]");
        }
        if (s->states) {
            fprintf (f, ",\"s\":[");
            for (j = 0; j < s->ntask && j < 32; j++)
                fprintf (f, "%s%d", j ? "," : "", v->st[j]);
            fprintf (f, "]");
        }
        fprintf (f, "}");
    }
    fprintf (f, "]}\n");
}

static void
crash_event (Log *l, int code)
{
    Event *v;

    if (l->nev >= MAXEV)
        l->nev = MAXEV - 1;
    v = &l->ev[l->nev++];
    memset (v, 0, sizeof (*v));
    v->e = EV_CRASH;
    v->a = code;
}

typedef struct
{
    Script *s;
    Log *l;
} Job;

static pthread_barrier_t bar;

static void *
thread_main (void *p)
{
    Job *j = p;

    pthread_barrier_wait (&bar);
    run_script (j->s, j->l);
    return NULL;
}

#define MAXTHR 8

#ifdef KDRV_BATON
static Job bjob[MAXTHR + 1];

static void
bthread (int t)
{
    run_script (bjob[t].s, bjob[t].l);
}
#endif

int
main (int argc, char **argv)
{
    FILE *in, *out;
    Script *s[MAXTHR];
    Log *l[MAXTHR];
    int nthr = argc > 3 ? atoi (argv[3]) : 1;
    int i, slow = 0;

    if (argc < 3)
        return 2;
    in = fopen (argv[1], "r");
    out = fopen (argv[2], "w");
    if (!in || !out)
        return 2;
    for (i = 0; i < nthr; i++) {
        s[i] = __real_calloc (1, sizeof (Script));
        l[i] = __real_mmap (NULL, sizeof (Log), PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    for (;;) {
        int n = 0, st;
        pid_t pid;

        while (n < nthr && read_script (in, s[n])) {
            l[n]->nev = 0;
            l[n]->overflow = 0;
            n++;
        }
        if (!n)
            break;
        if (slow >= 2) {
            /* enough is known; do not run into further time-outs */
            for (i = 0; i < n; i++) {
                crash_event (l[i], 999);
                print_trace (out, s[i], l[i], i);
            }
            continue;
        }
        fflush (out);
        pid = fork ();
        if (pid < 0)
            return 2;
        if (pid == 0) {
            struct rlimit rl = { 5, 5 };
            signal (SIGPIPE, SIG_IGN);
            int nul = open ("/dev/null", O_WRONLY);
            if (!getenv ("KDRV_STDERR"))
                dup2 (nul, 2);
            setrlimit (RLIMIT_CPU, &rl);
            rl.rlim_cur = rl.rlim_max = 0;
            setrlimit (RLIMIT_CORE, &rl);
            if (getrlimit (RLIMIT_NOFILE, &rl) == 0) {
                rl.rlim_cur = rl.rlim_max;
                setrlimit (RLIMIT_NOFILE, &rl);
            }
            alarm (30);
            vguard = getenv ("KDRV_GUARD") != NULL;
#ifdef KDRV_BATON
            for (i = 0; i < n; i++) {
                bjob[i + 1].s = s[i];
                bjob[i + 1].l = l[i];
            }
            sc_all (n, bthread);
            _exit (0);
#endif
            if (nthr == 1) {
                run_script (s[0], l[0]);
            } else {
                pthread_t th[MAXTHR];
                Job j[MAXTHR];
                pthread_barrier_init (&bar, NULL, n);
                for (i = 0; i < n; i++) {
                    j[i].s = s[i];
                    j[i].l = l[i];
                    pthread_create (&th[i], NULL, thread_main, &j[i]);
                }
                for (i = 0; i < n; i++)
                    pthread_join (th[i], NULL);
            }
            _exit (0);
        }
        while (waitpid (pid, &st, 0) < 0 && errno == EINTR)
            ;
        if (WIFSIGNALED (st) &&
            (WTERMSIG (st) == SIGXCPU || WTERMSIG (st) == SIGKILL || WTERMSIG (st) == SIGALRM))
            slow++;
        for (i = 0; i < n; i++) {
            if (WIFSIGNALED (st))
                crash_event (l[i], WTERMSIG (st));
            else if (WEXITSTATUS (st))
                crash_event (l[i], 1000 + WEXITSTATUS (st));
            print_trace (out, s[i], l[i], i);
        }
    }
    if (fclose (out))
        return 2;
    return 0;
}
