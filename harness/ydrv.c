/* Driver of task systems in several controlled threads. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>

#include <hev-task.h>
#include <hev-task-system.h>
#include <hev-task-mutex.h>
#include <hev-task-channel.h>
#include <hev-memory-allocator.h>

#define SC_PTHREAD
#define SC_POINTS 5000000
#include "baton.h"

#define FDS 1024

static char **lines;
static int nlines;
static int fdowner[FDS];
static __thread int fdfail;
static __thread int keyfail;
static long alkey = -1; /* where the allocator of a thread is kept */
static __thread volatile int faults;
static char *page[SC_MAX + 1];
static stack_t alt0[SC_MAX + 1];

static void
sc_refused (void)
{
}

static void
sc_access (void *p, int size, int kind, int mo)
{
    Blk *b = mem_find (p);

    if (b && b->dead)
        trcrash (-4, sc_me);
}

/* ------------------------------------------------------------ stand-ins -- */
static int
fdnew (int fd)
{
    if (fd >= 0 && fd < FDS)
        fdowner[fd] = sc_me;
    return fd;
}

static int
fdrefused (void)
{
    if (fdfail && --fdfail == 0) {
        errno = EMFILE;
        return 1;
    }
    return 0;
}

#define MAKER(name, params, args)                                              \
    int __real_##name params;                                                  \
    int __wrap_##name params                                                   \
    {                                                                          \
        if (fdrefused ())                                                      \
            return -1;                                                         \
        return fdnew (__real_##name args);                                     \
    }
MAKER (epoll_create, (int n), (n))
MAKER (epoll_create1, (int n), (n))
MAKER (timerfd_create, (int c, int f), (c, f))
MAKER (eventfd, (unsigned v, int f), (v, f))

int __real_close (int fd);
int
__wrap_close (int fd)
{
    if (fd >= 0 && fd < FDS) {
        if (fdowner[fd] && fdowner[fd] != sc_me)
            trcrash (-17, sc_me); /* not its own */
        fdowner[fd] = 0;
    }
    if (fcntl (fd, F_GETFD) < 0)
        trcrash (-18, sc_me); /* not open */
    return __real_close (fd);
}

int __real_epoll_wait (int fd, struct epoll_event *ev, int n, int timeout);
int
__wrap_epoll_wait (int fd, struct epoll_event *ev, int n, int timeout)
{
    sc_point ();
    if (sc_me && fdowner[fd] != sc_me)
        trcrash (-17, sc_me);
    return __real_epoll_wait (fd, ev, n, timeout);
}

int
__wrap_epoll_pwait (int fd, struct epoll_event *ev, int n, int timeout, const sigset_t *set)
{
    return __wrap_epoll_wait (fd, ev, n, timeout);
}

int __real_epoll_ctl (int fd, int op, int target, struct epoll_event *ev);
int
__wrap_epoll_ctl (int fd, int op, int target, struct epoll_event *ev)
{
    sc_point ();
    if (sc_me && fdowner[fd] != sc_me)
        trcrash (-17, sc_me);
    return __real_epoll_ctl (fd, op, target, ev);
}

int __real_pthread_setspecific (pthread_key_t key, const void *value);
int
__wrap_pthread_setspecific (pthread_key_t key, const void *value)
{
    if (!sc_me)
        alkey = key;
    if (value && keyfail && key != alkey) {
        keyfail = 0;
        return ENOMEM;
    }
    return __real_pthread_setspecific (key, value);
}

static int
fds (void)
{
    int i, n = 0;

    for (i = 0; i < FDS; i++)
        n += fdowner[i] == sc_me;
    return n;
}

static int
blocks (void)
{
    int i, n = 0;

    for (i = 0; i < mem_n; i++)
        n += mem_blk[i].owner == sc_me && !mem_blk[i].dead;
    return n;
}

/* --------------------------------------------------------------- faults -- */
static void
onfault (int sig, siginfo_t *si, void *u)
{
    if (si->si_addr != page[sc_me])
        _exit (77);
    faults++;
    mprotect (page[sc_me], 4096, PROT_READ | PROT_WRITE);
}

static int
isours (int sig)
{
    struct sigaction sa;

    sigaction (sig, NULL, &sa);
    return sa.sa_sigaction == onfault;
}

static void
fault (int t)
{
    mprotect (page[t], 4096, PROT_NONE);
    faults = 0;
    trv ("call", "fault", t, 0, 0, 0);
    *(volatile char *)page[t] = 1;
    trv ("ret", "fault", t, 0, 0, faults);
}

/* ---------------------------------------------------------------- tasks -- */
typedef struct
{
    int t, n; /* thread, number */
    char prog[64];
} Job;

static __thread Job jobs[16];
static __thread HevTaskMutex mutex;
static __thread int inside;
static __thread HevTask *tasks[16];

static void
task_entry (void *data)
{
    Job *j = data;
    unsigned char *blk[8] = { 0 };
    int i, k, n = 0;

    for (i = 0; j->prog[i]; i++) {
        if (hev_task_self () != tasks[j->n] || sc_me != j->t)
            trcrash (-21, j->n);
        switch (j->prog[i]) {
        case 'y':
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 's':
            hev_task_sleep (1);
            break;
        case 'm':
            if (n < 8) {
                int z = 1 + (j->n * 37 + i * 11) % 300;
                blk[n] = hev_malloc (z);
                if (!blk[n])
                    trcrash (-6, j->n);
                memset (blk[n], j->t * 16 + n, z);
                n++;
            }
            break;
        case 'f':
            if (n) {
                n--;
                if (blk[n][0] != j->t * 16 + n)
                    trcrash (-6, j->n);
                hev_free (blk[n]);
            }
            break;
        case 'l':
            hev_task_mutex_lock (&mutex);
            if (inside++)
                trcrash (-22, j->n);
            hev_task_yield (HEV_TASK_YIELD);
            inside--;
            hev_task_mutex_unlock (&mutex);
            break;
        case 'g':
            fault (j->t);
            break;
        case 'i':
            trv ("call", "init", j->t, fds (), blocks (), 0);
            k = hev_task_system_init ();
            trv ("ret", "init", j->t, fds (), blocks (), k);
            break;
        }
        trv ("step", "nop", j->t, j->n, i + 1, 0);
    }
    while (n)
        hev_free (blk[--n]);
}

/* run thread prog prog ... */
static void
run (int t, char *line)
{
    char w[64];
    long len[16];
    int n = 0, k = 0;

    sscanf (line, "%*s %*d%n", &k);
    hev_task_mutex_init (&mutex);
    inside = 0;
    for (line += k; n < 15 && sscanf (line, "%63s%n", w, &k) == 1; line += k) {
        Job *j = &jobs[++n];
        j->t = t;
        j->n = n;
        strcpy (j->prog, strcmp (w, "-") ? w : "");
        len[n - 1] = strlen (j->prog);
    }
    trx ("call", "run", t, n, 0, 0, n, len);
    for (k = 1; k <= n; k++) {
        tasks[k] = hev_task_new (16384);
        if (!tasks[k])
            trcrash (-6, t);
        hev_task_run (tasks[k], task_entry, &jobs[k]);
    }
    hev_task_system_run ();
    trv ("ret", "run", t, n, 0, 0);
}

static void
work (int t)
{
    unsigned long a[8];
    char op[32];
    stack_t st;
    int i, r;

    mem_owner = t;
    sigaltstack (NULL, &alt0[t]);
    for (i = 0; i < nlines; i++) {
        if (trargs (lines[i], op, a, 8) < 1 || a[0] != t)
            continue;
        if (!strcmp (op, "init")) { /* thread, failing allocation, failing descriptor, failing store */
            trv ("call", "init", t, fds (), blocks (), a[1] || a[2] || a[3]);
            mem_fail = a[1];
            fdfail = a[2];
            keyfail = a[3];
            r = hev_task_system_init ();
            mem_fail = fdfail = keyfail = 0;
            trv ("ret", "init", t, fds (), blocks (), r);
        } else if (!strcmp (op, "fini")) {
            trv ("call", "fini", t, 0, 0, 0);
            hev_task_system_fini ();
            trv ("ret", "fini", t, fds (), blocks (), 0);
        } else if (!strcmp (op, "run")) {
            run (t, lines[i]);
        } else if (!strcmp (op, "fault")) {
            fault (t);
        } else if (!strcmp (op, "peek")) {
            sigaltstack (NULL, &st);
            trv ("op", "peek", t, isours (SIGSEGV) && isours (SIGBUS),
                 st.ss_flags == alt0[t].ss_flags && st.ss_sp == alt0[t].ss_sp, 0);
        }
    }
}

static void
trscript (char **line, int n)
{
    struct sigaction sa = { 0 };
    unsigned long a[4096];
    char op[32];
    int i, j, k, threads = 0;

    signal (SIGPIPE, SIG_IGN);
    lines = line;
    nlines = n;
    for (i = 0; i <= SC_MAX; i++)
        page[i] = mmap (NULL, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sa.sa_sigaction = onfault;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction (SIGSEGV, &sa, NULL);
    sigaction (SIGBUS, &sa, NULL);
    for (i = 0; i < n; i++) {
        k = trargs (line[i], op, a, 4096);
        if (!strcmp (op, "threads")) {
            threads = a[0];
        } else if (!strcmp (op, "at")) {
            for (j = 0; j + 1 < k; j += 2) {
                sc_at[sc_nat] = a[j];
                sc_to[sc_nat++] = a[j + 1];
            }
        } else if (!strcmp (op, "random")) {
            sc_seed = a[0];
            sc_rand = a[1];
        }
    }
    hev_free (hev_malloc (1));
    sc_all (threads, work);
    mem_check_all ();
    for (i = 0; i <= SC_MAX; i++)
        munmap (page[i], 4096);
    trv ("op", "after", isours (SIGSEGV) && isours (SIGBUS), 0, 0, 0);
}

int
main (int argc, char **argv)
{
    return trmain (argc, argv);
}
